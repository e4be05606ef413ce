"""Imports modules of the current /repo tree without its compiled extensions.

The extension modules are replaced by stand-ins: the harness gives the classes it
models, and every other name is a placeholder that cannot be used."""

import importlib
import os
import sys
import time
import types
from pathlib import Path

import numpy
import sym
import z3

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
REAL = {n: getattr(time, n) for n in ("perf_counter", "time", "monotonic", "process_time")}
NOW = [0.0]  # what the clocks show, where a harness models time


def _clock():
    return NOW[0]


class Model:
    """Base of the stand-ins: using what is not modelled leaves the path undecided."""

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        raise sym.Unsupported(f"{type(self).__name__}.{name} is not modelled")


def genuine(exc):
    exc.genuine = True
    return exc


class _Missing(type):
    def __getattr__(cls, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        raise sym.Unsupported(f"{cls.__name__}.{name} is not modelled")

    def __call__(cls, *a, **k):
        raise sym.Unsupported(f"{cls.__name__} is not modelled")


class _Stub(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        cls = _Missing(name, (), {"__module__": self.__name__})
        setattr(self, name, cls)
        return cls


def fresh(stubs=None, core=None, search=None):
    """Forgets all repo modules and prepares the package with the given stand-ins."""
    for n in [n for n in sys.modules if n == "pyvrp" or n.startswith("pyvrp.")]:
        del sys.modules[n]
    for n in REAL:
        setattr(time, n, _clock)
    NOW[0] = 0.0
    pkg = types.ModuleType("pyvrp")
    pkg.__path__ = [str(REPO / "pyvrp")]
    sys.modules["pyvrp"] = pkg
    for name, attrs in {"pyvrp._pyvrp": core or {}, "pyvrp.search._search": search or {}, **(stubs or {})}.items():
        m = _Stub(name)
        for k, v in attrs.items():
            setattr(m, k, v)
        sys.modules[name] = m
    return pkg


def get(name):
    sys.dont_write_bytecode = True
    return importlib.import_module(name)


def patch(module, **names):
    for k, v in names.items():
        setattr(module, k, v)


def sym_isinstance(obj, types_):
    if isinstance(obj, sym.SymInt):
        return isinstance(0, types_) or isinstance(obj, types_)
    if isinstance(obj, sym.SymReal):
        return isinstance(0.0, types_) or isinstance(obj, types_)
    if isinstance(obj, sym.SymBool):
        return isinstance(True, types_) or isinstance(obj, types_)
    return isinstance(obj, types_)


class _SymIntType(type):
    def __instancecheck__(cls, obj):
        return sym_isinstance(obj, int)

    def __call__(cls, v=0, *a):
        if isinstance(v, sym.SymReal):
            return v.__trunc__()
        if isinstance(v, sym.SymInt):
            return v
        if isinstance(v, sym.SymBool):
            return sym.wrap(sym.num(v.t))
        return int(v, *a)


class sym_int(metaclass=_SymIntType):
    """Stands in for int where the code converts or tests values."""


def sym_builtins(module):
    """Conversions and type tests in the module understand the proxies."""
    patch(module, isinstance=sym_isinstance, int=sym_int)


def _any_sym(x):
    if isinstance(x, sym.Sym):
        return True
    if isinstance(x, (list, tuple)):
        return any(map(_any_sym, x))
    if isinstance(x, numpy.ndarray):
        return x.dtype == object and any(isinstance(v, sym.Sym) for v in x.flat)
    return False


class Numpy:
    """numpy, except that converting proxies to floating point keeps them (they are
    exact reals already)."""

    def __getattr__(self, name):
        f = getattr(numpy, name)
        if not callable(f) or isinstance(f, type):
            return f

        def call(*a, **kw):
            if kw.get("dtype") in (float, numpy.float64, "float", "float64") and any(map(_any_sym, [*a, *kw.values()])):
                kw["dtype"] = object
            elif any(x is float or x is numpy.float64 for x in a) and any(map(_any_sym, a)):
                a = [object if x is float or x is numpy.float64 else x for x in a]
            return f(*a, **kw)

        return call


class sym_float(float):
    """Stands in for float where the code converts values."""

    def __new__(cls, v=0.0):
        if isinstance(v, sym.Sym):
            return sym.wrap(z3.ToReal(sym.num(v.t)) if z3.is_int(sym.num(v.t)) else v.t)
        return float(v)

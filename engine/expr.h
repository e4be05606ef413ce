// Hash-consed symbolic expressions over mathematical integers (with explicit
// wrap nodes where the interval analysis cannot exclude overflow), booleans,
// exact dyadic doubles and (in bv mode) raw bit-vector terms.
#pragma once
#include <cstdint>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef __int128 i128;
typedef unsigned __int128 u128;

enum class Op : uint8_t
{
    CONST,  // integer constant k
    VAR,    // integer variable
    LIN,    // k + sum coef*term
    MUL,    // nonlinear a*b
    DIV,    // floor(a / k), k > 0 constant
    MOD,    // a mod k (floor), k > 0 constant
    DIVNL,  // truncated division a / b, b symbolic
    MAX,
    MIN,
    ITE,  // integer ite(a: bool, b, c)
    // Booleans
    TRUE_,
    FALSE_,
    LE0,  // a <= 0
    EQ0,  // a == 0
    NOT,
    AND,
    OR,
    // Other
    FDY,     // double: a * 2^-k (exact)
    CONCAT,  // opaque multi-part value; parts in terms (ptr=value, coef=offset*256+size)
    RAW,     // bv mode: z3 ast of width k (bool if k==0)
};

struct E
{
    Op op;
    uint32_t id;
    const E *a = nullptr, *b = nullptr, *c = nullptr;
    i128 k = 0;
    std::vector<std::pair<const E *, i128>> t;
    i128 lo = 0, hi = 0;
    void *z = nullptr;  // Z3_ast (owned by ref inc)
    // eval cache
    mutable uint32_t egen = 0;
    mutable i128 eval = 0;
    std::string name;
    bool isBool() const
    {
        return (op >= Op::TRUE_ && op <= Op::OR) || (op == Op::RAW && k == 0);
    }
};
typedef const E *X;

struct Unsupported
{
    std::string what;
};

static const i128 INF = (i128)1 << 120;

X mkConst(i128 v);
X mkBool(bool b);
X mkVar(const std::string &name, i128 lo, i128 hi);
X mkLin(std::vector<std::pair<X, i128>> t, i128 k);
X mkAdd(X a, X b);
X mkSub(X a, X b);
X mkScale(X a, i128 c);
X mkMul(X a, X b);
X mkDivFloor(X a, i128 k);
X mkModFloor(X a, i128 k);
X mkDivTrunc(X a, X b);
X mkRemTrunc(X a, X b);
X mkMax(X a, X b);
X mkMin(X a, X b);
X mkIte(X c, X a, X b);
X mkLE0(X a);
X mkEQ0(X a);
X mkLE(X a, X b);
X mkLT(X a, X b);
X mkEQ(X a, X b);
X mkNot(X a);
X mkAnd(X a, X b);
X mkOr(X a, X b);
X mkIteB(X c, X a, X b);
X mkWrap(X a, unsigned w);  // signed wrap to width w
X mkToU(X a, unsigned w);   // unsigned interpretation of signed-w value
X mkFdy(X m, int scale);
X mkConcat(std::vector<std::pair<X, i128>> parts);
X mkRaw(void *ast, int width);
bool isConst(X a);
std::string exprStr(X a, int depth = 6);

struct Model
{
    std::unordered_map<X, i128> v;
    uint32_t gen = 0;
};
i128 evalX(X e, const Model &m);

#include "expr.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>

static uint32_t nextId = 1;
struct KeyHash
{
    size_t operator()(const E *e) const
    {
        size_t h = (size_t)e->op * 1000003;
        auto mix = [&](size_t v) { h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; };
        mix((size_t)e->a);
        mix((size_t)e->b);
        mix((size_t)e->c);
        mix((size_t)e->k);
        mix((size_t)(e->k >> 64));
        for (auto &p : e->t)
        {
            mix((size_t)p.first);
            mix((size_t)p.second);
        }
        if (e->op == Op::VAR)
            mix(std::hash<std::string>()(e->name));
        if (e->op == Op::RAW)
            mix((size_t)e->z);
        return h;
    }
};
struct KeyEq
{
    bool operator()(const E *x, const E *y) const
    {
        if (x->op != y->op || x->a != y->a || x->b != y->b || x->c != y->c || x->k != y->k)
            return false;
        if (x->op == Op::VAR && x->name != y->name)
            return false;
        if (x->op == Op::RAW && x->z != y->z)
            return false;
        return x->t == y->t;
    }
};
#include <unordered_set>
static std::unordered_set<E *, KeyHash, KeyEq> table;

static i128 clampI(i128 v) { return v > INF ? INF : (v < -INF ? -INF : v); }
static i128 mulSat(i128 a, i128 b)
{
    if (a == 0 || b == 0)
        return 0;
    bool inf = a >= INF || a <= -INF || b >= INF || b <= -INF;
    bool neg = (a < 0) != (b < 0);
    if (inf)
        return neg ? -INF : INF;
    i128 r;
    if (__builtin_mul_overflow(a, b, &r))
        return neg ? -INF : INF;
    return clampI(r);
}
static i128 addSat(i128 a, i128 b)
{
    if (a >= INF || b >= INF)
        return (a <= -INF || b <= -INF) ? 0 : INF;  // mixed never used
    if (a <= -INF || b <= -INF)
        return -INF;
    return clampI(a + b);
}

static X intern(E &&tmp)
{
    auto it = table.find(&tmp);
    if (it != table.end())
        return *it;
    E *e = new E(std::move(tmp));
    e->id = nextId++;
    table.insert(e);
    return e;
}

bool isConst(X a) { return a->op == Op::CONST || a->op == Op::TRUE_ || a->op == Op::FALSE_; }

X mkConst(i128 v)
{
    E e;
    e.op = Op::CONST;
    e.k = v;
    e.lo = e.hi = v;
    return intern(std::move(e));
}
X mkBool(bool b)
{
    static X t = nullptr, f = nullptr;
    if (!t)
    {
        E e;
        e.op = Op::TRUE_;
        e.lo = e.hi = 1;
        t = intern(std::move(e));
        E g;
        g.op = Op::FALSE_;
        f = intern(std::move(g));
    }
    return b ? t : f;
}
X mkVar(const std::string &name, i128 lo, i128 hi)
{
    E e;
    e.op = Op::VAR;
    e.name = name;
    e.lo = lo;
    e.hi = hi;
    return intern(std::move(e));
}

X mkLin(std::vector<std::pair<X, i128>> t, i128 k)
{
    // flatten
    std::vector<std::pair<X, i128>> u;
    u.reserve(t.size() + 8);
    for (auto &[x, c] : t)
    {
        if (c == 0)
            continue;
        if (x->op == Op::CONST)
            k += c * x->k;
        else if (x->op == Op::LIN)
        {
            k += c * x->k;
            for (auto &[y, d] : x->t)
                u.push_back({y, c * d});
        }
        else
            u.push_back({x, c});
    }
    std::sort(u.begin(), u.end(), [](auto &p, auto &q) { return p.first->id < q.first->id; });
    std::vector<std::pair<X, i128>> r;
    for (auto &p : u)
        if (!r.empty() && r.back().first == p.first)
            r.back().second += p.second;
        else
            r.push_back(p);
    r.erase(std::remove_if(r.begin(), r.end(), [](auto &p) { return p.second == 0; }), r.end());
    if (r.empty())
        return mkConst(k);
    if (r.size() == 1 && r[0].second == 1 && k == 0)
        return r[0].first;
    E e;
    e.op = Op::LIN;
    e.k = k;
    i128 lo = k, hi = k;
    for (auto &[x, c] : r)
    {
        i128 l = mulSat(c, x->lo), h = mulSat(c, x->hi);
        if (l > h)
            std::swap(l, h);
        lo = (lo <= -INF || l <= -INF) ? -INF : addSat(lo, l);
        hi = (hi >= INF || h >= INF) ? INF : addSat(hi, h);
    }
    e.lo = lo;
    e.hi = hi;
    e.t = std::move(r);
    return intern(std::move(e));
}
X mkAdd(X a, X b) { return mkLin({{a, 1}, {b, 1}}, 0); }
X mkSub(X a, X b) { return mkLin({{a, 1}, {b, -1}}, 0); }
X mkScale(X a, i128 c) { return mkLin({{a, c}}, 0); }

// Number of constant leaves in an ITE tree with constant leaves, or -1.
static int iteLeaves(X a, int budget = 16)
{
    if (a->op == Op::CONST)
        return 1;
    if (a->op != Op::ITE)
        return -1;
    int l = iteLeaves(a->b, budget - 1);
    if (l < 0)
        return -1;
    int r = iteLeaves(a->c, budget - l);
    if (r < 0 || l + r > budget)
        return -1;
    return l + r;
}

X mkMul(X a, X b)
{
    if (a->op == Op::CONST)
        return mkScale(b, a->k);
    if (b->op == Op::CONST)
        return mkScale(a, b->k);
    if (iteLeaves(a) > 0)
    {
        return mkIte(a->a, mkMul(a->b, b), mkMul(a->c, b));
    }
    if (iteLeaves(b) > 0)
        return mkIte(b->a, mkMul(a, b->b), mkMul(a, b->c));
    if (a->id > b->id)
        std::swap(a, b);
    E e;
    e.op = Op::MUL;
    e.a = a;
    e.b = b;
    i128 v[4] = {mulSat(a->lo, b->lo), mulSat(a->lo, b->hi), mulSat(a->hi, b->lo), mulSat(a->hi, b->hi)};
    e.lo = *std::min_element(v, v + 4);
    e.hi = *std::max_element(v, v + 4);
    return intern(std::move(e));
}
static i128 floorDiv(i128 a, i128 k)
{
    i128 q = a / k;
    if (a % k != 0 && (a < 0))
        --q;
    return q;
}
X mkDivFloor(X a, i128 k)
{
    if (k == 1)
        return a;
    if (a->op == Op::CONST)
        return mkConst(floorDiv(a->k, k));
    if (a->lo > -INF && a->hi < INF && floorDiv(a->lo, k) == floorDiv(a->hi, k))
        return mkConst(floorDiv(a->lo, k));
    if (a->op == Op::LIN)
    {
        // pull out exact multiples
        std::vector<std::pair<X, i128>> q, r;
        for (auto &p : a->t)
            if (p.second % k == 0)
                q.push_back({p.first, p.second / k});
            else
                r.push_back(p);
        i128 qk = floorDiv(a->k, k), rk = a->k - qk * k;
        if (!q.empty() || qk != 0)
        {
            X rest = mkLin(r, rk);
            q.push_back({mkDivFloor(rest, k), 1});
            return mkLin(q, qk);
        }
    }
    E e;
    e.op = Op::DIV;
    e.a = a;
    e.k = k;
    e.lo = a->lo <= -INF ? -INF : floorDiv(a->lo, k);
    e.hi = a->hi >= INF ? INF : floorDiv(a->hi, k);
    return intern(std::move(e));
}
X mkModFloor(X a, i128 k)
{
    if (k == 1)
        return mkConst(0);
    if (a->op == Op::CONST)
        return mkConst(a->k - floorDiv(a->k, k) * k);
    if (a->lo >= 0 && a->hi < k)
        return a;
    if (a->op == Op::LIN)
    {
        bool ch = false;
        auto t = a->t;
        for (auto &p : t)
        {
            i128 m = p.second - floorDiv(p.second, k) * k;
            if (p.second < 0)
            {
                i128 m2 = m - k;  // keep sign for small negatives
                if (m2 == p.second)
                    m = m2;
            }
            if (m != p.second)
                ch = true;
            p.second = m;
        }
        i128 kk = a->k - floorDiv(a->k, k) * k;
        if (ch || kk != a->k)
        {
            X n = mkLin(t, kk);
            if (n != a)
                return mkModFloor(n, k);
        }
    }
    E e;
    e.op = Op::MOD;
    e.a = a;
    e.k = k;
    e.lo = 0;
    e.hi = k - 1;
    return intern(std::move(e));
}
X mkDivTrunc(X a, X b)
{
    if (b->op == Op::CONST)
    {
        i128 k = b->k;
        if (k < 0)
            return mkScale(mkDivTrunc(a, mkConst(-k)), -1);
        if (a->lo >= 0)
            return mkDivFloor(a, k);
        if (a->hi <= 0)
            return mkScale(mkDivFloor(mkScale(a, -1), k), -1);
        return mkIte(mkLE(mkConst(0), a), mkDivFloor(a, k), mkScale(mkDivFloor(mkScale(a, -1), k), -1));
    }
    if (iteLeaves(b) > 0)
        return mkIte(b->a, mkDivTrunc(a, b->b), mkDivTrunc(a, b->c));
    if (a->lo >= 0 && b->lo > 0)
    {
        E e;
        e.op = Op::DIVNL;
        e.a = a;
        e.b = b;
        e.lo = 0;
        e.hi = a->hi;
        return intern(std::move(e));
    }
    throw Unsupported{"signed division by symbolic value"};
}
X mkRemTrunc(X a, X b) { return mkSub(a, mkMul(b, mkDivTrunc(a, b))); }

X mkMax(X a, X b)
{
    if (a == b)
        return a;
    X d = mkSub(a, b);
    if (d->lo >= 0)
        return a;
    if (d->hi <= 0)
        return b;
    if (a->id > b->id)
        std::swap(a, b);
    E e;
    e.op = Op::MAX;
    e.a = a;
    e.b = b;
    e.lo = std::max(a->lo, b->lo);
    e.hi = std::max(a->hi, b->hi);
    return intern(std::move(e));
}
X mkMin(X a, X b)
{
    if (a == b)
        return a;
    X d = mkSub(a, b);
    if (d->lo >= 0)
        return b;
    if (d->hi <= 0)
        return a;
    if (a->id > b->id)
        std::swap(a, b);
    E e;
    e.op = Op::MIN;
    e.a = a;
    e.b = b;
    e.lo = std::min(a->lo, b->lo);
    e.hi = std::min(a->hi, b->hi);
    return intern(std::move(e));
}
X mkIte(X c, X a, X b)
{
    if (a->isBool())
        return mkIteB(c, a, b);
    if (c->op == Op::TRUE_)
        return a;
    if (c->op == Op::FALSE_)
        return b;
    if (a == b)
        return a;
    if (c->op == Op::NOT)
        return mkIte(c->a, b, a);
    // max/min recognition: ite(x - y <= 0, y, x) = max etc.
    if (c->op == Op::LE0)
    {
        X d = mkSub(a, b);
        if (d == c->a)
            return mkMin(a, b);
        X nd = mkSub(b, a);
        if (nd == c->a)
            return mkMax(a, b);
        // strict: c = (p - q + 1 <= 0)
        if (mkLin({{d, 1}}, 1) == c->a)
            return mkMin(a, b);
        if (mkLin({{nd, 1}}, 1) == c->a)
            return mkMax(a, b);
    }
    if (a->op == Op::ITE && a->a == c)
        return mkIte(c, a->b, b);
    if (b->op == Op::ITE && b->a == c)
        return mkIte(c, a, b->c);
    E e;
    e.op = Op::ITE;
    e.a = c;
    e.b = a;
    e.c = b;
    e.lo = std::min(a->lo, b->lo);
    e.hi = std::max(a->hi, b->hi);
    return intern(std::move(e));
}
static i128 gcdI(i128 a, i128 b)
{
    if (a < 0)
        a = -a;
    if (b < 0)
        b = -b;
    while (b)
    {
        i128 t = a % b;
        a = b;
        b = t;
    }
    return a;
}
X mkLE0(X a)
{
    if (a->hi <= 0)
        return mkBool(true);
    if (a->lo > 0)
        return mkBool(false);
    if (a->op == Op::ITE && iteLeaves(a) > 0)
        return mkIteB(a->a, mkLE0(a->b), mkLE0(a->c));
    if (a->op == Op::ITE)
    {
        auto const decided = [](X x) { return x->hi <= 0 || x->lo > 0; };
        if (decided(a->b) || decided(a->c))
            return mkIteB(a->a, mkLE0(a->b), mkLE0(a->c));
    }
    if (a->op == Op::MAX)
        return mkAnd(mkLE0(a->a), mkLE0(a->b));
    if (a->op == Op::MIN)
        return mkOr(mkLE0(a->a), mkLE0(a->b));
    if (a->op == Op::LIN)
    {
        // k + sum c x <= 0, divide by gcd: sum (c/g) x <= floor(-k/g)
        i128 g = 0;
        for (auto &p : a->t)
            g = gcdI(g, p.second);
        if (a->t.size() == 1 && a->t[0].first->op == Op::ITE && iteLeaves(a->t[0].first) > 0)
        {
            X y = a->t[0].first;
            i128 c = a->t[0].second;
            return mkIteB(y->a, mkLE0(mkLin({{y->b, c}}, a->k)), mkLE0(mkLin({{y->c, c}}, a->k)));
        }
        if (a->t.size() == 1 && a->t[0].first->op == Op::ITE)
        {
            X y = a->t[0].first;
            X p = mkLin({{y->b, a->t[0].second}}, a->k), q = mkLin({{y->c, a->t[0].second}}, a->k);
            auto const decided = [](X x) { return x->hi <= 0 || x->lo > 0; };
            if (decided(p) || decided(q))
                return mkIteB(y->a, mkLE0(p), mkLE0(q));
        }
        if (g > 1)
        {
            auto t = a->t;
            for (auto &p : t)
                p.second /= g;
            i128 nk = -floorDiv(-a->k, g);
            return mkLE0(mkLin(t, nk));
        }
    }
    E e;
    e.op = Op::LE0;
    e.a = a;
    e.hi = 1;
    return intern(std::move(e));
}
X mkEQ0(X a)
{
    if (a->lo > 0 || a->hi < 0)
        return mkBool(false);
    if (a->lo == 0 && a->hi == 0)
        return mkBool(true);
    if (a->lo == 0)
        return mkLE0(a);
    if (a->hi == 0)
        return mkLE0(mkScale(a, -1));
    if (a->op == Op::ITE && iteLeaves(a) > 0)
        return mkIteB(a->a, mkEQ0(a->b), mkEQ0(a->c));
    if (a->op == Op::LIN)
    {
        if (a->t.size() == 1 && a->t[0].first->op == Op::ITE && iteLeaves(a->t[0].first) > 0)
        {
            X y = a->t[0].first;
            i128 c = a->t[0].second;
            return mkIteB(y->a, mkEQ0(mkLin({{y->b, c}}, a->k)), mkEQ0(mkLin({{y->c, c}}, a->k)));
        }
        i128 g = 0;
        for (auto &p : a->t)
            g = gcdI(g, p.second);
        if (g > 1)
        {
            if (a->k % g != 0)
                return mkBool(false);
            auto t = a->t;
            for (auto &p : t)
                p.second /= g;
            return mkEQ0(mkLin(t, a->k / g));
        }
        if (a->t[0].second < 0)
            return mkEQ0(mkScale(a, -1));
    }
    E e;
    e.op = Op::EQ0;
    e.a = a;
    e.hi = 1;
    return intern(std::move(e));
}
X mkLE(X a, X b) { return mkLE0(mkSub(a, b)); }
X mkLT(X a, X b) { return mkLE0(mkLin({{a, 1}, {b, -1}}, 1)); }
X mkEQ(X a, X b)
{
    if (a->isBool())
        return mkIteB(a, b, mkNot(b));
    return mkEQ0(mkSub(a, b));
}
X mkNot(X a)
{
    switch (a->op)
    {
    case Op::TRUE_:
        return mkBool(false);
    case Op::FALSE_:
        return mkBool(true);
    case Op::NOT:
        return a->a;
    case Op::LE0:
        return mkLE0(mkLin({{a->a, -1}}, 1));
    case Op::AND:
        return mkOr(mkNot(a->a), mkNot(a->b));
    case Op::OR:
        return mkAnd(mkNot(a->a), mkNot(a->b));
    default:;
    }
    E e;
    e.op = Op::NOT;
    e.a = a;
    e.hi = 1;
    return intern(std::move(e));
}
X mkAnd(X a, X b)
{
    if (a->op == Op::FALSE_ || b->op == Op::FALSE_)
        return mkBool(false);
    if (a->op == Op::TRUE_ || a == b)
        return b;
    if (b->op == Op::TRUE_)
        return a;
    if (a->id > b->id)
        std::swap(a, b);
    E e;
    e.op = Op::AND;
    e.a = a;
    e.b = b;
    e.hi = 1;
    return intern(std::move(e));
}
X mkOr(X a, X b)
{
    if (a->op == Op::TRUE_ || b->op == Op::TRUE_)
        return mkBool(true);
    if (a->op == Op::FALSE_ || a == b)
        return b;
    if (b->op == Op::FALSE_)
        return a;
    if (a->id > b->id)
        std::swap(a, b);
    E e;
    e.op = Op::OR;
    e.a = a;
    e.b = b;
    e.hi = 1;
    return intern(std::move(e));
}
X mkIteB(X c, X a, X b)
{
    if (c->op == Op::TRUE_)
        return a;
    if (c->op == Op::FALSE_)
        return b;
    if (a == b)
        return a;
    if (a->op == Op::TRUE_)
        return mkOr(c, b);
    if (a->op == Op::FALSE_)
        return mkAnd(mkNot(c), b);
    if (b->op == Op::TRUE_)
        return mkOr(mkNot(c), a);
    if (b->op == Op::FALSE_)
        return mkAnd(c, a);
    return mkOr(mkAnd(c, a), mkAnd(mkNot(c), b));
}
X mkWrap(X a, unsigned w)
{
    i128 half = (i128)1 << (w - 1), full = (i128)1 << w;
    if (a->lo >= -half && a->hi < half)
        return a;
    // ((a + half) mod full) - half
    return mkLin({{mkModFloor(mkLin({{a, 1}}, half), full), 1}}, -half);
}
X mkToU(X a, unsigned w)
{
    if (a->lo >= 0)
        return a;
    i128 full = (i128)1 << w;
    if (a->hi < 0)
        return mkLin({{a, 1}}, full);
    return mkModFloor(a, full);
}
X mkFdy(X m, int s)
{
    E e;
    e.op = Op::FDY;
    e.a = m;
    e.k = s;
    e.lo = -INF;
    e.hi = INF;
    return intern(std::move(e));
}
X mkConcat(std::vector<std::pair<X, i128>> p)
{
    E e;
    e.op = Op::CONCAT;
    e.t = std::move(p);
    e.lo = -INF;
    e.hi = INF;
    return intern(std::move(e));
}
X mkRaw(void *ast, int w)
{
    E e;
    e.op = Op::RAW;
    e.z = ast;
    e.k = w;
    e.lo = -INF;
    e.hi = INF;
    return intern(std::move(e));
}

i128 evalX(X e, const Model &m)
{
    if (e->egen == m.gen)
        return e->eval;
    i128 r = 0;
    switch (e->op)
    {
    case Op::CONST:
        r = e->k;
        break;
    case Op::VAR:
    {
        auto it = m.v.find(e);
        r = it == m.v.end() ? std::max(e->lo, std::min<i128>(e->hi, 0)) : it->second;
        break;
    }
    case Op::LIN:
        r = e->k;
        for (auto &[x, c] : e->t)
            r += c * evalX(x, m);
        break;
    case Op::MUL:
        r = evalX(e->a, m) * evalX(e->b, m);
        break;
    case Op::DIV:
        r = floorDiv(evalX(e->a, m), e->k);
        break;
    case Op::MOD:
    {
        i128 v = evalX(e->a, m);
        r = v - floorDiv(v, e->k) * e->k;
        break;
    }
    case Op::DIVNL:
    {
        i128 d = evalX(e->b, m);
        r = d ? evalX(e->a, m) / d : 0;
        break;
    }
    case Op::MAX:
        r = std::max(evalX(e->a, m), evalX(e->b, m));
        break;
    case Op::MIN:
        r = std::min(evalX(e->a, m), evalX(e->b, m));
        break;
    case Op::ITE:
        r = evalX(e->a, m) ? evalX(e->b, m) : evalX(e->c, m);
        break;
    case Op::TRUE_:
        r = 1;
        break;
    case Op::FALSE_:
        r = 0;
        break;
    case Op::LE0:
        r = evalX(e->a, m) <= 0;
        break;
    case Op::EQ0:
        r = evalX(e->a, m) == 0;
        break;
    case Op::NOT:
        r = !evalX(e->a, m);
        break;
    case Op::AND:
        r = evalX(e->a, m) && evalX(e->b, m);
        break;
    case Op::OR:
        r = evalX(e->a, m) || evalX(e->b, m);
        break;
    default:
        throw Unsupported{"eval of opaque expression"};
    }
    e->egen = m.gen;
    e->eval = r;
    return r;
}

static std::string i128s(i128 v)
{
    if (v == 0)
        return "0";
    bool n = v < 0;
    u128 u = n ? -(u128)v : (u128)v;
    std::string s;
    while (u)
    {
        s += char('0' + (int)(u % 10));
        u /= 10;
    }
    if (n)
        s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}
std::string exprStr(X e, int d)
{
    if (d == 0)
        return "..";
    auto s = [&](X y) { return exprStr(y, d - 1); };
    switch (e->op)
    {
    case Op::CONST:
        return i128s(e->k);
    case Op::VAR:
        return e->name;
    case Op::LIN:
    {
        std::string r = "(" + i128s(e->k);
        for (auto &[x, c] : e->t)
            r += (c == 1 ? "+" : "+" + i128s(c) + "*") + s(x);
        return r + ")";
    }
    case Op::MUL:
        return s(e->a) + "*" + s(e->b);
    case Op::DIV:
        return "div(" + s(e->a) + "," + i128s(e->k) + ")";
    case Op::MOD:
        return "mod(" + s(e->a) + "," + i128s(e->k) + ")";
    case Op::DIVNL:
        return "divnl(" + s(e->a) + "," + s(e->b) + ")";
    case Op::MAX:
        return "max(" + s(e->a) + "," + s(e->b) + ")";
    case Op::MIN:
        return "min(" + s(e->a) + "," + s(e->b) + ")";
    case Op::ITE:
        return "ite(" + s(e->a) + "," + s(e->b) + "," + s(e->c) + ")";
    case Op::TRUE_:
        return "true";
    case Op::FALSE_:
        return "false";
    case Op::LE0:
        return s(e->a) + "<=0";
    case Op::EQ0:
        return s(e->a) + "==0";
    case Op::NOT:
        return "!(" + s(e->a) + ")";
    case Op::AND:
        return "(" + s(e->a) + " && " + s(e->b) + ")";
    case Op::OR:
        return "(" + s(e->a) + " || " + s(e->b) + ")";
    case Op::FDY:
        return "dbl(" + s(e->a) + "," + i128s(e->k) + ")";
    case Op::CONCAT:
        return "concat";
    case Op::RAW:
        return "raw";
    }
    return "?";
}

// Symbolic executor for LLVM IR. Memory is real process memory (concrete
// layout) plus a shadow map for symbolic values; exploration forks the process
// at feasible two-way branches. See DESIGN.md.
#include "expr.h"

#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <z3.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

using namespace llvm;

// ---------------------------------------------------------------- options
static bool bvMode = false;
static int jobs = 8;
static double timeoutS = 600;
static uint64_t maxInsts = 200000000;
static unsigned solverRlimit = 0;
static unsigned queryTimeoutMs = 120000;
static std::string outPath = "out.jsonl";
static int sampleEvery = 0;
static bool verbose = false;
static bool keepGoing = false;

static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- shared
struct SiteStat
{
    std::atomic<int> used;
    char msg[160];
    std::atomic<uint64_t> count;    // times reached
    std::atomic<uint64_t> queries;  // discharged by solver
};
struct Shared
{
    std::atomic<int> tokens;
    std::atomic<int> stop;
    std::atomic<uint64_t> paths, queries, sat, unsat, unknown, insts, forks, violations, inconclusive, solverUs,
        trivial, samples, killed, maxvars, nativeCalls;
    SiteStat sites[4096];
    std::atomic<uint8_t> fnUsed[1 << 16];
    std::atomic<uint64_t> forkAt[1 << 12];
};
static Shared *sh;
static double startT;

static int siteIndex(const char *kind, const char *msg)
{
    std::string m = std::string(kind) + msg;
    if (m.size() > 158)
        m.resize(158);
    size_t h = std::hash<std::string>()(m) % 4096;
    for (int i = 0; i < 4096; ++i)
    {
        auto &s = sh->sites[(h + i) % 4096];
        int u = s.used.load();
        if (u == 0)
        {
            int z = 0;
            if (s.used.compare_exchange_strong(z, 1))
            {
                strcpy(s.msg, m.c_str());
                s.used = 2;
                return (h + i) % 4096;
            }
        }
        while (s.used.load() == 1)
            ;
        if (!strcmp(s.msg, m.c_str()))
            return (h + i) % 4096;
    }
    return 0;
}

static std::string jstr(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, 8, "\\u%04x", c);
            r += b;
        }
        else
            r += c;
    }
    return r + "\"";
}
static void emit(const std::string &line)
{
    int fd = open(outPath.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
    std::string l = line + "\n";
    if (write(fd, l.data(), l.size()) < 0)
        perror("write");
    close(fd);
}

// ---------------------------------------------------------------- memory
static const size_t REGION = (size_t)4 << 30;
static char *region, *heapPtr, *stackBase, *stackPtr;
struct Obj
{
    uint64_t base, size;
    uint8_t kind;  // 0 global 1 heap 2 stack
    bool alive;
    bool constant;
};
static std::vector<Obj> objs;
static uint32_t *granObj;     // per 16 bytes -> obj index + 1
static uint8_t *granShadow;   // per 16 bytes: has shadow
struct Sh
{
    X e;
    uint8_t size;
};
static std::unordered_map<uint64_t, Sh> shadow;

static bool inRegion(uint64_t p) { return p >= (uint64_t)region && p < (uint64_t)region + REGION; }
static inline size_t gran(uint64_t p) { return (p - (uint64_t)region) >> 4; }

static uint64_t allocObj(char *&bump, uint64_t size, uint64_t align, uint8_t kind)
{
    if (align < 16)
        align = 16;
    uint64_t a = ((uint64_t)bump + align - 1) & ~(align - 1);
    uint64_t sz = size ? size : 1;
    bump = (char *)(a + ((sz + 15) & ~15ull) + 16);  // redzone
    if ((uint64_t)bump > (uint64_t)region + REGION)
        throw Unsupported{"out of region memory"};
    objs.push_back({a, size, kind, true, false});
    uint32_t id = objs.size();
    for (size_t g = gran(a); g <= gran(a + sz - 1); ++g)
        granObj[g] = id;
    return a;
}

// The engine's own operator new/delete: native code may free region memory.
void operator delete(void *p) noexcept
{
    if (inRegion((uint64_t)p))
    {
        uint32_t o = granObj[gran((uint64_t)p)];
        if (o)
            objs[o - 1].alive = false;
        return;
    }
    free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void *operator new(size_t n)
{
    void *p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }

// ---------------------------------------------------------------- solver
static Z3_context zc;
static Z3_ast keep(Z3_ast a)
{
    Z3_inc_ref(zc, a);
    return a;
}
// Terms are never released: a worker process lives for one path only.
#define Z3_mk_add(...) keep(Z3_mk_add(__VA_ARGS__))
#define Z3_mk_and(...) keep(Z3_mk_and(__VA_ARGS__))
#define Z3_mk_bvadd(...) keep(Z3_mk_bvadd(__VA_ARGS__))
#define Z3_mk_bvand(...) keep(Z3_mk_bvand(__VA_ARGS__))
#define Z3_mk_bvashr(...) keep(Z3_mk_bvashr(__VA_ARGS__))
#define Z3_mk_bvlshr(...) keep(Z3_mk_bvlshr(__VA_ARGS__))
#define Z3_mk_bvmul(...) keep(Z3_mk_bvmul(__VA_ARGS__))
#define Z3_mk_bvneg(...) keep(Z3_mk_bvneg(__VA_ARGS__))
#define Z3_mk_bvor(...) keep(Z3_mk_bvor(__VA_ARGS__))
#define Z3_mk_bvsdiv(...) keep(Z3_mk_bvsdiv(__VA_ARGS__))
#define Z3_mk_bvsge(...) keep(Z3_mk_bvsge(__VA_ARGS__))
#define Z3_mk_bvsgt(...) keep(Z3_mk_bvsgt(__VA_ARGS__))
#define Z3_mk_bvshl(...) keep(Z3_mk_bvshl(__VA_ARGS__))
#define Z3_mk_bvsle(...) keep(Z3_mk_bvsle(__VA_ARGS__))
#define Z3_mk_bvslt(...) keep(Z3_mk_bvslt(__VA_ARGS__))
#define Z3_mk_bvsrem(...) keep(Z3_mk_bvsrem(__VA_ARGS__))
#define Z3_mk_bvsub(...) keep(Z3_mk_bvsub(__VA_ARGS__))
#define Z3_mk_bvudiv(...) keep(Z3_mk_bvudiv(__VA_ARGS__))
#define Z3_mk_bvuge(...) keep(Z3_mk_bvuge(__VA_ARGS__))
#define Z3_mk_bvugt(...) keep(Z3_mk_bvugt(__VA_ARGS__))
#define Z3_mk_bvule(...) keep(Z3_mk_bvule(__VA_ARGS__))
#define Z3_mk_bvult(...) keep(Z3_mk_bvult(__VA_ARGS__))
#define Z3_mk_bvurem(...) keep(Z3_mk_bvurem(__VA_ARGS__))
#define Z3_mk_bvxor(...) keep(Z3_mk_bvxor(__VA_ARGS__))
#define Z3_mk_concat(...) keep(Z3_mk_concat(__VA_ARGS__))
#define Z3_mk_const(...) keep(Z3_mk_const(__VA_ARGS__))
#define Z3_mk_div(...) keep(Z3_mk_div(__VA_ARGS__))
#define Z3_mk_eq(...) keep(Z3_mk_eq(__VA_ARGS__))
#define Z3_mk_extract(...) keep(Z3_mk_extract(__VA_ARGS__))
#define Z3_mk_false(...) keep(Z3_mk_false(__VA_ARGS__))
#define Z3_mk_ge(...) keep(Z3_mk_ge(__VA_ARGS__))
#define Z3_mk_int64(...) keep(Z3_mk_int64(__VA_ARGS__))
#define Z3_mk_ite(...) keep(Z3_mk_ite(__VA_ARGS__))
#define Z3_mk_le(...) keep(Z3_mk_le(__VA_ARGS__))
#define Z3_mk_mod(...) keep(Z3_mk_mod(__VA_ARGS__))
#define Z3_mk_mul(...) keep(Z3_mk_mul(__VA_ARGS__))
#define Z3_mk_not(...) keep(Z3_mk_not(__VA_ARGS__))
#define Z3_mk_numeral(...) keep(Z3_mk_numeral(__VA_ARGS__))
#define Z3_mk_or(...) keep(Z3_mk_or(__VA_ARGS__))
#define Z3_mk_sign_ext(...) keep(Z3_mk_sign_ext(__VA_ARGS__))
#define Z3_mk_true(...) keep(Z3_mk_true(__VA_ARGS__))
#define Z3_mk_unsigned_int64(...) keep(Z3_mk_unsigned_int64(__VA_ARGS__))
#define Z3_mk_xor(...) keep(Z3_mk_xor(__VA_ARGS__))
#define Z3_mk_zero_ext(...) keep(Z3_mk_zero_ext(__VA_ARGS__))
#define Z3_simplify(...) keep(Z3_simplify(__VA_ARGS__))
static Z3_solver zs;
static Z3_sort intSort;
static std::vector<X> pc;
static std::set<X> pcSet;
static Model model;
static bool modelValid = true;
static uint32_t genCounter = 1;
static std::vector<std::pair<std::string, X>> inputs;  // in creation order
static std::vector<std::pair<std::string, Z3_ast>> bvInputs;
static std::vector<std::pair<std::string, X>> observed;
static std::vector<std::string> obsConcrete;

static Z3_ast zint(i128 v)
{
    if (v >= INT64_MIN && v <= INT64_MAX)
        return Z3_mk_int64(zc, (int64_t)v, intSort);
    bool n = v < 0;
    u128 u = n ? -(u128)v : (u128)v;
    std::string s;
    while (u)
    {
        s += char('0' + (int)(u % 10));
        u /= 10;
    }
    if (n)
        s += '-';
    std::reverse(s.begin(), s.end());
    return Z3_mk_numeral(zc, s.c_str(), intSort);
}
static Z3_ast tr(X e)
{
    if (e->z)
        return (Z3_ast)e->z;
    Z3_ast r = nullptr;
    switch (e->op)
    {
    case Op::CONST:
        r = zint(e->k);
        break;
    case Op::VAR:
        r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, e->name.c_str()), intSort);
        break;
    case Op::LIN:
    {
        std::vector<Z3_ast> v;
        for (auto &[x, c] : e->t)
        {
            Z3_ast t = tr(x);
            if (c != 1)
            {
                Z3_ast m[2] = {zint(c), t};
                t = Z3_mk_mul(zc, 2, m);
            }
            v.push_back(t);
        }
        if (e->k != 0)
            v.push_back(zint(e->k));
        r = v.size() == 1 ? v[0] : Z3_mk_add(zc, v.size(), v.data());
        break;
    }
    case Op::MUL:
    {
        Z3_ast m[2] = {tr(e->a), tr(e->b)};
        r = Z3_mk_mul(zc, 2, m);
        break;
    }
    case Op::DIV:
        r = Z3_mk_div(zc, tr(e->a), zint(e->k));
        break;
    case Op::MOD:
        r = Z3_mk_mod(zc, tr(e->a), zint(e->k));
        break;
    case Op::DIVNL:
        r = Z3_mk_div(zc, tr(e->a), tr(e->b));
        break;
    case Op::MAX:
    {
        Z3_ast a = tr(e->a), b = tr(e->b);
        r = Z3_mk_ite(zc, Z3_mk_ge(zc, a, b), a, b);
        break;
    }
    case Op::MIN:
    {
        Z3_ast a = tr(e->a), b = tr(e->b);
        r = Z3_mk_ite(zc, Z3_mk_le(zc, a, b), a, b);
        break;
    }
    case Op::ITE:
        r = Z3_mk_ite(zc, tr(e->a), tr(e->b), tr(e->c));
        break;
    case Op::TRUE_:
        r = Z3_mk_true(zc);
        break;
    case Op::FALSE_:
        r = Z3_mk_false(zc);
        break;
    case Op::LE0:
    {
        // move constant to the right-hand side
        if (e->a->op == Op::LIN)
        {
            X l = mkLin(e->a->t, 0);
            r = Z3_mk_le(zc, tr(l), zint(-e->a->k));
        }
        else
            r = Z3_mk_le(zc, tr(e->a), zint(0));
        break;
    }
    case Op::EQ0:
        if (e->a->op == Op::LIN)
        {
            X l = mkLin(e->a->t, 0);
            r = Z3_mk_eq(zc, tr(l), zint(-e->a->k));
        }
        else
            r = Z3_mk_eq(zc, tr(e->a), zint(0));
        break;
    case Op::NOT:
        r = Z3_mk_not(zc, tr(e->a));
        break;
    case Op::AND:
    {
        Z3_ast m[2] = {tr(e->a), tr(e->b)};
        r = Z3_mk_and(zc, 2, m);
        break;
    }
    case Op::OR:
    {
        Z3_ast m[2] = {tr(e->a), tr(e->b)};
        r = Z3_mk_or(zc, 2, m);
        break;
    }
    default:
        throw Unsupported{"opaque value reached the solver"};
    }
    const_cast<E *>(e)->z = keep(r);
    return r;
}

static void zerr(Z3_context c, Z3_error_code ec)
{
    throw Unsupported{std::string("z3 error: ") + Z3_get_error_msg(c, ec)};
}
static void initSolver()
{
    if (!getenv("SYMEX_DIO"))
        Z3_global_param_set("lp.dio", "false");
    Z3_config cfg = Z3_mk_config();
    zc = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(zc, zerr);
    zs = bvMode ? Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV")) : Z3_mk_simple_solver(zc);
    Z3_solver_inc_ref(zc, zs);
    Z3_params p = Z3_mk_params(zc);
    Z3_params_inc_ref(zc, p);
    if (solverRlimit)
        Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), solverRlimit);
    Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "random_seed"), 1);
    Z3_solver_set_params(zc, zs, p);
    intSort = Z3_mk_int_sort(zc);
    Z3_inc_ref(zc, Z3_sort_to_ast(zc, intSort));
}

struct PathEnd
{
};  // path finished (assume false / violation / budget)

static void assertPC(X c)
{
    if (c->op == Op::TRUE_)
        return;
    if (c->op == Op::AND)
    {
        assertPC(c->a);
        assertPC(c->b);
        return;
    }
    if (!pcSet.insert(c).second)
        return;
    pc.push_back(c);
    Z3_solver_assert(zc, zs, tr(c));
}

static i128 parseNum(const char *s)
{
    i128 v = 0;
    bool n = false;
    if (*s == '-')
    {
        n = true;
        ++s;
    }
    for (; *s; ++s)
    {
        if (*s < '0' || *s > '9')
            throw Unsupported{std::string("non-numeral in model: ") + s};
        v = v * 10 + (*s - '0');
    }
    return n ? -v : v;
}

static Model extractModel()
{
    Model m;
    m.gen = ++genCounter;
    Z3_model zm = Z3_solver_get_model(zc, zs);
    Z3_model_inc_ref(zc, zm);
    for (auto &[n, x] : inputs)
    {
        if (x->op != Op::VAR)
            continue;
        Z3_ast r;
        if (Z3_model_eval(zc, zm, tr(x), true, &r))
        {
            Z3_inc_ref(zc, r);
            m.v[x] = parseNum(Z3_get_numeral_string(zc, r));
            Z3_dec_ref(zc, r);
        }
    }
    Z3_model_dec_ref(zc, zm);
    return m;
}
static std::vector<std::pair<std::string, std::string>> bvModel;
static void extractBV()
{
    bvModel.clear();
    Z3_model zm = Z3_solver_get_model(zc, zs);
    Z3_model_inc_ref(zc, zm);
    for (auto &[n, a] : bvInputs)
    {
        Z3_ast r;
        if (Z3_model_eval(zc, zm, a, true, &r))
        {
            Z3_inc_ref(zc, r);
            std::string s = Z3_get_numeral_string(zc, r);
            uint64_t u = strtoull(s.c_str(), 0, 10);
            bvModel.push_back({n, std::to_string((int64_t)u)});
            Z3_dec_ref(zc, r);
        }
    }
    Z3_model_dec_ref(zc, zm);
}

static void checkDeadline()
{
    if (sh->stop.load())
        throw PathEnd{};
    if (now() - startT > timeoutS)
    {
        if (sh->killed++ == 0)
            emit("{\"kind\":\"inconclusive\",\"what\":\"time budget exhausted\"}");
        sh->inconclusive++;
        sh->stop = 1;
        throw PathEnd{};
    }
}

#include <csignal>
#include <sys/time.h>
static void finishAll();
static pid_t rootPid;
static std::string entryName;
static volatile sig_atomic_t alarmHit = 0;
// The solver does not check for interrupts everywhere: when it goes on regardless,
// the path is given up.
static void onAlarm(int)
{
    alarmHit = alarmHit + 1;
    if (alarmHit < 3)
    {
        if (zc)
            Z3_interrupt(zc);
        return;
    }
    sh->unknown++;
    sh->inconclusive++;
    emit("{\"kind\":\"inconclusive\",\"what\":\"solver did not stop in time\"}");
    finishAll();
    _exit(0);
}

// 1 sat, 0 unsat, -1 unknown. If sat and m, fills in the model.
static int query(X c, Model *m)
{
    checkDeadline();
    sh->queries++;
    double t0 = now();
    Z3_solver_push(zc, zs);
    Z3_solver_assert(zc, zs, tr(c));
    double left = timeoutS - (now() - startT) + 5;
    double lim = std::min(left, queryTimeoutMs / 1000.0);
    struct itimerval it = {};
    it.it_value.tv_sec = (long)lim;
    it.it_value.tv_usec = 1000;
    it.it_interval.tv_sec = 5;
    alarmHit = 0;
    setitimer(ITIMER_REAL, &it, nullptr);
    Z3_lbool r = Z3_solver_check(zc, zs);
    it = {};
    setitimer(ITIMER_REAL, &it, nullptr);
    int res = r == Z3_L_TRUE ? 1 : (r == Z3_L_FALSE ? 0 : -1);
    if (res == 1 && bvMode)
        extractBV();
    else if (res == 1 && m)
        *m = extractModel();
    Z3_solver_pop(zc, zs, 1);
    double dt = now() - t0;
    sh->solverUs += (uint64_t)(dt * 1e6);
    if (verbose && dt > 5)
        fprintf(stderr, "[slow query %.1fs res=%d] %s\n", dt, res, exprStr(c, 5).substr(0, 400).c_str());
    if (res == 1)
        sh->sat++;
    else if (res == 0)
        sh->unsat++;
    else
        sh->unknown++;
    return res;
}

static std::vector<pid_t> kids;
static void reap(bool all)
{
    for (size_t i = 0; i < kids.size();)
    {
        int st;
        pid_t r;
        while ((r = waitpid(kids[i], &st, all ? 0 : WNOHANG)) < 0 && errno == EINTR)
            ;
        if (r == kids[i])
        {
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
            {
                sh->inconclusive++;
                emit("{\"kind\":\"inconclusive\",\"what\":\"worker died, status " + std::to_string(st) + "\"}");
            }
            kids.erase(kids.begin() + i);
        }
        else
            ++i;
    }
}
static bool ownToken = false;
static int depth = 0;
static void finishProcess()
{
    reap(true);
    if (ownToken)
        sh->tokens++;
}
// Fork; returns true in the child.
static bool doFork()
{
    sh->forks++;
    checkDeadline();
    reap(false);
    fflush(stdout);
    fflush(stderr);
    bool conc = false;
    int t = sh->tokens.load();
    while (t > 0)
        if (sh->tokens.compare_exchange_weak(t, t - 1))
        {
            conc = true;
            break;
        }
    pid_t p = fork();
    if (p < 0)
        throw Unsupported{"fork failed"};
    if (p == 0)
    {
        kids.clear();
        ownToken = conc;
        ++depth;
        return true;
    }
    if (conc)
        kids.push_back(p);
    else
    {
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR)
            ;
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
        {
            sh->inconclusive++;
            emit("{\"kind\":\"inconclusive\",\"what\":\"worker died, status " + std::to_string(st) + "\"}");
        }
    }
    return false;
}

static uint64_t curForkSite = 0;
static std::string inputsJson(const Model &m)
{
    std::string s = "[";
    bool first = true;
    if (bvMode)
    {
        for (auto &[n, v] : bvModel)
        {
            s += (first ? "" : ",") + ("[" + jstr(n)) + "," + v + "]";
            first = false;
        }
    }
    else
        for (auto &[n, x] : inputs)
        {
            s += (first ? "" : ",") + ("[" + jstr(n)) + "," + std::to_string((int64_t)evalX(x, m)) + "]";
            first = false;
        }
    return s + "]";
}

static std::string stackTrace();
static void inconclusive(const std::string &what)
{
    sh->inconclusive++;
    std::string ins;
    try
    {
        ins = inputsJson(model);
    }
    catch (...)
    {
        ins = "[]";
    }
    emit("{\"kind\":\"inconclusive\",\"what\":" + jstr(what) + ",\"stack\":" + jstr(stackTrace()) + ",\"inputs\":" + ins
         + "}");
}
static void violation(const std::string &msg, const Model &m)
{
    sh->violations++;
    emit("{\"kind\":\"violation\",\"msg\":" + jstr(msg) + ",\"inputs\":" + inputsJson(m) + ",\"stack\":"
         + jstr(stackTrace()) + "}");
    if (!keepGoing)
        sh->stop = 1;
}

// Decide a symbolic condition; forks when both sides are feasible.
static bool decide(X c)
{
    if (c->op == Op::TRUE_)
        return true;
    if (c->op == Op::FALSE_)
        return false;
    if (pcSet.count(c))
        return true;
    X nc;
    if (bvMode)
        nc = mkRaw(keep(Z3_mk_not(zc, tr(c))), 0);
    else
        nc = mkNot(c);
    if (pcSet.count(nc))
        return false;
    if (bvMode)
    {
        int r1 = query(c, nullptr);
        if (r1 == 0)
        {
            assertPC(nc);
            return false;
        }
        int r2 = query(nc, nullptr);
        if (r2 == 0)
        {
            assertPC(c);
            return true;
        }
        if (r1 < 0 || r2 < 0)
            inconclusive("solver unknown on branch");
        sh->forkAt[curForkSite & 4095]++;
        bool child = doFork();
        assertPC(child ? nc : c);
        return !child;
    }
    bool side = evalX(c, model) != 0;
    X other = side ? nc : c, mine = side ? c : nc;
    Model om;
    int r = query(other, &om);
    if (r == 0)
    {
        pcSet.insert(mine);  // implied
        return side;
    }
    if (r < 0)
    {
        // Unknown: explore only the known-feasible side and say so.
        inconclusive("solver unknown on branch");
        assertPC(mine);
        return side;
    }
    sh->forkAt[curForkSite & 4095]++;
    if (doFork())
    {
        model = om;
        model.gen = ++genCounter;
        assertPC(other);
        return !side;
    }
    assertPC(mine);
    return side;
}

static int64_t concretise(X e, unsigned w)
{
    if (e->isBool())
        return decide(e) ? 1 : 0;
    if (e->op == Op::CONST)
        return (int64_t)e->k;
    if (bvMode)
    {
        for (;;)
        {
            checkDeadline();
            Z3_lbool r = Z3_solver_check(zc, zs);
            sh->queries++;
            if (r != Z3_L_TRUE)
                throw Unsupported{"bv concretise: unknown"};
            Z3_model zm = Z3_solver_get_model(zc, zs);
            Z3_model_inc_ref(zc, zm);
            Z3_ast v;
            Z3_model_eval(zc, zm, tr(e), true, &v);
            keep(v);
            std::string s = Z3_get_numeral_string(zc, v);
            Z3_model_dec_ref(zc, zm);
            X eq = mkRaw(keep(Z3_mk_eq(zc, tr(e), v)), 0);
            if (decide(eq))
                return (int64_t)strtoull(s.c_str(), 0, 10);
        }
    }
    if (e->op == Op::FDY || e->op == Op::CONCAT)
        throw Unsupported{"concretise opaque"};
    for (;;)
    {
        i128 v = evalX(e, model);
        if (decide(mkEQ(e, mkConst(v))))
            return (int64_t)v;
    }
}

// ---------------------------------------------------------------- values
struct Val
{
    uint64_t c = 0;
    X s = nullptr;
};
static uint64_t maskW(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static int64_t sextW(uint64_t v, unsigned w)
{
    if (w >= 64)
        return (int64_t)v;
    return (int64_t)(v << (64 - w)) >> (64 - w);
}
static Z3_sort bvSort(unsigned w)
{
    static Z3_sort s[129] = {nullptr};
    if (!s[w])
    {
        s[w] = Z3_mk_bv_sort(zc, w);
        Z3_inc_ref(zc, Z3_sort_to_ast(zc, s[w]));
    }
    return s[w];
}
static Z3_ast bvc(uint64_t v, unsigned w)
{
    return Z3_mk_unsigned_int64(zc, v, bvSort(w));
}
static X toX(const Val &v, unsigned w)
{
    if (v.s)
        return v.s;
    if (w == 1)
    {
        if (bvMode)
            return mkRaw(keep(v.c & 1 ? Z3_mk_true(zc) : Z3_mk_false(zc)), 0);
        return mkBool(v.c & 1);
    }
    if (bvMode)
        return mkRaw(keep(bvc(v.c, w)), w);
    return mkConst(sextW(v.c, w));
}
static Val fromX(X x, unsigned w)
{
    Val r;
    if (x->op == Op::CONST)
        r.c = maskW((uint64_t)x->k, w);
    else if (x->op == Op::TRUE_)
        r.c = 1;
    else if (x->op == Op::FALSE_)
        r.c = 0;
    else
    {
        if (x->op == Op::RAW)
        {
            Z3_ast s = Z3_simplify(zc, (Z3_ast)x->z);
            if (x->k > 0 && Z3_is_numeral_ast(zc, s))
            {
                uint64_t u;
                Z3_get_numeral_uint64(zc, s, &u);
                r.c = u;
                return r;
            }
            if (x->k == 0)
            {
                Z3_lbool b = Z3_get_bool_value(zc, s);
                if (b != Z3_L_UNDEF)
                {
                    r.c = b == Z3_L_TRUE;
                    return r;
                }
            }
            r.s = mkRaw(keep(s), (int)x->k);
            return r;
        }
        r.s = x;
    }
    return r;
}
static X b2i(X b, i128 t) { return mkIte(b, mkConst(t), mkConst(0)); }

// exact doubles
static bool dyadic(double d, i128 &m, int &s)
{
    if (!std::isfinite(d))
        return false;
    int e;
    double f = frexp(d, &e);  // d = f * 2^e
    m = (i128)(int64_t)ldexp(f, 53);
    s = 53 - e;
    if (m == 0)
    {
        s = 0;
        return true;
    }
    while (m % 2 == 0)
    {
        m /= 2;
        --s;
    }
    if (s < 0)
    {
        if (s < -60)
            return false;
        m <<= -s;
        s = 0;
    }
    return true;
}
static const i128 EX = (i128)1 << 53;
static X fdy(const Val &v)
{
    if (v.s)
    {
        if (v.s->op != Op::FDY)
            throw Unsupported{"float op on non-float symbolic"};
        return v.s;
    }
    double d;
    memcpy(&d, &v.c, 8);
    i128 m;
    int s;
    if (!dyadic(d, m, s))
        throw Unsupported{"non-dyadic double with symbolic operand"};
    return mkFdy(mkConst(m), s);
}
static Val fdyVal(X m, int s)
{
    if ((m->lo < -EX || m->hi > EX) && m->op != Op::CONST)
    {
        // The interval is too wide to tell; the path condition may still bound it.
        static std::unordered_set<X> bounded;
        if (!bounded.count(m))
        {
            X const out = mkOr(mkLT(mkConst(EX), m), mkLT(m, mkConst(-EX)));
            if (bvMode || query(out, nullptr) != 0)
                throw Unsupported{"double computation not provably exact"};
            bounded.insert(m);
        }
    }
    Val r;
    if (m->op == Op::CONST)
    {
        double d = ldexp((double)(int64_t)m->k, -s);
        memcpy(&r.c, &d, 8);
    }
    else
        r.s = mkFdy(m, s);
    return r;
}
static X scaleTo(X f, int s) { return mkScale(f->a, (i128)1 << (s - (int)f->k)); }

// ---------------------------------------------------------------- memory access
static std::string curLoc();
struct MemErr
{
    std::string what;
};
static inline void boundsCheck(uint64_t p, uint64_t n, bool write)
{
    if (!inRegion(p))
    {
        if (p < 65536)
            throw MemErr{"null/invalid pointer dereference"};
        return;  // native memory
    }
    uint32_t o = granObj[gran(p)];
    if (!o)
        throw MemErr{"access outside any object"};
    const Obj &ob = objs[o - 1];
    if (!ob.alive)
        throw MemErr{"use of dead object"};
    if (p < ob.base || p + n > ob.base + ob.size)
        throw MemErr{"out-of-bounds access"};
}
static inline bool anyShadow(uint64_t p, uint64_t n)
{
    if (!inRegion(p) || n == 0)
        return false;
    for (size_t g = gran(p); g <= gran(p + n - 1); ++g)
        if (granShadow[g])
            return true;
    return false;
}
// Shadow entries overlapping [p, p+n).
static void overlapping(uint64_t p, uint64_t n, std::vector<uint64_t> &out)
{
    out.clear();
    for (uint64_t a = p >= 7 ? p - 7 : 0; a < p + n; ++a)
    {
        auto it = shadow.find(a);
        if (it != shadow.end() && a + it->second.size > p)
            out.push_back(a);
    }
}
static std::vector<uint64_t> ovl;
static void clearShadow(uint64_t p, uint64_t n)
{
    if (!anyShadow(p, n))
        return;
    if (n > 64)
    {
        // iterate granule-wise
        for (size_t g = gran(p); g <= gran(p + n - 1); ++g)
            if (granShadow[g])
            {
                uint64_t ga = (uint64_t)region + (g << 4);
                for (uint64_t a = std::max(ga, p); a < std::min(ga + 16, p + n); ++a)
                    shadow.erase(a);
            }
        return;
    }
    overlapping(p, n, ovl);
    auto list = ovl;
    for (uint64_t a : list)
    {
        Sh s = shadow[a];
        if (a < p || a + s.size > p + n)
        {
            // partial overwrite of a symbolic value: only CONCAT can be split
            throw Unsupported{"partial overwrite of symbolic value"};
        }
        shadow.erase(a);
    }
}
static void storeVal(uint64_t p, unsigned bytes, const Val &v, unsigned w)
{
    boundsCheck(p, bytes, true);
    clearShadow(p, bytes);
    if (!v.s)
    {
        memcpy((void *)p, &v.c, bytes);
        return;
    }
    if (!inRegion(p))
        throw Unsupported{"symbolic store to native memory"};
    X e = v.s;
    if (e->op == Op::CONCAT)
    {
        memset((void *)p, 0, bytes);
        for (auto &[x, os] : e->t)
        {
            uint64_t off = (uint64_t)os / 256, sz = (uint64_t)os % 256;
            if (x->op == Op::CONST)
            {
                uint64_t cv = (uint64_t)x->k;
                memcpy((void *)(p + off), &cv, sz);
            }
            else
            {
                shadow[p + off] = {x, (uint8_t)sz};
                granShadow[gran(p + off)] = 1;
            }
        }
        return;
    }
    if (w == 1 && e->isBool())
        e = bvMode ? mkRaw(keep(Z3_mk_ite(zc, tr(e), bvc(1, bytes * 8), bvc(0, bytes * 8))), bytes * 8) : b2i(e, 1);
    shadow[p] = {e, (uint8_t)bytes};
    for (size_t g = gran(p); g <= gran(p + bytes - 1); ++g)
        granShadow[g] = 1;
}
static Val loadVal(uint64_t p, unsigned bytes, unsigned w)
{
    boundsCheck(p, bytes, false);
    Val r;
    if (!anyShadow(p, bytes))
    {
        memcpy(&r.c, (void *)p, bytes);
        r.c = maskW(r.c, w);
        return r;
    }
    auto it = shadow.find(p);
    if (it != shadow.end() && it->second.size == bytes)
    {
        X e = it->second.e;
        if (w == 1)
        {
            if (bvMode)
                return fromX(mkRaw(keep(Z3_mk_eq(zc, Z3_mk_extract(zc, 0, 0, tr(e)), bvc(1, 1))), 0), 1);
            return fromX(mkEQ(mkModFloor(e, 2), mkConst(1)), 1);
        }
        r.s = e;
        return r;
    }
    overlapping(p, bytes, ovl);
    if (ovl.empty())
    {
        memcpy(&r.c, (void *)p, bytes);
        r.c = maskW(r.c, w);
        return r;
    }
    if (bvMode)
    {
        // assemble bytewise
        Z3_ast acc = nullptr;
        for (unsigned i = 0; i < bytes; ++i)
        {
            Z3_ast b = nullptr;
            for (uint64_t a : ovl)
            {
                Sh s = shadow[a];
                if (p + i >= a && p + i < a + s.size)
                {
                    unsigned o = (p + i - a) * 8;
                    b = Z3_mk_extract(zc, o + 7, o, tr(s.e));
                }
            }
            if (!b)
                b = bvc(*(uint8_t *)(p + i), 8);
            acc = acc ? Z3_mk_concat(zc, b, acc) : b;
            keep(acc);
        }
        return fromX(mkRaw(keep(acc), bytes * 8), bytes * 8);
    }
    // int mode: narrower load inside, or wider composite copy
    std::vector<std::pair<X, i128>> parts;
    uint64_t pos = p;
    if (ovl.size() == 1 && (ovl[0] < p || ovl[0] + shadow[ovl[0]].size > p + bytes))
    {
        Sh s = shadow[ovl[0]];
        if (ovl[0] <= p && ovl[0] + s.size >= p + bytes && s.e->op != Op::FDY && s.e->op != Op::CONCAT)
        {
            X u = mkToU(s.e, s.size * 8);
            X sh_ = mkDivFloor(u, (i128)1 << ((p - ovl[0]) * 8));
            return fromX(mkWrap(mkModFloor(sh_, (i128)1 << (bytes * 8)), w), w);
        }
        throw Unsupported{"partial load of symbolic value"};
    }
    for (uint64_t a : ovl)
    {
        Sh s = shadow[a];
        if (a < p || a + s.size > p + bytes)
            throw Unsupported{"misaligned load of symbolic value"};
        while (pos < a)
        {
            uint64_t n = a - pos;
            while (n & (n - 1))
                n &= n - 1;
            uint64_t cv = 0;
            memcpy(&cv, (void *)pos, n);
            parts.push_back({mkConst((i128)cv), (i128)((pos - p) * 256 + n)});
            pos += n;
        }
        parts.push_back({s.e, (i128)((a - p) * 256 + s.size)});
        pos = a + s.size;
    }
    while (pos < p + bytes)
    {
        uint64_t n = p + bytes - pos;
        while (n & (n - 1))
            n &= n - 1;
        uint64_t cv = 0;
        memcpy(&cv, (void *)pos, n);
        parts.push_back({mkConst((i128)cv), (i128)((pos - p) * 256 + n)});
        pos += n;
    }
    r.s = mkConcat(parts);
    return r;
}
// Resolve a CONCAT into an integer (little endian) for arithmetic use.
static X resolveInt(X e, unsigned w)
{
    if (e->op != Op::CONCAT)
        return e;
    X acc = mkConst(0);
    for (auto &[x, os] : e->t)
    {
        uint64_t off = (uint64_t)os / 256, sz = (uint64_t)os % 256;
        acc = mkAdd(acc, mkScale(mkToU(x, sz * 8), (i128)1 << (off * 8)));
    }
    return mkWrap(acc, w);
}
static void copyMem(uint64_t d, uint64_t s, uint64_t n)
{
    if (n == 0)
        return;
    boundsCheck(d, n, true);
    boundsCheck(s, n, false);
    bool ss = anyShadow(s, n);
    std::vector<std::pair<uint64_t, Sh>> mv;
    if (ss)
    {
        for (size_t g = gran(s); g <= gran(s + n - 1); ++g)
            if (granShadow[g])
            {
                uint64_t ga = (uint64_t)region + (g << 4);
                for (uint64_t a = std::max(ga, s); a < std::min(ga + 16, s + n); ++a)
                {
                    auto it = shadow.find(a);
                    if (it != shadow.end())
                    {
                        if (a + it->second.size > s + n)
                            throw Unsupported{"memcpy cuts symbolic value"};
                        mv.push_back({a - s, it->second});
                    }
                }
            }
    }
    clearShadow(d, n);
    memmove((void *)d, (void *)s, n);
    if (!mv.empty() && !inRegion(d))
        throw Unsupported{"memcpy of symbolic value to native memory"};
    for (auto &[o, e] : mv)
    {
        shadow[d + o] = e;
        for (size_t g = gran(d + o); g <= gran(d + o + e.size - 1); ++g)
            granShadow[g] = 1;
    }
}

// ---------------------------------------------------------------- module
static Module *M;
static const DataLayout *DL;
static std::unordered_map<const Value *, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function *> fnAt;
static char *fnRegion;
static uint64_t fnNext;

static unsigned bitsOf(Type *t)
{
    if (t->isIntegerTy())
        return t->getIntegerBitWidth();
    if (t->isPointerTy() || t->isDoubleTy())
        return 64;
    if (t->isFloatTy())
        return 32;
    return 0;
}
struct Leaf
{
    Type *ty;
    uint64_t off;
};
static void flatten(Type *t, uint64_t off, std::vector<Leaf> &out)
{
    if (auto *s = dyn_cast<StructType>(t))
    {
        auto *sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); ++i)
            flatten(s->getElementType(i), off + sl->getElementOffset(i), out);
    }
    else if (auto *a = dyn_cast<ArrayType>(t))
    {
        uint64_t es = DL->getTypeAllocSize(a->getElementType());
        for (uint64_t i = 0; i < a->getNumElements(); ++i)
            flatten(a->getElementType(), off + i * es, out);
    }
    else if (auto *v = dyn_cast<FixedVectorType>(t))
    {
        uint64_t es = DL->getTypeStoreSize(v->getElementType());
        for (uint64_t i = 0; i < v->getNumElements(); ++i)
            flatten(v->getElementType(), off + i * es, out);
    }
    else if (!t->isVoidTy())
        out.push_back({t, off});
}
static unsigned nslots(Type *t)
{
    if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy() || t->isLabelTy())
        return 0;
    if (!t->isAggregateType() && !t->isVectorTy())
        return 1;
    std::vector<Leaf> l;
    flatten(t, 0, l);
    return l.size();
}

static uint64_t funcAddr(Function *f)
{
    auto it = gaddr.find(f);
    if (it != gaddr.end())
        return it->second;
    uint64_t a = 0;
    if (f->isDeclaration())
        a = (uint64_t)dlsym(RTLD_DEFAULT, f->getName().str().c_str());
    if (!a)
        a = fnNext, fnNext += 16;
    if (!fnAt.count(a))
        fnAt[a] = f;
    gaddr[f] = a;
    return a;
}
static uint64_t globalAddr(const GlobalValue *g)
{
    if (auto *ga = dyn_cast<GlobalAlias>(g))
        return globalAddr(cast<GlobalValue>(ga->getAliasee()->stripPointerCasts()));
    if (auto *f = dyn_cast<Function>(g))
        return funcAddr(const_cast<Function *>(f));
    auto it = gaddr.find(g);
    if (it != gaddr.end())
        return it->second;
    uint64_t a = (uint64_t)dlsym(RTLD_DEFAULT, g->getName().str().c_str());
    if (!a)
    {
        if (g->hasExternalWeakLinkage())
            return 0;
        // unknown external: give it opaque storage
        a = allocObj(heapPtr, 256, 16, 0);
    }
    gaddr[g] = a;
    return a;
}
static void constVals(const Constant *c, std::vector<Val> &out);
static uint64_t constPtrInt(const Constant *c)
{
    std::vector<Val> v;
    constVals(c, v);
    return v[0].c;
}
static void constVals(const Constant *c, std::vector<Val> &out)
{
    Type *t = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c))
    {
        if (ci->getBitWidth() > 64)
        {
            if (ci->getValue().getActiveBits() > 64)
                throw Unsupported{"wide constant"};
        }
        out.push_back({ci->getValue().getLoBits(std::min(64u, ci->getBitWidth())).getLimitedValue(), nullptr});
    }
    else if (auto *cf = dyn_cast<ConstantFP>(c))
    {
        uint64_t u = cf->getValueAPF().bitcastToAPInt().getLimitedValue();
        out.push_back({u, nullptr});
    }
    else if (isa<ConstantPointerNull>(c))
        out.push_back({0, nullptr});
    else if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c))
    {
        for (unsigned i = 0, n = nslots(t); i < n; ++i)
            out.push_back({0, nullptr});
    }
    else if (auto *ca = dyn_cast<ConstantAggregate>(c))
        for (auto &o : ca->operands())
            constVals(cast<Constant>(o), out);
    else if (auto *cd = dyn_cast<ConstantDataSequential>(c))
        for (unsigned i = 0; i < cd->getNumElements(); ++i)
            constVals(cd->getElementAsConstant(i), out);
    else if (auto *g = dyn_cast<GlobalValue>(c))
        out.push_back({globalAddr(g), nullptr});
    else if (auto *ce = dyn_cast<ConstantExpr>(c))
    {
        switch (ce->getOpcode())
        {
        case Instruction::GetElementPtr:
        {
            auto *gep = cast<GEPOperator>(ce);
            APInt off(64, 0);
            if (!gep->accumulateConstantOffset(*DL, off))
                throw Unsupported{"const gep"};
            out.push_back({constPtrInt(cast<Constant>(gep->getPointerOperand())) + (uint64_t)off.getSExtValue(), nullptr});
            break;
        }
        case Instruction::BitCast:
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::AddrSpaceCast:
            out.push_back({constPtrInt(cast<Constant>(ce->getOperand(0))), nullptr});
            break;
        case Instruction::Trunc:
            out.push_back({maskW(constPtrInt(cast<Constant>(ce->getOperand(0))), bitsOf(t)), nullptr});
            break;
        case Instruction::Sub:
            out.push_back({constPtrInt(cast<Constant>(ce->getOperand(0))) - constPtrInt(cast<Constant>(ce->getOperand(1))),
                           nullptr});
            break;
        case Instruction::Add:
            out.push_back({constPtrInt(cast<Constant>(ce->getOperand(0))) + constPtrInt(cast<Constant>(ce->getOperand(1))),
                           nullptr});
            break;
        default:
            throw Unsupported{std::string("constexpr ") + ce->getOpcodeName()};
        }
    }
    else
        throw Unsupported{"constant kind"};
}
static void writeConst(uint64_t p, const Constant *c)
{
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c))
        return;
    std::vector<Leaf> l;
    flatten(c->getType(), 0, l);
    std::vector<Val> v;
    constVals(c, v);
    for (size_t i = 0; i < l.size(); ++i)
        memcpy((void *)(p + l[i].off), &v[i].c, DL->getTypeStoreSize(l[i].ty));
}

// ---------------------------------------------------------------- decoded code
struct Opnd
{
    int reg = -1;  // register base, or -1 for constant
    unsigned n = 1;
    std::vector<Val> cv;
    Val c0;
};
struct DBlock;
struct DInst
{
    Instruction *I;
    unsigned op;
    int dest = -1;
    unsigned w = 0;   // result / operand width
    unsigned w2 = 0;  // secondary width
    std::vector<Opnd> o;
    uint64_t imm = 0;                          // gep const offset etc
    std::vector<std::pair<int, int64_t>> gep;  // (operand idx, scale)
    std::vector<unsigned> gepw;
    std::vector<Leaf> leaves;
    Function *callee = nullptr;
    Intrinsic::ID iid = Intrinsic::not_intrinsic;
    int handler = -1;
    std::vector<std::pair<uint64_t, DBlock *>> cases;
    DBlock *b0 = nullptr, *b1 = nullptr;
    int nargs = 0;
    void *native = nullptr;
    std::vector<uint8_t> argKind;  // 0 int 1 double 2 float
};
struct DBlock
{
    BasicBlock *BB;
    std::vector<DInst> phis;
    std::vector<DInst> code;
    // per predecessor: phi operand lists
    std::unordered_map<DBlock *, std::vector<Opnd>> phiIn;
};
struct DFunc
{
    Function *F;
    unsigned nregs = 0;
    std::vector<int> args;
    std::vector<unsigned> argSlots;
    std::unordered_map<const Value *, int> regs;
    std::unordered_map<BasicBlock *, DBlock *> blocks;
    DBlock *entry = nullptr;
    int id = 0;
};
static std::unordered_map<Function *, DFunc *> dfuncs;
static std::vector<Function *> fnById;
static std::unordered_map<Function *, int> fnId;

static Opnd mkOpnd(DFunc *df, const Value *v)
{
    Opnd o;
    if (auto *c = dyn_cast<Constant>(v))
    {
        constVals(c, o.cv);
        o.n = o.cv.size();
        if (o.n)
            o.c0 = o.cv[0];
        return o;
    }
    auto it = df->regs.find(v);
    if (it == df->regs.end())
        throw Unsupported{"operand without register"};
    o.reg = it->second;
    o.n = nslots(v->getType());
    return o;
}

enum Handler
{
    H_NONE = -1,
    H_I64,
    H_BOOL,
    H_CHOOSE,
    H_ASSUME,
    H_CHECK,
    H_COVER,
    H_OBS,
    H_SYMBOLIC,
    H_CONCRETE,
    H_FAIL,
    H_BEYOND,
    H_NEW,
    H_DELETE,
    H_MALLOC,
    H_CALLOC,
    H_REALLOC,
    H_FREE,
    H_MEMCPY,
    H_MEMSET,
    H_MEMCMP,
    H_BCMP,
    H_THROW,
    H_ALLOCEXC,
    H_FREEEXC,
    H_BEGINCATCH,
    H_ENDCATCH,
    H_RETHROW,
    H_GUARDACQ,
    H_GUARDREL,
    H_NOP,
    H_RET0,
    H_ABORT,
    H_GETEXCPTR,
};
static const std::unordered_map<std::string, int> handlers = {
    {"vp_i64", H_I64},
    {"vp_bool", H_BOOL},
    {"vp_choose", H_CHOOSE},
    {"vp_assume", H_ASSUME},
    {"vp_check", H_CHECK},
    {"vp_cover", H_COVER},
    {"vp_observe", H_OBS},
    {"vp_symbolic", H_SYMBOLIC},
    {"vp_concrete", H_CONCRETE},
    {"vp_fail", H_FAIL},
    {"vp_beyond", H_BEYOND},
    {"_Znwm", H_NEW},
    {"_Znam", H_NEW},
    {"_ZnwmRKSt9nothrow_t", H_NEW},
    {"_ZnamRKSt9nothrow_t", H_NEW},
    {"_ZnwmSt11align_val_t", H_NEW},
    {"_ZnwmSt11align_val_tRKSt9nothrow_t", H_NEW},
    {"_ZdlPv", H_DELETE},
    {"_ZdaPv", H_DELETE},
    {"_ZdlPvm", H_DELETE},
    {"_ZdaPvm", H_DELETE},
    {"_ZdlPvSt11align_val_t", H_DELETE},
    {"_ZdlPvmSt11align_val_t", H_DELETE},
    {"_ZdlPvRKSt9nothrow_t", H_DELETE},
    {"malloc", H_MALLOC},
    {"calloc", H_CALLOC},
    {"realloc", H_REALLOC},
    {"free", H_FREE},
    {"memcpy", H_MEMCPY},
    {"memmove", H_MEMCPY},
    {"memset", H_MEMSET},
    {"memcmp", H_MEMCMP},
    {"bcmp", H_BCMP},
    {"__cxa_throw", H_THROW},
    {"__cxa_allocate_exception", H_ALLOCEXC},
    {"__cxa_free_exception", H_FREEEXC},
    {"__cxa_begin_catch", H_BEGINCATCH},
    {"__cxa_get_exception_ptr", H_GETEXCPTR},
    {"__cxa_end_catch", H_ENDCATCH},
    {"__cxa_rethrow", H_RETHROW},
    {"__cxa_guard_acquire", H_GUARDACQ},
    {"__cxa_guard_release", H_GUARDREL},
    {"__cxa_guard_abort", H_NOP},
    {"__cxa_atexit", H_RET0},
    {"pthread_mutex_lock", H_RET0},
    {"pthread_mutex_unlock", H_RET0},
    {"_ZSt9terminatev", H_ABORT},
    {"abort", H_ABORT},
    {"__assert_fail", H_ABORT},
    {"__cxa_pure_virtual", H_ABORT},
    {"_ZSt21__glibcxx_assert_failPKciS0_S0_", H_ABORT},
};

static DFunc *decode(Function *F)
{
    auto it = dfuncs.find(F);
    if (it != dfuncs.end())
        return it->second;
    DFunc *df = new DFunc;
    df->F = F;
    df->id = fnId[F];
    dfuncs[F] = df;
    for (auto &a : F->args())
    {
        df->regs[&a] = df->nregs;
        df->args.push_back(df->nregs);
        unsigned n = nslots(a.getType());
        df->argSlots.push_back(n);
        df->nregs += n;
    }
    for (auto &BB : *F)
    {
        DBlock *b = new DBlock;
        b->BB = &BB;
        df->blocks[&BB] = b;
        if (!df->entry)
            df->entry = b;
        for (auto &I : BB)
            if (unsigned n = nslots(I.getType()))
            {
                df->regs[&I] = df->nregs;
                df->nregs += n;
            }
    }
    for (auto &BB : *F)
    {
        DBlock *b = df->blocks[&BB];
        for (auto &I : BB)
        {
            DInst d;
            d.I = &I;
            d.op = I.getOpcode();
            if (df->regs.count(&I))
                d.dest = df->regs[&I];
            d.w = bitsOf(I.getType());
            if (auto *phi = dyn_cast<PHINode>(&I))
            {
                b->phis.push_back(d);
                std::set<BasicBlock *> seen;
                for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i)
                    if (seen.insert(phi->getIncomingBlock(i)).second)
                        b->phiIn[df->blocks[phi->getIncomingBlock(i)]].push_back(
                            mkOpnd(df, phi->getIncomingValue(i)));
                continue;
            }
            if (auto *gep = dyn_cast<GetElementPtrInst>(&I))
            {
                d.o.push_back(mkOpnd(df, gep->getPointerOperand()));
                int64_t off = 0;
                for (auto gti = gep_type_begin(gep), e = gep_type_end(gep); gti != e; ++gti)
                {
                    Value *idx = gti.getOperand();
                    if (StructType *st = gti.getStructTypeOrNull())
                    {
                        off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                        continue;
                    }
                    int64_t sc = DL->getTypeAllocSize(gti.getIndexedType());
                    if (auto *ci = dyn_cast<ConstantInt>(idx))
                        off += ci->getSExtValue() * sc;
                    else
                    {
                        d.gep.push_back({(int)d.o.size(), sc});
                        d.gepw.push_back(bitsOf(idx->getType()));
                        d.o.push_back(mkOpnd(df, idx));
                    }
                }
                d.imm = (uint64_t)off;
                b->code.push_back(std::move(d));
                continue;
            }
            if (auto *cb = dyn_cast<CallBase>(&I))
            {
                d.nargs = cb->arg_size();
                auto *cal = cb->getCalledOperand()->stripPointerCasts();
                d.callee = dyn_cast<Function>(cal);
                if (auto *al = dyn_cast<GlobalAlias>(cal))
                    d.callee = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
                bool skip = false;
                if (d.callee)
                {
                    d.iid = d.callee->getIntrinsicID();
                    switch (d.iid)
                    {
                    case Intrinsic::dbg_declare:
                    case Intrinsic::dbg_value:
                    case Intrinsic::dbg_label:
                    case Intrinsic::assume:
                    case Intrinsic::experimental_noalias_scope_decl:
                    case Intrinsic::lifetime_start:
                    case Intrinsic::lifetime_end:
                    case Intrinsic::prefetch:
                        skip = true;
                        break;
                    default:;
                    }
                    auto h = handlers.find(d.callee->getName().str());
                    if (h != handlers.end())
                        d.handler = h->second;
                }
                if (skip)
                    continue;
                for (auto &a : cb->args())
                {
                    if (a->getType()->isMetadataTy())
                        d.o.push_back(Opnd{});
                    else
                        d.o.push_back(mkOpnd(df, a));
                    Type *at = a->getType();
                    d.argKind.push_back(at->isDoubleTy() ? 1 : at->isFloatTy() ? 2 : 0);
                }
                d.w2 = d.o.empty() ? 0 : bitsOf(cb->getArgOperand(0)->getType());
                if (!d.callee)
                    d.o.push_back(mkOpnd(df, cal));
                if (auto *inv = dyn_cast<InvokeInst>(&I))
                {
                    d.b0 = df->blocks[inv->getNormalDest()];
                    d.b1 = df->blocks[inv->getUnwindDest()];
                }
                b->code.push_back(std::move(d));
                continue;
            }
            if (auto *br = dyn_cast<BranchInst>(&I))
            {
                if (br->isConditional())
                {
                    d.o.push_back(mkOpnd(df, br->getCondition()));
                    d.b0 = df->blocks[br->getSuccessor(0)];
                    d.b1 = df->blocks[br->getSuccessor(1)];
                }
                else
                    d.b0 = df->blocks[br->getSuccessor(0)];
                b->code.push_back(std::move(d));
                continue;
            }
            if (auto *sw = dyn_cast<SwitchInst>(&I))
            {
                d.o.push_back(mkOpnd(df, sw->getCondition()));
                d.w2 = bitsOf(sw->getCondition()->getType());
                for (auto &c : sw->cases())
                    d.cases.push_back({c.getCaseValue()->getZExtValue(), df->blocks[c.getCaseSuccessor()]});
                d.b0 = df->blocks[sw->getDefaultDest()];
                b->code.push_back(std::move(d));
                continue;
            }
            if (auto *lp = dyn_cast<LandingPadInst>(&I))
            {
                b->code.push_back(std::move(d));
                (void)lp;
                continue;
            }
            if (auto *al = dyn_cast<AllocaInst>(&I))
            {
                d.imm = DL->getTypeAllocSize(al->getAllocatedType());
                d.w2 = al->getAlign().value();
                d.o.push_back(mkOpnd(df, al->getArraySize()));
                b->code.push_back(std::move(d));
                continue;
            }
            if (isa<LoadInst>(&I))
                flatten(I.getType(), 0, d.leaves);
            if (auto *st = dyn_cast<StoreInst>(&I))
                flatten(st->getValueOperand()->getType(), 0, d.leaves);
            if (auto *ev = dyn_cast<ExtractValueInst>(&I))
            {
                unsigned s = 0;
                Type *t = ev->getAggregateOperand()->getType();
                for (unsigned ix : ev->indices())
                {
                    for (unsigned j = 0; j < ix; ++j)
                        s += nslots(isa<StructType>(t) ? cast<StructType>(t)->getElementType(j)
                                                       : t->getArrayElementType());
                    t = isa<StructType>(t) ? cast<StructType>(t)->getElementType(ix) : t->getArrayElementType();
                }
                d.imm = s;
                d.w2 = nslots(t);
            }
            if (auto *iv = dyn_cast<InsertValueInst>(&I))
            {
                unsigned s = 0;
                Type *t = iv->getType();
                for (unsigned ix : iv->indices())
                {
                    for (unsigned j = 0; j < ix; ++j)
                        s += nslots(isa<StructType>(t) ? cast<StructType>(t)->getElementType(j)
                                                       : t->getArrayElementType());
                    t = isa<StructType>(t) ? cast<StructType>(t)->getElementType(ix) : t->getArrayElementType();
                }
                d.imm = s;
                d.w2 = nslots(t);
            }
            for (auto &op : I.operands())
                d.o.push_back(mkOpnd(df, op));
            if (I.getNumOperands())
                d.w2 = d.w2 ? d.w2 : bitsOf(I.getOperand(0)->getType());
            b->code.push_back(std::move(d));
        }
    }
    return df;
}

// ---------------------------------------------------------------- interpreter
struct Frame
{
    DFunc *f;
    DBlock *b;
    size_t pc;
    std::vector<Val> r;
    char *savedStack;
    size_t objMark;
    bool nativeBoundary = false;
};
static std::vector<Frame> stk;
static uint64_t instCount = 0, instFlushed = 0;
struct Exc
{
    uint64_t obj;
    uint64_t ti;
};
static std::vector<Exc> caught;
static Exc inflight;
static std::unordered_map<uint64_t, uint64_t> excType;  // obj -> typeinfo
static std::unordered_map<uint64_t, int> typeIds;
static int typeIdFor(uint64_t ti)
{
    auto it = typeIds.find(ti);
    if (it != typeIds.end())
        return it->second;
    int n = typeIds.size() + 1;
    return typeIds[ti] = n;
}

static std::string stackTrace()
{
    std::string s;
    for (int i = (int)stk.size() - 1, n = 0; i >= 0 && n < 6; --i, ++n)
    {
        std::string nm = demangle(stk[i].f->F->getName().str());
        if (nm.size() > 120)
            nm = nm.substr(0, 120);
        s += nm + " <- ";
    }
    return s;
}

static inline const Val &get(Frame &f, const Opnd &o, unsigned i = 0)
{
    if (o.reg >= 0)
        return f.r[o.reg + i];
    return o.cv[i];
}

static uint64_t getPtr(Frame &f, const Opnd &o)
{
    Val v = get(f, o);
    if (v.s)
        return (uint64_t)concretise(v.s, 64);
    return v.c;
}

static Val binop(DInst &d, const Val &a, const Val &b, unsigned w)
{
    Val r;
    if (!a.s && !b.s)
    {
        uint64_t x = a.c, y = b.c;
        switch (d.op)
        {
        case Instruction::Add:
            r.c = x + y;
            break;
        case Instruction::Sub:
            r.c = x - y;
            break;
        case Instruction::Mul:
            r.c = x * y;
            break;
        case Instruction::UDiv:
            if (!y)
                throw MemErr{"division by zero"};
            r.c = x / y;
            break;
        case Instruction::URem:
            if (!y)
                throw MemErr{"division by zero"};
            r.c = x % y;
            break;
        case Instruction::SDiv:
        case Instruction::SRem:
        {
            int64_t p = sextW(x, w), q = sextW(y, w);
            if (!q)
                throw MemErr{"division by zero"};
            if (q == -1)
                r.c = d.op == Instruction::SDiv ? (uint64_t)-(u128)p : 0;
            else
                r.c = d.op == Instruction::SDiv ? p / q : p % q;
            break;
        }
        case Instruction::And:
            r.c = x & y;
            break;
        case Instruction::Or:
            r.c = x | y;
            break;
        case Instruction::Xor:
            r.c = x ^ y;
            break;
        case Instruction::Shl:
            r.c = y >= w ? 0 : x << y;
            break;
        case Instruction::LShr:
            r.c = y >= w ? 0 : x >> y;
            break;
        case Instruction::AShr:
            r.c = (uint64_t)(sextW(x, w) >> (y >= w ? w - 1 : y));
            break;
        default:
            throw Unsupported{"binop"};
        }
        r.c = maskW(r.c, w);
        return r;
    }
    if (bvMode)
    {
        X xa = toX(a, w), xb = toX(b, w);
        Z3_ast p = tr(xa), q = tr(xb), z = nullptr;
        if (w == 1)
        {
            Z3_ast m[2] = {p, q};
            switch (d.op)
            {
            case Instruction::And:
                z = Z3_mk_and(zc, 2, m);
                break;
            case Instruction::Or:
                z = Z3_mk_or(zc, 2, m);
                break;
            case Instruction::Xor:
            case Instruction::Add:
            case Instruction::Sub:
                z = Z3_mk_xor(zc, p, q);
                break;
            default:
                throw Unsupported{"bv i1 op"};
            }
            return fromX(mkRaw(keep(z), 0), 1);
        }
        switch (d.op)
        {
        case Instruction::Add:
            z = Z3_mk_bvadd(zc, p, q);
            break;
        case Instruction::Sub:
            z = Z3_mk_bvsub(zc, p, q);
            break;
        case Instruction::Mul:
            z = Z3_mk_bvmul(zc, p, q);
            break;
        case Instruction::UDiv:
            z = Z3_mk_bvudiv(zc, p, q);
            break;
        case Instruction::URem:
            z = Z3_mk_bvurem(zc, p, q);
            break;
        case Instruction::SDiv:
            z = Z3_mk_bvsdiv(zc, p, q);
            break;
        case Instruction::SRem:
            z = Z3_mk_bvsrem(zc, p, q);
            break;
        case Instruction::And:
            z = Z3_mk_bvand(zc, p, q);
            break;
        case Instruction::Or:
            z = Z3_mk_bvor(zc, p, q);
            break;
        case Instruction::Xor:
            z = Z3_mk_bvxor(zc, p, q);
            break;
        case Instruction::Shl:
            z = Z3_mk_bvshl(zc, p, q);
            break;
        case Instruction::LShr:
            z = Z3_mk_bvlshr(zc, p, q);
            break;
        case Instruction::AShr:
            z = Z3_mk_bvashr(zc, p, q);
            break;
        default:
            throw Unsupported{"bv op"};
        }
        return fromX(mkRaw(keep(z), w), w);
    }
    X p = resolveInt(toX(a, w), w), q = resolveInt(toX(b, w), w);
    if (w == 1)
    {
        switch (d.op)
        {
        case Instruction::And:
            return fromX(mkAnd(p, q), 1);
        case Instruction::Or:
            return fromX(mkOr(p, q), 1);
        case Instruction::Xor:
        case Instruction::Add:
        case Instruction::Sub:
            return fromX(mkIteB(p, mkNot(q), q), 1);
        default:
            throw Unsupported{"i1 op"};
        }
    }
    if (p->op == Op::FDY || q->op == Op::FDY)
        throw Unsupported{"integer op on double bits"};
    switch (d.op)
    {
    case Instruction::Add:
        return fromX(mkWrap(mkAdd(p, q), w), w);
    case Instruction::Sub:
        return fromX(mkWrap(mkSub(p, q), w), w);
    case Instruction::Mul:
        return fromX(mkWrap(mkMul(p, q), w), w);
    case Instruction::SDiv:
        if (!b.s && b.c == 0)
            throw MemErr{"division by zero"};
        return fromX(mkWrap(mkDivTrunc(p, q), w), w);
    case Instruction::SRem:
        return fromX(mkRemTrunc(p, q), w);
    case Instruction::UDiv:
        if (b.s && decide(mkEQ(q, mkConst(0))))
            throw MemErr{"division by zero"};
        return fromX(mkWrap(mkDivTrunc(mkToU(p, w), mkToU(q, w)), w), w);
    case Instruction::URem:
        if (b.s && decide(mkEQ(q, mkConst(0))))
            throw MemErr{"division by zero"};
        return fromX(mkWrap(mkRemTrunc(mkToU(p, w), mkToU(q, w)), w), w);
    case Instruction::Shl:
        if (b.s)
        {
            Val bb;
            bb.c = concretise(b.s, w);
            return binop(d, a, bb, w);
        }
        return fromX(mkWrap(mkScale(p, (i128)1 << b.c), w), w);
    case Instruction::LShr:
        if (b.s)
        {
            Val bb;
            bb.c = concretise(b.s, w);
            return binop(d, a, bb, w);
        }
        return fromX(mkWrap(mkDivFloor(mkToU(p, w), (i128)1 << b.c), w), w);
    case Instruction::AShr:
        if (b.s)
        {
            Val bb;
            bb.c = concretise(b.s, w);
            return binop(d, a, bb, w);
        }
        return fromX(mkDivFloor(p, (i128)1 << b.c), w);
    case Instruction::And:
    case Instruction::Or:
    case Instruction::Xor:
    {
        if (p == q)
            return d.op == Instruction::Xor ? Val{0, nullptr} : fromX(p, w);
        // ite over constants
        if (p->op == Op::ITE || q->op == Op::ITE)
        {
            X it = p->op == Op::ITE ? p : q;
            X ot = it == p ? q : p;
            Val o = fromX(ot, w);
            Val l = binop(d, fromX(it->b, w), o, w), rr = binop(d, fromX(it->c, w), o, w);
            return fromX(mkIte(it->a, toX(l, w), toX(rr, w)), w);
        }
        if (q->op != Op::CONST && p->op == Op::CONST)
            std::swap(p, q);
        if (d.op == Instruction::And && q->op == Op::CONST)
        {
            uint64_t m = maskW((uint64_t)q->k, w);
            if (m == maskW(~0ull, w))
                return fromX(p, w);
            if (((m + 1) & m) == 0)
                return fromX(mkWrap(mkModFloor(mkToU(p, w), (i128)m + 1), w), w);
            // mask of high bits: x - (x mod 2^k)
            uint64_t inv = maskW(~m, w);
            if (((inv + 1) & inv) == 0)
                return fromX(mkWrap(mkSub(mkToU(p, w), mkModFloor(mkToU(p, w), (i128)inv + 1)), w), w);
            // sign bit / single bit
            if ((m & (m - 1)) == 0)
            {
                int k = __builtin_ctzll(m);
                return fromX(mkWrap(mkScale(mkModFloor(mkDivFloor(mkToU(p, w), (i128)1 << k), 2), (i128)m), w), w);
            }
        }
        if (d.op == Instruction::Or && isa<PossiblyDisjointInst>(d.I) && cast<PossiblyDisjointInst>(d.I)->isDisjoint())
            return fromX(mkWrap(mkAdd(p, q), w), w);
        if (d.op == Instruction::Xor && q->op == Op::CONST && q->k == -1)
            return fromX(mkLin({{p, -1}}, -1), w);
        if (q->op == Op::CONST && q->k == 0)
            return d.op == Instruction::And ? Val{0, nullptr} : fromX(p, w);
        // General case, on the unsigned representations: x & y from bit
        // fields, x | y = x + y - (x & y), x ^ y = x + y - 2 (x & y).
        X up = mkToU(p, w), uq = mkToU(q, w);
        X conj = mkConst(0);
        if (q->op == Op::CONST)
        {
            uint64_t m = maskW((uint64_t)q->k, w);
            for (unsigned i = 0; i < w;)
            {
                if (!((m >> i) & 1))
                {
                    ++i;
                    continue;
                }
                unsigned j = i;
                while (j < w && ((m >> j) & 1))
                    ++j;
                X f = mkModFloor(mkDivFloor(up, (i128)1 << i), (i128)1 << (j - i));
                conj = mkAdd(conj, mkScale(f, (i128)1 << i));
                i = j;
            }
        }
        else
        {
            // The sign bit is kept apart, so that sign tests stay simple.
            X sp = mkLT(p, mkConst(0)), sq = mkLT(q, mkConst(0));
            for (unsigned i = 0; i + 1 < w; ++i)
            {
                i128 const b = (i128)1 << i;
                if (up->hi < b || uq->hi < b)
                    break;
                X fp = mkModFloor(mkDivFloor(up, b), 2), fq = mkModFloor(mkDivFloor(uq, b), 2);
                X both = mkAnd(mkNot(mkEQ0(fp)), mkNot(mkEQ0(fq)));
                conj = mkAdd(conj, mkIte(both, mkConst(b), mkConst(0)));
            }
            i128 const top = (i128)1 << (w - 1);
            X lp = mkModFloor(up, top), lq = mkModFloor(uq, top);
            X low = conj;
            if (d.op != Instruction::And)
                low = mkSub(mkAdd(lp, lq), mkScale(conj, d.op == Instruction::Or ? 1 : 2));
            low = mkMin(mkMax(low, mkConst(0)), mkConst(top - 1));  // holds; fixes the interval
            X neg = d.op == Instruction::And  ? mkAnd(sp, sq)
                    : d.op == Instruction::Or ? mkOr(sp, sq)
                                              : mkOr(mkAnd(sp, mkNot(sq)), mkAnd(mkNot(sp), sq));
            return fromX(mkIte(neg, mkSub(low, mkConst(top)), low), w);
        }
        if (d.op == Instruction::And)
            return fromX(mkWrap(conj, w), w);
        return fromX(mkWrap(mkSub(mkAdd(up, uq), mkScale(conj, d.op == Instruction::Or ? 1 : 2)), w), w);
    }
    }
    throw Unsupported{"binop sym"};
}

static Val icmp(CmpInst::Predicate pr, const Val &a, const Val &b, unsigned w)
{
    Val r;
    if (!a.s && !b.s)
    {
        int64_t x = sextW(a.c, w), y = sextW(b.c, w);
        uint64_t u = maskW(a.c, w), v = maskW(b.c, w);
        switch (pr)
        {
        case CmpInst::ICMP_EQ:
            r.c = u == v;
            break;
        case CmpInst::ICMP_NE:
            r.c = u != v;
            break;
        case CmpInst::ICMP_SLT:
            r.c = x < y;
            break;
        case CmpInst::ICMP_SLE:
            r.c = x <= y;
            break;
        case CmpInst::ICMP_SGT:
            r.c = x > y;
            break;
        case CmpInst::ICMP_SGE:
            r.c = x >= y;
            break;
        case CmpInst::ICMP_ULT:
            r.c = u < v;
            break;
        case CmpInst::ICMP_ULE:
            r.c = u <= v;
            break;
        case CmpInst::ICMP_UGT:
            r.c = u > v;
            break;
        case CmpInst::ICMP_UGE:
            r.c = u >= v;
            break;
        default:
            throw Unsupported{"icmp"};
        }
        return r;
    }
    if (bvMode)
    {
        Z3_ast p = tr(toX(a, w)), q = tr(toX(b, w)), z = nullptr;
        switch (pr)
        {
        case CmpInst::ICMP_EQ:
            z = Z3_mk_eq(zc, p, q);
            break;
        case CmpInst::ICMP_NE:
            z = Z3_mk_not(zc, Z3_mk_eq(zc, p, q));
            break;
        case CmpInst::ICMP_SLT:
            z = Z3_mk_bvslt(zc, p, q);
            break;
        case CmpInst::ICMP_SLE:
            z = Z3_mk_bvsle(zc, p, q);
            break;
        case CmpInst::ICMP_SGT:
            z = Z3_mk_bvsgt(zc, p, q);
            break;
        case CmpInst::ICMP_SGE:
            z = Z3_mk_bvsge(zc, p, q);
            break;
        case CmpInst::ICMP_ULT:
            z = Z3_mk_bvult(zc, p, q);
            break;
        case CmpInst::ICMP_ULE:
            z = Z3_mk_bvule(zc, p, q);
            break;
        case CmpInst::ICMP_UGT:
            z = Z3_mk_bvugt(zc, p, q);
            break;
        case CmpInst::ICMP_UGE:
            z = Z3_mk_bvuge(zc, p, q);
            break;
        default:
            throw Unsupported{"icmp"};
        }
        return fromX(mkRaw(keep(z), 0), 1);
    }
    X p = resolveInt(toX(a, w), w), q = resolveInt(toX(b, w), w);
    X z = nullptr;
    if (p->op == Op::FDY || q->op == Op::FDY)
        throw Unsupported{"integer compare on double bits"};
    if (w == 1)
    {
        X i = b2i(p, 1), j = b2i(q, 1);  // unsigned interpretation
        switch (pr)
        {
        case CmpInst::ICMP_EQ:
            z = mkIteB(p, q, mkNot(q));
            break;
        case CmpInst::ICMP_NE:
            z = mkIteB(p, mkNot(q), q);
            break;
        case CmpInst::ICMP_ULT:
        case CmpInst::ICMP_SGT:
            z = mkAnd(mkNot(p), q);
            break;
        case CmpInst::ICMP_UGT:
        case CmpInst::ICMP_SLT:
            z = mkAnd(p, mkNot(q));
            break;
        case CmpInst::ICMP_ULE:
        case CmpInst::ICMP_SGE:
            z = mkOr(mkNot(p), q);
            break;
        default:
            z = mkOr(p, mkNot(q));
        }
        (void)i;
        (void)j;
        return fromX(z, 1);
    }
    auto up = [&] { return mkToU(p, w); };
    auto uq = [&] { return mkToU(q, w); };
    switch (pr)
    {
    case CmpInst::ICMP_EQ:
        z = mkEQ(p, q);
        break;
    case CmpInst::ICMP_NE:
        z = mkNot(mkEQ(p, q));
        break;
    case CmpInst::ICMP_SLT:
        z = mkLT(p, q);
        break;
    case CmpInst::ICMP_SLE:
        z = mkLE(p, q);
        break;
    case CmpInst::ICMP_SGT:
        z = mkLT(q, p);
        break;
    case CmpInst::ICMP_SGE:
        z = mkLE(q, p);
        break;
    case CmpInst::ICMP_ULT:
        // range check idiom x <u k with k>=0: 0 <= x < k
        if (q->lo >= 0)
            z = mkAnd(mkLE(mkConst(0), p), mkLT(p, q));
        else
            z = mkLT(up(), uq());
        break;
    case CmpInst::ICMP_ULE:
        if (q->lo >= 0)
            z = mkAnd(mkLE(mkConst(0), p), mkLE(p, q));
        else
            z = mkLE(up(), uq());
        break;
    case CmpInst::ICMP_UGT:
        if (q->lo >= 0)
            z = mkOr(mkLT(p, mkConst(0)), mkLT(q, p));
        else
            z = mkLT(uq(), up());
        break;
    case CmpInst::ICMP_UGE:
        if (q->lo >= 0)
            z = mkOr(mkLT(p, mkConst(0)), mkLE(q, p));
        else
            z = mkLE(uq(), up());
        break;
    default:
        throw Unsupported{"icmp"};
    }
    return fromX(z, 1);
}

// Beyond every symbolic double (those are exact integers over small powers of two).
static bool huge(const Val &v)
{
    double x;
    memcpy(&x, &v.c, 8);
    return !v.s && (std::isinf(x) || std::fabs(x) >= 0x1p100);
}
static Val fcmp(CmpInst::Predicate pr, const Val &a, const Val &b)
{
    Val r;
    if (a.s && huge(b))
        return fcmp(pr, Val{0, nullptr}, b);
    if (b.s && huge(a))
        return fcmp(pr, a, Val{0, nullptr});
    if (!a.s && !b.s)
    {
        double x, y;
        memcpy(&x, &a.c, 8);
        memcpy(&y, &b.c, 8);
        bool un = std::isnan(x) || std::isnan(y);
        switch (pr)
        {
        case CmpInst::FCMP_OEQ:
            r.c = !un && x == y;
            break;
        case CmpInst::FCMP_ONE:
            r.c = !un && x != y;
            break;
        case CmpInst::FCMP_OLT:
            r.c = !un && x < y;
            break;
        case CmpInst::FCMP_OLE:
            r.c = !un && x <= y;
            break;
        case CmpInst::FCMP_OGT:
            r.c = !un && x > y;
            break;
        case CmpInst::FCMP_OGE:
            r.c = !un && x >= y;
            break;
        case CmpInst::FCMP_UEQ:
            r.c = un || x == y;
            break;
        case CmpInst::FCMP_UNE:
            r.c = un || x != y;
            break;
        case CmpInst::FCMP_ULT:
            r.c = un || x < y;
            break;
        case CmpInst::FCMP_ULE:
            r.c = un || x <= y;
            break;
        case CmpInst::FCMP_UGT:
            r.c = un || x > y;
            break;
        case CmpInst::FCMP_UGE:
            r.c = un || x >= y;
            break;
        case CmpInst::FCMP_ORD:
            r.c = !un;
            break;
        case CmpInst::FCMP_UNO:
            r.c = un;
            break;
        case CmpInst::FCMP_TRUE:
            r.c = 1;
            break;
        default:
            r.c = 0;
        }
        return r;
    }
    // compare with infinities / max
    for (int sideB = 0; sideB < 2; ++sideB)
    {
        const Val &v = sideB ? b : a;
        if (!v.s)
        {
            double x;
            memcpy(&x, &v.c, 8);
            if (std::isnan(x))
            {
                r.c = pr >= CmpInst::FCMP_UNO && pr <= CmpInst::FCMP_TRUE;
                return r;
            }
            if (std::fabs(x) > 1e18)
            {
                // any finite exact symbolic double here has |v| <= 2^53
                Val one, big;
                double z0 = 0, z1 = x > 0 ? 1 : -1;
                memcpy(&one.c, &z0, 8);
                memcpy(&big.c, &z1, 8);
                return sideB ? fcmp(pr, one, big) : fcmp(pr, big, one);
            }
        }
    }
    X f = fdy(a), g = fdy(b);
    int s = std::max((int)f->k, (int)g->k);
    X p = scaleTo(f, s), q = scaleTo(g, s);
    X z;
    switch (pr)
    {
    case CmpInst::FCMP_OEQ:
    case CmpInst::FCMP_UEQ:
        z = mkEQ(p, q);
        break;
    case CmpInst::FCMP_ONE:
    case CmpInst::FCMP_UNE:
        z = mkNot(mkEQ(p, q));
        break;
    case CmpInst::FCMP_OLT:
    case CmpInst::FCMP_ULT:
        z = mkLT(p, q);
        break;
    case CmpInst::FCMP_OLE:
    case CmpInst::FCMP_ULE:
        z = mkLE(p, q);
        break;
    case CmpInst::FCMP_OGT:
    case CmpInst::FCMP_UGT:
        z = mkLT(q, p);
        break;
    case CmpInst::FCMP_OGE:
    case CmpInst::FCMP_UGE:
        z = mkLE(q, p);
        break;
    case CmpInst::FCMP_ORD:
    case CmpInst::FCMP_TRUE:
        z = mkBool(true);
        break;
    default:
        z = mkBool(false);
    }
    return fromX(z, 1);
}
static Val fbin(unsigned op, const Val &a, const Val &b)
{
    Val r;
    if (!a.s && !b.s)
    {
        double x, y, z;
        memcpy(&x, &a.c, 8);
        memcpy(&y, &b.c, 8);
        switch (op)
        {
        case Instruction::FAdd:
            z = x + y;
            break;
        case Instruction::FSub:
            z = x - y;
            break;
        case Instruction::FMul:
            z = x * y;
            break;
        case Instruction::FDiv:
            z = x / y;
            break;
        case Instruction::FRem:
            z = fmod(x, y);
            break;
        default:
            throw Unsupported{"fop"};
        }
        memcpy(&r.c, &z, 8);
        return r;
    }
    // multiplication by concrete zero is zero for finite values
    if (op == Instruction::FMul)
        for (int i = 0; i < 2; ++i)
        {
            const Val &v = i ? b : a;
            double x;
            memcpy(&x, &v.c, 8);
            if (!v.s && x == 0)
                return r;
        }
    X f = fdy(a);
    if (op == Instruction::FDiv)
    {
        if (b.s)
            throw Unsupported{"fdiv by symbolic"};
        X g = fdy(b);
        i128 m = g->a->k;
        // only powers of two stay exact
        i128 am = m < 0 ? -m : m;
        if (am == 0 || (am & (am - 1)) != 0)
            throw Unsupported{"inexact fdiv"};
        int sh_ = 0;
        while (am > 1)
        {
            am >>= 1;
            ++sh_;
        }
        X mm = m < 0 ? mkScale(f->a, -1) : f->a;
        int s = (int)f->k + sh_ - (int)g->k;
        if (s < 0)
        {
            mm = mkScale(mm, (i128)1 << -s);
            s = 0;
        }
        return fdyVal(mm, s);
    }
    X g = fdy(b);
    if (op == Instruction::FMul)
        return fdyVal(mkMul(f->a, g->a), (int)f->k + (int)g->k);
    int s = std::max((int)f->k, (int)g->k);
    X p = scaleTo(f, s), q = scaleTo(g, s);
    if (op == Instruction::FAdd)
        return fdyVal(mkAdd(p, q), s);
    if (op == Instruction::FSub)
        return fdyVal(mkSub(p, q), s);
    throw Unsupported{"fop sym"};
}

static Val selectVal(X c, const Val &a, const Val &b, Type *t)
{
    if (!a.s && !b.s && a.c == b.c)
        return a;
    if (t->isPointerTy())
        return decide(c) ? a : b;
    if (t->isDoubleTy())
    {
        if (huge(a) || huge(b))
            return decide(c) ? a : b;
        X f = fdy(a), g = fdy(b);
        int s = std::max((int)f->k, (int)g->k);
        return fdyVal(mkIte(c, scaleTo(f, s), scaleTo(g, s)), s);
    }
    unsigned w = bitsOf(t);
    X x = toX(a, w), y = toX(b, w);
    if (bvMode)
        return fromX(mkRaw(keep(Z3_mk_ite(zc, tr(c), tr(x), tr(y))), w == 1 ? 0 : w), w);
    if (x->op == Op::FDY || y->op == Op::FDY || x->op == Op::CONCAT || y->op == Op::CONCAT)
        return decide(c) ? a : b;
    return fromX(mkIte(c, x, y), w);
}

static void pushFrame(Function *F, const std::vector<std::vector<Val>> &args)
{
    DFunc *df = decode(F);
    sh->fnUsed[df->id & 65535] = 1;
    if (stk.size() > 2000)
        throw MemErr{"stack overflow (recursion depth)"};
    Frame f;
    f.f = df;
    f.b = df->entry;
    f.pc = 0;
    f.r.resize(df->nregs);
    f.savedStack = stackPtr;
    f.objMark = objs.size();
    for (size_t i = 0; i < df->args.size() && i < args.size(); ++i)
        for (unsigned j = 0; j < df->argSlots[i]; ++j)
            f.r[df->args[i] + j] = args[i][j];
    stk.push_back(std::move(f));
}
static void popFrame()
{
    Frame &f = stk.back();
    // kill stack objects of this frame
    if (stackPtr != f.savedStack)
    {
        uint64_t a = (uint64_t)f.savedStack, e = (uint64_t)stackPtr;
        for (size_t g = gran(a); g <= gran(e - 1); ++g)
        {
            granObj[g] = 0;
            if (granShadow[g])
            {
                uint64_t ga = (uint64_t)region + (g << 4);
                for (uint64_t x = ga; x < ga + 16; ++x)
                    shadow.erase(x);
                granShadow[g] = 0;
            }
        }
        stackPtr = f.savedStack;
    }
    stk.pop_back();
}
static void gotoBlock(Frame &f, DBlock *to)
{
    DBlock *from = f.b;
    if (!to->phis.empty())
    {
        auto &in = to->phiIn[from];
        static std::vector<Val> tmp;
        tmp.clear();
        for (size_t i = 0; i < to->phis.size(); ++i)
            for (unsigned j = 0; j < in[i].n; ++j)
                tmp.push_back(get(f, in[i], j));
        size_t k = 0;
        for (size_t i = 0; i < to->phis.size(); ++i)
            for (unsigned j = 0; j < in[i].n; ++j)
                f.r[to->phis[i].dest + j] = tmp[k++];
    }
    f.b = to;
    f.pc = 0;
}

struct Terminated
{
};
static bool excMatches(uint64_t catchTi, const Exc &e)
{
    if (catchTi == 0)
        return true;
    if (catchTi == e.ti)
        return true;
    auto *ct = (const std::type_info *)catchTi;
    auto *tt = (const std::type_info *)e.ti;
    void *obj = (void *)e.obj;
    return ct->__do_catch(tt, &obj, 1);
}
static size_t baseDepth = 0;
// Unwind to the nearest matching landing pad.
static void unwind(Exc e)
{
    inflight = e;
    while (stk.size() > baseDepth)
    {
        Frame &f = stk.back();
        DInst &d = f.b->code[f.pc];
        if (auto *inv = dyn_cast<InvokeInst>(d.I))
        {
            auto *lp = inv->getLandingPadInst();
            int sel = 0;
            bool enter = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses(); ++i)
            {
                if (lp->isCatch(i))
                {
                    uint64_t ti = constPtrInt(lp->getClause(i));
                    if (excMatches(ti, e))
                    {
                        sel = typeIdFor(ti);
                        enter = true;
                        break;
                    }
                }
                else
                {
                    // filter: treat as match of an empty/noexcept filter
                    enter = true;
                    sel = -1;
                }
            }
            if (enter)
            {
                gotoBlock(f, d.b1);
                // landingpad is the first non-phi instruction
                DInst &l = f.b->code[0];
                f.r[l.dest] = Val{e.obj, nullptr};
                f.r[l.dest + 1] = Val{(uint64_t)(uint32_t)sel, nullptr};
                f.pc = 1;
                return;
            }
        }
        popFrame();
    }
    std::string nm = e.ti ? demangle(std::string("_ZTI") + ((const std::type_info *)e.ti)->name()) : "?";
    violation("uncaught exception: " + nm, model);
    throw PathEnd{};
}

struct U2
{
    uint64_t a, b;
};
typedef U2 (*NFI)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, double, double, double, double, double,
                  double, double, double, uint64_t, uint64_t, uint64_t, uint64_t);
typedef double (*NFD)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, double, double, double, double, double,
                      double, double, double, uint64_t, uint64_t, uint64_t, uint64_t);

// Names of native functions whose pointer arguments may lie in objects that
// hold symbolic payloads (they only touch concrete link fields).
static bool shadowSafeNative(StringRef n)
{
    return n.starts_with("_ZSt29_Rb_tree_insert_and_rebalance") || n.starts_with("_ZSt18_Rb_tree_") || n.contains("_Rb_tree")
           || n.contains("_List_node_base") || n.contains("_Prime_rehash_policy");
}

static Val callNative(DInst &d, Function *F, uint64_t addr, std::vector<std::vector<Val>> &args, Frame &f)
{
    sh->nativeCalls++;
    uint64_t ia[10] = {0};
    double da[8] = {0};
    int ni = 0, nd = 0;
    std::string name = F ? F->getName().str() : "?";
    for (size_t i = 0; i < args.size(); ++i)
        for (auto &v : args[i])
        {
            Val x = v;
            if (x.s)
            {
                if (d.argKind[i])
                    throw Unsupported{"symbolic double to native " + name};
                // e.g. error messages: value irrelevant; use the model's value without constraining
                if (name.find("basic_ostream") != std::string::npos || name.find("_M_insert") != std::string::npos)
                    x.c = x.s->isBool() ? 0 : (uint64_t)(bvMode ? 0 : evalX(x.s, model));
                else
                    x.c = (uint64_t)concretise(x.s, 64);
            }
            else if (d.argKind[i] == 0 && inRegion(x.c) && !shadowSafeNative(name))
            {
                uint32_t o = granObj[gran(x.c)];
                uint64_t lo = o ? objs[o - 1].base : 0, len = o ? std::min<uint64_t>(objs[o - 1].size, 4096) : 0;
                if (o && (name == "strlen" || name == "strcmp" || (name == "strcpy" && i == 1)))
                {
                    // Only the string itself is read.
                    uint64_t const room = lo + objs[o - 1].size - x.c;
                    lo = x.c, len = std::min<uint64_t>(strnlen((char const *)x.c, room) + 1, room);
                }
                else if (o && i == 0 && name.find("St7__cxx1112basic_string") < 6 && lo + len >= x.c + 32)
                    lo = x.c, len = 32;
                if (o && objs[o - 1].kind != 0 && anyShadow(lo, len))
                {
                    overlapping(lo, len, ovl);
                    if (!ovl.empty())
                        throw Unsupported{"native call on object with symbolic content: " + name};
                }
            }
            if (d.argKind[i] == 1)
            {
                if (nd >= 8)
                    throw Unsupported{"too many fp args"};
                memcpy(&da[nd++], &x.c, 8);
            }
            else if (d.argKind[i] == 2)
                throw Unsupported{"float arg"};
            else
            {
                if (ni >= 10)
                    throw Unsupported{"too many args"};
                unsigned w = 64;
                if (auto *cb = dyn_cast<CallBase>(d.I))
                {
                    unsigned bw = bitsOf(cb->getArgOperand(i)->getType());
                    if (cb->paramHasAttr(i, Attribute::SExt) && bw)
                        x.c = (uint64_t)sextW(x.c, bw);
                    (void)w;
                }
                ia[ni++] = x.c;
            }
        }
    Type *rt = d.I->getType();
    Val r;
    Exc ex{0, 0};
    bool threw = false;
    try
    {
        if (rt->isDoubleTy())
        {
            double z = ((NFD)addr)(ia[0], ia[1], ia[2], ia[3], ia[4], ia[5], da[0], da[1], da[2], da[3], da[4], da[5],
                                   da[6], da[7], ia[6], ia[7], ia[8], ia[9]);
            memcpy(&r.c, &z, 8);
        }
        else
        {
            U2 u = ((NFI)addr)(ia[0], ia[1], ia[2], ia[3], ia[4], ia[5], da[0], da[1], da[2], da[3], da[4], da[5], da[6],
                               da[7], ia[6], ia[7], ia[8], ia[9]);
            r.c = u.a;
            if (d.dest >= 0 && nslots(rt) == 2)
            {
                std::vector<Leaf> l;
                flatten(rt, 0, l);
                if (l[1].off >= 8)
                    f.r[d.dest + 1] = Val{maskW(u.b, bitsOf(l[1].ty)), nullptr};
                else
                    throw Unsupported{"packed native struct return"};
            }
        }
    }
    catch (Unsupported &)
    {
        throw;
    }
    catch (PathEnd &)
    {
        throw;
    }
    catch (...)
    {
        std::exception_ptr *p = new std::exception_ptr(std::current_exception());
        ex.obj = *(uint64_t *)p;
        ex.ti = (uint64_t)__cxxabiv1::__cxa_current_exception_type();
        threw = true;
    }
    if (threw)
    {
        excType[ex.obj] = ex.ti;
        unwind(ex);
        throw Terminated{};  // control transferred
    }
    unsigned w = bitsOf(rt);
    if (w)
        r.c = maskW(r.c, w);
    return r;
}

static void advance(Frame &f, DInst &d)
{
    if (d.I->getOpcode() == Instruction::Invoke)
        gotoBlock(f, d.b0);
    else
        ++f.pc;
}

static std::map<std::string, int> nameCount;
static std::string uniqName(const char *n)
{
    int k = nameCount[n]++;
    return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
static std::string cstrAt(uint64_t p) { return std::string((const char *)p); }

static X newInput(const std::string &base, int64_t lo, int64_t hi)
{
    std::string nm = uniqName(base.c_str());
    if (bvMode)
    {
        Z3_ast v = keep(Z3_mk_const(zc, Z3_mk_string_symbol(zc, nm.c_str()), bvSort(64)));
        bvInputs.push_back({nm, v});
        X e = mkRaw(v, 64);
        if (lo != INT64_MIN || hi != INT64_MAX)
        {
            Z3_ast m[2] = {Z3_mk_bvsle(zc, bvc((uint64_t)lo, 64), v), Z3_mk_bvsle(zc, v, bvc((uint64_t)hi, 64))};
            assertPC(mkRaw(keep(Z3_mk_and(zc, 2, m)), 0));
        }
        return e;
    }
    X e = mkVar(nm, lo, hi);
    inputs.push_back({nm, e});
    if (lo < hi)
    {
        Z3_solver_assert(zc, zs, Z3_mk_ge(zc, tr(e), zint(lo)));
        Z3_solver_assert(zc, zs, Z3_mk_le(zc, tr(e), zint(hi)));
    }
    else if (lo == hi)
    {
        Z3_solver_assert(zc, zs, Z3_mk_eq(zc, tr(e), zint(lo)));
        inputs.back().second = e;
    }
    // model: pick midpoint-ish default
    model.v[e] = std::max<i128>(lo, std::min<i128>(hi, 0));
    model.gen = ++genCounter;
    return e;
}

static void doCheck(X c, const std::string &msg)
{
    int si = siteIndex("check:", msg.c_str());
    sh->sites[si].count++;
    if (c->op == Op::TRUE_)
    {
        sh->trivial++;
        return;
    }
    if (pcSet.count(c))
    {
        sh->trivial++;
        return;
    }
    if (bvMode)
    {
        X nc = mkRaw(keep(Z3_mk_not(zc, tr(c))), 0);
        int r = query(nc, nullptr);
        sh->sites[si].queries++;
        if (r == 1)
        {
            violation(msg, model);
            throw PathEnd{};
        }
        if (r < 0)
            inconclusive("solver unknown on check: " + msg);
        return;
    }
    X nc = mkNot(c);
    if (evalX(nc, model))
    {
        sh->sites[si].queries++;
        violation(msg, model);
        throw PathEnd{};
    }
    Model m;
    sh->sites[si].queries++;
    int r = query(nc, &m);
    if (r == 1)
    {
        if (!evalX(nc, m))
            inconclusive("model does not evaluate to violation: " + msg);
        else
            violation(msg, m);
        throw PathEnd{};
    }
    if (r < 0)
        inconclusive("solver unknown on check: " + msg);
    else
        pcSet.insert(c);
}

// Returns true if control was already transferred.
static void doCall(DInst &d)
{
    Frame &f = stk.back();
    auto A = [&](int i) -> const Val & { return get(f, d.o[i]); };
    auto P = [&](int i) { return getPtr(f, d.o[i]); };
    Val r;
    auto ret = [&](const Val &v)
    {
        if (d.dest >= 0)
            f.r[d.dest] = v;
        advance(f, d);
    };
    if (d.iid != Intrinsic::not_intrinsic)
    {
        unsigned w = d.w;
        switch (d.iid)
        {
        case Intrinsic::memcpy:
        case Intrinsic::memmove:
        case Intrinsic::memcpy_inline:
            copyMem(P(0), P(1), P(2));
            return ret(r);
        case Intrinsic::memset:
        {
            uint64_t p = P(0), n = P(2);
            if (n)
            {
                boundsCheck(p, n, true);
                clearShadow(p, n);
                memset((void *)p, (int)P(1), n);
            }
            return ret(r);
        }
        case Intrinsic::smax:
        case Intrinsic::smin:
        case Intrinsic::umax:
        case Intrinsic::umin:
        {
            const Val &a = A(0), &b = A(1);
            CmpInst::Predicate pr = d.iid == Intrinsic::smax   ? CmpInst::ICMP_SGE
                                    : d.iid == Intrinsic::smin ? CmpInst::ICMP_SLE
                                    : d.iid == Intrinsic::umax ? CmpInst::ICMP_UGE
                                                               : CmpInst::ICMP_ULE;
            if (!bvMode && (a.s || b.s) && (d.iid == Intrinsic::smax || d.iid == Intrinsic::smin))
            {
                X x = resolveInt(toX(a, w), w), y = resolveInt(toX(b, w), w);
                return ret(fromX(d.iid == Intrinsic::smax ? mkMax(x, y) : mkMin(x, y), w));
            }
            Val c = icmp(pr, a, b, w);
            if (!c.s)
                return ret(c.c ? a : b);
            return ret(selectVal(c.s, a, b, d.I->getType()));
        }
        case Intrinsic::abs:
        {
            const Val &a = A(0);
            if (!a.s)
            {
                r.c = maskW((uint64_t)std::abs(sextW(a.c, w)), w);
                return ret(r);
            }
            if (bvMode)
            {
                Z3_ast x = tr(a.s);
                return ret(fromX(
                    mkRaw(keep(Z3_mk_ite(zc, Z3_mk_bvslt(zc, x, bvc(0, w)), Z3_mk_bvneg(zc, x), x)), w), w));
            }
            return ret(fromX(mkWrap(mkMax(a.s, mkScale(a.s, -1)), w), w));
        }
        case Intrinsic::expect:
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group:
        case Intrinsic::threadlocal_address:
        case Intrinsic::annotation:
        case Intrinsic::ssa_copy:
            return ret(A(0));
        case Intrinsic::is_constant:
            return ret(r);
        case Intrinsic::objectsize:
            r.c = ~0ull;
            return ret(r);
        case Intrinsic::ctpop:
        case Intrinsic::ctlz:
        case Intrinsic::cttz:
        case Intrinsic::bswap:
        {
            Val a = A(0);
            if (a.s)
            {
                if (!bvMode)
                    throw Unsupported{"bit count on symbolic"};
                Z3_ast x = tr(a.s), acc = bvc(0, w);
                if (d.iid == Intrinsic::ctpop)
                {
                    for (unsigned i = 0; i < w; ++i)
                        acc = Z3_mk_bvadd(zc, acc, Z3_mk_zero_ext(zc, w - 1, Z3_mk_extract(zc, i, i, x)));
                    return ret(fromX(mkRaw(keep(acc), w), w));
                }
                if (d.iid == Intrinsic::cttz)
                {
                    acc = bvc(w, w);
                    for (int i = w - 1; i >= 0; --i)
                        acc = Z3_mk_ite(zc, Z3_mk_eq(zc, Z3_mk_extract(zc, i, i, x), bvc(1, 1)), bvc(i, w), acc);
                    return ret(fromX(mkRaw(keep(acc), w), w));
                }
                if (d.iid == Intrinsic::ctlz)
                {
                    acc = bvc(w, w);
                    for (unsigned i = 0; i < w; ++i)
                        acc = Z3_mk_ite(zc, Z3_mk_eq(zc, Z3_mk_extract(zc, i, i, x), bvc(1, 1)), bvc(w - 1 - i, w), acc);
                    return ret(fromX(mkRaw(keep(acc), w), w));
                }
                throw Unsupported{"bswap sym"};
            }
            uint64_t x = maskW(a.c, w);
            if (d.iid == Intrinsic::ctpop)
                r.c = __builtin_popcountll(x);
            else if (d.iid == Intrinsic::cttz)
                r.c = x ? __builtin_ctzll(x) : w;
            else if (d.iid == Intrinsic::ctlz)
                r.c = x ? __builtin_clzll(x) - (64 - w) : w;
            else
                r.c = __builtin_bswap64(x) >> (64 - w);
            return ret(r);
        }
        case Intrinsic::fshl:
        case Intrinsic::fshr:
        {
            Val a = A(0), b = A(1), c = A(2);
            if (c.s)
                throw Unsupported{"fsh symbolic amount"};
            unsigned k = c.c % w;
            if (d.iid == Intrinsic::fshr)
                k = (w - k) % w;
            if (!a.s && !b.s)
            {
                r.c = k ? maskW((a.c << k) | (maskW(b.c, w) >> (w - k)), w)
                        : (d.iid == Intrinsic::fshr ? b.c : a.c);
                return ret(r);
            }
            if (!bvMode)
                throw Unsupported{"fsh sym"};
            if (k == 0)
                return ret(d.iid == Intrinsic::fshr ? b : a);
            Z3_ast x = tr(toX(a, w)), y = tr(toX(b, w));
            Z3_ast z = Z3_mk_concat(zc, Z3_mk_extract(zc, w - k - 1, 0, x), Z3_mk_extract(zc, w - 1, w - k, y));
            return ret(fromX(mkRaw(keep(z), w), w));
        }
        case Intrinsic::sadd_with_overflow:
        case Intrinsic::ssub_with_overflow:
        case Intrinsic::smul_with_overflow:
        case Intrinsic::uadd_with_overflow:
        case Intrinsic::usub_with_overflow:
        case Intrinsic::umul_with_overflow:
        {
            Val a = A(0), b = A(1);
            unsigned ww = d.w2;
            bool sg = d.iid == Intrinsic::sadd_with_overflow || d.iid == Intrinsic::ssub_with_overflow
                      || d.iid == Intrinsic::smul_with_overflow;
            if (bvMode && (a.s || b.s))
                throw Unsupported{"overflow intrinsic in bv mode"};
            X x = toX(a, ww), y = toX(b, ww);
            if (!sg)
            {
                x = mkToU(x, ww);
                y = mkToU(y, ww);
            }
            X m;
            if (d.iid == Intrinsic::sadd_with_overflow || d.iid == Intrinsic::uadd_with_overflow)
                m = mkAdd(x, y);
            else if (d.iid == Intrinsic::ssub_with_overflow || d.iid == Intrinsic::usub_with_overflow)
                m = mkSub(x, y);
            else
                m = mkMul(x, y);
            i128 lo = sg ? -((i128)1 << (ww - 1)) : 0, hi = sg ? ((i128)1 << (ww - 1)) - 1 : ((i128)1 << ww) - 1;
            X ov = mkOr(mkLT(m, mkConst(lo)), mkLT(mkConst(hi), m));
            f.r[d.dest] = fromX(mkWrap(m, ww), ww);
            f.r[d.dest + 1] = fromX(ov, 1);
            return advance(f, d);
        }
        case Intrinsic::usub_sat:
        {
            Val a = A(0), b = A(1);
            Val c = icmp(CmpInst::ICMP_ULE, a, b, w);
            DInst t = d;
            t.op = Instruction::Sub;
            Val s = binop(t, a, b, w);
            Val zero;
            if (!c.s)
                return ret(c.c ? zero : s);
            return ret(selectVal(c.s, zero, s, d.I->getType()));
        }
        case Intrinsic::sadd_sat:
        case Intrinsic::ssub_sat:
        case Intrinsic::uadd_sat:
        {
            Val a = A(0), b = A(1);
            if (bvMode && (a.s || b.s))
                throw Unsupported{"sat intrinsic bv"};
            X x = toX(a, w), y = toX(b, w);
            if (d.iid == Intrinsic::uadd_sat)
            {
                X m = mkAdd(mkToU(x, w), mkToU(y, w));
                return ret(fromX(mkWrap(mkMin(m, mkConst(((i128)1 << w) - 1)), w), w));
            }
            X m = d.iid == Intrinsic::sadd_sat ? mkAdd(x, y) : mkSub(x, y);
            m = mkMax(mkMin(m, mkConst(((i128)1 << (w - 1)) - 1)), mkConst(-((i128)1 << (w - 1))));
            return ret(fromX(m, w));
        }
        case Intrinsic::fmuladd:
        case Intrinsic::fma:
        {
            if (d.iid == Intrinsic::fmuladd)
                return ret(fbin(Instruction::FAdd, fbin(Instruction::FMul, A(0), A(1)), A(2)));
            throw Unsupported{"fma"};
        }
        case Intrinsic::fabs:
        case Intrinsic::floor:
        case Intrinsic::ceil:
        case Intrinsic::round:
        case Intrinsic::trunc:
        case Intrinsic::sqrt:
        case Intrinsic::rint:
        case Intrinsic::nearbyint:
        case Intrinsic::log:
        case Intrinsic::exp:
        {
            Val a = A(0);
            if (a.s)
            {
                X g = fdy(a);
                if (d.iid == Intrinsic::fabs)
                    return ret(fdyVal(mkMax(g->a, mkScale(g->a, -1)), (int)g->k));
                if (d.iid == Intrinsic::floor)
                    return ret(fdyVal(mkDivFloor(g->a, (i128)1 << (int)g->k), 0));
                if (d.iid == Intrinsic::ceil)
                    return ret(fdyVal(mkScale(mkDivFloor(mkScale(g->a, -1), (i128)1 << (int)g->k), -1), 0));
                if (d.iid == Intrinsic::trunc)
                    return ret(fdyVal(mkDivTrunc(g->a, mkConst((i128)1 << (int)g->k)), 0));
                throw Unsupported{"float intrinsic on symbolic"};
            }
            double x, z = 0;
            memcpy(&x, &a.c, 8);
            switch (d.iid)
            {
            case Intrinsic::fabs:
                z = std::fabs(x);
                break;
            case Intrinsic::floor:
                z = std::floor(x);
                break;
            case Intrinsic::ceil:
                z = std::ceil(x);
                break;
            case Intrinsic::round:
                z = std::round(x);
                break;
            case Intrinsic::trunc:
                z = std::trunc(x);
                break;
            case Intrinsic::sqrt:
                z = std::sqrt(x);
                break;
            case Intrinsic::log:
                z = std::log(x);
                break;
            case Intrinsic::exp:
                z = std::exp(x);
                break;
            default:
                z = std::rint(x);
            }
            memcpy(&r.c, &z, 8);
            return ret(r);
        }
        case Intrinsic::maxnum:
        case Intrinsic::minnum:
        {
            Val a = A(0), b = A(1);
            Val c = fcmp(d.iid == Intrinsic::maxnum ? CmpInst::FCMP_OGE : CmpInst::FCMP_OLE, a, b);
            if (!c.s)
                return ret(c.c ? a : b);
            return ret(selectVal(c.s, a, b, d.I->getType()));
        }
        case Intrinsic::eh_typeid_for:
            r.c = (uint64_t)typeIdFor(P(0));
            return ret(r);
        case Intrinsic::stacksave:
            r.c = (uint64_t)stackPtr;
            return ret(r);
        case Intrinsic::stackrestore:
            return ret(r);
        case Intrinsic::trap:
        case Intrinsic::ubsantrap:
            violation("trap reached (undefined behaviour check)", model);
            throw PathEnd{};
        case Intrinsic::load_relative:
        default:
            throw Unsupported{"intrinsic " + d.callee->getName().str()};
        }
    }
    switch (d.handler)
    {
    case H_NONE:
        break;
    case H_I64:
    {
        int64_t lo = (int64_t)P(1), hi = (int64_t)P(2);
        if (lo == hi && !bvMode)
        {
            X e = newInput(cstrAt(P(0)), lo, hi);
            (void)e;
            r.c = (uint64_t)lo;
            return ret(r);
        }
        r.s = newInput(cstrAt(P(0)), lo, hi);
        return ret(r);
    }
    case H_BOOL:
    {
        X e = newInput(cstrAt(P(0)), 0, 1);
        if (bvMode)
            return ret(fromX(mkRaw(keep(Z3_mk_eq(zc, tr(e), bvc(1, 64))), 0), 1));
        return ret(fromX(mkEQ(e, mkConst(1)), 1));
    }
    case H_CHOOSE:
    {
        int64_t n = (int64_t)P(1);
        X e = newInput(cstrAt(P(0)), 0, n - 1);
        curForkSite = 0;
        r.c = (uint64_t)(n == 1 ? 0 : concretise(e, 64));
        return ret(r);
    }
    case H_ASSUME:
    {
        Val v = A(0);
        if (!v.s)
        {
            if (!v.c)
                throw PathEnd{};
            return ret(r);
        }
        if (bvMode)
        {
            assertPC(v.s);
            if (query(mkRaw(keep(Z3_mk_true(zc)), 0), nullptr) == 0)
                throw PathEnd{};
            return ret(r);
        }
        if (!evalX(v.s, model))
        {
            Model m;
            int q = query(v.s, &m);
            if (q == 0)
                throw PathEnd{};
            if (q < 0)
            {
                inconclusive("solver unknown on assume");
                throw PathEnd{};
            }
            model = m;
        }
        assertPC(v.s);
        return ret(r);
    }
    case H_CHECK:
    {
        Val v = A(0);
        std::string msg = cstrAt(P(1));
        if (!v.s)
        {
            int si = siteIndex("check:", msg.c_str());
            sh->sites[si].count++;
            if (!v.c)
            {
                if (bvMode)
                    query(mkRaw(keep(Z3_mk_true(zc)), 0), nullptr);
                violation(msg, model);
                throw PathEnd{};
            }
            sh->trivial++;
        }
        else
            doCheck(v.s, msg);
        return ret(r);
    }
    case H_FAIL:
    {
        if (bvMode)
            query(mkRaw(keep(Z3_mk_true(zc)), 0), nullptr);
        violation(cstrAt(P(0)), model);
        throw PathEnd{};
    }
    case H_BEYOND:
        throw Unsupported{"beyond the harness: " + cstrAt(P(0))};
    case H_COVER:
        sh->sites[siteIndex("cover:", cstrAt(P(0)).c_str())].count++;
        return ret(r);
    case H_OBS:
    {
        Val v = A(0);
        observed.push_back({"", toX(v, 64)});
        return ret(r);
    }
    case H_SYMBOLIC:
        r.c = 1;
        return ret(r);
    case H_CONCRETE:
    {
        Val v = A(0);
        r.c = v.s ? (uint64_t)concretise(v.s, 64) : v.c;
        return ret(r);
    }
    case H_NEW:
    case H_MALLOC:
    {
        uint64_t n = P(0);
        if (n > ((uint64_t)1 << 31))
        {
            if (d.handler == H_NEW && d.callee->getName().contains("nothrow"))
                return ret(r);
            if (d.handler == H_NEW)
            {
                // behave like a failing allocation
                try
                {
                    throw std::bad_alloc();
                }
                catch (...)
                {
                    auto *p = new std::exception_ptr(std::current_exception());
                    Exc ex{*(uint64_t *)p, (uint64_t)__cxxabiv1::__cxa_current_exception_type()};
                    unwind(ex);
                    return;
                }
            }
            return ret(r);
        }
        r.c = allocObj(heapPtr, n, 16, 1);
        memset((void *)r.c, 0xA5, n);
        return ret(r);
    }
    case H_CALLOC:
    {
        uint64_t n = P(0) * P(1);
        r.c = allocObj(heapPtr, n, 16, 1);
        return ret(r);
    }
    case H_REALLOC:
    {
        uint64_t p = P(0), n = P(1);
        r.c = allocObj(heapPtr, n, 16, 1);
        if (p)
        {
            Obj ob = objs[granObj[gran(p)] - 1];
            copyMem(r.c, p, std::min(n, ob.size));
            objs[granObj[gran(p)] - 1].alive = false;
        }
        return ret(r);
    }
    case H_DELETE:
    case H_FREE:
    {
        uint64_t p = P(0);
        if (p)
        {
            if (inRegion(p))
            {
                uint32_t o = granObj[gran(p)];
                if (!o || objs[o - 1].base != p || objs[o - 1].kind != 1)
                    throw MemErr{"invalid free"};
                if (!objs[o - 1].alive)
                    throw MemErr{"double free"};
                objs[o - 1].alive = false;
            }
            else
                free((void *)p);
        }
        return ret(r);
    }
    case H_MEMCPY:
    {
        uint64_t p = P(0);
        copyMem(p, P(1), P(2));
        r.c = p;
        return ret(r);
    }
    case H_MEMSET:
    {
        uint64_t p = P(0), n = P(2);
        if (n)
        {
            boundsCheck(p, n, true);
            clearShadow(p, n);
            memset((void *)p, (int)P(1), n);
        }
        r.c = p;
        return ret(r);
    }
    case H_MEMCMP:
    case H_BCMP:
    {
        uint64_t p = P(0), q = P(1), n = P(2);
        if (n)
        {
            boundsCheck(p, n, false);
            boundsCheck(q, n, false);
        }
        if (!anyShadow(p, n) && !anyShadow(q, n))
        {
            r.c = (uint32_t)memcmp((void *)p, (void *)q, n);
            return ret(r);
        }
        if (d.handler == H_MEMCMP)
            throw Unsupported{"memcmp on symbolic"};
        X acc = bvMode ? mkRaw(keep(Z3_mk_true(zc)), 0) : mkBool(true);
        for (uint64_t i = 0; i < n;)
        {
            uint64_t c = 1;
            auto it = shadow.find(p + i);
            auto jt = shadow.find(q + i);
            if (it != shadow.end())
                c = it->second.size;
            else if (jt != shadow.end())
                c = jt->second.size;
            if (i + c > n)
                throw Unsupported{"bcmp cuts symbolic"};
            Val a = loadVal(p + i, c, c * 8), b = loadVal(q + i, c, c * 8);
            if ((a.s && a.s->op == Op::FDY) || (b.s && b.s->op == Op::FDY))
                throw Unsupported{"bcmp on doubles"};
            Val e = icmp(CmpInst::ICMP_EQ, a, b, c * 8);
            X ex = toX(e, 1);
            if (bvMode)
            {
                Z3_ast m[2] = {tr(acc), tr(ex)};
                acc = mkRaw(keep(Z3_mk_and(zc, 2, m)), 0);
            }
            else
                acc = mkAnd(acc, ex);
            i += c;
        }
        Val z0{0, nullptr}, z1{1, nullptr};
        Val av = fromX(acc, 1);
        if (!av.s)
            return ret(av.c ? z0 : z1);
        return ret(selectVal(av.s, z0, z1, d.I->getType()));
    }
    case H_ALLOCEXC:
        r.c = allocObj(heapPtr, P(0), 16, 1);
        return ret(r);
    case H_FREEEXC:
        return ret(r);
    case H_THROW:
    {
        Exc e{P(0), P(1)};
        excType[e.obj] = e.ti;
        unwind(e);
        return;
    }
    case H_BEGINCATCH:
    case H_GETEXCPTR:
    {
        uint64_t o = P(0);
        if (d.handler == H_BEGINCATCH)
            caught.push_back({o, excType[o]});
        r.c = o;
        return ret(r);
    }
    case H_ENDCATCH:
        if (!caught.empty())
            caught.pop_back();
        return ret(r);
    case H_RETHROW:
    {
        if (caught.empty())
            throw MemErr{"rethrow without exception"};
        Exc e = caught.back();
        unwind(e);
        return;
    }
    case H_GUARDACQ:
    {
        uint64_t p = P(0);
        r.c = *(uint8_t *)p == 0;
        return ret(r);
    }
    case H_GUARDREL:
        *(uint8_t *)P(0) = 1;
        return ret(r);
    case H_NOP:
    case H_RET0:
        return ret(r);
    case H_ABORT:
    {
        std::string m = "abort/terminate reached: " + d.callee->getName().str();
        if (d.callee->getName() == "__assert_fail")
            m = "assertion failed: " + cstrAt(P(0));
        if (bvMode)
            query(mkRaw(keep(Z3_mk_true(zc)), 0), nullptr);
        violation(m, model);
        throw PathEnd{};
    }
    }
    Function *F = d.callee;
    uint64_t addr = 0;
    if (!F)
    {
        addr = getPtr(f, d.o[d.nargs]);
        auto it = fnAt.find(addr);
        if (it == fnAt.end())
        {
            if (addr < 65536)
                throw MemErr{"call through null pointer"};
        }
        else
            F = it->second;
        if (F)
        {
            auto h = handlers.find(F->getName().str());
            if (h != handlers.end())
            {
                DInst t = d;
                t.callee = F;
                t.handler = h->second;
                t.o.pop_back();
                doCall(t);
                return;
            }
        }
    }
    std::vector<std::vector<Val>> args(d.nargs);
    auto *cb = cast<CallBase>(d.I);
    for (int i = 0; i < d.nargs; ++i)
        for (unsigned j = 0; j < d.o[i].n; ++j)
            args[i].push_back(get(f, d.o[i], j));
    if (F && !F->isDeclaration())
    {
        for (int i = 0; i < d.nargs; ++i)
            if (cb->isByValArgument(i))
            {
                Type *bt = cb->getParamByValType(i);
                uint64_t n = DL->getTypeAllocSize(bt);
                uint64_t p = allocObj(stackPtr, n, 16, 2);
                copyMem(p, args[i][0].c, n);
                args[i][0].c = p;
            }
        pushFrame(F, args);
        return;
    }
    if (!addr && F)
    {
        addr = (uint64_t)dlsym(RTLD_DEFAULT, F->getName().str().c_str());
        if (!addr)
            throw Unsupported{"unresolved external " + F->getName().str()};
    }
    try
    {
        Val v = callNative(d, F, addr, args, f);
        ret(v);
    }
    catch (Terminated &)
    {
    }
}

static void run(size_t base)
{
    size_t saveBase = baseDepth;
    baseDepth = base;
    while (stk.size() > base)
    {
        Frame &f = stk.back();
        DInst &d = f.b->code[f.pc];
        if ((++instCount & 0xFFFF) == 0)
        {
            checkDeadline();
            if (instCount > maxInsts)
            {
                violation("instruction budget exceeded (possible non-termination)", model);
                throw PathEnd{};
            }
        }
        switch (d.op)
        {
        case Instruction::Ret:
        {
            std::vector<Val> rv;
            if (!d.o.empty())
                for (unsigned j = 0; j < d.o[0].n; ++j)
                    rv.push_back(get(f, d.o[0], j));
            popFrame();
            if (stk.size() > base)
            {
                Frame &g = stk.back();
                DInst &c = g.b->code[g.pc];
                if (c.dest >= 0)
                    for (size_t j = 0; j < rv.size(); ++j)
                        g.r[c.dest + j] = rv[j];
                advance(g, c);
            }
            break;
        }
        case Instruction::Br:
            if (!d.b1)
                gotoBlock(f, d.b0);
            else
            {
                Val c = get(f, d.o[0]);
                if (!c.s)
                    gotoBlock(f, (c.c & 1) ? d.b0 : d.b1);
                else
                {
                    curForkSite = f.f->id;
                    bool t = decide(c.s);
                    gotoBlock(stk.back(), t ? d.b0 : d.b1);
                }
            }
            break;
        case Instruction::Switch:
        {
            Val c = get(f, d.o[0]);
            if (c.s)
            {
                DBlock *to = d.b0;
                curForkSite = f.f->id;
                for (auto &[k, b] : d.cases)
                {
                    Val kv{k, nullptr};
                    Val e = icmp(CmpInst::ICMP_EQ, c, kv, d.w2);
                    bool t = e.s ? decide(e.s) : e.c;
                    if (t)
                    {
                        to = b;
                        break;
                    }
                }
                gotoBlock(f, to);
            }
            else
            {
                DBlock *to = d.b0;
                for (auto &[k, b] : d.cases)
                    if (k == c.c)
                    {
                        to = b;
                        break;
                    }
                gotoBlock(f, to);
            }
            break;
        }
        case Instruction::Call:
        case Instruction::Invoke:
            doCall(d);
            break;
        case Instruction::Alloca:
        {
            uint64_t n = getPtr(f, d.o[0]) * d.imm;
            uint64_t a = allocObj(stackPtr, n, d.w2, 2);
            if (stackPtr > heapPtr && (uint64_t)stackPtr > (uint64_t)region + REGION)
                throw Unsupported{"stack exhausted"};
            memset((void *)a, 0x5A, n);
            f.r[d.dest] = Val{a, nullptr};
            ++f.pc;
            break;
        }
        case Instruction::Load:
        {
            uint64_t p = getPtr(f, d.o[0]);
            if (d.leaves.size() == 1)
                f.r[d.dest] = loadVal(p, DL->getTypeStoreSize(d.leaves[0].ty), d.w ? d.w : bitsOf(d.leaves[0].ty));
            else
                for (size_t i = 0; i < d.leaves.size(); ++i)
                    f.r[d.dest + i] = loadVal(p + d.leaves[i].off, DL->getTypeStoreSize(d.leaves[i].ty),
                                              bitsOf(d.leaves[i].ty));
            ++f.pc;
            break;
        }
        case Instruction::Store:
        {
            uint64_t p = getPtr(f, d.o[1]);
            for (size_t i = 0; i < d.leaves.size(); ++i)
                storeVal(p + d.leaves[i].off, DL->getTypeStoreSize(d.leaves[i].ty), get(f, d.o[0], i),
                         bitsOf(d.leaves[i].ty));
            ++f.pc;
            break;
        }
        case Instruction::GetElementPtr:
        {
            uint64_t p = getPtr(f, d.o[0]) + d.imm;
            for (size_t i = 0; i < d.gep.size(); ++i)
            {
                Val v = get(f, d.o[d.gep[i].first]);
                if (v.s)
                {
                    curForkSite = f.f->id;
                    v.c = (uint64_t)concretise(v.s, d.gepw[i]);
                }
                p += (uint64_t)(sextW(v.c, d.gepw[i]) * d.gep[i].second);
            }
            f.r[d.dest] = Val{p, nullptr};
            ++f.pc;
            break;
        }
        case Instruction::ICmp:
        {
            auto pr = cast<CmpInst>(d.I)->getPredicate();
            f.r[d.dest] = icmp(pr, get(f, d.o[0]), get(f, d.o[1]), d.w2);
            ++f.pc;
            break;
        }
        case Instruction::FCmp:
            f.r[d.dest] = fcmp(cast<CmpInst>(d.I)->getPredicate(), get(f, d.o[0]), get(f, d.o[1]));
            ++f.pc;
            break;
        case Instruction::FAdd:
        case Instruction::FSub:
        case Instruction::FMul:
        case Instruction::FDiv:
        case Instruction::FRem:
            if (!d.I->getType()->isDoubleTy())
                throw Unsupported{"float type"};
            f.r[d.dest] = fbin(d.op, get(f, d.o[0]), get(f, d.o[1]));
            ++f.pc;
            break;
        case Instruction::FNeg:
        {
            Val v = get(f, d.o[0]);
            if (v.s)
                f.r[d.dest] = fdyVal(mkScale(fdy(v)->a, -1), (int)fdy(v)->k);
            else
                f.r[d.dest] = Val{v.c ^ (1ull << 63), nullptr};
            ++f.pc;
            break;
        }
        case Instruction::Select:
        {
            Val c = get(f, d.o[0]);
            unsigned n = nslots(d.I->getType());
            if (c.s && n == 1 && !d.I->getType()->isVectorTy())
                f.r[d.dest] = selectVal(c.s, get(f, d.o[1]), get(f, d.o[2]), d.I->getType());
            else
            {
                bool t = c.s ? decide(c.s) : c.c & 1;
                for (unsigned j = 0; j < n; ++j)
                    f.r[d.dest + j] = get(f, d.o[t ? 1 : 2], j);
            }
            ++f.pc;
            break;
        }
        case Instruction::ZExt:
        case Instruction::SExt:
        case Instruction::Trunc:
        {
            Val v = get(f, d.o[0]);
            unsigned sw = d.w2, w = d.w;
            if (!w)
                throw Unsupported{"vector cast"};
            if (!v.s)
            {
                uint64_t c = d.op == Instruction::SExt ? (uint64_t)sextW(v.c, sw) : maskW(v.c, sw);
                f.r[d.dest] = Val{maskW(c, w), nullptr};
            }
            else if (bvMode)
            {
                X e = v.s;
                if (sw == 1)
                    f.r[d.dest]
                        = fromX(mkRaw(keep(Z3_mk_ite(zc, tr(e), bvc(d.op == Instruction::SExt ? maskW(~0ull, w) : 1, w),
                                                     bvc(0, w))),
                                      w),
                                w);
                else if (d.op == Instruction::ZExt)
                    f.r[d.dest] = fromX(mkRaw(keep(Z3_mk_zero_ext(zc, w - sw, tr(e))), w), w);
                else if (d.op == Instruction::SExt)
                    f.r[d.dest] = fromX(mkRaw(keep(Z3_mk_sign_ext(zc, w - sw, tr(e))), w), w);
                else if (w == 1)
                    f.r[d.dest] = fromX(mkRaw(keep(Z3_mk_eq(zc, Z3_mk_extract(zc, 0, 0, tr(e)), bvc(1, 1))), 0), 1);
                else
                    f.r[d.dest] = fromX(mkRaw(keep(Z3_mk_extract(zc, w - 1, 0, tr(e))), w), w);
            }
            else
            {
                X e = resolveInt(v.s, sw);
                if (e->op == Op::FDY)
                    throw Unsupported{"cast of double bits"};
                if (w > 64 || sw > 64)
                    throw Unsupported{"i128 symbolic"};
                if (sw == 1)
                    f.r[d.dest] = fromX(b2i(e, d.op == Instruction::SExt ? -1 : 1), w);
                else if (d.op == Instruction::ZExt)
                    f.r[d.dest] = fromX(mkToU(e, sw), w);
                else if (d.op == Instruction::SExt)
                    f.r[d.dest] = fromX(e, w);
                else if (w == 1)
                    f.r[d.dest] = fromX(mkEQ(mkModFloor(e, 2), mkConst(1)), 1);
                else
                    f.r[d.dest] = fromX(mkWrap(e, w), w);
            }
            ++f.pc;
            break;
        }
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::BitCast:
        case Instruction::Freeze:
        case Instruction::AddrSpaceCast:
        {
            for (unsigned j = 0; j < d.o[0].n; ++j)
                f.r[d.dest + j] = get(f, d.o[0], j);
            ++f.pc;
            break;
        }
        case Instruction::SIToFP:
        case Instruction::UIToFP:
        {
            Val v = get(f, d.o[0]);
            if (!v.s)
            {
                double z = d.op == Instruction::SIToFP ? (double)sextW(v.c, d.w2) : (double)maskW(v.c, d.w2);
                Val r;
                memcpy(&r.c, &z, 8);
                f.r[d.dest] = r;
            }
            else
            {
                if (bvMode)
                    throw Unsupported{"fp in bv mode"};
                X e = resolveInt(v.s, d.w2);
                if (e->isBool())
                    e = b2i(e, d.op == Instruction::SIToFP ? -1 : 1);
                else if (d.op == Instruction::UIToFP)
                    e = mkToU(e, d.w2);
                f.r[d.dest] = fdyVal(e, 0);
            }
            ++f.pc;
            break;
        }
        case Instruction::FPToSI:
        case Instruction::FPToUI:
        {
            Val v = get(f, d.o[0]);
            if (!v.s)
            {
                double z;
                memcpy(&z, &v.c, 8);
                if (d.op == Instruction::FPToSI)
                    f.r[d.dest] = Val{maskW((uint64_t)(int64_t)z, d.w), nullptr};
                else
                    f.r[d.dest] = Val{maskW((uint64_t)z, d.w), nullptr};
            }
            else
            {
                X g = fdy(v);
                X t = mkDivTrunc(g->a, mkConst((i128)1 << (int)g->k));
                f.r[d.dest] = fromX(mkWrap(t, d.w), d.w);
            }
            ++f.pc;
            break;
        }
        case Instruction::ExtractValue:
            for (unsigned j = 0; j < d.w2; ++j)
                f.r[d.dest + j] = get(f, d.o[0], d.imm + j);
            ++f.pc;
            break;
        case Instruction::InsertValue:
        {
            for (unsigned j = 0; j < d.o[0].n; ++j)
                f.r[d.dest + j] = get(f, d.o[0], j);
            for (unsigned j = 0; j < d.w2; ++j)
                f.r[d.dest + d.imm + j] = get(f, d.o[1], j);
            ++f.pc;
            break;
        }
        case Instruction::ExtractElement:
            f.r[d.dest] = get(f, d.o[0], getPtr(f, d.o[1]));
            ++f.pc;
            break;
        case Instruction::InsertElement:
        {
            std::vector<Val> t;
            for (unsigned j = 0; j < d.o[0].n; ++j)
                t.push_back(get(f, d.o[0], j));
            t[getPtr(f, d.o[2])] = get(f, d.o[1]);
            for (unsigned j = 0; j < t.size(); ++j)
                f.r[d.dest + j] = t[j];
            ++f.pc;
            break;
        }
        case Instruction::ShuffleVector:
        {
            auto *sv = cast<ShuffleVectorInst>(d.I);
            auto m = sv->getShuffleMask();
            std::vector<Val> t;
            for (int ix : m)
            {
                if (ix < 0)
                    t.push_back(Val{});
                else if ((unsigned)ix < d.o[0].n)
                    t.push_back(get(f, d.o[0], ix));
                else
                    t.push_back(get(f, d.o[1], ix - d.o[0].n));
            }
            for (unsigned j = 0; j < t.size(); ++j)
                f.r[d.dest + j] = t[j];
            ++f.pc;
            break;
        }
        case Instruction::Unreachable:
            violation("unreachable instruction executed", model);
            throw PathEnd{};
        case Instruction::Resume:
        {
            Exc e{get(f, d.o[0], 0).c, 0};
            e.ti = excType[e.obj];
            popFrame();
            unwind(e);
            break;
        }
        case Instruction::AtomicRMW:
        case Instruction::AtomicCmpXchg:
        case Instruction::Fence:
            throw Unsupported{"atomic"};
        default:
            if (Instruction::isBinaryOp(d.op))
            {
                if (d.w)
                    f.r[d.dest] = binop(d, get(f, d.o[0]), get(f, d.o[1]), d.w);
                else if (auto *vt = dyn_cast<FixedVectorType>(d.I->getType()))
                {
                    unsigned ew = bitsOf(vt->getElementType());
                    for (unsigned j = 0; j < vt->getNumElements(); ++j)
                        f.r[d.dest + j] = binop(d, get(f, d.o[0], j), get(f, d.o[1], j), ew);
                }
                else
                    throw Unsupported{"binop type"};
                ++f.pc;
                break;
            }
            throw Unsupported{std::string("instruction ") + d.I->getOpcodeName()};
        }
    }
    baseDepth = saveBase;
}

static std::string obsJson()
{
    std::string s = "[";
    for (size_t i = 0; i < observed.size(); ++i)
    {
        X e = observed[i].second;
        std::string v = bvMode ? "null" : std::to_string((int64_t)evalX(e, model));
        s += (i ? "," : "") + v;
    }
    return s + "]";
}

// Ends this process; the first one writes the summary when all others are done.
static void finishAll()
{
    finishProcess();
    if (getpid() != rootPid)
        _exit(0);
    // summary
    std::string s = "{\"kind\":\"summary\",\"entry\":" + jstr(entryName);
    auto add = [&](const char *k, uint64_t v) { s += std::string(",\"") + k + "\":" + std::to_string(v); };
    add("paths", sh->paths);
    add("forks", sh->forks);
    add("queries", sh->queries);
    add("sat", sh->sat);
    add("unsat", sh->unsat);
    add("unknown", sh->unknown);
    add("insts", sh->insts);
    add("violations", sh->violations);
    add("inconclusive", sh->inconclusive);
    add("trivial_checks", sh->trivial);
    add("native_calls", sh->nativeCalls);
    add("solver_ms", sh->solverUs / 1000);
    add("wall_ms", (uint64_t)((now() - startT) * 1000));
    s += ",\"sites\":{";
    bool first = true;
    for (auto &st : sh->sites)
        if (st.used == 2)
        {
            s += (first ? "" : ",") + jstr(st.msg) + ":[" + std::to_string(st.count) + "," + std::to_string(st.queries)
                 + "]";
            first = false;
        }
    s += "},\"functions\":[";
    first = true;
    for (size_t i = 0; i < fnById.size() && i < 65536; ++i)
        if (sh->fnUsed[i])
        {
            std::string dn = demangle(fnById[i]->getName().str());
            if (dn.find("pyvrp::") == std::string::npos || dn.rfind("std::", 0) == 0 || dn.rfind("void std::", 0) == 0
                || dn.rfind("bool std::", 0) == 0)
                continue;
            if (dn.size() > 200)
                dn.resize(200);
            s += (first ? "" : ",") + jstr(dn);
            first = false;
        }
    s += "],\"fork_sites\":{";
    first = true;
    for (size_t i = 0; i < 4096 && i < fnById.size(); ++i)
        if (sh->forkAt[i])
        {
            std::string dn = demangle(fnById[i]->getName().str());
            if (dn.size() > 120)
                dn.resize(120);
            s += (first ? "" : ",") + jstr(dn) + ":" + std::to_string(sh->forkAt[i]);
            first = false;
        }
    s += "}}";
    emit(s);
}

int main(int argc, char **argv)
{
    std::string bc, entry;
    bool list = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--bc")
            bc = nx();
        else if (a == "--entry")
            entry = nx();
        else if (a == "--out")
            outPath = nx();
        else if (a == "--jobs")
            jobs = stoi(nx());
        else if (a == "--timeout")
            timeoutS = stod(nx());
        else if (a == "--query-timeout")
            queryTimeoutMs = stoi(nx()) * 1000;
        else if (a == "--max-insts")
            maxInsts = stoull(nx());
        else if (a == "--bv")
            bvMode = true;
        else if (a == "--sample")
            sampleEvery = stoi(nx());
        else if (a == "--verbose")
            verbose = true;
        else if (a == "--keep-going")
            keepGoing = true;
        else if (a == "--list")
            list = true;
    }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    startT = now();
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->tokens = jobs - 1;
    region = (char *)mmap(nullptr, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    granObj = (uint32_t *)mmap(nullptr, (REGION >> 4) * 4, PROT_READ | PROT_WRITE,
                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    granShadow = (uint8_t *)mmap(nullptr, REGION >> 4, PROT_READ | PROT_WRITE,
                                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    madvise(granObj, (REGION >> 4) * 4, MADV_NOHUGEPAGE);
    madvise(granShadow, REGION >> 4, MADV_NOHUGEPAGE);
    madvise(region, REGION, MADV_NOHUGEPAGE);
    heapPtr = region + 64;
    stackBase = stackPtr = region + (REGION - ((size_t)256 << 20));
    fnRegion = (char *)mmap(nullptr, 1 << 24, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    fnNext = (uint64_t)fnRegion + 16;

    LLVMContext ctx;
    SMDiagnostic err;
    auto mod = parseIRFile(bc, err, ctx);
    if (!mod)
    {
        err.print("engine", errs());
        return 3;
    }
    M = mod.get();
    DL = &M->getDataLayout();
    for (auto &F : *M)
    {
        fnId[&F] = fnById.size();
        fnById.push_back(&F);
    }
    if (list)
    {
        for (auto &F : *M)
            if (F.getName().starts_with("h_") && !F.isDeclaration())
                printf("%s\n", F.getName().str().c_str());
        return 0;
    }
    signal(SIGALRM, onAlarm);
    initSolver();
    model.gen = ++genCounter;
    int rc = 0;
    rootPid = getpid();
    entryName = entry;
    try
    {
        // globals
        for (auto &G : M->globals())
            if (!G.isDeclaration() && G.getName() != "llvm.global_ctors" && G.getName() != "llvm.used"
                && G.getName() != "llvm.compiler.used")
            {
                uint64_t n = DL->getTypeAllocSize(G.getValueType());
                gaddr[&G] = allocObj(heapPtr, n, G.getAlign() ? G.getAlign()->value() : 16, 0);
            }
        for (auto &G : M->globals())
            if (G.hasInitializer() && gaddr.count(&G) && !G.isDeclaration() && G.getName() != "llvm.global_ctors")
                writeConst(gaddr[&G], G.getInitializer());
        if (auto *gc = M->getNamedGlobal("llvm.global_ctors"))
            if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
                for (auto &op : ca->operands())
                {
                    auto *fn = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts());
                    if (fn && !fn->isDeclaration())
                    {
                        pushFrame(fn, {});
                        run(0);
                    }
                }
        Function *F = M->getFunction(entry);
        if (!F || F->isDeclaration())
        {
            fprintf(stderr, "no entry %s\n", entry.c_str());
            return 3;
        }
        pushFrame(F, {});
        run(0);
        uint64_t np = ++sh->paths;
        // sampled path: dump inputs + observations for native validation
        if (sampleEvery && !bvMode && (np % sampleEvery == 1 || sampleEvery == 1) && sh->samples.load() < 200)
        {
            sh->samples++;
            emit("{\"kind\":\"sample\",\"inputs\":" + inputsJson(model) + ",\"obs\":" + obsJson() + "}");
        }
    }
    catch (PathEnd &)
    {
    }
    catch (Unsupported &u)
    {
        inconclusive("unsupported: " + u.what);
    }
    catch (MemErr &m)
    {
        try
        {
            if (bvMode)
                query(mkRaw(keep(Z3_mk_true(zc)), 0), nullptr);
            violation("memory error: " + m.what, model);
        }
        catch (...)
        {
        }
    }
    catch (std::exception &e)
    {
        inconclusive(std::string("engine exception: ") + e.what());
    }
    sh->insts += instCount;
    finishAll();
    return rc;
}

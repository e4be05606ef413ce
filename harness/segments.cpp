// Joining parts of routes: duration and load segments, and the other small
// building blocks (piecewise linear functions, bit sets).
#include "common.h"

#include "DurationSegment.h"
#include "DynamicBitset.h"
#include "LoadSegment.h"
#include "PiecewiseLinearFunction.h"

namespace
{
constexpr int64_t B = 1'000'000'000;
using DS = DurationSegment;

// A part of a route seen from outside: starting at t it takes d plus the wait
// until e, and warps back from beyond l.
struct Part
{
    int64_t d, w, e, l, r;
    DS seg() const { return DS(d, w, e, l, r); }
};
Part part(size_t i, bool open, bool release)
{
    Part p;
    p.d = sym(nm("duration", i), 0, B);
    p.w = 0;
    p.e = sym(nm("early", i), 0, B);
    p.l = IMAX;
    if (!open)
    {
        p.l = sym(nm("late", i), 0, B);
        vp_assume(p.e <= p.l);
    }
    p.r = release ? sym(nm("release", i), 0, B) : 0;
    return p;
}
struct Run
{
    int64_t now, duration = 0, warp = 0;
    void travel(int64_t x) { now += x, duration += x; }
    void visit(Part const &p)
    {
        int64_t const wait = imax(p.e - now, 0), back = imax(now - p.l, 0);
        duration += wait + p.d;
        warp += back + p.w;
        now += wait + p.d - back - p.w;
    }
};
// Started at a given time, the joined parts do what the parts do one by one.
void follows(size_t n, int openMask)
{
    std::vector<Part> ps;
    std::vector<int64_t> edge;
    for (size_t i = 0; i != n; ++i)
    {
        ps.push_back(part(i, openMask >> i & 1, false));
        edge.push_back(i ? sym(nm("edge", i), 0, B) : 0);
    }
    int64_t const t = sym("start", 0, B);
    Run run{t};
    DS m = ps[0].seg();
    for (size_t i = 0; i != n; ++i)
    {
        run.travel(edge[i]);
        run.visit(ps[i]);
        if (i)
            m = DS::merge(edge[i], m, ps[i].seg());
    }
    DS const x = DS::merge(0, DS(0, 0, t, t), m);
    vp_check(x.duration().get() == run.duration, "duration from a given start");
    vp_check(x.timeWarp().get() == run.warp, "time warp from a given start");
    if (run.now >= 0)
        vp_check(x.endEarly().get() == run.now && x.endLate().get() == run.now, "end from a given start");
    vp_cover("end");
}
// Free start: least time warp first, then least duration.
void best(size_t n, int openMask)
{
    std::vector<Part> ps;
    std::vector<int64_t> edge;
    for (size_t i = 0; i != n; ++i)
    {
        ps.push_back(part(i, openMask >> i & 1, false));
        edge.push_back(i ? sym(nm("edge", i), 0, B) : 0);
    }
    int64_t const t = sym("start", 0, 4 * B);
    auto const from = [&](int64_t when)
    {
        Run run{when};
        for (size_t i = 0; i != n; ++i)
        {
            run.travel(edge[i]);
            run.visit(ps[i]);
        }
        return run;
    };
    DS m = ps[0].seg();
    for (size_t i = 1; i != n; ++i)
        m = DS::merge(edge[i], m, ps[i].seg());
    Run const any = from(t);
    int64_t const tw = m.timeWarp().get(), du = m.duration().get(), early = m.startEarly().get();
    vp_check(any.warp > tw || (any.warp == tw && any.duration >= du), "no start is better");
    Run const e = from(early);
    vp_check(e.warp == tw && e.duration == du, "the earliest start attains it");
    vp_check(t >= early || any.warp > tw || any.duration > du, "no earlier start attains it");
    if (m.startLate().get() <= 4 * B)
    {
        Run const l = from(m.startLate().get());
        vp_check(l.warp == tw && l.duration == du, "the latest start attains it");
        vp_check(m.slack().get() == m.startLate().get() - early, "slack is the room between the two");
    }
    vp_check(t <= m.startLate().get() || any.warp > tw || any.duration > du, "no later start attains it");
    int64_t const cap = sym("limit", 0, B);
    vp_check(m.timeWarp(cap).get() == tw + imax(du - tw - cap, 0), "exceeding the maximum duration is time warp");
    vp_cover("end");
}
// Free start once everything is released: a start at the earliest released time
// attains what the joined part says, and no released start does better.
void released(size_t n, int openMask)
{
    std::vector<Part> ps;
    std::vector<int64_t> edge;
    int64_t r = 0;
    for (size_t i = 0; i != n; ++i)
    {
        ps.push_back(part(i, openMask >> i & 1, true));
        edge.push_back(i ? sym(nm("edge", i), 0, B) : 0);
        r = imax(r, ps[i].r);
    }
    auto const from = [&](int64_t when)
    {
        Run run{when};
        for (size_t i = 0; i != n; ++i)
        {
            run.travel(edge[i]);
            run.visit(ps[i]);
        }
        return run;
    };
    DS m = ps[0].seg();
    for (size_t i = 1; i != n; ++i)
        m = DS::merge(edge[i], m, ps[i].seg());
    int64_t const t = sym("start", 0, 4 * B);
    vp_assume(t >= r);
    int64_t const tw = m.timeWarp().get(), du = m.duration().get(), early = m.startEarly().get();
    vp_check(early >= r, "the earliest start is released");
    Run const any = from(t);
    vp_check(any.warp > tw || (any.warp == tw && any.duration >= du), "no released start is better");
    Run const e = from(early);
    vp_check(e.warp == tw && e.duration == du, "the earliest released start attains it");
    vp_check(m.endEarly().get() == e.now, "the earliest end is that of the earliest start");
    if (m.startLate().get() <= 4 * B)
    {
        Run const l = from(m.startLate().get());
        vp_check(l.warp == tw && l.duration == du, "the latest released start attains it");
        vp_check(m.endLate().get() == l.now, "the latest end is that of the latest start");
    }
    vp_cover("end");
}
// The grouping does not matter.
void same(DS const &a, DS const &b)
{
    vp_check(a.duration().get() == b.duration().get(), "grouping: duration");
    vp_check(a.timeWarp().get() == b.timeWarp().get(), "grouping: time warp");
    vp_check(a.startEarly().get() == b.startEarly().get(), "grouping: earliest start");
    vp_check(a.startLate().get() == b.startLate().get(), "grouping: latest start");
    vp_check(a.endEarly().get() == b.endEarly().get(), "grouping: earliest end");
    vp_check(a.endLate().get() == b.endLate().get(), "grouping: latest end");
    vp_check(a.releaseTime().get() == b.releaseTime().get(), "grouping: release time");
    vp_check(a.slack().get() == b.slack().get(), "grouping: slack");
    vp_check(a.prevEndLate().get() == b.prevEndLate().get(), "grouping: previous trip");
}
// Four parts: all groupings agree with the first.
void grouping4(int openMask)
{
    Part const a = part(0, openMask & 1, true), b = part(1, openMask >> 1 & 1, true),
               c = part(2, openMask >> 2 & 1, true), d = part(3, openMask >> 3 & 1, true);
    int64_t const e1 = sym("edge1", 0, B), e2 = sym("edge2", 0, B), e3 = sym("edge3", 0, B);
    DS const ab = DS::merge(e1, a.seg(), b.seg()), cd = DS::merge(e3, c.seg(), d.seg());
    DS const left = DS::merge(e3, DS::merge(e2, ab, c.seg()), d.seg());
    same(left, DS::merge(e2, ab, cd));
    same(left, DS::merge(e1, a.seg(), DS::merge(e2, b.seg(), cd)));
    vp_cover("end");
}
void grouping(int openMask, bool release)
{
    Part const a = part(0, openMask & 1, release), b = part(1, openMask >> 1 & 1, release),
               c = part(2, openMask >> 2 & 1, release);
    int64_t const e1 = sym("edge1", 0, B), e2 = sym("edge2", 0, B);
    DS const left = DS::merge(e2, DS::merge(e1, a.seg(), b.seg()), c.seg());
    DS const right = DS::merge(e1, a.seg(), DS::merge(e2, b.seg(), c.seg()));
    vp_check(left.releaseTime().get() == imax(a.r, imax(b.r, c.r)), "the release time is the latest");
    same(left, right);
    vp_cover("end");
}
// A trip that has been closed: the next one starts when the first is back.
void trips(bool open, bool release)
{
    Part a = part(0, open, release), b = part(1, open, release);
    a.w = b.w = 0;
    int64_t const edge = sym("edge", 0, B);
    DS const first = a.seg().finaliseBack();
    DS const m = DS::merge(edge, first, b.seg());
    // Both trips wait for their goods; the second cannot leave before the first is back.
    auto const from = [&](int64_t t)
    {
        Run run{t};
        auto const wait = [&](int64_t until)
        {
            int64_t const x = imax(until - run.now, 0);
            run.now += x, run.duration += x;
        };
        wait(a.r);
        run.visit(a);
        wait(b.r);
        run.travel(edge);
        run.visit(b);
        return run;
    };
    int64_t const t = sym("start", 0, 4 * B);
    Run const any = from(t);
    int64_t const tw = m.timeWarp().get(), du = m.duration().get();
    vp_check(any.warp > tw || (any.warp == tw && any.duration >= du), "two trips: no start is better");
    // As late as possible without needless time warp on either trip.
    int64_t const s = imax(imax(a.r, a.e), imin(a.l, b.l == IMAX ? IMAX : imax(b.r, b.l - edge) - a.d));
    if (s <= 4 * B)
    {
        Run const l = from(s);
        vp_check(l.warp == tw && l.duration == du, "two trips: some start attains it");
    }
    vp_cover("end");
}
// ---- load ----------------------------------------------------------------
void loads(size_t n, size_t closeAt)
{
    int64_t const cap = sym("capacity", 0, B), cap2 = sym("capacity2", 0, B);
    std::vector<int64_t> del, pick;
    for (size_t i = 0; i != n; ++i)
        del.push_back(sym(nm("delivery", i), 0, B)), pick.push_back(sym(nm("pickup", i), 0, B));
    auto const seg = [&](size_t i) { return LoadSegment(del[i], pick[i] - del[i], imax(pick[i] - del[i], 0)); };
    // Visits [from, to): what is on board is at most this.
    auto const peak = [&](size_t from, size_t to)
    {
        int64_t on = 0;
        for (size_t i = from; i != to; ++i)
            on += del[i];
        int64_t p = on;
        for (size_t i = from; i != to; ++i)
            on += pick[i] - del[i], p = imax(p, on);
        return p;
    };
    LoadSegment m;
    for (size_t i = 0; i != n; ++i)
    {
        if (i && i == closeAt)
            m = m.finalise(cap);
        m = LoadSegment::merge(m, seg(i));
    }
    size_t const from = closeAt;
    int64_t ini = 0, delta = 0;
    for (size_t i = from; i != n; ++i)
        ini += del[i], delta += pick[i] - del[i];
    int64_t const before = closeAt ? imax(peak(0, closeAt) - cap, 0) : 0;
    vp_check(m.initial().get() == ini, "initial load");
    vp_check(m.delta().get() == delta, "change in load");
    vp_check(m.load().get() == peak(from, n), "largest load");
    vp_check(m.increase().get() == peak(from, n) - ini, "increase");
    vp_check(m.excessLoad(cap2).get() == before + imax(peak(from, n) - cap2, 0), "excess load");
    vp_check(m.finalise(cap2).excessLoad(cap).get() == before + imax(peak(from, n) - cap2, 0), "excess load of closed trips");
    vp_cover("end");
}
void loadGrouping()
{
    auto const seg = [](size_t i)
    {
        int64_t const d = sym(nm("delta", i), -B, B), x = sym(nm("increase", i), 0, B);
        vp_assume(x >= d);
        return LoadSegment(sym(nm("initial", i), 0, B), d, x, sym(nm("excess", i), 0, B));
    };
    auto const a = seg(0), b = seg(1), c = seg(2);
    auto const left = LoadSegment::merge(LoadSegment::merge(a, b), c), right = LoadSegment::merge(a, LoadSegment::merge(b, c));
    int64_t const cap = sym("capacity", 0, B);
    vp_check(left.initial().get() == right.initial().get() && left.delta().get() == right.delta().get()
                 && left.increase().get() == right.increase().get() && left.load().get() == right.load().get()
                 && left.excessLoad(cap).get() == right.excessLoad(cap).get(),
             "grouping: load");
    vp_cover("end");
}
// ---- piecewise linear functions -------------------------------------------
using F = pyvrp::PiecewiseLinearFunction<int64_t, int64_t>;
// Through given points: x enumerated, y any.
void through(size_t n)
{
    std::vector<F::Point> ps;
    for (size_t i = 0; i != n; ++i)
        ps.push_back({(int64_t)vp_choose(nm("x", i).c_str(), 4) - 1, sym(nm("y", i), -B, B)});
    bool ok = n >= 2;
    for (size_t i = 0; i + 1 < n; ++i)
    {
        int64_t const dx = ps[i + 1].first - ps[i].first, dy = ps[i + 1].second - ps[i].second;
        ok = ok && dx >= 0 && (dx == 0 || dy % dx == 0);
        ok = ok && (dx != 0 || (i != 0 && i + 2 != n));
    }
    int64_t const x = vp_choose("at", 8) - 3;
    bool rejected = false;
    try
    {
        F const f(ps);
        vp_check(ok, "only valid points are accepted");
        // The last part that starts at or before x (the first if none does).
        size_t k = 0;
        for (size_t i = 0; i + 1 < n; ++i)
            if (ps[i].first < ps[i + 1].first && (k == 0 || ps[i].first <= x) && (ps[i].first <= x || i == 0))
                k = i;
        int64_t const slope = (ps[k + 1].second - ps[k].second) / (ps[k + 1].first - ps[k].first);
        vp_check(f(x) == ps[k].second + slope * (x - ps[k].first), "the function passes through its points");
        bool mono = true;
        for (size_t i = 0; i + 1 < n; ++i)
            mono = mono && ps[i].second <= ps[i + 1].second;
        vp_check(f.isMonotonicallyIncreasing() == mono, "monotonicity");
        vp_check(F(f.breakpoints(), f.segments()) == f, "rebuilt from its parts");
        vp_cover("accepted");
    }
    catch (std::exception const &)
    {
        rejected = true;
    }
    if (rejected)
    {
        vp_check(!ok, "valid points are accepted");
        vp_cover("rejected");
    }
}
// Given parts: slopes enumerated, breakpoints and intercepts any.
void parts(size_t nb, size_t ns)
{
    std::vector<int64_t> bs;
    std::vector<F::Segment> ss;
    for (size_t i = 0; i != nb; ++i)
        bs.push_back(sym(nm("break", i), -B, B));
    for (size_t i = 0; i != ns; ++i)
        ss.push_back({sym(nm("intercept", i), -B, B), (int64_t)vp_choose(nm("slope", i).c_str(), 4) - 1});
    bool ok = ns == nb + 1;
    for (size_t i = 0; i + 1 < nb; ++i)
        ok = ok && bs[i] < bs[i + 1];
    int64_t const x = sym("x", -B, B), y = sym("y", -B, B);
    bool rejected = false;
    try
    {
        F const f(bs, ss);
        vp_check(ok, "only valid parts are accepted");
        size_t k = 0;
        while (k < nb && bs[k] <= x)
            ++k;
        vp_check(f(x) == ss[k].first + ss[k].second * x, "value");
        if (f.isMonotonicallyIncreasing())
        {
            vp_check(x > y || f(x) <= f(y), "a monotone function never decreases");
            vp_cover("monotone");
        }
        else
        {
            bool dec = false;
            for (auto const &[_, s] : ss)
                dec = dec || s < 0;
            for (size_t i = 0; i != nb; ++i)
                dec = dec || ss[i].first + ss[i].second * bs[i] > ss[i + 1].first + ss[i + 1].second * bs[i];
            vp_check(dec, "a function that is not monotone decreases somewhere");
        }
        vp_cover("accepted");
    }
    catch (std::exception const &)
    {
        rejected = true;
    }
    if (rejected)
    {
        vp_check(!ok, "valid parts are accepted");
        vp_cover("rejected");
    }
}
// ---- bit sets --------------------------------------------------------------
void bits(size_t n)
{
    DynamicBitset a(n), b(n);
    size_t const size = a.size();
    vp_check(size >= n && size < n + 64, "room for all bits");
    // Any bits of small sets, else those around the edges of the blocks.
    size_t const at[] = {0, 1, n / 2, n - 2, n - 1};
    auto const pick = [&](char const *name) { return at[vp_choose(name, 5)]; };
    size_t const i = pick("set_a"), j = pick("set_a2"), k = pick("set_b");
    vp_check(a.none() && !a.any() && a.count() == 0, "empty at first");
    a[i] = true;
    a[j] = true;
    b[k] = true;
    auto const inA = [&](size_t x) { return x == i || x == j; };
    auto const inB = [&](size_t x) { return x == k; };
    auto const o = a | b, n_ = a & b, x_ = a ^ b, not_ = ~a;
    size_t ca = 0, co = 0, cn = 0, cx = 0;
    for (size_t x = 0; x != size; ++x)
    {
        vp_check(a[x] == inA(x), "what was set");
        vp_check(o[x] == (inA(x) || inB(x)) && n_[x] == (inA(x) && inB(x)) && x_[x] == (inA(x) != inB(x)) && not_[x] == !inA(x),
                 "operations, bit by bit");
        ca += inA(x), co += inA(x) || inB(x), cn += inA(x) && inB(x), cx += inA(x) != inB(x);
    }
    vp_check(a.count() == ca && o.count() == co && n_.count() == cn && x_.count() == cx && not_.count() == size - ca, "counts");
    vp_check(n_.any() == (cn > 0) && n_.none() == (cn == 0) && !a.all() && (a | not_).all(), "any, none, all");
    vp_check((a == b) == (i == j && i == k), "equality");
    a[i] = false;
    vp_check(a[j] == (i != j) && !a[i], "clearing one");
    a.set();
    vp_check(a.all(), "set all");
    a.reset();
    vp_check(a.none(), "reset");
    vp_cover("end");
}
}  // namespace
extern "C" void h_follow1() { follows(1, 0); }
extern "C" void h_follow2() { follows(2, vp_choose("open", 4)); }
extern "C" void h_follow3() { follows(3, vp_choose("open", 8)); }
extern "C" void h_best1() { best(1, vp_choose("open", 2)); }
extern "C" void h_best2() { best(2, vp_choose("open", 4)); }
extern "C" void h_best3() { best(3, vp_choose("open", 8)); }
extern "C" void h_group() { grouping(vp_choose("open", 8), false); }
extern "C" void h_grouprel() { grouping(vp_choose("open", 8), true); }
extern "C" void h_group4() { grouping4(vp_choose("open", 16)); }
extern "C" void h_tripsopenrel() { trips(true, true); }
extern "C" void h_trips() { trips(false, false); }
extern "C" void h_tripsopen() { trips(true, false); }
extern "C" void h_tripsrel() { trips(false, true); }
extern "C" void h_load2() { loads(2, vp_choose("close", 2)); }
extern "C" void h_load3() { loads(3, vp_choose("close", 3)); }
extern "C" void h_load4() { loads(4, vp_choose("close", 4)); }
extern "C" void h_loadgroup() { loadGrouping(); }
extern "C" void h_points1() { through(1); }
extern "C" void h_points2() { through(2); }
extern "C" void h_points3() { through(3); }
extern "C" void h_points4() { through(4); }
extern "C" void h_parts12() { parts(1, 2); }
extern "C" void h_parts23() { parts(2, 3); }
extern "C" void h_parts01() { parts(0, 1); }
extern "C" void h_parts22() { parts(2, 2); }
extern "C" void h_parts00() { parts(0, 0); }
extern "C" void h_bits5() { bits(5); }
extern "C" void h_bits64() { bits(64); }
extern "C" void h_bits66() { bits(66); }
extern "C" void h_bits129() { bits(129); }
extern "C" void h_released1() { released(1, vp_choose("open", 2)); }
extern "C" void h_released2() { released(2, vp_choose("open", 4)); }
extern "C" void h_released3() { released(3, vp_choose("open", 8)); }

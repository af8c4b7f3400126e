// C09: a failing curve edit leaves the curve untouched, whichever allocation fails.
#include "edits.h"
#include <gbs/bscbuild.h>

namespace
{
    using namespace h;

    /// Runs `f` on a clone with allocation `k` failing; checks state, leaks, and that a retry works.
    template <class C, class F> void fail_at(const C &c0, const CurveState<C> &want, sim::u64 k, bool persistent, F &&f, const std::string &what)
    {
        C c = c0;
        CurveState<C> before(c);
        auto blocks = sim::live_blocks();
        sim::u64 failed = 0;
        {
            int how = 0; // 0 success, 1 bad_alloc, 2 other
            sim::alloc_arm(k, persistent);
            try { f(c); }
            catch (const std::bad_alloc &) { how = 1; }
            catch (...) { how = 2; }
            auto w = sim::alloc_disarm();
            failed = w.failed;
            if (how == 2) sim::violation("failure-hidden", "%s: exhausted memory at allocation %llu was reported as another error", what.c_str(), (unsigned long long)k);
            if (how == 0)
            {
                // nothing failed, or the failure was of an optional buffer
                if (auto d = want.diff(c)) sim::violation("failure-hidden", "%s: memory ran out at allocation %llu, no error was reported and the %s is wrong", what.c_str(), (unsigned long long)k, d);
                if (failed) sim::count("probe.survived");
                return;
            }
        }
        if (auto d = before.diff(c)) sim::violation("not-atomic", "%s: memory ran out at allocation %llu%s and the curve's %s changed", what.c_str(), (unsigned long long)k, persistent ? " and after" : "", d);
        auto after = sim::live_blocks();
        if (after != blocks) sim::violation("leak", "%s: memory ran out at allocation %llu and %lld block(s) were lost", what.c_str(), (unsigned long long)k, (long long)(after - blocks));
        f(c);
        if (auto d = want.diff(c)) sim::violation("not-atomic", "%s: repeated after running out of memory, the %s differs from an undisturbed edit", what.c_str(), d);
    }
    template <class C> void edit_faults()
    {
        using E = CurveEdit<C>;
        using T = typename E::T;
        auto r = sim::stream("curve");
        auto s = gen_spec(r, 4, 6);
        C c = [&] { if constexpr (E::R) return gen_bsr<T, E::D>(r, s); else return gen_bs<T, E::D>(r, s); }();
        // history leading to the edit
        int n = (int)scaled(r, 0, 4);
        for (int i = 0; i < n; ++i)
        {
            auto ro = sim::stream("history", i);
            if (!sim::op_on(i)) continue;
            auto e = gen_curve_edit(ro, c, (int)ro.below(CE_copy_poles));
            sim::note("history %s", e.str().c_str());
            e.apply(c);
        }
        auto ro = sim::stream("edit");
        static const int kinds[] = {CE_insert, CE_insert_many, CE_insert_many, CE_remove, CE_elevate, CE_trim, CE_trim, CE_trim_soft, CE_reverse, CE_bounds, CE_bounds_arr, CE_copy_poles, CE_move_poles, CE_set_pole, CE_copy_knots};
        auto e = gen_curve_edit(ro, c, kinds[ro.below(sizeof kinds / sizeof *kinds)]);
        auto what = e.str();
        sim::note("edit %s on degree %zu, %zu poles", what.c_str(), c.degree(), c.poles().size());
        C ok = c;
        E e0 = e;
        sim::alloc_count_begin();
        e0.apply(ok);
        auto seen = sim::alloc_disarm().seen;
        CurveState<C> want(ok);
        sim::count("probe.edit");
        cover_tag("edit", (sim::u64)e.kind, c.degree(), seen);
        auto rf = sim::stream("faults");
        bool all = seen <= 14;
        int tries = all ? (int)seen : 10;
        for (int t = 0; t < tries; ++t)
        {
            sim::u64 k = all ? (sim::u64)t + 1 : t == 0 ? 1 : t == 1 ? seen : 1 + rf.below(seen);
            bool persistent = rf.chance(0.3);
            if (!sim::fault_on(t)) continue;
            E ef = e;
            fail_at(c, want, k, persistent, [&](C &x) { ef.apply(x); }, what);
        }
    }
    template <class C> void rejected()
    {
        using E = CurveEdit<C>;
        using T = typename E::T;
        auto r = sim::stream("curve");
        auto s = gen_spec(r, 4, 6);
        C c = [&] { if constexpr (E::R) return gen_bsr<T, E::D>(r, s); else return gen_bs<T, E::D>(r, s); }();
        for (int i = 0, n = (int)scaled(r, 1, 6); i < n; ++i)
        {
            auto ro = sim::stream("op", i);
            if (!sim::op_on(i)) continue;
            if (ro.chance(0.4)) { auto e = gen_curve_edit(ro, c, (int)ro.below(CE_copy_poles)); e.apply(c); sim::note("edit %s", e.str().c_str()); continue; }
            CurveState<C> before(c);
            auto k = c.knotsFlats();
            T lo = k.front(), hi = k.back(), span = hi - lo, out = (T)(ro.chance(0.5) ? lo - span * ro.real(1e-9, 2) : hi + span * ro.real(1e-9, 2));
            auto poles = c.poles();
            auto knots = k;
            long d = ro.chance(0.5) ? 1 : -1;
            int kind = (int)ro.below(10);
            if (d > 0) { poles.push_back(poles[0]); knots.push_back(hi); } else { poles.pop_back(); knots.pop_back(); }
            if (ro.chance(0.1)) { poles.clear(); knots.clear(); }
            auto poles0 = poles; auto knots0 = knots;
            std::vector<std::pair<T, size_t>> km{{gen_at(ro, k, lo, hi, false), (size_t)ro.range(1, (long)c.degree())}, {out, 1}};
            if (ro.chance(0.4)) km.insert(km.begin() + 1, {gen_at(ro, k, lo, hi, false), 1});
            if (ro.chance(0.3)) std::swap(km.front(), km.back());
            auto km0 = km;
            static const char *names[] = {"copyPoles with a wrong count", "movePoles with a wrong count", "copyKnots with a wrong count", "pole() beyond the end", "insertKnot outside of the domain",
                                          "trim after the end", "trim before the start", "insertKnots with one knot outside of the domain", "trim to an empty range", "insertKnot at NaN"};
            const char *what = names[kind];
            Err er = capture([&] {
                switch (kind)
                {
                case 0: c.copyPoles(poles); break;
                case 1: c.movePoles(poles); break;
                case 2: c.copyKnots(knots); break;
                case 3: c.pole(c.poles().size() + ro.below(3)) = c.pole(0); break;
                case 4: c.insertKnot(out, (size_t)ro.range(1, 3)); break;
                case 5: c.trim((T)(hi + span * 0.1), (T)(hi + span * 0.2)); break;
                case 6: c.trim((T)(lo - span * 0.2), (T)(lo - span * 0.1)); break;
                case 7: c.insertKnots(km); break;
                case 8: { T x = lo + span * (T)ro.uniform(); c.trim(x, x); break; }
                default: c.insertKnot((T)NAN, 1); break;
                }
            });
            sim::count("fault.rejected_argument");
            if (!er.any) sim::violation("failure-hidden", "%s was accepted", what);
            if (er.oom) sim::violation("wrong-error", "%s was reported as exhausted memory", what);
            if (auto dd = before.diff(c)) sim::violation("not-atomic", "%s was refused (%s) and changed the curve's %s", what, er.str().c_str(), dd);
            if (!same_bits(knots, knots0) || poles.size() != poles0.size() || km != km0) sim::violation("input-modified", "%s was refused and changed its argument", what);
            for (size_t q = 0; q < poles.size(); ++q) if (!same_bits(poles[q], poles0[q])) sim::violation("input-modified", "%s was refused and changed its argument", what);
            cover_tag("rejected", (sim::u64)kind, c.degree(), c.poles().size());
        }
    }
    /// Removing a knot that is not there, or beyond the ends, does nothing.
    template <class C> void refused_removal()
    {
        using E = CurveEdit<C>;
        using T = typename E::T;
        auto r = sim::stream("curve");
        auto s = gen_spec(r, 4, 6);
        C c = [&] { if constexpr (E::R) return gen_bsr<T, E::D>(r, s); else return gen_bs<T, E::D>(r, s); }();
        auto k = c.knotsFlats();
        T lo = k.front(), hi = k.back(), span = hi - lo;
        for (int i = 0; i < 6; ++i)
        {
            CurveState<C> before(c);
            T u;
            switch (r.below(5))
            {
            case 0: u = lo; break;
            case 1: u = hi; break;
            case 2: u = lo - span * (T)r.real(1e-9, 1); break;
            case 3: u = hi + span * (T)r.real(1e-9, 1); break;
            default:
                u = lo + span * (T)r.real(0.01, 0.99);
                for (auto x : k) if (std::abs(x - u) < span * 1e-6) u = lo;
            }
            c.removeKnot(u, (T)(r.chance(0.5) ? 1e-9 : 10.), (size_t)r.range(1, 4));
            if (auto d = before.diff(c)) sim::violation("not-atomic", "removing a knot that does not exist (%.17g in [%.17g,%.17g]) changed the %s", (double)u, (double)lo, (double)hi, d);
            sim::count("fault.rejected_argument");
        }
        cover_tag("refused", s.p, s.n);
    }
    template <class F> void any_class(Rng r, F &&f)
    {
        switch (r.below(6))
        {
        case 0: f(gbs::BSCurve<double, 1>{}); break;
        case 1: f(gbs::BSCurve<double, 2>{}); break;
        case 2: f(gbs::BSCurve<double, 3>{}); break;
        case 3: f(gbs::BSCurveRational<double, 2>{}); break;
        case 4: f(gbs::BSCurve<float, 2>{}); break;
        default: f(gbs::BSCurveRational<double, 3>{}); break;
        }
    }
}
SIM_SCENARIO(edit_out_of_memory, 5., true) { any_class(sim::stream("type"), [](auto c) { edit_faults<decltype(c)>(); }); }
SIM_SCENARIO(rejected_arguments, 2., true) { any_class(sim::stream("type"), [](auto c) { rejected<decltype(c)>(); }); }
SIM_SCENARIO(refused_removal, 1., true) { any_class(sim::stream("type"), [](auto c) { refused_removal<decltype(c)>(); }); }
/// Operations that build a new curve from existing ones: these stay untouched when memory runs out.
SIM_SCENARIO(derive_out_of_memory, 2., true)
{
    auto r = sim::stream("curve");
    auto s1 = gen_spec(r, 4, 5), s2 = gen_spec(r, 4, 5);
    auto c1 = gen_bs<double, 3>(r, s1), c2 = gen_bs<double, 3>(r, s2);
    auto q1 = gen_bsr<double, 3>(r, s1);
    std::vector<gbs::BSCurve<double, 3>> lst;
    for (int i = 0; i < 3; ++i) { auto s = gen_spec(r, 3, 4); s.a = 0; s.b = 1; lst.push_back(gen_bs<double, 3>(r, s)); }
    CurveState<gbs::BSCurve<double, 3>> b1(c1), b2(c2);
    CurveState<gbs::BSCurveRational<double, 3>> bq(q1);
    int kind = (int)r.below(7);
    static const char *names[] = {"join", "reversed", "add_dimension", "rational conversion", "join(rational)", "unified_curves", "split"};
    double u = s1.a + (s1.b - s1.a) * r.real(0.2, 0.8);
    auto work = [&] {
        std::vector<std::vector<double>> out;
        auto put = [&](const auto &c) { out.push_back(c.knotsFlats()); for (auto &p : c.poles()) out.push_back(std::vector<double>(p.begin(), p.end())); };
        switch (kind)
        {
        case 0: put(gbs::join(c1, c2)); break;
        case 1: put(c1.reversed()); break;
        case 2: put(gbs::add_dimension(c1, 1.)); break;
        case 3: put(gbs::BSCurveRational<double, 3>(c1)); break;
        case 4: put(gbs::join(q1, q1)); break;
        case 5: for (auto &c : gbs::unified_curves(lst)) put(c); break;
        default: { auto a = c1, b = c1; a.trim(c1.bounds()[0], u); b.trim(u, c1.bounds()[1]); put(a); put(b); }
        }
        return out;
    };
    sim::alloc_count_begin();
    auto want = work();
    auto seen = sim::alloc_disarm().seen;
    std::vector<CurveState<gbs::BSCurve<double, 3>>> bl;
    for (auto &c : lst) bl.emplace_back(c);
    for (int t = 0; t < 8; ++t)
    {
        sim::u64 k = t == 0 ? 1 : t == 1 ? seen : 1 + r.below(seen);
        bool pers = r.chance(0.3);
        if (!sim::fault_on(t)) continue;
        auto blocks = sim::live_blocks();
        int how = 0;
        {
            decltype(work()) got;
            sim::alloc_arm(k, pers);
            try { got = work(); }
            catch (const std::bad_alloc &) { how = 1; }
            catch (...) { how = 2; }
            sim::alloc_disarm();
            if (how == 0)
            {
                if (got.size() != want.size()) sim::violation("failure-hidden", "%s: memory ran out and a wrong result was returned", names[kind]);
                for (size_t i = 0; i < got.size(); ++i) if (!same_bits(got[i], want[i])) sim::violation("failure-hidden", "%s: memory ran out and a wrong result was returned", names[kind]);
            }
        }
        if (how == 2) sim::violation("failure-hidden", "%s: exhausted memory at allocation %llu was reported as another error", names[kind], (unsigned long long)k);
        if (sim::live_blocks() != blocks) sim::violation("leak", "%s: memory ran out at allocation %llu and %lld block(s) were lost", names[kind], (unsigned long long)k, (long long)(sim::live_blocks() - blocks));
        const char *d = b1.diff(c1);
        if (!d) d = b2.diff(c2);
        if (!d) d = bq.diff(q1);
        for (size_t i = 0; !d && i < lst.size(); ++i) d = bl[i].diff(lst[i]);
        if (d) sim::violation("input-modified", "%s: memory ran out and an argument's %s changed", names[kind], d);
    }
    auto again = work();
    if (again.size() != want.size()) sim::violation("not-atomic", "%s: a later call gives another result", names[kind]);
    for (size_t i = 0; i < again.size(); ++i) if (!same_bits(again[i], want[i])) sim::violation("not-atomic", "%s: a later call gives another result", names[kind]);
    cover_tag(names[kind], seen, s1.p);
}

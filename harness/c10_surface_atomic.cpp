// C10: a failing surface edit leaves the surface untouched, whichever allocation fails.
#include "edits.h"
#include <gbs/bssbuild.h>

namespace
{
    using namespace h;

    template <class S, class F> void fail_at(const S &c0, const SurfState<S> &want, sim::u64 k, bool persistent, F &&f, const std::string &what)
    {
        S c = c0;
        SurfState<S> before(c);
        auto blocks = sim::live_blocks();
        int how = 0;
        sim::alloc_arm(k, persistent);
        try { f(c); }
        catch (const std::bad_alloc &) { how = 1; }
        catch (...) { how = 2; }
        auto w = sim::alloc_disarm();
        if (how == 2) sim::violation("failure-hidden", "%s: exhausted memory at allocation %llu was reported as another error", what.c_str(), (unsigned long long)k);
        if (how == 0)
        {
            if (auto d = want.diff(c)) sim::violation("failure-hidden", "%s: memory ran out at allocation %llu, no error was reported and the %s are wrong", what.c_str(), (unsigned long long)k, d);
            if (w.failed) sim::count("probe.survived");
            return;
        }
        if (auto d = before.diff(c)) sim::violation("not-atomic", "%s: memory ran out at allocation %llu%s and the surface's %s changed", what.c_str(), (unsigned long long)k, persistent ? " and after" : "", d);
        auto after = sim::live_blocks();
        if (after != blocks) sim::violation("leak", "%s: memory ran out at allocation %llu and %lld block(s) were lost", what.c_str(), (unsigned long long)k, (long long)(after - blocks));
        f(c);
        if (auto d = want.diff(c)) sim::violation("not-atomic", "%s: repeated after running out of memory, the %s differ from an undisturbed edit", what.c_str(), d);
    }
    template <class S> void history(S &c, long hi)
    {
        auto rc = sim::stream("count");
        int n = (int)scaled(rc, 0, hi);
        for (int i = 0; i < n; ++i)
        {
            auto ro = sim::stream("history", i);
            if (!sim::op_on(i)) continue;
            int kind = (int)ro.below(SE_copy_poles);
            if ((kind == SE_elevateU && c.degreeU() > 5) || (kind == SE_elevateV && c.degreeV() > 5)) kind = SE_invert;
            auto e = gen_surf_edit(ro, c, kind);
            sim::note("history %s", e.str().c_str());
            e.apply(c);
        }
    }
    template <class S> void edit_faults()
    {
        using E = SurfEdit<S>;
        auto r = sim::stream("surface");
        S c = gen_edit_surface<S>(r);
        history(c, 4);
        auto ro = sim::stream("edit");
        auto e = gen_surf_edit(ro, c, (int)ro.below(SE_split_join));
        auto what = e.str();
        sim::note("edit %s on degree %zu,%zu, %zu x %zu poles", what.c_str(), c.degreeU(), c.degreeV(), c.nPolesU(), c.nPolesV());
        S ok = c;
        E e0 = e;
        sim::alloc_count_begin();
        e0.apply(ok);
        auto seen = sim::alloc_disarm().seen;
        SurfState<S> want(ok);
        sim::count("probe.edit");
        cover_tag("edit", (sim::u64)e.kind, c.degreeU() * 10 + c.degreeV(), seen);
        auto rf = sim::stream("faults");
        bool all = seen <= 12;
        int tries = all ? (int)seen : 10;
        for (int t = 0; t < tries; ++t)
        {
            // the last allocations of an edit are those after which something may already have been replaced
            sim::u64 k = all ? (sim::u64)t + 1 : t == 0 ? 1 : t <= 3 ? seen - (sim::u64)(t - 1) : 1 + rf.below(seen);
            bool persistent = rf.chance(0.3);
            if (!sim::fault_on(t)) continue;
            E ef = e;
            fail_at(c, want, k, persistent, [&](S &x) { ef.apply(x); }, what);
        }
    }
    template <class S> void rejected()
    {
        using E = SurfEdit<S>;
        using T = typename E::T;
        auto r = sim::stream("surface");
        S c = gen_edit_surface<S>(r);
        for (int i = 0, n = (int)scaled(r, 1, 6); i < n; ++i)
        {
            auto ro = sim::stream("op", i);
            if (!sim::op_on(i)) continue;
            if (ro.chance(0.4))
            {
                int kind = (int)ro.below(SE_copy_poles);
                if ((kind == SE_elevateU && c.degreeU() > 5) || (kind == SE_elevateV && c.degreeV() > 5)) kind = SE_invert;
                auto e = gen_surf_edit(ro, c, kind);
                e.apply(c);
                sim::note("edit %s", e.str().c_str());
                continue;
            }
            SurfState<S> before(c);
            bool v = ro.chance(0.5);
            auto k = v ? c.knotsFlatsV() : c.knotsFlatsU();
            T lo = k.front(), hi = k.back(), span = hi - lo, out = (T)(ro.chance(0.5) ? lo - span * ro.real(1e-9, 2) : hi + span * ro.real(1e-9, 2));
            auto poles = c.poles();
            if (ro.chance(0.1)) poles.clear();
            else if (ro.chance(0.3)) poles.insert(poles.end(), poles.begin(), poles.begin() + (long)c.nPolesU()); // one row too many
            else if (ro.chance(0.5)) poles.push_back(poles[0]);
            else poles.pop_back();
            auto poles0 = poles;
            int kind = (int)ro.below(10);
            static const char *names[] = {"copyPoles with a wrong count", "movePoles with a wrong count", "pole() beyond the end", "insertKnot outside of the domain", "insertKnot at NaN", "trim after the end", "trim before the start",
                                          "trim to an empty range", "isoU/isoV outside of the domain", "evaluation outside of the domain"};
            const char *what = names[kind];
            auto b = c.bounds();
            Err er = capture([&] {
                switch (kind)
                {
                case 0: c.copyPoles(poles); break;
                case 1: c.movePoles(poles); break;
                case 2: c.pole(c.nPolesV() + ro.below(3), ro.below(c.nPolesU())) = c.pole(0, 0); break;
                case 3: v ? c.insertKnotV(out, (size_t)ro.range(1, 3)) : c.insertKnotU(out, (size_t)ro.range(1, 3)); break;
                case 4: v ? c.insertKnotV((T)NAN, 1) : c.insertKnotU((T)NAN, 1); break;
                case 5: v ? c.trimV((T)(hi + span * 0.1), (T)(hi + span * 0.2)) : c.trimU((T)(hi + span * 0.1), (T)(hi + span * 0.2)); break;
                case 6: v ? c.trimV((T)(lo - span * 0.2), (T)(lo - span * 0.1)) : c.trimU((T)(lo - span * 0.2), (T)(lo - span * 0.1)); break;
                case 7: { T x = lo + span * (T)ro.uniform(); v ? c.trimV(x, x) : c.trimU(x, x); break; }
                case 8: if (v) c.isoV(out); else c.isoU(out); break;
                default: if (v) c.value(b[0], out); else c.value(out, b[2]);
                }
            });
            sim::count("fault.rejected_argument");
            if (!er.any) sim::violation("failure-hidden", "%s (%s) was accepted", what, v ? "V" : "U");
            if (er.oom) sim::violation("wrong-error", "%s was reported as exhausted memory", what);
            if (auto dd = before.diff(c)) sim::violation("not-atomic", "%s was refused (%s) and changed the surface's %s", what, er.str().c_str(), dd);
            bool same = poles.size() == poles0.size();
            for (size_t q = 0; same && q < poles.size(); ++q) same = same_bits(poles[q], poles0[q]);
            if (!same) sim::violation("input-modified", "%s was refused and changed its argument", what);
            cover_tag("rejected", (sim::u64)kind * 2 + v, c.degreeU() * 10 + c.degreeV(), c.poles().size());
        }
    }
    template <class F> void any_class(Rng r, F &&f)
    {
        switch (r.below(6))
        {
        case 0: f((gbs::BSSurface<double, 1> *)nullptr); break;
        case 1: f((gbs::BSSurface<double, 2> *)nullptr); break;
        case 2: f((gbs::BSSurface<double, 3> *)nullptr); break;
        case 3: f((gbs::BSSurfaceRational<double, 2> *)nullptr); break;
        case 4: f((gbs::BSSurface<float, 3> *)nullptr); break;
        default: f((gbs::BSSurfaceRational<double, 3> *)nullptr); break;
        }
    }
}
SIM_SCENARIO(edit_out_of_memory, 5., true) { any_class(sim::stream("type"), [](auto *c) { edit_faults<std::decay_t<decltype(*c)>>(); }); }
SIM_SCENARIO(rejected_arguments, 2., true) { any_class(sim::stream("type"), [](auto *c) { rejected<std::decay_t<decltype(*c)>>(); }); }
/// Operations that build a new entity from an existing surface: it stays untouched when memory runs out.
SIM_SCENARIO(derive_out_of_memory, 2., true)
{
    auto r = sim::stream("surface");
    auto s = gen_edit_surface<gbs::BSSurface<double, 3>>(r);
    auto q = gen_edit_surface<gbs::BSSurfaceRational<double, 3>>(r);
    auto bs = s.bounds(), bq = q.bounds();
    SurfState<decltype(s)> b1(s);
    SurfState<decltype(q)> b2(q);
    int kind = (int)r.below(7);
    static const char *names[] = {"isoU", "isoV", "split_u", "split_v", "split_u+join", "add_dimension", "polesU/polesV"};
    double x = r.real(0.1, 0.9);
    auto work = [&] {
        std::vector<std::vector<double>> out;
        auto pts = [&](const auto &v) { for (auto &p : v) out.push_back(std::vector<double>(p.begin(), p.end())); };
        auto crv = [&](const auto &c) { out.push_back(c.knotsFlats()); pts(c.poles()); };
        auto srf = [&](const auto &c) { out.push_back(c.knotsFlatsU()); out.push_back(c.knotsFlatsV()); pts(c.poles()); };
        double us = bs[0] + x * (bs[1] - bs[0]), vs = bs[2] + x * (bs[3] - bs[2]), uq = bq[0] + x * (bq[1] - bq[0]), vq = bq[2] + x * (bq[3] - bq[2]);
        switch (kind)
        {
        case 0: crv(s.isoU(us)); crv(q.isoU(uq)); break;
        case 1: crv(s.isoV(vs)); crv(q.isoV(vq)); break;
        case 2: { auto a = gbs::split_u<double, 3, false>(s, us); srf(a.first); srf(a.second); auto b = gbs::split_u<double, 3, true>(q, uq); srf(b.first); srf(b.second); break; }
        case 3: { auto a = gbs::split_v<double, 3, false>(s, vs); srf(a.first); srf(a.second); auto b = gbs::split_v<double, 3, true>(q, vq); srf(b.first); srf(b.second); break; }
        case 4: { auto a = gbs::split_u<double, 3, false>(s, us); srf(gbs::join(a.first, a.second)); break; }
        case 5: srf(gbs::add_dimension(s, 0.5)); srf(gbs::add_dimension(q, 0.5)); break;
        default: for (size_t j = 0; j < s.nPolesV(); ++j) pts(s.polesU(j)); for (size_t j = 0; j < q.nPolesU(); ++j) pts(q.polesV(j)); pts(q.polesProjected()); out.push_back(q.weights());
        }
        return out;
    };
    sim::alloc_count_begin();
    auto want = work();
    auto seen = sim::alloc_disarm().seen;
    auto differs = [&](const decltype(want) &got) {
        if (got.size() != want.size()) return true;
        for (size_t i = 0; i < got.size(); ++i) if (!same_bits(got[i], want[i])) return true;
        return false;
    };
    for (int t = 0; t < 8; ++t)
    {
        sim::u64 k = t == 0 ? 1 : t == 1 ? seen : 1 + r.below(seen);
        bool pers = r.chance(0.3);
        if (!sim::fault_on(t)) continue;
        auto blocks = sim::live_blocks();
        int how = 0;
        {
            decltype(want) got;
            sim::alloc_arm(k, pers);
            try { got = work(); }
            catch (const std::bad_alloc &) { how = 1; }
            catch (...) { how = 2; }
            sim::alloc_disarm();
            if (how == 0 && differs(got)) sim::violation("failure-hidden", "%s: memory ran out and a wrong result was returned", names[kind]);
        }
        if (how == 2) sim::violation("failure-hidden", "%s: exhausted memory at allocation %llu was reported as another error", names[kind], (unsigned long long)k);
        if (sim::live_blocks() != blocks) sim::violation("leak", "%s: memory ran out at allocation %llu and %lld block(s) were lost", names[kind], (unsigned long long)k, (long long)(sim::live_blocks() - blocks));
        const char *d = b1.diff(s);
        if (!d) d = b2.diff(q);
        if (d) sim::violation("input-modified", "%s: memory ran out and the surface's %s changed", names[kind], d);
    }
    if (differs(work())) sim::violation("not-atomic", "%s: a later call gives another result", names[kind]);
    cover_tag(names[kind], seen, s.degreeU() * 10 + s.degreeV());
}

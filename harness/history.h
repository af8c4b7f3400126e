// The same call gives the same answer whatever was called before it in the process.
#pragma once
#include "ops.h"

namespace h
{
    struct Family { int what, kind; }; // what: 2, 3 = curve operations in the plane / in space, 4 = surface operations, 5 = mesh operations; kind < 0: any
    inline Op family_op(Rng &r, const World &w, Family f)
    {
        return f.what == 2 ? gen_curve_op<2>(r, w, f.kind) : f.what == 3 ? gen_curve_op<3>(r, w, f.kind) : f.what == 4 ? gen_surface_op(r, w, f.kind) : gen_mesh_op(r, w, f.kind);
    }
    inline sim::u64 print_of(const Outcome &o)
    {
        sim::u64 v = o.print;
        if (o.err.any) { v = 77; for (char c : o.err.str()) v = sim::mix(v, (sim::u64)(unsigned char)c); }
        return v;
    }
    /// The objects of a world change in place: all poles and points move, unevenly.
    inline void move_all(World &w)
    {
        auto moved = [](auto &P, size_t dim) { for (size_t i = 0; i < P.size(); ++i) for (size_t d = 0; d < dim; ++d) P[i][d] = 1.25 * P[i][d] + 0.02 * (double)(i % 3) + 0.01 * (double)d; };
        auto all = [&](auto &c, size_t dim) { auto P = c.poles(); moved(P, dim); c.movePoles(P); };
        for (auto &c : w.c2.bs) all(*c, 2);
        for (auto &c : w.c2.bsr) all(*c, 2);
        for (auto &c : w.c2.family) all(c, 2);
        for (auto &c : w.c3.bs) all(*c, 3);
        for (auto &c : w.c3.bsr) all(*c, 3);
        for (auto &c : w.c3.family) all(c, 3);
        for (auto &f : w.srf) all(*f, 3);
        for (auto &f : w.srfr) all(*f, 3);
        moved(w.grid, 3); moved(w.c2.points, 2); moved(w.c3.points, 3);
    }
    /// A sequence of calls, several of each kind with other arguments and on other objects. Each call's
    /// answer is first determined in a process of its own in which it is the only call.
    inline void call_history(Rng &r, const std::vector<Family> &kinds)
    {
        auto s0 = sim::stream("world0"), s1 = sim::stream("world1");
        auto t0 = s0;
        World w[2] = {gen_world(s0), gen_world(s1)};
        // half way the objects of the first world are moved in place, or give way to others built in their stead
        int change = (int)r.below(4); // 0, 1: nothing
        auto apply_change = [&] {
            if (change == 3) { w[0] = World{}; auto t = t0; w[0] = gen_world(t); }
            if (change >= 2) move_all(w[0]);
        };
        struct Call { Op op; int on; sim::u64 want[2]; };
        std::vector<Call> pool;
        for (long k = r.range(1, 2); k > 0; --k)
        {
            auto f = kinds[r.below(kinds.size())];
            for (long i = r.range(2, 3); i > 0; --i) { int on = (int)r.below(2); pool.push_back({family_op(r, w[on], f), on, {}}); }
        }
        for (auto &c : pool)
            for (int after = 0; after < (change >= 2 ? 2 : 1); ++after)
                sim::elsewhere(&c.want[after], 1, [&](sim::u64 *o) { sim::Serial s; if (after) apply_change(); *o = print_of(perform(c.op, w[c.on])); });
        long n = r.range(2, 7), half = change >= 2 ? n : n + 1;
        if (change >= 2) n += r.range(1, (long)pool.size());
        for (long i = 0; i < n; ++i)
        {
            if (i == half) { apply_change(); sim::count("probe.changed_between_calls"); }
            auto &c = pool[i >= half ? (size_t)(i - half) % pool.size() : i < (long)pool.size() ? (size_t)i : r.below(pool.size())];
            if (!sim::op_on((int)i)) continue;
            sim::note("%s of %s", c.op.name, c.op.on);
            auto got = perform(c.op, w[c.on]);
            auto want = c.want[i >= half];
            if (print_of(got) != want) sim::violation("wrong-result", "%s of %s, call %ld of this process, gives another result than as the first call (%s)", c.op.name, c.op.on, i + 1, got.err.str().c_str());
            sim::count(got.err.any ? "probe.refused" : "probe.calls");
            sim::observe(want);
        }
        cover_tag("history", (sim::u64)std::hash<std::string>{}(pool[0].op.name), pool.size(), (sim::u64)n);
    }
}

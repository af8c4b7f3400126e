// C08: shared geometry can be read by many threads at once.
#include "history.h"
#include "ops.h"

namespace
{
    using namespace h;
    void expect_outcome(const Outcome &got, const Outcome &want, const Op &o, const char *when)
    {
        if (!got.err.same(want.err)) sim::violation("wrong-error", "%s of %s %s: %s, alone it gives %s", o.name, o.on, when, got.err.str().c_str(), want.err.str().c_str());
        if (got.print != want.print) sim::violation("wrong-result", "%s of %s %s gives another result than alone", o.name, o.on, when);
    }
    struct Plan { std::vector<Op> ops; std::vector<Outcome> want, got; };
    /// The threads work on `shared`, which nobody used before; the expectation comes from a twin.
    void run_plans(const World &shared, const World &twin, std::vector<Plan> &plans, const char *when)
    {
        {
            sim::Serial s;
            for (auto &p : plans) { p.want.clear(); p.got.resize(p.ops.size()); for (auto &o : p.ops) p.want.push_back(perform(o, twin)); }
        }
        sim::threads(plans.size(), [&](size_t i) {
            auto &p = plans[i];
            for (size_t k = 0; k < p.ops.size(); ++k) p.got[k] = perform(p.ops[k], shared);
        });
        for (auto &p : plans)
            for (size_t k = 0; k < p.ops.size(); ++k)
            {
                sim::note("%s of %s: %s", p.ops[k].name, p.ops[k].on, p.want[k].err.str().c_str());
                expect_outcome(p.got[k], p.want[k], p.ops[k], when);
                sim::count(p.want[k].err.any ? "probe.refused" : "probe.reads");
                cover_tag(p.ops[k].name, (sim::u64)std::hash<std::string>{}(p.ops[k].on), plans.size());
                sim::observe(p.got[k].print);
            }
        if (shared.print() != twin.print()) sim::violation("input-changed", "reading the shared objects %s changed them", when);
    }
}

SIM_SCENARIO(mixed_reads, 4.0, false)
{
    auto g = sim::stream("case");
    Gates gates(g);
    auto seed = sim::stream("world");
    World shared = gen_world(seed), twin = gen_world(seed);
    std::vector<Plan> plans((size_t)g.range(2, 4));
    for (auto &p : plans) for (size_t k = (size_t)g.range(1, 3); k > 0; --k) p.ops.push_back(gen_op(g, twin));
    run_plans(shared, twin, plans, "among other reads");
}

SIM_SCENARIO(same_first_use, 3.0, false)
{
    auto g = sim::stream("case");
    Gates gates(g);
    auto seed = sim::stream("world");
    World shared = gen_world(seed), twin = gen_world(seed);
    // every thread begins with the same operation on the same object
    auto o = gen_op(g, twin);
    std::vector<Plan> plans((size_t)g.range(2, 3));
    for (auto &p : plans) { p.ops.push_back(o); if (g.chance(0.3)) p.ops.push_back(o); }
    run_plans(shared, twin, plans, "at the same time");
}

/// Each thread edits its own copies; the originals are being read meanwhile.
SIM_SCENARIO(private_copies, 1.5, false)
{
    auto g = sim::stream("case");
    Gates gates(g);
    auto seed = sim::stream("world");
    World shared = gen_world(seed), twin = gen_world(seed);
    static const int curve_copies[] = {13, 14, 15, 16, 18, 19, 33}, surface_copies[] = {8, 9, 10, 7};
    std::vector<Plan> plans((size_t)g.range(2, 4));
    for (auto &p : plans)
        for (size_t k = (size_t)g.range(1, 2); k > 0; --k)
            switch (g.below(4))
            {
            case 0: p.ops.push_back(gen_curve_op<2>(g, twin, curve_copies[g.below(7)])); break;
            case 1: p.ops.push_back(gen_curve_op<3>(g, twin, curve_copies[g.below(7)])); break;
            case 2: p.ops.push_back(gen_surface_op(g, twin, surface_copies[g.below(4)])); break;
            default: p.ops.push_back(gen_op(g, twin));
            }
    run_plans(shared, twin, plans, "while copies are edited");
}

SIM_SCENARIO(mesh_readers, 1.0, false)
{
    auto g = sim::stream("case");
    Gates gates(g);
    auto seed = sim::stream("world");
    World shared = gen_world(seed), twin = gen_world(seed);
    std::vector<Plan> plans((size_t)g.range(2, 4));
    for (auto &p : plans) for (size_t k = (size_t)g.range(1, 3); k > 0; --k) p.ops.push_back(gen_mesh_op(g, twin));
    run_plans(shared, twin, plans, "among other mesh queries");
}
SIM_SCENARIO(call_history, 1.5, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    sim::step_budget(3000000000);
    call_history(r, {{2, -1}, {3, -1}, {4, -1}, {5, -1}});
}

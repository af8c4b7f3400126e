// C17: running out of memory is reported and damages nothing.
#include "ops.h"

namespace
{
    using namespace h;
    /// What a call did while memory ran out at allocation k.
    struct Failing { Outcome out; sim::u64 failed = 0; long long lost = 0; };
    Failing perform_failing(const Op &o, const World &w, sim::u64 k, bool persistent)
    {
        Failing f;
        auto blocks = sim::live_blocks();
        bool oom = false;
        std::exception_ptr other;
        sim::alloc_arm(k, persistent);
        try { f.out.print = o.run(w); }
        catch (const std::bad_alloc &) { oom = true; }
        catch (...) { other = std::current_exception(); }
        f.failed = sim::alloc_disarm().failed;
        Err e;
        if (other) { e = capture([&] { std::rethrow_exception(other); }); other = nullptr; blocks += (e.type.capacity() > 15) + (e.what.capacity() > 15); }
        f.lost = (long long)(sim::live_blocks() - blocks);
        if (oom) { f.out.err.any = f.out.err.oom = true; f.out.err.type = "bad_alloc"; f.out.print = 0; }
        else if (e.any) f.out.err = std::move(e);
        return f;
    }
    void judge(const Failing &f, const Outcome &want, const Op &o, sim::u64 k, const char *how)
    {
        if (f.out.err.oom)
        {
            if (!f.failed) sim::violation("wrong-error", "%s of %s reports that memory ran out and it did not", o.name, o.on);
            sim::count("probe.out_of_memory");
        }
        else
        {
            if (!f.out.err.same(want.err)) sim::violation("failure-hidden", "%s of %s%s: memory ran out at allocation %llu and the caller got %s (undisturbed: %s)", o.name, o.on, how, (unsigned long long)k, f.out.err.str().c_str(), want.err.str().c_str());
            if (f.out.print != want.print) sim::violation("wrong-result", "%s of %s%s: memory ran out at allocation %llu, no error was reported and the result is another one", o.name, o.on, how, (unsigned long long)k);
            if (f.failed) sim::count("probe.survived");
        }
        if (!o.mesh && f.lost != 0 && f.out.err.any) sim::violation("leak", "%s of %s%s: memory ran out at allocation %llu and %lld block(s) were lost", o.name, o.on, how, (unsigned long long)k, f.lost);
    }
    /// An outcome recorded without allocating.
    struct Flat
    {
        int how = 0; // 1 out of memory, 2 another error
        sim::u64 err = 0, print = 0;
        bool same(const Flat &o) const { return how == o.how && err == o.err && print == o.print; }
        const char *str() const { return how == 0 ? "no error" : how == 1 ? "out of memory" : "another error"; }
    };
    Flat perform_flat(const Op &o, const World &w)
    {
        Flat f;
        auto text = [](const char *s) { sim::u64 v = 7; while (*s) v = sim::mix(v, (sim::u64)*s++); return v; };
        try { f.print = o.run(w); }
        catch (const std::bad_alloc &) { f.how = 1; }
        catch (const std::exception &e) { f.how = 2; f.err = sim::mix(text(typeid(e).name()), text(e.what())); }
        catch (int v) { f.how = 2; f.err = (sim::u64)v; }
        catch (const char *s) { f.how = 2; f.err = text(s); }
        return f;
    }
    Op gen_plain_op(Rng &g, const World &w)
    {
        for (;;)
        {
            auto o = gen_op(g, w);
            if (!o.document) return o;
        }
    }
}

/// Every allocation of an operation (or a sample of them) fails in turn.
SIM_SCENARIO(one_call, 5.0, true)
{
    auto g = sim::stream("case");
    Gates gates(g);
    auto seed = sim::stream("world");
    World w = gen_world(seed);
    auto o = gen_plain_op(g, w);
    auto print = w.print();
    auto first = perform(o, w); // whatever is set up once is set up
    sim::alloc_count_begin();
    auto want = perform(o, w);
    auto seen = sim::alloc_disarm().seen;
    if (!want.same(first)) sim::violation("not-repeatable", "%s of %s gives another result the second time", o.name, o.on);
    sim::note("%s of %s: %s, %llu allocations", o.name, o.on, want.err.str().c_str(), (unsigned long long)seen);
    cover_tag(o.name, (sim::u64)std::hash<std::string>{}(o.on), seen / 8);
    auto rf = sim::stream("faults");
    bool all = seen <= 12;
    int tries = all ? (int)seen : 8;
    for (int t = 0; t < tries; ++t)
    {
        sim::u64 k = all ? (sim::u64)t + 1 : t == 0 ? 1 : t == 1 ? seen : rf.chance(0.4) ? 1 + rf.below(std::min<sim::u64>(seen, 24)) : 1 + rf.below(seen);
        bool persistent = rf.chance(0.4);
        if (!sim::fault_on(t)) continue;
        auto f = perform_failing(o, w, k, persistent);
        judge(f, want, o, k, persistent ? " for good" : "");
        if (w.print() != print) sim::violation("input-changed", "%s of %s: memory ran out at allocation %llu and an argument changed", o.name, o.on, (unsigned long long)k);
        if (rf.chance(0.3))
        {
            auto again = perform(o, w);
            if (!again.same(want)) sim::violation("not-repeatable", "%s of %s, repeated after memory ran out at allocation %llu, gives another result", o.name, o.on, (unsigned long long)k);
            sim::count("probe.retried");
        }
    }
    sim::observe(want.print);
}

/// Memory runs out while several threads work: each of them fails or succeeds on its own.
SIM_SCENARIO(among_threads, 2.0, true)
{
    auto g = sim::stream("case");
    Gates gates(g);
    auto seed = sim::stream("world");
    World w = gen_world(seed);
    std::vector<Op> ops;
    for (size_t k = (size_t)g.range(2, 3); k > 0; --k) ops.push_back(gen_plain_op(g, w));
    auto print = w.print();
    std::vector<Flat> want(ops.size()), got(ops.size());
    {
        sim::Serial s;
        for (size_t i = 0; i < ops.size(); ++i) { perform_flat(ops[i], w); }
        sim::alloc_count_begin();
        for (size_t i = 0; i < ops.size(); ++i) want[i] = perform_flat(ops[i], w);
    }
    auto seen = sim::alloc_disarm().seen;
    auto rf = sim::stream("faults");
    sim::u64 k = 1 + rf.below(std::max<sim::u64>(1, seen));
    bool persistent = rf.chance(0.3);
    if (sim::fault_on(0)) sim::alloc_arm(k, persistent);
    sim::threads(ops.size(), [&](size_t i) { got[i] = perform_flat(ops[i], w); });
    auto failed = sim::alloc_disarm().failed;
    for (size_t i = 0; i < ops.size(); ++i)
    {
        auto &o = ops[i];
        cover_tag(o.name, (sim::u64)std::hash<std::string>{}(o.on), got[i].how == 1);
        if (got[i].how == 1) { if (!failed) sim::violation("wrong-error", "%s of %s reports that memory ran out and it did not", o.name, o.on); sim::count("probe.out_of_memory"); continue; }
        if (got[i].how != want[i].how || got[i].err != want[i].err) sim::violation("failure-hidden", "%s of %s on one of several threads, memory ran out at allocation %llu: the caller got %s (undisturbed: %s)", o.name, o.on, (unsigned long long)k, got[i].str(), want[i].str());
        if (got[i].print != want[i].print) sim::violation("wrong-result", "%s of %s on one of several threads, memory ran out at allocation %llu: no error was reported and the result is another one", o.name, o.on, (unsigned long long)k);
        sim::observe(got[i].print);
    }
    if (w.print() != print) sim::violation("input-changed", "memory ran out at allocation %llu while several threads were reading and an argument changed", (unsigned long long)k);
    sim::threads(ops.size(), [&](size_t i) { got[i] = perform_flat(ops[i], w); });
    for (size_t i = 0; i < ops.size(); ++i)
        if (!got[i].same(want[i])) sim::violation("not-repeatable", "%s of %s, repeated after memory ran out, gives another result", ops[i].name, ops[i].on);
}

/// Memory runs out while objects of every class are built.
SIM_SCENARIO(building, 1.5, true)
{
    auto seed = sim::stream("world");
    auto g = sim::stream("case");
    bool three = g.chance(0.5);
    auto build = [&](auto &c) { Rng r = seed; gen_curves(r, c); };
    auto run = [&](auto zero) {
        using C = decltype(zero);
        sim::u64 seen = 0;
        size_t n = 0;
        {
            C c;
            sim::alloc_count_begin();
            build(c);
            seen = sim::alloc_disarm().seen;
            n = c.any.size();
        }
        cover_tag("build", n, seen);
        auto rf = sim::stream("faults");
        for (int t = 0; t < 12; ++t)
        {
            sim::u64 k = 1 + rf.below(seen);
            bool persistent = rf.chance(0.3);
            if (!sim::fault_on(t)) continue;
            auto blocks = sim::live_blocks();
            int how = 0;
            sim::u64 failed = 0;
            {
                C c;
                sim::alloc_arm(k, persistent);
                try { build(c); }
                catch (const std::bad_alloc &) { how = 1; }
                catch (...) { how = 2; }
                failed = sim::alloc_disarm().failed;
            }
            if (how == 2) sim::violation("failure-hidden", "building curves: exhausted memory at allocation %llu was reported as another error", (unsigned long long)k);
            long long lost = (long long)(sim::live_blocks() - blocks);
            if (lost) sim::violation("leak", "building curves: memory ran out at allocation %llu and %lld block(s) were lost", (unsigned long long)k, lost);
        }
    };
    if (three) run(Curves<3>{}); else run(Curves<2>{});
}

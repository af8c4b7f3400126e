// C03: batch builders == entity-by-entity builds, in order, for every schedule.
#include "zoo.h"
#include "history.h"
#include "errs.h"
#include <atomic>
using namespace h;
using gbs::KnotsCalcMode;

template <class C> static bool same_curve(const C &a, const C &b)
{
    return a.degree() == b.degree() && same_bits(a.knotsFlats(), b.knotsFlats()) && same_bits(a.poles(), b.poles()) &&
           same_bits(a.bounds()[0], b.bounds()[0]) && same_bits(a.bounds()[1], b.bounds()[1]);
}
static KnotsCalcMode gen_mode(Rng &r)
{
    static const KnotsCalcMode m[] = {KnotsCalcMode::EQUALLY_SPACED, KnotsCalcMode::CHORD_LENGTH, KnotsCalcMode::CENTRIPETAL};
    return m[r.below(3)];
}
// Batches with repeated, nearly repeated, reversed and partly shared point sets.
template <class S> static void relate(Rng &r, std::vector<S> &sets)
{
    if (sets.size() < 2 || !r.chance(0.5)) return;
    size_t n = 1 + r.below(sets.size());
    for (size_t k = 0; k < n; ++k)
    {
        size_t i = r.below(sets.size()), j = r.chance(0.6) ? (i + 1) % sets.size() : r.below(sets.size());
        if (i == j) continue;
        switch (r.below(5))
        {
        case 0: case 1: sets[j] = sets[i]; break;
        case 2: sets[j] = S(sets[i].rbegin(), sets[i].rend()); break;
        case 3: sets[j] = sets[i]; sets[j].back()[0] += 0.125; break;
        case 4: sets[j] = sets[i]; sets[j][sets[j].size() / 2][1] += 1e-9; break;
        }
    }
    sim::count("probe.related_sets");
}
template <size_t D> static void interp_case(Rng &r)
{
    Gates g(r, 0.3);
    size_t K = g.shipped ? (size_t)r.range(6, 12) : scaled(r, 0, 14);
    size_t p = (size_t)r.range(1, 4);
    auto mode = gen_mode(r);
    std::vector<pts<double, D>> sets(K);
    for (auto &s : sets) s = gen_walk<double, D>(r, p + 1 + scaled(r, 0, r.chance(0.05) ? 120 : 12), r.real(0.1, 2));
    relate(r, sets);
    std::vector<gbs::BSCurve<double, D>> want(K);
    for (size_t i = 0; i < K; ++i) want[i] = gbs::interpolate<double, D>(sets[i], p, mode);
    auto before = sets;
    auto got = gbs::interpolate<double, D>(sets, p, mode);
    if (got.size() != K) sim::violation("wrong-result", "%zu curves for %zu point sets", got.size(), K);
    for (size_t i = 0; i < K; ++i)
    {
        if (!same_curve(got[i], want[i])) sim::violation("wrong-result", "interpolated curve %zu of %zu differs from the single build", i, K);
        observe(got[i].poles());
        // it is the curve of its own point set
        if (mode == KnotsCalcMode::EQUALLY_SPACED || true)
        {
            if (!(dist(got[i].begin(), sets[i].front()) <= 1e-6 * (1 + mag(sets[i].front()))) || !(dist(got[i].end(), sets[i].back()) <= 1e-6 * (1 + mag(sets[i].back()))))
                sim::violation("wrong-result", "curve %zu does not end on its own point set", i);
        }
    }
    if (!same_bits(before, sets)) sim::violation("wrong-result", "the inputs were modified");
    cover_tag("interp", K, p * 10 + D, K >= gbs::parallel_batch_min_size);
}
SIM_SCENARIO(batch_interpolate, 3, false)
{
    auto r = sim::stream("in");
    if (r.chance(0.5)) interp_case<2>(r); else interp_case<3>(r);
}
template <size_t D> static void approx_case(Rng &r)
{
    Gates g(r, 0.3);
    size_t K = g.shipped ? (size_t)r.range(6, 12) : scaled(r, 0, 12);
    size_t p = (size_t)r.range(2, 4);
    size_t np = p + 1 + scaled(r, 0, 4);
    bool adim = r.chance(0.5);
    auto mode = gen_mode(r);
    std::vector<pts<double, D>> sets(K);
    for (auto &s : sets) s = gen_walk<double, D>(r, np + 4 + scaled(r, 0, 25), r.real(0.05, 0.5));
    relate(r, sets);
    if (K && r.chance(0.1)) sets[r.below(K)].resize(np - 1 - r.below(2)); // too few points for the asked number of poles
    std::vector<gbs::BSCurve<double, D>> want(K), got;
    auto before = sets;
    Err ref = capture([&] { for (size_t i = 0; i < K; ++i) want[i] = gbs::approx<double, D>(sets[i], p, np, mode, adim); });
    Err e = capture([&] { got = gbs::approx<double, D>(sets, p, np, mode, adim); });
    expect_err(e, ref, "batch approximation");
    if (!same_bits(before, sets)) sim::violation("wrong-result", "the inputs were modified");
    if (e.any) { cover_tag("approx-refused", K, p * 10 + D, K >= gbs::parallel_batch_min_size); return; }
    if (got.size() != K) sim::violation("wrong-result", "%zu curves for %zu point sets", got.size(), K);
    for (size_t i = 0; i < K; ++i)
    {
        if (!same_curve(got[i], want[i])) sim::violation("wrong-result", "fitted curve %zu of %zu differs from the single build", i, K);
        observe(got[i].poles());
    }
    cover_tag("approx", K, p * 10 + D, K >= gbs::parallel_batch_min_size);
}
SIM_SCENARIO(batch_approx, 2, false)
{
    auto r = sim::stream("in");
    if (r.chance(0.5)) approx_case<2>(r); else approx_case<3>(r);
}
// The generic batch helper with an arbitrary builder: every entity built exactly once, results in order.
SIM_SCENARIO(batch_exactly_once, 3, false)
{
    auto r = sim::stream("in");
    Gates g(r, 0.2);
    size_t K = scaled(r, 0, 40);
    size_t gate = r.chance(0.5) ? gbs::parallel_batch_min_size : (size_t)r.range(0, 20);
    std::vector<int> in(K);
    // some entities are equal, also next to each other
    size_t distinct = r.chance(0.5) ? K + 1 : 1 + r.below(K + 1);
    bool runs = r.chance(0.5);
    std::vector<int> wanted(K + 2);
    for (size_t i = 0; i < K; ++i) { in[i] = (int)(runs ? i * distinct / (K + 1) : i % distinct); wanted[(size_t)in[i]]++; }
    std::vector<std::atomic<int>> calls(K + 2);
    auto build = [&](int i) {
        calls[(size_t)i]++;
        std::vector<double> v((size_t)(i % 7), 1. * i);
        return v;
    };
    std::vector<std::vector<double>> got;
    if (r.chance(0.5)) got = gbs::build_batch(in, build, gate);
    else { std::list<int> l(in.begin(), in.end()); got = gbs::build_batch(l, build, gate); }
    if (got.size() != K) sim::violation("wrong-result", "%zu results for %zu entities", got.size(), K);
    for (size_t i = 0; i < K; ++i)
    {
        if (calls[(size_t)in[i]] != wanted[(size_t)in[i]]) sim::violation("wrong-result", "an entity present %d times among %zu was built %d times", wanted[(size_t)in[i]], K, (int)calls[(size_t)in[i]]);
        if (got[i].size() != (size_t)in[i] % 7 || (!got[i].empty() && got[i][0] != (double)in[i])) sim::violation("wrong-result", "slot %zu holds another entity's result", i);
    }
    cover_tag("once", K, gate, K >= gate);
}
// Several callers run batches at the same time.
SIM_SCENARIO(concurrent_batches, 2, false)
{
    auto r = sim::stream("in");
    Gates g(r, 0);
    size_t T = (size_t)r.range(2, 3), K = scaled(r, 1, 5), p = (size_t)r.range(1, 3);
    auto mode = gen_mode(r);
    std::vector<std::vector<pts<double, 2>>> sets(T);
    std::vector<std::vector<gbs::BSCurve<double, 2>>> got(T), want(T);
    for (size_t t = 0; t < T; ++t)
    {
        sets[t].resize(K);
        for (auto &s : sets[t]) { s = gen_walk<double, 2>(r, p + 1 + scaled(r, 0, 6)); want[t].push_back(gbs::interpolate<double, 2>(s, p, mode)); }
    }
    sim::threads(T, [&](size_t t) { got[t] = gbs::interpolate<double, 2>(sets[t], p, mode); });
    for (size_t t = 0; t < T; ++t)
        for (size_t i = 0; i < K; ++i)
            if (!same_curve(got[t].at(i), want[t][i])) sim::violation("wrong-result", "caller %zu: curve %zu differs from the single build", t, i);
    cover_tag("callers", T, K, p);
}
// Answers do not depend on earlier calls, nor on what the objects were before they changed.
SIM_SCENARIO(call_history, 1, false)
{
    auto r = sim::stream("calls");
    Gates g(r);
    call_history(r, {{2,29},{3,29},{2,28},{3,28},{2,27},{3,27}});
}

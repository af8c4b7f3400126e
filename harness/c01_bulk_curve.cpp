// C01: bulk curve evaluation == pointwise evaluation, for every schedule.
#include "zoo.h"
#include "history.h"
using namespace h;
using gbs::point;

template <class T, size_t D, class C>
static void check_lists(Rng &r, const C &crv, const std::vector<T> &u, size_t d, const char *nm)
{
    pts<T, D> want(u.size());
    for (size_t i = 0; i < u.size(); ++i) want[i] = crv.value(u[i], d);
    auto u_before = u;
    pts<T, D> got;
    switch (r.below(4))
    {
    case 0: got = crv.values(u, d); break;
    case 1: got = crv.values(as<std::deque>(u), d); break;
    case 2: got = crv.values(as<std::list>(u), d); break;
    default: got = gbs::make_points(crv, u, d); break;
    }
    expect_same(got, want, nm);
    if (!same_bits(u, u_before)) sim::violation("wrong-result", "%s: the parameter list was modified", nm);
    observe(got);
    if (r.chance(0.4) && d == 0)
    {
        // arc-length derivatives in bulk
        pts<T, D> w1(u.size()), w2(u.size());
        bool ok = true;
        for (size_t i = 0; i < u.size() && ok; ++i) { w1[i] = crv.d_dm(u[i]); w2[i] = crv.d_dm2(u[i]); }
        auto g1 = r.chance(0.5) ? crv.d_dms(u) : crv.d_dms(as<std::deque>(u));
        auto g2 = r.chance(0.5) ? crv.d_dm2s(u) : crv.d_dm2s(as<std::deque>(u));
        expect_same(g1, w1, "first arc-length derivatives");
        expect_same(g2, w2, "second arc-length derivatives");
    }
}
template <class T, size_t D> static void bs_case(Rng &r, double tol)
{
    Gates g(r);
    auto s = gen_spec(r, 6, 12);
    auto crv = gen_bs<T, D>(r, s);
    auto [a, b] = crv.bounds();
    size_t n = g.count(r, 250);
    auto u = gen_params<T>(r, n, a, b, crv.knotsFlats());
    size_t d = r.below(3);
    check_lists<T, D>(r, static_cast<const gbs::Curve<T, D> &>(crv), u, d, "curve values");
    // against the reference model (independent of the order of queries)
    for (int i = 0; i < 6 && n; ++i)
    {
        T v = u[r.below(n)];
        auto x = crv.value(v);
        auto ref = ref_eval<T, D>(crv.poles(), crv.knotsFlats(), crv.degree(), v);
        if (!(dist(x, ref) <= tol * (1 + mag(ref))))
            sim::violation("wrong-result", "curve value at %.17g is %Lg away from the reference model", (double)v, dist(x, ref));
    }
    cover_tag("bs", n >= gbs::parallel_min_size, D * 10 + d, n);
}
SIM_SCENARIO(bspline_bulk, 3, false)
{
    auto r = sim::stream("in");
    switch (r.below(5))
    {
    case 0: return bs_case<double, 1>(r, 1e-9);
    case 1: return bs_case<double, 2>(r, 1e-9);
    case 2: return bs_case<double, 3>(r, 1e-9);
    case 3: return bs_case<float, 3>(r, 2e-3);
    default: return bs_case<float, 2>(r, 2e-3);
    }
}
/// Each derivative of a curve is the slope of the one below, wherever one-sided and finer slopes agree on what that is.
template <size_t D> static void check_slopes(Rng &r, const gbs::Curve<double, D> &crv, const char *nm)
{
    auto [a, b] = crv.bounds();
    for (int q = 0; q < 3; ++q)
    {
        double u = a + (b - a) * r.real(0.02, 0.98), h = 1e-4 * (b - a);
        size_t d = (size_t)r.range(1, 2);
        auto g = crv.value(u, d), f = crv.value(u, d - 1);
        auto slope = [&](double x, double y) {
            auto p = crv.value(u + x, d - 1), w = crv.value(u + y, d - 1);
            for (size_t c = 0; c < D; ++c) p[c] = (w[c] - p[c]) / (y - x);
            return p;
        };
        auto c1 = slope(-h, h), c2 = slope(-h / 4, h / 4), fw = slope(0, h), bw = slope(-h, 0);
        double scale = (double)(mag(g) + mag(c2) + 1e-3L * mag(f) / (b - a));
        if (!(dist(fw, bw) <= 2e-2 * scale) || !(dist(c1, c2) <= 1e-4 * scale)) continue;
        if (!(dist(g, c2) <= 1e-2 * scale)) sim::violation("wrong-result", "%s: derivative %zu at %.17g is %Lg away from the slope of the order below", nm, d, u, dist(g, c2));
        sim::count("probe.slope");
    }
}
template <size_t D> static void zoo_case(Rng &r)
{
    Gates g(r, 0.05);
    const char *nm = "";
    int kind = (int)r.below(n_curve_kinds);
    auto crv = gen_curve<D>(r, kind, &nm);
    auto [a, b] = crv->bounds();
    size_t n = g.count(r, 120);
    auto u = gen_params<double>(r, n, a, b);
    size_t d = r.below(3);
    sim::note("class %s dim %zu n %zu d %zu gate %zu", nm, D, n, d, gbs::parallel_min_size);
    check_lists<double, D>(r, *crv, u, d, nm);
    if (kind != 8) check_slopes<D>(r, *crv, nm); // beyond its curve an extended one repeats the derivatives at the end, by design
    cover_tag(nm, n >= gbs::parallel_min_size, D * 10 + d, n);
}
SIM_SCENARIO(class_zoo, 4, false)
{
    auto r = sim::stream("in");
    if (r.chance(0.5)) zoo_case<2>(r);
    else zoo_case<3>(r);
}
// Several caller threads ask for bulk values of the same curve at the same time.
SIM_SCENARIO(concurrent_bulk, 2, false)
{
    auto r = sim::stream("in");
    Gates g(r, 0);
    const char *nm = "";
    auto crv = gen_curve<3>(r, (int)r.below(n_curve_kinds), &nm);
    auto [a, b] = crv->bounds();
    size_t T = (size_t)r.range(2, 4);
    std::vector<std::vector<double>> u(T);
    std::vector<pts<double, 3>> want(T), got(T);
    std::vector<size_t> d(T);
    for (size_t t = 0; t < T; ++t)
    {
        u[t] = gen_params<double>(r, g.count(r, 60), a, b);
        d[t] = r.below(3);
        for (double x : u[t]) want[t].push_back(crv->value(x, d[t]));
    }
    sim::threads(T, [&](size_t t) { got[t] = crv->values(u[t], d[t]); });
    for (size_t t = 0; t < T; ++t) expect_same(got[t], want[t], nm);
    cover_tag("concurrent", T, u[0].size(), u[1].size());
}
// A bulk call in between must not change what later point queries return.
SIM_SCENARIO(query_history, 2, false)
{
    auto r = sim::stream("in");
    Gates g(r, 0);
    auto s = gen_spec(r);
    auto crv = gen_bs<double, 3>(r, s);
    auto rat = gen_bsr<double, 3>(r, s);
    auto [a, b] = crv.bounds();
    int nops = (int)scaled(r, 4, 24);
    for (int i = 0; i < nops; ++i)
    {
        auto ro = r.fork((sim::u64)i);
        if (!sim::op_on(i)) continue;
        double u = gen_params<double>(ro, 1, a, b, crv.knotsFlats())[0];
        switch (ro.below(4))
        {
        case 0: { auto l = gen_params<double>(ro, scaled(ro, 0, 40), a, b); observe(crv.values(l, ro.below(3))); break; }
        case 1: { auto l = gen_params<double>(ro, scaled(ro, 0, 40), a, b); observe(rat.values(l, ro.below(3))); break; }
        case 2:
        {
            auto ref = ref_eval<double, 3>(crv.poles(), crv.knotsFlats(), crv.degree(), u);
            if (!(dist(crv.value(u), ref) <= 1e-9 * (1 + mag(ref)))) sim::violation("wrong-result", "value at %.17g after %d queries disagrees with the reference model", u, i);
            break;
        }
        default:
        {
            auto ref = project(ref_eval<double, 4>(rat.poles(), rat.knotsFlats(), rat.degree(), u));
            if (!(dist(rat.value(u), ref) <= 1e-9 * (1 + mag(ref)))) sim::violation("wrong-result", "rational value at %.17g after %d queries disagrees with the reference model", u, i);
        }
        }
    }
    cover_tag("history", nops, crv.degree(), crv.poles().size());
}
// Answers do not depend on earlier calls, nor on what the objects were before they changed.
SIM_SCENARIO(call_history, 1, false)
{
    auto r = sim::stream("calls");
    Gates g(r);
    call_history(r, {{2,1},{3,1},{2,47},{3,47},{2,0},{3,0}});
}

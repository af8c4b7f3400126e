// C02: bulk surface evaluation == pointwise evaluation, for every schedule.
#include "zoo.h"
#include "history.h"
#include <gbs/bssanalysis.h>
#include <gbs/offsets.h>
using namespace h;

using uv_t = std::array<double, 2>;
static std::vector<uv_t> gen_uv(Rng &r, size_t n, const std::array<double, 4> &b)
{
    auto u = gen_params<double>(r, n, b[0], b[1]);
    auto v = gen_params<double>(r, n, b[2], b[3]);
    std::vector<uv_t> uv(n);
    for (size_t i = 0; i < n; ++i) uv[i] = {u[i], v[i]};
    return uv;
}
static void lists(Rng &r, const gbs::Surface<double, 3> &srf, const std::vector<uv_t> &uv, size_t du, size_t dv, const char *nm)
{
    size_t n = uv.size();
    pts<double, 3> want(n), got;
    for (size_t i = 0; i < n; ++i) want[i] = srf.value(uv[i][0], uv[i][1], du, dv);
    auto before = uv;
    switch (r.below(5))
    {
    case 0: got = srf.values(uv, du, dv); break;
    case 1: got = srf.values(as<std::deque>(uv), du, dv); break;
    case 2: got = srf.values(as<std::list>(uv), du, dv); break;
    default:
    {
        std::vector<double> u(n), v(n);
        for (size_t i = 0; i < n; ++i) { u[i] = uv[i][0]; v[i] = uv[i][1]; }
        got = r.chance(0.7) ? srf.values(u, v, du, dv) : srf.values(as<std::deque>(u), as<std::deque>(v), du, dv);
    }
    }
    expect_same(got, want, nm);
    if (!same_bits(uv, before)) sim::violation("wrong-result", "%s: the parameter list was modified", nm);
    observe(got);
    if (r.chance(0.5))
    {
        int k = (int)r.below(4);
        for (size_t i = 0; i < n; ++i)
        {
            double a = uv[i][0], b = uv[i][1];
            want[i] = k == 0 ? srf.d_dmu(a, b) : k == 1 ? srf.d_dmv(a, b) : k == 2 ? srf.d_dmu2(a, b) : srf.d_dmv2(a, b);
        }
        got = k == 0 ? srf.d_dmus(uv) : k == 1 ? srf.d_dmvs(uv) : k == 2 ? srf.d_dmu2s(uv) : srf.d_dmv2s(uv);
        expect_same(got, want, "arc-length derivatives of a surface");
    }
}
/// Each partial derivative of a surface is the slope of the one below, wherever one-sided and finer slopes agree on what that is.
static void check_slopes(Rng &r, const gbs::Surface<double, 3> &srf, const char *nm)
{
    auto b = srf.bounds();
    for (int q = 0; q < 3; ++q)
    {
        double u = b[0] + (b[1] - b[0]) * r.real(0.02, 0.98), v = b[2] + (b[3] - b[2]) * r.real(0.02, 0.98);
        bool along_u = r.chance(0.5);
        size_t du = r.below(3), dv = r.below(3);
        if (along_u ? !du : !dv) (along_u ? du : dv) = 1;
        size_t lu = du - along_u, lv = dv - !along_u;
        double l = along_u ? b[1] - b[0] : b[3] - b[2], h = 1e-4 * l;
        auto g = srf.value(u, v, du, dv), f = srf.value(u, v, lu, lv);
        auto slope = [&](double x, double y) {
            auto p = along_u ? srf.value(u + x, v, lu, lv) : srf.value(u, v + x, lu, lv), w = along_u ? srf.value(u + y, v, lu, lv) : srf.value(u, v + y, lu, lv);
            for (size_t c = 0; c < 3; ++c) p[c] = (w[c] - p[c]) / (y - x);
            return p;
        };
        auto c1 = slope(-h, h), c2 = slope(-h / 4, h / 4), fw = slope(0, h), bw = slope(-h, 0);
        double scale = (double)(mag(g) + mag(c2) + 1e-3L * mag(f) / l);
        if (!(dist(fw, bw) <= 2e-2 * scale) || !(dist(c1, c2) <= 1e-4 * scale)) continue;
        if (!(dist(g, c2) <= 1e-2 * scale)) sim::violation("wrong-result", "%s: derivative (%zu,%zu) at (%.17g,%.17g) is %Lg away from the slope of the order below", nm, du, dv, u, v, dist(g, c2));
        sim::count("probe.slope");
    }
}
SIM_SCENARIO(surface_lists, 4, false)
{
    auto r = sim::stream("in");
    Gates g(r, 0.06);
    const char *nm = "";
    auto srf = gen_surface(r, (int)r.below(n_surface_kinds), &nm);
    size_t n = g.count(r, 100);
    size_t du = r.below(3), dv = r.below(3);
    auto uv = gen_uv(r, n, srf->bounds());
    sim::note("surface %s n %zu d %zu,%zu gate %zu", nm, n, du, dv, gbs::parallel_min_size);
    lists(r, *srf, uv, du, dv, nm);
    check_slopes(r, *srf, nm);
    cover_tag(nm, n, du * 3 + dv, n >= gbs::parallel_min_size);
}
SIM_SCENARIO(grids, 3, false)
{
    auto r = sim::stream("in");
    Gates g(r, 0.06);
    const char *nm = "";
    auto srf = gen_surface(r, (int)r.below(n_surface_kinds), &nm);
    size_t nu, nv;
    if (g.shipped) { nu = (size_t)r.range(25, 40); nv = 1000 / nu + r.below(3); }
    else { nu = 2 + scaled(r, 0, 10); nv = 2 + scaled(r, 0, 10); }
    auto [u1, u2, v1, v2] = srf->bounds();
    pts<double, 3> want;
    if (r.chance(0.5))
    {
        auto got = gbs::discretize(*srf, nu, nv);
        auto u = gbs::make_range(u1, u2, nu), v = gbs::make_range(v1, v2, nv);
        for (size_t j = 0; j < nv; ++j) for (size_t i = 0; i < nu; ++i) want.push_back(srf->value(u[i], v[j]));
        expect_same(got, want, "surface discretization");
        observe(got);
    }
    else
    {
        CurveSpec a{2, 4, u1, u2}, b{1, 3, v1, v2};
        auto f = gbs::BSSfunction<double>(gen_srf<double, 1>(r, a, b));
        auto u = gen_params<double>(r, nu, u1, u2), v = gen_params<double>(r, nv, v1, v2);
        auto got = gbs::offset_points(f, *srf, u, v);
        for (double v_ : v) for (double u_ : u)
        {
            // the offset of one point on its own
            auto one = gbs::offset_points(f, *srf, std::vector<double>{u_}, std::vector<double>{v_});
            want.push_back(one.at(0));
        }
        expect_same(got, want, "offset points");
        observe(got);
        // definition of the offset, within rounding
        size_t k = r.below(got.size());
        double u_ = u[k % nu], v_ = v[k / nu];
        auto p = srf->value(u_, v_);
        auto tu = srf->value(u_, v_, 1, 0), tv = srf->value(u_, v_, 0, 1);
        ld nx = (ld)tu[1] * tv[2] - (ld)tu[2] * tv[1], ny = (ld)tu[2] * tv[0] - (ld)tu[0] * tv[2], nz = (ld)tu[0] * tv[1] - (ld)tu[1] * tv[0];
        ld l = std::sqrt(nx * nx + ny * ny + nz * nz);
        if (l > 1e-6)
        {
            ld e = f(u_, v_);
            std::array<ld, 3> ref{p[0] + nx / l * e, p[1] + ny / l * e, p[2] + nz / l * e};
            if (!(dist(got[k], ref) <= 1e-7 * (1 + mag(ref)))) sim::violation("wrong-result", "offset point %zu is not on the normal of its own point", k);
        }
    }
    cover_tag("grid", nu, nv, g.shipped);
}
SIM_SCENARIO(bspline_reference, 2, false)
{
    auto r = sim::stream("in");
    Gates g(r, 0);
    auto su = gen_spec(r, 5, 5), sv = gen_spec(r, 5, 5);
    auto srf = gen_srf<double, 3>(r, su, sv);
    auto rat = gen_srfr<double, 3>(r, su, sv);
    int nops = (int)scaled(r, 2, 12);
    for (int i = 0; i < nops; ++i)
    {
        auto ro = r.fork((sim::u64)i);
        if (!sim::op_on(i)) continue;
        auto uv = gen_uv(ro, scaled(ro, 1, 30), srf.bounds());
        size_t n = uv.size();
        if (ro.chance(0.3)) // seams: exact knots and corners
            uv[0] = {srf.knotsFlatsU()[ro.below(srf.knotsFlatsU().size())], srf.knotsFlatsV()[ro.below(srf.knotsFlatsV().size())]};
        auto a = srf.values(uv);
        auto b = rat.values(uv);
        for (size_t k = 0; k < n; k += 1 + ro.below(4))
        {
            auto ra = ref_eval_surf<double, 3>(srf.poles(), srf.knotsFlatsU(), srf.knotsFlatsV(), srf.degreeU(), srf.degreeV(), uv[k][0], uv[k][1]);
            if (!(dist(a[k], ra) <= 1e-9 * (1 + mag(ra)))) sim::violation("wrong-result", "surface value %zu disagrees with the reference model", k);
            auto rb = project(ref_eval_surf<double, 4>(rat.poles(), rat.knotsFlatsU(), rat.knotsFlatsV(), rat.degreeU(), rat.degreeV(), uv[k][0], uv[k][1]));
            if (!(dist(b[k], rb) <= 1e-9 * (1 + mag(rb)))) sim::violation("wrong-result", "rational surface value %zu disagrees with the reference model", k);
        }
    }
    cover_tag("ref", nops, su.n * 10 + su.p, sv.n * 10 + sv.p);
}
SIM_SCENARIO(concurrent_bulk, 2, false)
{
    auto r = sim::stream("in");
    Gates g(r, 0);
    const char *nm = "";
    auto srf = gen_surface(r, (int)r.below(n_surface_kinds), &nm);
    size_t T = (size_t)r.range(2, 4);
    std::vector<std::vector<uv_t>> uv(T);
    std::vector<pts<double, 3>> want(T), got(T);
    std::vector<std::array<size_t, 2>> d(T);
    for (size_t t = 0; t < T; ++t)
    {
        uv[t] = gen_uv(r, g.count(r, 40), srf->bounds());
        d[t] = {r.below(3), r.below(3)};
        for (auto &x : uv[t]) want[t].push_back(srf->value(x[0], x[1], d[t][0], d[t][1]));
    }
    sim::threads(T, [&](size_t t) { got[t] = srf->values(uv[t], d[t][0], d[t][1]); });
    for (size_t t = 0; t < T; ++t) expect_same(got[t], want[t], nm);
    cover_tag("concurrent", T, uv[0].size(), uv[1].size());
}
// Answers do not depend on earlier calls, nor on what the objects were before they changed.
SIM_SCENARIO(call_history, 1, false)
{
    auto r = sim::stream("calls");
    Gates g(r);
    call_history(r, {{4,1},{4,33},{4,2},{4,0},{4,29},{4,18}});
}

// C07: surface and structured-mesh construction is deterministic and keeps its data.
#include "history.h"
#include "zoo.h"
#include "errs.h"
#include <gbs/bssbuild.h>
#include <gbs/bssinterp.h>
#include <gbs/bssapprox.h>
#include <gbs/bssanalysis.h>
#include <gbs-mesh/tfi.h>
#include "smooth.h"
#include <gbs-mesh/mshedge.h>
using namespace h;

template <class S> static bool same_srf(const S &a, const S &b)
{
    return a.degreeU() == b.degreeU() && a.degreeV() == b.degreeV() && same_bits(a.knotsFlatsU(), b.knotsFlatsU()) && same_bits(a.knotsFlatsV(), b.knotsFlatsV()) && same_bits(a.poles(), b.poles());
}
template <class C> static bool same_crv(const C &a, const C &b) { return a.degree() == b.degree() && same_bits(a.knotsFlats(), b.knotsFlats()) && same_bits(a.poles(), b.poles()); }

/// f() builds a result from shared inputs. Reference: alone and sequential. Then: scheduled,
/// and by several concurrent callers. All outcomes identical.
template <class F, class Same> static auto build(Rng &r, F &&f, Same &&same, const char *what)
{
    using R = std::decay_t<decltype(*f())>;
    std::shared_ptr<R> ref;
    Err e0;
    { sim::Serial s; e0 = capture([&] { ref = f(); }); }
    auto judge = [&](const Err &e, const std::shared_ptr<R> &got, const char *how) {
        if (!e.same(e0)) sim::violation("wrong-result", "%s, %s: %s, but a sequential execution gives %s", what, how, e.str().c_str(), e0.str().c_str());
        if (!e.any && !same(*got, *ref)) sim::violation("wrong-result", "%s, %s: the result differs from a sequential execution", what, how);
    };
    size_t n = r.chance(0.25) ? (size_t)r.range(2, 3) : 1;
    if (n == 1)
    {
        std::shared_ptr<R> got;
        auto e = capture([&] { got = f(); });
        judge(e, got, "scheduled");
    }
    else
    {
        std::vector<std::shared_ptr<R>> got(n);
        std::vector<Err> e(n);
        sim::threads(n, [&](size_t i) { e[i] = capture([&] { got[i] = f(); }); });
        for (size_t i = 0; i < n; ++i) judge(e[i], got[i], "concurrent callers");
        sim::count("probe.concurrent_builds");
    }
    if (e0.any) { sim::count("probe.build_error"); cover_tag(e0.what.c_str()); }
    return std::pair{e0, ref};
}
template <class S> static auto wrap(S &&s) { return std::make_shared<std::decay_t<S>>(std::forward<S>(s)); }

/// Section curves: translated walks, so that the loft is regular; differing degrees, knots, sizes, bounds.
template <class C> static C section(Rng &r, size_t j, bool same_form, CurveSpec s0)
{
    constexpr bool rat = std::is_same_v<C, gbs::BSCurveRational<double, 3>>;
    auto s = s0;
    if (!same_form)
    {
        s = gen_spec(r, 4, 5);
        if (r.chance(0.3)) { s.a = s0.a; s.b = s0.b; }
    }
    auto make = [&] { if constexpr (rat) return gen_bsr<double, 3>(r, s, 2); else return gen_bs<double, 3>(r, s, 2); };
    C c = make();
    auto P = c.poles();
    double z = j * 1.5 + r.real(-0.3, 0.3);
    for (auto &p : P)
    {
        double w = 1;
        if constexpr (rat) w = p[3];
        p[2] = 0.2 * p[2] + z * w;
    }
    c.movePoles(P);
    return c;
}
template <class C> static std::vector<C> sections(Rng &r, size_t n)
{
    auto s0 = gen_spec(r, 4, 5);
    bool same = r.chance(0.3);
    std::vector<C> v;
    for (size_t j = 0; j < n; ++j) v.push_back(section<C>(r, j, same, s0));
    return v;
}
static std::vector<double> stations(Rng &r, size_t n)
{
    std::vector<double> v(n);
    v[0] = r.chance(0.5) ? 0. : r.real(-2, 2);
    for (size_t i = 1; i < n; ++i) v[i] = v[i - 1] + r.real(0.5, 1.5);
    return v;
}
/// S(u, v_j) is section j (parametrised over the first section's bounds).
template <class S, class C> static void expect_sections(const S &s, const std::vector<C> &c, const std::vector<double> &v, double tol, const char *what)
{
    auto [u1, u2, v1, v2] = s.bounds();
    auto b0 = c[0].bounds();
    if (!(std::fabs(u1 - b0[0]) < 1e-9) || !(std::fabs(u2 - b0[1]) < 1e-9)) sim::violation("wrong-result", "%s: the surface does not span the sections", what);
    for (size_t j = 0; j < c.size(); ++j)
    {
        auto b = c[j].bounds();
        double vj = std::min(std::max(v[j], v1), v2);
        for (int k = 0; k <= 12; ++k)
        {
            double t = k / 12.;
            auto P = s.value(k == 12 ? u2 : u1 + (u2 - u1) * t, vj);
            auto Q = c[j].value(k == 12 ? b[1] : b[0] + (b[1] - b[0]) * t);
            if (!(dist(P, Q) <= tol * (1 + mag(Q)))) sim::violation("wrong-result", "%s: at v=%g the surface is %Lg away from section %zu of %zu", what, vj, dist(P, Q), j, c.size());
        }
    }
}
template <class C> static void loft_case(Rng &r)
{
    size_t n = (size_t)r.range(2, 3 + scaled(r, 0, 4));
    auto crv = sections<C>(r, n);
    auto before = crv;
    size_t q = (size_t)r.range(1, 4);
    bool lst = r.chance(0.3);
    std::list<C> clst(crv.begin(), crv.end());
    auto cmp = [](const auto &a, const auto &b) { return same_srf(a, b); };
    // the stations must suit the averaged knots: any increasing sequence does
    if (r.chance(0.6))
    {
        auto v = stations(r, n);
        auto [e, s] = build(r, [&] { return lst ? wrap(gbs::loft(clst, v, q)) : wrap(gbs::loft(crv, v, q)); }, cmp, "loft through given stations");
        if (e.any) sim::violation("wrong-error", "loft of %zu valid sections failed: %s", n, e.str().c_str());
        expect_sections(*s, crv, v, 1e-5, "loft through given stations");
    }
    else
    {
        auto [e, s] = build(r, [&] { return lst ? wrap(gbs::loft(clst, q)) : wrap(gbs::loft(crv, q)); }, cmp, "loft");
        if (e.any) sim::violation("wrong-error", "loft of %zu valid sections failed: %s", n, e.str().c_str());
        auto b = s->bounds();
        std::vector<C> ends{crv.front(), crv.back()};
        expect_sections(*s, ends, {b[2], b[3]}, 1e-5, "loft");
        // every section is met somewhere, in order: its first point lies on the surface's first u-line
        if (n > 2)
        {
            double last = b[2];
            for (size_t j = 0; j < n; ++j)
            {
                auto Q = crv[j].value(crv[j].bounds()[0]);
                double best = 1e300, at = last;
                for (int k = 0; k <= 400; ++k) { double v = b[2] + (b[3] - b[2]) * k / 400.; if (k == 400) v = b[3]; double d = (double)dist(s->value(b[0], v), Q); if (d < best) { best = d; at = v; } }
                double step = (b[3] - b[2]) / 400., slack = 0;
                for (int k = -1; k <= 1; k += 2) { double v = std::min(std::max(at + k * step, b[2]), b[3]); slack = std::max(slack, (double)dist(s->value(b[0], v), s->value(b[0], at))); }
                if (!(best <= slack + 1e-5)) sim::violation("wrong-result", "loft: section %zu of %zu is not met (distance %g)", j, n, best);
            }
        }
    }
    for (size_t i = 0; i < n; ++i) if (!same_crv(crv[i], before[i])) sim::violation("input-changed", "loft changed section %zu", i);
    cover_tag("loft", n, q, lst);
}
SIM_SCENARIO(loft_sections, 3, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    if (r.chance(0.5)) loft_case<gbs::BSCurve<double, 3>>(r); else loft_case<gbs::BSCurveRational<double, 3>>(r);
}
SIM_SCENARIO(loft_any_curves, 1, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    // sections of arbitrary smooth curve classes: converted, then lofted
    size_t n = (size_t)r.range(2, 3);
    std::vector<CrvP<3>> c;
    for (size_t j = 0; j < n; ++j)
    {
        auto s = gen_spec(r, 4, 3);
        if (s.p < 3) { s.p = 3; s.n += 2; }
        auto b = section<gbs::BSCurve<double, 3>>(r, j, true, CurveSpec{s.p, s.n, 0., 1.});
        auto p = std::make_shared<gbs::BSCurve<double, 3>>(b);
        if (r.chance(0.5)) c.push_back(std::make_shared<gbs::CurveTrimmed<double, 3>>(p, 0.1, 0.9));
        else c.push_back(p);
    }
    size_t q = (size_t)r.range(1, 3);
    bool given = r.chance(0.5);
    auto v = stations(r, n);
    sim::step_budget(2000000000);
    auto [e, s] = build(r, [&] { return given ? wrap(gbs::loft<double, 3>(c, v, q, 0.01, 40, 3)) : wrap(gbs::loft<double, 3>(c, q, 0.01, 40, 3)); }, [](const auto &a, const auto &b) { return same_srf(a, b); }, "loft of general curves");
    if (e.any) sim::violation("wrong-error", "loft of general curves failed: %s", e.str().c_str());
    auto b = s->bounds();
    for (int side = 0; side < 2; ++side)
    {
        auto &k = side ? c.back() : c.front();
        auto kb = k->bounds();
        for (int e2 = 0; e2 < 2; ++e2)
        {
            auto P = s->value(b[e2], b[2 + side]), Q = k->value(kb[e2]);
            if (!(dist(P, Q) <= 0.02)) sim::violation("wrong-result", "loft of general curves: corner %d%d is %Lg away from its curve", e2, side, dist(P, Q));
        }
    }
    cover_tag("loft_any", n, q, given);
}
SIM_SCENARIO(loft_spine, 2, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    size_t n = (size_t)r.range(2, 4 + scaled(r, 0, 2));
    auto crv = sections<gbs::BSCurve<double, 3>>(r, n);
    std::list<gbs::BSCurve<double, 3>> l(crv.begin(), crv.end()), l0 = l;
    pts<double, 3> sp;
    for (size_t j = 0; j < n + 1; ++j) sp.push_back({r.real(-0.2, 0.2), r.real(-0.2, 0.2), -1. + 1.5 * j});
    auto spine = gbs::interpolate<double, 3>(sp, std::min<size_t>(3, n), gbs::KnotsCalcMode::CHORD_LENGTH);
    auto spine0 = spine;
    bool approx = r.chance(0.5);
    size_t q = (size_t)r.range(1, 3);
    sim::step_budget(2000000000);
    auto [e, s] = build(r, [&] { return approx ? wrap(gbs::loft_approx<double, 3>(l, spine, q)) : wrap(gbs::loft<double, 3>(l, spine, q)); }, [](const auto &a, const auto &b) { return same_srf(a, b); }, approx ? "approximated spine loft" : "spine loft");
    if (!e.any) observe(s->poles());
    if (!same_crv(spine, spine0)) sim::violation("input-changed", "spine loft changed the spine");
    auto it = l0.begin();
    for (auto &c : l) if (!same_crv(c, *it++)) sim::violation("input-changed", "spine loft changed a section");
    cover_tag("spine", n, q, approx);
}
SIM_SCENARIO(gordon_lattice, 2, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    // iso-curves of a source surface: a compatible lattice by construction
    CurveSpec su{(size_t)r.range(1, 3), 0, 0, 1}, sv{(size_t)r.range(1, 3), 0, 0, 1};
    su.n = su.p + 1 + scaled(r, 0, 2); sv.n = sv.p + 1 + scaled(r, 0, 2);
    auto src = gen_srf<double, 3>(r, su, sv, 1);
    size_t nu = (size_t)r.range(2, 4), nv = (size_t)r.range(2, 4); // nu curves along u (at nu values of v)
    std::vector<double> uj, vi;
    for (size_t i = 0; i < nu; ++i) vi.push_back(i / (nu - 1.));
    for (size_t j = 0; j < nv; ++j) uj.push_back(j / (nv - 1.));
    std::vector<gbs::BSCurve<double, 3>> cu, cv;
    for (auto v : vi) cu.push_back(src.isoV(v));
    for (auto u : uj) cv.push_back(src.isoU(u));
    auto cu0 = cu, cv0 = cv;
    double tol = 1e-3;
    sim::step_budget(3000000000);
    bool broken = r.chance(0.15);
    bool far = r.chance(0.3);
    if (broken)
    {
        pt<double, 3> off{0, 0, 1e3};
        size_t k = r.below(nu), j = r.below(nv);
        if (!far) // lift one curve off another one, across both
        {
            auto a = cu[k].value(uj[j], 1), b = cv[j].value(vi[k], 1);
            pt<double, 3> n{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
            double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]), d = r.real(0.05, 0.3);
            if (l < 1e-3) n = {0, 0, 1}, l = 1;
            for (int c = 0; c < 3; ++c) off[c] = n[c] / l * d;
        }
        auto P = cu[k].poles(); for (auto &p : P) for (int c = 0; c < 3; ++c) p[c] += off[c];
        cu[k].movePoles(P); cu0 = cu;
        // a lower bound of their distance
        broken = false;
        for (size_t jj = 0; jj < nv; ++jj)
        {
            const int N = 200;
            pts<double, 3> A, B;
            for (int i = 0; i <= N; ++i) { A.push_back(cu[k].value(i / (double)N)); B.push_back(cv[jj].value(i / (double)N)); }
            double step = 0, best = 1e300;
            for (int i = 0; i < N; ++i) step = std::max({step, (double)dist(A[i], A[i + 1]), (double)dist(B[i], B[i + 1])});
            for (auto &x : A) for (auto &y : B) best = std::min(best, (double)dist(x, y));
            if (best - 2 * step > 5 * tol) broken = true;
        }
        if (broken) sim::count("probe.gordon_broken");
    }
    auto [e, s] = build(r, [&] { return wrap(gbs::gordon<double, 3>(cu.begin(), cu.end(), cv.begin(), cv.end(), tol)); }, [](const auto &a, const auto &b) { return same_srf(a, b); }, "Gordon surface");
    for (size_t i = 0; i < nu; ++i) if (!same_crv(cu[i], cu0[i])) sim::violation("input-changed", "gordon changed curve u%zu", i);
    for (size_t i = 0; i < nv; ++i) if (!same_crv(cv[i], cv0[i])) sim::violation("input-changed", "gordon changed curve v%zu", i);
    if (broken && !e.any) sim::violation("wrong-result", "a Gordon surface was built on curves that do not touch");
    cover_tag("gordon", nu, nv, su.p * 4 + sv.p);
    if (e.any && !broken && e.what.find("not touching") == std::string::npos) sim::violation("wrong-error", "Gordon surface: %s", e.str().c_str());
    if (e.any) { sim::count("probe.gordon_refused"); return; }
    auto b = s->bounds();
    for (size_t i = 0; i < nu; ++i)
        for (int k = 0; k <= 10; ++k)
        {
            // a point of curve i must be near the surface: at v of its own
            auto Q = cu[i].value(k / 10.);
            double best = 1e300;
            for (int m = 0; m <= 60; ++m) { double v = b[2] + (b[3] - b[2]) * (m / 60.); best = std::min(best, (double)dist(s->value(b[0] + (b[1] - b[0]) * (k / 10.), std::min(v, b[3])), Q)); }
            double room = 0.15; // distance between the probes and parameter shift
            if (!(best <= room)) sim::violation("wrong-result", "Gordon surface is %g away from its curve u%zu", best, i);
        }
    // the four corners are corners of the lattice
    for (int c = 0; c < 4; ++c)
    {
        auto P = s->value(b[c & 1], b[2 + (c >> 1)]);
        auto Q = (c >> 1 ? cu.back() : cu.front()).value((double)(c & 1));
        if (!(dist(P, Q) <= 5e-2)) sim::violation("wrong-result", "Gordon surface: corner %d is %Lg away from the lattice", c, dist(P, Q));
    }
}
SIM_SCENARIO(interpolate_grid, 2, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    size_t p = (size_t)r.range(1, 4), q = (size_t)r.range(1, 4);
    size_t nu = p + 1 + scaled(r, 0, 6), nv = q + 1 + scaled(r, 0, 6);
    auto Q = gen_sheet<double, 3>(r, nu, nv);
    auto Q0 = Q;
    auto cmp = [](const auto &a, const auto &b) { return same_srf(a, b); };
    int how = (int)r.below(4);
    if (how == 0) // equally spaced: parameters known
    {
        auto [e, s] = build(r, [&] { return wrap(gbs::interpolate<double, 3>(Q, nv, p, q, gbs::KnotsCalcMode::EQUALLY_SPACED)); }, cmp, "grid interpolation");
        if (e.any) sim::violation("wrong-error", "grid interpolation failed: %s", e.str().c_str());
        for (size_t j = 0; j < nv; ++j)
            for (size_t i = 0; i < nu; ++i)
            {
                auto P = s->value(std::min(1., i / (nu - 1.)), std::min(1., j / (nv - 1.)));
                if (!(dist(P, Q[i + nu * j]) <= 1e-6)) sim::violation("wrong-result", "grid interpolation misses point (%zu,%zu) by %Lg", i, j, dist(P, Q[i + nu * j]));
            }
    }
    else if (how == 1) // other laws: corners
    {
        auto m = r.chance(0.5) ? gbs::KnotsCalcMode::CHORD_LENGTH : gbs::KnotsCalcMode::CENTRIPETAL;
        auto [e, s] = build(r, [&] { return wrap(gbs::interpolate<double, 3>(Q, nv, p, q, m)); }, cmp, "grid interpolation");
        if (e.any) sim::violation("wrong-error", "grid interpolation failed: %s", e.str().c_str());
        for (int c = 0; c < 4; ++c)
        {
            auto P = s->value((double)(c & 1), (double)(c >> 1));
            auto &W = Q[((c & 1) ? nu - 1 : 0) + nu * ((c >> 1) ? nv - 1 : 0)];
            if (!(dist(P, W) <= 1e-6)) sim::violation("wrong-result", "grid interpolation misses corner %d by %Lg", c, dist(P, W));
        }
    }
    else if (how == 2) // constraints
    {
        std::vector<gbs::bss_constraint<double, 3>> C;
        // one simple constraint per pole at the Greville points of the knots the library will use
        auto ku = gbs::build_mult_flat_knots<double>(0., 1., 2 + (nu - p - 1), p, 1), kv = gbs::build_mult_flat_knots<double>(0., 1., 2 + (nv - q - 1), q, 1);
        auto grev = [](const std::vector<double> &k, size_t d, size_t i) { double x = 0; for (size_t c = 1; c <= d; ++c) x += k[i + c]; return std::min(1., std::max(0., x / d)); };
        for (size_t j = 0; j < nv; ++j)
            for (size_t i = 0; i < nu; ++i) C.push_back({grev(ku, p, i), grev(kv, q, j), Q[i + nu * j], 0, 0});
        if (r.chance(0.5)) for (size_t i = C.size(); i-- > 1;) std::swap(C[i], C[r.below(i + 1)]);
        auto [e, s] = build(r, [&] { return wrap(gbs::interpolate<double, 3>(C, nv, p, q)); }, cmp, "constraint interpolation");
        if (e.any) sim::violation("wrong-error", "constraint interpolation failed: %s", e.str().c_str());
        for (auto &[u, v, x, du, dv] : C)
            if (!(dist(s->value(u, v, du, dv), x) <= 1e-5)) sim::violation("wrong-result", "constraint interpolation misses a constraint by %Lg", dist(s->value(u, v, du, dv), x));
    }
    else // least squares on enough samples of a surface of the same space: recovers it
    {
        auto ku = gen_knots<double>(r, nu, p, 0., 1., 1), kv = gen_knots<double>(r, nv, q, 0., 1., 1);
        gbs::BSSurface<double, 3> src(Q, ku, kv, p, q);
        size_t mu = 3 * nu + 2, mv = 3 * nv + 2;
        std::vector<double> u(mu), v(mv);
        for (size_t i = 0; i < mu; ++i) u[i] = i / (mu - 1.);
        for (size_t i = 0; i < mv; ++i) v[i] = i / (mv - 1.);
        pts<double, 3> S(mu * mv);
        std::vector<gbs::bss_constraint<double, 3>> C;
        for (size_t j = 0; j < mv; ++j) for (size_t i = 0; i < mu; ++i) { S[i + mu * j] = src.value(u[i], v[j]); C.push_back({u[i], v[j], S[i + mu * j], 0, 0}); }
        bool con = r.chance(0.3) && C.size() < 300;
        auto [e, s] = build(r, [&] { return con ? wrap(gbs::approx<double, 3>(C, ku, kv, p, q)) : wrap(gbs::BSSurface<double, 3>(gbs::approx<double, 3>(S, ku, kv, u, v, p, q), ku, kv, p, q)); }, cmp, "grid approximation");
        if (e.any) sim::violation("wrong-error", "grid approximation failed: %s", e.str().c_str());
        for (size_t i = 0; i < S.size(); ++i)
        {
            auto P = s->value(u[i % mu], v[i / mu]);
            if (!(dist(P, S[i]) <= 1e-4)) sim::violation("wrong-result", "grid approximation misses sample %zu of its own space by %Lg", i, dist(P, S[i]));
        }
    }
    expect_same(Q, Q0, "grid points after the construction");
    cover_tag("grid", nu * 16 + nv, p * 8 + q, how);
}

// ---- structured meshes -------------------------------------------------------
using MeshT = std::tuple<pts<double, 3>, size_t, size_t, std::vector<size_t>, std::vector<size_t>>;
static bool same_mesh(const MeshT &a, const MeshT &b)
{
    return same_bits(std::get<0>(a), std::get<0>(b)) && std::get<1>(a) == std::get<1>(b) && std::get<2>(a) == std::get<2>(b) && std::get<3>(a) == std::get<3>(b) && std::get<4>(a) == std::get<4>(b);
}
SIM_SCENARIO(transfinite_mesh, 3, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    CurveSpec su{(size_t)r.range(1, 3), 0, 0, 1}, sv{(size_t)r.range(1, 3), 0, 0, 1};
    su.n = su.p + 1 + scaled(r, 0, 2); sv.n = sv.p + 1 + scaled(r, 0, 2);
    auto src = std::make_shared<gbs::BSSurface<double, 3>>(gen_srf<double, 3>(r, su, sv, 1));
    auto src0 = *src;
    size_t L = (size_t)r.range(2, 3), M = (size_t)r.range(2, 3);
    std::vector<double> ki(L), ej(M);
    for (size_t i = 0; i < L; ++i) ki[i] = i == 0 ? 0. : i == L - 1 ? 1. : i / (L - 1.) + r.real(-0.15, 0.15);
    for (size_t j = 0; j < M; ++j) ej[j] = j == 0 ? 0. : j == M - 1 ? 1. : j / (M - 1.) + r.real(-0.15, 0.15);
    size_t nk = L + scaled(r, 2, 12), ne = M + scaled(r, 2, 12);
    int how = (int)r.below(4);
    std::vector<CrvP<3>> ik, ie;
    for (auto k : ki) ik.push_back(std::make_shared<gbs::BSCurve<double, 3>>(src->isoU(k)));
    for (auto e : ej) ie.push_back(std::make_shared<gbs::BSCurve<double, 3>>(src->isoV(e)));
    sim::step_budget(3000000000);
    auto [e, m] = build(r, [&]() -> std::shared_ptr<MeshT> {
        switch (how)
        {
        case 0: return wrap(MeshT(gbs::tfi_mesh_2d<double, 3, 1, 1>(src, ki, ej, nk, ne)));
        case 1: return wrap(MeshT(gbs::tfi_mesh_2d<double, 3, 2, 1>(ik, ie, ki, ej, nk, ne, src)));
        case 2: return wrap(MeshT(gbs::tfi_mesh_2d<double, 3, 1, 1, true>(ik, ie, ki, ej, nk, ne)));
        default: return wrap(MeshT(gbs::tfi_mesh_2d<double, 3, 1, 1>(ik, ie, ki, ej, nk, ne)));
        }
    }, same_mesh, "transfinite mesh");
    cover_tag("tfi", how, nk, ne);
    if (!same_srf(*src, src0)) sim::violation("input-changed", "transfinite meshing changed the surface");
    if (e.any && e.what.find("refine n_law") == std::string::npos) sim::violation("wrong-error", "mesh: %s", e.str().c_str());
    if (e.any) { sim::count("probe.mesh_refused"); return; } // e.g. an iso line whose arc length law needs a finer sampling: refused, every time
    auto &[P, nj, ni, nik, nie] = *m;
    if (P.size() != ni * nj) sim::violation("wrong-result", "transfinite mesh: %zu points for %zux%zu", P.size(), ni, nj);
    if (how == 1) return; // slope blending: only the schedule is judged
    // the mesh lines at the hard curves lie on them, nodes of the lattice at their place
    size_t a = 0;
    double size = 3. + su.n + sv.n;
    for (size_t i = 0; i < L; ++i)
    {
        size_t b = 0;
        for (size_t j = 0; j < M; ++j)
        {
            if (b >= nj || a >= ni) sim::violation("wrong-result", "transfinite mesh: line index outside the mesh");
            auto Q = src->value(ki[i], ej[j]);
            if (!(dist(P[b + nj * a], Q) <= 1e-6 * size)) sim::violation("wrong-result", "transfinite mesh: lattice node (%zu,%zu) is %Lg away", i, j, dist(P[b + nj * a], Q));
            if (j + 1 < M) b += nik[j] - 1;
        }
        // in between: on the curve and in order
        double last = -1;
        for (size_t j = 0; j < nj; ++j)
        {
            double best = 1e300, at = 0;
            for (int k = 0; k <= 200; ++k) { double d = (double)dist(ik[i]->value(k / 200.), P[j + nj * a]); if (d < best) { best = d; at = k / 200.; } }
            double lo = std::max(0., at - 0.005), hi = std::min(1., at + 0.005);
            for (int k = 0; k < 60; ++k) { double x = lo + (hi - lo) / 3, y = hi - (hi - lo) / 3; if (dist(ik[i]->value(x), P[j + nj * a]) < dist(ik[i]->value(y), P[j + nj * a])) hi = y; else lo = x; }
            best = std::min(best, (double)dist(ik[i]->value((lo + hi) / 2), P[j + nj * a]));
            if (!(best <= 1e-5 * size)) sim::violation("wrong-result", "transfinite mesh: point %zu of hard line %zu is %g away from its curve", j, i, best);
            if (at < last - 0.02) sim::violation("wrong-result", "transfinite mesh: hard line %zu is not in order", i);
            last = at;
        }
        if (i + 1 < L) a += nie[i] - 1;
    }
}
SIM_SCENARIO(project_mesh, 1, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    CurveSpec su{(size_t)r.range(1, 3), 0, 0, 1}, sv{(size_t)r.range(1, 3), 0, 0, 1};
    su.n = su.p + 1 + scaled(r, 0, 2); sv.n = sv.p + 1 + scaled(r, 0, 2);
    auto src = gen_srf<double, 3>(r, su, sv, 1);
    size_t n = scaled(r, 1, 14);
    pts<double, 3> P(n);
    for (auto &p : P) { p = src.value(r.uniform(), r.uniform()); p[2] += r.real(-0.2, 0.2); }
    auto P0 = P;
    sim::step_budget(3000000000);
    auto [e, q] = build(r, [&] { auto w = P; gbs::project_points_on_surface<double, 3>(src, w); return wrap(w); }, [](const auto &a, const auto &b) { return same_bits(a, b); }, "projection of a mesh");
    if (!e.any)
        for (size_t i = 0; i < n; ++i)
        {
            sim::Serial sr;
            auto [u, v, d] = gbs::extrema_surf_pnt<double, 3>(src, P0[i], 1e-6);
            if (!same_bits((*q)[i], src.value(u, v))) sim::violation("wrong-result", "projection: point %zu of %zu is not the projection of its own point", i, n);
        }
    cover_tag("project", n);
}
SIM_SCENARIO(smooth_mesh, 1, false)
{
    auto r = sim::stream("in");
    size_t ni = 3 + scaled(r, 0, 7), nj = 3 + scaled(r, 0, 7);
    pts<double, 2> P(ni * nj);
    for (size_t i = 0; i < ni; ++i) for (size_t j = 0; j < nj; ++j) P[j + nj * i] = {i + r.real(-0.2, 0.2), j + r.real(-0.2, 0.2)};
    size_t i1 = r.below(ni - 2), i2 = (size_t)r.range((long)i1 + 2, (long)ni - 1), j1 = r.below(nj - 2), j2 = (size_t)r.range((long)j1 + 2, (long)nj - 1);
    size_t it = (size_t)r.range(1, 20);
    auto P0 = P;
    auto [e, q] = build(r, [&] { auto w = P; gbs::elliptic_structured_smoothing<double>(w, nj, i1, i2, j1, j2, it, 1e-6); return wrap(w); }, [](const auto &a, const auto &b) { return same_bits(a, b); }, "elliptic smoothing");
    if (e.any) sim::violation("wrong-error", "smoothing failed: %s", e.str().c_str());
    for (size_t i = 0; i < ni; ++i)
        for (size_t j = 0; j < nj; ++j)
            if (!(i > i1 && i < i2 && j > j1 && j < j2) && !same_bits((*q)[j + nj * i], P0[j + nj * i]))
                sim::violation("wrong-result", "smoothing moved point (%zu,%zu), which is outside its window", i, j);
    cover_tag("smooth", ni, nj, it);
}
// ---- constructions do not influence later ones ---------------------------------
SIM_SCENARIO(call_history, 1.5, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    sim::step_budget(3000000000);
    call_history(r, {{3, 10}, {3, 11}, {3, 17}, {3, 18}, {3, 19}, {3, 20}, {3, 21}, {3, 22}, {3, 23}, {3, 27}, {3, 28}, {3, 29}, {4, 13}, {4, 14}, {4, 15}, {4, 16}, {4, 17}, {4, 18}, {4, 19}, {4, 20}, {4, 23}, {4, 13}, {4, 14}, {4, 15}, {4, 16}, {4, 17}, {4, 18}, {4, 19}, {4, 20}, {4, 23}, {3, 35}, {3, 36}, {3, 37}, {3, 38}, {3, 39}, {3, 40}, {3, 41}, {3, 43}, {3, 44}, {3, 46}, {4, 24}, {4, 25}, {4, 26}, {4, 27}, {4, 28}, {4, 29}, {4, 30}, {4, 31}, {4, 32}, {4, 34}});
}

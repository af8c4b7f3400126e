// C04: a failing element of a bulk operation is reported as one ordinary, deterministic error.
#include "zoo.h"
#include "errs.h"
#include <gbs/bssanalysis.h>
#include <gbs/bssbuild.h>
#include <gbs/offsets.h>
#include <gbs/transform.h>
#include <gbs/extrema.h>
#include <gbs-mesh/tfi.h>
#include <map>
#include <set>
using namespace h;

/// Spoils some elements of a parameter list: outside the bounds, by a lot or by a little.
static size_t spoil(Rng &r, std::vector<double> &u, double a, double b)
{
    if (u.empty()) return 0;
    int how = (int)r.below(6);
    size_t n = u.size(), k = how == 0 ? 0 : how == 1 ? n : how == 2 ? 1 : 1 + r.below(std::min<size_t>(n, 4));
    for (size_t i = 0; i < k; ++i)
    {
        size_t at = how == 1 ? i : how == 3 ? n - 1 - i % n : how == 4 ? i : r.below(n);
        double d = r.chance(0.5) ? r.real(0.001, 1.) : r.real(1., 100.);
        u[at] = r.chance(0.5) ? b + d : a - d;
    }
    return k;
}
template <size_t D> static void curve_case(Rng &r)
{
    Gates g(r, 0.05);
    const char *nm = "";
    auto crv = gen_curve<D>(r, (int)r.below(n_curve_kinds), &nm);
    auto [a, b] = crv->bounds();
    size_t n = g.count(r, 60), d = r.below(3);
    auto u = gen_params<double>(r, n, a, b);
    size_t k = spoil(r, u, a, b);
    auto u0 = u;
    int form = (int)r.below(5);
    if (form == 1) d = 1;
    if (form == 2) d = 2;
    pts<double, D> want;
    Err ref = capture([&] { for (double x : u) want.push_back(crv->value(x, d)); });
    pts<double, D> got;
    Err e = capture([&] {
        switch (form)
        {
        case 1: got = crv->d_dms(u); break;
        case 2: got = crv->d_dm2s(u); break;
        case 3: got = gbs::make_points(*crv, u, d); break;
        case 4: { std::list<double> l(u.begin(), u.end()); got = gbs::make_points(*crv, l, d); break; }
        default: got = crv->values(u, d);
        }
    });
    if (form == 1 || form == 2) // arc-length derivatives: the single calls are the reference
    {
        ref = capture([&] { for (double x : u) { if (form == 1) crv->d_dm(x); else crv->d_dm2(x); } });
        expect_err(e, ref, nm);
    }
    else
    {
        expect_err(e, ref, nm);
        if (!ref.any) expect_same(got, want, nm);
    }
    if (!same_bits(u, u0)) sim::violation("wrong-result", "the parameter list was modified");
    // the curve stays usable
    auto v = gen_params<double>(r, g.count(r, 40), a, b);
    auto again = crv->values(v);
    for (size_t i = 0; i < v.size(); ++i)
        if (!same_bits(again[i], crv->value(v[i]))) sim::violation("wrong-result", "after the error, element %zu differs from the pointwise result", i);
    cover_tag(nm, k, form * 10 + d, n >= gbs::parallel_min_size);
}
SIM_SCENARIO(curve_bulk, 4, false)
{
    auto r = sim::stream("in");
    if (r.chance(0.5)) curve_case<2>(r); else curve_case<3>(r);
}
SIM_SCENARIO(surface_bulk, 4, false)
{
    auto r = sim::stream("in");
    Gates g(r, 0.05);
    const char *nm = "";
    auto srf = gen_surface(r, (int)r.below(n_surface_kinds), &nm);
    auto [u1, u2, v1, v2] = srf->bounds();
    size_t n = g.count(r, 60), du = r.below(3), dv = r.below(3);
    auto u = gen_params<double>(r, n, u1, u2), v = gen_params<double>(r, n, v1, v2);
    size_t k = 0;
    if (r.chance(0.7)) k += spoil(r, u, u1, u2);
    if (r.chance(0.5)) k += spoil(r, v, v1, v2);
    std::vector<std::array<double, 2>> uv(n);
    for (size_t i = 0; i < n; ++i) uv[i] = {u[i], v[i]};
    pts<double, 3> got, want;
    Err ref = capture([&] { for (auto &x : uv) want.push_back(srf->value(x[0], x[1], du, dv)); });
    Err e = capture([&] { got = r.chance(0.5) ? srf->values(uv, du, dv) : srf->values(u, v, du, dv); });
    expect_err(e, ref, nm);
    if (!ref.any) expect_same(got, want, nm);
    auto again = gbs::discretize(*srf, 3, 4);
    if (again.size() != 12) sim::violation("wrong-result", "the surface is not usable after the error");
    cover_tag(nm, k, du * 3 + dv, n >= gbs::parallel_min_size);
}
SIM_SCENARIO(offset_grid, 2, false)
{
    auto r = sim::stream("in");
    Gates g(r, 0.03);
    const char *nm = "";
    auto srf = gen_surface(r, (int)r.below(n_surface_kinds), &nm);
    auto [u1, u2, v1, v2] = srf->bounds();
    size_t nu = g.shipped ? 34 : 1 + scaled(r, 0, 10), nv = g.shipped ? 30 : 1 + scaled(r, 0, 10);
    auto u = gen_params<double>(r, nu, u1, u2), v = gen_params<double>(r, nv, v1, v2);
    // the offset law may cover only part of the surface
    double cut = r.chance(0.4) ? r.real(0.3, 0.9) : 1.;
    CurveSpec a{2, 4, u1, u1 + cut * (u2 - u1)}, b{1, 3, v1, v2};
    auto f = gbs::BSSfunction<double>(gen_srf<double, 1>(r, a, b));
    if (r.chance(0.3)) spoil(r, u, u1, u2);
    if (r.chance(0.3)) spoil(r, v, v1, v2);
    pts<double, 3> got, want;
    Err ref = capture([&] {
        for (double y : v) for (double x : u)
        {
            auto p = srf->value(x, y); srf->value(x, y, 1, 0); srf->value(x, y, 0, 1); f(x, y);
            want.push_back(p);
        }
    });
    Err e = capture([&] { got = gbs::offset_points(f, *srf, u, v); });
    expect_err(e, ref, "offset points");
    if (!ref.any && got.size() != want.size()) sim::violation("wrong-result", "%zu offset points for a %zux%zu grid", got.size(), nu, nv);
    cover_tag("offset", nu, nv, ref.any);
}
// ---- batch builders -------------------------------------------------------
SIM_SCENARIO(batch_builders, 3, false)
{
    auto r = sim::stream("in");
    Gates g(r, 0.3);
    size_t K = g.shipped ? (size_t)r.range(6, 12) : scaled(r, 1, 14), p = (size_t)r.range(1, 4);
    auto mode = gbs::KnotsCalcMode::CHORD_LENGTH;
    std::vector<pts<double, 2>> sets(K);
    for (auto &s : sets) s = gen_walk<double, 2>(r, p + 1 + scaled(r, 0, 8));
    size_t nbad = r.below(4);
    for (size_t i = 0; i < nbad; ++i)
    {
        auto &s = sets[r.below(K)];
        if (s.empty() || r.chance(0.6)) { s.resize(r.below(p + 1)); continue; } // too few points, even none
        for (size_t j = 1 + r.below(4), at = r.below(s.size()); j > 0; --j) s.insert(s.begin() + (long)at, s[at]); // the same point several times
        sim::count("probe.repeated_points");
    }
    size_t np = p + 1;
    bool ap = r.chance(0.4);
    Err ref = capture([&] { for (auto &s : sets) { if (ap) gbs::approx<double, 2>(s, p, np, mode, true); else gbs::interpolate<double, 2>(s, p, mode); } });
    size_t got = 0;
    Err e = capture([&] { got = ap ? gbs::approx<double, 2>(sets, p, np, mode, true).size() : gbs::interpolate<double, 2>(sets, p, mode).size(); });
    expect_err(e, ref, ap ? "batch approximation" : "batch interpolation");
    if (!ref.any && got != K) sim::violation("wrong-result", "%zu curves for %zu sets", got, K);
    cover_tag("batch", K, nbad * 10 + p, ap * 2 + (K >= gbs::parallel_batch_min_size));
}
struct Odd { int v; };
SIM_SCENARIO(generic_batch, 2, false)
{
    auto r = sim::stream("in");
    Gates g(r, 0.2);
    size_t K = scaled(r, 1, 30), gate = (size_t)r.range(0, 20);
    std::vector<int> in(K), kind(K, 0);
    for (size_t i = 0; i < K; ++i) { in[i] = (int)i; if (r.chance(0.15)) kind[i] = 1 + (int)r.below(5); }
    auto build = [&](int i) -> std::string {
        switch (kind[(size_t)i])
        {
        case 1: throw std::runtime_error("set " + std::to_string(i));
        case 2: throw i;
        case 3: throw std::bad_alloc();
        case 4: throw std::out_of_range(std::string(64, 'x') + std::to_string(i));
        case 5: throw "literal";
        }
        return std::to_string(i);
    };
    Err ref = capture([&] { for (int i : in) build(i); });
    std::vector<std::string> got;
    Err e = capture([&] { got = gbs::build_batch(in, build, gate); });
    expect_err(e, ref, "generic batch");
    if (!ref.any)
        for (size_t i = 0; i < K; ++i) if (got.at(i) != std::to_string(i)) sim::violation("wrong-result", "slot %zu", i);
    cover_tag("generic", K, gate, ref.any);
}
// ---- user callbacks ---------------------------------------------------------
template <size_t D> struct Callback
{
    std::map<pt<double, D>, int> *bad; // point -> tag
    pt<double, D> operator()(const pt<double, D> &x) const
    {
        auto it = bad->find(x);
        if (it != bad->end())
        {
            if (it->second % 4 == 0) throw it->second;
            if (it->second % 4 == 1) throw std::runtime_error("pole " + std::to_string(it->second));
            if (it->second % 4 == 2) throw std::bad_alloc();
            throw std::invalid_argument(std::to_string(it->second));
        }
        auto y = x;
        for (auto &c : y) c = 2 * c + 1;
        return y;
    }
};
template <size_t D> static std::map<pt<double, D>, int> pick_bad(Rng &r, const pts<double, D> &p)
{
    std::map<pt<double, D>, int> bad;
    size_t n = p.empty() ? 0 : r.below(4);
    for (size_t i = 0; i < n; ++i) { size_t at = r.below(p.size()); bad[p[at]] = (int)at; }
    return bad;
}
template <size_t D, class G> static void transform_case(Rng &r, G geo, const pts<double, D> &model, const char *what)
{
    auto bad = pick_bad<D>(r, model);
    Callback<D> cb{&bad};
    Err ref = capture([&] { for (auto &x : model) cb(x); });
    auto poles = geo.poles();
    Err e = capture([&] { gbs::transform(geo, cb); });
    expect_err(e, ref, what);
    if (ref.any && !same_bits(geo.poles(), poles)) sim::violation("wrong-result", "%s: the object changed although the transformation failed", what);
    cover_tag(what, model.size(), bad.size(), D);
}
template <size_t D> static pts<double, D> unweighted(const pts<double, D + 1> &p)
{
    pts<double, D> q;
    std::vector<double> w;
    gbs::separate_weights(p, q, w);
    return q;
}
SIM_SCENARIO(user_transform, 3, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    auto s = gen_spec(r, 4, r.chance(0.2) ? 200 : 12);
    switch (r.below(6))
    {
    case 0: { auto c = gen_bs<double, 2>(r, s); transform_case<2>(r, c, c.poles(), "curve 2d"); break; }
    case 1: { auto c = gen_bs<double, 3>(r, s); transform_case<3>(r, c, c.poles(), "curve 3d"); break; }
    case 2: { auto c = gen_bsr<double, 3>(r, s); transform_case<3>(r, c, unweighted<3>(c.poles()), "rational curve"); break; }
    case 3: { auto c = gen_srf<double, 3>(r, s, gen_spec(r, 3, 4)); transform_case<3>(r, c, c.poles(), "surface"); break; }
    case 4: { auto c = gen_srfr<double, 3>(r, s, gen_spec(r, 3, 4)); transform_case<3>(r, c, unweighted<3>(c.poles()), "rational surface"); break; }
    default: // copying variant
    {
        auto c = gen_bs<double, 3>(r, s);
        auto poles = c.poles();
        auto bad = pick_bad<3>(r, poles);
        Callback<3> cb{&bad};
        Err ref = capture([&] { for (auto &x : poles) cb(x); });
        Err e = capture([&] { gbs::transformed(c, cb); });
        expect_err(e, ref, "copying transform");
        if (!same_bits(poles, c.poles())) sim::violation("wrong-result", "the source of a copying transform changed");
        cover_tag("copy", poles.size(), bad.size());
    }
    }
}
SIM_SCENARIO(approx_callback, 2, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    auto s = gen_spec(r, 4, 6);
    if (s.p < 2) { s.p = 2; s.n++; }
    auto c = gen_bs<double, 2>(r, s, 1);
    double dev = r.real(0.01, 0.1), tol = 0.05;
    size_t p = (size_t)r.range(2, 4), np = 20 + scaled(r, 0, 40);
    pts<double, 2> seen;
    {
        sim::Serial ser;
        std::function<pt<double, 2>(const pt<double, 2> &)> rec = [&](const pt<double, 2> &x) { seen.push_back(x); return x; };
        capture([&] { gbs::approx<double, 2>(c, rec, dev, tol, p, np); });
    }
    auto bad = pick_bad<2>(r, seen);
    Callback<2> cb{&bad};
    Err ref = capture([&] { for (auto &x : seen) cb(x); });
    std::function<pt<double, 2>(const pt<double, 2> &)> f = cb;
    Err e = capture([&] { gbs::approx<double, 2>(c, f, dev, tol, p, np); });
    if (ref.any) expect_err(e, ref, "approximation of a transformed curve");
    cover_tag("approxcb", seen.size(), bad.size(), p);
}
// ---- searches ---------------------------------------------------------------
/// A straight curve crossing (or missing) the axis at abscissa x.
static std::shared_ptr<gbs::Curve<double, 3>> rung(double x, double lift)
{
    return std::make_shared<gbs::BSCurve<double, 3>>(pts<double, 3>{{x, -1, lift}, {x, 1, lift}}, std::vector<double>{0, 0, 1, 1}, 1);
}
SIM_SCENARIO(intersections, 2, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    size_t K = scaled(r, 1, 8);
    using C = gbs::BSCurve<double, 3>;
    C axis(pts<double, 3>{{0, 0, 0}, {1, 0, 0}, {2, 0, 0}}, {0, 0, 0, 1, 1, 1}, 2);
    std::vector<C> rungs;
    double tol = 1e-4;
    bool apart = false;
    for (size_t i = 0; i < K; ++i)
    {
        double gap = r.chance(0.25) ? r.real(0.1, 0.5) * (r.chance(0.5) ? 1 : 0.01) : 0.; // ten tolerances and more
        apart |= gap > 0;
        rungs.push_back(dynamic_cast<C &>(*rung(0.1 + 1.8 * (i + 0.5) / K, gap)));
    }
    std::list<C> one;
    std::vector<double> want, got;
    Err ref = capture([&] {
        for (auto &c : rungs)
        {
            one.assign(1, c);
            want.push_back(gbs::build_intersections<double, 3>(one.begin(), one.end(), axis, tol).at(0));
        }
    });
    bool ptr = r.chance(0.5);
    std::vector<C *> prungs;
    for (auto &c : rungs) prungs.push_back(&c);
    Err e = capture([&] {
        if (ptr) got = gbs::build_intersections<double, 3>(prungs.begin(), prungs.end(), axis, tol);
        else got = gbs::build_intersections<double, 3>(rungs.begin(), rungs.end(), axis, tol);
    });
    expect_err(e, ref, "intersections");
    if (apart != ref.any) sim::violation("wrong-error", apart ? "curves that do not touch were intersected" : "curves that touch were refused: %s", ref.str().c_str());
    if (!ref.any && !same_bits(got, want)) sim::violation("wrong-result", "intersections differ from the single calls");
    cover_tag("inter", K, ref.any, ptr);
}
SIM_SCENARIO(arc_length_range, 2, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    auto s = gen_spec(r, 3, 4);
    auto c = gen_bs<double, 2>(r, s);
    auto [a, b] = c.bounds();
    double u1 = a, u2 = b;
    if (r.chance(0.4)) u1 = a - r.real(0.01, 1);
    if (r.chance(0.5)) u2 = b + r.real(0.01, 1);
    size_t n = 2 + scaled(r, 0, 20);
    Err ref = capture([&] {
        auto u = gbs::make_range(u1, u2, n);
        for (size_t i = 0; i + 1 < u.size(); ++i) gbs::length<double, 2>(c, u[i], u[i + 1]);
    });
    bool adaptive = r.chance(0.3); // visits the intervals in another order: only the kind of error is compared
    Err e = capture([&] { if (!adaptive) gbs::abs_curv<double, 2>(c, u1, u2, n); else gbs::abs_curv_adaptive_discretzation<double, 2>(c, u1, u2, n, 3, 1e6); });
    if (adaptive) { e.what.clear(); ref.what.clear(); }
    if (ref.any || e.any)
    {
        if (!e.any) sim::violation("wrong-error", "arc length over [%g,%g] beyond the curve's bounds succeeded", u1, u2);
        if (ref.any) expect_err(e, ref, "arc length");
    }
    cover_tag("arc", n, (u1 < a) * 2 + (u2 > b), ref.any);
}
/// A curve on a surface whose parameter curve leaves the surface: some evaluations fail.
static std::shared_ptr<gbs::CurveOnSurface<double, 3>> leaving_curve(Rng &r, double over)
{
    CurveSpec a{2, 5, 0, 1}, b{3, 6, 0, 1};
    auto srf = std::make_shared<gbs::BSSurface<double, 3>>(gen_srf<double, 3>(r, a, b, 1));
    pts<double, 2> q{{0.05, 0.2}, {0.5, 0.5}, {1. + over, 0.7}};
    return std::make_shared<gbs::CurveOnSurface<double, 3>>(std::make_shared<gbs::BSCurve<double, 2>>(q, std::vector<double>{0, 0, 0, 1, 1, 1}, 2), srf);
}
SIM_SCENARIO(searches, 2, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    bool fails = r.chance(0.7);
    auto c = leaving_curve(r, fails ? r.real(0.05, 0.4) : -0.2);
    auto [a, b] = c->bounds();
    pt<double, 3> p{r.real(0, 4), r.real(0, 4), r.real(-1, 1)};
    int form = (int)r.below(4);
    Err e;
    switch (form)
    {
    case 0: e = capture([&] { gbs::extrema_curve_point<double, 3>(*c, p, 1e-6); }); break;
    case 1:
    {
        std::vector<std::shared_ptr<gbs::Curve<double, 3>>> l{rung(0.5, 0), rung(1, 0)};
        l.insert(l.begin() + (long)r.below(3), c);
        e = capture([&] { gbs::extrema_curve_curve_lst<double, 3>(*rung(0.7, 0.1), l.begin(), l.end(), 1e-6); });
        break;
    }
    case 2: e = capture([&] { gbs::discretize(*c, 10 + r.below(30)); }); break;
    default: e = capture([&] { gbs::abs_curv<double, 3>(*c, a, b, 5 + r.below(20)); });
    }
    Err ref = capture([&] { for (int i = 0; i <= 200; ++i) c->value(a + (b - a) * i / 200.); });
    if (ref.any && !e.any) sim::violation("wrong-error", "an operation on a curve that cannot be evaluated everywhere succeeded");
    if (!ref.any && e.any) sim::violation("wrong-error", "unexpected %s", e.str().c_str());
    if (e.any && e.type != ref.type) sim::violation("wrong-error", "got %s, the evaluation itself reports %s", e.str().c_str(), ref.str().c_str());
    if (e.any) sim::count("probe.failure_reported");
    cover_tag("search", form, fails);
}
// ---- memory exhausted inside the parallel region --------------------------
SIM_SCENARIO(memory_in_region, 5, true)
{
    auto r = sim::stream("in");
    Gates g(r, 0);
    auto crv = gen_curve<3>(r, (int)r.below(n_curve_kinds));
    auto srf = gen_surface(r, (int)r.below(n_surface_kinds));
    auto [a, b] = crv->bounds();
    auto [u1, u2, v1, v2] = srf->bounds();
    auto u = gen_params<double>(r, scaled(r, 1, 40), a, b);
    auto s = gen_params<double>(r, u.size(), u1, u2), t = gen_params<double>(r, u.size(), v1, v2);
    std::vector<pts<double, 2>> sets(1 + scaled(r, 0, 8));
    for (auto &x : sets) x = gen_walk<double, 2>(r, 4 + scaled(r, 0, 5));
    int form = (int)r.below(7);
    auto bs = gen_bs<double, 3>(r, gen_spec(r, 4, 20));
    // a user callback that needs memory for every element
    auto cb = [](const pt<double, 3> &x) { std::vector<double> t(x.begin(), x.end()); for (auto &y : t) y = 3 * y + 1; return pt<double, 3>{t[0], t[1], t[2]}; };
    pts<double, 3> got, want;
    std::vector<gbs::BSCurve<double, 2>> gotc, wantc;
    auto call = [&](pts<double, 3> &o, std::vector<gbs::BSCurve<double, 2>> &oc) {
        switch (form)
        {
        case 0: o = crv->values(u, 1); break;
        case 1: o = srf->values(s, t, 1, 0); break;
        case 2: oc = gbs::interpolate<double, 2>(sets, (size_t)3, gbs::KnotsCalcMode::CHORD_LENGTH); break;
        case 3: o = gbs::make_points(*crv, u); break;
        case 4: o = crv->d_dms(u); break;
        case 5: o = gbs::transformed(bs, cb).poles(); break;
        default: { auto f = gbs::abs_curv<double, 3, 6>(bs, bs.bounds()[0], bs.bounds()[1], 3 + u.size()); o.clear(); for (auto &q : f.basisCurve().poles()) o.push_back({q[0], 0, 0}); }
        }
    };
    sim::alloc_count_begin();
    call(want, wantc);
    auto w = sim::alloc_disarm();
    if (!w.seen) return;
    auto live = sim::live_blocks();
    {
        sim::alloc_arm(1 + r.below(w.seen), r.chance(0.3));
        Err e = capture([&] { call(got, gotc); });
        auto f = sim::alloc_disarm();
        if (e.any && !e.oom) sim::violation("wrong-error", "memory exhausted reported as %s", e.str().c_str());
        if (!e.any)
        {
            expect_same(got, want, "result in spite of exhausted memory");
            if (gotc.size() != wantc.size()) sim::violation("wrong-result", "incomplete batch in spite of exhausted memory");
            for (size_t i = 0; i < gotc.size(); ++i) if (!same_bits(gotc[i].poles(), wantc[i].poles())) sim::violation("wrong-result", "curve %zu wrong after exhausted memory", i);
        }
        if (f.failed) sim::count("probe.oom_in_bulk");
    }
    pts<double, 3>().swap(got);
    std::vector<gbs::BSCurve<double, 2>>().swap(gotc);
    if (sim::live_blocks() != live) sim::violation("leak", "%lld blocks leaked by a bulk call that ran out of memory", (long long)(sim::live_blocks() - live));
    call(got, gotc);
    expect_same(got, want, "repeat after exhausted memory");
    cover_tag("oom", form, u.size(), sets.size());
}
// ---- several callers, some of which fail -------------------------------------
SIM_SCENARIO(concurrent_failures, 2, false)
{
    auto r = sim::stream("in");
    Gates g(r, 0);
    auto crv = gen_curve<2>(r, (int)r.below(n_curve_kinds));
    auto [a, b] = crv->bounds();
    size_t T = (size_t)r.range(2, 4);
    std::vector<std::vector<double>> u(T);
    std::vector<Err> e(T), ref(T);
    std::vector<pts<double, 2>> got(T), want(T);
    for (size_t t = 0; t < T; ++t)
    {
        u[t] = gen_params<double>(r, scaled(r, 1, 30), a, b);
        spoil(r, u[t], a, b);
        ref[t] = capture([&] { for (double x : u[t]) want[t].push_back(crv->value(x)); });
    }
    sim::threads(T, [&](size_t t) { e[t] = capture([&] { got[t] = crv->values(u[t]); }); });
    for (size_t t = 0; t < T; ++t)
    {
        expect_err(e[t], ref[t], "concurrent caller");
        if (!ref[t].any) expect_same(got[t], want[t], "concurrent caller");
    }
    cover_tag("conc", T, u[0].size(), ref[0].any * 2 + ref[1].any);
}

// C06: analysis and search results do not depend on scheduling, and keep their promises.
#include "history.h"
#include "zoo.h"
#include "errs.h"
#include <gbs/extrema.h>
#include <gbs/bssanalysis.h>
using namespace h;

/// Runs f once in reference mode and `n` times under seeded schedules; the outcomes must be identical.
template <class F, class Same> static auto repeat(Rng &r, F &&f, Same &&same, const char *what)
{
    using R = std::decay_t<decltype(f())>;
    R ref{}; Err e0;
    { sim::Serial s; e0 = capture([&] { ref = f(); }); }
    int n = r.chance(0.3) ? 2 : 1;
    for (int i = 0; i < n; ++i)
    {
        R got{};
        auto e = capture([&] { got = f(); });
        if (!e.same(e0)) sim::violation("wrong-result", "%s: %s, but a sequential execution gives %s", what, e.str().c_str(), e0.str().c_str());
        if (!e.any && !same(got, ref)) sim::violation("wrong-result", "%s: the result depends on the schedule", what);
    }
    return std::pair{e0, ref};
}
static auto bits = [](const auto &a, const auto &b) { return same_bits(a, b); };
static bool same_bits_l(const std::list<double> &a, const std::list<double> &b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](double x, double y) { return same_bits(x, y); }); }

/// Independent arc length: composite Gauss on many pieces.
template <size_t D> static ld arc(const gbs::Curve<double, D> &c, double a, double b)
{
    static const ld x[5] = {0, 0.5384693101056831L, -0.5384693101056831L, 0.9061798459386640L, -0.9061798459386640L};
    static const ld w[5] = {0.5688888888888889L, 0.4786286704993665L, 0.4786286704993665L, 0.2369268850561891L, 0.2369268850561891L};
    ld s = 0;
    int n = 24;
    for (int i = 0; i < n; ++i)
    {
        ld lo = a + (b - a) * i / n, hi = a + (b - a) * (i + 1) / n;
        for (int k = 0; k < 5; ++k) s += w[k] * (hi - lo) / 2 * mag(c.value((double)((lo + hi) / 2 + x[k] * (hi - lo) / 2), 1));
    }
    return s;
}
template <size_t D> static CrvP<D> smooth_curve(Rng &r, const char **nm)
{
    static const int kinds[] = {0, 0, 1, 2, 3, 0, 6, 9};
    int k = kinds[r.below(8)];
    if (k <= 1 || k == 2 || k == 3)
    {
        auto s = gen_spec(r, 5, 6);
        if (s.p < 3) { s.p = 3; s.n += 2; }
        *nm = k == 1 ? "rational" : "bspline";
        CrvP<D> c;
        if (k == 1) c = std::make_shared<gbs::BSCurveRational<double, D>>(gen_bsr<double, D>(r, s, 1));
        else c = std::make_shared<gbs::BSCurve<double, D>>(gen_bs<double, D>(r, s, 1));
        if (k == 2) { *nm = "trimmed"; auto [a, b] = c->bounds(); return std::make_shared<gbs::CurveTrimmed<double, D>>(c, a + 0.2 * (b - a), b - 0.1 * (b - a)); }
        if (k == 3) { *nm = "reversed"; return std::make_shared<gbs::CurveReversed<double, D>>(c); }
        return c;
    }
    return gen_curve<D>(r, k, nm);
}
template <size_t D> static void arc_law_case(Rng &r)
{
    const char *nm;
    auto c = smooth_curve<D>(r, &nm);
    auto [a, b] = c->bounds();
    double u1 = a, u2 = b;
    bool part = r.chance(0.4);
    if (part) { u1 = a + (b - a) * r.real(0, 0.4); u2 = b - (b - a) * r.real(0, 0.4); }
    size_t n = (size_t)r.range(2, 4 + scaled(r, 0, 12)), p = (size_t)r.range(1, 3);
    auto [e, f] = repeat(r, [&] { return part ? gbs::abs_curv<double, D, 15>(*c, u1, u2, n, p) : gbs::abs_curv<double, D, 15>(*c, n, p); },
        [](const auto &x, const auto &y) { return same_bits(x.bounds()[0], y.bounds()[0]) && same_bits(x.bounds()[1], y.bounds()[1]) && same_bits(x.basisCurve().poles(), y.basisCurve().poles()) && same_bits(x.basisCurve().knotsFlats(), y.basisCurve().knotsFlats()); }, "arc length law");
    if (e.any) sim::violation("wrong-error", "arc length law: %s", e.str().c_str());
    // the law maps arc length to parameter: 0 at the start, every sample at its place, the end at the total length
    ld m = 0;
    double len = f.bounds()[1];
    if (!(std::fabs(f.bounds()[0]) <= 1e-12)) sim::violation("wrong-result", "arc length law starts at %g", f.bounds()[0]);
    std::vector<ld> ms{0};
    for (size_t i = 1; i < n; ++i) { double x = u1 + (u2 - u1) * (double)(i - 1) / (n - 1), y = u1 + (u2 - u1) * (double)i / (n - 1); m += arc(*c, x, std::min(y, u2)); ms.push_back(m); }
    if (!(std::fabs(len - m) <= 1e-2 * (1 + m))) sim::violation("wrong-result", "%s: length of the law %g, independent length %Lg", nm, len, m);
    for (size_t i = 0; i < n; ++i)
    {
        double want = u1 + (u2 - u1) * (double)i / (n - 1), at = std::min<double>((double)ms[i] * (len / (double)m), len);
        double got = f(at);
        if (!(std::fabs(got - want) <= 2e-2 * (u2 - u1))) sim::violation("wrong-result", "%s: arc length law gives %g at sample %zu of %zu, should be %g", nm, got, i, n, want);
    }
    observe(f.basisCurve().poles());
    cover_tag(nm, n, p, part);
}
SIM_SCENARIO(arc_length_law, 3, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    if (r.chance(0.5)) arc_law_case<2>(r); else arc_law_case<3>(r);
}
template <size_t D> static void adaptive_case(Rng &r)
{
    // a curve whose length quadrature is poor on coarse samples: needs insertions
    auto s = gen_spec(r, 5, 8);
    if (s.p < 4) { s.n += 4 - s.p; s.p = 4; } // smooth: the quadrature converges, so the refinement must end
    if (r.chance(0.3)) s.n += scaled(r, 0, 40);
    auto c = gen_bs<double, D>(r, s, 1);
    bool sharp = r.chance(0.6);
    if (sharp)
    {   // corners: the quadrature misses them by little, the sampling has to close in on them
        size_t p = 1 + (size_t)r.below(3), spans = 2 + (size_t)r.below(5);
        std::vector<double> inner(spans - 1), k(p + 1, 0.);
        for (auto &x : inner) x = r.real(0.02, 0.98);
        std::sort(inner.begin(), inner.end());
        for (auto x : inner) k.insert(k.end(), p, x);
        k.insert(k.end(), p + 1, 1.);
        gbs::points_vector<double, D> P(k.size() - p - 1);
        for (auto &x : P) for (auto &y : x) y = r.real(-1, 1);
        c = gbs::BSCurve<double, D>(P, k, p);
    }
    auto [u1, u2] = c.bounds();
    double tol = sharp ? std::pow(10., r.real(-5.9, -4.3)) : std::pow(10., r.real(-13, -4));
    size_t n = (size_t)r.range(2, 6);
    sim::step_budget(3000000000);
    using R = std::pair<std::vector<double>, std::vector<double>>;
    auto [e, um] = repeat(r, [&]() -> R { return gbs::abs_curv_adaptive_discretzation<double, D, 15>(c, u1, u2, n, 3, tol); },
        [](const R &x, const R &y) { return same_bits(x.first, y.first) && same_bits(x.second, y.second); }, "adaptive arc length sampling");
    if (e.any) sim::violation("wrong-error", "adaptive arc length law: %s", e.str().c_str());
    auto &[u, m] = um;
    if (u.size() != m.size() || u.size() < n) sim::violation("wrong-result", "adaptive sampling: %zu parameters, %zu lengths, at least %zu asked", u.size(), m.size(), n);
    if (u.size() > n) sim::count("probe.adaptive_insertion");
    if (!same_bits(u.front(), u1) || !(std::fabs(u.back() - u2) <= 1e-12 * (1 + std::fabs(u2)))) sim::violation("wrong-result", "adaptive sampling does not span the curve");
    if (m.front() != 0) sim::violation("wrong-result", "adaptive sampling does not start at length zero");
    for (size_t i = 1; i < u.size(); ++i)
    {
        if (!(u[i] > u[i - 1])) sim::violation("wrong-result", "adaptive sampling: parameter %zu does not increase", i);
        if (!(m[i] > m[i - 1])) sim::violation("wrong-result", "adaptive sampling: length %zu does not increase", i);
    }
    // each length is the length of its own interval
    for (size_t i = 1; i < u.size(); ++i)
    {
        double l = gbs::length<double, D, 15>(c, u[i - 1], u[i]);
        if (!(std::fabs(m[i] - m[i - 1] - l) <= 1e-9 * (1 + m[i]))) sim::violation("wrong-result", "adaptive sampling: interval %zu has length %g, the law says %g", i, l, m[i] - m[i - 1]);
    }
    // refined to the end: no interval is left whose two halves disagree with it
    for (size_t i = 1; i < u.size(); ++i)
    {
        double um = 0.5 * (u[i - 1] + u[i]);
        double l12 = gbs::length<double, D, 15>(c, u[i - 1], um), l23 = gbs::length<double, D, 15>(c, um, u[i]), l13 = gbs::length<double, D, 15>(c, u[i - 1], u[i]);
        if (std::fabs(l12 + l23 - l13) / l13 > tol * (1 + 1e-6) + 1e-14) sim::violation("wrong-result", "adaptive sampling: interval %zu of %zu is off by %g, allowed %g", i, u.size() - 1, std::fabs(l12 + l23 - l13) / l13, tol);
    }
    if (u.size() > 64) sim::count("probe.adaptive_many");
    cover_tag("adaptive", u.size(), n, s.p);
}
SIM_SCENARIO(adaptive_arc_length, 2, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    sim::step_budget(2000000000);
    if (r.chance(0.5)) adaptive_case<2>(r); else adaptive_case<3>(r);
}
template <size_t D> static void sampling_case(Rng &r)
{
    const char *nm;
    auto c = gen_curve<D>(r, (int)r.below(n_curve_kinds), &nm);
    auto [a, b] = c->bounds();
    size_t n = (size_t)r.range(2, 3 + scaled(r, 0, 20));
    int how = (int)r.below(4);
    auto pv = [](const auto &x, const auto &y) { return same_bits(x, y); };
    if (how == 0) // uniform by arc length
    {
        auto smooth = smooth_curve<D>(r, &nm);
        auto [sa, sb] = smooth->bounds();
        size_t nl = (size_t)r.range(6, 24);
        auto [e, l] = repeat(r, [&] { return gbs::uniform_distrib_params<double, D>(*smooth, n, nl); }, same_bits_l, "uniform parameters");
        if (e.any && e.what.find("refine n_law") != std::string::npos) { sim::count("probe.law_refused"); return; }
        if (e.any) sim::violation("wrong-error", "uniform parameters: %s", e.str().c_str());
        // the parameters are those the arc length law of the asked resolution gives
        {
            auto f = gbs::abs_curv<double, D, 10>(*smooth, sa, sb, nl);
            double tot = f.bounds()[1]; size_t i = 0;
            for (auto x : l) { if (i && i + 1 < n && !(std::fabs(x - f(tot * i / (n - 1.))) <= 1e-7 * (1 + sb - sa))) sim::violation("wrong-result", "%s: uniform parameter %zu of %zu is %.17g, the law of %zu samples gives %.17g", nm, i, n, x, nl, f(tot * i / (n - 1.))); ++i; }
        }
        if (l.size() != n) sim::violation("wrong-result", "%zu uniform parameters, %zu asked", l.size(), n);
        if (!same_bits(l.front(), sa) || !same_bits(l.back(), sb)) sim::violation("wrong-result", "uniform parameters do not span the curve");
        if (!std::is_sorted(l.begin(), l.end())) sim::violation("wrong-result", "uniform parameters are not in order");
        std::vector<double> u(l.begin(), l.end());
        auto [e2, p] = repeat(r, [&] { return gbs::make_points(*smooth, l); }, pv, "points at parameters");
        if (e2.any) sim::violation("wrong-result", "sampling inside the bounds failed: %s", e2.str().c_str());
        if (p.size() != n) sim::violation("wrong-result", "%zu points, %zu asked", p.size(), n);
        for (size_t i = 0; i < n; ++i) if (!same_bits(p[i], smooth->value(u[i]))) sim::violation("wrong-result", "%s: point %zu of %zu is not on the curve at its parameter", nm, i, n);
        // equal spacing along the arc
        ld tot = 0; std::vector<ld> seg;
        for (size_t i = 1; i < n; ++i) { seg.push_back(arc(*smooth, u[i - 1], u[i])); tot += seg.back(); }
        for (auto s : seg) if (!(std::fabs(s - tot / (n - 1)) <= 0.25 * tot / (n - 1) + 0.01 * tot)) { sim::count("probe.coarse_law"); break; }
        observe(p);
    }
    else if (how == 1) // arbitrary parameter list, containers and derivatives
    {
        auto u = gen_params<double>(r, scaled(r, 0, 40), a, b);
        size_t d = r.below(3);
        auto l = as<std::list>(u); auto q = as<std::deque>(u);
        auto [e, p] = repeat(r, [&] { return gbs::make_points(*c, u, d); }, pv, "points at parameters");
        auto p2 = gbs::make_points(*c, l, d), p3 = gbs::make_points(*c, q, d);
        if (e.any || p.size() != u.size()) sim::violation("wrong-result", "%zu points for %zu parameters", p.size(), u.size());
        for (size_t i = 0; i < u.size(); ++i)
        {
            auto w = c->value(u[i], d);
            if (!same_bits(p[i], w) || !same_bits(p2[i], w) || !same_bits(p3[i], w)) sim::violation("wrong-result", "%s: point %zu of %zu is not the curve at its parameter", nm, i, u.size());
        }
    }
    else // refined by deviation
    {
        double dev = r.real(0.02, 0.4);
        auto s = gen_spec(r, 4, 5);
        CrvP<D> bs = r.chance(0.5) ? CrvP<D>(std::make_shared<gbs::BSCurve<double, D>>(gen_bs<double, D>(r, s))) : CrvP<D>(std::make_shared<gbs::BSCurveRational<double, D>>(gen_bsr<double, D>(r, s)));
        auto &cc = how == 2 ? bs : c;
        using R = std::tuple<pts<double, D>, std::vector<double>>;
        size_t cap = r.chance(0.2) ? 3 : 2000;
        auto [e, t] = repeat(r, [&]() -> R { return gbs::discretize_with_params<double, D>(*cc, n, dev, cap); }, [](const R &x, const R &y) { return same_bits(std::get<0>(x), std::get<0>(y)) && same_bits(std::get<1>(x), std::get<1>(y)); }, "deviation sampling");
        if (e.any) sim::violation("wrong-error", "deviation sampling: %s", e.str().c_str());
        auto &[p, u] = t;
        if (p.size() != u.size() || u.size() < n) sim::violation("wrong-result", "deviation sampling: %zu points, %zu parameters, at least %zu asked", p.size(), u.size(), n);
        auto [ca, cb] = cc->bounds();
        if (!same_bits(u.front(), ca) || !(std::fabs(u.back() - cb) <= 1e-12 * (1 + std::fabs(cb)))) sim::violation("wrong-result", "deviation sampling does not span the curve");
        if (!std::is_sorted(u.begin(), u.end())) sim::violation("wrong-result", "deviation sampling: parameters are not in order");
        for (size_t i = 0; i < u.size(); ++i) if (!same_bits(p[i], cc->value(u[i]))) sim::violation("wrong-result", "%s: sample %zu of %zu is not on the curve at its parameter", nm, i, u.size());
        // unless capped, no interval left above the deviation
        if (cap > 1000)
            for (size_t i = 1; i < u.size(); ++i)
            {
                if (u[i] - u[i - 1] <= 1e-9) continue;
                auto x0 = cc->value(u[i - 1]), x1 = cc->value(0.5 * (u[i - 1] + u[i])), x2 = cc->value(u[i]);
                pt<double, D> v1, v2; for (size_t k = 0; k < D; ++k) { v1[k] = x1[k] - x0[k]; v2[k] = x2[k] - x0[k]; }
                ld n1 = mag(v1), n2 = mag(v2), dt = 0; for (size_t k = 0; k < D; ++k) dt += (ld)v1[k] * v2[k];
                ld sn = std::sqrt(std::max<ld>(0, n1 * n1 * n2 * n2 - dt * dt)) / (n1 * n2);
                if (sn > dev * (1 + 1e-6)) sim::violation("wrong-result", "deviation sampling: interval %zu of %zu deviates by %Lg, allowed %g", i, u.size(), sn, dev);
            }
        auto p2 = gbs::discretize<double, D>(*cc, n, dev, cap);
        if (!same_bits(p2, p)) sim::violation("wrong-result", "the two deviation samplings differ");
        observe(p);
    }
    cover_tag(nm, how, n);
}
SIM_SCENARIO(curve_sampling, 4, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    if (r.chance(0.5)) sampling_case<2>(r); else sampling_case<3>(r);
}
// The composite curves of the zoo jump between their pieces: not for searches.
static int continuous(Rng &r) { int k; do k = (int)r.below(n_curve_kinds); while (k == 4); return k; }
// ---- searches: never farther than the best candidate of the starting grid --
static const nlopt::algorithm algos[] = {nlopt::LN_COBYLA, nlopt::LN_COBYLA, nlopt::LN_COBYLA, nlopt::LN_BOBYQA, nlopt::LN_COBYLA, nlopt::LD_CCSAQ, nlopt::LD_TNEWTON_PRECOND, nlopt::LD_MMA};
/// What a solver may give up with; anything else means that it was led astray.
static void solver_gave_up(const Err &e, nlopt::algorithm al, const char *what)
{
    // NLopt's truncated Newton method leaves the box it is given, and what is thrown there reads "nlopt failure"
    bool newton = al == nlopt::LD_TNEWTON_PRECOND && e.type == typeid(std::runtime_error).name();
    if (newton || e.type == typeid(nlopt::roundoff_limited).name()) { sim::count("probe.search_error"); return; }
    sim::violation("wrong-error", "%s: %s", what, e.str().c_str());
}
/// The distance reported belongs to the places reported (searches report its square, which the repository's tests rely on).
static void measured(double d, ld true_d, const char *what)
{
    if (!(std::fabs(d - true_d) <= 1e-6 * (1 + true_d) || std::fabs(d - true_d * true_d) <= 1e-6 * (1 + true_d * true_d)))
        sim::violation("wrong-result", "%s: reports %g, the places found are %Lg apart", what, d, true_d);
}
/// A solver may end within rounding of a bound: pulled back inside; farther out is a violation.
static double inside(double x, double a, double b, const char *what)
{
    double tol = 1e-12 * (1 + std::fabs(a) + std::fabs(b));
    if (!(x >= a - tol && x <= b + tol)) sim::violation("wrong-result", "%s: parameter %.17g outside [%.17g,%.17g]", what, x, a, b);
    return std::min(std::max(x, a), b);
}
static void not_farther(ld got, ld best, ld scale, const char *what)
{
    if (!(got <= best + 1e-4 * (scale + 1e-3))) sim::violation("wrong-result", "%s: distance %Lg found, but a candidate at %Lg was examined", what, got, best);
}
template <size_t D> static void curve_point_case(Rng &r)
{
    const char *nm;
    auto c = gen_curve<D>(r, continuous(r), &nm);
    auto q = gen_points<double, D>(r, 1, 4)[0];
    auto [a, b] = c->bounds();
    if (r.chance(0.2)) q = c->value(r.real(a, b)); // on the curve
    size_t n = (size_t)r.range(2, 30);
    auto al = algos[r.below(std::size(algos))];
    auto [e, s] = repeat(r, [&] { return gbs::extrema_curve_point(*c, q, 1e-6, al, n); }, bits, "nearest point on curve");
    if (e.any) { solver_gave_up(e, al, "nearest point on curve"); return; }
    ld best = 1e300;
    for (size_t i = 0; i < n; ++i) best = std::min(best, dist(c->value(std::min(b, a + (b - a) * i / (n - 1.))), q));
    s[0] = inside(s[0], a, b, "nearest point on curve");
    not_farther(dist(c->value(s[0]), q), best, best, nm);
    measured(s[1], dist(c->value(s[0]), q), nm);
    cover_tag(nm, 100, n, (sim::u64)al);
}
static void surf_point_case(Rng &r)
{
    const char *nm;
    auto f = gen_surface(r, (int)r.below(n_surface_kinds), &nm);
    auto [u1, u2, v1, v2] = f->bounds();
    auto q = gen_points<double, 3>(r, 1, 4)[0];
    size_t n = (size_t)r.range(2, 9), m = (size_t)r.range(2, 9);
    auto al = algos[r.below(std::size(algos))];
    auto [e, s] = repeat(r, [&] { return gbs::extrema_surf_pnt(*f, q, 1e-6, al, n, m); }, bits, "nearest point on surface");
    if (e.any) { solver_gave_up(e, al, "nearest point on surface"); return; }
    ld best = 1e300;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) best = std::min(best, dist(f->value(std::min(u2, u1 + (u2 - u1) * i / (n - 1.)), std::min(v2, v1 + (v2 - v1) * j / (m - 1.))), q));
    s[0] = inside(s[0], u1, u2, "nearest point on surface"); s[1] = inside(s[1], v1, v2, "nearest point on surface");
    not_farther(dist(f->value(s[0], s[1]), q), best, best, nm);
    measured(s[2], dist(f->value(s[0], s[1]), q), nm);
    cover_tag(nm, 200, n, m);
}
static void curve_curve_case(Rng &r)
{
    const char *n1, *n2;
    auto c1 = gen_curve<2>(r, continuous(r), &n1), c2 = gen_curve<2>(r, continuous(r), &n2);
    auto [a, b] = c1->bounds(); auto [x, y] = c2->bounds();
    size_t n = (size_t)r.range(2, 12), m = (size_t)r.range(2, 12);
    auto al = algos[r.below(std::size(algos))];
    auto [e, s] = repeat(r, [&] { return gbs::extrema_curve_curve<double, 2>(*c1, *c2, 1e-6, al, n, m); }, bits, "nearest points of two curves");
    if (e.any) { solver_gave_up(e, al, "nearest points of two curves"); return; }
    ld best = 1e300;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) best = std::min(best, dist(c1->value(std::min(b, a + (b - a) * i / (n - 1.))), c2->value(std::min(y, x + (y - x) * j / (m - 1.)))));
    s[0] = inside(s[0], a, b, "first curve"); s[1] = inside(s[1], x, y, "second curve");
    not_farther(dist(c1->value(s[0]), c2->value(s[1])), best, best, "two curves");
    measured(s[2], dist(c1->value(s[0]), c2->value(s[1])), "two curves");
    // list search: one answer per curve, in order
    size_t k = (size_t)r.range(0, 4);
    std::vector<CrvP<2>> l(k);
    for (auto &p : l) p = gen_curve<2>(r, continuous(r));
    using R = std::vector<std::array<double, 3>>;
    auto [e2, sl] = repeat(r, [&]() -> R { return gbs::extrema_curve_curve_lst<double, 2>(*c1, l.begin(), l.end(), 1e-6); }, bits, "nearest points to a list of curves");
    if (e2.any) sim::violation("wrong-error", "nearest points to a list of curves: %s", e2.str().c_str());
    if (sl.size() != k) sim::violation("wrong-result", "%zu answers for %zu curves", sl.size(), k);
    for (size_t i = 0; i < k; ++i) if (!same_bits(sl[i], gbs::extrema_curve_curve<double, 2>(*c1, *l[i], 1e-6))) sim::violation("wrong-result", "answer %zu of %zu is not the answer for its curve", i, k);
    cover_tag(n1, 300 + k, n, m);
}
static void surf_curve_case(Rng &r)
{
    const char *nm, *cn;
    auto f = gen_surface(r, (int)r.below(n_surface_kinds), &nm);
    auto c = gen_curve<3>(r, continuous(r), &cn);
    auto [u1, u2, v1, v2] = f->bounds(); auto [a, b] = c->bounds();
    size_t n = (size_t)r.range(2, 5), m = (size_t)r.range(2, 5), k = (size_t)r.range(2, 5);
    auto al = algos[r.below(std::size(algos))];
    auto [e, s] = repeat(r, [&] { return gbs::extrema_surf_curve(*f, *c, 1e-6, al, n, m, k); }, bits, "nearest points of surface and curve");
    if (e.any) { solver_gave_up(e, al, "nearest points of surface and curve"); return; }
    ld best = 1e300;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) for (size_t l = 0; l < k; ++l)
        best = std::min(best, dist(f->value(std::min(u2, u1 + (u2 - u1) * i / (n - 1.)), std::min(v2, v1 + (v2 - v1) * j / (m - 1.))), c->value(std::min(b, a + (b - a) * l / (k - 1.)))));
    s[0] = inside(s[0], u1, u2, "surface"); s[1] = inside(s[1], v1, v2, "surface"); s[2] = inside(s[2], a, b, "curve");
    not_farther(dist(f->value(s[0], s[1]), c->value(s[2])), best, best, "surface and curve");
    measured(s[3], dist(f->value(s[0], s[1]), c->value(s[2])), "surface and curve");
    cover_tag(nm, 400 + n, m, k);
}
SIM_SCENARIO(nearest_searches, 5, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    switch (r.below(5))
    {
    case 0: curve_point_case<2>(r); break;
    case 1: curve_point_case<3>(r); break;
    case 2: surf_point_case(r); break;
    case 3: curve_curve_case(r); break;
    default: surf_curve_case(r);
    }
}
// tangents for point sets are built in parallel
SIM_SCENARIO(point_tangents, 2, false)
{
    auto r = sim::stream("in");
    size_t n = 3 + scaled(r, 0, 30);
    auto p = gen_walk<double, 3>(r, n);
    std::vector<double> u(n);
    u[0] = r.real(-1, 1);
    for (size_t i = 1; i < n; ++i) u[i] = u[i - 1] + r.real(0.2, 1.);
    auto p0 = p; auto u0 = u;
    auto [e, t] = repeat(r, [&] { return gbs::build_3pt_tg_vec(p, u); }, bits, "tangents");
    auto [e2, d] = repeat(r, [&] { return gbs::build_3pt_tg_dir(p, u); }, bits, "tangent directions");
    if (e.any || e2.any) sim::violation("wrong-result", "tangents: %s", (e.any ? e : e2).str().c_str());
    if (t.size() != n || d.size() != n) sim::violation("wrong-result", "tangents: %zu for %zu points", t.size(), n);
    for (size_t i = 1; i + 1 < n; ++i) // Bessel: blend of the two chord slopes
    {
        double d1 = u[i] - u[i - 1], d2 = u[i + 1] - u[i], al = d1 / (d1 + d2);
        std::array<ld, 3> w;
        for (int c = 0; c < 3; ++c) w[c] = (1 - al) * (p[i][c] - p[i - 1][c]) / d1 + al * (p[i + 1][c] - p[i][c]) / d2;
        if (!(dist(t[i], w) <= 1e-10 * (1 + mag(w)))) sim::violation("wrong-result", "tangent %zu of %zu is not the blend of its own neighbours", i, n);
    }
    if (!same_bits(p, p0) || !same_bits(u, u0)) sim::violation("wrong-result", "the inputs were modified");
    cover_tag("tg", n);
}
// Several callers analysing the same curve at once get their lone answers.
SIM_SCENARIO(concurrent_analyses, 2, false)
{
    auto r = sim::stream("in");
    Gates g(r, 0);
    const char *nm;
    auto c = smooth_curve<3>(r, &nm);
    auto f = gen_surface(r, (int)r.below(n_surface_kinds));
    size_t T = (size_t)r.range(2, 3);
    struct Res { pts<double, 3> p; std::array<double, 2> e{}; std::array<double, 3> s{}; Err err; };
    std::vector<Res> want(T), got(T);
    auto q = gen_points<double, 3>(r, T, 4);
    std::vector<int> kind(T); for (auto &k : kind) k = (int)r.below(3);
    auto work = [&](size_t t, Res &o) {
        o.err = capture([&] {
            if (kind[t] == 0) o.p = gbs::discretize<double, 3>(*c, 5 + t);
            else if (kind[t] == 1) o.e = gbs::extrema_curve_point(*c, q[t], 1e-6, nlopt::LN_COBYLA, 8);
            else o.s = gbs::extrema_surf_pnt(*f, q[t], 1e-6, nlopt::LN_COBYLA, 4, 4);
        });
    };
    { sim::Serial s; for (size_t t = 0; t < T; ++t) work(t, want[t]); }
    sim::threads(T, [&](size_t t) { work(t, got[t]); });
    for (size_t t = 0; t < T; ++t)
        if (!got[t].err.same(want[t].err) || !same_bits(got[t].p, want[t].p) || !same_bits(got[t].e, want[t].e) || !same_bits(got[t].s, want[t].s))
            sim::violation("wrong-result", "caller %zu obtained another answer than alone", t);
    cover_tag("conc", T, kind[0], kind[1]);
}
// ---- calls do not influence later calls ---------------------------------------
SIM_SCENARIO(call_history, 1.5, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    sim::step_budget(3000000000);
    call_history(r, {{2, 1}, {2, 3}, {2, 4}, {2, 5}, {2, 6}, {2, 7}, {2, 8}, {2, 9}, {2, 25}, {2, 26}, {2, 30}, {2, 31}, {2, 34}, {2, 42}, {2, 45}, {2, 47}, {3, 42}, {3, 45}, {3, 47}, {4, 33}, {3, 1}, {3, 3}, {3, 4}, {3, 5}, {3, 6}, {3, 7}, {3, 8}, {3, 9}, {3, 25}, {3, 26}, {3, 30}, {3, 31}, {3, 34}, {4, 1}, {4, 2}, {4, 4}, {4, 5}, {4, 19}, {4, 22}});
}

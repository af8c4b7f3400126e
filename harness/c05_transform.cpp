// C05: transforms and pole conversions apply their operation exactly once to every element.
#include "zoo.h"
#include <gbs/transform.h>
#include <gbs/bsctools.h>
#include <gbs/bsstools.h>
#include <gbs/polestools.h>
#include <atomic>
using namespace h;

template <size_t D> using lpt = std::array<ld, D>;
template <size_t D> static lpt<D> tol_pt(const pt<double, D> &p) { lpt<D> q; for (size_t i = 0; i < D; ++i) q[i] = p[i]; return q; }
template <size_t D> static void near_(const pt<double, D> &got, const lpt<D> &want, ld scale, const char *what, size_t i)
{
    if (!(dist(got, want) <= 1e-11 * (1 + scale + mag(want)))) sim::violation("wrong-result", "%s: point %zu is not the transformed point (off by %Lg)", what, i, dist(got, want));
}
/// Control points in model space with their weights (1 when not rational).
template <size_t D, class G> static void model(const G &g, std::vector<lpt<D>> &m, std::vector<ld> &w)
{
    m.clear(); w.clear();
    for (auto &p : g.poles())
    {
        lpt<D> q;
        ld wt = 1;
        if constexpr (std::tuple_size_v<std::decay_t<decltype(p)>> == D + 1) wt = p[D];
        for (size_t i = 0; i < D; ++i) q[i] = (ld)p[i] / wt;
        m.push_back(q); w.push_back(wt);
    }
}
template <size_t D> struct Op { int kind; double a; pt<double, D> v, c; pt<double, 3> ax; size_t coord; };
template <size_t D> static Op<D> gen_op(Rng &r)
{
    Op<D> o{};
    o.kind = (int)r.below(4);
    o.a = r.real(-3, 3);
    for (auto &x : o.v) x = r.real(-5, 5);
    if (r.chance(0.5)) for (auto &x : o.c) x = r.real(-5, 5);
    o.ax = {r.real(-1, 1), r.real(-1, 1), r.real(0.2, 1)};
    o.coord = r.below(D);
    if (r.chance(0.5))
    {   // arguments users write, which repeat from call to call in part
        static const double angles[] = {std::acos(-1.) / 2, std::acos(-1.) / 4, -std::acos(-1.) / 2, 0.5, 2};
        o.a = angles[r.below(5)];
        do for (auto &x : o.ax) x = (double)r.range(-1, 1); while (o.ax[0] == 0 && o.ax[1] == 0 && o.ax[2] == 0);
        for (auto &x : o.v) x = (double)r.range(-1, 1);
    }
    return o;
}
template <size_t D> static lpt<D> apply_op(const Op<D> &o, lpt<D> x)
{
    switch (o.kind)
    {
    case 0: for (size_t i = 0; i < D; ++i) x[i] += o.v[i]; break;
    case 1:
    {
        ld c = std::cos((ld)o.a), s = std::sin((ld)o.a);
        if constexpr (D == 2) { auto t = x[0]; x[0] = t * c - x[1] * s; x[1] = t * s + x[1] * c; }
        else if constexpr (D == 3)
        {
            ld n = std::sqrt((ld)o.ax[0] * o.ax[0] + (ld)o.ax[1] * o.ax[1] + (ld)o.ax[2] * o.ax[2]);
            lpt<3> k{o.ax[0] / n, o.ax[1] / n, o.ax[2] / n};
            ld d = k[0] * x[0] + k[1] * x[1] + k[2] * x[2];
            lpt<3> cr{k[1] * x[2] - k[2] * x[1], k[2] * x[0] - k[0] * x[2], k[0] * x[1] - k[1] * x[0]};
            for (size_t i = 0; i < 3; ++i) x[i] = x[i] * c + cr[i] * s + k[i] * d * (1 - c);
        }
        break;
    }
    case 2: for (size_t i = 0; i < D; ++i) x[i] = (x[i] - o.c[i]) * o.a + o.c[i]; break;
    case 3: x[o.coord] = (x[o.coord] - o.c[o.coord]) * o.a + o.c[o.coord]; break;
    }
    return x;
}
template <size_t D, class G> static void run_op(const Op<D> &o, G &g, bool curve)
{
    switch (o.kind)
    {
    case 0: if constexpr (requires { g.degree(); }) gbs::translate(g, o.v); else gbs::transform(g, [&](const auto &x) { return gbs::translated(x, o.v); }); break;
    case 1: if constexpr (D == 2) gbs::rotate(g, o.a); else gbs::rotate(g, o.a, o.ax); break;
    case 2: gbs::scale(g, o.a, o.c); break;
    case 3: if constexpr (requires { g.degree(); }) gbs::scale(g, o.a, o.coord, o.c); else gbs::transform(g, [&](const auto &x) { return gbs::scaled(x, o.a, o.coord, o.c); }); break;
    }
}
template <size_t D, class G> static void history_case(Rng &r, G g, const char *what)
{
    std::vector<lpt<D>> m, m2;
    std::vector<ld> w, w2;
    model<D>(g, m, w);
    auto knots = [&] { std::vector<double> k; if constexpr (requires { g.degree(); }) k = g.knotsFlats(); else { k = g.knotsFlatsU(); auto v = g.knotsFlatsV(); k.insert(k.end(), v.begin(), v.end()); } return k; };
    auto k0 = knots();
    auto b0 = g.bounds();
    int n = (int)scaled(r, 1, 5);
    ld scale = 0;
    for (auto &x : m) scale = std::max(scale, mag(x));
    for (int i = 0; i < n; ++i)
    {
        auto ro = r.fork((sim::u64)i);
        auto o = gen_op<D>(ro);
        if (!sim::op_on(i)) continue;
        if (ro.chance(0.3)) // copying variant: the source must not move
        {
            auto src = g.poles();
            auto t = gbs::transformed(g, [&](const auto &x) { auto y = x; if (o.kind == 0) y = gbs::translated(x, o.v); else y = gbs::scaled(x, o.a, o.c); return y; });
            if (!same_bits(src, g.poles())) sim::violation("wrong-result", "%s: the source of a copying transform moved", what);
            auto o2 = o; if (o2.kind != 0) o2.kind = 2;
            model<D>(t, m2, w2);
            if (m2.size() != m.size()) sim::violation("wrong-result", "%s: pole count changed", what);
            for (size_t j = 0; j < m.size(); ++j) { pt<double, D> q; for (size_t c = 0; c < D; ++c) q[c] = (double)m2[j][c]; near_<D>(q, apply_op(o2, m[j]), scale + mag(o.v) + mag(o.c) * 4, what, j); }
            continue;
        }
        run_op<D>(o, g, true);
        for (auto &x : m) { x = apply_op(o, x); scale = std::max(scale, mag(x)); }
        scale += mag(o.v) + mag(o.c) * 4;
        model<D>(g, m2, w2);
        if (m2.size() != m.size()) sim::violation("wrong-result", "%s: %zu poles became %zu", what, m.size(), m2.size());
        for (size_t j = 0; j < m.size(); ++j)
        {
            pt<double, D> q;
            for (size_t c = 0; c < D; ++c) q[c] = (double)m2[j][c];
            near_<D>(q, m[j], scale, what, j);
            if (!(std::fabs(w2[j] - w[j]) <= 1e-12 * w[j])) sim::violation("wrong-result", "%s: weight %zu changed", what, j);
        }
        if (!same_bits(knots(), k0)) sim::violation("wrong-result", "%s: knots changed", what);
        for (size_t j = 0; j < b0.size(); ++j) if (!same_bits(b0[j], g.bounds()[j])) sim::violation("wrong-result", "%s: bounds changed", what);
    }
    observe(g.poles());
    cover_tag(what, m.size(), n);
}
SIM_SCENARIO(transform_histories, 4, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    auto s = gen_spec(r, 4, r.chance(0.15) ? 300 : 14), t = gen_spec(r, 3, 6);
    switch (r.below(6))
    {
    case 0: history_case<2>(r, gen_bs<double, 2>(r, s), "curve 2d"); break;
    case 1: history_case<3>(r, gen_bs<double, 3>(r, s), "curve 3d"); break;
    case 2: history_case<2>(r, gen_bsr<double, 2>(r, s), "rational curve 2d"); break;
    case 3: history_case<3>(r, gen_bsr<double, 3>(r, s), "rational curve 3d"); break;
    case 4: history_case<3>(r, gen_srf<double, 3>(r, s, t), "surface"); break;
    default: history_case<3>(r, gen_srfr<double, 3>(r, s, t), "rational surface");
    }
}
// Exactly once: a callback that counts how often it sees each pole.
template <size_t D, class G> static void once_case(Rng &r, G g, const char *what)
{
    // tag every pole with its index in the first coordinate
    auto poles = g.poles();
    size_t n = poles.size();
    constexpr bool rat = std::tuple_size_v<typename std::decay_t<decltype(poles)>::value_type> == D + 1;
    for (size_t i = 0; i < n; ++i)
    {
        double w = 1;
        if constexpr (rat) w = poles[i][D] = 1 << r.below(3);
        poles[i][0] = (double)i * w;
    }
    g.copyPoles(poles);
    std::vector<std::atomic<int>> seen(n);
    gbs::transform(g, [&](const pt<double, D> &x) { seen.at((size_t)x[0])++; auto y = x; y[0] = 2 * x[0] + 1; return y; });
    for (size_t i = 0; i < n; ++i)
    {
        if (seen[i] != 1) sim::violation("wrong-result", "%s: pole %zu of %zu was visited %d times", what, i, n, (int)seen[i]);
        double w = 1;
        if constexpr (rat) w = g.poles()[i][D];
        if (g.poles()[i][0] != (2. * i + 1) * w) sim::violation("wrong-result", "%s: pole %zu does not hold its own result", what, i);
    }
    cover_tag(what, n, 77);
}
SIM_SCENARIO(exactly_once, 3, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    auto s = gen_spec(r, 4, r.chance(0.15) ? 300 : 14), t = gen_spec(r, 3, 6);
    switch (r.below(5))
    {
    case 0: once_case<2>(r, gen_bs<double, 2>(r, s), "curve 2d"); break;
    case 1: once_case<3>(r, gen_bs<double, 3>(r, s), "curve 3d"); break;
    case 2: once_case<3>(r, gen_bsr<double, 3>(r, s), "rational curve 3d"); break;
    case 3: once_case<3>(r, gen_srf<double, 3>(r, s, t), "surface"); break;
    default: once_case<3>(r, gen_srfr<double, 3>(r, s, t), "rational surface");
    }
}
// Rational / non-rational conversions.
template <size_t D> static void weights_case(Rng &r)
{
    Gates g(r);
    size_t n = scaled(r, 0, r.chance(0.1) ? 400 : 40);
    auto poles = gen_points<double, D>(r, n);
    std::vector<double> w(n);
    for (auto &x : w) x = r.chance(0.2) ? 1. : r.real(0.2, 4);
    auto p0 = poles;
    auto w0 = w;
    pts<double, D + 1> want(n);
    for (size_t i = 0; i < n; ++i) { for (size_t c = 0; c < D; ++c) want[i][c] = poles[i][c] * w[i]; want[i][D] = w[i]; }
    auto close = [&](const pts<double, D + 1> &a, const pts<double, D + 1> &b, const char *what) {
        if (a.size() != b.size()) sim::violation("wrong-result", "%s: %zu poles for %zu", what, a.size(), b.size());
        for (size_t i = 0; i < a.size(); ++i) if (!(dist(a[i], b[i]) <= 1e-14 * mag(b[i]))) sim::violation("wrong-result", "%s: pole %zu of %zu is wrong", what, i, a.size());
    };
    close(gbs::merge_weights(poles, w), want, "merging weights");
    auto pw = gbs::add_weights_coord(poles, w);
    close(pw, want, "adding weights");
    pts<double, D> q(r.below(3));
    std::vector<double> wq(r.below(3), 7.);
    gbs::separate_weights(pw, q, wq);
    if (q.size() != n || wq.size() != n) sim::violation("wrong-result", "separating weights: %zu poles and %zu weights for %zu", q.size(), wq.size(), n);
    for (size_t i = 0; i < n; ++i)
    {
        if (!(dist(q[i], poles[i]) <= 1e-14 * (mag(poles[i]) + 1e-300))) sim::violation("wrong-result", "separating weights: pole %zu of %zu is wrong", i, n);
        if (!same_bits(wq[i], w[i])) sim::violation("wrong-result", "separating weights: weight %zu of %zu is wrong", i, n);
    }
    auto one = gbs::add_weights_coord(poles);
    for (size_t i = 0; i < n; ++i) { for (size_t c = 0; c < D; ++c) want[i][c] = poles[i][c]; want[i][D] = 1; }
    close(one, want, "unit weights");
    double sc = r.real(-3, 3);
    auto scd = gbs::scaled_poles(pw, sc);
    auto inplace = pw;
    gbs::scale_poles(inplace, sc);
    if (!same_bits(scd, inplace)) sim::violation("wrong-result", "in-place and copying scaling differ");
    for (size_t i = 0; i < n; ++i)
        for (size_t c = 0; c <= D; ++c) if (scd[i][c] != pw[i][c] * sc) sim::violation("wrong-result", "scaling: pole %zu of %zu is wrong", i, n);
    if (n)
    {
        double mean = r.real(0.5, 3);
        auto sw = gbs::scaled_weights(pw, mean);
        ld acc = 0;
        for (auto &x : sw) acc += x[D];
        if (!(std::fabs(acc / n - mean) <= 1e-10 * mean)) sim::violation("wrong-result", "mean weight is %Lg, asked for %g", acc / n, mean);
        for (size_t i = 0; i < n; ++i)
            for (size_t c = 0; c < D; ++c) if (!(std::fabs(sw[i][c] / sw[i][D] - poles[i][c]) <= 1e-12 * (1 + std::fabs(poles[i][c])))) sim::violation("wrong-result", "normalising weights moved pole %zu", i);
    }
    if (!same_bits(poles, p0) || !same_bits(w, w0)) sim::violation("wrong-result", "the inputs were modified");
    cover_tag("weights", n, D);
}
SIM_SCENARIO(weight_conversions, 3, false)
{
    auto r = sim::stream("in");
    if (r.chance(0.3)) weights_case<1>(r); else if (r.chance(0.5)) weights_case<2>(r); else weights_case<3>(r);
}
SIM_SCENARIO(rational_twins, 2, false)
{
    // a rational object built from a non-rational one is the same geometry
    auto r = sim::stream("in");
    Gates g(r);
    auto s = gen_spec(r, 4, 20), t = gen_spec(r, 3, 5);
    auto c = gen_bs<double, 3>(r, s);
    gbs::BSCurveRational<double, 3> cr(c);
    for (int i = 0; i <= 6; ++i)
    {
        double u = c.bounds()[0] + (c.bounds()[1] - c.bounds()[0]) * i / 6.;
        if (!(dist(c.value(u), cr.value(u)) <= 1e-11 * (1 + mag(c.value(u))))) sim::violation("wrong-result", "the rational copy of a curve is another curve at %g", u);
    }
    auto rr = gen_bsr<double, 2>(r, s);
    double w0 = r.real(-2, 2);
    auto up = gbs::add_dimension(rr, w0);
    auto up2 = gbs::add_dimension(c, w0);
    if (up.degree() != rr.degree() || !same_bits(up.knotsFlats(), rr.knotsFlats()) || up2.degree() != c.degree() || !same_bits(up2.knotsFlats(), c.knotsFlats()))
        sim::violation("wrong-result", "adding a dimension changed degree or knots");
    for (int i = 0; i <= 6; ++i)
    {
        double u = rr.bounds()[0] + (rr.bounds()[1] - rr.bounds()[0]) * i / 6.;
        auto a = rr.value(u); auto b = up.value(u);
        if (!(dist(pt<double, 3>{a[0], a[1], w0}, b) <= 1e-11 * (1 + mag(a) + std::fabs(w0)))) sim::violation("wrong-result", "adding a dimension to a rational curve moved it at %g", u);
        auto e = c.value(u); auto f = up2.value(u);
        if (!(dist(pt<double, 4>{e[0], e[1], e[2], w0}, f) <= 1e-11 * (1 + mag(e)))) sim::violation("wrong-result", "adding a dimension moved the curve at %g", u);
    }
    auto sf = gen_srf<double, 2>(r, s, t);
    auto k = gen_srfr<double, 2>(r, s, t);
    auto su = gbs::add_dimension(sf, w0);
    auto ku = gbs::add_dimension(k, w0);
    for (int i = 0; i <= 4; ++i)
    {
        double u = s.a + (s.b - s.a) * i / 4., v = t.a + (t.b - t.a) * ((i * 3) % 5) / 4.;
        auto a = sf.value(u, v), b = k.value(u, v);
        if (!(dist(pt<double, 3>{a[0], a[1], w0}, su.value(u, v)) <= 1e-10 * (1 + mag(a)))) sim::violation("wrong-result", "adding a dimension moved the surface");
        if (!(dist(pt<double, 3>{b[0], b[1], w0}, ku.value(u, v)) <= 1e-10 * (1 + mag(b)))) sim::violation("wrong-result", "adding a dimension moved the rational surface");
    }
    cover_tag("twins", s.n, t.n);
}
SIM_SCENARIO(concurrent_transforms, 2, false)
{
    auto r = sim::stream("in");
    Gates g(r, 0);
    auto s = gen_spec(r, 3, 10);
    auto src = gen_bsr<double, 3>(r, s);
    size_t T = (size_t)r.range(2, 4);
    std::vector<gbs::BSCurveRational<double, 3>> got(T, src), want(T, src);
    std::vector<Op<3>> op(T);
    for (size_t t = 0; t < T; ++t) { op[t] = gen_op<3>(r); sim::Serial ser; auto x = src; run_op<3>(op[t], x, true); want[t] = x; }
    sim::threads(T, [&](size_t t) { auto x = src; run_op<3>(op[t], x, true); got[t] = x; });
    for (size_t t = 0; t < T; ++t) if (!same_bits(got[t].poles(), want[t].poles())) sim::violation("wrong-result", "caller %zu obtained another transform than alone", t);
    cover_tag("conc", T, s.n);
}

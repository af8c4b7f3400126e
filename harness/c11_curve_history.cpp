// C11: histories of curve edits against an ideal curve (reference model in long double),
// with failing operations (exhausted memory, rejected arguments) in between.
#include "edits.h"
#include <gbs/bscinterp.h>
#include <gbs/bscshaping.h>

namespace
{
    using namespace h;

    template <class C> struct Model
    {
        using E = CurveEdit<C>;
        using T = typename E::T;
        static constexpr size_t K = E::K, D = E::D;
        size_t p = 0;
        std::vector<T> k;
        pts<T, K> P;
        ld s = 1, o = 0; // base parameter = s*u + o
        ld lo = 0, hi = 1;
        ld slack = 0;    // geometric tolerance granted by knot removals
        ld scale = 1;
        void freeze(const C &c)
        {
            p = c.degree(); k = c.knotsFlats(); P = c.poles();
            s = 1; o = 0;
            lo = c.bounds()[0]; hi = c.bounds()[1];
            slack = 0;
            scale = 0;
            for (auto &q : P) for (size_t d = 0; d < D; ++d) scale = std::max<ld>(scale, std::abs((ld)q[d]) / (E::R ? (ld)q[D] : 1.L));
        }
        /// value and first two derivatives of the ideal curve at u
        std::array<std::array<ld, D>, 3> eval(ld u) const
        {
            std::array<std::array<ld, K>, 3> A;
            ld f = 1;
            for (size_t d = 0; d < 3; ++d, f *= s)
            {
                A[d] = ref_eval<T, K>(P, k, p, s * u + o, d);
                for (auto &x : A[d]) x *= f;
            }
            std::array<std::array<ld, D>, 3> R{};
            if constexpr (!E::R) { for (size_t d = 0; d < 3; ++d) for (size_t i = 0; i < D; ++i) R[d][i] = A[d][i]; }
            else
            {
                ld w = A[0][D], w1 = A[1][D], w2 = A[2][D];
                for (size_t i = 0; i < D; ++i)
                {
                    R[0][i] = A[0][i] / w;
                    R[1][i] = (A[1][i] - w1 * R[0][i]) / w;
                    R[2][i] = (A[2][i] - 2 * w1 * R[1][i] - w2 * R[0][i]) / w;
                }
            }
            return R;
        }
    };

    template <class C> void consistent(const C &c, const Model<C> &m, bool soft, const char *op)
    {
        using T = typename Model<C>::T;
        const auto &k = c.knotsFlats();
        size_t n = c.poles().size(), p = c.degree();
        if (k.size() != n + p + 1)
            sim::violation("inconsistent", "after %s: %zu poles, %zu knots, degree %zu", op, n, k.size(), p);
        for (size_t i = 1; i < k.size(); ++i)
            if (!(k[i] >= k[i - 1])) sim::violation("inconsistent", "after %s: knots decrease at %zu", op, i);
        auto b = c.bounds();
        ld e = 1e-12L * (1 + std::abs(m.lo) + std::abs(m.hi));
        if (sizeof(T) == 4) e = 1e-5L * (1 + std::abs(m.lo) + std::abs(m.hi));
        if (std::abs((ld)b[0] - m.lo) > e || std::abs((ld)b[1] - m.hi) > e)
            sim::violation("inconsistent", "after %s: bounds [%.17g,%.17g], the ideal curve has [%.17Lg,%.17Lg]", op, (double)b[0], (double)b[1], m.lo, m.hi);
        if (!soft && (k.front() != b[0] || k.back() != b[1]))
            sim::violation("inconsistent", "after %s: bounds [%.17g,%.17g] but knots span [%.17g,%.17g]", op, (double)b[0], (double)b[1], (double)k.front(), (double)k.back());
        for (size_t i = 0; i <= p; ++i)
            if (k[i] != k[0] || k[k.size() - 1 - i] != k.back()) sim::violation("inconsistent", "after %s: end knot multiplicity below %zu", op, p + 1);
        auto ks = c.knots();
        auto ms = c.mults();
        size_t sum = 0;
        for (auto x : ms) sum += x;
        if (ks.size() != ms.size() || sum != k.size()) sim::violation("inconsistent", "after %s: knots()/mults() do not describe the flat knots", op);
        if (!gbs::check_curve(c)) sim::violation("inconsistent", "after %s: check_curve refuses the curve", op);
    }
    template <class C> void follows(Rng &r, const C &c, const Model<C> &m, const std::string &op)
    {
        using T = typename Model<C>::T;
        auto [a, b] = c.bounds();
        ld span = (ld)b - a;
        ld unit = sizeof(T) == 4 ? 2e-4L : 1e-9L;
        auto D = Model<C>::D;
        for (int t = 0; t < 10; ++t)
        {
            T u;
            size_t top = 0;
            if (t == 0) u = a;
            else if (t == 1) u = b;
            else if (t == 2 && !c.knotsFlats().empty())
            {
                u = c.knotsFlats()[r.below(c.knotsFlats().size())];
                if (u < a || u > b) u = a;
            }
            else { u = (T)(a + span * (ld)r.uniform()); top = 2; }
            if (top)
            {
                // derivatives may jump at a knot: keep away from it
                for (auto x : c.knotsFlats()) if (std::abs((ld)x - u) < span * 1e-6L) top = 0;
                for (auto x : m.k) if (std::abs((ld)x - (m.s * u + m.o)) < span * std::abs(m.s) * 1e-6L) top = 0;
            }
            auto want = m.eval(u);
            ld sp = 1;
            for (size_t d = 0; d <= top; ++d)
            {
                auto got = c.value(u, d);
                ld tol = (unit * (1 + m.scale) + m.slack) * sp;
                ld dd = dist(got, want[d]);
                if (!(dd <= tol))
                    sim::violation("wrong-geometry", "after %s: derivative %zu at u=%.17g is %.3Lg away from the ideal curve (tolerance %.3Lg, first coordinates %.17g / %.17Lg)",
                                   op.c_str(), d, (double)u, dd, tol, (double)got[0], want[d][0]);
                // a perturbation of relative size e of the poles moves the next derivative by e * (its natural size)
                ld nat = 0;
                for (size_t i = 0; i + 1 < c.knotsFlats().size(); ++i)
                {
                    ld w = (ld)c.knotsFlats()[i + 1] - c.knotsFlats()[i];
                    if (w > span * 1e-7L) nat = std::max(nat, c.degree() / w);
                }
                sp *= 4 * std::max<ld>(nat, 1);
            }
            (void)D;
        }
    }

    template <class C> void history(const char *type)
    {
        using E = CurveEdit<C>;
        using T = typename E::T;
        auto r = sim::stream("curve");
        auto s = gen_spec(r, 4, 6);
        C c = [&] { if constexpr (E::R) return gen_bsr<T, E::D>(r, s); else return gen_bs<T, E::D>(r, s); }();
        Model<C> m;
        m.freeze(c);
        bool soft = false;
        int n = (int)scaled(r, 2, 14);
        for (int i = 0; i < n; ++i)
        {
            auto ro = sim::stream("op", i);
            if (!sim::op_on(i)) continue;
            int kind = (int)ro.below(CE_kinds);
            if (c.poles().size() > 40 && (kind == CE_elevate || kind == CE_insert_many || kind == CE_split_join)) kind = CE_trim;
            if (soft && (kind == CE_split_join || kind == CE_copy_knots)) kind = CE_trim; // these work on the whole support
            if (kind == CE_elevate && elevation_noise(c.knotsFlats(), c.degree()) > (sizeof(T) == 4 ? 2e-4L : 1e-9L)) kind = CE_insert;
            auto e = gen_curve_edit(ro, c, kind);
            auto what = e.str();
            sim::note("op %d %s  deg=%zu n=%zu bounds=[%.17g,%.17g]", i, what.c_str(), c.degree(), c.poles().size(), (double)c.bounds()[0], (double)c.bounds()[1]);
            CurveState<C> before(c);
            bool swapped = false;
            if ((kind == CE_trim || kind == CE_trim_soft) && ro.chance(0.2)) { std::swap(e.a, e.b); swapped = true; }

            // a failing operation in between: exhausted memory or a rejected argument
            if (sim::fault_on(i) && ro.chance(0.3))
            {
                bool threw = false;
                if (kind != CE_reversed && kind != CE_split_join && kind != CE_copy && ro.chance(0.6)) // those end in an assignment, which is not an edit
                {
                    C probe = c;
                    E pe = e;
                    sim::alloc_count_begin();
                    { try { pe.apply(probe); } catch (...) {} }
                    auto w = sim::alloc_disarm();
                    if (w.seen)
                    {
                        E fe = e;
                        sim::alloc_arm(1 + ro.below(w.seen), ro.chance(0.3));
                        Err er = capture([&] { fe.apply(c); });
                        auto got = sim::alloc_disarm();
                        threw = er.any;
                        if (er.any && !er.oom) sim::violation("failure-hidden", "%s ran out of memory and reported %s", what.c_str(), er.str().c_str());
                        if (!er.any) // survived, e.g. an optional buffer: then it must have done its work
                            if (auto d = CurveState<C>(probe).diff(c)) sim::violation("failure-hidden", "%s ran out of memory, reported success and got another %s", what.c_str(), d);
                    }
                }
                else
                {
                    Err er = capture([&] {
                        switch (ro.below(6))
                        {
                        case 0: { auto q = c.poles(); q.push_back(q.back()); c.copyPoles(q); break; }
                        case 1: { auto q = c.poles(); q.pop_back(); c.movePoles(q); break; }
                        case 2: { auto q = c.knotsFlats(); q.push_back(q.back()); c.copyKnots(q); break; }
                        case 3: c.pole(c.poles().size()); break;
                        case 4: c.insertKnot((T)(c.knotsFlats().back() + 1), 1); break;
                        default: c.trim((T)(c.knotsFlats().back() + 1), (T)(c.knotsFlats().back() + 2)); break;
                        }
                    });
                    threw = true;
                    sim::count("fault.rejected_argument");
                    if (!er.any) sim::violation("failure-hidden", "an unusable argument was accepted");
                }
                if (threw)
                    if (auto d = before.diff(c)) sim::violation("not-atomic", "a failed %s changed the %s", what.c_str(), d);
                if (!threw)
                {
                    // restore so that the edit below is applied exactly once
                    C fresh(before.poles, before.knots, before.deg);
                    if (!same_bits(fresh.bounds()[0], before.bounds[0]) || !same_bits(fresh.bounds()[1], before.bounds[1])) fresh.trim(before.bounds[0], before.bounds[1], false);
                    c = fresh;
                }
            }
            e.apply(c);
            ld lo = m.lo, hi = m.hi;
            switch (kind)
            {
            case CE_remove:
            {
                size_t t = before.knots.size() - c.knotsFlats().size();
                if (t > e.m) sim::violation("inconsistent", "removeKnot removed %zu knots when asked for %zu", t, e.m);
                ld f = 1;
                if (E::R) f = 8 * (1 + m.scale);
                m.slack += (ld)e.tol * 60 * (ld)t * f;
                if (t) sim::count("probe.knot_removed");
                break;
            }
            case CE_elevate: m.slack += elevation_noise(before.knots, before.deg) * (1 + m.scale);
                if (c.degree() != before.deg + e.m) sim::violation("inconsistent", "increaseDegree(%zu): degree %zu from %zu", e.m, c.degree(), before.deg); break;
            case CE_trim: case CE_trim_soft:
            {
                m.lo = std::min<ld>(e.a, e.b);
                m.hi = std::max<ld>(e.a, e.b);
                soft = kind == CE_trim_soft ? true : false;
                if (swapped) sim::count("probe.swapped_trim");
                break;
            }
            case CE_reverse: case CE_reversed: m.o = m.s * (lo + hi) + m.o; m.s = -m.s; break;
            case CE_bounds: case CE_bounds_arr:
            {
                ld f = (hi - lo) / ((ld)e.b - e.a);
                m.o = m.s * (lo - f * (ld)e.a) + m.o;
                m.s *= f;
                m.lo = e.a; m.hi = e.b;
                break;
            }
            case CE_copy_poles: case CE_move_poles:
                if (!same_bits(c.knotsFlats(), before.knots) || c.degree() != before.deg) sim::violation("inconsistent", "%s changed knots or degree", what.c_str());
                for (size_t q = 0; q < e.poles.size(); ++q) if (!same_bits(c.poles()[q], e.poles[q])) sim::violation("wrong-geometry", "%s did not store pole %zu", what.c_str(), q);
                m.freeze(c);
                break;
            case CE_set_pole:
                for (size_t q = 0; q < before.poles.size(); ++q)
                    if (!same_bits(c.poles()[q], q == e.m ? e.poles[0] : before.poles[q])) sim::violation("wrong-geometry", "%s: pole %zu is wrong", what.c_str(), q);
                m.freeze(c);
                break;
            case CE_copy_knots:
                if (!same_bits(c.knotsFlats(), e.knots)) sim::violation("inconsistent", "copyKnots did not store the knots");
                m.freeze(c);
                m.lo = c.knotsFlats().front(); m.hi = c.knotsFlats().back();
                break;
            case CE_copy: if (auto d = before.diff(c)) sim::violation("inconsistent", "a copy differs in its %s", d); break;
            case CE_insert: case CE_insert_many:
            {
                size_t add = c.knotsFlats().size() - before.knots.size();
                if (c.poles().size() != before.poles.size() + add) sim::violation("inconsistent", "%s: %zu knots and %zu poles added", what.c_str(), add, c.poles().size() - before.poles.size());
                if (kind == CE_insert)
                {
                    size_t had = gbs::multiplicity(before.knots, e.a), has = gbs::multiplicity(c.knotsFlats(), e.a);
                    size_t want = had >= before.deg ? had : std::min(before.deg, had + e.m);
                    if (has != want) sim::violation("inconsistent", "%s: multiplicity %zu became %zu, expected %zu", what.c_str(), had, has, want);
                }
                else
                    for (auto &x : e.km)
                    {
                        size_t want = gbs::multiplicity(before.knots, x.first), has = gbs::multiplicity(c.knotsFlats(), x.first);
                        for (auto &y : e.km) if (std::abs(x.first - y.first) < knot_tol<T>()) want = std::max(want, std::min(y.second, before.deg));
                        if (has != want) sim::violation("inconsistent", "insertKnots: %.17g has multiplicity %zu, expected %zu", (double)x.first, has, want);
                    }
                break;
            }
            }
            consistent(c, m, soft, what.c_str());
            follows(ro, c, m, what);
            cover_tag(type, (sim::u64)kind, c.degree(), std::min<size_t>(c.poles().size(), 20));
            observe(c.knotsFlats());
            sim::count("probe.edit");
        }
    }
    template <class T> void mixed(const char *t)
    {
        auto r = sim::stream("type");
        switch (r.below(6))
        {
        case 0: history<gbs::BSCurve<T, 1>>(t); break;
        case 1: history<gbs::BSCurve<T, 2>>(t); break;
        case 2: case 3: history<gbs::BSCurve<T, 3>>(t); break;
        case 4: history<gbs::BSCurveRational<T, 2>>(t); break;
        default: history<gbs::BSCurveRational<T, 3>>(t); break;
        }
    }
}

SIM_SCENARIO(curve_history, 5., true) { mixed<double>("double"); }

/// Inserting knots and removing them again restores the curve.
SIM_SCENARIO(insert_then_remove, 1.5, false)
{
    using namespace h;
    auto r = sim::stream("curve");
    auto run = [&](auto c) {
        using C = decltype(c);
        using E = CurveEdit<C>;
        CurveState<C> before(c);
        auto [lo, hi] = c.bounds();
        size_t p = c.degree();
        auto u = gen_at(r, c.knotsFlats(), lo, hi, false);
        size_t had = gbs::multiplicity(c.knotsFlats(), u);
        if (had >= p) return;
        size_t m = (size_t)r.range(1, (long)(p - had));
        c.insertKnot(u, m);
        if (c.knotsFlats().size() != before.knots.size() + m) sim::violation("inconsistent", "insertKnot(%zu times) added %zu knots", m, c.knotsFlats().size() - before.knots.size());
        double sc = 0;
        for (auto &q : c.poles()) for (auto x : q) sc = std::max<double>(sc, std::abs(x));
        c.removeKnot(u, sc * 1e-8, m);
        if (c.knotsFlats().size() != before.knots.size())
            sim::violation("wrong-geometry", "a knot inserted %zu times at %.17g (degree %zu, multiplicity %zu before) was not removable: %zu knots remain, %zu expected",
                           m, (double)u, p, had, c.knotsFlats().size(), before.knots.size());
        for (size_t i = 0; i < before.poles.size(); ++i)
            if (dist(c.poles()[i], before.poles[i]) > 1e-6 * (1 + sc)) sim::violation("wrong-geometry", "pole %zu is not restored by inserting and removing a knot (off by %.3Lg)", i, dist(c.poles()[i], before.poles[i]));
        cover_tag("undo", p, m, had);
        sim::count("probe.edit", 2);
        (void)sizeof(E);
    };
    auto s = gen_spec(r, 5, 8);
    if (r.chance(0.5)) run(gen_bs<double, 3>(r, s));
    else run(gen_bsr<double, 2>(r, s));
}

/// Splitting, joining, unifying, converting and embedding keep every curve involved.
SIM_SCENARIO(join_and_convert, 2., false)
{
    using namespace h;
    auto r = sim::stream("curve");
    auto same = [](const auto &a, double ua, const auto &b, double ub, double sc, const char *what) {
        auto x = a.value(ua), y = b.value(ub);
        for (size_t i = 0; i < x.size(); ++i)
            if (!(std::abs(x[i] - y[i]) <= 1e-9 * (1 + sc))) sim::violation("wrong-geometry", "%s: value at %.17g is %.17g, expected %.17g", what, ub, (double)y[i], (double)x[i]);
    };
    auto s1 = gen_spec(r, 4, 6), s2 = gen_spec(r, 4, 6);
    auto run = [&](auto c1, auto c2, const char *what) {
        // a non-permanent trim is part of the curve
        auto soft = [&](auto &c) {
            if (!r.chance(0.3)) return;
            auto [a, b] = c.bounds();
            c.trim(r.chance(0.3) ? a : a + (b - a) * r.real(0.05, 0.4), r.chance(0.3) ? b : a + (b - a) * r.real(0.6, 0.95), false);
            sim::count("probe.soft_trim");
        };
        soft(c1); soft(c2);
        // the second starts where the first ends
        using P = std::decay_t<decltype(c1.end())>;
        P d = c1.end(), d2 = c2.begin();
        for (size_t i = 0; i < d.size(); ++i) d[i] -= d2[i];
        auto p2 = c2.poles();
        for (auto &q : p2)
        {
            double w = 1;
            if (q.size() > d.size()) w = q.back();
            for (size_t i = 0; i < d.size(); ++i) q[i] += d[i] * w;
        }
        c2.copyPoles(p2);
        CurveState<decltype(c1)> b1(c1);
        CurveState<decltype(c2)> b2(c2);
        auto j = gbs::join(c1, c2);
        if (b1.diff(c1) || b2.diff(c2)) sim::violation("input-modified", "%s changed one of its inputs", what);
        auto [a, m] = c1.bounds();
        auto [e, f] = c2.bounds();
        auto [ja, jb] = j.bounds();
        if (std::abs(ja - a) > 1e-12 * (1 + std::abs(a)) || std::abs(jb - (m + f - e)) > 1e-11 * (1 + std::abs(jb))) sim::violation("inconsistent", "%s: bounds [%g,%g]", what, ja, jb);
        for (int t = 0; t < 8; ++t)
        {
            double x = t == 0 ? 0. : t == 1 ? 1. : r.uniform();
            same(c1, a + (m - a) * x, j, std::min(a + (m - a) * x, jb), 20, what);
            same(c2, e + (f - e) * x, j, std::min(m + (f - e) * x, jb), 20, what);
        }
        cover_tag(what, c1.degree(), c2.degree(), j.poles().size());
    };
    switch (r.below(5))
    {
    case 3: run(gen_bs<double, 3>(r, s1), gen_bsr<double, 3>(r, s2), "join(non-rational, rational)"); break;
    case 2: run(gen_bsr<double, 2>(r, s1), gen_bs<double, 2>(r, s2), "join(rational, non-rational)"); break;
    case 0: run(gen_bs<double, 3>(r, s1), gen_bs<double, 3>(r, s2), "join(non-rational)"); break;
    case 1: run(gen_bsr<double, 3>(r, s1), gen_bsr<double, 3>(r, s2), "join(rational)"); break;
    default:
    {
        auto c = gen_bs<double, 2>(r, s1);
        auto q0 = gen_bsr<double, 2>(r, s2);
        auto soft = [&](auto &x, auto &s) {
            if (!r.chance(0.3)) return;
            double a = s.a, l = s.b - s.a;
            s.a = a + l * r.real(0.05, 0.4); s.b = a + l * r.real(0.6, 0.95);
            x.trim(s.a, s.b, false);
            sim::count("probe.soft_trim");
        };
        soft(c, s1); soft(q0, s2);
        CurveState<gbs::BSCurve<double, 2>> bc(c);
        CurveState<gbs::BSCurveRational<double, 2>> bq(q0);
        gbs::BSCurveRational<double, 2> q(c);
        double val = r.real(-2, 2);
        auto c3 = gbs::add_dimension(c, val);
        auto q3 = gbs::add_dimension(q0, val);
        if (bc.diff(c) || bq.diff(q0)) sim::violation("input-modified", "a conversion changed its source");
        if (!same_bits(q.bounds(), c.bounds())) sim::violation("inconsistent", "conversion to rational: bounds [%.17g,%.17g] became [%.17g,%.17g]", c.bounds()[0], c.bounds()[1], q.bounds()[0], q.bounds()[1]);
        if (!same_bits(c3.bounds(), c.bounds()) || !same_bits(q3.bounds(), q0.bounds())) sim::violation("inconsistent", "add_dimension: bounds [%.17g,%.17g] became [%.17g,%.17g], [%.17g,%.17g] became [%.17g,%.17g]", c.bounds()[0], c.bounds()[1], c3.bounds()[0], c3.bounds()[1], q0.bounds()[0], q0.bounds()[1], q3.bounds()[0], q3.bounds()[1]);
        for (int t = 0; t < 8; ++t)
        {
            double x = t == 0 ? 0. : t == 1 ? 1. : r.uniform();
            double u = s1.a + (s1.b - s1.a) * x, v = s2.a + (s2.b - s2.a) * x;
            u = std::min(u, c.bounds()[1]); v = std::min(v, q0.bounds()[1]);
            same(c, u, q, u, 20, "rational conversion");
            auto p3 = c3.value(u); auto p2 = c.value(u);
            auto r3 = q3.value(v); auto r2 = q0.value(v);
            for (int i = 0; i < 2; ++i)
                if (std::abs(p3[i] - p2[i]) > 1e-9 || std::abs(r3[i] - r2[i]) > 1e-9) sim::violation("wrong-geometry", "add_dimension moved the curve");
            if (std::abs(p3[2] - val) > 1e-9 || std::abs(r3[2] - val) > 1e-9) sim::violation("wrong-geometry", "add_dimension did not set the new coordinate");
        }
        // converted to a B-spline: its own copy
        std::shared_ptr<gbs::Curve<double, 2>> shared = std::make_shared<gbs::BSCurve<double, 2>>(c);
        auto own = gbs::to_bs_curve<double, 2>(shared);
        if (auto d = bc.diff(*own)) sim::violation("inconsistent", "to_bs_curve of a B-spline changed its %s", d);
        own->reverse();
        own->pole(0)[0] += 1;
        if (auto d = bc.diff(static_cast<const gbs::BSCurve<double, 2> &>(*shared))) sim::violation("input-modified", "editing the result of to_bs_curve changed the %s of the source", d);
        cover_tag("convert", s1.p, s2.p, s2.n);
    }
    }
    sim::count("probe.edit");
}

namespace
{
    using namespace h;
    /// Curves over different ranges whose inner knots sit at partly the same places of their range, with various multiplicities.
    template <class C> std::vector<C> family(Rng &r, size_t n, bool same_degree)
    {
        constexpr size_t D = curve_traits<C>::dim, K = D + curve_traits<C>::rational;
        std::vector<double> places(1 + r.below(4));
        for (auto &x : places) x = r.chance(0.3) ? r.range(1, 9) / 10. : r.real(0.05, 0.95);
        std::sort(places.begin(), places.end());
        for (size_t i = 1; i < places.size();) if (places[i] - places[i - 1] < 0.02) places.erase(places.begin() + i); else ++i;
        size_t p0 = 1 + r.below(4);
        bool one_range = r.chance(0.3);
        double far = r.chance(0.15) ? std::pow(10., r.real(0, 4)) : 1.; // parameters measured in other units
        std::vector<C> v;
        for (size_t q = 0; q < n; ++q)
        {
            size_t p = same_degree ? p0 : 1 + r.below(4);
            double a = one_range ? 0. : far * r.real(-3, 3), l = far * (one_range ? 1. : r.real(0.3, 5));
            std::vector<double> k(p + 1, a);
            for (auto x : places) if (r.chance(0.7)) k.insert(k.end(), 1 + r.below(p), a + l * x);
            if (r.chance(0.4))
            {   // one of its own
                double x = (r.range(15, 496) + 0.5) / 512., d = 1; // another curve's own knot is the same or clearly apart
                for (auto y : places) d = std::min(d, std::abs(x - y));
                if (d > 0.01) { k.push_back(a + l * x); std::sort(k.begin(), k.end()); }
            }
            k.insert(k.end(), p + 1, a + l);
            pts<double, K> P(k.size() - p - 1);
            for (size_t i = 0; i < P.size(); ++i)
            {
                double w = K > D ? r.real(0.5, 2.) : 1.;
                for (size_t d = 0; d < D; ++d) P[i][d] = w * ((d == 0 ? (double)i : 0.) + r.real(-1, 1));
                if constexpr (K > D) P[i][D] = w;
            }
            v.emplace_back(P, k, p);
        }
        return v;
    }
    template <class C> void unify_case(Rng &r, const char *what)
    {
        constexpr size_t D = curve_traits<C>::dim;
        size_t n = (size_t)r.range(1, 5);
        int path = (int)r.below(3);
        auto o = family<C>(r, n, false);
        auto v = o;
        std::vector<std::array<double, 2>> ob;
        size_t deg = 0;
        for (auto &c : o) { ob.push_back(c.bounds()); deg = std::max(deg, c.degree()); }
        // the knots and multiplicities every curve has to end up with, over the range of the first
        std::vector<std::pair<double, size_t>> want;
        double a0 = ob[0][0], l0 = ob[0][1] - ob[0][0];
        for (auto &c : o)
        {
            auto [a, b] = c.bounds();
            for (auto &x : gbs::unflat_knots(c.knotsFlats()))
            {
                double u = a0 + l0 * ((x.first - a) / (b - a));
                size_t m = x.second + deg - c.degree();
                auto it = std::find_if(want.begin(), want.end(), [&](auto &y) { return std::abs(y.first - u) < 1e-9 * l0; });
                if (it == want.end()) want.push_back({u, m});
                else it->second = std::max(it->second, m);
            }
        }
        std::sort(want.begin(), want.end());
        if (path == 0)
        {
            gbs::unify_curves_degree(v);
            if (r.chance(0.5)) gbs::unify_curves_knots(v); else gbs::unify_curves_knots(v.begin(), v.end());
        }
        else
        {
            auto unify = [&](auto info) {
                gbs::unify_degree(info);
                gbs::unify_knots(info);
                v.clear();
                for (auto &[P, k, p] : info) v.emplace_back(P, k, p);
            };
            if (path == 1) unify(gbs::get_bs_curves_info<double, D>(o.begin(), o.end()));
            else
            {
                std::vector<decltype(o[0].info())> info;
                for (auto &c : o) info.push_back(c.info());
                unify(info);
            }
        }
        sim::note("%s: %zu curves, path %d", what, n, path);
        for (size_t i = 0; i < n; ++i)
        {
            auto &c = v[i];
            if (c.degree() != deg) sim::violation("inconsistent", "%s: curve %zu has degree %zu, expected %zu", what, i, c.degree(), deg);
            if (c.poles().size() + deg + 1 != c.knotsFlats().size()) sim::violation("inconsistent", "%s: curve %zu has %zu knots and %zu poles", what, i, c.knotsFlats().size(), c.poles().size());
            auto km = gbs::unflat_knots(c.knotsFlats());
            bool ok = km.size() == want.size();
            for (size_t q = 0; ok && q < km.size(); ++q) ok = std::abs(km[q].first - want[q].first) <= 1e-12 * (l0 + std::abs(a0)) && km[q].second == want[q].second;
            if (!ok)
            {
                std::string s, w;
                char t[64];
                for (auto &x : km) { snprintf(t, sizeof t, " %.17gx%zu", x.first, x.second); s += t; }
                for (auto &x : want) { snprintf(t, sizeof t, " %.17gx%zu", x.first, x.second); w += t; }
                sim::violation("inconsistent", "%s: curve %zu has the knots%s, expected%s", what, i, s.c_str(), w.c_str());
            }
            for (int t = 0; t < 6; ++t)
            {
                double x = t == 0 ? 0. : t == 1 ? 1. : r.uniform();
                auto [a, b] = v[i].bounds();
                auto p = o[i].value(std::min(ob[i][1], ob[i][0] + (ob[i][1] - ob[i][0]) * x)), q = v[i].value(std::min(b, a + (b - a) * x));
                for (size_t d = 0; d < D; ++d) if (!(std::abs(p[d] - q[d]) <= 1e-8)) sim::violation("wrong-geometry", "%s: curve %zu at %g is %.17g, expected %.17g", what, i, x, q[d], p[d]);
            }
            observe(c.knotsFlats());
        }
        cover_tag(what, n, deg, path * 16 + want.size());
        sim::count("probe.edit");
    }
    template <class C> void extend_case(Rng &r, const char *what)
    {
        constexpr size_t D = curve_traits<C>::dim;
        auto c = family<C>(r, 1, true)[0];
        if (c.degree() == 1 && r.chance(0.5)) c.increaseDegree(1);
        auto [a, b] = c.bounds();
        CurveState<C> before(c);
        bool at_end = r.chance(0.5), relative = r.chance(0.4), natural = r.chance(0.5), to_point = r.chance(0.3);
        std::optional<size_t> cont;
        if (r.chance(0.5)) cont = (size_t)r.range(0, 3);
        double l = r.real(0.05, 0.6), len = relative ? l * gbs::length(c) : l;
        auto t = at_end ? c.end(1) : c.begin(1);
        auto want = at_end ? c.end() : c.begin();
        double nt = gbs::norm(t);
        if (nt < 1e-2) return;
        for (size_t d = 0; d < D; ++d) want[d] += (at_end ? 1 : -1) * t[d] / nt * len;
        if (to_point) for (size_t d = 0; d < D; ++d) want[d] += r.real(-0.3, 0.3) * len;
        C e = to_point ? C(gbs::extended_to_point(c, want, at_end, natural, cont)) : C(gbs::extended(c, l, at_end, relative, natural, cont));
        sim::note("%s: at_end %d relative %d natural %d to_point %d by %.17g, degree %zu", what, at_end, relative, natural, to_point, len, c.degree());
        if (before.diff(c)) sim::violation("input-modified", "%s changed its source", what);
        auto [ea, eb] = e.bounds();
        double tol = 1e-9 * (1 + std::abs(a) + std::abs(b));
        if (at_end ? !(std::abs(ea - a) <= tol && eb > b) : !(std::abs(eb - b) <= tol && ea < a))
            sim::violation("inconsistent", "%s: bounds [%.17g,%.17g] became [%.17g,%.17g]", what, a, b, ea, eb);
        if (e.poles().size() + e.degree() + 1 != e.knotsFlats().size()) sim::violation("inconsistent", "%s: %zu knots, %zu poles, degree %zu", what, e.knotsFlats().size(), e.poles().size(), e.degree());
        // how well the shifted knots can represent the curve
        double scale = 1 + (c.poles().size() + 2) * (1 + 1e-9 * (std::abs(ea) + std::abs(eb)) / std::min(b - a, eb - ea)), amp = scale * 1e-8;
        for (int q = 0; q < 10; ++q)
        {
            double u = q == 0 ? a : q == 1 ? b : a + (b - a) * r.uniform();
            u = std::min(eb, std::max(ea, u));
            auto x = c.value(std::min(b, std::max(a, u))), y = e.value(u);
            for (size_t d = 0; d < D; ++d) if (!(std::abs(x[d] - y[d]) <= amp)) sim::violation("wrong-geometry", "%s: at %.17g, inside of the original bounds, the curve moved by %g", what, u, std::abs(x[d] - y[d]));
        }
        auto z = at_end ? e.end() : e.begin();
        for (size_t d = 0; d < D; ++d) if (!(std::abs(z[d] - want[d]) <= amp)) sim::violation("wrong-geometry", "%s: its new end is off by %g", what, std::abs(z[d] - want[d]));
        observe(e.knotsFlats());
        cover_tag(what, at_end * 8 + relative * 4 + natural * 2 + to_point, c.degree(), cont ? 1 + *cont : 0);
        sim::count("probe.edit");
    }
}
namespace
{
    using namespace h;
    /// Index of the span of u: the poles it depends on are [span - p, span].
    inline size_t span_of(const std::vector<double> &k, size_t p, double u)
    {
        size_t n = k.size() - p - 1, s = p;
        while (s + 1 < n && k[s + 1] <= u) ++s;
        return s;
    }
    /// A history of moves to points and constraints, in place and on copies, with other edits and failures in between.
    template <size_t D> void shape_case(Rng &r)
    {
        using C = gbs::BSCurve<double, D>;
        using P = gbs::point<double, D>;
        auto s = gen_spec(r, 4, 7);
        if (s.p < 2) { s.p = 2; s.n += 1; }
        C c = gen_bs<double, D>(r, s, 2);
        if (r.chance(0.2)) { auto [a, b] = c.bounds(); c.trim(a + (b - a) * r.real(0.02, 0.2), b - (b - a) * r.real(0.02, 0.2), false); sim::count("probe.soft_trim"); }
        int n = (int)scaled(r, 1, 5);
        for (int i = 0; i < n; ++i)
        {
            auto ro = sim::stream("op", i);
            if (!sim::op_on(i)) continue;
            auto [lo, hi] = c.bounds();
            const auto k = c.knotsFlats();
            size_t p = c.degree(), np = c.poles().size();
            double scale = 1;
            for (auto &q : c.poles()) for (auto x : q) scale = std::max(scale, std::abs(x));
            int how = (int)ro.below(6);
            if (how == 5 && np < 30) { if (ro.chance(0.5)) c.reverse(); else c.insertKnot(gen_at(ro, k, lo, hi, false), 1); continue; }
            bool fix = ro.chance(0.4), in_place = ro.chance(0.5);
            // places well inside of spans, each in a span of its own
            std::vector<double> places;
            for (size_t q = p; q < np; ++q)
            {
                double w = k[q + 1] - k[q], u = k[q] + w * ro.real(0.3, 0.7);
                if (w > 1e-2 * (k.back() - k.front()) && u > lo && u < hi) places.push_back(u);
            }
            if (places.empty()) continue;
            for (size_t q = places.size(); q-- > 1;) std::swap(places[q], places[ro.below(q + 1)]);
            std::vector<gbs::bsc_constraint<double, D>> Q;
            auto off = [&](const P &x, double f) { P y = x; for (auto &z : y) z += f * ro.real(-1, 1); return y; };
            C want = c;
            bool exact = false; // the answer is determined: more, or as many, constraints than poles
            if (how <= 1) { double u = !fix && ro.chance(0.15) ? (ro.chance(0.5) ? lo : hi) : places[0]; Q.push_back({u, off(c.value(u), scale), 0}); }
            else if (how == 2) Q.push_back({places[0], off(c.value(places[0]), scale), 0}), Q.push_back({places[0], off(c.value(places[0], 1), 3 * scale), 1});
            else if (how == 3)
                for (size_t q = 0, m = 1 + ro.below(std::min<size_t>(3, places.size())); q < m; ++q)
                {
                    // constraints of neighbouring spans share poles: enough of them are free when every place has a span of its own
                    Q.push_back({places[q], off(c.value(places[q]), scale), 0});
                }
            else
            {
                exact = true;
                size_t at = 0;
                while (at < places.size() && (k[span_of(k, p, places[at])] < lo || k[span_of(k, p, places[at]) + 1] > hi)) ++at;
                if (at == places.size()) continue; // a trim within every span
                size_t sp = span_of(k, p, places[at]), i1 = sp - p, i2 = sp;
                if (fix) { i1 = std::max<size_t>(1, i1); i2 = std::min(np - 2, i2); }
                auto W = c.poles();
                for (size_t q = i1; q <= i2; ++q) W[q] = off(W[q], scale);
                want = C(W, k, p);
                size_t m = p + 1 + (ro.chance(0.5) ? 0 : ro.below(6));
                double a = k[sp], w = k[sp + 1] - k[sp];
                for (size_t q = 0; q < m; ++q)
                {
                    double u = std::min(hi, std::max(lo, a + w * (0.02 + 0.96 * q / (m - 1.))));
                    Q.push_back({u, want.value(u), 0});
                }
            }
            size_t i1 = np - 1, i2 = 0;
            for (auto &q : Q) { size_t sp = span_of(k, p, std::get<0>(q)); i1 = std::min(i1, sp - p); i2 = std::max(i2, sp); }
            if (fix) { i1 = std::max<size_t>(1, i1); i2 = std::min(np - 2, i2); }
            if (!exact && (i2 < i1 || Q.size() > i2 - i1 + 1)) continue; // more than the poles left free can meet
            bool point = how == 0;
            auto Q0 = Q;
            sim::note("op %d: to %zu constraints, %s, fixed ends %d, in place %d, degree %zu, %zu poles, knots [%.17g,%.17g], bounds [%.17g,%.17g]", i, Q.size(), exact ? "determined" : "free", fix, in_place, p, np, k.front(), k.back(), lo, hi);
            auto move = [&](const C &x) {
                C y = x;
                if (in_place) { if (point) gbs::move_to_point(y, std::get<1>(Q[0]), std::get<0>(Q[0]), fix); else gbs::move_to_constraints(y, Q, fix); return y; }
                return point ? C(gbs::moved_to_point(x, std::get<1>(Q[0]), std::get<0>(Q[0]), fix)) : C(gbs::moved_to_constraints(x, Q, fix));
            };
            CurveState<C> before(c);
            C got = move(c);
            if (auto d = before.diff(c)) sim::violation("input-modified", "moving a copy changed the %s of the curve", d);
            if (sim::fault_on(i) && ro.chance(0.3))
            {
                sim::alloc_count_begin();
                { try { move(c); } catch (...) {} }
                auto w = sim::alloc_disarm();
                if (w.seen)
                {
                    C y = c;
                    bool done = true;
                    sim::alloc_arm(1 + ro.below(w.seen), ro.chance(0.3));
                    Err er = capture([&] { if (point) gbs::move_to_point(y, std::get<1>(Q[0]), std::get<0>(Q[0]), fix); else gbs::move_to_constraints(y, Q, fix); });
                    sim::alloc_disarm();
                    if (er.any) { done = false; if (!er.oom) sim::violation("failure-hidden", "moving to constraints ran out of memory and reported %s", er.str().c_str()); }
                    if (!done) if (auto d = before.diff(y)) sim::violation("not-atomic", "a failed move to constraints changed the %s", d);
                }
            }
            if (got.degree() != p || !same_bits(got.knotsFlats(), k) || got.poles().size() != np) sim::violation("inconsistent", "moving to constraints changed the degree, the knots or the pole count");
            if (!same_bits(got.bounds(), c.bounds())) sim::violation("inconsistent", "moving to constraints: bounds [%.17g,%.17g] became [%.17g,%.17g]", lo, hi, got.bounds()[0], got.bounds()[1]);
            for (size_t q = 0; q < np; ++q)
                if ((q < i1 || q > i2) && !same_bits(got.poles()[q], before.poles[q])) sim::violation("wrong-geometry", "moving to constraints changed pole %zu, only [%zu,%zu] may move", q, i1, i2);
            double big = scale;
            for (auto &q : got.poles()) for (auto x : q) big = std::max(big, std::abs(x));
            if (!(big < 1e6 * scale)) { sim::count("probe.ill_posed"); break; }
            for (auto &[u, x, d] : Q0)
            {
                auto z = got.value(u, d);
                double tol = 1e-7 * (big + gbs::norm(x)) * (d ? 10. : 1.);
                if (!(dist(z, x) <= tol)) sim::violation("wrong-geometry", "moving to %zu constraints: derivative %zu at %.17g is off by %Lg", Q0.size(), d, u, dist(z, x));
            }
            if (exact)
                for (int t = 0; t < 5; ++t) { double u = lo + (hi - lo) * ro.uniform(); if (!(dist(got.value(u), want.value(u)) <= 1e-5L * big)) sim::violation("wrong-geometry", "moving to constraints which determine the curve: off by %Lg at %.17g", dist(got.value(u), want.value(u)), u); }
            c = got;
            cover_tag("shape", p, np, (sim::u64)(how * 4 + fix * 2 + in_place));
            sim::count("probe.edit");
        }
    }
}
/// Moving a curve to points and constraints makes it meet them and leaves poles elsewhere, knots and bounds alone.
SIM_SCENARIO(shape, 1., true)
{
    auto r = sim::stream("curve");
    if (r.chance(0.5)) shape_case<2>(r); else shape_case<3>(r);
}
/// Unifying gives every curve the same degree, the union of the knots and multiplicities, and its own shape.
SIM_SCENARIO(unify, 1., false)
{
    auto r = sim::stream("curve");
    switch (r.below(3))
    {
    case 0: unify_case<gbs::BSCurve<double, 2>>(r, "unify"); break;
    case 1: unify_case<gbs::BSCurve<double, 3>>(r, "unify"); break;
    default: unify_case<gbs::BSCurveRational<double, 3>>(r, "unify(rational)"); break;
    }
}
/// An extended curve keeps its definition between the original bounds and reaches the place it is extended to.
SIM_SCENARIO(extend, 0.7, false)
{
    auto r = sim::stream("curve");
    switch (r.below(3))
    {
    case 0: extend_case<gbs::BSCurve<double, 2>>(r, "extended"); break;
    case 1: extend_case<gbs::BSCurve<double, 3>>(r, "extended"); break;
    default: extend_case<gbs::BSCurveRational<double, 3>>(r, "extended(rational)"); break;
    }
}

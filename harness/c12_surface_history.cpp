// C12: histories of surface edits against an ideal surface (reference model in long double),
// with failing operations in between.
#include "edits.h"
#include <gbs/bssbuild.h>
#include <gbs/bssshaping.h>

namespace
{
    using namespace h;

    template <class S> struct Model
    {
        using E = SurfEdit<S>;
        using T = typename E::T;
        static constexpr size_t K = E::K, D = E::D;
        size_t p = 0, q = 0;
        std::vector<T> ku, kv;
        pts<T, K> P;
        struct Dir { int base; ld s, o, lo, hi; };
        Dir d[2];
        ld scale = 1;
        ld slack = 0;    // rounding of degree elevations
        void freeze(const S &c)
        {
            p = c.degreeU(); q = c.degreeV(); ku = c.knotsFlatsU(); kv = c.knotsFlatsV(); P = c.poles();
            auto b = c.bounds();
            for (int i = 0; i < 2; ++i) d[i] = {i, 1, 0, (ld)b[2 * i], (ld)b[2 * i + 1]};
            scale = 0;
            slack = 0;
            for (auto &x : P) for (size_t i = 0; i < D; ++i) scale = std::max<ld>(scale, std::abs((ld)x[i]) / (E::R ? (ld)x[D] : 1.L));
        }
        std::array<ld, K> homogeneous(ld u, ld v, size_t du, size_t dv) const
        {
            ld x[2], f = 1;
            size_t o[2];
            x[d[0].base] = d[0].s * u + d[0].o; o[d[0].base] = du;
            x[d[1].base] = d[1].s * v + d[1].o; o[d[1].base] = dv;
            for (size_t i = 0; i < du; ++i) f *= d[0].s;
            for (size_t i = 0; i < dv; ++i) f *= d[1].s;
            auto r = ref_eval_surf<T, K>(P, ku, kv, p, q, x[0], x[1], o[0], o[1]);
            for (auto &c : r) c *= f;
            return r;
        }
        std::array<ld, D> eval(ld u, ld v, size_t du, size_t dv) const
        {
            if constexpr (!E::R) return homogeneous(u, v, du, dv);
            else
            {
                std::array<ld, K> A[3][3];
                std::array<ld, D> R[3][3];
                auto binom = [](size_t n, size_t k) { return k == 1 && n == 2 ? 2.L : 1.L; };
                for (size_t i = 0; i <= du; ++i) for (size_t j = 0; j <= dv; ++j) A[i][j] = homogeneous(u, v, i, j);
                for (size_t i = 0; i <= du; ++i)
                    for (size_t j = 0; j <= dv; ++j)
                        for (size_t c = 0; c < D; ++c)
                        {
                            ld t = A[i][j][c];
                            for (size_t a = 0; a <= i; ++a)
                                for (size_t b = 0; b <= j; ++b)
                                    if (a + b) t -= binom(i, a) * binom(j, b) * A[a][b][D] * R[i - a][j - b][c];
                            R[i][j][c] = t / A[0][0][D];
                        }
                return R[du][dv];
            }
        }
    };
    template <class T> void sound_knots(const std::vector<T> &k, size_t p, size_t n, ld lo, ld hi, const char *dir, const char *op)
    {
        if (k.size() != n + p + 1) sim::violation("inconsistent", "after %s: %zu poles in %s, %zu knots, degree %zu", op, n, dir, k.size(), p);
        for (size_t i = 1; i < k.size(); ++i) if (!(k[i] >= k[i - 1])) sim::violation("inconsistent", "after %s: %s knots decrease at %zu", op, dir, i);
        for (size_t i = 0; i <= p; ++i)
            if (k[i] != k[0] || k[k.size() - 1 - i] != k.back()) sim::violation("inconsistent", "after %s: %s end knot multiplicity below %zu", op, dir, p + 1);
        ld e = (sizeof(T) == 4 ? 1e-5L : 1e-12L) * (1 + std::abs(lo) + std::abs(hi));
        if (std::abs(k.front() - lo) > e || std::abs(k.back() - hi) > e)
            sim::violation("inconsistent", "after %s: %s knots span [%.17g,%.17g], the ideal surface [%.17Lg,%.17Lg]", op, dir, (double)k.front(), (double)k.back(), lo, hi);
    }
    template <class S> void consistent(const S &c, const Model<S> &m, const char *op)
    {
        using T = typename Model<S>::T;
        size_t nu = c.nPolesU(), nv = c.nPolesV();
        if (nu * nv != c.poles().size()) sim::violation("inconsistent", "after %s: %zu poles, expected %zu x %zu", op, c.poles().size(), nu, nv);
        sound_knots(c.knotsFlatsU(), c.degreeU(), nu, m.d[0].lo, m.d[0].hi, "U", op);
        sound_knots(c.knotsFlatsV(), c.degreeV(), nv, m.d[1].lo, m.d[1].hi, "V", op);
        auto b = c.bounds();
        for (int i = 0; i < 4; ++i)
        {
            ld w = i % 2 ? m.d[i / 2].hi : m.d[i / 2].lo;
            ld e = (sizeof(T) == 4 ? 1e-5L : 1e-12L) * (1 + std::abs(m.d[i / 2].lo) + std::abs(m.d[i / 2].hi));
            if (std::abs(b[i] - w) > e) sim::violation("inconsistent", "after %s: bounds[%d] is %.17g, the ideal surface has %.17Lg", op, i, (double)b[i], w);
        }
        if (b[0] != c.knotsFlatsU().front() || b[1] != c.knotsFlatsU().back() || b[2] != c.knotsFlatsV().front() || b[3] != c.knotsFlatsV().back())
            sim::violation("inconsistent", "after %s: bounds [%.17g,%.17g]x[%.17g,%.17g] but knots [%.17g,%.17g]x[%.17g,%.17g]", op, (double)b[0], (double)b[1], (double)b[2], (double)b[3], (double)c.knotsFlatsU().front(), (double)c.knotsFlatsU().back(), (double)c.knotsFlatsV().front(), (double)c.knotsFlatsV().back());
        auto bu = c.boundsU();
        auto bv = c.boundsV();
        if (!same_bits(bu[0], b[0]) || !same_bits(bu[1], b[1]) || !same_bits(bv[0], b[2]) || !same_bits(bv[1], b[3])) sim::violation("inconsistent", "after %s: boundsU/boundsV do not agree with bounds", op);
        size_t su = 0, sv = 0;
        for (auto x : c.multsU()) su += x;
        for (auto x : c.multsV()) sv += x;
        if (su != c.knotsFlatsU().size() || sv != c.knotsFlatsV().size()) sim::violation("inconsistent", "after %s: the multiplicities do not describe the flat knots", op);
        // the pole accessors agree on one net
        const S &cc = c;
        for (size_t j = 0; j < nv; ++j)
        {
            auto row = c.polesU(j);
            if (row.size() != nu) sim::violation("inconsistent", "after %s: row %zu has %zu poles, expected %zu", op, j, row.size(), nu);
            for (size_t i = 0; i < nu; ++i)
                if (!same_bits(row[i], c.poles()[j * nu + i]) || !same_bits(cc.pole(j, i), row[i])) sim::violation("inconsistent", "after %s: pole (%zu,%zu) reads differently by row", op, i, j);
        }
        for (size_t i = 0; i < nu; ++i)
        {
            auto col = c.polesV(i);
            if (col.size() != nv) sim::violation("inconsistent", "after %s: column %zu has %zu poles, expected %zu", op, i, col.size(), nv);
            for (size_t j = 0; j < nv; ++j)
                if (!same_bits(col[j], c.poles()[j * nu + i])) sim::violation("inconsistent", "after %s: pole (%zu,%zu) reads differently by column", op, i, j);
        }
    }
    template <class K> ld natural(const K &k, size_t p, ld span)
    {
        ld nat = 1;
        for (size_t i = 0; i + 1 < k.size(); ++i)
        {
            ld w = (ld)k[i + 1] - k[i];
            if (w > span * 1e-7L) nat = std::max(nat, p / w);
        }
        return 4 * nat;
    }
    template <class S> void follows(Rng &r, const S &c, const Model<S> &m, const std::string &op)
    {
        using T = typename Model<S>::T;
        auto b = c.bounds();
        ld unit = (sizeof(T) == 4 ? 2e-4L : 1e-9L) * (1 + m.scale) + m.slack;
        const std::vector<T> *k[2] = {&c.knotsFlatsU(), &c.knotsFlatsV()};
        ld nat[2] = {natural(*k[0], c.degreeU(), (ld)b[1] - b[0]), natural(*k[1], c.degreeV(), (ld)b[3] - b[2])};
        static const size_t orders[][2] = {{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 0}, {0, 2}};
        for (int t = 0; t < 8; ++t)
        {
            T w[2];
            bool der = true;
            for (int i = 0; i < 2; ++i)
            {
                ld lo = b[2 * i], span = (ld)b[2 * i + 1] - lo;
                w[i] = t == 0 || (t == 1 && i) || (t == 2 && !i) ? b[2 * i] : t <= 3 ? b[2 * i + 1] : (T)(lo + span * (ld)r.uniform());
                if (t == 4 && r.chance(0.5)) { w[i] = (*k[i])[r.below(k[i]->size())]; w[i] = std::min(std::max(w[i], b[2 * i]), b[2 * i + 1]); }
                w[i] = std::min(w[i], b[2 * i + 1]);
                for (auto x : *k[i]) if (std::abs((ld)x - w[i]) < span * 1e-6L) der = false;
                const auto &mk = m.d[i].base ? m.kv : m.ku;
                for (auto x : mk) if (std::abs((ld)x - (m.d[i].s * w[i] + m.d[i].o)) < span * std::abs(m.d[i].s) * 1e-6L) der = false;
            }
            for (int q = 0; q < (der ? 6 : 1); ++q)
            {
                size_t du = orders[q][0], dv = orders[q][1];
                auto want = m.eval(w[0], w[1], du, dv);
                auto got = c.value(w[0], w[1], du, dv);
                ld tol = unit;
                for (size_t i = 0; i < du; ++i) tol *= nat[0];
                for (size_t i = 0; i < dv; ++i) tol *= nat[1];
                ld dd = dist(got, want);
                if (!(dd <= tol))
                    sim::violation("wrong-geometry", "after %s: derivative (%zu,%zu) at (%.17g,%.17g) is %.3Lg away from the ideal surface (tolerance %.3Lg, first coordinates %.17g / %.17Lg)",
                                   op.c_str(), du, dv, (double)w[0], (double)w[1], dd, tol, (double)got[0], want[0]);
            }
        }
    }
    /// Isoparametric curves lie on the surface, whatever the parameter.
    template <class S> void iso(Rng &r, const S &c, const Model<S> &m, const std::string &op)
    {
        using T = typename Model<S>::T;
        auto b = c.bounds();
        bool v = r.chance(0.5);
        const auto &k = v ? c.knotsFlatsV() : c.knotsFlatsU();
        T lo = v ? b[2] : b[0], hi = v ? b[3] : b[1], x;
        switch (r.below(5))
        {
        case 0: x = lo; break;
        case 1: x = hi; break;
        case 2: x = k[r.below(k.size())]; break;
        default: x = gen_at(r, k, lo, hi);
        }
        x = std::min(std::max(x, lo), hi);
        T o1 = v ? b[0] : b[2], o2 = v ? b[1] : b[3];
        ld unit = (sizeof(T) == 4 ? 4e-4L : 2e-9L) * (1 + m.scale) + m.slack;
        SurfState<S> before(c);
        auto check = [&](const auto &crv) {
            auto cb = crv.bounds();
            ld e = (sizeof(T) == 4 ? 1e-5L : 1e-12L) * (1 + std::abs((ld)o1) + std::abs((ld)o2));
            if (std::abs((ld)cb[0] - o1) > e || std::abs((ld)cb[1] - o2) > e) sim::violation("inconsistent", "after %s: iso%s(%.17g) has bounds [%g,%g], expected [%g,%g]", op.c_str(), v ? "V" : "U", (double)x, (double)cb[0], (double)cb[1], (double)o1, (double)o2);
            for (int t = 0; t < 6; ++t)
            {
                T y = t == 0 ? o1 : t == 1 ? o2 : (T)(o1 + (o2 - o1) * r.uniform());
                y = std::min(std::max(std::min(y, o2), cb[0]), cb[1]);
                auto want = v ? m.eval(y, x, 0, 0) : m.eval(x, y, 0, 0);
                ld dd = dist(crv.value(y), want);
                if (!(dd <= unit)) sim::violation("wrong-geometry", "after %s: iso%s(%.17g) is %.3Lg off the surface at %.17g", op.c_str(), v ? "V" : "U", (double)x, dd, (double)y);
            }
        };
        if (v) check(c.isoV(x)); else check(c.isoU(x));
        if (before.diff(c)) sim::violation("input-modified", "extracting an isoparametric curve changed the surface");
        sim::count("probe.iso");
    }
    template <class S> void history(const char *type)
    {
        using E = SurfEdit<S>;
        using T = typename E::T;
        auto r = sim::stream("surface");
        S c = gen_edit_surface<S>(r);
        Model<S> m;
        m.freeze(c);
        int n = (int)scaled(r, 2, 10);
        for (int i = 0; i < n; ++i)
        {
            auto ro = sim::stream("op", i);
            if (!sim::op_on(i)) continue;
            int kind = (int)ro.below(SE_kinds);
            bool big = c.nPolesU() > 14 || c.nPolesV() > 14;
            if (kind == SE_elevateU && (c.degreeU() >= 6 || big)) kind = SE_trimU;
            if (kind == SE_elevateV && (c.degreeV() >= 6 || big)) kind = SE_trimV;
            ld limit = sizeof(T) == 4 ? 2e-4L : 1e-9L;
            if (kind == SE_elevateU && elevation_noise(c.knotsFlatsU(), c.degreeU()) > limit) kind = SE_insertU;
            if (kind == SE_elevateV && elevation_noise(c.knotsFlatsV(), c.degreeV()) > limit) kind = SE_insertV;
            if (big && kind == SE_split_join) kind = SE_invert;
            if (sizeof(T) == 4 && kind == SE_split_join) kind = SE_split_v;
            auto e = gen_surf_edit(ro, c, kind);
            auto what = e.str();
            sim::note("op %d %s deg=%zu,%zu n=%zux%zu", i, what.c_str(), c.degreeU(), c.degreeV(), c.nPolesU(), c.nPolesV());
            SurfState<S> before(c);
            if ((kind == SE_trimU || kind == SE_trimV) && ro.chance(0.2)) { std::swap(e.a, e.b); sim::count("probe.swapped_trim"); }
            if (sim::fault_on(i) && ro.chance(0.3))
            {
                bool threw = false;
                if (kind < SE_split_join && ro.chance(0.6))
                {
                    S probe = c;
                    E pe = e;
                    sim::alloc_count_begin();
                    { try { pe.apply(probe); } catch (...) {} }
                    auto w = sim::alloc_disarm();
                    if (w.seen)
                    {
                        S trial = c;
                        E fe = e;
                        sim::alloc_arm(1 + ro.below(w.seen), ro.chance(0.3));
                        Err er = capture([&] { fe.apply(trial); });
                        auto got = sim::alloc_disarm();
                        threw = er.any;
                        if (er.any && !er.oom) sim::violation("failure-hidden", "%s ran out of memory and reported %s", what.c_str(), er.str().c_str());
                        if (!er.any)
                        {
                            if (auto d = SurfState<S>(probe).diff(trial)) sim::violation("failure-hidden", "%s ran out of memory, reported success and got other %s", what.c_str(), d);
                        }
                        else c = trial; // go on with the object that met the failure
                    }
                }
                else
                {
                    Err er = capture([&] {
                        switch (ro.below(6))
                        {
                        case 0: { auto q = c.poles(); q.push_back(q.back()); c.copyPoles(q); break; }
                        case 1: { auto q = c.poles(); q.pop_back(); c.movePoles(q); break; }
                        case 2: c.insertKnotU((T)(c.knotsFlatsU().back() + 1), 1); break;
                        case 3: c.insertKnotV((T)(c.knotsFlatsV().front() - 1), 1); break;
                        case 4: c.trimU((T)(c.knotsFlatsU().back() + 1), (T)(c.knotsFlatsU().back() + 2)); break;
                        default: c.trimV((T)(c.knotsFlatsV().front() - 2), (T)(c.knotsFlatsV().front() - 1)); break;
                        }
                    });
                    threw = true;
                    sim::count("fault.rejected_argument");
                    if (!er.any) sim::violation("failure-hidden", "an unusable argument was accepted");
                }
                if (threw)
                    if (auto d = before.diff(c)) sim::violation("not-atomic", "a failed %s changed the %s", what.c_str(), d);
            }
            e.apply(c);
            auto &U = m.d[0], &V = m.d[1];
            auto rebound = [&](typename Model<S>::Dir &d) {
                ld f = (d.hi - d.lo) / ((ld)e.b - e.a);
                d.o = d.s * (d.lo - f * (ld)e.a) + d.o;
                d.s *= f;
                d.lo = e.a; d.hi = e.b;
            };
            auto reverse = [&](typename Model<S>::Dir &d) { d.o = d.s * (d.lo + d.hi) + d.o; d.s = -d.s; };
            if (kind == SE_elevateU) m.slack += elevation_noise(before.ku, before.p) * (1 + m.scale);
            if (kind == SE_elevateV) m.slack += elevation_noise(before.kv, before.q) * (1 + m.scale);
            switch (kind)
            {
            case SE_trimU: U.lo = std::min<ld>(e.a, e.b); U.hi = std::max<ld>(e.a, e.b); break;
            case SE_trimV: V.lo = std::min<ld>(e.a, e.b); V.hi = std::max<ld>(e.a, e.b); break;
            case SE_reverseU: reverse(U); break;
            case SE_reverseV: reverse(V); break;
            case SE_boundsU: rebound(U); break;
            case SE_boundsV: rebound(V); break;
            case SE_invert: std::swap(U, V); break;
            case SE_split_v: (e.m % 2 ? V.hi : V.lo) = e.a; break;
            case SE_elevateU: if (c.degreeU() != before.p + 1 || c.degreeV() != before.q) sim::violation("inconsistent", "increaseDegreeU: degrees %zu,%zu from %zu,%zu", c.degreeU(), c.degreeV(), before.p, before.q); break;
            case SE_elevateV: if (c.degreeV() != before.q + 1 || c.degreeU() != before.p) sim::violation("inconsistent", "increaseDegreeV: degrees %zu,%zu from %zu,%zu", c.degreeU(), c.degreeV(), before.p, before.q); break;
            case SE_copy_poles: case SE_move_poles:
                for (size_t q = 0; q < e.poles.size(); ++q) if (!same_bits(c.poles()[q], e.poles[q])) sim::violation("wrong-geometry", "%s did not store pole %zu", what.c_str(), q);
                m.freeze(c);
                break;
            case SE_set_pole:
                for (size_t q = 0; q < before.poles.size(); ++q)
                    if (!same_bits(c.poles()[q], q == e.j * c.nPolesU() + e.i ? e.poles[0] : before.poles[q])) sim::violation("wrong-geometry", "%s: pole %zu is wrong", what.c_str(), q);
                m.freeze(c);
                break;
            case SE_copy: if (auto d = before.diff(c)) sim::violation("inconsistent", "a copy differs in its %s", d); break;
            case SE_insertU: case SE_insertV:
            {
                bool v = kind == SE_insertV;
                size_t deg = v ? before.q : before.p;
                size_t had = gbs::multiplicity(v ? before.kv : before.ku, e.a), has = gbs::multiplicity(v ? c.knotsFlatsV() : c.knotsFlatsU(), e.a);
                size_t want = had >= deg ? had : std::min(deg, had + e.m);
                if (has != want) sim::violation("inconsistent", "%s: multiplicity %zu became %zu, expected %zu", what.c_str(), had, has, want);
                if (!same_bits(v ? before.ku : before.kv, v ? c.knotsFlatsU() : c.knotsFlatsV())) sim::violation("inconsistent", "%s changed the knots of the other direction", what.c_str());
                break;
            }
            }
            consistent(c, m, what.c_str());
            follows(ro, c, m, what);
            if (ro.chance(0.3)) iso(ro, c, m, what);
            cover_tag(type, (sim::u64)kind, c.degreeU() * 10 + c.degreeV(), std::min<size_t>(c.nPolesU(), 20) * 32 + std::min<size_t>(c.nPolesV(), 20));
            observe(c.knotsFlatsU());
            sim::count("probe.edit");
        }
    }
}
SIM_SCENARIO(surface_history, 5., true)
{
    auto r = sim::stream("type");
    switch (r.below(5))
    {
    case 0: history<gbs::BSSurface<double, 1>>("1"); break;
    case 1: history<gbs::BSSurface<double, 2>>("2"); break;
    case 2: history<gbs::BSSurfaceRational<double, 2>>("2r"); break;
    case 3: history<gbs::BSSurfaceRational<double, 3>>("3r"); break;
    default: history<gbs::BSSurface<double, 3>>("3"); break;
    }
}
/// Splitting, joining, embedding and conversions keep the surfaces involved.
SIM_SCENARIO(split_join_convert, 2., false)
{
    using namespace h;
    auto r = sim::stream("surface");
    auto run = [&](auto s, const char *type) {
        using S = decltype(s);
        using E = SurfEdit<S>;
        auto b = s.bounds();
        SurfState<S> before(s);
        Model<S> m;
        m.freeze(s);
        ld tol = 1e-9L * (1 + m.scale);
        auto at = [&](double u, double v) { return m.eval(u, v, 0, 0); };
        int kind = (int)r.below(5);
        auto near = [&](const auto &got, double u, double v, const char *what) {
            ld d = dist(got, at(u, v));
            if (!(d <= tol)) sim::violation("wrong-geometry", "%s moved the surface by %.3Lg at (%.17g,%.17g)", what, d, u, v);
        };
        auto draw = [&](double lo, double hi) { double x = r.chance(0.2) ? lo : r.chance(0.2) ? hi : lo + (hi - lo) * r.uniform(); return std::min(std::max(x, lo), hi); };
        switch (kind)
        {
        case 0: case 1:
        {
            bool v = kind == 1;
            double a = gen_at(r, v ? s.knotsFlatsV() : s.knotsFlatsU(), v ? b[2] : b[0], v ? b[3] : b[1]);
            auto pr = v ? gbs::split_v<double, E::D, E::R>(s, a) : gbs::split_u<double, E::D, E::R>(s, a);
            auto b1 = pr.first.bounds(), b2 = pr.second.bounds();
            std::array<double, 4> w1 = b, w2 = b;
            w1[v ? 3 : 1] = a; w2[v ? 2 : 0] = a;
            for (int i = 0; i < 4; ++i)
                if (std::abs(b1[i] - w1[i]) > 1e-12 * (1 + std::abs(w1[i])) || std::abs(b2[i] - w2[i]) > 1e-12 * (1 + std::abs(w2[i]))) sim::violation("inconsistent", "splitting at %.17g: bounds[%d] are %.17g and %.17g", a, i, b1[i], b2[i]);
            for (int t = 0; t < 6; ++t)
            {
                double u1 = draw(b1[0], b1[1]), v1 = draw(b1[2], b1[3]), u2 = draw(b2[0], b2[1]), v2 = draw(b2[2], b2[3]);
                near(pr.first.value(u1, v1), u1, v1, "splitting");
                near(pr.second.value(u2, v2), u2, v2, "splitting");
            }
            // and joining again
            if (!v)
            {
                auto j = gbs::join(pr.first, pr.second);
                auto jb = j.bounds();
                for (int i = 0; i < 4; ++i) if (std::abs(jb[i] - b[i]) > 1e-11 * (1 + std::abs(b[i]))) sim::violation("inconsistent", "joining: bounds[%d] is %.17g, expected %.17g", i, jb[i], b[i]);
                for (int t = 0; t < 6; ++t) { double u = std::min(draw(b[0], b[1]), jb[1]), w = draw(b[2], b[3]); near(j.value(u, w), u, w, "joining"); }
            }
            break;
        }
        case 2: // parts of different degree
        {
            double a = gen_at(r, s.knotsFlatsU(), b[0], b[1]);
            auto pr = gbs::split_u<double, E::D, E::R>(s, a);
            (r.chance(0.5) ? pr.first : pr.second).increaseDegreeU();
            auto s1 = SurfState<decltype(pr.first)>(pr.first);
            auto s2 = SurfState<decltype(pr.second)>(pr.second);
            auto j = gbs::join(pr.first, pr.second);
            if (s1.diff(pr.first) || s2.diff(pr.second)) sim::violation("input-modified", "joining changed its inputs");
            auto jb = j.bounds();
            for (int t = 0; t < 8; ++t) { double u = std::min(draw(b[0], b[1]), jb[1]), w = draw(b[2], b[3]); near(j.value(u, w), u, w, "joining parts of different degree"); }
            // other v knots: refused
            pr.second.insertKnotV(gen_at(r, pr.second.knotsFlatsV(), b[2], b[3], false), 1);
            if (pr.second.knotsFlatsV().size() != pr.first.knotsFlatsV().size())
            {
                Err er = capture([&] { gbs::join(pr.first, pr.second); });
                if (!er.any) sim::violation("failure-hidden", "joining surfaces with different V knots was accepted");
                sim::count("fault.rejected_argument");
            }
            break;
        }
        case 3:
        {
            double val = r.real(-2, 2);
            auto e = gbs::add_dimension(s, val);
            for (int t = 0; t < 8; ++t)
            {
                double u = draw(b[0], b[1]), v = draw(b[2], b[3]);
                auto q = e.value(u, v);
                std::array<double, E::D> w;
                for (size_t i = 0; i < E::D; ++i) w[i] = q[i];
                near(w, u, v, "add_dimension");
                if (std::abs(q[E::D] - val) > 1e-12) sim::violation("wrong-geometry", "add_dimension set the new coordinate to %.17g instead of %.17g", q[E::D], val);
            }
            break;
        }
        default:
        {
            // rational conversion through the weights
            if constexpr (!E::R)
            {
                std::vector<double> w(s.poles().size(), 1.);
                gbs::BSSurfaceRational<double, E::D> q(s.poles(), w, s.knotsFlatsU(), s.knotsFlatsV(), s.degreeU(), s.degreeV());
                for (int t = 0; t < 6; ++t) { double u = draw(b[0], b[1]), v = draw(b[2], b[3]); near(q.value(u, v), u, v, "rational conversion"); }
            }
            else
            {
                S q(s.polesProjected(), s.weights(), s.knotsFlatsU(), s.knotsFlatsV(), s.degreeU(), s.degreeV());
                for (int t = 0; t < 6; ++t) { double u = draw(b[0], b[1]), v = draw(b[2], b[3]); near(q.value(u, v), u, v, "separating and merging the weights"); }
            }
        }
        }
        if (auto d = before.diff(s)) sim::violation("input-modified", "the %s of the original changed", d);
        cover_tag(type, (sim::u64)kind, s.degreeU() * 10 + s.degreeV(), s.poles().size());
        sim::count("probe.edit");
    };
    switch (r.below(3))
    {
    case 0: run(gen_edit_surface<gbs::BSSurface<double, 3>>(r), "3"); break;
    case 1: run(gen_edit_surface<gbs::BSSurfaceRational<double, 3>>(r), "3r"); break;
    default: run(gen_edit_surface<gbs::BSSurface<double, 2>>(r), "2"); break;
    }
}
namespace
{
    using namespace h;
    template <class S> void extend_case(Rng &r, const char *what)
    {
        using E = SurfEdit<S>;
        auto s = gen_edit_surface<S>(r);
        auto [a, b, c, d] = s.bounds();
        if (b - a < 0.05 || d - c < 0.05) return;
        SurfState<S> before(s);
        int where = (int)r.below(5); // 4: the variant without a place
        auto loc = where == 0 ? gbs::SurfaceBound::U_START : where == 1 ? gbs::SurfaceBound::V_START : where == 2 ? gbs::SurfaceBound::V_END : gbs::SurfaceBound::U_END;
        bool natural = r.chance(0.5);
        std::optional<size_t> cont;
        if (r.chance(0.5)) cont = (size_t)r.range(0, 3);
        double l = r.real(0.05, 0.6);
        // the corners of the extended side go straight on
        bool in_u = where == 0 || where >= 3, at_end = where >= 2;
        std::array<std::array<double, E::D>, 2> want;
        for (int k = 0; k < 2; ++k)
        {
            double u = in_u ? (at_end ? b : a) : (k ? b : a), v = in_u ? (k ? d : c) : (at_end ? d : c);
            auto p = s.value(u, v), t = s.value(u, v, in_u ? 1 : 0, in_u ? 0 : 1);
            double n = gbs::norm(t);
            if (n < 1e-2) return;
            for (size_t i = 0; i < E::D; ++i) want[k][i] = p[i] + (at_end ? 1 : -1) * t[i] / n * l;
        }
        S e = s;
        Err er = capture([&] {
            if (where == 4) e = gbs::extended(s, l, natural, cont); else e = gbs::extended(s, l, loc, natural, cont);
        });
        sim::note("%s: where %d natural %d by %.17g", what, where, natural, l);
        if (auto x = before.diff(s)) sim::violation("input-modified", "%s changed the %s of its source", what, x);
        if (er.any) { sim::count("probe.refused"); sim::note("refused: %s", er.what.c_str()); return; }
        auto [ea, eb, ec, ed] = e.bounds();
        if (e.poles().size() != e.nPolesU() * e.nPolesV() || e.nPolesU() + e.degreeU() + 1 != e.knotsFlatsU().size() || e.nPolesV() + e.degreeV() + 1 != e.knotsFlatsV().size())
            sim::violation("inconsistent", "%s: %zu poles, %zux%zu", what, e.poles().size(), e.nPolesU(), e.nPolesV());
        double grow = in_u ? (eb - ea) - (b - a) : (ed - ec) - (d - c), keep = in_u ? (ed - ec) - (d - c) : (eb - ea) - (b - a);
        if (!(grow > 0) || !(std::abs(keep) <= 1e-9 * (1 + std::abs(a) + std::abs(b) + std::abs(c) + std::abs(d)))) sim::violation("inconsistent", "%s: bounds [%g,%g]x[%g,%g] became [%g,%g]x[%g,%g]", what, a, b, c, d, ea, eb, ec, ed);
        double amp = 1e-7 * (1 + s.poles().size());
        for (int q = 0; q < 10; ++q)
        {
            double x = q == 0 ? 0. : q == 1 ? 1. : r.uniform(), y = q == 2 ? 0. : q == 3 ? 1. : r.uniform();
            double u = a + (b - a) * x, v = c + (d - c) * y;
            u = std::min(u, b); v = std::min(v, d);
            // measured from the side that stays where it is
            double eu = in_u && !at_end ? eb - (b - u) : ea + (u - a), ev = !in_u && !at_end ? ed - (d - v) : ec + (v - c);
            auto p = s.value(u, v), z = e.value(std::min(eb, std::max(ea, eu)), std::min(ed, std::max(ec, ev)));
            for (size_t i = 0; i < E::D; ++i) if (!(std::abs(p[i] - z[i]) <= amp)) sim::violation("wrong-geometry", "%s: at (%.17g,%.17g), inside of the original bounds, the surface moved by %g", what, u, v, std::abs(p[i] - z[i]));
        }
        for (int k = 0; k < 2; ++k)
        {
            auto z = e.value(in_u ? (at_end ? eb : ea) : (k ? eb : ea), in_u ? (k ? ed : ec) : (at_end ? ed : ec));
            for (size_t i = 0; i < E::D; ++i) if (!(std::abs(z[i] - want[k][i]) <= amp)) sim::violation("wrong-geometry", "%s: a new corner is off by %g", what, std::abs(z[i] - want[k][i]));
        }
        cover_tag(what, where * 2 + natural, s.degreeU() * 10 + s.degreeV(), cont ? 1 + *cont : 0);
        sim::count("probe.edit");
    }
}
/// An extended surface keeps its definition between the original bounds and goes straight on at the corners.
SIM_SCENARIO(extend, 0.6, false)
{
    auto r = sim::stream("surface");
    switch (r.below(3))
    {
    case 0: extend_case<gbs::BSSurface<double, 3>>(r, "extended"); break;
    case 1: extend_case<gbs::BSSurface<double, 2>>(r, "extended(2d)"); break;
    default: extend_case<gbs::BSSurfaceRational<double, 3>>(r, "extended(rational)"); break;
    }
}

namespace
{
    using namespace h;
    inline size_t span_of(const std::vector<double> &k, size_t p, double u)
    {
        size_t n = k.size() - p - 1, s = p;
        while (s + 1 < n && k[s + 1] <= u) ++s;
        return s;
    }
    /// A history of moves of a surface to points and constraints, in place and on copies, with other edits and failures in between.
    template <size_t D> void shape_case(Rng &r)
    {
        using S = gbs::BSSurface<double, D>;
        using P = gbs::point<double, D>;
        auto su = gen_spec(r, 3, 4), sv = gen_spec(r, 3, 4);
        if (su.p < 2) { su.p = 2; su.n += 1; }
        if (sv.p < 2) { sv.p = 2; sv.n += 1; }
        S c = gen_srf<double, D>(r, su, sv, 2);
        int n = (int)scaled(r, 1, 4);
        for (int i = 0; i < n; ++i)
        {
            auto ro = sim::stream("op", i);
            if (!sim::op_on(i)) continue;
            auto [u1, u2, v1, v2] = c.bounds();
            const auto ku = c.knotsFlatsU(), kv = c.knotsFlatsV();
            size_t p = c.degreeU(), q = c.degreeV(), nu = c.nPolesU(), nv = c.nPolesV();
            double scale = 1;
            for (auto &x : c.poles()) for (auto z : x) scale = std::max(scale, std::abs(z));
            int how = (int)ro.below(6);
            if (how == 5)
            {
                switch (ro.below(4))
                {
                case 0: c.reverseU(); break;
                case 1: c.invertUV(); break;
                case 2: c.insertKnotV(gen_at(ro, kv, v1, v2, false), 1); break;
                default: c.changeUBounds(ro.real(-2, 0), ro.real(0.5, 3)); break;
                }
                continue;
            }
            bool fix = ro.chance(0.4), in_place = ro.chance(0.5);
            auto places = [&](const std::vector<double> &k, size_t d, size_t m) {
                std::vector<double> v;
                for (size_t x = d; x < m; ++x) { double w = k[x + 1] - k[x]; if (w > 1e-2 * (k.back() - k.front())) v.push_back(k[x] + w * ro.real(0.3, 0.7)); }
                for (size_t x = v.size(); x-- > 1;) std::swap(v[x], v[ro.below(x + 1)]);
                return v;
            };
            auto pu = places(ku, p, nu), pv = places(kv, q, nv);
            std::vector<gbs::bss_constraint<double, D>> Q;
            auto off = [&](const P &x, double f) { P y = x; for (auto &z : y) z += f * ro.real(-1, 1); return y; };
            S want = c;
            bool exact = false;
            double u = pu[0], v = pv[0];
            if (how <= 1)
            {
                if (!fix && ro.chance(0.15)) u = ro.chance(0.5) ? u1 : u2;
                if (!fix && ro.chance(0.15)) v = ro.chance(0.5) ? v1 : v2;
                Q.push_back({u, v, off(c.value(u, v), scale), 0, 0});
            }
            else if (how == 2)
            {
                Q.push_back({u, v, off(c.value(u, v), scale), 0, 0});
                int which = (int)ro.range(1, 3);
                if (which & 1) Q.push_back({u, v, off(c.value(u, v, 1, 0), 3 * scale), 1, 0});
                if (which & 2) Q.push_back({u, v, off(c.value(u, v, 0, 1), 3 * scale), 0, 1});
            }
            else if (how == 3)
                for (size_t x = 0, m = 1 + ro.below(std::min<size_t>(3, pu.size())); x < m; ++x) { double y = pv[ro.below(pv.size())]; Q.push_back({pu[x], y, off(c.value(pu[x], y), scale), 0, 0}); }
            else
            {
                exact = true;
                size_t a = span_of(ku, p, u), b = span_of(kv, q, v), i1 = a - p, i2 = a, j1 = b - q, j2 = b;
                if (fix) { i1 = std::max<size_t>(1, i1); i2 = std::min(nu - 2, i2); j1 = std::max<size_t>(1, j1); j2 = std::min(nv - 2, j2); }
                auto W = c.poles();
                for (size_t y = j1; y <= j2; ++y) for (size_t x = i1; x <= i2; ++x) W[x + nu * y] = off(W[x + nu * y], scale);
                want = S(W, ku, kv, p, q);
                size_t mu = p + 1 + ro.below(3), mv = q + 1 + ro.below(3);
                for (size_t y = 0; y < mv; ++y)
                    for (size_t x = 0; x < mu; ++x)
                    {
                        double s = ku[a] + (ku[a + 1] - ku[a]) * (0.02 + 0.96 * x / (mu - 1.)), t = kv[b] + (kv[b + 1] - kv[b]) * (0.02 + 0.96 * y / (mv - 1.));
                        Q.push_back({s, t, want.value(s, t), 0, 0});
                    }
            }
            size_t i1 = nu - 1, i2 = 0, j1 = nv - 1, j2 = 0;
            for (auto &x : Q)
            {
                size_t a = span_of(ku, p, std::get<0>(x)), b = span_of(kv, q, std::get<1>(x));
                i1 = std::min(i1, a - p); i2 = std::max(i2, a); j1 = std::min(j1, b - q); j2 = std::max(j2, b);
            }
            if (fix) { i1 = std::max<size_t>(1, i1); i2 = std::min(nu - 2, i2); j1 = std::max<size_t>(1, j1); j2 = std::min(nv - 2, j2); }
            if (i2 < i1 || j2 < j1) continue;
            if (!exact && (how == 2 ? (i2 - i1 < 1 || j2 - j1 < 1) : Q.size() > i2 - i1 + 1)) continue; // more than the poles left free can meet
            bool point = how == 0;
            sim::note("op %d: to %zu constraints, %s, fixed ends %d, in place %d, degrees %zu,%zu, %zux%zu poles, bounds [%.17g,%.17g]x[%.17g,%.17g]", i, Q.size(), exact ? "determined" : "free", fix, in_place, p, q, nu, nv, u1, u2, v1, v2);
            // a surface is moved in place to points only; constraints give a copy
            auto move = [&](const S &x) {
                if (point && in_place) { S y = x; gbs::move_to_point(y, std::get<2>(Q[0]), std::get<0>(Q[0]), std::get<1>(Q[0]), fix); return y; }
                return point ? S(gbs::moved_to_point(x, std::get<2>(Q[0]), std::get<0>(Q[0]), std::get<1>(Q[0]), fix)) : S(gbs::moved_to_constraints(x, Q, fix));
            };
            SurfState<S> before(c);
            S got = move(c);
            if (auto d = before.diff(c)) sim::violation("input-modified", "moving a copy changed the %s of the surface", d);
            if (sim::fault_on(i) && point && ro.chance(0.5))
            {
                auto go = [&](S &y) { gbs::move_to_point(y, std::get<2>(Q[0]), std::get<0>(Q[0]), std::get<1>(Q[0]), fix); };
                { S y = c; sim::alloc_count_begin(); try { go(y); } catch (...) {} }
                auto w = sim::alloc_disarm();
                if (w.seen)
                {
                    S y = c;
                    sim::alloc_arm(1 + ro.below(w.seen), ro.chance(0.3));
                    Err er = capture([&] { go(y); });
                    sim::alloc_disarm();
                    if (er.any && !er.oom) sim::violation("failure-hidden", "moving to a point ran out of memory and reported %s", er.str().c_str());
                    if (er.any) if (auto d = before.diff(y)) sim::violation("not-atomic", "a failed move to a point changed the %s", d);
                }
            }
            if (got.degreeU() != p || got.degreeV() != q || !same_bits(got.knotsFlatsU(), ku) || !same_bits(got.knotsFlatsV(), kv) || got.poles().size() != nu * nv)
                sim::violation("inconsistent", "moving to constraints changed the degrees, the knots or the pole count");
            for (size_t y = 0; y < nv; ++y)
                for (size_t x = 0; x < nu; ++x)
                    if ((x < i1 || x > i2 || y < j1 || y > j2) && !same_bits(got.poles()[x + nu * y], before.poles[x + nu * y]))
                        sim::violation("wrong-geometry", "moving to constraints changed pole (%zu,%zu), only [%zu,%zu]x[%zu,%zu] may move", x, y, i1, i2, j1, j2);
            double big = scale;
            for (auto &x : got.poles()) for (auto z : x) big = std::max(big, std::abs(z));
            if (!(big < 1e6 * scale)) { sim::count("probe.ill_posed"); break; }
            for (auto &[a, b, x, du, dv] : Q)
            {
                auto z = got.value(a, b, du, dv);
                double tol = (exact ? 1e-5 : 1e-7) * (big + gbs::norm(x)) * (du + dv ? 10. : 1.);
                if (!(dist(z, x) <= tol)) sim::violation("wrong-geometry", "moving to %zu constraints: derivative (%zu,%zu) at (%.17g,%.17g) is off by %Lg", Q.size(), du, dv, a, b, dist(z, x));
            }
            if (exact)
                for (int t = 0; t < 5; ++t)
                {
                    double a = std::min(u2, u1 + (u2 - u1) * ro.uniform()), b = std::min(v2, v1 + (v2 - v1) * ro.uniform());
                    if (!(dist(got.value(a, b), want.value(a, b)) <= 1e-4L * big)) sim::violation("wrong-geometry", "moving to constraints which determine the surface: off by %Lg at (%.17g,%.17g)", dist(got.value(a, b), want.value(a, b)), a, b);
                }
            c = got;
            cover_tag("shape", p * 8 + q, nu * 16 + nv, (sim::u64)(how * 4 + fix * 2 + in_place));
            sim::count("probe.edit");
        }
    }
}
/// Moving a surface to points and constraints makes it meet them and leaves poles elsewhere, knots and bounds alone.
SIM_SCENARIO(shape, 0.8, true)
{
    auto r = sim::stream("surface");
    if (r.chance(0.3)) shape_case<2>(r); else shape_case<3>(r);
}

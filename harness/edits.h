// Edit histories of B-spline curves and surfaces: generation, application, state.
#pragma once
#include "common.h"
#include "errs.h"
#include <gbs/bsctools.h>
#include <gbs/bsstools.h>

namespace h
{
    template <class T> T knot_tol() { return gbs::knot_eps<T>; }

    // ------------------------------------------------------------------ curves
    template <class C> struct curve_traits;
    template <class T, size_t D> struct curve_traits<gbs::BSCurve<T, D>> { using value = T; static constexpr size_t dim = D; static constexpr bool rational = false; };
    template <class T, size_t D> struct curve_traits<gbs::BSCurveRational<T, D>> { using value = T; static constexpr size_t dim = D; static constexpr bool rational = true; };

    template <class C> struct CurveState
    {
        using T = typename curve_traits<C>::value;
        static constexpr size_t K = curve_traits<C>::dim + curve_traits<C>::rational;
        size_t deg;
        std::vector<T> knots;
        pts<T, K> poles;
        std::array<T, 2> bounds;
        explicit CurveState(const C &c) : deg(c.degree()), knots(c.knotsFlats()), poles(c.poles()), bounds(c.bounds()) {}
        const char *diff(const C &c) const
        {
            if (c.degree() != deg) return "degree";
            if (!same_bits(c.knotsFlats(), knots)) return "knots";
            if (c.poles().size() != poles.size()) return "pole count";
            for (size_t i = 0; i < poles.size(); ++i) if (!same_bits(c.poles()[i], poles[i])) return "poles";
            auto b = c.bounds();
            if (!same_bits(b[0], bounds[0]) || !same_bits(b[1], bounds[1])) return "bounds";
            return nullptr;
        }
    };

    enum CurveEditKind { CE_insert, CE_insert_many, CE_remove, CE_elevate, CE_trim, CE_trim_soft, CE_reverse, CE_reversed, CE_bounds, CE_bounds_arr,
                         CE_copy_poles, CE_move_poles, CE_set_pole, CE_copy_knots, CE_split_join, CE_copy, CE_kinds };
    inline const char *curve_edit_name(int k)
    {
        static const char *n[] = {"insertKnot", "insertKnots", "removeKnot", "increaseDegree", "trim", "trim(non-permanent)", "reverse", "reversed", "changeBounds", "changeBounds(array)",
                                  "copyPoles", "movePoles", "pole()=", "copyKnots", "split+join", "copy"};
        return n[k];
    }
    template <class C> struct CurveEdit
    {
        using T = typename curve_traits<C>::value;
        static constexpr size_t D = curve_traits<C>::dim;
        static constexpr bool R = curve_traits<C>::rational;
        static constexpr size_t K = D + R;
        int kind = 0;
        T a{}, b{}, tol{};
        size_t m = 1;
        pts<T, K> poles;
        std::vector<T> knots;
        std::vector<std::pair<T, size_t>> km;
        void apply(C &c)
        {
            switch (kind)
            {
            case CE_insert: c.insertKnot(a, m); break;
            case CE_insert_many: c.insertKnots(km); break;
            case CE_remove: c.removeKnot(a, tol, m); break;
            case CE_elevate: c.increaseDegree(m); break;
            case CE_trim: c.trim(a, b); break;
            case CE_trim_soft: c.trim(a, b, false); break;
            case CE_reverse: c.reverse(); break;
            case CE_reversed: c = c.reversed(); break;
            case CE_bounds: c.changeBounds(a, b); break;
            case CE_bounds_arr: c.changeBounds(std::array<T, 2>{a, b}); break;
            case CE_copy_poles: c.copyPoles(poles); break;
            case CE_move_poles: { auto p = poles; c.movePoles(p); break; }
            case CE_set_pole: c.pole(m) = poles[0]; break;
            case CE_copy_knots: c.copyKnots(knots); break;
            case CE_split_join:
            {
                auto [u1, u2] = c.bounds();
                C c1{c}, c2{c};
                c1.trim(u1, a);
                c2.trim(a, u2);
                if constexpr (sizeof(T) == 8) c = gbs::join(c1, c2); // join<float> does not compile
                break;
            }
            case CE_copy: { C x{c}; C y{std::move(x)}; C z = y; c = z; break; }
            }
        }
        std::string str() const
        {
            char s[200];
            snprintf(s, sizeof s, "%s(%.17g, %.17g, m=%zu, tol=%.3g)", curve_edit_name(kind), (double)a, (double)b, m, (double)tol);
            return s;
        }
    };
    /// An interior parameter of [lo,hi]: generic (kept away from the knots), an existing knot, or a knot up to rounding.
    template <class T> T gen_at(Rng &r, const std::vector<T> &k, T lo, T hi, bool allow_near = true)
    {
        T span = hi - lo;
        if (r.chance(0.35))
        {
            std::vector<T> in;
            for (auto x : k) if (x > lo + span * (T)1e-2 && x < hi - span * (T)1e-2) in.push_back(x);
            if (!in.empty())
            {
                T x = in[r.below(in.size())];
                if (allow_near && r.chance(0.3))
                {
                    T d = (T)(knot_tol<T>() * r.real(0.05, 0.5));
                    x += r.chance(0.5) ? d : -d;
                    sim::count("probe.near_knot");
                }
                return x;
            }
        }
        T best = lo + span / 2, bd = -1;
        for (int t = 0; t < 6; ++t)
        {
            T x = lo + span * (T)r.real(0.03, 0.97), d = span;
            for (auto y : k) d = std::min(d, std::abs(x - y));
            if (d > bd) { bd = d; best = x; }
            if (d > span * (T)1e-2) return x;
        }
        return best;
    }
    /// How much a degree elevation may amplify rounding. The library elevates Bezier segments and removes the inner
    /// knots again; removing one divides by the ratio of a thin span to its surroundings, once per recovered pole.
    /// Elevations where that leaves no significant digits are not asked for: it would be rounding that is judged.
    template <class T> long double elevation_gain(const std::vector<T> &k, size_t p)
    {
        using ld = long double;
        std::vector<T> U;
        std::vector<size_t> M;
        for (auto x : k)
        {
            if (U.empty() || x - U.back() > knot_tol<T>()) { U.push_back(x); M.push_back(1); }
            else ++M.back();
        }
        ld g = 1;
        for (size_t i = 1; i + 1 < U.size(); ++i)
        {
            if (M[i] >= p) continue;
            ld thin = std::min((ld)U[i] - U[i - 1], (ld)U[i + 1] - U[i]);
            ld wide = (ld)U[i + 1] - U[i >= 2 ? i - 2 : 0];
            size_t f = ((p - M[i]) * (p - M[i] + 1) + 3) / 4;
            g = std::max<ld>(g, std::pow(wide / thin, (ld)f));
        }
        return g;
    }
    template <class T> long double elevation_noise(const std::vector<T> &k, size_t p) { return 20 * (long double)std::numeric_limits<T>::epsilon() * elevation_gain(k, p); }
    template <class C> CurveEdit<C> gen_curve_edit(Rng &r, const C &c, int kind)
    {
        using E = CurveEdit<C>;
        using T = typename E::T;
        E e;
        e.kind = kind;
        auto [lo, hi] = c.bounds();
        T span = hi - lo;
        const auto &k = c.knotsFlats();
        size_t p = c.degree(), n = c.poles().size();
        auto draw_poles = [&](size_t cnt) {
            pts<T, E::K> v(cnt);
            auto w = gen_walk<T, E::D>(r, cnt, r.real(0.2, 3));
            for (size_t i = 0; i < cnt; ++i)
            {
                T wt = E::R ? (T)r.real(0.5, 2.) : (T)1;
                for (size_t d = 0; d < E::D; ++d) v[i][d] = w[i][d] * wt;
                if constexpr (E::R) v[i][E::D] = wt;
            }
            return v;
        };
        switch (kind)
        {
        case CE_insert:
            e.a = r.chance(0.06) ? (r.chance(0.5) ? lo : hi) : gen_at(r, k, lo, hi);
            e.m = (size_t)r.range(r.chance(0.05) ? 0 : 1, (long)p + 1);
            break;
        case CE_insert_many:
            for (size_t i = 0, q = (size_t)r.range(1, 4); i < q; ++i) 
            {
                auto kk = k;
                for (auto &x : e.km) kk.push_back(x.first);
                e.km.push_back({gen_at(r, kk, lo, hi, false), (size_t)r.range(1, (long)p)});
            }
            e.m = e.km.size();
            break;
        case CE_remove:
        {
            e.a = r.chance(0.8) && k.size() > 2 * p + 2 ? k[p + 1 + r.below(k.size() - 2 * p - 2)] : r.chance(0.5) ? gen_at(r, k, lo, hi) : r.chance(0.5) ? lo : hi;
            e.m = (size_t)r.range(1, (long)p + 1);
            T s = 0;
            for (auto &q : c.poles()) for (auto x : q) s = std::max(s, std::abs(x));
            e.tol = r.chance(0.7) ? (T)(s * 1e-9) : (T)(s * 1e-11);
            break;
        }
        case CE_elevate: e.m = p >= 7 ? 0 : p >= 6 ? 1 : (size_t)r.range(1, 2); break;
        case CE_trim: case CE_trim_soft:
        {
            // a soft bound near a knot would be separated from it by a later change of scale: a needle-thin span
            bool near = kind == CE_trim;
            auto kk = near ? k : std::vector<T>{};
            e.a = r.chance(0.15) ? lo : gen_at(r, kk, lo, lo + span * (T)0.45);
            e.b = r.chance(0.15) ? hi : gen_at(r, kk, lo + span * (T)0.55, hi);
            if (!near) for (auto x : k) { if (std::abs(x - e.a) < span * (T)1e-3) e.a = lo; if (std::abs(x - e.b) < span * (T)1e-3) e.b = hi; }
            break;
        }
        case CE_bounds: case CE_bounds_arr: e.a = (T)r.real(-3, 3); e.b = e.a + (T)r.real(0.5, 5); break;
        case CE_copy_poles: case CE_move_poles: e.poles = draw_poles(n); break;
        case CE_set_pole: e.poles = draw_poles(1); e.m = r.below(n); break;
        case CE_copy_knots:
        {
            auto kk = k;
            T s = (T)r.real(0.5, 2), o = (T)r.real(-1, 1);
            for (auto &x : kk) x = x * s + o;
            e.knots = kk;
            break;
        }
        case CE_split_join: e.a = gen_at(r, k, lo, hi); break;
        }
        return e;
    }

    // ---------------------------------------------------------------- surfaces
    template <class S> struct surf_traits;
    template <class T, size_t D> struct surf_traits<gbs::BSSurface<T, D>> { using value = T; static constexpr size_t dim = D; static constexpr bool rational = false; };
    template <class T, size_t D> struct surf_traits<gbs::BSSurfaceRational<T, D>> { using value = T; static constexpr size_t dim = D; static constexpr bool rational = true; };

    template <class S> struct SurfState
    {
        using T = typename surf_traits<S>::value;
        static constexpr size_t K = surf_traits<S>::dim + surf_traits<S>::rational;
        size_t p, q;
        std::vector<T> ku, kv;
        pts<T, K> poles;
        std::array<T, 4> bounds;
        explicit SurfState(const S &s) : p(s.degreeU()), q(s.degreeV()), ku(s.knotsFlatsU()), kv(s.knotsFlatsV()), poles(s.poles()), bounds(s.bounds()) {}
        const char *diff(const S &s) const
        {
            if (s.degreeU() != p || s.degreeV() != q) return "degrees";
            if (!same_bits(s.knotsFlatsU(), ku) || !same_bits(s.knotsFlatsV(), kv)) return "knots";
            if (s.poles().size() != poles.size()) return "pole count";
            for (size_t i = 0; i < poles.size(); ++i) if (!same_bits(s.poles()[i], poles[i])) return "poles";
            auto b = s.bounds();
            for (size_t i = 0; i < 4; ++i) if (!same_bits(b[i], bounds[i])) return "bounds";
            return nullptr;
        }
    };
    enum SurfEditKind { SE_insertU, SE_insertV, SE_elevateU, SE_elevateV, SE_trimU, SE_trimV, SE_reverseU, SE_reverseV, SE_boundsU, SE_boundsV, SE_invert, SE_copy_poles, SE_move_poles, SE_set_pole,
                        SE_split_join, SE_split_v, SE_copy, SE_kinds };
    inline const char *surf_edit_name(int k)
    {
        static const char *n[] = {"insertKnotU", "insertKnotV", "increaseDegreeU", "increaseDegreeV", "trimU", "trimV", "reverseU", "reverseV", "changeUBounds", "changeVBounds", "invertUV",
                                  "copyPoles", "movePoles", "pole()=", "split_u+join", "split_v", "copy"};
        return n[k];
    }
    template <class S> struct SurfEdit
    {
        using T = typename surf_traits<S>::value;
        static constexpr size_t D = surf_traits<S>::dim;
        static constexpr bool R = surf_traits<S>::rational;
        static constexpr size_t K = D + R;
        int kind = 0;
        T a{}, b{};
        size_t m = 1, i = 0, j = 0;
        pts<T, K> poles;
        void apply(S &s)
        {
            switch (kind)
            {
            case SE_insertU: s.insertKnotU(a, m); break;
            case SE_insertV: s.insertKnotV(a, m); break;
            case SE_elevateU: s.increaseDegreeU(); break;
            case SE_elevateV: s.increaseDegreeV(); break;
            case SE_trimU: s.trimU(a, b); break;
            case SE_trimV: s.trimV(a, b); break;
            case SE_reverseU: s.reverseU(); break;
            case SE_reverseV: s.reverseV(); break;
            case SE_boundsU: s.changeUBounds(a, b); break;
            case SE_boundsV: s.changeVBounds(a, b); break;
            case SE_invert: s.invertUV(); break;
            case SE_copy_poles: s.copyPoles(poles); break;
            case SE_move_poles: { auto p = poles; s.movePoles(p); break; }
            case SE_set_pole: s.pole(j, i) = poles[0]; break;
            case SE_split_join:
                if constexpr (sizeof(T) == 8) // join<float> does not compile
                {
                    auto [s1, s2] = gbs::split_u<T, D, R>(s, a);
                    s = gbs::join(s1, s2);
                }
                break;
            case SE_split_v: { auto pr = gbs::split_v<T, D, R>(s, a); s = m % 2 ? pr.first : pr.second; break; }
            case SE_copy: { S x{s}; S y{std::move(x)}; S z = y; s = z; break; }
            }
        }
        std::string str() const
        {
            char t[200];
            snprintf(t, sizeof t, "%s(%.17g, %.17g, m=%zu)", surf_edit_name(kind), (double)a, (double)b, m);
            return t;
        }
    };
    template <class S> SurfEdit<S> gen_surf_edit(Rng &r, const S &s, int kind)
    {
        using E = SurfEdit<S>;
        using T = typename E::T;
        E e;
        e.kind = kind;
        auto [u1, u2, v1, v2] = s.bounds();
        bool isV = kind == SE_insertV || kind == SE_elevateV || kind == SE_trimV || kind == SE_reverseV || kind == SE_boundsV || kind == SE_split_v;
        T lo = isV ? v1 : u1, hi = isV ? v2 : u2, span = hi - lo;
        const auto &k = isV ? s.knotsFlatsV() : s.knotsFlatsU();
        size_t p = isV ? s.degreeV() : s.degreeU();
        auto draw_poles = [&](size_t nu, size_t nv) {
            auto w = gen_sheet<T, E::D>(r, nu, nv);
            pts<T, E::K> v(w.size());
            for (size_t i = 0; i < v.size(); ++i)
            {
                T wt = E::R ? (T)r.real(0.6, 1.6) : (T)1;
                for (size_t d = 0; d < E::D; ++d) v[i][d] = w[i][d] * wt;
                if constexpr (E::R) v[i][E::D] = wt;
            }
            return v;
        };
        switch (kind)
        {
        case SE_insertU: case SE_insertV:
            e.a = r.chance(0.06) ? (r.chance(0.5) ? lo : hi) : gen_at(r, k, lo, hi);
            e.m = (size_t)r.range(r.chance(0.05) ? 0 : 1, (long)p + 1);
            break;
        case SE_trimU: case SE_trimV:
            e.a = r.chance(0.15) ? lo : gen_at(r, k, lo, lo + span * (T)0.45);
            e.b = r.chance(0.15) ? hi : gen_at(r, k, lo + span * (T)0.55, hi);
            break;
        case SE_boundsU: case SE_boundsV: e.a = (T)r.real(-3, 3); e.b = e.a + (T)r.real(0.5, 5); break;
        case SE_copy_poles: case SE_move_poles: e.poles = draw_poles(s.nPolesU(), s.nPolesV()); break;
        case SE_set_pole: e.poles = draw_poles(1, 1); e.i = r.below(s.nPolesU()); e.j = r.below(s.nPolesV()); break;
        case SE_split_join: case SE_split_v: e.a = gen_at(r, k, lo, hi); e.m = r.below(2); break;
        }
        return e;
    }
    template <class S> S gen_edit_surface(Rng &r)
    {
        using E = SurfEdit<S>;
        auto su = gen_spec(r, 4, 4), sv = gen_spec(r, 4, 4);
        if constexpr (E::R) return gen_srfr<typename E::T, E::D>(r, su, sv);
        else return gen_srf<typename E::T, E::D>(r, su, sv);
    }
}

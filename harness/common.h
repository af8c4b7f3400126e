// Generators, reference models and comparison helpers shared by the harnesses.
#pragma once
#include "sim.h"
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <list>
#include <memory>
#include <string>
#include <vector>
#include <typeinfo>
#include <gbs/gbslib.h>
#include <gbs/execution.h>
#include <gbs/bscurve.h>
#include <gbs/bssurf.h>

namespace h
{
    using sim::Rng;
    using ld = long double;
    template <class T, size_t D> using pt = std::array<T, D>;
    template <class T, size_t D> using pts = std::vector<std::array<T, D>>;

    inline size_t scaled(Rng &r, long lo, long hi)
    {
        long top = lo + (long)((hi - lo) * sim::size_scale());
        if (top < lo) top = lo;
        return (size_t)r.range(lo, top);
    }
    inline void cover_tag(const char *s, sim::u64 a = 0, sim::u64 b = 0, sim::u64 c = 0)
    {
        sim::u64 v = 1469598103934665603ull;
        for (; *s; ++s) v = (v ^ (unsigned char)*s) * 1099511628211ull;
        sim::cover(sim::mix(sim::mix(v, a), sim::mix(b, c)));
    }

    // ---- bitwise comparison (every NaN equals every NaN) -------------------
    inline bool same_bits(double a, double b)
    {
        if (a != a || b != b) return a != a && b != b;
        return std::memcmp(&a, &b, sizeof a) == 0;
    }
    inline bool same_bits(float a, float b)
    {
        if (a != a || b != b) return a != a && b != b;
        return std::memcmp(&a, &b, sizeof a) == 0;
    }
    inline bool same_bits(size_t a, size_t b) { return a == b; }
    template <class T, size_t D> bool same_bits(const pt<T, D> &a, const pt<T, D> &b)
    {
        for (size_t i = 0; i < D; ++i) if (!same_bits(a[i], b[i])) return false;
        return true;
    }
    template <class A> bool same_bits(const std::vector<A> &a, const std::vector<A> &b)
    {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i) if (!same_bits(a[i], b[i])) return false;
        return true;
    }
    template <class V> void expect_same(const V &got, const V &want, const char *what)
    {
        if (got.size() != want.size())
            sim::violation("wrong-result", "%s: %zu results for %zu inputs", what, got.size(), want.size());
        for (size_t i = 0; i < got.size(); ++i)
            if (!same_bits(got[i], want[i]))
                sim::violation("wrong-result", "%s: element %zu of %zu differs from the pointwise result", what, i, got.size());
    }

    inline void observe(double v) { sim::observe_bytes(&v, sizeof v); }
    template <class T, size_t D> void observe(const pts<T, D> &v) { sim::observe(v.size()); if (!v.empty()) sim::observe_bytes(v.data(), v.size() * sizeof(v[0])); }
    inline void observe(const std::vector<double> &v) { sim::observe(v.size()); if (!v.empty()) sim::observe_bytes(v.data(), v.size() * sizeof(double)); }

    // ---- reference model: de Boor in long double ---------------------------
    template <class T, size_t D>
    std::array<ld, D> ref_eval(const pts<T, D> &poles, const std::vector<T> &k, size_t p, ld u, size_t d = 0)
    {
        std::vector<std::array<ld, D>> P(poles.size());
        for (size_t i = 0; i < P.size(); ++i)
            for (size_t c = 0; c < D; ++c) P[i][c] = poles[i][c];
        std::vector<ld> K(k.begin(), k.end());
        std::array<ld, D> out{};
        for (; d > 0; --d)
        {
            if (p == 0) return out;
            std::vector<std::array<ld, D>> Q(P.size() - 1);
            for (size_t i = 0; i + 1 < P.size(); ++i)
            {
                ld den = K[i + p + 1] - K[i + 1];
                for (size_t c = 0; c < D; ++c) Q[i][c] = den > 0 ? (ld)p * (P[i + 1][c] - P[i][c]) / den : 0;
            }
            P.swap(Q);
            K.erase(K.begin()); K.pop_back();
            --p;
        }
        size_t n = P.size();
        if (u < K[p]) u = K[p];
        if (u > K[n]) u = K[n];
        size_t s = p;
        while (s + 1 < n && !(u < K[s + 1])) ++s;
        while (s > p && !(K[s] < K[s + 1])) --s;
        std::vector<std::array<ld, D>> a(p + 1);
        for (size_t i = 0; i <= p; ++i) a[i] = P[s - p + i];
        for (size_t r = 1; r <= p; ++r)
            for (size_t i = p; i >= r; --i)
            {
                size_t j = s - p + i;
                ld den = K[j + p - r + 1] - K[j];
                ld w = den > 0 ? (u - K[j]) / den : 0;
                for (size_t c = 0; c < D; ++c) a[i][c] = (1 - w) * a[i - 1][c] + w * a[i][c];
            }
        return a[p];
    }
    template <class T, size_t D>
    std::array<ld, D> ref_eval_surf(const pts<T, D> &poles, const std::vector<T> &ku, const std::vector<T> &kv, size_t p, size_t q, ld u, ld v, size_t du = 0, size_t dv = 0)
    {
        size_t nu = ku.size() - p - 1, nv = kv.size() - q - 1;
        pts<ld, D> col(nv);
        for (size_t j = 0; j < nv; ++j)
        {
            pts<ld, D> row(nu);
            for (size_t i = 0; i < nu; ++i)
                for (size_t c = 0; c < D; ++c) row[i][c] = poles[j * nu + i][c];
            std::vector<ld> K(ku.begin(), ku.end());
            col[j] = ref_eval<ld, D>(row, K, p, u, du);
        }
        std::vector<ld> K(kv.begin(), kv.end());
        return ref_eval<ld, D>(col, K, q, v, dv);
    }
    template <size_t D> std::array<ld, D - 1> project(const std::array<ld, D> &a)
    {
        std::array<ld, D - 1> r{};
        for (size_t i = 0; i + 1 < D; ++i) r[i] = a[i] / a[D - 1];
        return r;
    }
    template <class A, class B, size_t D> ld dist(const std::array<A, D> &a, const std::array<B, D> &b)
    {
        ld s = 0;
        for (size_t i = 0; i < D; ++i) { ld x = (ld)a[i] - (ld)b[i]; s += x * x; }
        return std::sqrt(s);
    }
    template <class A, size_t D> ld mag(const std::array<A, D> &a)
    {
        ld s = 0;
        for (size_t i = 0; i < D; ++i) s += (ld)a[i] * (ld)a[i];
        return std::sqrt(s);
    }

    // ---- generators ---------------------------------------------------------
    /// Clamped flat knots for n poles of degree p on [a,b]; interior multiplicities up to mmax (<= p).
    template <class T>
    std::vector<T> gen_knots(Rng &r, size_t n, size_t p, T a, T b, size_t mmax)
    {
        std::vector<T> k;
        size_t left = n - p - 1;
        std::vector<size_t> m;
        while (left)
        {
            size_t q = 1;
            if (mmax > 1 && r.chance(0.3)) q = (size_t)r.range(1, (long)std::min(mmax, left));
            if (q > left) q = left;
            m.push_back(q);
            left -= q;
        }
        std::vector<double> w(m.size() + 1);
        double s = 0;
        bool uniform = r.chance(0.4);
        for (auto &x : w) { x = uniform ? 1. : r.real(0.3, 1.7); s += x; }
        k.insert(k.end(), p + 1, a);
        double acc = 0;
        for (size_t i = 0; i < m.size(); ++i)
        {
            acc += w[i];
            T v = (T)(a + (b - a) * (acc / s));
            k.insert(k.end(), m[i], v);
        }
        k.insert(k.end(), p + 1, b);
        return k;
    }
    template <class T, size_t D> pts<T, D> gen_points(Rng &r, size_t n, double amp = 10.)
    {
        pts<T, D> v(n);
        for (auto &x : v) for (auto &c : x) c = (T)r.real(-amp, amp);
        return v;
    }
    /// Points progressing along the first axis (well-behaved, non-degenerate curves).
    template <class T, size_t D> pts<T, D> gen_walk(Rng &r, size_t n, double amp = 1.)
    {
        pts<T, D> v(n);
        double x = r.real(-1, 1);
        for (size_t i = 0; i < n; ++i)
        {
            x += r.real(0.4, 1.2);
            v[i][0] = (T)x;
            for (size_t c = 1; c < D; ++c) v[i][c] = (T)r.real(-amp, amp);
        }
        return v;
    }
    struct CurveSpec { size_t p, n; double a, b; };
    inline CurveSpec gen_spec(Rng &r, size_t pmax = 5, size_t extra = 8)
    {
        CurveSpec s;
        s.p = (size_t)r.range(1, (long)pmax);
        s.n = s.p + 1 + scaled(r, 0, (long)extra);
        s.a = r.chance(0.4) ? 0. : r.real(-3, 3);
        s.b = s.a + (r.chance(0.4) ? 1. : r.real(0.5, 5));
        if (r.chance(0.12)) // parameters measured in millimetres or seconds rather than on [0, 1]
        {
            double f = std::pow(10., r.real(0.5, 4));
            s.a *= f;
            s.b *= f;
        }
        return s;
    }
    template <class T, size_t D> gbs::BSCurve<T, D> gen_bs(Rng &r, CurveSpec s, size_t mmax = 99)
    {
        auto k = gen_knots<T>(r, s.n, s.p, (T)s.a, (T)s.b, std::min(mmax, s.p));
        return gbs::BSCurve<T, D>(gen_walk<T, D>(r, s.n, r.real(0.2, 3)), k, s.p);
    }
    template <class T, size_t D> gbs::BSCurveRational<T, D> gen_bsr(Rng &r, CurveSpec s, size_t mmax = 99)
    {
        auto k = gen_knots<T>(r, s.n, s.p, (T)s.a, (T)s.b, std::min(mmax, s.p));
        auto w = gen_walk<T, D>(r, s.n, r.real(0.2, 3));
        pts<T, D + 1> wp(s.n);
        for (size_t i = 0; i < s.n; ++i)
        {
            T wt = (T)r.real(0.5, 2.);
            for (size_t c = 0; c < D; ++c) wp[i][c] = w[i][c] * wt;
            wp[i][D] = wt;
        }
        return gbs::BSCurveRational<T, D>(wp, k, s.p);
    }
    /// Graph-like poles over a grid: regular surface normals.
    template <class T, size_t D> pts<T, D> gen_sheet(Rng &r, size_t nu, size_t nv, double amp = 0.6)
    {
        pts<T, D> v(nu * nv);
        for (size_t j = 0; j < nv; ++j)
            for (size_t i = 0; i < nu; ++i)
            {
                auto &q = v[j * nu + i];
                for (size_t c = 0; c < D; ++c) q[c] = (T)r.real(-amp, amp);
                if constexpr (D == 1) q[0] = (T)r.real(0.1, 1.);
                else { q[0] = (T)(i + r.real(-0.2, 0.2)); q[1] = (T)(j + r.real(-0.2, 0.2)); }
            }
        return v;
    }
    template <class T, size_t D> gbs::BSSurface<T, D> gen_srf(Rng &r, CurveSpec su, CurveSpec sv, size_t mmax = 99)
    {
        auto ku = gen_knots<T>(r, su.n, su.p, (T)su.a, (T)su.b, std::min(mmax, su.p));
        auto kv = gen_knots<T>(r, sv.n, sv.p, (T)sv.a, (T)sv.b, std::min(mmax, sv.p));
        return gbs::BSSurface<T, D>(gen_sheet<T, D>(r, su.n, sv.n), ku, kv, su.p, sv.p);
    }
    template <class T, size_t D> gbs::BSSurfaceRational<T, D> gen_srfr(Rng &r, CurveSpec su, CurveSpec sv, size_t mmax = 99)
    {
        auto ku = gen_knots<T>(r, su.n, su.p, (T)su.a, (T)su.b, std::min(mmax, su.p));
        auto kv = gen_knots<T>(r, sv.n, sv.p, (T)sv.a, (T)sv.b, std::min(mmax, sv.p));
        auto s = gen_sheet<T, D>(r, su.n, sv.n);
        pts<T, D + 1> wp(s.size());
        for (size_t i = 0; i < s.size(); ++i)
        {
            T wt = (T)r.real(0.6, 1.6);
            for (size_t c = 0; c < D; ++c) wp[i][c] = s[i][c] * wt;
            wp[i][D] = wt;
        }
        return gbs::BSSurfaceRational<T, D>(wp, ku, kv, su.p, sv.p);
    }
    /// Parameters inside [a,b]: interior, ends, exact knots, repeats.
    template <class T> std::vector<T> gen_params(Rng &r, size_t n, T a, T b, const std::vector<T> &knots = {})
    {
        std::vector<T> u(n);
        int shape = (int)r.below(4);
        for (size_t i = 0; i < n; ++i)
        {
            double x;
            switch (shape)
            {
            case 0: x = n > 1 ? (double)i / (double)(n - 1) : 0.5; break;
            case 1: x = r.uniform(); break;
            case 2: x = n > 1 ? 1. - (double)i / (double)(n - 1) : 0.5; break;
            default: x = r.chance(0.2) ? (r.chance(0.5) ? 0. : 1.) : r.uniform();
            }
            T v = (T)(a + (b - a) * x);
            if (!knots.empty() && r.chance(0.1)) v = knots[r.below(knots.size())];
            if (i && r.chance(0.05)) v = u[i - 1];
            u[i] = v < a ? a : v > b ? b : v;
        }
        return u;
    }
    /// Sets the two size gates of the library for this run: mostly low, so that small
    /// inputs take the parallel path; sometimes the shipped defaults.
    struct Gates
    {
        size_t eval, batch;
        bool shipped;
        Gates(Rng &r, double p_default = 0.12)
        {
            shipped = r.chance(p_default);
            if (shipped) { eval = 1000; batch = 8; }
            else { eval = (size_t)r.range(0, 40); batch = (size_t)r.range(0, 12); }
            gbs::parallel_min_size = eval;
            gbs::parallel_batch_min_size = batch;
        }
        /// An element count, biased to the neighbourhood of the gate.
        size_t count(Rng &r, long hi) const
        {
            // now and then lengths around powers of two, where work split in blocks leaves a remainder
            if (hi >= 100 && r.chance(0.01)) { sim::count("probe.block_size"); return (size_t)((1L << r.range(8, 13)) + r.range(-1, 1)); }
            if (shipped) { sim::count("probe.shipped_gate"); return (size_t)r.range(990, 1030); }
            if (r.chance(0.05)) return r.below(3);
            if (r.chance(0.3)) return (size_t)std::max<long>(0, (long)eval + r.range(-2, 2));
            return scaled(r, 0, hi);
        }
    };
    template <template <class...> class C, class T> C<T> as(const std::vector<T> &v) { return C<T>(v.begin(), v.end()); }
}

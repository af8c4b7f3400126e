// One object of every curve / surface class of the kernel.
#pragma once
#include "common.h"
#include <gbs/bscinterp.h>
#include <gbs/bscapprox.h>
#include <gbs/bscanalysis.h>
#include <gbs/bscbuild.h>
#include <gbs/curvecircle.h>
#include <gbs/curveline.h>
#include <gbs/curvecomposite.h>
#include <gbs/curvetrimmed.h>
#include <gbs/curveextended.h>
#include <gbs/curveReversed.h>
#include <gbs/curvereparametrized.h>
#include <gbs/curveoffset.h>
#include <gbs/curveonsurface.h>
#include <gbs/surfaceofrevolution.h>

namespace h
{
    template <size_t D> using CrvP = std::shared_ptr<gbs::Curve<double, D>>;
    template <size_t D> using SrfP = std::shared_ptr<gbs::Surface<double, D>>;
    struct Offset // a user offset law
    {
        double a, b;
        double operator()(double u, size_t d = 0) const { return d == 0 ? a + b * u : d == 1 ? b : 0.; }
    };
    inline gbs::BSCfunction<double> gen_monotone(Rng &r, double a, double b, double u1, double u2)
    {
        size_t n = (size_t)r.range(4, 7);
        std::vector<double> w(n), k;
        double s = 0;
        w[0] = 0;
        for (size_t i = 1; i < n; ++i) { w[i] = w[i - 1] + r.real(0.3, 1.); }
        s = w[n - 1];
        for (auto &x : w) x = u1 + (u2 - u1) * (x / s);
        w[n - 1] = u2;
        k = gen_knots<double>(r, n, 3, a, b, 1);
        return gbs::BSCfunction<double>(w, k, 3);
    }
    constexpr int n_curve_kinds = 10;
    /// kind in [0,n_curve_kinds); every curve supports derivatives up to order 2 on its bounds.
    template <size_t D> CrvP<D> gen_curve(Rng &r, int kind, const char **name = nullptr)
    {
        const char *dummy;
        const char *&nm = name ? *name : dummy;
        auto s = gen_spec(r);
        if (s.p < 2) { s.p = 2; s.n += 1; }
        switch (kind)
        {
        case 1: nm = "rational"; return std::make_shared<gbs::BSCurveRational<double, D>>(gen_bsr<double, D>(r, s));
        case 2:
        {
            nm = "trimmed";
            auto c = std::make_shared<gbs::BSCurve<double, D>>(gen_bs<double, D>(r, s));
            auto [a, b] = c->bounds();
            return std::make_shared<gbs::CurveTrimmed<double, D>>(c, a + 0.2 * (b - a), b - 0.1 * (b - a));
        }
        case 3:
        {
            nm = "reversed";
            auto c = std::make_shared<gbs::BSCurve<double, D>>(gen_bs<double, D>(r, s));
            return std::make_shared<gbs::CurveReversed<double, D>>(c);
        }
        case 4:
        {
            nm = "composite";
            std::vector<CrvP<D>> l;
            size_t n = (size_t)r.range(1, 4);
            for (size_t i = 0; i < n; ++i) l.push_back(std::make_shared<gbs::BSCurve<double, D>>(gen_bs<double, D>(r, s)));
            return std::make_shared<gbs::CurveComposite<double, D>>(l);
        }
        case 5:
        {
            nm = "reparametrized";
            auto c = std::make_shared<gbs::BSCurve<double, D>>(gen_bs<double, D>(r, s));
            auto [a, b] = c->bounds();
            return std::make_shared<gbs::CurveReparametrized<double, D>>(c, gen_monotone(r, 0., 2., a, b));
        }
        case 6:
            nm = "circle";
            if constexpr (D == 2) return std::make_shared<gbs::Circle2d<double>>(r.real(0.5, 3), gbs::point<double, 2>{r.real(-1, 1), r.real(-1, 1)});
            else if constexpr (D == 3) return std::make_shared<gbs::Circle3d<double>>(r.real(0.5, 3), gbs::ax1<double, 3>{{{{0, 0, 0}}, {{0, 0, 1}}}});
            else { nm = "bspline"; return std::make_shared<gbs::BSCurve<double, D>>(gen_bs<double, D>(r, s)); }
        case 7:
            if constexpr (D == 2)
            {
                nm = "offset2d";
                auto s2 = s; if (s2.p < 3) { s2.p = 3; s2.n += 2; }
                auto c = std::make_shared<gbs::BSCurve<double, 2>>(gen_bs<double, 2>(r, s2, 1));
                return std::make_shared<gbs::CurveOffset2D<double, Offset>>(c, Offset{r.real(0.05, 0.2), r.real(-0.02, 0.02)});
            }
            else if constexpr (D == 3)
            {
                nm = "on-surface";
                CurveSpec a{2, 5, 0, 1}, b{3, 6, 0, 1};
                auto srf = std::make_shared<gbs::BSSurface<double, 3>>(gen_srf<double, 3>(r, a, b, 1));
                auto k = gen_knots<double>(r, 5, 3, 0., 1., 1);
                pts<double, 2> q(5);
                for (size_t i = 0; i < 5; ++i) q[i] = {0.05 + 0.9 * i / 4., r.real(0.05, 0.95)};
                auto c = std::make_shared<gbs::BSCurve<double, 2>>(q, k, 3);
                return std::make_shared<gbs::CurveOnSurface<double, 3>>(c, srf);
            }
            else { nm = "bspline"; return std::make_shared<gbs::BSCurve<double, D>>(gen_bs<double, D>(r, s)); }
        case 8:
        {
            nm = "extended";
            auto c = std::make_shared<gbs::BSCurve<double, D>>(gen_bs<double, D>(r, s));
            auto e = std::make_shared<gbs::CurveExtended<double, D>>(c, r.chance(0.5));
            auto [a, b] = c->bounds();
            return std::make_shared<gbs::CurveTrimmed<double, D>>(e, a - 0.3, b + 0.3);
        }
        case 9:
        {
            nm = "line";
            auto q = gen_walk<double, D>(r, 2);
            auto l = std::make_shared<gbs::Line<double, D>>(q[0], q[1]);
            return std::make_shared<gbs::CurveTrimmed<double, D>>(l, 0., r.real(1, 4));
        }
        default: nm = "bspline"; return std::make_shared<gbs::BSCurve<double, D>>(gen_bs<double, D>(r, s));
        }
    }
    constexpr int n_surface_kinds = 3;
    inline SrfP<3> gen_surface(Rng &r, int kind, const char **name = nullptr)
    {
        const char *dummy;
        const char *&nm = name ? *name : dummy;
        auto su = gen_spec(r, 4, 4), sv = gen_spec(r, 4, 4);
        if (su.p < 2) { su.p = 2; su.n += 1; }
        if (sv.p < 2) { sv.p = 2; sv.n += 1; }
        switch (kind)
        {
        case 1: nm = "rational"; return std::make_shared<gbs::BSSurfaceRational<double, 3>>(gen_srfr<double, 3>(r, su, sv));
        case 2:
        {
            nm = "revolution";
            auto k = gen_knots<double>(r, 6, 3, 0., 1., 1);
            pts<double, 2> q(6);
            for (size_t i = 0; i < 6; ++i) q[i] = {1. + r.real(0, 1), i * 0.5 + r.real(-0.1, 0.1)};
            gbs::ax2<double, 3> ax{{{0, 0, 0}, {0, 0, 1}, {1, 0, 0}}};
            return std::make_shared<gbs::SurfaceOfRevolution<double>>(std::make_shared<gbs::BSCurve<double, 2>>(q, k, 3), ax, 0., r.real(1., 6.));
        }
        default: nm = "bspline"; return std::make_shared<gbs::BSSurface<double, 3>>(gen_srf<double, 3>(r, su, sv));
        }
    }
}

// Read-only operations of the library over a shared set of objects: each is a function World -> fingerprint.
#pragma once
#include "zoo.h"
#include "errs.h"
#include "mesh.h"
#include <functional>
#include <gbs/bssanalysis.h>
#include <gbs/bssapprox.h>
#include <gbs/bssbuild.h>
#include <gbs/bssinterp.h>
#include <gbs/bsctools.h>
#include <gbs/bsstools.h>
#include <gbs/bscshaping.h>
#include <gbs/bssshaping.h>
#include <gbs/extrema.h>
#include <gbs/offsets.h>
#include <gbs/transform.h>
#include <gbs/curvescheck.h>
#include <gbs-io/tojson.h>
#include <gbs-io/fromjson.h>
#include <gbs-mesh/tfi.h>
#include <gbs-mesh/mshedge.h>
#include "smooth.h"

namespace h
{
    using gbs::operator+;
    using gbs::operator-;
    using gbs::operator*;
    // ---- fingerprints (no allocation) --------------------------------------
    struct Fp
    {
        sim::u64 v = 0x1234567;
        void raw(sim::u64 x) { v = sim::mix(v, x); }
        void add(double x) { if (x != x) { raw(0x7ff8); return; } sim::u64 b; std::memcpy(&b, &x, 8); raw(b); }
        void add(float x) { add((double)x); }
        void add(bool b) { raw(b); }
        void add(size_t n) { raw(n); }
        void add(int n) { raw((sim::u64)n); }
        template <class T, size_t D> void add(const std::array<T, D> &a) { for (auto &x : a) add(x); }
        template <class A, class B> void add(const std::pair<A, B> &p) { add(p.first); add(p.second); }
        template <class... A> void add(const std::tuple<A...> &t) { std::apply([&](auto &...x) { (add(x), ...); }, t); }
        template <class T> void add(const std::vector<T> &a) { raw(a.size()); for (auto &x : a) add(x); }
        template <class T> void add(const std::list<T> &a) { raw(a.size()); for (auto &x : a) add(x); }
        template <class T, size_t D, bool R> void add(const gbs::BSCurveGeneral<T, D, R> &c) { raw(c.degree()); add(c.knotsFlats()); add(c.poles()); add(c.bounds()); }
        template <class T, size_t D, bool R> void add(const gbs::BSSurfaceGeneral<T, D, R> &c) { raw(c.degreeU()); raw(c.degreeV()); add(c.knotsFlatsU()); add(c.knotsFlatsV()); add(c.poles()); add(c.bounds()); }
        template <class T> void add(const gbs::BSCfunction<T> &f) { add(f.basisCurve()); }
        void add(const rapidjson::Value &j)
        {
            switch (j.GetType())
            {
            case rapidjson::kObjectType: raw(1); for (auto &m : j.GetObject()) { add(m.name); add(m.value); } break;
            case rapidjson::kArrayType: raw(2); for (auto &e : j.GetArray()) add(e); break;
            case rapidjson::kStringType: for (unsigned i = 0; i < j.GetStringLength(); ++i) raw((sim::u64)j.GetString()[i]); break;
            case rapidjson::kNumberType: if (j.IsDouble()) add(j.GetDouble()); else raw((sim::u64)j.GetInt64()); break;
            default: raw(3 + j.GetType());
            }
        }
    };
    template <class... A> sim::u64 fp(const A &...a) { Fp f; (f.add(a), ...); return f.v; }

    // ---- shared objects -----------------------------------------------------
    template <size_t D> struct Curves
    {
        std::vector<std::shared_ptr<gbs::BSCurve<double, D>>> bs;
        std::vector<std::shared_ptr<gbs::BSCurveRational<double, D>>> bsr;
        std::vector<CrvP<D>> any;           // every class, most of them built on bs / bsr
        std::vector<const char *> names;
        std::vector<gbs::BSCurve<double, D>> family; // same parameter range, for batches
        pts<double, D> points;
    };
    struct World
    {
        Curves<2> c2;
        Curves<3> c3;
        std::vector<std::shared_ptr<gbs::BSSurface<double, 3>>> srf;
        std::vector<std::shared_ptr<gbs::BSSurfaceRational<double, 3>>> srfr;
        std::vector<SrfP<3>> any_srf;
        std::vector<std::shared_ptr<gbs::BSCfunction<double>>> law;
        pts<double, 3> grid;                // n_grid x n_grid points
        size_t n_grid = 0;
        pts<double, 2> cloud, ring;
        Mesh mesh;
        std::shared_ptr<rapidjson::Document> doc;

        sim::u64 print() const
        {
            Fp f;
            auto crv = [&](auto &c) {
                for (auto &p : c.bs) f.add(*p);
                for (auto &p : c.bsr) f.add(*p);
                for (auto &p : c.any) { auto [a, b] = p->bounds(); f.add(a); f.add(b); for (int i = 0; i < 4; ++i) f.add(p->value(i == 3 ? b : a + (b - a) * i / 3.)); }
                for (auto &p : c.family) f.add(p);
                f.add(c.points);
            };
            crv(c2);
            crv(c3);
            for (auto &p : srf) f.add(*p);
            for (auto &p : srfr) f.add(*p);
            for (auto &p : any_srf) { auto [a, b, c, d] = p->bounds(); f.add(a + b + c + d); f.add(p->value(a + 0.3 * (b - a), c + 0.6 * (d - c))); }
            for (auto &p : law) f.add(*p);
            f.add(grid); f.add(cloud); f.add(ring);
            for (auto &x : mesh) for (auto &t : gbs::getTriangleCoords(*x)) f.add(t);
            f.add(*doc);
            return f.v;
        }
    };
    template <size_t D> void gen_curves(Rng &r, Curves<D> &w)
    {
        for (int i = 0; i < 2; ++i)
        {
            auto s = gen_spec(r, 4, 4);
            if (s.p < 3) { s.n += 3 - s.p; s.p = 3; }
            w.bs.push_back(std::make_shared<gbs::BSCurve<double, D>>(gen_bs<double, D>(r, s, 1)));
            auto q = gen_spec(r, 4, 4);
            if (q.p < 2) { q.n += 1; q.p = 2; }
            w.bsr.push_back(std::make_shared<gbs::BSCurveRational<double, D>>(gen_bsr<double, D>(r, q, 1)));
        }
        auto put = [&](const char *n, CrvP<D> p) { w.names.push_back(n); w.any.push_back(std::move(p)); };
        CrvP<D> base = r.chance(0.5) ? CrvP<D>(w.bs[0]) : CrvP<D>(w.bsr[0]);
        auto [a, b] = base->bounds();
        put("bspline", w.bs[0]);
        put("rational", w.bsr[0]);
        put("trimmed", std::make_shared<gbs::CurveTrimmed<double, D>>(base, a + 0.2 * (b - a), b - 0.1 * (b - a)));
        if (auto q = std::dynamic_pointer_cast<gbs::BSCurve<double, D>>(base)) put("reversed", std::make_shared<gbs::CurveReversed<double, D>>(q));
        put("composite", std::make_shared<gbs::CurveComposite<double, D>>(std::vector<CrvP<D>>{w.bs[0], w.bsr[1], w.bs[1]}));
        auto [c, d] = w.bs[1]->bounds();
        put("reparametrized", std::make_shared<gbs::CurveReparametrized<double, D>>(w.bs[1], gen_monotone(r, 0., 2., c, d)));
        auto ext = std::make_shared<gbs::CurveExtended<double, D>>(w.bs[1], r.chance(0.5));
        put("extended", std::make_shared<gbs::CurveTrimmed<double, D>>(ext, c - 0.3, d + 0.3));
        if constexpr (D == 2)
        {
            put("offset", std::make_shared<gbs::CurveOffset2D<double, Offset>>(w.bs[1], Offset{r.real(0.05, 0.2), 0.01}));
            put("circle", std::make_shared<gbs::Circle2d<double>>(r.real(0.5, 3), gbs::point<double, 2>{r.real(-1, 1), 0}));
        }
        auto s = gen_spec(r, 3, 3);
        if (s.p < 2) { s.n += 1; s.p = 2; }
        size_t n = (size_t)r.range(2, 4);
        for (size_t i = 0; i < n; ++i)
        {
            auto q = s;
            q.p = (size_t)r.range(2, 3);
            q.n = q.p + 1 + r.below(3);
            auto cv = gen_bs<double, D>(r, q, 1);
            auto P = cv.poles();
            for (auto &x : P) x[D - 1] += 3. * i;
            cv.movePoles(P);
            w.family.push_back(cv);
        }
        w.points = gen_walk<double, D>(r, 4 + scaled(r, 2, 12));
    }
    inline World gen_world(Rng r)
    {
        World w;
        gen_curves<2>(r, w.c2);
        gen_curves<3>(r, w.c3);
        for (int i = 0; i < 2; ++i)
        {
            auto su = gen_spec(r, 3, 3), sv = gen_spec(r, 3, 3);
            if (su.p < 2) { su.p = 2; su.n += 1; }
            if (sv.p < 2) { sv.p = 2; sv.n += 1; }
            if (i == 0) w.srf.push_back(std::make_shared<gbs::BSSurface<double, 3>>(gen_srf<double, 3>(r, su, sv, 1)));
            else w.srfr.push_back(std::make_shared<gbs::BSSurfaceRational<double, 3>>(gen_srfr<double, 3>(r, su, sv, 1)));
        }
        w.any_srf = {w.srf[0], w.srfr[0], gen_surface(r, 2)};
        auto [a, b, c, d] = w.srf[0]->bounds();
        auto k = gen_knots<double>(r, 5, 3, 0., 1., 1);
        pts<double, 2> q(5);
        for (size_t i = 0; i < 5; ++i) q[i] = {a + (b - a) * (0.05 + 0.9 * i / 4.), c + (d - c) * r.real(0.05, 0.95)};
        w.c3.names.push_back("on-surface");
        w.c3.any.push_back(std::make_shared<gbs::CurveOnSurface<double, 3>>(std::make_shared<gbs::BSCurve<double, 2>>(q, k, 3), w.srf[0]));
        w.law.push_back(std::make_shared<gbs::BSCfunction<double>>(gen_monotone(r, 0., 1., 0.1, 0.5)));
        w.n_grid = (size_t)r.range(4, 6);
        w.grid = gen_sheet<double, 3>(r, w.n_grid, w.n_grid);
        w.cloud = gen_cloud(r, (int)r.below(3), 6 + scaled(r, 0, 14));
        w.ring = gen_star(r, (size_t)r.range(4, 9), {0, 0}, 1, 2);
        w.mesh = gbs::delaunay2DBoyerWatson<double>(w.cloud);
        w.doc = std::make_shared<rapidjson::Document>();
        w.doc->SetArray();
        auto &al = w.doc->GetAllocator();
        w.doc->PushBack(gbs::make_json(*w.c3.bs[0], al), al);
        w.doc->PushBack(gbs::make_json(*w.c3.bsr[0], al), al);
        w.doc->PushBack(gbs::make_json((const gbs::Surface<double, 3> *)w.srf[0].get(), al), al);
        w.doc->PushBack(gbs::make_json((const gbs::Surface<double, 3> *)w.srfr[0].get(), al), al);
        return w;
    }

    // ---- operations -----------------------------------------------------------
    struct Op
    {
        const char *name = "";
        const char *on = "";
        std::function<sim::u64(const World &)> run;
        bool document = false;   // goes through rapidjson's own memory
        bool mesh = false;       // meshes are cycles of shared pointers
    };
    template <size_t D> const Curves<D> &curves(const World &w) { if constexpr (D == 2) return w.c2; else return w.c3; }
    constexpr int n_curve_ops = 48;
    template <size_t D> Op gen_curve_op(Rng &r, const World &w0, int kind = -1)
    {
        auto &C = curves<D>(w0);
        if (kind < 0) kind = (int)r.below(n_curve_ops);
        size_t i = r.below(C.any.size()), j = r.below(C.any.size());
        // composite curves jump: they are evaluated and sampled, not searched
        auto cont = [&](size_t k) { while (!std::strcmp(C.names[k], "composite")) k = (k + 1) % C.any.size(); return k; };
        double t = r.uniform();
        size_t n = (size_t)r.range(2, 14);
        Op o;
        o.on = C.names[i];
        auto at = [i, t](const World &w) { auto [a, b] = curves<D>(w).any[i]->bounds(); return std::min(b, a + t * (b - a)); };
        size_t b = r.below(2);
        switch (kind)
        {
        case 0: { size_t d = r.below(3); o.name = "value"; o.run = [=](const World &w) { return fp(curves<D>(w).any[i]->value(at(w), d)); }; break; }
        case 1: { size_t d = r.below(2); o.name = "bulk values"; o.run = [=](const World &w) { auto &c = *curves<D>(w).any[i]; auto [x, y] = c.bounds(); std::vector<double> u(n); for (size_t k = 0; k < n; ++k) u[k] = std::min(y, x + (y - x) * k / (n - 1.)); return fp(c.values(u, d)); }; break; }
        case 2: o.name = "bounds and ends"; o.run = [=](const World &w) { auto &c = *curves<D>(w).any[i]; return fp(c.bounds(), c.begin(), c.end(), c.midPosition(), c.begin(1), c.end(1)); }; break;
        case 3: i = cont(i); o.name = "length"; o.run = [=](const World &w) { return fp(gbs::length<double, D, 15>(*curves<D>(w).any[i], 0, false)); }; break;
        case 4: i = cont(i); o.name = "arc length law"; o.run = [=](const World &w) { return fp(gbs::abs_curv<double, D, 15>(*curves<D>(w).any[i], n)); }; break;
        case 5: o.name = "sampling"; o.run = [=](const World &w) { return fp(gbs::discretize<double, D>(*curves<D>(w).any[i], n)); }; break;
        case 6: { i = cont(i); double dev = r.real(0.05, 0.3); o.name = "deviation sampling"; o.run = [=](const World &w) { return fp(gbs::discretize<double, D>(*curves<D>(w).any[i], n, dev, 300)); }; break; }
        case 7: i = cont(i); o.name = "uniform parameters"; o.run = [=](const World &w) { return fp(gbs::uniform_distrib_params<double, D>(*curves<D>(w).any[i], n, 8)); }; break;
        case 8: { i = cont(i); size_t q = r.below(C.points.size()); o.name = "nearest point"; o.run = [=](const World &w) { auto &K = curves<D>(w); return fp(gbs::extrema_curve_point(*K.any[i], K.points[q], 1e-6, nlopt::LN_COBYLA, n)); }; break; }
        case 9: { i = cont(i); j = cont(j); o.name = "nearest points of two curves"; o.run = [=](const World &w) { auto &K = curves<D>(w); return fp(gbs::extrema_curve_curve<double, D>(*K.any[i], *K.any[j], 1e-6, nlopt::LN_COBYLA, 4, 4)); }; break; }
        case 10: o.name = "to B-spline"; i = cont(i); o.run = [=](const World &w) { return fp(*gbs::to_bs_curve<double, D>(curves<D>(w).any[i], 0.05, 30, 3)); }; break;
        case 11: o.name = "approximation"; i = cont(i); o.run = [=](const World &w) { return fp(gbs::approx<double, D>(*curves<D>(w).any[i], 0.2, 6, 3, gbs::KnotsCalcMode::CHORD_LENGTH)); }; break;
        case 12: o.name = "JSON"; o.document = true; o.run = [=](const World &w) { rapidjson::Document d; return fp(gbs::make_json((const gbs::Curve<double, D> *)curves<D>(w).any[i].get(), d.GetAllocator())); }; break;
        case 13: { o.name = "copy, insert a knot"; o.on = "bspline"; size_t m = (size_t)r.range(1, 2); o.run = [=](const World &w) { auto c = *curves<D>(w).bs[b]; auto [x, y] = c.bounds(); c.insertKnot(x + (y - x) * (0.1 + 0.8 * t), m); return fp(c); }; break; }
        case 14: o.name = "copy, elevate"; o.on = "rational"; o.run = [=](const World &w) { auto c = *curves<D>(w).bsr[b]; c.increaseDegree(); return fp(c); }; break;
        case 15: o.name = "copy, trim"; o.on = "bspline"; o.run = [=](const World &w) { auto c = *curves<D>(w).bs[b]; auto [x, y] = c.bounds(); c.trim(x + (y - x) * 0.3 * t, y - (y - x) * 0.2); c.reverse(); return fp(c); }; break;
        case 16: o.name = "copy, change bounds"; o.on = "rational"; o.run = [=](const World &w) { auto c = *curves<D>(w).bsr[b]; c.changeBounds(-1., 2. + t); return fp(c); }; break;
        case 17: o.name = "join"; o.run = [=](const World &w) { auto &K = curves<D>(w); return fp(gbs::join(*K.bs[0], *K.bs[1]), gbs::join(*K.bs[0], *K.bsr[b])); }; break;
        case 18: o.name = "unify"; o.run = [=](const World &w) { auto l = curves<D>(w).family; gbs::unify_curves_degree(l); gbs::unify_curves_knots(l); return fp(l); }; break;
        case 19: o.name = "unified copies"; o.run = [=](const World &w) { return fp(gbs::unified_curves(curves<D>(w).family)); }; break;
        case 20: o.name = "connect"; i = cont(i); j = cont(j); o.run = [=](const World &w) { auto &K = curves<D>(w); return t < 0.5 ? fp(gbs::c2_connect<double, D>(*K.any[i], *K.any[j])) : fp(gbs::cn_connect<double, D>(*K.bs[0], *K.bs[1], 1., 3, 1)); }; break;
        case 21: o.name = "extend"; o.run = [=](const World &w) { return fp(gbs::extended(*curves<D>(w).bs[b], 0.3 + t, t < 0.5, false, n & 1)); }; break;
        case 22: { o.name = "move to a point"; o.run = [=](const World &w) { auto &c = *curves<D>(w).bs[b]; auto [x, y] = c.bounds(); auto u = x + (y - x) * (0.3 + 0.4 * t); auto p = c.value(u); p[1] += 0.1; return fp(gbs::moved_to_point(c, p, u)); }; break; }
        case 23: o.name = "derivative, integral"; o.run = [=](const World &w) { auto &c = *curves<D>(w).bs[b]; return fp(gbs::build_derivate(c), gbs::build_integrate(c)); }; break;
        case 24: o.name = "ellipse, segment"; o.run = [=](const World &w) { auto &K = curves<D>(w); auto e = gbs::build_ellipse<double, D>(1. + t, 2.); return fp(e, gbs::build_segment(K.points[0], K.points[1]), e.value(t)); }; break;
        case 25: o.name = "curvature peak"; o.run = [=](const World &w) { return fp(gbs::max_curvature_pos<double, D>(*curves<D>(w).bs[b], 1e-3)); }; break;
        case 26: o.name = "tangent, normal"; i = cont(i); o.run = [=](const World &w) { auto &c = *curves<D>(w).any[i]; auto u = at(w); return fp(gbs::tangential_line<double, D>(c, u), gbs::normal_line<double, D>(c, u)); }; break;
        case 27: { auto m = r.chance(0.5) ? gbs::KnotsCalcMode::CHORD_LENGTH : gbs::KnotsCalcMode::CENTRIPETAL; size_t p = (size_t)r.range(1, 3); o.name = "interpolate"; o.on = "points"; o.run = [=](const World &w) { return fp(gbs::interpolate<double, D>(curves<D>(w).points, p, m)); }; break; }
        case 28: { o.name = "approximate points"; o.on = "points"; size_t np = (size_t)r.range(4, 5); o.run = [=](const World &w) { return fp(gbs::approx<double, D>(curves<D>(w).points, 3, np, gbs::KnotsCalcMode::CHORD_LENGTH)); }; break; }
        case 29: { o.name = "interpolate a batch"; o.on = "points"; size_t m = (size_t)r.range(1, 5); o.run = [=](const World &w) { std::vector<pts<double, D>> l(m, curves<D>(w).points); for (size_t k = 0; k < m; ++k) l[k][0][0] -= 0.1 * k; return fp(gbs::interpolate<double, D>(l, 3, gbs::KnotsCalcMode::CHORD_LENGTH)); }; break; }
        case 30: { o.name = "solve a coordinate"; i = cont(i); o.run = [=](const World &w) { auto &c = *curves<D>(w).any[i]; return fp(gbs::solve_coordinate<double, D>(c, 0, c.value(at(w))[0])); }; break; }
        case 31: o.name = "nearest points to a list of curves"; i = cont(i); o.run = [=](const World &w) { auto &K = curves<D>(w); return fp(gbs::extrema_curve_curve_lst<double, D>(*K.any[i], K.any.begin(), K.any.begin() + 2, 1e-4)); }; break;
        case 32: o.name = "added dimension"; o.run = [=](const World &w) { if constexpr (D == 2) { auto &K = curves<D>(w); return fp(gbs::add_dimension(*K.bs[b], t), gbs::add_dimension(*K.bsr[b], t)); } else return fp(gbs::check_p_curves_bounds<double, D>(curves<D>(w).any.begin(), curves<D>(w).any.end())); }; break;
        case 33: o.name = "copy, move"; o.run = [=](const World &w) { auto c = *curves<D>(w).bs[b]; gbs::translate(c, curves<D>(w).points[0]); gbs::scale(c, 1.5); auto q = gbs::transformed(c, [](auto p) { for (auto &x : p) x = 2 * x; return p; }); return fp(c, q); }; break;
        case 35: { size_t nc = 2 + r.below(2); bool add = r.chance(0.3); o.name = "interpolate with tangents"; o.on = "points"; o.run = [=](const World &w) {
            auto &q = curves<D>(w).points;
            auto tan = [&](size_t k) { return (q[std::min(k + 1, q.size() - 1)] - q[k ? k - 1 : 0]) * (0.5 + t); };
            size_t m = std::min<size_t>(q.size(), n);
            if (nc == 2) { std::vector<gbs::constrType<double, D, 2>> v; for (size_t k = 0; k < m; ++k) v.push_back({q[k], tan(k)}); return fp(gbs::interpolate<double, D>(v, gbs::KnotsCalcMode::CHORD_LENGTH, add)); }
            std::vector<gbs::constrType<double, D, 3>> v;
            for (size_t k = 0; k < std::min<size_t>(m, 4); ++k) v.push_back({q[k], tan(k), tan(q.size() - 1 - k)});
            return fp(gbs::interpolate<double, D>(v, gbs::KnotsCalcMode::CHORD_LENGTH)); }; break; }
        case 36: { size_t p = (size_t)r.range(2, 4); o.name = "interpolate constraints"; o.on = "points"; o.run = [=](const World &w) {
            auto &q = curves<D>(w).points;
            size_t m = std::min<size_t>(q.size(), 9);
            std::vector<gbs::bsc_constraint<double, D>> C{{0., q[1] - q[0], 1}, {1., q[m - 1] - q[m - 2], 1}};
            for (size_t k = 1; k + 1 < m; ++k) C.push_back({(k + 0.3 * t) / m, q[k], 0});
            return fp(gbs::interpolate<double, D>(gbs::bsc_bound<double, D>{0., q[0]}, gbs::bsc_bound<double, D>{1., q[m - 1]}, C, p)); }; break; }
        case 37: { o.name = "connect by constraints"; i = cont(i); j = cont(j); o.run = [=](const World &w) { auto &K = curves<D>(w); auto &a = *K.any[i]; auto &b = *K.any[j]; return t < 0.5 ? fp(gbs::c2_connect<double, D>(a, b, 0.2 + t)) : fp(gbs::c3_connect<double, D>(*K.bs[0], *K.bs[1])); }; break; }
        case 38: { // the same parameters on other knots: nothing computed for one call may serve another
            size_t p = (size_t)r.range(2, 3); bool even = r.chance(0.5); o.name = "poles on given knots"; o.on = "points"; o.run = [=](const World &w) {
            auto &q = curves<D>(w).points;
            size_t m = q.size();
            if (m < p + 2) return sim::u64(0);
            std::vector<double> u(m);
            for (size_t k = 0; k < m; ++k) u[k] = k / (m - 1.);
            auto k = gbs::build_simple_mult_flat_knots<double>(u, p);
            // other inner knots, still interlacing with the parameters
            if (!even) for (size_t x = p + 1; x < m; ++x) k[x] += (x % 2 ? 0.2 : -0.2) / (m - 1.);
            std::vector<gbs::constrType<double, D, 1>> Q(m);
            for (size_t x = 0; x < m; ++x) Q[x] = {q[x]};
            return fp(gbs::build_poles<double, D, 1>(Q, k, u, p)); }; break; }
        case 39: { double dev = r.real(0.1, 0.3); i = cont(i); o.name = "approximate to a tolerance"; o.run = [=](const World &w) { return fp(gbs::approx<double, D>(*curves<D>(w).any[i], dev, 0.05, 3, 6 + n / 4, 10)); }; break; }
        case 40: { size_t p = (size_t)r.range(2, 3); bool fix = r.chance(0.5); o.name = "approximate points on parameters"; o.on = "points"; o.run = [=](const World &w) {
            auto &q = curves<D>(w).points;
            auto u = gbs::curve_parametrization(q, t < 0.5 ? gbs::KnotsCalcMode::CHORD_LENGTH : gbs::KnotsCalcMode::CENTRIPETAL, true);
            return fp(gbs::approx<double, D>(q, p, std::min<size_t>(q.size(), p + 2), u, fix)); }; break; }
        case 41: { o.name = "elliptic connection"; o.run = [=](const World &w) {
            auto &K = curves<D>(w);
            if constexpr (D == 2) return fp(gbs::c2_connect<double>(*K.bs[0], *K.bs[1], 0.5, 0.5, t < 0.5, n & 1, 0.5 + t));
            else return fp(gbs::c2_connect<double, D>(*K.bs[0], *K.bs[1], 0.3, 0.4)); }; break; }
        case 42: { o.name = "rolling ball"; o.run = [=](const World &w) {
            auto &K = curves<D>(w);
            if constexpr (D == 2) { auto [a, b] = K.family[0].bounds(); return fp(gbs::compute_rolling_ball<double>(K.family[0], K.family[1], a + (b - a) * (0.2 + 0.6 * t))); }
            else return fp(gbs::extrema_curve_curve<double, D>(K.family[0], K.family[1], 1e-6)); }; break; }
        case 43: { o.name = "move to constraints"; o.on = "bspline"; o.run = [=](const World &w) {
            auto &c = *curves<D>(w).bs[b];
            auto [x, y] = c.bounds();
            auto u = x + (y - x) * (0.3 + 0.4 * t);
            auto q = c.value(u), d = c.value(u, 1);
            q[0] += 0.2; d[1] += 0.3;
            return fp(gbs::moved_to_constraints<double, D>(c, {{u, q, 0}, {u, d, 1}}, n & 1)); }; break; }
        case 44: { o.name = "extend to a point"; o.on = "bspline"; o.run = [=](const World &w) { auto &c = *curves<D>(w).bs[b]; auto q = c.end(); q[0] += 0.5 + t; return fp(gbs::extended_to_point(c, q, true)); }; break; }
        case 45: { i = cont(i); bool inv = r.chance(0.5); o.name = "adaptive arc length law"; o.run = [=](const World &w) { auto &c = *curves<D>(w).any[i]; return inv ? fp(gbs::abs_curv_adaptive<double, D, 10>(c, 12, 3, 0.05)) : fp(gbs::curve_length_function<double, D, 10>(c, 12, 3, 0.05)); }; break; }
        case 46: { o.name = "joined with an extension"; o.on = "rational"; o.run = [=](const World &w) { return fp(gbs::extended(*curves<D>(w).bsr[b], 0.2 + t, n & 1, true, false)); }; break; }
        case 47: { size_t d = (size_t)r.range(1, 3); o.name = "derivatives in bulk"; o.run = [=](const World &w) { auto &c = *curves<D>(w).any[i]; auto [x, y] = c.bounds(); std::vector<double> u(n); for (size_t k = 0; k < n; ++k) u[k] = std::min(y, x + (y - x) * (k + 0.5) / n); Fp f; for (size_t k = 0; k <= d; ++k) f.add(c.values(u, k)); return f.v; }; break; }
        default: { i = cont(i); o.name = "distribution of nodes"; o.run = [=](const World &w) {
            auto c = curves<D>(w).any[i];
            gbs::msh_edge<double, D> e{c};
            e.set_n_points(n + 2);
            e.update_law(0.1, 0.2);
            e.compute_pnts();
            return fp(e.points()); }; }
        }
        for (int k : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 26, 30, 31, 34, 37, 39, 45, 47}) if (k == kind) o.on = C.names[i];
        return o;
    }
    constexpr int n_surface_ops = 35;
    inline Op gen_surface_op(Rng &r, const World &w0, int kind = -1)
    {
        if (kind < 0) kind = (int)r.below(n_surface_ops);
        static const char *names[] = {"bspline surface", "rational surface", "revolution"};
        size_t i = r.below(3);
        double s = r.uniform(), t = r.uniform();
        size_t n = (size_t)r.range(2, 5), m = (size_t)r.range(2, 5);
        Op o;
        o.on = names[i];
        auto par = [i, s, t](const World &w) { auto [a, b, c, d] = w.any_srf[i]->bounds(); return std::array<double, 2>{std::min(b, a + s * (b - a)), std::min(d, c + t * (d - c))}; };
        bool R = r.chance(0.5);
        size_t q = r.below(w0.c3.points.size()), ci = r.below(3);
        switch (kind)
        {
        case 0: { size_t du = r.below(3), dv = r.below(2); o.name = "value"; o.run = [=](const World &w) { auto [u, v] = par(w); return fp(w.any_srf[i]->value(u, v, du, dv)); }; break; }
        case 1: o.name = "bulk values"; o.run = [=](const World &w) { auto &f = *w.any_srf[i]; auto [a, b, c, d] = f.bounds(); std::vector<double> u(n * m), v(n * m); for (size_t k = 0; k < n * m; ++k) { u[k] = std::min(b, a + (b - a) * (k % n) / (n - 1.)); v[k] = std::min(d, c + (d - c) * (k / n) / (m - 1.)); } return fp(f.values(u, v)); }; break;
        case 2: o.name = "sampling"; o.run = [=](const World &w) { return fp(gbs::discretize<double, 3>(*w.any_srf[i], n, m)); }; break;
        case 3: o.name = "tangents"; o.run = [=](const World &w) { auto [u, v] = par(w); auto &f = *w.any_srf[i]; return fp(f.value(u, v, 1, 0), f.value(u, v, 0, 1), f.bounds()); }; break;
        case 4: o.name = "nearest point"; o.run = [=](const World &w) { return fp(gbs::extrema_surf_pnt(*w.any_srf[i], w.c3.points[q], 1e-6, nlopt::LN_COBYLA, n, m)); }; break;
        case 5: o.name = "nearest to a curve"; o.run = [=](const World &w) { return fp(gbs::extrema_surf_curve(*w.any_srf[i], *w.c3.bs[R], 1e-6, nlopt::LN_COBYLA, 3, 3, 3)); }; break;
        case 6: o.name = "isoparametric curves"; o.on = names[R]; o.run = [=](const World &w) { auto f = [&](auto &x) { auto [a, b, c, d] = x.bounds(); return fp(x.isoU(a + s * (b - a)), x.isoV(c + t * (d - c))); }; return R ? f(*w.srfr[0]) : f(*w.srf[0]); }; break;
        case 7: o.name = "split"; o.on = names[R]; o.run = [=](const World &w) { auto f = [&](auto &x) { auto [a, b, c, d] = x.bounds(); auto p = gbs::split_u(x, a + (0.2 + 0.6 * s) * (b - a)); auto z = gbs::split_v(x, c + (0.2 + 0.6 * t) * (d - c)); return fp(p.first, p.second, z.first, z.second); }; return R ? f(*w.srfr[0]) : f(*w.srf[0]); }; break;
        case 8: o.name = "copy, insert knots"; o.on = names[R]; o.run = [=](const World &w) { auto f = [&](auto x) { auto [a, b, c, d] = x.bounds(); x.insertKnotU(a + (0.2 + 0.6 * s) * (b - a), 1); x.insertKnotV(c + (0.2 + 0.6 * t) * (d - c), 2); return fp(x); }; return R ? f(*w.srfr[0]) : f(*w.srf[0]); }; break;
        case 9: o.name = "copy, elevate"; o.on = names[R]; o.run = [=](const World &w) { auto f = [&](auto x) { x.increaseDegreeU(); x.increaseDegreeV(); return fp(x); }; return R ? f(*w.srfr[0]) : f(*w.srf[0]); }; break;
        case 10: o.name = "copy, trim, swap"; o.on = names[R]; o.run = [=](const World &w) { auto f = [&](auto x) { auto [a, b, c, d] = x.bounds(); x.trimU(a + 0.3 * s * (b - a), b); x.trimV(c, d - 0.3 * t * (d - c)); x.invertUV(); x.reverseU(); return fp(x); }; return R ? f(*w.srfr[0]) : f(*w.srf[0]); }; break;
        case 11: o.name = "JSON"; o.document = true; o.run = [=](const World &w) { rapidjson::Document d; return fp(gbs::make_json((const gbs::Surface<double, 3> *)w.any_srf[i].get(), d.GetAllocator())); }; break;
        case 12: o.name = "from JSON"; o.on = "document"; o.run = [=](const World &w) {
            auto &d = *w.doc;
            if (R) { auto c = gbs::make_curve<double, 3>(d[(unsigned)(s < 0.5)]); auto [a, b] = c->bounds(); return fp(c->value(a + t * (b - a))); }
            auto f = gbs::make_surface<double, 3>(d[2u + (s < 0.5)]);
            auto [a, b, c, e] = f->bounds();
            return fp(f->value(a + t * (b - a), c + s * (e - c))); }; break;
        case 13: { size_t p = (size_t)r.range(1, 3); o.name = "loft"; o.on = "curves"; o.run = [=](const World &w) { return fp(gbs::loft(w.c3.family, p)); }; break; }
        case 14: { auto md = r.chance(0.5) ? gbs::KnotsCalcMode::CHORD_LENGTH : gbs::KnotsCalcMode::EQUALLY_SPACED; size_t p = (size_t)r.range(1, 3), e = (size_t)r.range(1, 3); o.name = "interpolate"; o.on = "grid"; o.run = [=](const World &w) { return fp(gbs::interpolate<double, 3>(w.grid, w.n_grid, p, e, md)); }; break; }
        case 15: o.name = "approximate"; o.on = "grid"; o.run = [=](const World &w) { std::vector<double> u(w.n_grid); for (size_t k = 0; k < w.n_grid; ++k) u[k] = k / (w.n_grid - 1.); std::vector<double> k{0, 0, 0, 1, 1, 1}; return fp(gbs::approx<double, 3>(w.grid, k, k, u, u, 2, 2)); }; break;
        case 16: o.name = "extend"; o.on = names[0]; o.run = [=](const World &w) { return fp(gbs::extention(*w.srf[0], 0.2 + s, gbs::SurfaceBound::U_END, true)); }; break;
        case 17: o.name = "move to a point"; o.on = names[0]; o.run = [=](const World &w) { auto &x = *w.srf[0]; auto [a, b, c, d] = x.bounds(); auto u = a + (0.3 + 0.4 * s) * (b - a), v = c + (0.3 + 0.4 * t) * (d - c); auto p = x.value(u, v); p[2] += 0.1; return fp(gbs::moved_to_point(x, p, u, v)); }; break;
        case 18: o.name = "offset points"; o.on = names[R]; o.run = [=](const World &w) {
            auto f = [&](auto &x) { auto [a, b, c, d] = x.bounds();
                gbs::BSSfunction<double> e{gbs::BSSurface<double, 1>(pts<double, 1>{{0.1}, {0.2}, {0.3}, {0.4}}, {a, a, b, b}, {c, c, d, d}, 1, 1)};
                std::vector<double> u{a, 0.5 * (a + b), b}, v{c, d}; return fp(gbs::offset_points(e, x, u, v)); };
            return R ? f(*w.srfr[0]) : f(*w.srf[0]); }; break;
        case 19: o.name = "intersections"; o.on = "curves"; o.run = [=](const World &w) { std::vector<gbs::BSCurve<double, 3>> l{w.srf[0]->isoU(w.srf[0]->bounds()[0]), w.srf[0]->isoU(w.srf[0]->bounds()[1])}; auto c = w.srf[0]->isoV(w.srf[0]->bounds()[2]); return fp(gbs::build_intersections<double, 3>(l.begin(), l.end(), c, 1e-4)); }; break;
        case 20: o.name = "transfinite mesh"; o.on = names[0]; o.run = [=](const World &w) { auto c = std::make_shared<gbs::BSSurface<double, 3>>(*w.srf[0]); c->changeUBounds(0., 1.); c->changeVBounds(0., 1.); std::vector<double> k{0., 0.35 + 0.3 * s, 1.}, e{0., 1.}; return fp(gbs::tfi_mesh_2d<double, 3, 1, 1>(c, k, e, n + 4, m + 3)); }; break;
        case 21: o.name = "added dimension, weights"; o.on = names[R]; o.run = [=](const World &w) { auto c = *w.srf[0]; gbs::scale(c, 2. + s); return fp(gbs::add_dimension(*w.srf[0], s), c); }; break;
        case 23: o.name = "Gordon surface"; o.on = "curves"; o.run = [=](const World &w) {
            auto c = *w.srf[0]; c.changeUBounds(0., 1.); c.changeVBounds(0., 1.);
            std::vector<gbs::BSCurve<double, 3>> cu{c.isoV(0.), c.isoV(1.)}, cv{c.isoU(0.), c.isoU(1.)};
            if (s < 0.3) cu.insert(cu.begin() + 1, c.isoV(0.5));
            return fp(gbs::gordon<double, 3>(cu.begin(), cu.end(), cv.begin(), cv.end(), 1e-3)); }; break;
        case 24: case 25: { size_t v = (size_t)r.range(1, 3); o.name = kind == 24 ? "loft along a spine" : "approximate loft along a spine"; o.on = "curves"; o.run = [=](const World &w) {
            auto &F = w.c3.family;
            std::list<gbs::BSCurve<double, 3>> l(F.begin(), F.end());
            // straight through the sections
            pts<double, 3> P;
            for (auto &c : F) P.push_back(c.begin());
            if (s < 0.5) for (size_t k = 0; k < P.size(); ++k) P[k] = P[0] + (P.back() - P[0]) * (k / (P.size() - 1.));
            auto sp = gbs::interpolate<double, 3>(P, std::min<size_t>(P.size() - 1, 2), gbs::KnotsCalcMode::CHORD_LENGTH);
            return kind == 24 ? fp(gbs::loft<double, 3>(l, sp, v)) : fp(gbs::loft_approx<double, 3>(l, sp, v)); }; break; }
        case 26: case 27: { size_t p = (size_t)r.range(1, 2), e = (size_t)r.range(1, 3); bool in = kind == 26; o.name = in ? "interpolate constraints" : "approximate constraints"; o.on = "grid"; o.run = [=](const World &w) {
            size_t N = w.n_grid;
            auto ku = gbs::build_mult_flat_knots<double>(0., 1., 2 + (N - p - 1), p, 1), kv = gbs::build_mult_flat_knots<double>(0., 1., 2 + (N - e - 1), e, 1);
            auto at = [](const std::vector<double> &k, size_t d, size_t x) { double a = 0; for (size_t c = 1; c <= d; ++c) a += k[x + c]; return std::min(1., std::max(0., a / d)); };
            std::vector<gbs::bss_constraint<double, 3>> C;
            for (size_t y = 0; y < N; ++y) for (size_t x = 0; x < N; ++x) C.push_back({at(ku, p, x), at(kv, e, y), w.grid[x + N * y], 0, 0});
            if (in) return fp(gbs::interpolate<double, 3>(C, N, p, e));
            std::vector<double> k{0, 0, 0, 1, 1, 1};
            return fp(gbs::approx<double, 3>(C, k, k, 2, 2)); }; break; }
        case 28: o.name = "move to constraints"; o.on = names[0]; o.run = [=](const World &w) {
            auto &x = *w.srf[0]; auto [a, b, c, d] = x.bounds();
            auto u = a + (0.3 + 0.4 * s) * (b - a), v = c + (0.3 + 0.4 * t) * (d - c);
            auto q = x.value(u, v), e = x.value(u, v, 0, 1);
            q[2] += 0.1; e[2] -= 0.2;
            return fp(gbs::moved_to_constraints<double, 3>(x, {{u, v, q, 0, 0}, {u, v, e, 0, 1}})); }; break;
        case 29: o.name = "offset surface"; o.on = names[0]; o.run = [=](const World &w) {
            auto f = [&](auto &x) { auto [a, b, c, d] = x.bounds();
                gbs::BSSfunction<double> e{gbs::BSSurface<double, 1>(pts<double, 1>{{0.1}, {0.2}, {0.3}, {0.4}}, {a, a, b, b}, {c, c, d, d}, 1, 1)};
                return fp(gbs::offset_approx(e, x, n + 8, m + 8)); };
            return f(*w.srf[0]); }; break;
        case 30: { auto at = std::array{gbs::SurfaceBound::U_START, gbs::SurfaceBound::U_END, gbs::SurfaceBound::V_START, gbs::SurfaceBound::V_END}[r.below(4)]; o.name = "extended"; o.on = names[R]; o.run = [=](const World &w) { return R ? fp(gbs::extended(*w.srfr[0], 0.2 + s, at, true)) : fp(gbs::extended(*w.srf[0], 0.2 + s, at, t < 0.5)); }; break; }
        case 31: o.name = "elliptic smoothing"; o.on = "grid"; o.run = [=](const World &w) {
            size_t N = w.n_grid;
            pts<double, 2> P;
            for (size_t k = 0; k < N * N; ++k) P.push_back({w.grid[k][0] + (double)(k / N), w.grid[k][1] + (double)(k % N)});
            return fp(gbs::elliptic_structured_smoothing<double>(P, N, 0, N - 1, 0, N - 1, n * 3), P); }; break;
        case 32: { size_t p = (size_t)r.range(1, 3); o.name = "loft of any curves"; o.on = "curves"; o.run = [=](const World &w) {
            std::vector<CrvP<3>> l;
            for (auto &c : w.c3.family) l.push_back(std::make_shared<gbs::BSCurve<double, 3>>(c));
            return fp(gbs::loft<double, 3>(l, p)); }; break; }
        case 33: { size_t du = r.below(2), dv = r.below(3); o.name = "derivatives on a grid"; o.on = names[i]; o.run = [=](const World &w) { auto &f = *w.any_srf[i]; auto [a, b, c, d] = f.bounds(); std::vector<double> u(n * m), v(n * m); for (size_t k = 0; k < n * m; ++k) { u[k] = a + (b - a) * (k % n + 0.5) / n; v[k] = c + (d - c) * (k / n + 0.5) / m; } return fp(f.values(u, v, du, dv)); }; break; }
        case 34: o.name = "loft on parameters"; o.on = "curves"; o.run = [=](const World &w) {
            std::vector<double> v(w.c3.family.size());
            for (size_t k = 0; k < v.size(); ++k) v[k] = k / (v.size() - 1.) + (k && k + 1 < v.size() ? 0.05 * s : 0.);
            return fp(gbs::loft(w.c3.family, v, std::min<size_t>(2, v.size() - 1))); }; break;
        default: o.name = "sampling by deviation"; o.on = names[i]; o.run = [=](const World &w) { auto &f = *w.any_srf[i]; auto [a, b, c, d] = f.bounds(); return fp(gbs::deviation_based_u_params<double, 3>(f, a, b, c + t * (d - c), n, 0.1, 60), gbs::deviation_based_v_params<double, 3>(f, c, d, a + s * (b - a), n, 0.1, 60)); };
        }
        return o;
    }
    constexpr int n_mesh_ops = 6;
    inline sim::u64 mesh_print(const Mesh &m) { Fp f; for (auto &x : m) f.add(gbs::getTriangleCoords(*x)); return f.v; }
    /// Breaks the cycles of shared pointers of a mesh which is not needed any more.
    inline void unlink(const Mesh &m)
    {
        std::vector<HEdge> e;
        for (auto &f : m) for (auto &x : gbs::getTriangleEdges(f)) e.push_back(x);
        for (auto &x : e) { x->next = nullptr; x->previous = nullptr; x->opposite = nullptr; if (x->vertex) x->vertex->edge = nullptr; }
        for (auto &x : e) { x->face = nullptr; }
    }
    inline Op gen_mesh_op(Rng &r, const World &w0, int kind = -1)
    {
        if (kind < 0) kind = (int)r.below(n_mesh_ops);
        Op o;
        o.on = "mesh";
        size_t k = r.below(std::max<size_t>(1, w0.mesh.size()));
        auto nth = [k](const World &w) { return *std::next(w.mesh.begin(), k); };
        if (w0.mesh.empty()) kind = 3;
        switch (kind)
        {
        case 0: o.name = "area"; o.run = [](const World &w) { std::vector<Face> v(w.mesh.begin(), w.mesh.end()); return fp(gbs::getTriangle2dMeshArea(w.mesh), gbs::getTriangle2dMeshArea(v)); }; break;
        case 1: o.name = "faces around a vertex"; o.run = [=](const World &w) { auto v = nth(w)->edge->vertex; Fp f; for (auto &x : gbs::getFacesAttachedToVertex(v)) f.add(gbs::getTriangleCoords(*x)); f.add(gbs::is_boundary(*v)); return f.v; }; break;
        case 2: o.name = "boundary"; o.run = [](const World &w) { Fp f; for (auto &l : gbs::getOrientedFacesBoundaries(w.mesh)) for (auto &e : l) f.add(e->vertex->coords); return f.v; }; break;
        case 3: o.name = "triangulate"; o.on = "cloud"; o.mesh = true; o.run = [](const World &w) { auto m = gbs::delaunay2DBoyerWatson<double>(w.cloud); auto v = mesh_print(m); return v; }; break;
        case 4: o.name = "constrained triangulation"; o.on = "polygon"; o.mesh = true; o.run = [](const World &w) { auto m = gbs::delaunay2DConstrained<double>(w.ring, {}); return mesh_print(m); }; break;
        default: o.name = "common edges"; o.run = [=](const World &w) { Fp f; auto a = nth(w); for (auto &b : gbs::getNeighboringFaces(a)) if (b) { auto e = gbs::getCommonEdges(a, b); f.add(e.first != nullptr); if (e.first) f.add(e.first->vertex->coords); } f.add(gbs::getVerticesMapFromFaces<double, 2>(w.mesh).size()); f.add(gbs::getEdgesMap<double, 2>(w.mesh).size()); return f.v; };
        }
        return o;
    }
    inline Op gen_op(Rng &r, const World &w)
    {
        switch (r.below(8))
        {
        case 0: case 1: return gen_curve_op<2>(r, w);
        case 2: case 3: case 4: return gen_curve_op<3>(r, w);
        case 7: return gen_mesh_op(r, w);
        default: return gen_surface_op(r, w);
        }
    }
    struct Outcome
    {
        Err err;
        sim::u64 print = 0;
        bool same(const Outcome &o) const { return err.same(o.err) && print == o.print; }
    };
    inline Outcome perform(const Op &o, const World &w)
    {
        Outcome r;
        r.err = capture([&] { r.print = o.run(w); });
        return r;
    }
}

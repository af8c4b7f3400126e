// C15: saved geometry reads back the same, or the failure is reported.
#include "zoo.h"
#include "errs.h"
#include <gbs-io/tojson.h>
#include <gbs-io/fromjson.h>
#include <gbs-io/fromjson2.h>

namespace
{
    using namespace h;
    using Doc = rapidjson::Document;
    using Val = rapidjson::Value;
    constexpr const char *path = "/simdisk/geometry.json";
    constexpr double E = 8 * std::numeric_limits<double>::epsilon(); // the reader may be off by 3 ulp

    void expect_num(double got, double want, const char *what, double scale = 0)
    {
        if (!(std::abs(got - want) <= E * std::max(std::abs(want), scale))) sim::violation("changed-geometry", "%s: %.17g was saved as %.17g", what, want, got);
    }
    void expect_knots(const std::vector<double> &got, const std::vector<double> &want, const char *what)
    {
        if (got.size() != want.size()) sim::violation("changed-geometry", "%s: %zu knots instead of %zu", what, got.size(), want.size());
        for (size_t i = 0; i < got.size(); ++i)
            if (!(std::abs(got[i] - want[i]) <= E * std::abs(want[i]) + gbs::knot_eps<double>)) sim::violation("changed-geometry", "%s: knot %zu is %.17g instead of %.17g", what, i, got[i], want[i]);
    }
    template <size_t D> void expect_points(const pts<double, D> &got, const pts<double, D> &want, const char *what, double f = 1)
    {
        if (got.size() != want.size()) sim::violation("changed-geometry", "%s: %zu poles instead of %zu", what, got.size(), want.size());
        for (size_t i = 0; i < got.size(); ++i)
            if (!(dist(got[i], want[i]) <= f * E * (mag(want[i]) + 1e-300L))) sim::violation("changed-geometry", "%s: pole %zu of %zu is another one (%Lg away)", what, i, got.size(), dist(got[i], want[i]));
    }
    template <size_t D> void expect_values(const gbs::Curve<double, D> &got, const gbs::Curve<double, D> &want, const char *what, ld tol = 1e-11L)
    {
        auto [a, b] = want.bounds();
        auto [c, d] = got.bounds();
        if (std::abs(a - c) > 1e-12 * (1 + std::abs(a)) || std::abs(b - d) > 1e-12 * (1 + std::abs(b))) sim::violation("changed-geometry", "%s: bounds (%.17g, %.17g) instead of (%.17g, %.17g)", what, c, d, a, b);
        for (double t : {0., 0.17, 0.5, 0.83, 1.})
        {
            double u = t == 0 ? a : t == 1 ? b : a + t * (b - a), w = t == 0 ? c : t == 1 ? d : u;
            auto p = want.value(u), q = got.value(w);
            if (!(dist(p, q) <= tol * (1 + mag(p)))) sim::violation("changed-geometry", "%s: the point at %.17g is off by %Lg", what, u, dist(p, q));
        }
    }
    template <size_t D> void expect_values(const gbs::Surface<double, D> &got, const gbs::Surface<double, D> &want, const char *what, ld tol = 1e-11L)
    {
        auto [a, b, e, f] = want.bounds();
        auto [c, d, g, k] = got.bounds();
        if (std::abs(a - c) + std::abs(b - d) + std::abs(e - g) + std::abs(f - k) > 1e-12 * (1 + std::abs(a) + std::abs(b) + std::abs(e) + std::abs(f))) sim::violation("changed-geometry", "%s: other bounds", what);
        for (double t : {0.03, 0.37, 0.61, 0.96})
        {
            double u = a + t * (b - a), v = e + (1 - t * t) * (f - e);
            auto p = want.value(u, v), q = got.value(u, v);
            if (!(dist(p, q) <= tol * (1 + mag(p)))) sim::violation("changed-geometry", "%s: the point at (%.17g, %.17g) is off by %Lg", what, u, v, dist(p, q));
        }
    }

    /// One saved entity: how it is written, how it is read and compared. read() throws what the library throws.
    struct Item
    {
        std::string name;
        bool readable = true;
        bool alone = false; // the entity is the document itself
        std::function<Val(Doc::AllocatorType &)> write;
        std::function<void(const Val &)> read;      // throws, or reports a difference
        std::function<void(const Val &)> rebuild;   // reads and uses whatever was read
    };
    template <size_t D> void use(const gbs::Curve<double, D> &c)
    {
        auto [a, b] = c.bounds();
        auto p = c.value(a + 0.3 * (b - a));
        sim::observe(p.size());
    }
    template <size_t D> void use(const gbs::Surface<double, D> &s)
    {
        auto [a, b, e, f] = s.bounds();
        auto p = s.value(a + 0.3 * (b - a), e + 0.6 * (f - e));
        sim::observe(p.size());
    }
    template <size_t D, bool R, class C> void sound(const C &c, const char *what)
    {
        if (c.knotsFlats().size() != c.poles().size() + c.degree() + 1 || c.poles().size() < c.degree() + 1) sim::violation("wrong-result", "%s: a curve of degree %zu with %zu poles and %zu knots was read", what, c.degree(), c.poles().size(), c.knotsFlats().size());
        if (!std::is_sorted(c.knotsFlats().begin(), c.knotsFlats().end(), [](double a, double b) { return a < b - gbs::knot_eps<double>; })) sim::violation("wrong-result", "%s: a curve with unsorted knots was read", what);
    }
    template <size_t D> Item bs_item(Rng &g)
    {
        auto c = std::make_shared<gbs::BSCurve<double, D>>(gen_bs<double, D>(g, gen_spec(g)));
        bool part = g.chance(0.2);
        auto [a, b] = c->bounds();
        if (part) c->trim(a + g.real(0.05, 0.3) * (b - a), b - g.real(0.05, 0.3) * (b - a), false);
        int how = (int)g.below(4);
        Item it;
        it.name = "bspline curve";
        it.write = [c](auto &al) { return gbs::make_json(*c, al); };
        auto make = [how](const Val &v) -> std::shared_ptr<gbs::Curve<double, D>> {
            if (how == 0) return std::make_shared<gbs::BSCurve<double, D>>(gbs::bscurve_direct<double, D>(v));
            if (how == 1) return std::make_shared<gbs::BSCurve<double, D>>(gbs::make_bscurve<double, D>(v));
            if (how == 2) return std::make_shared<gbs::BSCurve<double, D>>(gbs::bscurve_direct_mults<double, D>(v));
            return gbs::make_curve<double, D>(v);
        };
        it.read = [c, part, make](const Val &v) {
            auto r = make(v);
            auto q = std::dynamic_pointer_cast<gbs::BSCurve<double, D>>(r);
            if (!q) sim::violation("changed-geometry", "a B-spline curve is read as another class");
            sound<D, false>(*q, "bspline curve");
            if (q->degree() != c->degree()) sim::violation("changed-geometry", "a curve of degree %zu is read with degree %zu", c->degree(), q->degree());
            if (!part) { expect_knots(q->knotsFlats(), c->knotsFlats(), "curve"); expect_points<D>(q->poles(), c->poles(), "curve"); }
            expect_values<D>(*q, *c, "bspline curve");
        };
        it.rebuild = [make](const Val &v) { auto r = make(v); auto q = std::dynamic_pointer_cast<gbs::BSCurve<double, D>>(r); if (q) sound<D, false>(*q, "bspline curve"); use<D>(*r); };
        return it;
    }
    template <size_t D> Item bsr_item(Rng &g)
    {
        auto c = std::make_shared<gbs::BSCurveRational<double, D>>(gen_bsr<double, D>(g, gen_spec(g)));
        bool part = g.chance(0.2);
        auto [a, b] = c->bounds();
        if (part) c->trim(a + g.real(0.05, 0.3) * (b - a), b - g.real(0.05, 0.3) * (b - a), false);
        Item it;
        it.name = "rational curve";
        it.write = [c](auto &al) { return gbs::make_json(*c, al); };
        it.read = [c, part](const Val &v) {
            auto r = gbs::make_curve<double, D>(v);
            auto q = std::dynamic_pointer_cast<gbs::BSCurveRational<double, D>>(r);
            if (!q) sim::violation("changed-geometry", "a rational curve is read as another class");
            sound<D, true>(*q, "rational curve");
            if (q->degree() != c->degree()) sim::violation("changed-geometry", "a curve of degree %zu is read with degree %zu", c->degree(), q->degree());
            if (!part) { expect_knots(q->knotsFlats(), c->knotsFlats(), "rational curve"); expect_points<D + 1>(q->poles(), c->poles(), "rational curve", 4); }
            expect_values<D>(*q, *c, "rational curve");
        };
        it.rebuild = [](const Val &v) { use<D>(*gbs::make_curve<double, D>(v)); };
        return it;
    }
    template <size_t D> std::shared_ptr<gbs::Surface<double, D>> gen_spline_surface(Rng &g)
    {
        auto su = gen_spec(g, 3, 3), sv = gen_spec(g, 4, 3);
        if (g.chance(0.4)) return std::make_shared<gbs::BSSurfaceRational<double, D>>(gen_srfr<double, D>(g, su, sv));
        return std::make_shared<gbs::BSSurface<double, D>>(gen_srf<double, D>(g, su, sv));
    }
    template <size_t D> void expect_surface(const std::shared_ptr<gbs::Surface<double, D>> &r, const std::shared_ptr<gbs::Surface<double, D>> &s)
    {
        auto cmp = [&](auto &q, auto &w) {
            if (q.degreeU() != w.degreeU() || q.degreeV() != w.degreeV()) sim::violation("changed-geometry", "surface: degrees (%zu, %zu) instead of (%zu, %zu)", q.degreeU(), q.degreeV(), w.degreeU(), w.degreeV());
            expect_knots(q.knotsFlatsU(), w.knotsFlatsU(), "surface in u");
            expect_knots(q.knotsFlatsV(), w.knotsFlatsV(), "surface in v");
            expect_points(q.poles(), w.poles(), "surface", 4);
        };
        if (auto w = std::dynamic_pointer_cast<gbs::BSSurface<double, D>>(s))
        {
            auto q = std::dynamic_pointer_cast<gbs::BSSurface<double, D>>(r);
            if (!q) sim::violation("changed-geometry", "a B-spline surface is read as another class");
            cmp(*q, *w);
        }
        else if (auto w = std::dynamic_pointer_cast<gbs::BSSurfaceRational<double, D>>(s))
        {
            auto q = std::dynamic_pointer_cast<gbs::BSSurfaceRational<double, D>>(r);
            if (!q) sim::violation("changed-geometry", "a rational surface is read as another class");
            cmp(*q, *w);
        }
        expect_values<D>(*r, *s, "surface");
    }
    template <size_t D> Item srf_item(Rng &g)
    {
        auto s = gen_spline_surface<D>(g);
        bool direct = g.chance(0.3);
        Item it;
        it.name = "surface";
        it.write = [s](auto &al) { return gbs::make_json(s.get(), al); };
        auto make = [direct, s](const Val &v) -> std::shared_ptr<gbs::Surface<double, D>> {
            if (direct && std::dynamic_pointer_cast<gbs::BSSurface<double, D>>(s)) return std::make_shared<gbs::BSSurface<double, D>>(gbs::make_bssurface<double, D>(v));
            return gbs::make_surface<double, D>(v);
        };
        it.read = [s, make](const Val &v) { expect_surface<D>(make(v), s); };
        it.rebuild = [make](const Val &v) { use<D>(*make(v)); };
        return it;
    }
    Item rev_item(Rng &g)
    {
        auto k = gen_knots<double>(g, 6, 3, 0., 1., 1);
        std::shared_ptr<gbs::Curve<double, 2>> c;
        if (g.chance(0.5)) c = std::make_shared<gbs::BSCurve<double, 2>>(gen_bs<double, 2>(g, gen_spec(g)));
        else c = std::make_shared<gbs::BSCurveRational<double, 2>>(gen_bsr<double, 2>(g, gen_spec(g)));
        double al = g.real(0, 6);
        gbs::ax2<double, 3> ax{{{g.real(-1, 1), g.chance(0.2) ? g.real(-1000, 1000) : g.real(-1, 1), g.real(-1, 1)}, {0, 0, 1}, {std::cos(al), std::sin(al), 0}}};
        double t1 = g.chance(0.5) ? 0. : g.chance(0.5) ? g.real(-9, 9) : g.real(-1, 1);
        auto s = std::make_shared<gbs::SurfaceOfRevolution<double>>(c, ax, t1, t1 + (g.chance(0.3) ? g.real(5, 12) : g.real(0.5, 5)));
        Item it;
        it.name = "surface of revolution";
        it.write = [s](auto &al) { return gbs::make_json((const gbs::Surface<double, 3> *)s.get(), al); };
        it.read = [s](const Val &v) {
            auto r = gbs::make_surface<double>(v);
            auto q = std::dynamic_pointer_cast<gbs::SurfaceOfRevolution<double>>(r);
            if (!q) sim::violation("changed-geometry", "a surface of revolution is read as another class");
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) expect_num(q->axis2()[i][j], s->axis2()[i][j], "axis", 1);
            expect_values<3>(*q, *s, "surface of revolution");
        };
        it.rebuild = [](const Val &v) { use<3>(*gbs::make_surface<double>(v)); };
        return it;
    }
    Item cos_item(Rng &g)
    {
        auto s = gen_spline_surface<3>(g);
        auto [a, b, e, f] = s->bounds();
        size_t n = (size_t)g.range(3, 6);
        auto k = gen_knots<double>(g, n, 2, 0., 1., 1);
        pts<double, 2> q(n);
        for (size_t i = 0; i < n; ++i) q[i] = {a + (0.05 + 0.9 * i / (n - 1.)) * (b - a), e + g.real(0.05, 0.95) * (f - e)};
        auto c = std::make_shared<gbs::CurveOnSurface<double, 3>>(std::make_shared<gbs::BSCurve<double, 2>>(q, k, 2), s);
        Item it;
        it.name = "curve on surface";
        it.write = [c](auto &al) { return gbs::make_json((const gbs::Curve<double, 3> *)c.get(), al); };
        it.read = [c](const Val &v) {
            auto r = gbs::make_curve<double, 3>(v);
            if (!std::dynamic_pointer_cast<gbs::CurveOnSurface<double, 3>>(r)) sim::violation("changed-geometry", "a curve on a surface is read as another class");
            expect_values<3>(*r, *c, "curve on surface", 1e-9L);
        };
        it.rebuild = [](const Val &v) { use<3>(*gbs::make_curve<double, 3>(v)); };
        return it;
    }
    bool is_type(const Val &v, gbs::entity_type t) { return v.IsObject() && v.HasMember("type") && v["type"].IsInt() && v["type"].GetInt() == (int)t; }
    /// Entities that are only written: the document is judged by itself.
    Item written_item(Rng &g)
    {
        Item it;
        it.readable = false;
        auto kids = std::make_shared<std::vector<CrvP<2>>>();
        size_t n = (size_t)g.range(1, 4);
        for (size_t i = 0; i < n; ++i)
        {
            if (g.chance(0.4)) kids->push_back(std::make_shared<gbs::BSCurveRational<double, 2>>(gen_bsr<double, 2>(g, gen_spec(g))));
            else kids->push_back(std::make_shared<gbs::BSCurve<double, 2>>(gen_bs<double, 2>(g, gen_spec(g))));
        }
        auto child = [](const Val &v, const CrvP<2> &c) { expect_values<2>(*gbs::make_curve<double, 2>(v), *c, "nested curve"); };
        switch (g.below(5))
        {
        case 0:
        {
            it.name = "composite curve";
            auto c = std::make_shared<gbs::CurveComposite<double, 2>>(*kids);
            it.write = [c](auto &al) { return gbs::make_json((const gbs::Curve<double, 2> *)c.get(), al); };
            it.read = [kids, child](const Val &v) {
                if (!is_type(v, gbs::entity_type::CurveComposite) || !v.HasMember("curves") || !v["curves"].IsArray() || v["curves"].Size() != kids->size()) sim::violation("changed-geometry", "a composite curve of %zu curves isn't stored as such", kids->size());
                for (size_t i = 0; i < kids->size(); ++i) child(v["curves"][(unsigned)i], (*kids)[i]);
            };
            break;
        }
        case 1:
        {
            it.name = "trimmed curve";
            auto [a, b] = kids->front()->bounds();
            double u1 = a + 0.2 * (b - a), u2 = b - 0.1 * (b - a);
            auto c = std::make_shared<gbs::CurveTrimmed<double, 2>>(kids->front(), u1, u2);
            it.write = [c](auto &al) { return gbs::make_json((const gbs::Curve<double, 2> *)c.get(), al); };
            it.read = [kids, child, u1, u2](const Val &v) {
                if (!is_type(v, gbs::entity_type::CurveTrimmed) || !v.HasMember("curve") || !v.HasMember("u1") || !v.HasMember("u2")) sim::violation("changed-geometry", "a trimmed curve isn't stored as such");
                expect_num(v["u1"].GetDouble(), u1, "trimmed curve");
                expect_num(v["u2"].GetDouble(), u2, "trimmed curve");
                child(v["curve"], kids->front());
            };
            break;
        }
        case 2:
        {
            it.name = "line in a composite curve";
            auto q = gen_walk<double, 3>(g, 2);
            auto l = std::make_shared<gbs::Line<double, 3>>(q[0], q[1]);
            auto ax = l->getAx();
            it.write = [l](auto &al) { return gbs::make_json((const gbs::Curve<double, 3> *)l.get(), al); };
            it.read = [ax](const Val &v) {
                if (!is_type(v, gbs::entity_type::Line) || !v.HasMember("p1") || !v.HasMember("p2")) sim::violation("changed-geometry", "a line isn't stored as such");
                auto a = gbs::make_array<double, 3>(v["p1"]), b = gbs::make_array<double, 3>(v["p2"]);
                for (int i = 0; i < 3; ++i) { expect_num(a[i], ax[0][i], "line"); expect_num(b[i], ax[1][i], "line"); }
            };
            break;
        }
        case 3:
        {
            it.name = "plane offset";
            auto [a, b] = kids->front()->bounds();
            auto f = std::make_shared<gbs::BSCfunction<double>>(gen_monotone(g, a, b, 0.1, 0.4));
            auto c = std::make_shared<gbs::CurveOffset2D<double, gbs::BSCfunction<double>>>(kids->front(), *f);
            it.write = [c](auto &al) { return gbs::make_json((const gbs::Curve<double, 2> *)c.get(), al); };
            it.read = [kids, child, f](const Val &v) {
                if (!is_type(v, gbs::entity_type::Curve2dOffset) || !v.HasMember("curve") || !v.HasMember("function") || !is_type(v["function"], gbs::entity_type::BSCfunction)) sim::violation("changed-geometry", "an offset curve isn't stored as such");
                child(v["curve"], kids->front());
                auto r = gbs::make_curve<double, 1>(gbs::get_member(v["function"], "curve"));
                expect_values<1>(*r, f->basisCurve(), "offset law");
            };
            break;
        }
        default:
        {
            it.name = "offset in space";
            auto base = std::make_shared<gbs::BSCurve<double, 3>>(gen_bs<double, 3>(g, gen_spec(g)));
            auto [a, b] = base->bounds();
            auto f = std::make_shared<gbs::BSCfunction<double>>(gen_monotone(g, a, b, 0.1, 0.4));
            auto c = std::make_shared<gbs::CurveOffset3D<double, gbs::BSCfunction<double>>>(base, *f, gbs::point<double, 3>{0, 0, 1});
            it.write = [c](auto &al) { return gbs::make_json((const gbs::Curve<double, 3> *)c.get(), al); };
            it.read = [base, f](const Val &v) {
                if (!is_type(v, gbs::entity_type::Curve2dOffset) || !v.HasMember("curve") || !v.HasMember("function") || !v.HasMember("direction")) sim::violation("changed-geometry", "an offset curve isn't stored as such");
                expect_values<3>(*gbs::make_curve<double, 3>(v["curve"]), *base, "nested curve");
                auto d = gbs::make_array<double, 3>(v["direction"]);
                if (!(dist(d, gbs::point<double, 3>{0, 0, 1}) <= 1e-14L)) sim::violation("changed-geometry", "offset in space: another direction");
            };
        }
        }
        it.rebuild = [](const Val &v) { use<2>(*gbs::make_curve<double, 2>(v)); };
        return it;
    }
    Item gen_item(Rng &g)
    {
        switch (g.below(10))
        {
        case 0: return bs_item<1>(g);
        case 1: return bs_item<2>(g);
        case 2: return bs_item<3>(g);
        case 3: return bsr_item<2>(g);
        case 4: return bsr_item<3>(g);
        case 5: return srf_item<3>(g);
        case 6: return g.chance(0.3) ? srf_item<2>(g) : g.chance(0.3) ? srf_item<1>(g) : srf_item<3>(g);
        case 7: return rev_item(g);
        case 8: return cos_item(g);
        default: return written_item(g);
        }
    }
    std::vector<Item> gen_items(Rng &g, long top = 5)
    {
        std::vector<Item> v;
        for (size_t n = scaled(g, 1, top); n > 0; --n) v.push_back(gen_item(g));
        if (v.size() == 1 && g.chance(0.5)) v[0].alone = true;
        return v;
    }
    void fill(Doc &d, const std::vector<Item> &items)
    {
        if (items.size() == 1 && items[0].alone) { static_cast<Val &>(d) = items[0].write(d.GetAllocator()); return; }
        d.SetObject();
        Val a{rapidjson::kArrayType};
        for (auto &i : items) a.PushBack(i.write(d.GetAllocator()), d.GetAllocator());
        d.AddMember("entities", a, d.GetAllocator());
    }
    std::string serial(const std::vector<Item> &items)
    {
        Doc d;
        fill(d, items);
        rapidjson::StringBuffer b;
        rapidjson::Writer<rapidjson::StringBuffer> w(b);
        d.Accept(w);
        return std::string(b.GetString(), b.GetSize());
    }
    /// Everything read from the document agrees with what was saved.
    void expect_content(const Doc &d, const std::vector<Item> &items, const char *when)
    {
        if (items.size() == 1 && items[0].alone)
        {
            auto e = capture([&] { items[0].read(d); });
            if (e.any) sim::violation("lost-data", "%s: %s, the document itself, can't be read: %s", when, items[0].name.c_str(), e.str().c_str());
            return;
        }
        if (!d.IsObject() || !d.HasMember("entities") || !d["entities"].IsArray() || d["entities"].Size() != items.size()) sim::violation("lost-data", "%s: the document doesn't hold the %zu saved entities", when, items.size());
        for (size_t i = 0; i < items.size(); ++i)
        {
            auto &v = d["entities"][(unsigned)i];
            auto e = capture([&] { items[i].read(v); });
            if (e.any) sim::violation("lost-data", "%s: %s %zu can't be read: %s", when, items[i].name.c_str(), i, e.str().c_str());
        }
    }
    Err save(const std::vector<Item> &items)
    {
        return capture([&] { Doc d; fill(d, items); gbs::write_js_doc(d, path); });
    }
    void expect_loaded(const std::vector<Item> &items, const char *when)
    {
        Doc d;
        auto e = capture([&] { gbs::parse_file(path, d); });
        if (e.any) sim::violation("lost-data", "%s: the saved document can't be read: %s", when, e.str().c_str());
        expect_content(d, items, when);
    }
    void jitter(Rng &g) { if (g.chance(0.6)) sim::disk_jitter(g.real(0, 0.9), g.real(0, 0.3)); }
}

SIM_SCENARIO(round_trip, 3.0, false)
{
    auto g = sim::stream("case");
    auto e = sim::stream("environment");
    auto items = gen_items(g, 8);
    jitter(e);
    // whatever the file held before
    if (e.chance(0.5)) sim::disk_put(path, std::string(e.below(20000), e.chance(0.5) ? '{' : ' '));
    auto err = save(items);
    if (err.any) sim::violation("wrong-error", "saving %zu entities on a healthy disk fails: %s", items.size(), err.str().c_str());
    std::string s;
    if (!sim::disk_get(path, s) || s != serial(items)) sim::violation("lost-data", "the file isn't the document");
    expect_loaded(items, "healthy disk");
    for (auto &i : items) cover_tag(i.name.c_str(), items.size(), s.size() / 64);
    sim::count("probe.entities", items.size());
    sim::disk_clear();
}

SIM_SCENARIO(saving_fails, 3.0, true)
{
    using sim::IoFault;
    auto g = sim::stream("case");
    auto e = sim::stream("fault");
    auto items = gen_items(g);
    auto want = serial(items);
    jitter(e);
    IoFault kinds[] = {IoFault::WriteEnospc, IoFault::WriteEio, IoFault::CloseEio, IoFault::OpenFail};
    auto k = kinds[e.below(4)];
    sim::u64 at = e.chance(0.3) ? want.size() - std::min<size_t>(want.size(), e.below(3)) : e.below(want.size());
    if (sim::fault_on(0)) sim::disk_fault(k, at, k != IoFault::CloseEio && e.chance(0.5));
    auto err = save(items);
    bool fired = sim::disk_fault_fired() > 0;
    sim::disk_fault(IoFault::None, 0);
    if (fired && !err.any) sim::violation("silent-failure", "%s at byte %llu of %zu: saving reported success", sim::io_fault_name(k), (unsigned long long)at, want.size());
    if (!fired && err.any) sim::violation("wrong-error", "saving on a healthy disk fails: %s", err.str().c_str());
    // what is on the disk now is the document, or is refused
    std::string s;
    bool there = sim::disk_get(path, s);
    Doc d;
    auto r = capture([&] { gbs::parse_file(path, d); });
    if (!r.any)
    {
        if (!there) sim::violation("silent-failure", "a file which doesn't exist was read");
        if (s != want) sim::violation("damaged-accepted", "%zu bytes of a document of %zu were stored and read as if complete", s.size(), want.size());
        expect_content(d, items, "after a failed save");
    }
    // and the next save works
    err = save(items);
    if (err.any) sim::violation("wrong-error", "saving after the disk recovered fails: %s", err.str().c_str());
    expect_loaded(items, "after the disk recovered");
    if (fired) cover_tag(sim::io_fault_name(k), at * 16 / (want.size() + 1), items.size(), want.size() / 512);
    sim::disk_clear();
}

SIM_SCENARIO(crash_while_saving, 2.0, true)
{
    auto g = sim::stream("case");
    auto e = sim::stream("fault");
    auto items = gen_items(g);
    auto other = gen_items(g);
    auto want = serial(items);
    jitter(e);
    if (e.chance(0.5)) { auto err = save(other); if (err.any) sim::violation("wrong-error", "saving on a healthy disk fails: %s", err.str().c_str()); }
    sim::u64 at = e.below(want.size() + 2);
    if (sim::fault_on(0)) sim::disk_fault(sim::IoFault::Crash, at);
    struct Ctx { const std::vector<Item> &i; Err e; } ctx{items, {}};
    bool ended = sim::run_until_crash([](void *p) { auto c = (Ctx *)p; c->e = save(c->i); }, &ctx);
    bool fired = sim::disk_fault_fired() > 0;
    sim::disk_fault(sim::IoFault::None, 0);
    if (ended && ctx.e.any) sim::violation("wrong-error", "saving on a healthy disk fails: %s", ctx.e.str().c_str());
    // restart
    std::string s;
    if (!sim::disk_get(path, s)) sim::violation("lost-data", "no file after opening it");
    Doc d;
    auto r = capture([&] { gbs::parse_file(path, d); });
    if (ended || s == want)
    {
        if (r.any) sim::violation("lost-data", "a completely stored document can't be read: %s", r.str().c_str());
        expect_content(d, items, "after a crash");
    }
    else if (!r.any) sim::violation("damaged-accepted", "the process crashed after %zu bytes of %zu, and the file was read as if complete", s.size(), want.size());
    auto err = save(items);
    if (err.any) sim::violation("wrong-error", "saving after a crash fails: %s", err.str().c_str());
    expect_loaded(items, "after a crash and a new save");
    if (fired) cover_tag("crash", at * 16 / (want.size() + 1), items.size(), want.size() / 512);
    sim::disk_clear();
}

SIM_SCENARIO(loading_fails, 2.5, true)
{
    using sim::IoFault;
    auto g = sim::stream("case");
    auto e = sim::stream("fault");
    auto items = gen_items(g);
    auto want = serial(items);
    sim::disk_put(path, want);
    jitter(e);
    auto k = e.chance(0.8) ? IoFault::ReadEio : IoFault::OpenFail;
    sim::u64 at = e.chance(0.2) ? want.size() : e.below(want.size() + 1);
    bool missing = e.chance(0.1);
    if (missing) sim::disk_remove(path);
    if (sim::fault_on(0)) sim::disk_fault(k, at, e.chance(0.3));
    Doc d;
    auto r = capture([&] { gbs::parse_file(path, d); });
    bool fired = sim::disk_fault_fired() > 0;
    sim::disk_fault(IoFault::None, 0);
    if ((fired || missing) && !r.any) sim::violation("silent-failure", "%s at byte %llu of %zu: reading reported success", missing ? "missing file" : sim::io_fault_name(k), (unsigned long long)at, want.size());
    if (!fired && !missing && r.any) sim::violation("wrong-error", "reading from a healthy disk fails: %s", r.str().c_str());
    if (!r.any) expect_content(d, items, "healthy disk");
    if (missing) sim::disk_put(path, want);
    expect_loaded(items, "after the disk recovered");
    if (fired) cover_tag(sim::io_fault_name(k), at * 16 / (want.size() + 1), items.size(), want.size() / 512);
    sim::disk_clear();
}

SIM_SCENARIO(truncated, 1.5, true)
{
    auto g = sim::stream("case");
    auto e = sim::stream("fault");
    auto items = gen_items(g, 3);
    auto want = serial(items);
    for (int i = 0; i < 40; ++i)
    {
        if (e.chance(0.15)) // the remains of a longer document
        {
            auto s = want;
            if (e.chance(0.3)) s.append(e.below(20), '\n');
            size_t from = e.below(want.size());
            if (e.chance(0.5)) s += want.substr(from); else s += "{}[],:\"-.e0123456789x"[e.below(21)];
            if (!sim::fault_on(i)) continue;
            sim::disk_put(path, s);
            Doc d;
            auto r = capture([&] { gbs::parse_file(path, d); });
            if (!r.any) sim::violation("damaged-accepted", "a document followed by %zu other bytes was read as if sound", s.size() - want.size());
            sim::count("fault.disk.stale_tail");
            cover_tag("tail", from * 32 / want.size(), want.size() / 256);
            continue;
        }
        size_t n = e.chance(0.2) ? want.size() - 1 - e.below(std::min<size_t>(want.size(), 8)) : e.below(want.size());
        if (!sim::fault_on(i)) continue;
        auto s = want.substr(0, n);
        if (e.chance(0.3)) s.append(e.below(5000), '\0'); // lost page: zeros
        else if (e.chance(0.2)) s.append(e.below(100), ' ');
        sim::disk_put(path, s);
        Doc d;
        auto r = capture([&] { gbs::parse_file(path, d); });
        if (!r.any) sim::violation("damaged-accepted", "the first %zu bytes of a document of %zu were read as if complete", n, want.size());
        sim::count("fault.disk.truncated");
        cover_tag("truncated", n * 32 / want.size(), want.size() / 256);
    }
}

SIM_SCENARIO(damaged_document, 3.0, true)
{
    auto g = sim::stream("case");
    auto e = sim::stream("fault");
    auto items = gen_items(g, 3);
    auto want = serial(items);
    for (int i = 0; i < 25; ++i)
    {
        auto s = want;
        size_t at = e.below(s.size());
        switch (e.below(5))
        {
        case 0: s[at] = (char)e.below(256); break;
        case 1: s[at] = "{}[],:\"-.e0123456789"[e.below(20)]; break;
        case 2: { size_t n = 1 + e.below(std::min<size_t>(s.size() - at, e.chance(0.5) ? 4 : 512)); for (size_t j = 0; j < n; ++j) s[at + j] = 0; break; }
        case 3: s.erase(at, 1 + e.below(e.chance(0.5) ? 3 : 200)); break;
        default: { size_t b = e.below(s.size()); size_t n = 1 + e.below(60); n = std::min(n, s.size() - std::max(at, b)); for (size_t j = 0; j < n; ++j) std::swap(s[at + j], s[b + j]); }
        }
        if (!sim::fault_on(i)) continue;
        // multiplicities of more than a few digits only ask for memory
        size_t run = 0; bool huge = false;
        for (size_t p = s.find("mults"); p != std::string::npos; p = s.find("mults", p + 1))
            for (size_t q = p; q < s.size() && s[q] != ']'; ++q) { run = s[q] >= '0' && s[q] <= '9' ? run + 1 : 0; if (run > 4) huge = true; }
        if (huge) continue;
        sim::disk_put(path, s);
        Doc d;
        auto r = capture([&] { gbs::parse_file(path, d); });
        sim::count(r.any ? "fault.disk.damaged_refused" : "fault.disk.damaged_parsed");
        if (r.any) continue;
        auto u = capture([&] {
            if (items.size() == 1 && items[0].alone) return items[0].rebuild(d);
            auto &a = gbs::get_member(d, "entities");
            if (!a.IsArray()) return;
            for (unsigned j = 0; j < a.Size() && j < items.size(); ++j) items[j].rebuild(a[j]);
        });
        sim::observe(u.any);
        cover_tag("damaged", at * 32 / want.size(), items.size(), u.any);
    }
}

SIM_SCENARIO(damaged_structure, 3.0, true)
{
    auto g = sim::stream("case");
    auto e = sim::stream("fault");
    auto item = gen_item(g);
    if (!item.readable) item = gen_item(g);
    if (!item.readable) return;
    for (int i = 0; i < 10; ++i)
    {
        Doc d;
        d.CopyFrom(item.write(d.GetAllocator()), d.GetAllocator());
        // pick a node
        std::vector<Val *> nodes;
        std::function<void(Val &)> walk = [&](Val &v) {
            nodes.push_back(&v);
            if (v.IsObject()) for (auto &m : v.GetObject()) walk(m.value);
            if (v.IsArray()) for (auto &x : v.GetArray()) walk(x);
        };
        walk(d);
        // objects and their members as often as numbers
        std::vector<Val *> big;
        for (auto p : nodes) if (p->IsObject() || p->IsArray()) big.push_back(p);
        Val &v = e.chance(0.6) ? *big[e.below(big.size())] : *nodes[e.below(nodes.size())];
        bool shape = false; // the number of values, a type or a member changed
        auto sel = e.below(5);
        const char *what = "replaced";
        if (v.IsObject() && v.MemberCount() && sel < 3)
        {
            auto m = v.MemberBegin() + (long)e.below(v.MemberCount());
            what = "member removed";
            // the direct readers know what they read
            shape = strcmp(m->name.GetString(), "dim") != 0 && (item.name != "bspline curve" || strcmp(m->name.GetString(), "type") != 0);
            v.RemoveMember(m);
        }
        else if (v.IsArray() && v.Size() && sel < 2) { v.Erase(v.Begin() + (long)e.below(v.Size())); what = "value removed"; shape = true; }
        else if (v.IsArray() && v.Size() && sel == 2) { Val c; c.CopyFrom(v[(unsigned)e.below(v.Size())], d.GetAllocator()); v.PushBack(c, d.GetAllocator()); what = "value repeated"; shape = true; }
        else if (v.IsArray() && sel == 3) { v.Clear(); what = "emptied"; shape = true; }
        else switch (e.below(6))
        {
        case 0: v.SetNull(); break;
        case 1: v.SetString("bscurve"); break;
        case 2: v.SetObject(); break;
        case 3: v.SetArray(); break;
        case 4: v.SetInt(-1); break;
        default: v.SetBool(true);
        }
        if (!sim::fault_on(i)) continue;
        auto u = capture([&] { item.rebuild(d); });
        sim::observe(u.any);
        sim::count(u.any ? "fault.disk.structure_refused" : "fault.disk.structure_accepted");
        if (shape && !u.any) sim::violation("damaged-accepted", "%s: a document with a %s is read as a complete one", item.name.c_str(), what);
        cover_tag(what, u.any, sim::mix(item.name.size(), v.GetType()));
    }
}

SIM_SCENARIO(not_storable, 1.0, true)
{
    auto g = sim::stream("case");
    auto items = gen_items(g, 3);
    double bad[] = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()};
    auto c = std::make_shared<gbs::BSCurve<double, 3>>(gen_bs<double, 3>(g, gen_spec(g)));
    auto p = c->poles();
    p[g.below(p.size())][g.below(3)] = bad[g.below(3)];
    c->movePoles(p);
    bool unsup = g.chance(0.4);
    size_t at = g.below(items.size() + 1);
    auto circle = std::make_shared<gbs::Circle2d<double>>(1., gbs::point<double, 2>{0, 0});
    auto e = capture([&] {
        Doc d;
        d.SetArray();
        for (size_t i = 0; i <= items.size(); ++i)
        {
            if (i == at) d.PushBack(unsup ? gbs::make_json((const gbs::Curve<double, 2> *)circle.get(), d.GetAllocator()) : gbs::make_json(*c, d.GetAllocator()), d.GetAllocator());
            if (i < items.size()) d.PushBack(items[i].write(d.GetAllocator()), d.GetAllocator());
        }
        gbs::write_js_doc(d, path);
    });
    if (!e.any) sim::violation("silent-failure", unsup ? "a curve that can't be stored was saved without an error" : "a value that JSON can't represent was saved without an error");
    cover_tag("not storable", unsup, at, items.size());
    sim::count("fault.not_storable");
}

// Documents that describe how to build a curve.
SIM_SCENARIO(building_documents, 2.0, false)
{
    auto g = sim::stream("case");
    auto e = sim::stream("environment");
    size_t n = scaled(g, 4, 10);
    auto q = gen_walk<double, 2>(g, n), t = gen_walk<double, 2>(g, n);
    size_t p = (size_t)g.range(1, 3);
    Doc d;
    d.SetObject();
    auto &al = d.GetAllocator();
    Val v{rapidjson::kObjectType};
    const char *modes[] = {"EQUALLY_SPACED", "CHORD_LENGTH", "CENTRIPETAL"};
    gbs::KnotsCalcMode mv[] = {gbs::KnotsCalcMode::EQUALLY_SPACED, gbs::KnotsCalcMode::CHORD_LENGTH, gbs::KnotsCalcMode::CENTRIPETAL};
    auto mode = g.below(3);
    std::vector<double> u(n);
    u[0] = 0;
    for (size_t i = 1; i < n; ++i) u[i] = u[i - 1] + g.real(0.3, 1);
    auto kind = g.below(6);
    gbs::BSCurve<double, 2> want;
    std::vector<gbs::constrType<double, 2, 1>> Q1(n);
    std::vector<gbs::constrType<double, 2, 2>> Q2(n);
    for (size_t i = 0; i < n; ++i) { Q1[i] = {q[i]}; Q2[i] = {q[i], t[i]}; }
    auto points = [&](const char *name, const pts<double, 2> &x) { v.AddMember(Val(name, al), gbs::make_json(x, al), al); };
    auto constraints = [&](int nc) {
        Val a{rapidjson::kArrayType};
        a.PushBack(gbs::make_json(q, al), al);
        if (nc > 1) a.PushBack(gbs::make_json(t, al), al);
        v.AddMember("constraints", a, al);
    };
    auto str = [&](const char *name, const char *s) { v.AddMember(Val(name, al), Val(s, al), al); };
    auto params = [&] { v.AddMember("params", gbs::make_json(u.begin(), u.end(), al), al); };
    auto deg = [&] { v.AddMember("deg", Val((unsigned)p), al); };
    switch (kind)
    {
    case 0: str("type", "bscurve_interp_cn"); deg(); points("points", q); params(); want = gbs::interpolate<double, 2>(q, u, p); break;
    case 1: str("type", "bscurve_interp_cn"); deg(); points("points", q); str("param_calc_mode", modes[mode]); want = gbs::interpolate<double, 2>(q, p, mv[mode]); break;
    case 2: str("type", "bscurve_interp_cn"); deg(); points("points", q); want = gbs::interpolate<double, 2>(q, p, gbs::KnotsCalcMode::CHORD_LENGTH); break;
    case 3: str("type", "bscurve_interp"); constraints(1); str("param_calc_mode", modes[mode]); want = gbs::interpolate<double, 2>(Q1, mv[mode]); break;
    case 4: str("type", "bscurve_interp"); constraints(2); if (g.chance(0.5)) { str("param_calc_mode", "SPECIFIED"); params(); want = gbs::interpolate<double, 2>(Q2, u); } else { str("param_calc_mode", modes[mode]); want = gbs::interpolate<double, 2>(Q2, mv[mode]); } break;
    default:
    {
        auto c = gen_bs<double, 2>(g, gen_spec(g));
        p = c.degree();
        str("type", "bscurve"); deg(); points("poles", c.poles());
        v.AddMember("knots", gbs::make_json(c.knotsFlats().begin(), c.knotsFlats().end(), al), al);
        want = c;
    }
    }
    d.AddMember("curve", v, al);
    jitter(e);
    auto err = capture([&] { gbs::write_js_doc(d, path); });
    if (err.any) sim::violation("wrong-error", "saving on a healthy disk fails: %s", err.str().c_str());
    Doc r;
    err = capture([&] { gbs::parse_file(path, r); });
    if (err.any) sim::violation("lost-data", "the saved document can't be read: %s", err.str().c_str());
    err = capture([&] {
        auto c = gbs::make_bscurve<double, 2>(gbs::get_member(r, "curve"));
        if (c.degree() != want.degree()) sim::violation("changed-geometry", "a described curve has degree %zu instead of %zu", c.degree(), want.degree());
        expect_values<2>(c, want, "described curve", 1e-8L);
    });
    if (err.any) sim::violation("lost-data", "a described curve can't be built: %s", err.str().c_str());
    // a member missing
    auto f = sim::stream("fault");
    auto &o = r["curve"];
    auto m = o.MemberBegin() + (long)f.below(o.MemberCount());
    std::string name = m->name.GetString();
    o.RemoveMember(m);
    err = capture([&] { gbs::make_bscurve<double, 2>(o); });
    if (!err.any && name != "param_calc_mode" && name != "params") sim::violation("damaged-accepted", "a described curve was built without its %s", name.c_str());
    cover_tag("described", kind, mode, n);
    sim::disk_clear();
}

// C14: meshing results depend only on their arguments (not on heap placement, schedule or entropy).
#include "history.h"
#include "mesh.h"
#include "zoo.h"
#include <memory>

namespace
{
    using namespace h;

    /// Run f in another execution environment: block placement, garbage, entropy, number of workers.
    template <class F> auto elsewhere(int i, F &&f)
    {
        auto e = sim::stream("environment", (sim::u64)i);
        sim::heap_layout(i == 0 ? 0 : e.next());
        sim::entropy_seed(e.next());
        if (e.chance(0.2)) sim::entropy_constant(true, (std::uint32_t)e.next()); else sim::entropy_constant(false);
        std::vector<std::unique_ptr<char[]>> junk;
        for (size_t k = e.below(20); k > 0; --k) junk.emplace_back(new char[1 + e.below(300)]);
        for (auto &j : junk) if (e.chance(0.5)) j.reset();
        auto r = f();
        sim::heap_layout(0);
        sim::entropy_constant(false);
        return r;
    }
    void expect_print(sim::u64 a, sim::u64 b, const char *what)
    {
        if (a != b) sim::violation("environment-dependent", "%s: another mesh with the same arguments", what);
    }
    /// The mesh by value, independent of addresses.
    struct Flat
    {
        std::vector<P2> pts;
        std::vector<size_t> tri;
        sim::u64 print = 0;
        std::vector<double> numbers;
    };
    Flat flatten(const Mesh &m, const char *what, bool strict)
    {
        Flat f;
        auto v = check_mesh(m, what, strict);
        for (auto p : v.vertices) f.pts.push_back(p->coords);
        for (auto e : v.edges) f.tri.push_back(v.vi[e->vertex.get()]);
        f.print = v.print;
        // queries by index
        auto vec = gbs::getVerticesVectorFromFaces<double, 2>(m);
        auto map = gbs::getVerticesMapFromFaces<double, 2>(m);
        auto ed = gbs::getEdgesMap<double, 2>(m);
        if (vec.size() != v.vertices.size() || map.size() != vec.size()) sim::violation("wrong-result", "%s: %zu vertices, %zu in the map, %zu in the vector", what, v.vertices.size(), map.size(), vec.size());
        if (ed.size() != v.edges.size()) sim::violation("wrong-result", "%s: %zu edges, %zu in the map", what, v.edges.size(), ed.size());
        std::vector<size_t> seen(vec.size()), seene(ed.size());
        for (auto &[p, i] : map)
        {
            if (i >= vec.size() || seen[i]++) sim::violation("wrong-result", "%s: vertex index %zu is out of range or used twice", what, i);
            if (!v.vi.count(p.get()) || v.vi[p.get()] != i) sim::violation("environment-dependent", "%s: vertices are not numbered in the order of the faces", what);
        }
        for (auto &[e, i] : ed) if (i >= ed.size() || seene[i]++ || !v.ei.count(e.get())) sim::violation("wrong-result", "%s: edge index %zu is out of range or used twice", what, i);
        for (auto &p : vec) { f.numbers.push_back(p->coords[0]); f.numbers.push_back(p->coords[1]); }
        auto rim = gbs::getOrientedFacesBoundaries(m);
        for (auto &l : rim) for (auto &e : l) { f.numbers.push_back(e->vertex->coords[0]); f.numbers.push_back(e->vertex->coords[1]); }
        f.numbers.push_back(gbs::getTriangle2dMeshArea(m));
        return f;
    }
    void expect_flat(const Flat &a, const Flat &b, const char *what)
    {
        if (!same_bits(a.pts, b.pts) || a.tri != b.tri || a.print != b.print) sim::violation("environment-dependent", "%s: another mesh with the same arguments (%zu and %zu points, %zu and %zu faces)", what, a.pts.size(), b.pts.size(), a.tri.size() / 3, b.tri.size() / 3);
        if (!same_bits(a.numbers, b.numbers)) sim::violation("environment-dependent", "%s: the same mesh is reported in another order or with other measures", what);
    }
    template <class F> Flat everywhere(const char *what, bool strict, F &&make)
    {
        auto a = elsewhere(0, [&] { return flatten(make(), what, strict); });
        for (int i = 1; i < 3; ++i)
        {
            if (!sim::op_on(i)) continue;
            auto b = elsewhere(i, [&] { return flatten(make(), what, strict); });
            expect_flat(a, b, what);
        }
        return a;
    }
}

SIM_SCENARIO(triangulate, 2.0, false)
{
    auto g = sim::stream("case");
    int kind = (int)g.below(n_point_kinds);
    auto cloud = gen_cloud(g, kind, scaled(g, 3, 40));
    auto a = everywhere("triangulated points", true, [&] { return gbs::delaunay2DBoyerWatson<double>(cloud); });
    cover_tag("tri", (sim::u64)kind, a.pts.size(), a.tri.size());
    sim::observe(a.print);
}

SIM_SCENARIO(refine_plane, 2.0, false)
{
    auto g = sim::stream("case");
    auto outer = gen_star(g, scaled(g, 4, 16), {0, 0}, 0.5, 1.);
    if (g.chance(0.4)) // symmetric domains: equal measures and cocircular points everywhere
    {
        outer.clear();
        size_t n = scaled(g, 1, 5);
        for (size_t i = 0; i < n; ++i) outer.push_back({(double)i / n, 0});
        for (size_t i = 0; i < n; ++i) outer.push_back({1, (double)i / n});
        for (size_t i = n; i > 0; --i) outer.push_back({(double)i / n, 1});
        for (size_t i = n; i > 0; --i) outer.push_back({0, (double)i / n});
    }
    size_t limit = scaled(g, 1, 40);
    double crit = g.chance(0.3) ? 0 : g.real(0.0005, 0.2);
    auto q = g.below(4);
    double split = g.real(0.01, 0.3);
    size_t n0 = gbs::getVerticesVectorFromFaces<double, 2>(gbs::delaunay2DConstrained<double>(outer)).size();
    auto a = everywhere("refined plane mesh", true, [&] {
        Mesh m = gbs::delaunay2DConstrained<double>(outer);
        if (q == 0) gbs::delaunay2DBoyerWatsonMeshRefine<double, 2, gbs::MaxEdgeSize<double, 2>>(m, crit, limit);
        else if (q == 1) { gbs::TriangleShapeEdgeSplit<double, 2> f(split); gbs::delaunay2DBoyerWatsonMeshRefine<double, 2, gbs::TriangleShapeEdgeSplit<double, 2>>(m, 1 + crit, f, limit); }
        else if (q == 2) { gbs::TriangleShape<double, 2> f(split); gbs::delaunay2DBoyerWatsonMeshRefine<double, 2, gbs::TriangleShape<double, 2>>(m, 1 + crit, f, limit); }
        else gbs::delaunay2DBoyerWatsonMeshRefine<double, 2, gbs::TriangleShape2<double, 2>>(m, crit, limit);
        return m;
    });
    if (a.pts.size() > n0 + limit) sim::violation("wrong-result", "refining added %zu points, %zu were allowed", a.pts.size() - n0, limit);
    cover_tag("plane", q, a.pts.size(), outer.size());
    sim::count("probe.refined", a.pts.size() - n0);
    sim::observe(a.print);
}

SIM_SCENARIO(constrained, 1.5, false)
{
    auto g = sim::stream("case");
    auto d = gen_domain(g);
    size_t n = scaled(g, 0, 8), limit = scaled(g, 0, 20);
    std::vector<std::array<double, 3>> in(n);
    for (auto &x : in) x = {g.real(0.05, 1), g.real(0.05, 1), g.real(0.05, 1)};
    double crit = g.real(0.005, 0.2) * (double)d.area;
    std::vector<double> pick(n);
    for (auto &x : pick) x = g.uniform();
    auto a = everywhere("constrained triangulation", true, [&] {
        Mesh m = gbs::delaunay2DConstrained<double>(d.outer, d.holes);
        for (size_t i = 0; i < n; ++i)
        {
            auto e = (*std::next(m.begin(), std::min(m.size() - 1, (size_t)(pick[i] * m.size()))))->edge;
            auto &x = e->vertex->coords, &y = e->next->vertex->coords, &z = e->previous->vertex->coords;
            auto [s, t, u] = in[i];
            gbs::boyerWatson<double>(m, P2{(s * x[0] + t * y[0] + u * z[0]) / (s + t + u), (s * x[1] + t * y[1] + u * z[1]) / (s + t + u)});
        }
        if (limit) gbs::delaunay2DBoyerWatsonMeshRefine<double, 2, gbs::MaxEdgeSize<double, 2>>(m, crit, limit);
        return m;
    });
    cover_tag("constrained", a.pts.size(), d.outer.size(), d.holes.size());
    sim::observe(a.print);
}

SIM_SCENARIO(refine_surface, 1.5, false)
{
    auto g = sim::stream("case");
    const char *name;
    auto s = gen_surface(g, (int)g.below(n_surface_kinds), &name);
    size_t nu = (size_t)g.range(2, 6), nv = (size_t)g.range(2, 6);
    auto ring = gbs::meshSurfaceBoundary(*s, nu, nv, 0.05);
    double step = 1e300;
    for (size_t i = 0; i < ring.size(); ++i) step = std::min(step, (double)dist(ring[i], ring[(i + 1) % ring.size()]));
    if (step < 1e-4) return;
    size_t limit = scaled(g, 1, 20);
    double crit = g.chance(0.3) ? 0 : g.real(1e-4, 0.2);
    auto q = g.below(5);
    auto a = everywhere("refined surface mesh", true, [&] {
        if (q == 0) return gbs::delaunay2DBoyerWatsonSurfaceMesh<double, 3, gbs::DistanceMeshSurface2<double, 3>>(*s, crit, limit, nu, nv, 0.05);
        if (q == 1) return gbs::delaunay2DBoyerWatsonSurfaceMesh<double, 3, gbs::DeviationMeshSurface2<double, 3>>(*s, crit, limit, nu, nv, 0.05);
        if (q == 2) return gbs::delaunay2DBoyerWatsonSurfaceMesh<double, 3, gbs::MaxEdgeSizeSurface<double, 3>>(*s, crit, limit, nu, nv, 0.05);
        if (q == 3) return gbs::delaunay2DBoyerWatsonSurfaceMesh<double, 3, gbs::DistanceMeshSurface3<double, 3>>(*s, crit, limit, nu, nv, 0.05);
        return gbs::delaunay2DBoyerWatsonSurfaceMesh<double, 3, gbs::DeviationMeshSurface<double, 3>>(*s, crit, limit, nu, nv, 0.05);
    });
    if (a.pts.size() > ring.size() + limit) sim::violation("wrong-result", "refining added %zu points, %zu were allowed", a.pts.size() - ring.size(), limit);
    cover_tag(name, q, a.pts.size(), limit);
    sim::count("probe.refined", a.pts.size() - ring.size());
    sim::observe(a.print);
}

SIM_SCENARIO(measures, 2.0, false)
{
    auto g = sim::stream("case");
    auto cloud = gen_cloud(g, (int)g.below(n_point_kinds), scaled(g, 3, 50));
    Mesh m = gbs::delaunay2DBoyerWatson<double>(cloud);
    if (g.chance(0.3)) for (size_t k = g.below(3); k > 0 && !m.empty(); --k) { gbs::remove_faces(m, (*std::next(m.begin(), g.below(m.size())))->edge->vertex); gbs::repairVertexEdges<double, 2>(m); }
    auto v = check_mesh(m, "triangulated points");
    std::vector<Face> vec(m.begin(), m.end());
    double seq = gbs::getTriangle2dMeshArea(m), seqv = gbs::getTriangle2dMeshArea(vec);
    double par = gbs::getTriangle2dMeshAreaPar(m), parv = gbs::getTriangle2dMeshAreaPar(vec);
    // error of an area: products of coordinate differences
    ld tol = 1e-14L * (ld)(m.size() + 1) * (v.extent + std::abs(v.area));
    for (double x : {seq, seqv, par, parv})
        if (!(std::abs(x - v.area) <= tol)) sim::violation("wrong-result", "the area of %zu faces is given as %.17g instead of %.17Lg", m.size(), x, v.area);
    // smoothing a vertex: the mean of its neighbours, whatever the storage
    if (!m.empty())
    {
        auto f = *std::next(m.begin(), g.below(m.size()));
        auto p = f->edge->vertex;
        std::set<const void *> nb;
        std::array<ld, 2> mean{};
        bool open = false;
        for (auto e : v.edges) if (e->vertex.get() == p.get() && !e->opposite) open = true;
        for (auto e : v.edges) if (e->previous && e->previous->vertex.get() == p.get()) if (nb.insert(e->vertex.get()).second) for (int i = 0; i < 2; ++i) mean[i] += e->vertex->coords[i];
        if (gbs::is_boundary(*p) != open) sim::violation("wrong-result", "a vertex %s is reported %s the boundary", open ? "of the boundary" : "inside of the mesh", open ? "off" : "on");
        if (!open && !nb.empty())
        {
            auto l = gbs::getNeighboringVertices(*p);
            std::set<const void *> s;
            for (auto &x : l) if (!s.insert(x.get()).second) sim::violation("wrong-result", "a neighbour is reported twice");
            if (s != nb) sim::violation("wrong-result", "%zu neighbours of a vertex are reported, it has %zu", s.size(), nb.size());
            gbs::laplacian_smoothing(m, *p);
            for (int i = 0; i < 2; ++i)
                if (!(std::abs(p->coords[i] - mean[i] / nb.size()) <= 1e-13L * (std::abs(mean[i]) + std::sqrt(v.extent)))) sim::violation("wrong-result", "a smoothed vertex isn't the mean of its %zu neighbours", nb.size());
            sim::count("probe.smoothed");
        }
    }
    cover_tag("measures", m.size(), v.boundary);
    sim::observe(v.print);
}

SIM_SCENARIO(perturbation, 1.0, false)
{
    auto g = sim::stream("case");
    auto e = sim::stream("environment");
    auto cloud = gen_cloud(g, (int)g.below(n_point_kinds), scaled(g, 1, 60));
    sim::entropy_seed(e.next());
    if (e.chance(0.5)) sim::entropy_constant(true, e.chance(0.5) ? (e.chance(0.5) ? 0u : 0xffffffffu) : (std::uint32_t)e.next());
    auto p = cloud;
    gbs::add_noise<double>(p);
    sim::entropy_constant(false);
    const double eps = std::numeric_limits<double>::epsilon();
    for (size_t i = 0; i < p.size(); ++i)
        for (int c = 0; c < 2; ++c)
        {
            double x = cloud[i][c];
            // eps, then one rounding of the sum
            if (!(std::abs((ld)p[i][c] - x) <= eps + std::abs(x) * eps)) sim::violation("wrong-result", "the perturbation moved %.17g to %.17g", x, p[i][c]);
        }
    if (p.size() != cloud.size()) sim::violation("wrong-result", "the perturbation changed the number of points");
    // a perturbed set still gives a sound mesh
    auto v = check_mesh(gbs::delaunay2DBoyerWatson<double>(p), "triangulated perturbed points");
    cover_tag("noise", p.size(), v.nf);
}

SIM_SCENARIO(exhaustive_triangulation, 0.5, false)
{
    auto g = sim::stream("case");
    auto cloud = gen_cloud(g, g.chance(0.5) ? 0 : 7, scaled(g, 3, 9));
    std::sort(cloud.begin(), cloud.end());
    cloud.erase(std::unique(cloud.begin(), cloud.end()), cloud.end());
    auto flat = [&](auto make) {
        auto vtx = gbs::make_shared_h_vertices<double, 2>(cloud);
        std::vector<P2> c;
        for (auto &f : make(vtx)) for (auto &p : gbs::getFaceVertices(f)) c.push_back(p->coords);
        return c;
    };
    auto a = elsewhere(0, [&] { return flat([](auto &v) { return gbs::base_delaunay2d_mesh<double>(v); }); });
    auto b = elsewhere(1, [&] { return flat([](auto &v) { return gbs::base_delaunay2d_mesh<double, gbs::par_exec>(v); }); });
    auto c = elsewhere(2, [&] { return flat([](auto &v) { return gbs::base_delaunay2d_mesh<double, gbs::par_exec>(v); }); });
    if (!same_bits(a, b) || !same_bits(a, c)) sim::violation("environment-dependent", "triangulating %zu points in parallel gives other faces (%zu, %zu, %zu)", cloud.size(), a.size() / 3, b.size() / 3, c.size() / 3);
    cover_tag("exhaustive", cloud.size(), a.size());
    sim::observe(a.size());
}
SIM_SCENARIO(call_history, 1.5, false)
{
    auto r = sim::stream("in");
    Gates g(r);
    sim::step_budget(3000000000);
    call_history(r, {{5, -1}});
}

// C13: a triangulation stays a valid mesh through any history of operations, failing ones included.
#include "mesh.h"
#include "zoo.h"

namespace
{
    using namespace h;

    /// Where is p in the domain covered by the mesh: 2 inside, 1 on its rim, 0 outside, 3 on a vertex.
    int locate(const MeshView &v, const P2 &p)
    {
        for (auto q : v.vertices) if (q->coords == p) return 3;
        for (auto e : v.edges)
            if (e->previous && e->next->next == e->previous)
            {
                auto &a = e->previous->vertex->coords, &b = e->vertex->coords, &c = e->next->vertex->coords;
                int o0 = exact_orient(a, b, p);
                if (o0 < 0) continue;
                int o1 = exact_orient(b, c, p), o2 = exact_orient(c, a, p);
                if (o1 < 0 || o2 < 0) continue;
                if (o0 == 0 && !e->opposite) return 1;
                if (o1 == 0 && !e->next->opposite) return 1;
                if (o2 == 0 && !e->previous->opposite) return 1;
                return 2;
            }
        return 0;
    }
    struct Tally { size_t inserted = 0, refused = 0, flips = 0, splits = 0, recovered = 0, failed = 0; };

    /// Runs op with the k-th allocation failing when armed; true when it went through.
    template <class F> bool attempt(bool arm, Rng &r, const Mesh &m, sim::u64 before, const char *what, bool strict, F &&op)
    {
        if (!arm) { op(); return true; }
        sim::u64 k = 1 + r.below(24);
        Err e;
        sim::alloc_arm(k, r.chance(0.3));
        e = capture(op);
        auto w = sim::alloc_disarm();
        if (!e.any) { if (w.failed) sim::count("probe.fault_absorbed"); return true; }
        if (!e.oom || !w.failed) sim::violation("wrong-error", "%s: %s", what, e.str().c_str());
        sim::count("probe.failed_edit");
        auto v = check_mesh(m, what, strict);
        if (v.print != before) sim::violation("partial-edit", "%s: failed for want of memory and left a changed mesh", what);
        return false;
    }

    void history(bool faults)
    {
        auto g = sim::stream("case"), fr = sim::stream("fault");
        int kind = (int)g.below(n_point_kinds);
        auto cloud = gen_cloud(g, kind, scaled(g, 3, 34));
        // splitting an edge creates its middle: keep that exact where coverage is judged exactly
        bool dyadic = kind == 1 || kind == 3 || kind == 7;
        for (int i = 0; i < 2; ++i)
        {
            double a = 1e300, b = -1e300;
            for (auto &x : cloud) { a = std::min(a, x[i]); b = std::max(b, x[i]); }
            if (!(b - a > 1e-6)) return; // no box around them
        }
        Mesh m = gbs::getEncompassingMesh<double>(cloud, g.chance(0.5) ? 10. : g.real(5, 400));
        auto v = check_mesh(m, "encompassing mesh");
        const ld area = v.area;
        double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
        for (auto p : v.vertices) for (int i = 0; i < 2; ++i) { lo[i] = std::min(lo[i], p->coords[i]); hi[i] = std::max(hi[i], p->coords[i]); }
        if (!(area > 0)) return;
        Tally t;
        bool delaunay = true;
        double p_other = g.chance(0.4) ? 0 : g.real(0.05, 0.6);
        size_t n_ops = cloud.size() + (p_other > 0 ? scaled(g, 2, 20) : 0), next = 0;
        bool strict = true;
        for (size_t i = 0; i < n_ops; ++i)
        {
            auto o = sim::stream("op", i);
            if (!sim::op_on((int)i)) continue;
            bool arm = faults && o.chance(0.5) && sim::fault_on((int)i);
            auto fo = sim::stream("opfault", i);
            auto pick_face = [&] { return *std::next(m.begin(), o.below(m.size())); };
            size_t what = next < cloud.size() && !o.chance(p_other) ? 0 : 1 + o.below(4);
            if (what == 0 || what == 4)
            {
                P2 xy;
                if (what == 0) xy = cloud[next++];
                else switch (o.below(5))
                {
                case 0: xy = v.vertices[o.below(v.vertices.size())]->coords; break; // occupied
                case 1: xy = {hi[0] + (hi[0] - lo[0]) * o.uniform(), lattice(o.real(lo[1], hi[1]))}; break; // outside
                case 2: { auto e = v.edges[o.below(v.edges.size())]; auto &a = e->vertex->coords, &b = e->previous->vertex->coords; xy = {0.5 * (a[0] + b[0]), 0.5 * (a[1] + b[1])}; break; }
                case 3: { auto e = v.edges[o.below(v.edges.size())]; auto &a = e->vertex->coords, &b = e->previous->vertex->coords, &c = e->next->vertex->coords; xy = {(a[0] + b[0] + c[0]) / 3, (a[1] + b[1] + c[1]) / 3}; break; }
                default: xy = {o.real(lo[0], hi[0]), o.real(lo[1], hi[1])};
                }
                int where = locate(v, xy);
                sim::note("insert (%.17g, %.17g)%s", xy[0], xy[1], arm ? " short of memory" : "");
                Vtx vtx;
                Mesh del, add;
                bool done = false;
                auto op = [&] { auto res = gbs::boyerWatson<double>(m, xy); vtx = std::get<0>(res); del = std::move(std::get<1>(res)); add = std::move(std::get<2>(res)); };
                done = attempt(arm, fo, m, v.print, "inserting a point", strict, op);
                if (!done) { ++t.failed; op(); }
                auto w = check_mesh(m, "inserting a point", strict);
                if (!vtx)
                {
                    ++t.refused;
                    if (w.print != v.print) sim::violation("partial-edit", "inserting a point was refused and changed the mesh");
                    if (where == 2) sim::violation("wrong-result", "the point (%.17g, %.17g) lies inside of the mesh and wasn't inserted", xy[0], xy[1]);
                }
                else
                {
                    ++t.inserted;
                    if (where != 2 && where != 1) sim::violation("wrong-result", "the point (%.17g, %.17g) was inserted %s", xy[0], xy[1], where == 3 ? "twice" : "outside of the mesh");
                    if (vtx->coords != xy || !w.vi.count(vtx.get())) sim::violation("wrong-result", "the inserted vertex isn't part of the mesh");
                    if (w.vertices.size() != v.vertices.size() + 1) sim::violation("wrong-result", "inserting one point took the mesh from %zu to %zu vertices", v.vertices.size(), w.vertices.size());
                    if (w.nf != v.nf + add.size() - del.size()) sim::violation("wrong-result", "inserting a point reports %zu new and %zu deleted faces, the mesh went from %zu to %zu", add.size(), del.size(), v.nf, w.nf);
                    for (auto &f : add) if (!w.fi.count(f.get())) sim::violation("wrong-result", "a face reported as new isn't in the mesh");
                    for (auto &f : del) if (w.fi.count(f.get()) || !v.fi.count(f.get())) sim::violation("wrong-result", "a face reported as deleted is still in the mesh");
                }
                v = w;
            }
            else if (what == 1)
            {
                // flip where the two faces form a strictly convex quadrilateral
                auto e = v.edges[o.below(v.edges.size())];
                if (!e->opposite) continue;
                auto &a = e->previous->vertex->coords, &b = e->vertex->coords, &c = e->next->vertex->coords, &d = e->opposite->next->vertex->coords;
                if (exact_orient(c, d, b) <= 0 || exact_orient(d, c, a) <= 0) continue;
                sim::note("flip%s", arm ? " short of memory" : "");
                Face f1 = e->face, f2 = e->opposite->face;
                const void *pa = e->previous->vertex.get(), *pb = e->vertex.get(), *pc = e->next->vertex.get(), *pd = e->opposite->next->vertex.get();
                auto op = [&] { gbs::flip(f1, f2); };
                if (!attempt(arm, fo, m, v.print, "flipping an edge", strict, op)) { ++t.failed; op(); }
                ++t.flips;
                delaunay = false;
                auto w = check_mesh(m, "flipping an edge", strict);
                if (w.nf != v.nf || w.vertices.size() != v.vertices.size()) sim::violation("wrong-result", "flipping an edge changed the number of faces or vertices");
                auto [x, y] = gbs::getCommonEdges(f1, f2);
                if (!x || !y) sim::violation("wrong-result", "flipped faces share no edge");
                const void *px = x->vertex.get(), *py = y->vertex.get();
                if (!((px == pc && py == pd) || (px == pd && py == pc))) sim::violation("wrong-result", "after flipping, the faces share another edge than the second diagonal");
                (void)pa; (void)pb;
                v = w;
            }
            else if (what == 2)
            {
                auto f = pick_face();
                auto e = o.below(2) ? f->edge : f->edge->next;
                auto a = e->previous->vertex->coords, b = e->vertex->coords;
                P2 mid = {0.5 * (a[0] + b[0]), 0.5 * (a[1] + b[1])};
                if (exact_orient(a, b, mid) != 0)
                {
                    // the rounded middle must leave valid faces on both sides
                    if (!e->opposite) continue; // would move the rim
                    auto c = e->next->vertex->coords, d = e->opposite->next->vertex->coords;
                    if (exact_orient(a, mid, c) <= 0 || exact_orient(mid, b, c) <= 0 || exact_orient(b, mid, d) <= 0 || exact_orient(mid, a, d) <= 0) continue;
                }
                if (locate(v, mid) == 3) continue;
                sim::note("split%s", arm ? " short of memory" : "");
                bool inner = (bool)e->opposite;
                Vtx nv;
                auto op = [&] { auto he = e; nv = gbs::splitHalfEdge(he, m); };
                if (!attempt(arm, fo, m, v.print, "splitting an edge", strict, op)) { ++t.failed; op(); }
                ++t.splits;
                delaunay = false;
                auto w = check_mesh(m, "splitting an edge", strict);
                if (!nv || nv->coords != mid || !w.vi.count(nv.get())) sim::violation("wrong-result", "splitting an edge didn't create its middle");
                if (w.nf != v.nf + (inner ? 2 : 1) || w.vertices.size() != v.vertices.size() + 1)
                    sim::violation("wrong-result", "splitting an edge took %zu faces to %zu and %zu vertices to %zu", v.nf, w.nf, v.vertices.size(), w.vertices.size());
                v = w;
            }
            else
            {
                auto p = v.vertices[o.below(v.vertices.size())], q = v.vertices[o.below(v.vertices.size())];
                Vtx vp, vq;
                for (auto e : v.edges) { if (e->vertex.get() == p) vp = e->vertex; if (e->vertex.get() == q) vq = e->vertex; }
                sim::note("recover (%.17g, %.17g) (%.17g, %.17g)", p->coords[0], p->coords[1], q->coords[0], q->coords[1]);
                bool known = false;
                for (auto e : v.edges) known = known || (e->vertex == vq && e->previous->vertex == vp);
                HEdge he;
                if (arm) sim::alloc_arm(1 + fo.below(60), false);
                auto err = capture([&] { he = gbs::recoverEdge<double>(m, vp, vq); });
                auto win = arm ? sim::alloc_disarm() : sim::AllocWindow{};
                if (err.any && !(err.oom && win.failed)) sim::violation("wrong-error", "recovering an edge: %s", err.str().c_str());
                auto w = check_mesh(m, "recovering an edge", strict); // flips done before a failure are complete ones
                if (err.any) ++t.failed;
                else if (he)
                {
                    ++t.recovered;
                    if (he->vertex != vq || he->previous->vertex != vp || !w.ei.count(he.get())) sim::violation("wrong-result", "the recovered edge doesn't join the two vertices");
                }
                else if (known && p != q) sim::violation("wrong-result", "an edge of the mesh wasn't found");
                if (w.nf != v.nf || w.vertices.size() != v.vertices.size()) sim::violation("wrong-result", "recovering an edge changed the number of faces or vertices");
                delaunay = delaunay && w.print == v.print;
                v = w;
            }
            check_area(v.area, area, "mesh after an edit", v.extent);
            if (o.chance(0.1)) check_fans(m, v, "walking around vertices");
        }
        check_fans(m, v, "walking around vertices");
        if (delaunay && kind != 4 && kind != 5) check_delaunay(v, "point by point triangulation");
        sim::count("probe.inserted", t.inserted);
        sim::count("probe.refused", t.refused);
        sim::count("probe.flips", t.flips);
        sim::count("probe.splits", t.splits);
        sim::count("probe.recovered", t.recovered);
        cover_tag("mesh_history", (sim::u64)kind, sim::mix(t.inserted, t.flips), sim::mix(t.splits + 64 * t.recovered, t.refused));
        // take the faces of a few vertices away: what remains is a sound mesh
        size_t drop = g.below(4);
        for (size_t i = 0; i < drop && !m.empty(); ++i)
        {
            auto vtx = (*std::next(m.begin(), g.below(m.size())))->edge->vertex;
            size_t held = gbs::getFacesAttachedToVertex(vtx).size(), n0 = m.size();
            size_t n = gbs::remove_faces(m, vtx);
            if (m.size() + n != n0 || n < held) sim::violation("wrong-result", "removing the faces of a vertex: %zu reported, %zu gone, %zu held it", n, n0 - m.size(), held);
            gbs::repairVertexEdges<double, 2>(m);
            auto w = check_mesh(m, "removing faces", strict);
            if (w.vi.count(vtx.get())) sim::violation("wrong-result", "a vertex whose faces were removed is still in the mesh");
            check_fans(m, w, "walking around vertices");
        }
        sim::observe(v.print);
        (void)dyadic;
    }
}

SIM_SCENARIO(edit_history, 3.0, false) { history(false); }
SIM_SCENARIO(edit_history_out_of_memory, 2.0, true) { history(true); }

// Known finding: faces of the hull are dropped together with the encompassing mesh when its vertices are too close.
SIM_SCENARIO(hull_of_points, 0.02, false)
{
    pts<double, 2> cloud{{0, 0}, {1, 0}, {0.5, 0.01}, {0, 1}, {1, 1}};
    Mesh m = gbs::delaunay2DBoyerWatson<double>(cloud);
    auto v = check_mesh(m, "triangulated points");
    auto ha = ring_area(convex_hull(cloud));
    if (std::abs(v.area - ha) > 1e-9L) sim::violation("hull-not-covered", "delaunay2DBoyerWatson of (0,0) (1,0) (0.5,0.01) (0,1) (1,1): the faces cover %.6Lg of %.6Lg", v.area, ha);
}

SIM_SCENARIO(point_sets, 2.0, false)
{
    auto g = sim::stream("case");
    int kind = (int)g.below(n_point_kinds);
    auto cloud = gen_cloud(g, kind, scaled(g, 3, 60));
    sim::note("%zu points of kind %d", cloud.size(), kind);
    Mesh m = gbs::delaunay2DBoyerWatson<double>(cloud);
    auto v = check_mesh(m, "triangulated points");
    check_fans(m, v, "walking around vertices");
    std::set<P2> in(cloud.begin(), cloud.end());
    for (auto p : v.vertices) if (!in.count(p->coords)) sim::violation("wrong-result", "the triangulation holds a vertex which isn't one of the points");
    auto hull = convex_hull(cloud);
    ld ha = hull.size() < 3 ? 0 : ring_area(hull);
    if (v.area > ha * (1 + 1e-9L) + 1e-15L * v.extent) sim::violation("wrong-coverage", "the faces cover %.17Lg, the hull of the points only %.17Lg", v.area, ha);
    if (kind != 4 && kind != 5) check_delaunay(v, "triangulated points");
    // the faces are those of the incremental triangulation which hold no vertex of the encompassing mesh
    if (!cloud.empty())
    {
        Mesh ref = gbs::getEncompassingMesh<double>(cloud);
        std::set<const void *> super;
        for (auto &f : ref) for (auto e : gbs::getTriangleEdges(f)) super.insert(e->vertex.get());
        for (auto &p : cloud) gbs::boyerWatson<double>(ref, p);
        auto key = [](const Face &f) {
            std::array<P2, 3> t{f->edge->vertex->coords, f->edge->next->vertex->coords, f->edge->previous->vertex->coords};
            std::rotate(t.begin(), std::min_element(t.begin(), t.end()), t.end());
            return t;
        };
        std::set<std::array<P2, 3>> a, b;
        for (auto &f : m) a.insert(key(f));
        for (auto &f : ref)
        {
            bool s = false;
            for (auto e : gbs::getTriangleEdges(f)) s = s || super.count(e->vertex.get());
            if (!s) b.insert(key(f));
        }
        if (a != b) sim::violation("wrong-result", "triangulated points: %zu faces, %zu are those without a vertex of the encompassing mesh", a.size(), b.size());
    }
    // no point lies within a face
    for (auto &f : m)
    {
        auto e = f->edge;
        auto &a = e->vertex->coords, &b = e->next->vertex->coords, &c = e->previous->vertex->coords;
        for (auto &p : in)
            if (exact_orient(a, b, p) > 0 && exact_orient(b, c, p) > 0 && exact_orient(c, a, p) > 0)
                sim::violation("wrong-result", "the point (%.17g, %.17g) lies within a face", p[0], p[1]);
    }
    if (g.chance(0.3) && !m.empty())
    {
        auto ring = gen_star(g, (size_t)g.range(3, 9), cloud[g.below(cloud.size())], 0.05, 0.6);
        auto boundary = gbs::make_HalfEdges<double>(ring);
        auto before = v.area;
        bool ext = g.chance(0.5);
        auto taken = ext ? gbs::takeExternalFaces<double>(m, boundary) : gbs::takeInternalFaces<double>(m, boundary);
        auto w = check_mesh(m, "taking faces away");
        check_fans(m, w, "walking around vertices");
        if (w.nf + taken.size() != v.nf) sim::violation("wrong-result", "taking faces away: %zu faces, %zu kept, %zu taken", v.nf, w.nf, taken.size());
        ld out = 0;
        for (auto &f : taken)
        {
            if (w.fi.count(f.get())) sim::violation("wrong-result", "a face taken away is still in the mesh");
            auto e = f->edge;
            out += tri_area2(e->vertex->coords, e->next->vertex->coords, e->previous->vertex->coords) / 2;
        }
        if (v.area > 0) check_area(w.area + out, before, "faces kept and taken", v.extent);
        sim::count("probe.taken", taken.size());
        // and it can be worked on
        for (size_t i = 0; i < 4 && !m.empty(); ++i)
        {
            auto e = (*std::next(m.begin(), g.below(m.size())))->edge;
            auto &a = e->vertex->coords, &b = e->next->vertex->coords, &c = e->previous->vertex->coords;
            P2 xy{(a[0] + b[0] + c[0]) / 3, (a[1] + b[1] + c[1]) / 3};
            gbs::boyerWatson<double>(m, xy);
            auto x = check_mesh(m, "inserting a point after taking faces away");
            check_area(x.area, w.area, "inserting a point after taking faces away", x.extent);
        }
    }
    cover_tag("points", (sim::u64)kind, v.nf, v.vertices.size());
    sim::observe(v.print);
}

namespace
{
    void check_domain(const Mesh &m, const MeshView &v, const Domain &d, const char *what)
    {
        check_area(v.area, d.area, what, v.extent);
        std::map<P2, gbs::HalfEdgeVertex<double, 2> *> at;
        for (auto p : v.vertices) at[p->coords] = p;
        std::set<std::pair<const void *, const void *>> rim;
        for (auto e : v.edges) if (!e->opposite) rim.insert({e->previous->vertex.get(), e->vertex.get()});
        size_t n = 0;
        auto ring = [&](const pts<double, 2> &p, bool rev) {
            for (size_t i = 0; i < p.size(); ++i)
            {
                auto a = at.find(p[i]), b = at.find(p[(i + 1) % p.size()]);
                if (a == at.end() || b == at.end()) sim::violation("wrong-result", "%s: a point of the boundary is missing", what);
                auto k = rev ? std::make_pair((const void *)b->second, (const void *)a->second) : std::make_pair((const void *)a->second, (const void *)b->second);
                if (!rim.count(k)) sim::violation("wrong-result", "%s: the boundary edge (%.17g,%.17g) (%.17g,%.17g) is missing", what, p[i][0], p[i][1], b->first[0], b->first[1]);
                ++n;
            }
        };
        ring(d.outer, false);
        for (auto &hl : d.holes) ring(hl, true);
        if (rim.size() != n) sim::violation("wrong-result", "%s: %zu edges on the rim, the boundary has %zu", what, rim.size(), n);
        (void)m;
    }
}

SIM_SCENARIO(constrained, 3.0, false)
{
    auto g = sim::stream("case");
    auto d = gen_domain(g);
    sim::note("%zu points, %zu holes", d.outer.size(), d.holes.size());
    Mesh m = gbs::delaunay2DConstrained<double>(d.outer, d.holes);
    auto v = check_mesh(m, "constrained triangulation");
    check_domain(m, v, d, "constrained triangulation");
    check_fans(m, v, "walking around vertices");
    size_t total = d.outer.size();
    for (auto &hl : d.holes) total += hl.size();
    if (v.vertices.size() != total) sim::violation("wrong-result", "constrained triangulation: %zu vertices for %zu points", v.vertices.size(), total);
    cover_tag("constrained", d.outer.size(), d.holes.size(), v.nf);
    sim::count("probe.constrained_faces", v.nf);
    // insert points
    size_t n = scaled(g, 0, 12);
    size_t nv = v.vertices.size();
    for (size_t i = 0; i < n; ++i)
    {
        auto e = (*std::next(m.begin(), g.below(m.size())))->edge;
        double a = g.real(0.05, 1), b = g.real(0.05, 1), c = g.real(0.05, 1), s = a + b + c;
        auto &x = e->vertex->coords, &y = e->next->vertex->coords, &z = e->previous->vertex->coords;
        P2 xy{(a * x[0] + b * y[0] + c * z[0]) / s, (a * x[1] + b * y[1] + c * z[1]) / s};
        auto w0 = check_mesh(m, "before");
        int where = locate(w0, xy);
        auto res = gbs::boyerWatson<double>(m, xy);
        if (std::get<0>(res)) ++nv;
        else if (where == 2) sim::violation("wrong-result", "a point inside of the constrained mesh wasn't inserted");
        v = check_mesh(m, "inserting a point in a constrained mesh");
        check_domain(m, v, d, "inserting a point in a constrained mesh");
        if (v.vertices.size() != nv) sim::violation("wrong-result", "inserting a point in a constrained mesh: %zu vertices instead of %zu", v.vertices.size(), nv);
    }
    // reshape
    if (g.chance(0.4))
    {
        size_t limit = scaled(g, 1, 25);
        gbs::delaunay2DBoyerWatsonMeshRefine<double, 2, gbs::MaxEdgeSize<double, 2>>(m, (double)(d.area / 50), limit);
        v = check_mesh(m, "refining a constrained mesh");
        check_domain(m, v, d, "refining a constrained mesh");
        if (v.vertices.size() > nv + limit) sim::violation("wrong-result", "refining added %zu points, %zu were allowed", v.vertices.size() - nv, limit);
        sim::count("probe.refined", v.vertices.size() - nv);
    }
    sim::observe(v.print);
}

namespace
{
    template <class Q> void refine_surface(const char *name, const gbs::Surface<double, 3> &s, Mesh &m, double crit, size_t limit, ld area)
    {
        auto v0 = check_mesh(m, "surface mesh");
        gbs::delaunay2DBoyerWatsonSurfaceMeshRefine<double, 3, Q>(s, m, crit, limit);
        auto v = check_mesh(m, name);
        check_area(v.area, area, name, v.extent);
        if (v.vertices.size() > v0.vertices.size() + limit) sim::violation("wrong-result", "%s: %zu points added, %zu allowed", name, v.vertices.size() - v0.vertices.size(), limit);
        sim::count("probe.refined", v.vertices.size() - v0.vertices.size());
        std::set<P2> now;
        for (auto p : v.vertices) now.insert(p->coords);
        for (auto &c : sorted_coords(v0)) if (!now.count(c)) sim::violation("wrong-result", "%s: a vertex of the mesh was lost", name);
    }
}
SIM_SCENARIO(surfaces, 1.5, false)
{
    auto g = sim::stream("case");
    const char *name;
    auto s = gen_surface(g, (int)g.below(n_surface_kinds), &name);
    size_t nu = (size_t)g.range(2, 8), nv = (size_t)g.range(2, 8);
    double dev = g.chance(0.5) ? 0.01 : g.real(0.005, 0.2);
    auto [u1, u2, v1, v2] = s->bounds();
    sim::note("surface %s, %zu x %zu", name, nu, nv);
    auto ring = gbs::meshSurfaceBoundary(*s, nu, nv, dev);
    for (auto &p : ring)
        if ((std::abs(p[0] - u1) > 1e-9 && std::abs(p[0] - u2) > 1e-9 && std::abs(p[1] - v1) > 1e-9 && std::abs(p[1] - v2) > 1e-9) || p[0] < u1 - 1e-9 || p[0] > u2 + 1e-9 || p[1] < v1 - 1e-9 || p[1] > v2 + 1e-9)
            sim::violation("wrong-result", "the point (%.17g, %.17g) isn't on the boundary of the surface [%g,%g]x[%g,%g]", p[0], p[1], u1, u2, v1, v2);
    double step = 1e300;
    for (size_t i = 0; i < ring.size(); ++i) step = std::min(step, (double)dist(ring[i], ring[(i + 1) % ring.size()]));
    if (step < 1e-4) { sim::count("probe.needle_boundary"); return; } // a crease, followed down to rounding
    Mesh m = g.chance(0.7) ? gbs::delaunay2DBoyerWatsonSurfaceBase(*s, nu, nv, dev) : gbs::delaunay2DConstrained<double>(ring);
    auto v = check_mesh(m, "surface mesh");
    ld area = ((ld)u2 - u1) * ((ld)v2 - v1);
    check_area(v.area, area, "surface mesh", v.extent);
    if (v.vertices.size() != ring.size()) sim::violation("wrong-result", "the base mesh of a surface has %zu vertices, its boundary %zu", v.vertices.size(), ring.size());
    size_t limit = scaled(g, 1, 30);
    double crit = g.chance(0.3) ? 0 : g.real(1e-4, 0.2);
    auto q = g.below(5);
    if (q == 0) refine_surface<gbs::DistanceMeshSurface2<double, 3>>("refined by distance", *s, m, crit, limit, area);
    else if (q == 1) refine_surface<gbs::DeviationMeshSurface2<double, 3>>("refined by edge deviation", *s, m, crit, limit, area);
    else if (q == 2) refine_surface<gbs::MaxEdgeSizeSurface<double, 3>>("refined by edge size", *s, m, crit, limit, area);
    else if (q == 3) refine_surface<gbs::DistanceMeshSurface3<double, 3>>("refined by distance of the middle", *s, m, crit, limit, area);
    else refine_surface<gbs::DeviationMeshSurface<double, 3>>("refined by deviation", *s, m, crit, limit, area);
    v = check_mesh(m, "refined surface mesh");
    cover_tag(name, q, v.nf, limit);
    if (g.chance(0.5))
    {
        auto ring = gen_star(g, (size_t)g.range(3, 12), {0.5 * (u1 + u2), 0.5 * (v1 + v2)}, 0.1, 0.35);
        for (auto &p : ring) { p[0] = 0.5 * (u1 + u2) + (p[0] - 0.5 * (u1 + u2)) * (u2 - u1); p[1] = 0.5 * (v1 + v2) + (p[1] - 0.5 * (v1 + v2)) * (v2 - v1); }
        bool outer = g.chance(0.5);
        auto taken = outer ? gbs::delaunay2DBoyerWatsonAddOuterBound<double, 2>(m, ring) : gbs::delaunay2DBoyerWatsonAddInnerBound<double, 2>(m, ring);
        auto w = check_mesh(m, "surface mesh with another boundary");
        check_fans(m, w, "walking around vertices");
        ld out = 0;
        for (auto &f : taken) { auto e = f->edge; out += tri_area2(e->vertex->coords, e->next->vertex->coords, e->previous->vertex->coords) / 2; }
        check_area(w.area + out, area, "faces kept and taken", v.extent);
        sim::count("probe.taken", taken.size());
    }
    sim::observe(v.print);
}

SIM_SCENARIO(whole_out_of_memory, 1.0, true)
{
    auto g = sim::stream("case");
    bool con = g.chance(0.5);
    auto cloud = gen_cloud(g, (int)g.below(n_point_kinds), scaled(g, 3, 20));
    auto d = gen_domain(g);
    auto make = [&] { return con ? gbs::delaunay2DConstrained<double>(d.outer, d.holes) : gbs::delaunay2DBoyerWatson<double>(cloud); };
    sim::alloc_count_begin();
    auto want = check_mesh(make(), "triangulation").print;
    auto n = sim::alloc_disarm().seen;
    for (int i = 0; i < 3; ++i)
    {
        auto f = sim::stream("fault", (sim::u64)i);
        if (!sim::fault_on(i)) continue;
        Mesh m;
        sim::alloc_arm(1 + f.below(n + 1), f.chance(0.3));
        auto e = capture([&] { m = make(); });
        auto w = sim::alloc_disarm();
        if (e.any && !(e.oom && w.failed)) sim::violation("wrong-error", "triangulation: %s", e.str().c_str());
        if (e.any) sim::count("probe.failed_edit");
        else if (check_mesh(m, "triangulation").print != want) sim::violation("wrong-result", "a triangulation that survived a failed allocation is another one");
    }
    if (check_mesh(make(), "triangulation").print != want) sim::violation("wrong-result", "a triangulation made after failed ones is another one");
    cover_tag("oom", con, n);
}

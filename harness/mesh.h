// Half-edge mesh oracle: exact orientation, structural soundness, coverage, fingerprints; point-set and polygon generators.
#pragma once
#include "common.h"
#include "errs.h"
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <boost/multiprecision/cpp_int.hpp>
#include <topology/tessellations.h>
#include <topology/halfEdgeMeshQuality.h>

namespace h
{
    using P2 = std::array<double, 2>;
    using Face = std::shared_ptr<gbs::HalfEdgeFace<double, 2>>;
    using HEdge = std::shared_ptr<gbs::HalfEdge<double, 2>>;
    using Vtx = std::shared_ptr<gbs::HalfEdgeVertex<double, 2>>;
    using Mesh = std::list<Face>;

    /// Exact sign of the orientation of (a,b,c); independent of the library's predicate.
    inline int exact_orient(const P2 &a, const P2 &b, const P2 &c)
    {
        ld l = ((ld)a[0] - c[0]) * ((ld)b[1] - c[1]), r = ((ld)a[1] - c[1]) * ((ld)b[0] - c[0]);
        ld det = l - r, err = (std::abs(l) + std::abs(r)) * 1e-17L;
        if (det > err) return 1;
        if (det < -err) return -1;
        using boost::multiprecision::cpp_int;
        double x[6] = {a[0], a[1], b[0], b[1], c[0], c[1]};
        int emin = 1 << 20;
        for (double v : x) if (v != 0) { int e; std::frexp(v, &e); emin = std::min(emin, e - 53); }
        if (emin == 1 << 20) return 0;
        cpp_int n[6];
        for (int i = 0; i < 6; ++i)
        {
            int e;
            double m = std::frexp(x[i], &e);
            n[i] = cpp_int((long long)std::ldexp(m, 53));
            if (x[i] != 0) n[i] <<= (unsigned)(e - 53 - emin);
        }
        cpp_int d = (n[0] - n[4]) * (n[3] - n[5]) - (n[1] - n[5]) * (n[2] - n[4]);
        return d > 0 ? 1 : d < 0 ? -1 : 0;
    }
    inline ld tri_area2(const P2 &a, const P2 &b, const P2 &c)
    {
        return ((ld)b[0] - a[0]) * ((ld)c[1] - a[1]) - ((ld)b[1] - a[1]) * ((ld)c[0] - a[0]);
    }
    inline ld ring_area(const pts<double, 2> &p)
    {
        ld s = 0;
        for (size_t i = 0; i < p.size(); ++i)
        {
            auto &a = p[i]; auto &b = p[(i + 1) % p.size()];
            s += ((ld)a[0] - p[0][0]) * ((ld)b[1] - p[0][1]) - ((ld)a[1] - p[0][1]) * ((ld)b[0] - p[0][0]);
        }
        return s / 2;
    }
    inline pts<double, 2> convex_hull(pts<double, 2> p)
    {
        std::sort(p.begin(), p.end());
        p.erase(std::unique(p.begin(), p.end()), p.end());
        if (p.size() < 3) return p;
        pts<double, 2> hl;
        for (int pass = 0; pass < 2; ++pass)
        {
            size_t base = hl.size();
            for (auto &x : p)
            {
                while (hl.size() >= base + 2 && exact_orient(hl[hl.size() - 2], hl.back(), x) <= 0) hl.pop_back();
                hl.push_back(x);
            }
            hl.pop_back();
            std::reverse(p.begin(), p.end());
        }
        return hl;
    }

    /// Everything reachable from the face list, by index.
    struct MeshView
    {
        std::vector<gbs::HalfEdge<double, 2> *> edges;                 // face order, loop order from face->edge
        std::vector<gbs::HalfEdgeVertex<double, 2> *> vertices;         // first appearance
        std::unordered_map<const void *, size_t> fi, ei, vi;
        size_t nf = 0, boundary = 0;
        ld area = 0, extent = 0; // extent: square of the largest distance from the first vertex
        sim::u64 print = 0;
    };

    /// Structural soundness of the whole mesh. `strict`: every triangle strictly counter-clockwise.
    inline MeshView check_mesh(const Mesh &m, const char *what, bool strict = true, bool linked = true)
    {
        MeshView v;
        size_t k = 0;
        for (auto &f : m)
        {
            if (!f) sim::violation("broken-mesh", "%s: face %zu is null", what, k);
            if (!v.fi.emplace(f.get(), k).second) sim::violation("broken-mesh", "%s: face %zu listed twice", what, k);
            ++k;
        }
        v.nf = k;
        k = 0;
        for (auto &f : m)
        {
            auto e = f->edge.get();
            for (int i = 0; i < 3; ++i)
            {
                if (!e) sim::violation("broken-mesh", "%s: face %zu: its loop of edges is broken", what, k);
                if (e->face.get() != f.get()) sim::violation("broken-mesh", "%s: face %zu: an edge of its loop refers to another face", what, k);
                if (!e->vertex) sim::violation("broken-mesh", "%s: face %zu: an edge has no vertex", what, k);
                if (!e->next || e->next->previous.get() != e) sim::violation("broken-mesh", "%s: face %zu: next and previous edge disagree", what, k);
                if (!v.ei.emplace(e, v.edges.size()).second) sim::violation("broken-mesh", "%s: face %zu: an edge belongs to two loops", what, k);
                v.edges.push_back(e);
                if (v.vi.emplace(e->vertex.get(), v.vertices.size()).second) v.vertices.push_back(e->vertex.get());
                e = e->next.get();
            }
            if (e != f->edge.get()) sim::violation("broken-mesh", "%s: face %zu: the loop of edges is not closed after three", what, k);
            ++k;
        }
        std::map<std::pair<size_t, size_t>, size_t> dir;
        for (size_t i = 0; i < v.edges.size(); ++i)
        {
            auto e = v.edges[i];
            auto a = v.vi[e->previous->vertex.get()], b = v.vi[e->vertex.get()];
            if (a == b) sim::violation("broken-mesh", "%s: edge %zu starts and ends at one vertex", what, i);
            if (!dir.emplace(std::make_pair(a, b), i).second) sim::violation("broken-mesh", "%s: two faces lie on the same side of edge (%zu,%zu)", what, a, b);
        }
        for (size_t i = 0; i < v.edges.size(); ++i)
        {
            auto e = v.edges[i], o = e->opposite.get();
            auto a = v.vi[e->previous->vertex.get()], b = v.vi[e->vertex.get()];
            auto twin = dir.find({b, a});
            if (!o)
            {
                ++v.boundary;
                if (linked && twin != dir.end()) sim::violation("broken-mesh", "%s: two faces share the edge (%zu,%zu) but are not linked", what, a, b);
                continue;
            }
            if (!v.ei.count(o)) sim::violation("broken-mesh", "%s: the opposite of edge %zu (%zu,%zu) belongs to no face of the mesh", what, i, a, b);
            if (o->opposite.get() != e) sim::violation("broken-mesh", "%s: opposite edges disagree at edge %zu", what, i);
            if (twin == dir.end() || v.edges[twin->second] != o) sim::violation("broken-mesh", "%s: opposite edges %zu join different vertices", what, i);
        }
        std::map<P2, size_t> at;
        for (size_t i = 0; i < v.vertices.size(); ++i)
        {
            auto p = v.vertices[i];
            if (!p->edge) sim::violation("broken-mesh", "%s: vertex %zu refers to no edge", what, i);
            if (!v.ei.count(p->edge.get())) sim::violation("broken-mesh", "%s: vertex %zu refers to an edge which is not in the mesh", what, i);
            if (p->edge->vertex.get() != p) sim::violation("broken-mesh", "%s: vertex %zu refers to an edge which ends at another vertex", what, i);
            if (!at.emplace(p->coords, i).second) sim::violation("broken-mesh", "%s: two vertices at (%.17g, %.17g)", what, p->coords[0], p->coords[1]);
        }
        for (auto p : v.vertices) for (int i = 0; i < 2; ++i) v.extent = std::max(v.extent, std::abs((ld)p->coords[i] - v.vertices[0]->coords[i]));
        v.extent *= v.extent;
        sim::u64 pr = sim::mix(v.nf, v.vertices.size());
        auto bits = [](double d) { sim::u64 u; std::memcpy(&u, &d, 8); return u; };
        k = 0;
        for (auto &f : m)
        {
            auto e = f->edge.get();
            auto &a = e->vertex->coords, &b = e->next->vertex->coords, &c = e->next->next->vertex->coords;
            if (strict && exact_orient(a, b, c) <= 0)
                sim::violation("broken-mesh", "%s: face %zu (%.17g,%.17g) (%.17g,%.17g) (%.17g,%.17g) is not counter-clockwise", what, k, a[0], a[1], b[0], b[1], c[0], c[1]);
            v.area += tri_area2(a, b, c) / 2;
            ++k;
        }
        for (auto e : v.edges)
        {
            pr = sim::mix(pr, v.vi[e->vertex.get()]);
            pr = sim::mix(pr, e->opposite ? v.ei[e->opposite.get()] + 1 : 0);
        }
        for (auto p : v.vertices)
        {
            pr = sim::mix(pr, bits(p->coords[0]));
            pr = sim::mix(pr, bits(p->coords[1]));
            pr = sim::mix(pr, v.ei[p->edge.get()]);
        }
        v.print = pr;
        return v;
    }
    inline void check_area(ld got, ld want, const char *what, ld extent, ld rel = 1e-9L)
    {
        if (!(std::abs(got - want) <= rel * std::abs(want) + 1e-15L * extent))
            sim::violation("wrong-coverage", "%s: the faces cover %.17Lg, the domain is %.17Lg", what, got, want);
    }
    /// Walks around a vertex give the faces that hold it (all of them when they form one fan).
    inline void check_fans(const Mesh &m, const MeshView &v, const char *what)
    {
        std::unordered_map<const void *, std::set<const void *>> inc;
        std::unordered_map<const void *, size_t> rim;
        for (auto e : v.edges)
        {
            inc[e->vertex.get()].insert(e->face.get());
            if (!e->opposite) ++rim[e->vertex.get()];
        }
        std::unordered_set<const void *> seen;
        for (auto &f : m)
            for (auto e : gbs::getTriangleEdges(f))
            {
                if (!seen.insert(e->vertex.get()).second) continue;
                auto l = gbs::getFacesAttachedToVertex(e->vertex);
                std::set<const void *> s;
                for (auto &x : l)
                    if (!s.insert(x.get()).second) sim::violation("wrong-result", "%s: a face is reported twice around a vertex", what);
                auto &all = inc[e->vertex.get()];
                for (auto x : s) if (!all.count(x)) sim::violation("wrong-result", "%s: a face which does not hold the vertex is reported around it", what);
                if (rim[e->vertex.get()] <= 1 && s.size() != all.size())
                    sim::violation("wrong-result", "%s: %zu of the %zu faces around a vertex are reported", what, s.size(), all.size());
                auto out = e->next;
                if (rim[e->vertex.get()] <= 1 && gbs::findHalfEdge(e->vertex, out->vertex).get() != out.get())
                    sim::violation("wrong-result", "%s: the edge between two vertices of a face is not found", what);
            }
    }
    /// Every inner edge locally Delaunay up to rounding.
    inline void check_delaunay(const MeshView &v, const char *what, ld tol = 1e-9L)
    {
        for (auto e : v.edges)
        {
            if (!e->opposite) continue;
            auto &d = e->opposite->next->vertex->coords;
            auto a = e->vertex->coords, b = e->next->vertex->coords, c = e->next->next->vertex->coords;
            ld x[3], y[3], q[3];
            const P2 *t[3] = {&a, &b, &c};
            for (int i = 0; i < 3; ++i) { x[i] = (ld)(*t[i])[0] - d[0]; y[i] = (ld)(*t[i])[1] - d[1]; q[i] = x[i] * x[i] + y[i] * y[i]; }
            ld det = x[0] * (y[1] * q[2] - q[1] * y[2]) - y[0] * (x[1] * q[2] - q[1] * x[2]) + q[0] * (x[1] * y[2] - y[1] * x[2]);
            ld mag = std::max({q[0], q[1], q[2]});
            if (det > tol * mag * mag) sim::violation("not-delaunay", "%s: a vertex lies inside of the circumcircle of the face next to it (%.3Lg)", what, det / (mag * mag));
        }
    }
    inline std::vector<P2> sorted_coords(const MeshView &v)
    {
        std::vector<P2> c;
        for (auto p : v.vertices) c.push_back(p->coords);
        std::sort(c.begin(), c.end());
        return c;
    }

    // ---- generators -----------------------------------------------------------
    constexpr int n_point_kinds = 8;
    inline double lattice(double x, double q = 1048576.) { return std::round(x * q) / q; }
    /// Point sets in general and degenerate position.
    inline pts<double, 2> gen_cloud(Rng &r, int kind, size_t n)
    {
        pts<double, 2> p;
        double sx = r.chance(0.3) ? r.real(0.05, 20) : 1, sy = r.chance(0.3) ? r.real(0.05, 20) : 1;
        double ox = r.chance(0.3) ? r.real(-50, 50) : 0, oy = r.chance(0.3) ? r.real(-50, 50) : 0;
        auto add = [&](double x, double y) { p.push_back({ox + sx * x, oy + sy * y}); };
        switch (kind)
        {
        case 1: // regular grid: cocircular and collinear everywhere
        {
            size_t w = std::max<size_t>(2, (size_t)std::sqrt((double)n));
            ox = std::round(ox); oy = std::round(oy); sx = sy = 1;
            for (size_t i = 0; i < w; ++i) for (size_t j = 0; j * w + i < n + w; ++j) add(i, j);
            break;
        }
        case 2: // circle, with or without its centre
            for (size_t i = 0; i < n; ++i) add(std::cos(6.283185307179586 * i / n), std::sin(6.283185307179586 * i / n));
            if (r.chance(0.5)) add(0, 0);
            break;
        case 3: // lattice, coincident points likely
            for (size_t i = 0; i < n; ++i) p.push_back({(double)r.range(0, 6), (double)r.range(0, 6)});
            break;
        case 4: // clusters a few ulps wide
        {
            pts<double, 2> c(1 + n / 5);
            for (auto &x : c) x = {r.real(0.5, 1), r.real(0.5, 1)};
            for (size_t i = 0; i < n; ++i)
            {
                auto x = c[r.below(c.size())];
                for (auto &t : x) for (long k = r.range(0, 3); k > 0; --k) t = std::nextafter(t, 2.);
                p.push_back(x);
            }
            break;
        }
        case 5: // nearly on lines
            for (size_t i = 0; i < n; ++i)
            {
                double t = r.uniform();
                double e = r.chance(0.5) ? 0 : r.real(-1e-9, 1e-9);
                if (i % 3) add(t, 0.25 + 0.5 * t + e); else add(t, r.uniform());
            }
            break;
        case 6: // on the sides of a rectangle, and inside
            for (size_t i = 0; i < n; ++i)
                switch (r.below(5))
                {
                case 0: add(r.uniform(), 0); break;
                case 1: add(1, r.uniform()); break;
                case 2: add(r.uniform(), 1); break;
                case 3: add(0, r.uniform()); break;
                default: add(r.uniform(), r.uniform());
                }
            add(0, 0); add(1, 1); add(1, 0); add(0, 1);
            break;
        case 7: // lattice of dyadic coordinates in a unit box
            for (size_t i = 0; i < n; ++i) p.push_back({lattice(r.uniform(), 1024.), lattice(r.uniform(), 1024.)});
            break;
        default:
            for (size_t i = 0; i < n; ++i) add(r.uniform(), r.uniform());
        }
        for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
        return p;
    }
    /// Simple counter-clockwise polygon, star-shaped about c, radii within [lo, hi].
    inline pts<double, 2> gen_star(Rng &r, size_t n, P2 c, double lo, double hi)
    {
        pts<double, 2> p(n);
        double ph = r.uniform();
        bool even = r.chance(0.4);
        bool saw = r.chance(0.3);
        for (size_t i = 0; i < n; ++i)
        {
            double a = 6.283185307179586 * (i + ph + (even ? 0 : r.real(-0.3, 0.3))) / n;
            double q = saw ? (i % 2 ? lo : hi) : r.chance(0.3) ? hi : r.real(lo, hi);
            p[i] = {c[0] + q * std::cos(a), c[1] + q * std::sin(a)};
        }
        return p;
    }
    struct Domain { pts<double, 2> outer; std::vector<pts<double, 2>> holes; ld area; };
    /// Polygonal domain: comb, rectangle with points along its sides, or star; star-shaped holes when they fit.
    inline Domain gen_domain(Rng &g)
    {
        Domain d;
        P2 c{g.chance(0.3) ? g.real(-20, 20) : 0, g.chance(0.3) ? g.real(-20, 20) : 0};
        double s = g.chance(0.3) ? g.real(0.2, 10) : 1;
        int shape = (int)g.below(4);
        bool round = true;
        if (shape == 0) // comb
        {
            size_t teeth = scaled(g, 1, 8);
            for (size_t i = 0; i <= 2 * teeth; ++i) d.outer.push_back({c[0] + s * i, c[1]});
            if (g.chance(0.5)) { d.outer.erase(d.outer.begin() + 1, d.outer.end() - 1); }
            for (size_t i = 2 * teeth + 1; i-- > 0;) d.outer.push_back({c[0] + s * i, c[1] + s * (i % 2 ? 0.2 : g.real(1, 6))});
            round = false;
        }
        else if (shape == 1) // rectangle with points along the sides
        {
            size_t nx = scaled(g, 1, 9), ny = scaled(g, 1, 9);
            double w = s * g.real(0.2, 8), hh = s * g.real(0.2, 8);
            for (size_t i = 0; i < nx; ++i) d.outer.push_back({c[0] + w * ((double)i / nx - 0.5), c[1] - hh / 2});
            for (size_t i = 0; i < ny; ++i) d.outer.push_back({c[0] + w / 2, c[1] + hh * ((double)i / ny - 0.5)});
            for (size_t i = nx; i > 0; --i) d.outer.push_back({c[0] + w * ((double)i / nx - 0.5), c[1] + hh / 2});
            for (size_t i = ny; i > 0; --i) d.outer.push_back({c[0] - w / 2, c[1] + hh * ((double)i / ny - 0.5)});
            s = std::min(w, hh) / 2.;
        }
        else d.outer = gen_star(g, g.chance(0.1) ? scaled(g, 40, 140) : scaled(g, 4, 40), c, shape == 2 ? s : 0.6 * s, shape == 2 ? s : 3 * s);
        if (round && d.outer.size() >= 5)
        {
            size_t nh = g.below(4);
            for (size_t i = 0; i < nh; ++i)
            {
                double a = 6.283185307179586 * i / std::max<size_t>(nh, 2);
                double q = nh == 1 ? 0 : 0.26 * s;
                d.holes.push_back(gen_star(g, (size_t)g.range(3, 9), {c[0] + q * std::cos(a), c[1] + q * std::sin(a)}, 0.04 * s, 0.12 * s));
            }
        }
        // the outer ring of few points may cut through the middle: keep holes only where they surely lie inside
        if (!d.holes.empty())
        {
            double inner = 1e300;
            for (size_t i = 0; i < d.outer.size(); ++i)
            {
                auto &a = d.outer[i]; auto &b = d.outer[(i + 1) % d.outer.size()];
                double l = std::hypot(b[0] - a[0], b[1] - a[1]);
                inner = std::min(inner, (double)(tri_area2(a, b, c) / l));
            }
            if (inner < 0.45 * s) d.holes.clear();
        }
        d.area = ring_area(d.outer);
        for (auto &hl : d.holes) d.area -= ring_area(hl);
        // start anywhere
        std::rotate(d.outer.begin(), d.outer.begin() + (long)g.below(d.outer.size()), d.outer.end());
        return d;
    }
}

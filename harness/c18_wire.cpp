// C18: a wire stays one connected chain of edges through any history of additions, refused and failing ones included.
#include "errs.h"
#include "zoo.h"
#include <gbs/extrema.h>
#include <topology/wire.h>

namespace
{
    using namespace h;
    template <size_t D> using Ed = gbs::Edge<double, D>;
    template <size_t D> using EdP = std::shared_ptr<Ed<D>>;
    template <size_t D> using VtP = std::shared_ptr<gbs::Vertex<double, D>>;

    /// What one edge promises: its ends, and the part of its curve it runs along.
    template <size_t D> struct EdgeState
    {
        const gbs::Vertex<double, D> *v1, *v2;
        const gbs::Curve<double, D> *crv;
        double u1, u2;
        pt<double, D> p1, p2;
        double tol;
        explicit EdgeState(const Ed<D> &e) : v1{e.vertex1().get()}, v2{e.vertex2().get()}, crv{e.curve().get()}, p1{e.vertex1()->point()}, p2{e.vertex2()->point()}, tol{e.approximationTolerance()}
        {
            auto b = e.bounds();
            u1 = b.first; u2 = b.second;
        }
        bool operator==(const EdgeState &o) const
        {
            return v1 == o.v1 && v2 == o.v2 && crv == o.crv && same_bits(u1, o.u1) && same_bits(u2, o.u2) && same_bits(p1, o.p1) && same_bits(p2, o.p2) && same_bits(tol, o.tol);
        }
    };
    template <size_t D> struct Model
    {
        std::deque<EdgeState<D>> edges;
        bool closed() const { return edges.front().v1 == edges.back().v2; }
    };
    template <size_t D> std::deque<EdgeState<D>> read(const gbs::Wire<double, D> &w)
    {
        std::deque<EdgeState<D>> s;
        for (auto it = w.begin(); it != w.end(); ++it)
        {
            if (!*it) sim::violation("broken-chain", "an edge of the wire is null");
            s.emplace_back(**it);
        }
        return s;
    }
    template <size_t D> void check_edge(const EdgeState<D> &e, const EdgeState<D> &orig, double tol, const char *what)
    {
        auto [a, b] = e.crv->bounds();
        if (!(e.u1 >= a && e.u2 <= b && e.u1 < e.u2))
            sim::violation("lost-curve", "%s: an edge runs from %.17g to %.17g on a curve defined on [%.17g, %.17g]", what, e.u1, e.u2, a, b);
        for (int k = 0; k < 2; ++k)
        {
            auto c = e.crv->value(k ? e.u2 : e.u1);
            auto &p = k ? e.p2 : e.p1;
            if (!(dist(c, p) <= tol))
                sim::violation("off-curve", "%s: vertex %d of an edge is %.3g away from where its curve ends", what, k + 1, (double)dist(c, p));
            // the edge still covers the curve it was made of
            auto c0 = orig.crv->value(k ? orig.u2 : orig.u1);
            if (!(dist(c, c0) <= 4 * tol))
                sim::violation("lost-curve", "%s: an edge lost a part of its curve, its end %d moved by %.3g", what, k + 1, (double)dist(c, c0));
        }
        // and not by running through a closed curve the short way
        auto m = e.crv->value(0.5 * (orig.u1 + orig.u2));
        (void)m;
        if (!(e.u1 <= 0.5 * (orig.u1 + orig.u2) && e.u2 >= 0.5 * (orig.u1 + orig.u2)))
            sim::violation("lost-curve", "%s: an edge lost the half of its curve", what);
    }
    template <size_t D> std::deque<EdgeState<D>> check_wire(const gbs::Wire<double, D> &w, const char *what)
    {
        auto s = read(w);
        if (s.empty()) sim::violation("broken-chain", "%s: the wire is empty", what);
        for (size_t i = 0; i + 1 < s.size(); ++i)
            if (s[i].v2 != s[i + 1].v1)
                sim::violation("broken-chain", "%s: edge %zu of %zu does not start at the vertex the edge before ends at (they are %.3g apart)", what, i + 2, s.size(), (double)dist(s[i].p2, s[i + 1].p1));
        if (w.vertex1().get() != s.front().v1 || w.vertex2().get() != s.back().v2 || w.front().get() == nullptr || w.back().get() == nullptr)
            sim::violation("broken-chain", "%s: the ends of the wire are not those of its first and last edge", what);
        if (w.isClosed() != (s.front().v1 == s.back().v2))
            sim::violation("broken-chain", "%s: isClosed() says %d", what, (int)w.isClosed());
        return s;
    }
    /// A curve from a to b: a segment, a spline, a rational spline, or one of them run backwards.
    template <size_t D> CrvP<D> gen_between(Rng &r, const pt<double, D> &a, const pt<double, D> &b)
    {
        int kind = (int)r.below(5);
        bool rev = kind == 4;
        auto &A = rev ? b : a, &B = rev ? a : b;
        size_t p = (size_t)r.range(1, 3), n = p + 1 + (size_t)r.below(3);
        if (kind == 0) { p = 1; n = 2; }
        double u1 = r.chance(0.5) ? 0. : r.real(-3, 3), len = r.chance(0.5) ? 1. : r.real(0.3, 5);
        auto k = gen_knots<double>(r, n, p, u1, u1 + len, 1);
        pts<double, D> q(n);
        double amp = 0.2 * (double)dist(a, b) + (dist(a, b) < 1e-3 ? 1. : 0.);
        for (size_t i = 0; i < n; ++i)
            for (size_t c = 0; c < D; ++c) q[i][c] = A[c] + (B[c] - A[c]) * i / double(n - 1) + (i && i + 1 < n ? r.real(-amp, amp) : 0.);
        q.front() = A; q.back() = B;
        CrvP<D> crv;
        if (kind == 2)
        {
            std::vector<double> w(n);
            for (auto &x : w) x = r.real(0.5, 2);
            crv = std::make_shared<gbs::BSCurveRational<double, D>>(q, k, w, p);
        }
        else crv = std::make_shared<gbs::BSCurve<double, D>>(q, k, p);
        if (rev) return std::make_shared<gbs::CurveReversed<double, D>>(crv);
        return crv;
    }
    template <size_t D> pt<double, D> near(Rng &r, const pt<double, D> &p, double d)
    {
        pt<double, D> q = p, v;
        double s = 0;
        for (auto &x : v) { x = r.real(-1, 1); s += x * x; }
        s = std::sqrt(s);
        if (s > 0.05) for (size_t c = 0; c < D; ++c) q[c] += v[c] / s * d;
        else q[0] += d;
        return q;
    }
    template <size_t D> pt<double, D> far_point(Rng &r)
    {
        pt<double, D> q;
        for (auto &x : q) x = r.real(-10, 10);
        return q;
    }

    template <size_t D> void history(bool faults)
    {
        auto g = sim::stream("case");
        const double tol = g.chance(0.5) ? 1e-5 : std::pow(10., g.real(-7, -2));
        auto make = [&](Rng &r, const pt<double, D> &a, const pt<double, D> &b, const VtP<D> &va, const VtP<D> &vb, double e_tol, const char *&name) -> EdP<D> {
            EdP<D> e;
            if (va && vb) { name = "two vertices"; e = std::make_shared<Ed<D>>(va, vb); }
            else if (va || vb) { name = "a shared vertex"; e = std::make_shared<Ed<D>>(va ? va : std::make_shared<gbs::Vertex<double, D>>(a), vb ? vb : std::make_shared<gbs::Vertex<double, D>>(b)); }
            else if (r.chance(0.3)) { name = "two points"; e = std::make_shared<Ed<D>>(a, b); }
            else if (r.chance(0.3))
            {
                name = "a curve with tolerances";
                gbs::Vertex<double, D> ref{a};
                ref.setApproximationTolerance(e_tol);
                ref.setPrecisionTolerance(e_tol / 10);
                return std::make_shared<Ed<D>>(gen_between<D>(r, a, b), ref);
            }
            else { name = "a curve"; e = std::make_shared<Ed<D>>(gen_between<D>(r, a, b)); }
            e->setApproximationTolerance(e_tol);
            return e;
        };
        const char *name = "";
        auto p0 = far_point<D>(g), p1 = far_point<D>(g);
        bool loop0 = g.chance(0.06); // a single closed edge
        if (loop0) p1 = near(g, p0, g.chance(0.5) ? 0. : g.real(0.05, 0.3) * std::min(tol, 1e-5));
        EdP<D> e0 = loop0 ? std::make_shared<Ed<D>>(gen_between<D>(g, p0, p1)) : make(g, p0, p1, nullptr, nullptr, tol, name);
        e0->setApproximationTolerance(tol);
        std::map<const gbs::Curve<double, D> *, EdgeState<D>> origin;
        origin.emplace(e0->curve().get(), EdgeState<D>(*e0));
        std::vector<CrvP<D>> keep{e0->curve()}; // an address names one curve
        gbs::Wire<double, D> w = g.chance(0.5) ? gbs::Wire<double, D>(e0) : gbs::Wire<double, D>(*e0);
        w.setApproximationTolerance(tol);
        auto now = check_wire(w, "new wire");
        if (loop0 && tol >= 1e-5 && !w.isClosed()) sim::violation("not-closed", "a wire made of one closed edge is not closed");
        if (now.size() != 1) sim::violation("broken-chain", "a wire made of one edge holds %zu", now.size());
        check_edge(now.front(), origin.at(now.front().crv), std::max(tol, 1e-5), "new wire");
        size_t n = 2 + scaled(g, 0, 9), added = 0, refused = 0, failed = 0;
        for (size_t i = 0; i < n; ++i)
        {
            auto r = sim::stream("op", i), fr = sim::stream("opfault", i);
            if (!sim::op_on((int)i)) continue;
            bool arm = faults && r.chance(0.6) && sim::fault_on((int)i);
            // the edge: where its ends lie, and whose vertices it uses
            double e_tol = r.chance(0.7) ? tol : tol * std::pow(10., r.real(-2, 2));
            auto gap = [&](int how) { return how == 0 ? 0. : how == 1 ? r.real(0.05, 0.3) * std::min(tol, e_tol) : how == 2 ? r.real(3, 20) * std::max(tol, e_tol) : r.real(0.3, 3) * tol; };
            int h1 = (int)r.below(7), h2 = (int)r.below(7); // 0..3 near with that kind of gap, 4 shared vertex, 5.. elsewhere
            if (r.chance(0.7)) { if (r.chance(0.5)) h1 = 5; else h2 = 5; }
            auto tail = w.vertex2(), head = w.vertex1();
            pt<double, D> a = h1 <= 3 ? near(r, tail->point(), gap(h1)) : far_point<D>(r);
            pt<double, D> b = h2 <= 3 ? near(r, head->point(), gap(h2)) : far_point<D>(r);
            if (r.chance(0.08)) { a = near(r, head->point(), 0.); h1 = 5; } // the wrong way round
            VtP<D> va = h1 == 4 ? tail : nullptr, vb = h2 == 4 ? head : nullptr;
            if (va) a = va->point();
            if (vb) b = vb->point();
            if (dist(a, b) < 100 * std::max(tol, e_tol)) continue; // shorter than its tolerance
            double d1 = (double)dist(a, tail->point()), d2 = (double)dist(b, head->point());
            bool must1 = va || d1 <= 0.31 * std::min(tol, e_tol), must2 = vb || d2 <= 0.31 * std::min(tol, e_tol);
            bool never1 = !va && d1 >= 2 * tol, never2 = !vb && d2 >= 2 * tol;
            auto e = make(r, a, b, va, vb, e_tol, name);
            EdgeState<D> e_before(*e);
            origin.emplace(e->curve().get(), e_before);
            keep.push_back(e->curve());
            bool by_ref = r.chance(0.4), was_closed = w.isClosed();
            sim::note("add an edge made of %s, start %s%.3g, end %s%.3g from the ends of the wire (%zu edges, %s), tolerances %.3g and %.3g%s", name, va ? "shared " : "", d1, vb ? "shared " : "", d2, now.size(), was_closed ? "closed" : "open", tol, e_tol, arm ? ", memory runs out" : "");
            bool ok = false;
            auto op = [&] { ok = by_ref ? w.addEdge(*e) : w.addEdge(e); };
            if (arm)
            {
                sim::alloc_arm(1 + fr.below(20), fr.chance(0.3));
                auto err = capture(op);
                auto win = sim::alloc_disarm();
                if (err.any)
                {
                    if (!err.oom || !win.failed) sim::violation("wrong-error", "addEdge: %s", err.str().c_str());
                    auto s = check_wire(w, "after a failed addition");
                    if (!(s == now)) sim::violation("partial-edit", "addEdge failed for want of memory and left a changed wire");
                    if (!(EdgeState<D>(*e) == e_before)) sim::violation("partial-edit", "addEdge failed for want of memory and left the edge changed");
                    ++failed;
                    sim::count("probe.failed_edit");
                    op(); // and once there is memory again
                }
            }
            else op();
            auto s = check_wire(w, "after addEdge");
            if (!ok)
            {
                ++refused;
                if (!(s == now)) sim::violation("partial-edit", "addEdge refused an edge and changed the wire");
                if (!(EdgeState<D>(*e) == e_before)) sim::violation("partial-edit", "addEdge refused an edge and changed it");
                if (!was_closed && (must1 || must2)) sim::violation("refused", "addEdge refused an edge that starts %.3g from the end and ends %.3g from the start of an open wire of tolerance %.3g", d1, d2, tol);
                sim::count("probe.refused");
            }
            else
            {
                ++added;
                if (was_closed) sim::violation("accepted", "addEdge added an edge to a closed wire");
                if (never1 && never2) sim::violation("accepted", "addEdge added an edge that touches no end of the wire (%.3g and %.3g away, tolerance %.3g)", d1, d2, tol);
                if (s.size() != now.size() + 1) sim::violation("lost-edge", "addEdge made %zu edges of %zu", s.size(), now.size());
                // the wire it was, with the new edge before or after it
                auto is_new = [&](const EdgeState<D> &x) { return x.crv == e_before.crv; };
                std::deque<EdgeState<D>> rest = s;
                bool front = is_new(s.front());
                if (!front && !is_new(s.back())) sim::violation("lost-edge", "the edge just added is at neither end of the wire");
                auto added_state = front ? s.front() : s.back();
                if (front) rest.pop_front(); else rest.pop_back();
                if (!(rest == now)) sim::violation("lost-edge", "adding an edge changed other edges of the wire");
                if (!by_ref && !(EdgeState<D>(*e) == added_state)) sim::violation("lost-edge", "the wire holds another edge than the one it was given");
                if (by_ref && !(EdgeState<D>(*e) == e_before)) sim::violation("partial-edit", "addEdge changed the edge it copies");
                check_edge(added_state, e_before, 1.01 * std::max(tol, e_tol), "added edge");
                if (must1 && must2 && !w.isClosed())
                    sim::violation("not-closed", "both ends of the edge just added meet the ends of the wire (%s%.3g and %s%.3g, tolerance %.3g) and it is not closed", va ? "shared " : "", d1, vb ? "shared " : "", d2, tol);
                if ((never1 || never2) && w.isClosed()) sim::violation("accepted", "the wire closed over a gap of %.3g, tolerance %.3g", never1 ? d1 : d2, tol);
                sim::count(w.isClosed() ? "probe.closed" : "probe.added");
            }
            now = s;
        }
        if (!w.isClosed() && g.chance(0.5) && dist(w.vertex1()->point(), w.vertex2()->point()) > 100 * tol)
        {
            auto e = capture([&] { w.tessellate(); });
            if (e.any) sim::violation("wrong-error", "tessellate: %s", e.str().c_str());
            if (!(check_wire(w, "tessellated") == now)) sim::violation("partial-edit", "tessellate changed the wire");
#if 1
            w.close();
            auto s = check_wire(w, "after close");
            if (!w.isClosed()) sim::violation("not-closed", "close() left the wire open");
            if (s.size() != now.size() + 1) sim::violation("lost-edge", "close() made %zu edges of %zu", s.size(), now.size());
            sim::count("probe.closed");
#endif
        }
        cover_tag("wire", now.size(), added, refused * 2 + w.isClosed());
        sim::observe(now.size()); sim::observe(added); sim::observe(refused); sim::observe(failed);
        for (auto &x : now) { h::observe(x.u1); h::observe(x.u2); for (auto v : x.p1) h::observe(v); }
    }
    /// An edge's ends move along its curve, or the edge says no and stays as it was.
    template <size_t D> void ends(bool faults)
    {
        auto g = sim::stream("case");
        auto a = far_point<D>(g), b = far_point<D>(g);
        auto crv = gen_between<D>(g, a, b);
        Ed<D> e{crv};
        double tol = g.chance(0.5) ? 1e-5 : std::pow(10., g.real(-7, -1));
        e.setApproximationTolerance(tol);
        EdgeState<D> now(e);
        size_t n = 1 + scaled(g, 0, 8);
        for (size_t i = 0; i < n; ++i)
        {
            auto r = sim::stream("op", i), fr = sim::stream("opfault", i);
            if (!sim::op_on((int)i)) continue;
            bool arm = faults && r.chance(0.6) && sim::fault_on((int)i), first = r.chance(0.5);
            auto [u1, u2] = crv->bounds();
            bool at_end = r.chance(0.4);
            double u = at_end ? (first ? u1 : u2) : r.real(u1, u2);
            auto p = r.chance(0.1) ? far_point<D>(r) : near(r, crv->value(u), r.chance(0.4) ? 0. : r.chance(0.5) ? r.real(0.1, 0.3) * tol : r.real(3, 50) * tol);
            auto v = std::make_shared<gbs::Vertex<double, D>>(p);
            bool must = at_end && dist(p, crv->value(u)) <= 0.31 * tol, ok = false;
            auto op = [&] { ok = first ? e.setVertex1(v) : e.setVertex2(v); };
            sim::note("set vertex %d, %.3g from the curve at %.3g of [%.3g, %.3g], tolerance %.3g%s", first ? 1 : 2, (double)dist(p, crv->value(u)), u, u1, u2, tol, arm ? ", memory runs out" : "");
            if (arm)
            {
                sim::alloc_arm(1 + fr.below(12), fr.chance(0.3));
                auto err = capture(op);
                auto win = sim::alloc_disarm();
                if (err.any)
                {
                    if (!err.oom || !win.failed) sim::violation("wrong-error", "setVertex: %s", err.str().c_str());
                    if (!(EdgeState<D>(e) == now)) sim::violation("partial-edit", "setVertex failed for want of memory and changed the edge");
                    sim::count("probe.failed_edit");
                    op();
                }
            }
            else op();
            EdgeState<D> s(e);
            if (!ok)
            {
                if (!(s == now)) sim::violation("partial-edit", "setVertex refused a vertex and changed the edge");
                if (must) sim::violation("refused", "setVertex%d refused a vertex %.3g from the end of the curve, tolerance %.3g", first ? 1 : 2, (double)dist(p, crv->value(u)), tol);
                sim::count("probe.refused");
            }
            else
            {
                double us = first ? s.u1 : s.u2;
                if ((first ? s.v1 : s.v2) != v.get()) sim::violation("lost-edge", "setVertex%d accepted a vertex and did not take it", first ? 1 : 2);
                if ((first ? s.v2 : s.v1) != (first ? now.v2 : now.v1) || !same_bits(first ? s.u2 : s.u1, first ? now.u2 : now.u1)) sim::violation("partial-edit", "setVertex%d changed the other end of the edge", first ? 1 : 2);
                if (!(us >= u1 && us <= u2)) sim::violation("lost-curve", "setVertex%d put the end at %.17g, outside of [%.17g, %.17g]", first ? 1 : 2, us, u1, u2);
                if (!(dist(crv->value(us), p) <= 1.01 * tol)) sim::violation("off-curve", "setVertex%d accepted a vertex %.3g away from where it put the end, tolerance %.3g", first ? 1 : 2, (double)dist(crv->value(us), p), tol);
                sim::count("probe.added");
            }
            now = s;
        }
        cover_tag("ends", now.v1 != nullptr, n);
        h::observe(now.u1); h::observe(now.u2);
    }
}
SIM_SCENARIO(chain, 4, false) { if (sim::stream("dim").chance(0.5)) history<2>(false); else history<3>(false); }
SIM_SCENARIO(chain_out_of_memory, 3, true) { if (sim::stream("dim").chance(0.5)) history<2>(true); else history<3>(true); }
SIM_SCENARIO(edge_ends, 2, false) { if (sim::stream("dim").chance(0.5)) ends<2>(false); else ends<3>(false); }
SIM_SCENARIO(edge_ends_out_of_memory, 1.5, true) { if (sim::stream("dim").chance(0.5)) ends<2>(true); else ends<3>(true); }

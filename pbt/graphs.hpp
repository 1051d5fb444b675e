// A model of a graph (a map from ordered pairs of vertices to flags), and generators of graphs and of edits.
#pragma once
#include "capi.hpp"
#include "datastructures/graph/graph.hpp"
#include "datastructures/modified_graph/modified_graph.hpp"

namespace graphs {
using namespace pbt;
using namespace geo;
using namespace glue;

// What a graph is: bits of a pair: 1 direct, 2 over the antimeridian.
struct Model {
    std::set<P> verts;
    std::map<std::pair<P, P>, int> edges;
    bool has(P a) const { return verts.count(a); }
    bool edge(P a, P b) const { return edges.count({a, b}); }
    bool over(P a, P b) const {
        const auto it = edges.find({a, b});
        return it != edges.end() && it->second == 2;
    }
    void add_directed(P a, P b, bool across) {
        if (a == b) return;
        edges[{a, b}] |= across ? 2 : 1;
    }
    void add(P a, P b, bool across) {
        add_directed(a, b, across);
        add_directed(b, a, across);
    }
    void remove_directed(P a, P b) { edges.erase({a, b}); }
    void remove(P a, P b) {
        remove_directed(a, b);
        remove_directed(b, a);
    }
    std::set<P> neighbours(P a) const {
        std::set<P> r;
        for (auto it = edges.lower_bound({a, P{INT64_MIN, INT64_MIN}}); it != edges.end() && it->first.first == a; ++it) r.insert(it->first.second);
        return r;
    }
    // what can be told of it from outside
    bool same(const Model &o) const {
        if (verts != o.verts || edges.size() != o.edges.size()) return false;
        for (auto &e : edges) {
            const auto it = o.edges.find(e.first);
            if (it == o.edges.end() || (it->second == 2) != (e.second == 2)) return false;
        }
        return true;
    }
};

inline std::vector<P> points(const std::vector<Coordinate> &v) {
    std::vector<P> r;
    for (auto &c : v) r.push_back(pt(c));
    return r;
}

// Every query, against the model.
inline void check_vertex(const IGraph &g, const Model &m, P a, const std::string &what) {
    const auto ns = points(g.get_neighbors(co(a)));
    const std::set<P> got(ns.begin(), ns.end());
    PBT_CHECK(got.size() == ns.size(), "neighbours", what << ": a neighbour of " << a << " is reported twice");
    const auto want = m.neighbours(a);
    for (auto &b : want) PBT_CHECK(got.count(b), "neighbours", what << ": " << b << " is missing from the neighbours of " << a);
    for (auto &b : got) PBT_CHECK(want.count(b), "neighbours", what << ": " << b << " is among the neighbours of " << a << ", but there is no such edge");
}
inline void check_pair(const IGraph &g, const Model &m, P a, P b, const std::string &what) {
    const bool e = g.has_edge(co(a), co(b)), o = g.is_edge_meridian_crossing(co(a), co(b));
    PBT_CHECK(e == m.edge(a, b), "edge", what << ": has_edge(" << a << "," << b << ") is " << e);
    PBT_CHECK(o == m.over(a, b), "flag", what << ": is_edge_meridian_crossing(" << a << "," << b << ") is " << o);
}
inline void check_graph(const IGraph &g, const Model &m, const std::string &what) {
    const auto vs = points(g.get_vertices());
    const std::set<P> got(vs.begin(), vs.end());
    PBT_CHECK(got == m.verts && vs.size() == m.verts.size(), "vertices", what << ": " << vs.size() << " vertices are reported (" << got.size() << " different ones), there are " << m.verts.size());
    for (auto &a : m.verts) {
        PBT_CHECK(g.has_vertex(co(a)), "vertices", what << ": has_vertex(" << a << ") is false");
        check_vertex(g, m, a, what);
        for (auto &b : m.verts) check_pair(g, m, a, b, what);
    }
}

// Polygons with n corners in all, each in a strip of longitudes of its own, on a parabola (so that all of them are corners).
// Some are two triangles whose corners have the same hashes.
inline std::vector<Ring> draw_rings(Src &s, size_t n) {
    std::vector<Ring> out;
    if (n >= 6 && (n == 6 || n >= 9) && s.chance(1, 6)) {
        const int64_t span = s.coin() ? 100 : 100000;
        const P at{s.sym(50000000), s.sym(80000000)};
        const Ring r{at, at + P{s.range(1, span), s.sym(span)}, at + P{s.sym(span), s.range(1, span)}};
        const int64_t dy = s.range(1, s.coin() ? 20 : 5000);
        Ring twin;
        for (auto &v : r)
            if (const auto q = same_hash(v, dy)) twin.push_back(*q);
        const auto turn = [](const Ring &t) { return t.size() == 3 ? crossv(t[1] - t[0], t[2] - t[0]) : 0; };
        std::set<P> all(r.begin(), r.end());
        all.insert(twin.begin(), twin.end());
        if (turn(r) != 0 && turn(twin) != 0 && all.size() == 6) {
            out = {r, twin};
            n -= 6;
        }
    }
    for (int64_t k = 0; n >= 3; ++k) {
        size_t take = n < 6 ? n : 3 + s.draw(std::min<size_t>(n - 6, s.chance(1, 6) ? 400 : 9)); // leaves none or at least three
        if (n - take < 3) take = n;
        const int64_t side = s.coin() ? 1 : -1, y0 = s.sym(80000000);
        Ring r;
        for (int64_t i = 0; i < (int64_t)take; ++i) r.push_back({side * (MAXLON - k * 100000 - i * 100), y0 + i * i * 7});
        if (s.coin()) std::reverse(r.begin(), r.end());
        std::rotate(r.begin(), r.begin() + s.draw(r.size() - 1), r.end());
        out.push_back(r);
        n -= take;
    }
    return out;
}

struct G {
    std::shared_ptr<Graph> g;
    Model m;
    std::vector<P> order; // the vertices
};
inline G make(const std::vector<Polygon> &ps) {
    G r;
    r.g = std::make_shared<Graph>(ps);
    for (auto &p : ps)
        for (auto &v : p.get_vertices()) {
            r.m.verts.insert(pt(v));
            r.order.push_back(pt(v));
        }
    return r;
}
// Random undirected edges: from none to all pairs.
inline void draw_edges(Src &s, G &x, unsigned density_256) {
    for (size_t i = 0; i < x.order.size(); ++i)
        for (size_t j = 0; j < i; ++j) {
            const uint64_t v = s.draw(1023);
            if (v % 256 >= density_256) continue;
            const bool across = v >= 512;
            x.g->add_edge(co(x.order[i]), co(x.order[j]), across);
            x.m.add(x.order[i], x.order[j], across);
        }
}
inline std::string str(const Model &m) {
    std::ostringstream os;
    os << m.verts.size() << " vertices, " << m.edges.size() << " directed edges";
    if (m.edges.size() <= 60)
        for (auto &e : m.edges) os << " " << e.first.first << "-" << e.first.second << (e.second == 2 ? "*" : "");
    return os.str();
}
} // namespace graphs

// Oracle for shortest paths: all-pairs visibility by definition + Dijkstra, and S2's exact geodesic predicates by
// brute force over every coast line (no index).
#pragma once
#include "capi.hpp"
#include <queue>
#include <s2/s2edge_crossings.h>
#include <s2/s2edge_distances.h>
#include <s2/s2latlng.h>
#include <s2/s2loop.h>

namespace paths {
using geo::Land;
using geo::P;
using geo::Ring;
using geo::Vis;

inline S2Point s2(P p) { return S2LatLng::FromE6((int32_t)p.y, (int32_t)p.x).ToPoint(); }

struct World {
    std::vector<Ring> rings; // canonical
    Land land;               // periodic copies
    std::vector<P> verts;
    std::vector<std::unique_ptr<S2Loop>> loops;
    bool valid_on_sphere = true; // wide coast lines may cross themselves when drawn along great circles
    explicit World(const std::vector<Ring> &rs) {
        for (auto &r : rs) rings.push_back(geo::canonical(r));
        land = geo::periodic(rings);
        for (auto &r : rings) {
            verts.insert(verts.end(), r.begin(), r.end());
            std::vector<S2Point> v;
            for (auto &p : r) v.push_back(s2(p));
            loops.push_back(std::make_unique<S2Loop>(v, S2Debug::DISABLE));
            valid_on_sphere = valid_on_sphere && loops.back()->IsValid() && (loops.back()->IsNormalized() || std::fabs(loops.back()->GetArea() - area(r)) < 0.5);
            for (size_t i = 0; i < r.size(); ++i) // the arc of a side of half a turn or more goes the other way around
                valid_on_sphere = valid_on_sphere && std::abs(r[i].x - r[(i + 1) % r.size()].x) < 180000000;
        }
        for (size_t i = 0; i < loops.size(); ++i) // wide coast lines bulge towards the poles, and may meet others there
            for (size_t j = 0; j < i && valid_on_sphere; ++j) valid_on_sphere = !touch_on_sphere(i, j);
    }
    // The area on the sphere of what straight lines between the corners enclose. (Arcs between the same corners may, if they are
    // wide, enclose the rest of the world.)
    static double area(const Ring &r) {
        double sum = 0;
        for (size_t i = 0; i < r.size(); ++i) {
            const double k = M_PI / 180e6, x0 = r[i].x * k, y0 = r[i].y * k, x1 = r[(i + 1) % r.size()].x * k, y1 = r[(i + 1) % r.size()].y * k;
            sum -= (x1 - x0) * (std::fabs(y1 - y0) < 1e-6 ? std::sin((y0 + y1) / 2) : (std::cos(y0) - std::cos(y1)) / (y1 - y0));
        }
        return sum;
    }
    bool touch_on_sphere(size_t i, size_t j) const {
        if (!loops[i]->GetRectBound().Intersects(loops[j]->GetRectBound())) return false;
        if (loops[i]->Contains(s2(rings[j][0])) || loops[j]->Contains(s2(rings[i][0]))) return true;
        const auto &q = rings[j];
        for (size_t k = 0; k < rings[i].size(); ++k) {
            const auto a = s2(rings[i][k]), b = s2(rings[i][(k + 1) % rings[i].size()]);
            const S2LatLngRect side = S2LatLngRect::FromPointPair(S2LatLng(a), S2LatLng(b)).ExpandedByDistance(S1Angle::Degrees(0.01 + (std::abs(rings[i][k].x - rings[i][(k + 1) % rings[i].size()].x) > 2000000 ? 90 : 0)));
            if (!side.Intersects(loops[j]->GetRectBound())) continue;
            for (size_t l = 0; l < q.size(); ++l)
                if (S2::CrossingSign(a, b, s2(q[l]), s2(q[(l + 1) % q.size()])) >= 0) return true;
        }
        return false;
    }
    bool is_vertex(P p) const { return std::find(verts.begin(), verts.end(), p) != verts.end(); }
    // on land, along great circles (corners are not land)
    bool on_land_geodesic(P p) const {
        if (is_vertex(p)) return false;
        for (auto &l : loops)
            if (l->Contains(s2(p))) return true;
        return false;
    }
    std::vector<std::pair<P, P>> crossed_geodesic(P a, P b) const {
        std::vector<std::pair<P, P>> out;
        const auto sa = s2(a), sb = s2(b);
        for (auto &r : rings)
            for (size_t i = 0; i < r.size(); ++i)
                if (S2::CrossingSign(sa, sb, s2(r[i]), s2(r[(i + 1) % r.size()])) >= 0)
                    out.push_back({r[i], r[(i + 1) % r.size()]});
        return out;
    }
    Vis direct(P a, P b) const { return land.classify(a, b); }
    // over the antimeridian, either way round
    Vis across(P a, P b) const {
        const Vis e = land.classify(a, {b.x + geo::PERIOD, b.y}), w = land.classify(a, {b.x - geo::PERIOD, b.y});
        return std::min(e, w);
    }
};
inline double across_dist(P a, P b) {
    return std::min(geo::dist(a, {b.x + geo::PERIOD, b.y}), geo::dist(a, {b.x - geo::PERIOD, b.y}));
}
inline double lower(P a, P b) { return std::min(geo::dist(a, b), across_dist(a, b)); }

constexpr double INF = 1e300;
// Length of one leg between mutually visible points: straight where that is open, otherwise over the antimeridian
// (the precedence which the project's own tests fix for legs that are open both ways).
// strict: an upper bound, from what is certainly open; otherwise a lower bound, where legs which run along or
// marginally through coast lines count as open either way.
inline double leg(const World &w, P a, P b, bool strict) {
    if (a == b) return 0;
    const Vis d = w.direct(a, b);
    if (d == geo::CLEAR) return geo::dist(a, b);
    if (strict && d != geo::BLOCKED) return INF; // uncertain: not usable for a bound
    const Vis x = w.across(a, b);
    if (strict) return x == geo::CLEAR ? across_dist(a, b) : INF;
    double best = INF;
    if (d != geo::BLOCKED) best = geo::dist(a, b);
    if (x != geo::BLOCKED) best = std::min(best, across_dist(a, b));
    return best;
}
// The same with the shorter way where both are open.
inline double true_leg(const World &w, P a, P b, bool strict) {
    if (a == b) return 0;
    const Vis d = w.direct(a, b), x = w.across(a, b);
    double best = INF;
    if (strict ? d == geo::CLEAR : d != geo::BLOCKED) best = geo::dist(a, b);
    if (strict ? x == geo::CLEAR : x != geo::BLOCKED) best = std::min(best, across_dist(a, b));
    return best;
}

struct Roads { // the visibility graph by definition: certain legs between corners
    std::vector<P> nodes;
    std::vector<std::vector<double>> d;
    // On the biggest maps only legs between corners which are close in the outline or in the order of polygons: fewer legs, still a bound from above.
    explicit Roads(const World &w) : nodes(w.verts) {
        const size_t n = nodes.size();
        d.assign(n, std::vector<double>(n, INF));
        for (size_t i = 0; i < n; ++i)
            for (size_t j = n > 220 && i > 24 ? i - 24 : 0; j < i; ++j) d[i][j] = d[j][i] = leg(w, nodes[i], nodes[j], true);
    }
};

// Length of the shortest route s -> ... -> t over corners of coast lines (the leg s-t only if one of them is a
// corner), over corners which are allowed.
template <class Allowed> double optimum_if(const World &w, const Roads &roads, P s, P t, Allowed &&allowed) {
    if (s == t) return 0;
    const size_t n = roads.nodes.size();
    if (!allowed(t)) return INF;
    std::vector<char> ok(n);
    for (size_t i = 0; i < n; ++i) ok[i] = allowed(roads.nodes[i]);
    double best = INF;
    if (w.is_vertex(s) || w.is_vertex(t)) best = leg(w, s, t, true);
    std::vector<double> dist(n, INF);
    std::vector<char> done(n, 0);
    for (size_t i = 0; i < n; ++i)
        if (ok[i]) dist[i] = leg(w, s, roads.nodes[i], true);
    for (;;) {
        size_t k = n;
        for (size_t i = 0; i < n; ++i)
            if (ok[i] && !done[i] && dist[i] < INF && (k == n || dist[i] < dist[k])) k = i;
        if (k == n || dist[k] >= best) break;
        done[k] = 1;
        best = std::min(best, dist[k] + leg(w, roads.nodes[k], t, true));
        for (size_t j = 0; j < n; ++j)
            if (ok[j] && roads.d[k][j] < INF) dist[j] = std::min(dist[j], dist[k] + roads.d[k][j]);
    }
    return best;
}
inline double optimum(const World &w, const Roads &roads, P s, P t) {
    return optimum_if(w, roads, s, t, [](P) { return true; });
}
} // namespace paths

// Shared by the checks of routes.
#pragma once
#include "paths.hpp"
#include "shortest_path/shortest_path_computer.hpp"
#include "vis.hpp"
#include <iomanip>

namespace route {
using namespace pbt;
using namespace geo;
using namespace glue;

inline scene::Scene draw_scene(Src &s, Ctx &c, size_t max_vertices = 40, int64_t max_lat = 75000000) {
    scene::Opts o;
    o.max_vertices = max_vertices;
    o.max_lat = max_lat;
    if (s.chance(1, 6)) o.max_lat = 89000000;
    const size_t scale = s.pick({4, 2, 1});
    o.allow_world = scale == 2;
    o.max_unit = scale == 0 ? 300000 : scale == 1 ? 3000000 : 40000000;
    const bool long_way = max_vertices >= 40 && s.chance(1, 120), big_map = max_vertices >= 40 && !long_way && s.chance(1, 300);
    if (big_map) {
        o = scene::big(o);
        o.max_vertices = 200;
    }
    const bool many_corners = max_vertices >= 40 && !long_way && !big_map && s.chance(1, 80);
    if (many_corners) o.max_unit = std::min<int64_t>(o.max_unit, 300000);
    const bool many_open = max_vertices >= 40 && !long_way && !big_map && !many_corners && s.chance(1, 150);
    const bool around = !many_open && !many_corners && !long_way && !big_map && s.chance(1, 12);
    const bool most = max_vertices >= 40 && !around && !many_open && !many_corners && !long_way && !big_map && s.chance(1, 120);
    auto sc = most ? scene::vast(s) : around ? scene::meridians(s, o) : many_open ? scene::blinds(s, s.chance(1, 3) ? 60 : 25, o) : many_corners ? scene::terrain(s, s.chance(1, 8) ? 320 : 60, o) : long_way ? scene::slalom(s, s.chance(1, 4) ? s.chance(1, 3) ? 150 : 80 : 35, o) : scene::generate(s, o);
    c.label("coast: " + sc.kind + ", " + sc.placement);
    c.describe([&] { return sc.str(); });
    return sc;
}

// An end of a route: mostly at sea, sometimes exactly on a coast line or a corner.  Never inside land on the sphere.
struct End { P p; bool corner = false, coast = false; };
inline End draw_end(Src &s, const scene::Scene &sc, const paths::World &w, bool may_touch = true) {
    End e;
    for (int tries = 0; tries < 20; ++tries) {
        const size_t k = may_touch ? s.pick({6, 1, 1}) : 0;
        e = End{};
        if (k == 0) e.p = scene::sea_point(s, sc, w.land);
        else if (k == 1) { e.p = s.of(w.verts); e.corner = true; }
        else { e.p = scene::coast_point(s, sc); e.coast = true; }
        if (!e.corner && w.is_vertex(e.p)) e.corner = true;
        if (std::abs(e.p.y) <= 89500000 && !w.on_land_geodesic(e.p)) return e;
    }
    discard();
    return e;
}

// A point on land (of a map with land); now and then none is found, and it is at sea.
inline P inland_point(Src &s, const scene::Scene &sc, const paths::World &w) {
    for (int i = 0; i < 30; ++i) {
        const auto &r = s.of(w.rings);
        const P u = s.of(r), v = s.of(r), x = s.of(r);
        const int64_t f = (int64_t)s.draw(100), g = (int64_t)s.draw(100);
        const P m{u.x + (v.x - u.x) * f / 100 + (x.x - u.x) * g / 100, u.y + (v.y - u.y) * f / 100 + (x.y - u.y) * g / 100};
        if (std::abs(m.x) <= geo::MAXLON && std::abs(m.y) <= 89500000 && w.on_land_geodesic(m)) return m;
    }
    return scene::sea_point(s, sc, w.land);
}

// The length of a route which the code found: a bound from below, or from above.
inline double bounded_length(const paths::World &w, const std::vector<P> &r, bool least) {
    double l = 0;
    for (size_t i = 1; i < r.size(); ++i) {
        const double d = geo::dist(r[i - 1], r[i]), x = paths::across_dist(r[i - 1], r[i]);
        l += w.direct(r[i - 1], r[i]) == geo::CLEAR ? d : least ? std::min(d, x) : std::max(d, x);
    }
    return l;
}

inline std::string str(const std::vector<P> &r) {
    std::ostringstream os;
    for (auto &p : r) os << p;
    return os.str();
}

// Great circle answers are defined only for land that is valid when drawn along great circles.
inline void require_sphere(const paths::World &w) {
    if (!w.valid_on_sphere) discard();
}

struct Answer {
    std::vector<P> path;
    std::string error; // empty: there is a path
};
inline Answer ask(const ShortestPathComputer &spc, P a, P b, double limit = INFINITY, bool correct = false, double weight = 1.0) {
    Answer r;
    try {
        for (auto &q : spc.shortest_path(co(a), co(b), limit, correct, weight)) r.path.push_back(pt(q));
    } catch (const std::runtime_error &e) {
        r.error = e.what();
        if (r.error.empty()) r.error = "?";
    }
    return r;
}

// Everything that makes a route a route; returns its length (a lower bound where legs are ambiguous).
inline double check_route(const paths::World &w, const std::vector<P> &path, P a, P b, bool arc_is_free) {
    PBT_CHECK(!path.empty(), "empty", "an empty route was returned for " << a << " -> " << b);
    PBT_CHECK(path.front() == a && path.back() == b, "ends", "the route " << str(path) << " does not lead from " << a << " to " << b);
    if (a == b) { // already there: one point, or both
        PBT_CHECK(path.size() <= 2, "direct", "the route from " << a << " to itself leaves it: " << str(path));
        return 0;
    }
    if (arc_is_free) {
        PBT_CHECK(path.size() == 2, "direct", "nothing is in the way from " << a << " to " << b << ", but the route is " << str(path));
        return geo::dist(a, b);
    }
    std::set<P> seen;
    double len = 0;
    for (size_t i = 0; i < path.size(); ++i) {
        PBT_CHECK(seen.insert(path[i]).second, "repeated", "the route " << str(path) << " visits " << path[i] << " twice");
        if (i > 0 && i + 1 < path.size())
            PBT_CHECK(w.is_vertex(path[i]), "no-corner", "the route " << str(path) << " turns at " << path[i] << ", which is no corner");
        if (i == 0) continue;
        const double l = paths::leg(w, path[i - 1], path[i], false);
        PBT_CHECK(l < paths::INF, "leg-through-land", "the leg " << path[i - 1] << " - " << path[i] << " of the route " << str(path) << " passes through land either way");
        len += l;
    }
    if (path.size() == 2)
        PBT_CHECK(w.is_vertex(a) || w.is_vertex(b), "direct", "the arc from " << a << " to " << b << " meets a coast line, but the route is direct");
    return len;
}
constexpr double REL = 1e-9, ABS = 1e-9;
inline bool longer(double len, double bound) { return len > bound * (1 + REL) + ABS; }
} // namespace route

// C08: ends on land are refused, or moved to the nearest coast.
#include "route.hpp"
using namespace route;

namespace {
double um(double radians) { return radians * 180 / M_PI * 1e6; }
struct Coast {
    const paths::World &w;
    double bend = 0; // how far, at most, a coast line's great circle arc is from the straight line on the map
    explicit Coast(const paths::World &w_) : w(w_) {
        for (auto &r : w.rings)
            for (size_t i = 0; i < r.size(); ++i) {
                const P a = r[i], b = r[(i + 1) % r.size()];
                const S2LatLng m(S2::Interpolate(paths::s2(a), paths::s2(b), 0.5));
                bend = std::max(bend, std::hypot(m.lng().degrees() * 1e6 - (a.x + b.x) / 2.0, m.lat().degrees() * 1e6 - (a.y + b.y) / 2.0));
            }
    }
    // distance on the sphere, in microdegrees of arc, to the nearest coast line; and the coast lines within `slack` of being that
    double nearest(P p, std::vector<std::pair<P, P>> *which = nullptr, double slack = 3) const {
        double best = 1e18;
        std::vector<std::pair<double, std::pair<P, P>>> all;
        for (auto &r : w.rings)
            for (size_t i = 0; i < r.size(); ++i) {
                const P a = r[i], b = r[(i + 1) % r.size()];
                const double d = um(S2::GetDistance(paths::s2(p), paths::s2(a), paths::s2(b)).radians());
                best = std::min(best, d);
                all.push_back({d, {a, b}});
            }
        if (which)
            for (auto &e : all)
                if (e.first <= best + slack) which->push_back(e.second);
        return best;
    }
    static double to_segment(double x, double y, P a, P b) {
        const double dx = (double)(b.x - a.x), dy = (double)(b.y - a.y);
        double t = ((x - a.x) * dx + (y - a.y) * dy) / (dx * dx + dy * dy);
        t = std::max(0.0, std::min(1.0, t));
        return std::hypot(x - a.x - t * dx, y - a.y - t * dy);
    }
    // how deep inside land the straight line p - q gets, in microdegrees on the map
    double depth(P p, P q) const {
        double worst = 0;
        for (auto &r : w.land.rings) {
            std::vector<double> ts{0, 1};
            const size_t n = r.size();
            for (size_t i = 0; i < n; ++i) {
                const P a = r[i], b = r[(i + 1) % n];
                const i128 d1 = cross3(a, b, p), d2 = cross3(a, b, q);
                if (d1 != d2) {
                    const double t = (double)d1 / ((double)d1 - (double)d2);
                    if (t > 0 && t < 1) ts.push_back(t);
                }
            }
            std::sort(ts.begin(), ts.end());
            std::vector<double> probe;
            for (size_t i = 0; i + 1 < ts.size(); ++i)
                for (double f : {0.25, 0.5, 0.75}) probe.push_back(ts[i] + (ts[i + 1] - ts[i]) * f);
            for (double t : probe) {
                const double x = p.x + t * (double)(q.x - p.x), y = p.y + t * (double)(q.y - p.y);
                bool in = false;
                double d = 1e18;
                for (size_t i = 0; i < n; ++i) {
                    const P a = r[i], b = r[(i + 1) % n];
                    d = std::min(d, to_segment(x, y, a, b));
                    if ((a.y > y) != (b.y > y) && x < a.x + (y - a.y) / (double)(b.y - a.y) * (b.x - a.x)) in = !in;
                }
                if (in) worst = std::max(worst, d);
            }
        }
        return worst;
    }
    // the same along the great circle arc, in microdegrees of arc
    double depth_of_arc(P p, P q) const {
        double worst = 0;
        for (int k = 1; k < 96; ++k) {
            const auto m = S2::Interpolate(paths::s2(p), paths::s2(q), k / 96.0);
            const S2LatLng ll(m);
            const P mp{ll.lng().e6(), ll.lat().e6()};
            if (w.on_land_geodesic(mp)) worst = std::max(worst, nearest(mp));
        }
        return worst;
    }
};
} // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C08";
    p.quick_cases = 32000;
    p.thorough_cases = 1000000;
    p.rule = "A generated map (cells up to a third of a degree; one map in twelve has cells of up to sixty degrees, and only refusals and the moved ends are checked there) and four queries whose ends are inside land or at sea, asked without and with land correction. Nearest coast by brute force on the sphere, legs by how deep "
             "they cut into land, length against the best route which leaves over the corners of the nearest coast line, or over others in clear sight. Non-trivial: an end is moved, and the route goes over corners or joins two moved ends.";
    p.assumptions = {"polygons are simple and pairwise disjoint", "a corrected end may be two microdegrees off the coast, and a leg from it may cut land as deep as that plus the difference between the coast line's arc and its straight line on the map"};
    p.worker_init = [] { threads(1); };
    p.body = [](Src &s, Ctx &c) {
        draw_threads(s, c, 60);
        scene::Opts o;
        o.max_vertices = 40;
        o.allow_world = false;
        o.max_unit = s.chance(1, 4) ? 300000 : 20000;
        o.min_unit = 200;
        o.max_lat = 60000000;
        const bool continent = s.chance(1, 12); // so large that arcs and straight lines differ by far: only the ends are checked
        if (continent) {
            o.max_unit = 60000000;
            o.min_unit = s.coin() ? 20000000 : 1000000;
        }
        const auto sc = continent && s.chance(1, 8) ? scene::vast(s) : scene::generate(s, o);
        c.label("coast: " + sc.kind + ", " + sc.placement);
        c.describe([&] { return sc.str(); });
        const paths::World w(sc.rings);
        require_sphere(w);
        const Coast coast(w);
        const double tol = 5 + 2 * coast.bend;
        const ShortestPathComputer spc(VisgraphGenerator::generate(polys(sc.rings)));
        auto roads = paths::Roads(w);
        const size_t n_corners = roads.nodes.size();
        std::map<P, size_t> number;
        for (size_t i = 0; i < n_corners; ++i) number[roads.nodes[i]] = i, roads.d[i][i] = 0;
        for (size_t k = 0; k < n_corners; ++k) // lengths of shortest routes between corners
            for (size_t i = 0; i < n_corners; ++i)
                for (size_t j = 0; j < n_corners; ++j) roads.d[i][j] = std::min(roads.d[i][j], roads.d[i][k] + roads.d[k][j]);
        const auto inland = [&] {
            for (int i = 0; i < 30; ++i) {
                const auto &r = s.of(w.rings);
                const P u = s.of(r), v = s.of(r), x = s.of(r);
                const int64_t a = (int64_t)s.draw(100), b = (int64_t)s.draw(100);
                const P m{u.x + (v.x - u.x) * a / 100 + (x.x - u.x) * b / 100, u.y + (v.y - u.y) * a / 100 + (x.y - u.y) * b / 100};
                if (std::abs(m.x) <= MAXLON && w.on_land_geodesic(m)) return m;
            }
            discard();
            return P{};
        };
        for (int q = 0; q < 4; ++q) {
            const size_t which = s.pick({2, 2, 3, 1});
            const P a = which == 0 || which == 2 ? inland() : scene::sea_point(s, sc, w.land), b = which == 1 || which == 2 ? inland() : scene::sea_point(s, sc, w.land);
            c.describe([&] { std::ostringstream os; os << "\n" << a << " -> " << b; return os.str(); });
            const bool a_land = w.on_land_geodesic(a), b_land = w.on_land_geodesic(b);
            const auto plain = ask(spc, a, b, INFINITY, false), r = ask(spc, a, b, INFINITY, true);
            if (a_land || b_land)
                PBT_CHECK(!plain.error.empty(), "not-refused", (a_land ? a : b) << " is on land, but without correction the route is " << str(plain.path));
            else {
                PBT_CHECK(plain.path == r.path && plain.error == r.error, "correction-at-sea", "no end is on land, but land correction changes the answer from " << str(plain.path) << plain.error << " to " << str(r.path) << r.error);
                c.label("both ends at sea");
                if (plain.error.empty() && !continent) check_route(w, plain.path, a, b, w.crossed_geodesic(a, b).empty());
                continue;
            }
            if (continent && coast.bend > (double)sc.unit / 20 && !r.error.empty()) { // the corrected ends may be inside the land on the map
                for (int e = 0; e < 2; ++e)
                    if (e ? b_land : a_land) {
                        const P raw = e ? b : a;
                        const auto self = ask(spc, raw, raw, INFINITY, true);
                        PBT_CHECK(self.error.empty() && !self.path.empty(), "no-route", "with land correction, no route from " << raw << " to itself: " << self.error);
                        const P now = self.path.front();
                        const double off = coast.nearest(now), best = coast.nearest(raw), d = um(paths::s2(raw).Angle(paths::s2(now)));
                        PBT_CHECK(off <= 3 && std::abs(d - best) <= 3, "not-nearest", raw << " is on land and was moved to " << now << ", " << d << " microdegrees away, while the nearest coast is " << best << " away");
                    }
                c.label("continent, no route");
                continue;
            }
            PBT_CHECK(r.error.empty(), "no-route", "with land correction, no route from " << a << " to " << b << ": " << r.error);
            const P s1 = r.path.front(), t1 = r.path.back();
            for (int e = 0; e < 2; ++e) {
                const P raw = e ? b : a, now = e ? t1 : s1;
                if (!(e ? b_land : a_land)) {
                    PBT_CHECK(now == raw, "moved", "the end " << raw << " is at sea, but was moved to " << now);
                    continue;
                }
                const double off = coast.nearest(now), best = coast.nearest(raw), d = um(paths::s2(raw).Angle(paths::s2(now)));
                PBT_CHECK(off <= 3, "off-coast", raw << " is on land and was moved to " << now << ", which is " << off << " microdegrees from the coast");
                PBT_CHECK(std::abs(d - best) <= 3, "not-nearest", raw << " is on land and was moved to " << now << ", " << d << " microdegrees away, while the nearest coast is " << best << " away");
            }
            if (continent) {
                c.label("continent");
                c.nontrivial(a_land && b_land);
                continue;
            }
            // legs
            bool along_corners = false;
            if (r.path.size() == 2 && a_land && b_land)
                for (auto &v : w.verts)
                    along_corners |= v != s1 && v != t1 && Coast::to_segment((double)v.x, (double)v.y, s1, t1) < 2;
            double len = 0;
            for (size_t i = 1; i < r.path.size(); ++i) {
                const P u = r.path[i - 1], v = r.path[i];
                if (u == v) continue;
                double d = 1e18, l = 0;
                for (int64_t shift : {(int64_t)0, PERIOD, -PERIOD}) {
                    const double k = coast.depth(u, {v.x + shift, v.y});
                    if (k <= tol && d > tol) l = geo::dist(u, {v.x + shift, v.y});
                    d = std::min(d, k);
                    if (d <= tol) l = std::min(l, shift ? paths::across_dist(u, v) : geo::dist(u, v));
                }
                len += l;
                if (r.path.size() == 2 && d > tol) d = std::min(d, coast.depth_of_arc(u, v));
                if (d > tol && along_corners) { c.label("direct between corrected ends, in line with corners (known finding)"); continue; }
                PBT_CHECK(d <= tol, "leg-through-land", "the leg " << u << " - " << v << " of the corrected route " << str(r.path) << " cuts " << d << " microdegrees into land");
                if (i > 1) PBT_CHECK(w.is_vertex(u), "no-corner", "the corrected route " << str(r.path) << " turns at " << u << ", which is no corner");
            }
            // length
            if (r.path.size() > 2) {
                std::vector<std::vector<std::pair<P, double>>> from, to; // for each coast line that may be the nearest: corners and lengths to them
                for (int e = 0; e < 2; ++e) {
                    const P raw = e ? b : a, now = e ? t1 : s1;
                    auto &out = e ? to : from;
                    if (!(e ? b_land : a_land)) {
                        out.emplace_back();
                        for (auto &v : w.verts) out.back().push_back({v, paths::leg(w, now, v, true)});
                        continue;
                    }
                    std::vector<std::pair<P, P>> lines;
                    coast.nearest(raw, &lines);
                    for (auto &l : lines) {
                        out.push_back({{l.first, geo::dist(now, l.first)}, {l.second, geo::dist(now, l.second)}});
                        if (orient(l.first, l.second, now) > 0) continue;
                        for (auto &v : w.verts) { // and those in clear sight on the sea's side of it, from a point which is not inside the land
                            double best = paths::INF;
                            const auto sight = w.land.classify(now, v);
                            if (sight == CLEAR) best = orient(l.first, l.second, v) < 0 ? geo::dist(now, v) : paths::INF;
                            else if (sight == BLOCKED)
                                for (const int64_t shift : {PERIOD, -PERIOD}) {
                                    const P u{v.x + shift, v.y}, other{v.x - shift, v.y};
                                    if (w.land.classify(now, u) == CLEAR && orient(l.first, l.second, u) < 0 && geo::dist(now, u) < geo::dist(now, other)) best = geo::dist(now, u);
                                }
                            if (best < paths::INF) out.back().push_back({v, best});
                        }
                    }
                }
                double bound = 0;
                for (auto &f : from)
                    for (auto &t : to) {
                        double best = paths::INF;
                        for (auto &x : f)
                            for (auto &y : t)
                                if (x.second < paths::INF && y.second < paths::INF) {
                                    const double mid = roads.d[number.at(x.first)][number.at(y.first)];
                                    if (mid < paths::INF) best = std::min(best, x.second + mid + y.second);
                                }
                        bound = std::max(bound, best);
                    }
                PBT_CHECK(len <= bound * (1 + 1e-9) + 1e-5, "not-shortest", std::setprecision(12) << "the corrected route " << str(r.path) << " has length " << len << ", but there is one of length " << bound);
            }
            c.label(std::string(a_land && b_land ? "both ends" : "one end") + " corrected, " + (r.path.size() == 2 ? "direct" : "over corners"));
            c.nontrivial(r.path.size() > 2 || (a_land && b_land));
        }
    };
    // Both ends are moved, and the straight line between them runs through two corners with land in between.
    p.known["direct-in-line-with-corners"] = [] {
        const std::vector<Ring> rings = {{{-179998200, 0}, {-179997600, 0}, {-179997600, 600}, {-180000000, 600}, {-180000000, 0}, {-179998800, 0}, {-179998800, -600}, {-179998200, -600}}};
        const paths::World w(rings);
        const ShortestPathComputer spc(VisgraphGenerator::generate(polys(rings)));
        const auto r = ask(spc, {-179999976, 6}, {-179998188, 12}, INFINITY, true);
        return r.path.size() == 2 && Coast(w).depth(r.path[0], r.path[1]) > 5;
    };
    return pbt_main(p, argc, argv);
}

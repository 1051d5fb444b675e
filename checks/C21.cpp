// C21: moving or mirroring the world moves or mirrors the results.
#include "route.hpp"
using namespace route;

namespace {
struct Map {
    std::string name;
    int64_t sx = 1, sy = 1, dx = 0, dy = 0;
    P operator()(P p) const { return {sx * p.x + dx, sy * p.y + dy}; }
};
} // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C21";
    p.quick_cases = 60000;
    p.thorough_cases = 1500000;
    p.rule = "Coast lines as for C01; the same map shifted (staying on the globe), mirrored east-west, north-south or both, and with its polygons in another order, direction and from other corners, or all of these. "
             "The edges and flags are compared pair by pair, and so are the routes' lengths for up to six pairs of corners, there and back, and between two pairs of any ends, moved to the coast if on land. Non-trivial: some pair of corners is joined and some is not.";
    p.assumptions = {"pairs whose line of sight grazes or marginally cuts a coast line are left out"};
    p.worker_init = [] { threads(1); };
    p.body = [](Src &s, Ctx &c) {
        draw_threads(s, c, 40);
        const auto sc = vis::draw_scene(s, c, true, 150);
        Map m;
        int64_t x0 = INT64_MAX, x1 = INT64_MIN, y0 = INT64_MAX, y1 = INT64_MIN;
        const size_t kind = s.pick({3, 3, 3});
        const bool rewrite = kind == 1 || s.chance(1, 3);
        if (kind == 0 || kind == 2) {
            m.name = "shifted";
            if (kind == 2) {
                m.sx = s.coin() ? -1 : 1;
                m.sy = m.sx == 1 || s.coin() ? -1 : 1;
                m.name = m.sx < 0 && m.sy < 0 ? "turned" : m.sx < 0 ? "mirrored east-west" : "mirrored north-south";
            }
            for (auto &r : sc.rings)
                for (auto &v : r) {
                    const P q = m(v);
                    x0 = std::min(x0, q.x); x1 = std::max(x1, q.x);
                    y0 = std::min(y0, q.y); y1 = std::max(y1, q.y);
                }
            if (kind == 0 || s.coin()) {
                if (s.coin()) m.dx = s.range(-MAXLON - x0, MAXLON - x1);
                else m.dy = s.range(-90000000 - y0, 90000000 - y1);
                if (s.chance(1, 3)) m.dx = s.range(-MAXLON - x0, MAXLON - x1);
            }
        } else m.name = "same";
        if (rewrite) m.name += ", rewritten";
        auto rings = sc.rings;
        for (auto &r : rings)
            for (auto &v : r) v = m(v);
        if (rewrite) {
            s.shuffle(rings);
            for (auto &r : rings) {
                if (s.coin()) std::reverse(r.begin(), r.end());
                std::rotate(r.begin(), r.begin() + (long)s.draw(r.size() - 1), r.end());
            }
        }
        c.describe([&] { std::ostringstream os; os << "\n" << m.name << " by " << m.dx << "," << m.dy; return os.str(); });
        c.label(m.name);
        const auto g1 = VisgraphGenerator::generate(polys(sc.rings)), g2 = VisgraphGenerator::generate(polys(rings));
        const auto vs = vis::corners(sc.rings);
        const Land land = periodic(sc.rings);
        bool joined = false, apart = false, same = true;
        for (size_t i = 0; i < vs.size(); ++i)
            for (size_t j = 0; j < vs.size(); ++j) {
                const P a = vs[i], b = vs[j];
                if (a == b) continue;
                const bool e1 = g1->has_edge(co(a), co(b)), e2 = g2->has_edge(co(m(a)), co(m(b)));
                const bool f1 = g1->is_edge_meridian_crossing(co(a), co(b)), f2 = g2->is_edge_meridian_crossing(co(m(a)), co(m(b)));
                (e1 ? joined : apart) = true;
                if (e1 == e2 && f1 == f2) continue;
                same = false;
                {
                    const auto sure = [](Vis v) { return v == CLEAR || v == BLOCKED; };
                    if (!sure(land.classify(a, b)) || !sure(land.classify(a, {b.x + PERIOD, b.y})) || !sure(land.classify(a, {b.x - PERIOD, b.y}))) {
                        c.label("difference in a grazing or marginal sight");
                        continue;
                    }
                }
                PBT_CHECK(e1 == e2, "edge", a << " and " << b << (e1 ? " are" : " are not") << " joined, but " << m(a) << " and " << m(b) << (e2 ? " are" : " are not") << " on the map " << m.name);
                PBT_CHECK(f1 == f2, "flag", "the edge " << a << " - " << b << " is flagged " << f1 << ", but " << m(a) << " - " << m(b) << " on the map " << m.name << " " << f2);
            }
        const ShortestPathComputer s1(g1), s2(g2);
        const auto length = [&](const ShortestPathComputer &spc, const IGraph &g, P a, P b, std::vector<P> &path) {
            const Answer r = ask(spc, a, b);
            path = r.path;
            if (r.path.empty()) return -1.0;
            double len = 0;
            for (size_t i = 1; i < path.size(); ++i) {
                const P u = path[i - 1], v = path[i];
                // legs between corners by their flag; the first and last leg of a point at sea by the shorter way (which may be
                // too short, but is so there and back)
                if (g.has_edge(co(u), co(v))) len += g.is_edge_meridian_crossing(co(u), co(v)) ? paths::across_dist(u, v) : geo::dist(u, v);
                else len += paths::lower(u, v);
            }
            return len;
        };
        std::vector<P> p1, p2;
        // Whether a point is on land is decided on the sphere, where land that is wide or next to a pole may be drawn over itself
        const paths::World w1(sc.rings), w2(rings);
        const auto fine = [](const paths::World &w, P p) {
            if (!w.valid_on_sphere || std::llabs(p.y) > 89900000) return false;
            for (size_t i = 0; i < w.rings.size(); ++i)
                if (std::find(w.rings[i].begin(), w.rings[i].end(), p) == w.rings[i].end() && w.loops[i]->Contains(paths::s2(p))) return false;
            return true;
        };
        for (int k = 0; k < 6; ++k) {
            const P a = s.of(vs), b = s.of(vs);
            if (a == b || !fine(w1, a) || !fine(w1, b) || !fine(w2, m(a)) || !fine(w2, m(b))) continue;
            const double there = length(s1, *g1, a, b, p1);
            const double back = length(s1, *g1, b, a, p2);
            PBT_CHECK((there < 0) == (back < 0) && std::fabs(there - back) <= 1e-9 * (1 + there), "back", "the route " << str(p1) << " is " << there << " long, the route back " << str(p2) << " " << back);
            if (!same) continue;
            const double other = length(s2, *g2, m(a), m(b), p2);
            PBT_CHECK((there < 0) == (other < 0) && std::fabs(there - other) <= 1e-9 * (1 + there), "length", "the route " << str(p1) << " is " << there << " long, but on the map " << m.name << " it is " << str(p2) << ", " << other << " long");
            c.label("route between corners");
        }
        // There and back between any ends: those on land are moved to the coast
        for (int k = 0; k < 2 && w1.valid_on_sphere && !w1.verts.empty(); ++k) {
            const auto end = [&] { return s.chance(1, 3) ? inland_point(s, sc, w1) : s.chance(1, 3) ? s.of(vs) : scene::sea_point(s, sc, w1.land); };
            const P a = end(), b = end();
            if (std::llabs(a.y) > 89500000 || std::llabs(b.y) > 89500000) continue;
            c.describe([&] { std::ostringstream os; os << "\n" << a << " -> " << b << " and back, corrected"; return os.str(); });
            const auto r1 = ask(s1, a, b, INFINITY, true), r2 = ask(s1, b, a, INFINITY, true);
            PBT_CHECK(r1.error.empty() == r2.error.empty(), "back-outcome", "there is a route " << str(r1.path) << str(r2.path) << " between " << a << " and " << b << " one way only: " << r1.error << r2.error);
            if (!r1.error.empty()) continue;
            PBT_CHECK(r1.path.front() == r2.path.back() && r1.path.back() == r2.path.front(), "back-ends", "the route " << str(r1.path) << " and the route back " << str(r2.path) << " have different ends");
            PBT_CHECK(!longer(bounded_length(w1, r1.path, true), bounded_length(w1, r2.path, false)) && !longer(bounded_length(w1, r2.path, true), bounded_length(w1, r1.path, false)),
                      "back-length", "the route " << str(r1.path) << " and the route back " << str(r2.path) << " differ in length");
            c.label("route there and back");
        }
        c.nontrivial(joined && apart);
    };
    return pbt_main(p, argc, argv);
}

// C07: a search limit confines the search and nothing else.
#include "route.hpp"
using namespace route;

namespace {
// A limit in microdegrees; `exact` if it is a whole number of them, so that points due east, west, north or south can be exactly on it.
struct Limit {
    double um;
    bool exact;
    double degrees() const { return exact ? Coordinate((int32_t)um, 0).get_longitude() : um * 1e-6; }
    // at most the limit / more than the limit, certainly
    static int64_t gap(P a, P b, int64_t shift) { return b.x + shift - a.x; }
    bool within(P s, P t) const {
        for (int64_t shift : {(int64_t)0, PERIOD, -PERIOD}) {
            const int64_t dx = gap(s, t, shift), dy = t.y - s.y;
            if (exact && (dx == 0 || dy == 0) && std::abs(dx) + std::abs(dy) == (int64_t)um && um < 2e8) return true;
            if (std::hypot((double)dx, (double)dy) < um - 1e-3) return true;
        }
        return false;
    }
    bool beyond(P s, P t) const {
        for (int64_t shift : {(int64_t)0, PERIOD, -PERIOD})
            if (std::hypot((double)gap(s, t, shift), (double)(t.y - s.y)) < um + 1e-3) return false;
        return true;
    }
};
} // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C07";
    p.quick_cases = 50000;
    p.thorough_cases = 2000000;
    p.rule = "A generated map and six queries, each with a limit drawn around the distances of corners and of the destination from the source (a microdegree below, exactly at it where it can be met exactly, "
             "a microdegree above, or anything). Against Dijkstra over the corners within the limit. One map in three also has a query from inside land, corrected, with four limits about the reach of its unlimited route. Non-trivial: the limit excludes some corner and either changes the outcome or a route over corners is found.";
    p.assumptions = {"polygons are simple and pairwise disjoint", "points within a thousandth of a microdegree of the limit are decided only if due east, west, north or south of the source"};
    p.worker_init = [] { threads(1); };
    p.body = [](Src &s, Ctx &c) {
        draw_threads(s, c, 60);
        const auto sc = draw_scene(s, c);
        const paths::World w(sc.rings);
        require_sphere(w);
        const ShortestPathComputer spc(VisgraphGenerator::generate(polys(sc.rings)));
        const paths::Roads roads(w);
        // Ends on land are moved to the coast, and the limit is on the distance from where the route starts: against the unlimited route.
        if (!w.verts.empty() && s.chance(1, 3)) {
            const P a = inland_point(s, sc, w), b = s.coin() ? inland_point(s, sc, w) : scene::sea_point(s, sc, w.land);
            const auto whole = ask(spc, a, b, INFINITY, true);
            const auto apart = [&](P u, P v) {
                double d = 1e18;
                for (int64_t shift : {(int64_t)0, PERIOD, -PERIOD}) d = std::min(d, std::hypot((double)(v.x + shift - u.x), (double)(v.y - u.y)));
                return d;
            };
            const P from = whole.error.empty() ? whole.path.front() : a, to = whole.error.empty() ? whole.path.back() : b;
            double reach = 0;
            for (auto v : whole.path) reach = std::max(reach, apart(from, v));
            for (int q = 0; q < 4; ++q) {
                Limit l{};
                const double around = q < 2 ? reach : apart(from, s.coin() ? to : s.of(w.verts));
                l.um = q == 0 ? around + 1 : q == 1 ? around - 1 : around * (double)s.draw(200) / 100;
                const double limit = l.degrees();
                c.describe([&] { std::ostringstream os; os << std::setprecision(12) << "\n" << a << " -> " << b << " corrected, limit " << limit; return os.str(); });
                const auto r = ask(spc, a, b, limit, true);
                if (!whole.error.empty()) {
                    PBT_CHECK(!r.error.empty(), "corrected-no-route", "without a limit there is no route from " << a << " to " << b << ", but within " << limit << " there is " << str(r.path));
                    continue;
                }
                bool kept = true, over = false;
                for (auto v : whole.path) kept &= l.within(from, v) || v == from, over |= l.beyond(from, v);
                if (whole.path.size() <= 2) { // no limit on direct ways; but one end may be a corner
                    PBT_CHECK(r.path == whole.path || (over && !r.error.empty()) || !kept, "corrected-direct", "the way " << str(whole.path) << " is direct, but within " << limit << " it is " << str(r.path) << r.error);
                    continue;
                }
                if (!r.error.empty()) {
                    PBT_CHECK(!kept, "corrected-refused", std::setprecision(15) << "the route " << str(whole.path) << " from " << a << " (corrected) stays within " << limit << ", but: " << r.error);
                    c.label("corrected end: no route within the limit");
                    c.nontrivial();
                    continue;
                }
                PBT_CHECK(r.path.front() == from && r.path.back() == to, "corrected-ends", "the limit " << limit << " changes the ends of " << str(whole.path) << " to those of " << str(r.path));
                for (auto v : r.path)
                    PBT_CHECK(v == from || !l.beyond(from, v), "corrected-beyond-limit", std::setprecision(15) << "the route " << str(r.path) << " from " << a << " (corrected) goes further than " << limit << " from its source");
                PBT_CHECK(!longer(bounded_length(w, whole.path, true), bounded_length(w, r.path, false)), "corrected-longer", "the limit " << limit << " shortens " << str(whole.path) << " to " << str(r.path));
                if (kept) PBT_CHECK(!longer(bounded_length(w, r.path, true), bounded_length(w, whole.path, false)), "corrected-longer", "the limit " << limit << " keeps all of " << str(whole.path) << ", but the route becomes " << str(r.path));
                c.label(over ? "corrected end: another route within the limit" : "corrected end: the route is within the limit");
                c.nontrivial();
            }
        }
        for (int q = 0; q < 6; ++q) {
            const End a = draw_end(s, sc, w);
            End b = draw_end(s, sc, w);
            if (s.chance(1, 3)) { // due east or north of the source
                b.p = s.coin() ? P{a.p.x, b.p.y} : P{b.p.x, a.p.y};
                if (w.land.where(b.p) >= 0 || w.on_land_geodesic(b.p)) discard();
            }
            Limit l{};
            const P target = s.chance(1, 2) ? b.p : s.of(w.verts);
            double d = 1e18;
            for (int64_t shift : {(int64_t)0, PERIOD, -PERIOD}) d = std::min(d, std::hypot((double)(target.x + shift - a.p.x), (double)(target.y - a.p.y)));
            const size_t how = s.pick({4, 2, 2, 2});
            if (how == 0) l = {d, d == std::floor(d) && d < 2e8};
            else if (how == 1) l = {d - 1, false};
            else if (how == 2) l = {d + 1, false};
            else l = {d * (double)s.draw(300) / 100, false};
            if (s.chance(1, 12)) l = {0, true};
            const double limit = l.degrees();
            const double weight = s.chance(1, 5) ? 0 : 1;
            c.describe([&] { std::ostringstream os; os << std::setprecision(12) << "\n" << a.p << " -> " << b.p << " limit " << limit << " weight " << weight; return os.str(); });
            const auto r = ask(spc, a.p, b.p, limit, s.chance(1, 4), weight); // no end is on land: correction has nothing to do
            if (w.crossed_geodesic(a.p, b.p).empty()) {
                PBT_CHECK(r.error.empty(), "direct", "nothing is in the way from " << a.p << " to " << b.p << ", but: " << r.error);
                check_route(w, r.path, a.p, b.p, true);
                c.label("direct route");
                continue;
            }
            bool excludes = false;
            for (auto v : w.verts) excludes |= l.beyond(a.p, v);
            const double best = paths::optimum_if(w, roads, a.p, b.p, [&](P v) { return l.within(a.p, v); });
            if (!r.error.empty()) {
                PBT_CHECK(best >= paths::INF, "no-route", std::setprecision(15) << "within " << limit << " of " << a.p << " there is a route to " << b.p << " of length " << best << ", but: " << r.error);
                c.label("no route within the limit");
                if (excludes) c.nontrivial();
                continue;
            }
            const double len = check_route(w, r.path, a.p, b.p, false);
            for (auto v : r.path)
                PBT_CHECK(v == a.p || !l.beyond(a.p, v), "beyond-limit", std::setprecision(15) << "the route " << str(r.path) << " goes further than " << limit << " from its source");
            PBT_CHECK(!longer(len, best), "not-shortest", std::setprecision(15) << "within " << limit << " of " << a.p << " the route " << str(r.path) << " has length " << len << ", but there is one of length " << best);
            if (excludes && r.path.size() > 2) c.nontrivial();
            c.label(excludes ? "route, the limit excludes corners" : "route, the limit excludes nothing");
            if (how == 0 && l.exact) c.label("limit exactly at a point");
        }
    };
    return pbt_main(p, argc, argv);
}

// C04: a returned route joins its ends and never crosses land.
#include "route.hpp"
using namespace route;

int main(int argc, char **argv) {
    Property p;
    p.id = "C04";
    p.quick_cases = 60000;
    p.thorough_cases = 2000000;
    p.rule = "A generated map (cells from 60 microdegrees to world-wide) and six queries between points at sea, on corners and on coast lines, with random weighting and "
             "search limit. Each leg is checked by the exact planar oracle, the shortcut by S2's exact crossing predicate over every coast line, failures by an exhaustive search. "
             "Non-trivial: some route goes over corners.";
    p.assumptions = {"polygons are simple and pairwise disjoint", "legs within 3 microdegrees of a coast line are not decided"};
    p.worker_init = [] { threads(1); };
    p.body = [](Src &s, Ctx &c) {
        draw_threads(s, c, 60);
        const auto sc = draw_scene(s, c);
        const paths::World w(sc.rings);
        require_sphere(w);
        const ShortestPathComputer spc(VisgraphGenerator::generate(polys(sc.rings)));
        std::unique_ptr<paths::Roads> roads;
        for (int q = 0; q < 6; ++q) {
            const End a = draw_end(s, sc, w), b = s.chance(1, 30) ? a : draw_end(s, sc, w);
            const double limit = s.chance(1, 4) ? (double)s.draw(100) / 100 * 2 * sc.unit * 1e-6 * (sc.w + sc.h) : INFINITY;
            const double weight = s.chance(1, 3) ? (double)s.draw(40) / 10 : 1.0;
            c.describe([&] { std::ostringstream os; os << "\n" << a.p << " -> " << b.p << " limit " << limit << " weight " << weight; return os.str(); });
            const auto r = ask(spc, a.p, b.p, limit, s.chance(1, 4), weight); // no end is on land: correction has nothing to do
            const bool arc_free = w.crossed_geodesic(a.p, b.p).empty();
            if (!r.error.empty()) {
                PBT_CHECK(!arc_free, "direct", "nothing is in the way from " << a.p << " to " << b.p << ", but: " << r.error);
                if (!roads) roads = std::make_unique<paths::Roads>(w);
                const double best = paths::optimum_if(w, *roads, a.p, b.p, [&](P v) { return paths::lower(a.p, v) < limit - 1e-9; });
                PBT_CHECK(best >= paths::INF, "no-route", "there is a route from " << a.p << " to " << b.p << " of length " << best << ", but: " << r.error);
                c.label("no route, rightly");
                continue;
            }
            check_route(w, r.path, a.p, b.p, arc_free);
            if (r.path.size() > 2) c.nontrivial();
            c.label(arc_free ? "direct route" : "route of " + std::to_string(r.path.size() - 1) + " legs");
        }
    };
    return pbt_main(p, argc, argv);
}

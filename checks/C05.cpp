// C05: a returned route is as short as possible.
#include "route.hpp"
using namespace route;

int main(int argc, char **argv) {
    Property p;
    p.id = "C05";
    p.quick_cases = 60000;
    p.thorough_cases = 2000000;
    p.rule = "A generated map and six queries between points at sea, on corners and on coast lines; the length of each route is compared with Dijkstra's on a visibility graph built "
             "by definition from exact predicates. Non-trivial: some route goes over at least two corners.";
    p.assumptions = {"polygons are simple and pairwise disjoint", "the bound uses only legs in clear sight; a leg which is open both ways counts as direct (see the known finding)"};
    p.worker_init = [] { threads(1); };
    p.body = [](Src &s, Ctx &c) {
        draw_threads(s, c, 60);
        const auto sc = draw_scene(s, c);
        const paths::World w(sc.rings);
        require_sphere(w);
        const ShortestPathComputer spc(VisgraphGenerator::generate(polys(sc.rings)));
        const paths::Roads roads(w);
        for (int q = 0; q < 6; ++q) {
            const End a = draw_end(s, sc, w), b = draw_end(s, sc, w);
            const double weight = s.chance(1, 4) ? (double)s.draw(10) / 10 : 1.0;
            c.describe([&] { std::ostringstream os; os << "\n" << a.p << " -> " << b.p << " weight " << weight; return os.str(); });
            if (w.crossed_geodesic(a.p, b.p).empty()) { c.label("direct route"); continue; }
            const auto r = ask(spc, a.p, b.p, INFINITY, s.chance(1, 4), weight); // no end is on land: correction has nothing to do
            const double best = paths::optimum(w, roads, a.p, b.p);
            if (!r.error.empty()) {
                PBT_CHECK(best >= paths::INF, "no-route", "there is a route from " << a.p << " to " << b.p << " of length " << best << ", but: " << r.error);
                c.label("no route, rightly");
                continue;
            }
            const double len = check_route(w, r.path, a.p, b.p, false);
            PBT_CHECK(!longer(len, best), "not-shortest", std::setprecision(15) << "the route " << str(r.path) << " has length " << len << ", but there is one of length " << best);
            if (r.path.size() > 3) c.nontrivial();
            c.label(len < best - 1e-9 ? "shorter than the bound (grazing legs)" : "optimal, " + std::to_string(r.path.size() - 1) + " legs");
        }
    };
    // Two islets at either edge of the map, two degrees apart over the antimeridian, and a third half a turn away.  The northern corners
    // also see each other the other way around the globe, 358 degrees, and that is how their edge is measured.
    p.known["leg-open-both-ways"] = [] {
        const std::vector<Ring> rings = {{{-179000000, 1000000}, {-179000000, -1000000}, {-178000000, 0}},
                                         {{179000000, -1000000}, {179000000, 1000000}, {178000000, 0}},
                                         {{-1000000, -1500000}, {1000000, -1500000}, {0, -500000}}};
        const paths::World w(rings);
        const ShortestPathComputer spc(VisgraphGenerator::generate(polys(rings)));
        const P a{-179000000, 1000000}, b{179000000, 1000000};
        const auto r = ask(spc, a, b);
        double len = 0;
        for (size_t i = 1; i < r.path.size(); ++i) len += paths::true_leg(w, r.path[i - 1], r.path[i], false);
        return longer(len, paths::true_leg(w, a, b, true));
    };
    return pbt_main(p, argc, argv);
}

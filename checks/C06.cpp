// C06: a greedy route is longer by at most the weighting.
#include "route.hpp"
using namespace route;

int main(int argc, char **argv) {
    Property p;
    p.id = "C06";
    p.quick_cases = 50000;
    p.thorough_cases = 2000000;
    p.rule = "A generated map, four pairs of ends, and for each pair weightings from 0 to 1000 besides 1. Lengths against Dijkstra on the graph by definition; outcome and directness against the "
             "unweighted query. Non-trivial: some route is longer than the shortest one, or goes over at least two corners.";
    p.assumptions = {"polygons are simple and pairwise disjoint"};
    p.worker_init = [] { threads(1); };
    p.body = [](Src &s, Ctx &c) {
        draw_threads(s, c, 60);
        const auto sc = draw_scene(s, c);
        const paths::World w(sc.rings);
        require_sphere(w);
        const ShortestPathComputer spc(VisgraphGenerator::generate(polys(sc.rings)));
        const paths::Roads roads(w);
        if (!w.verts.empty() && s.chance(1, 4)) { // ends on land, which are moved to the coast: against the route of weighting one
            const P a = inland_point(s, sc, w), b = s.coin() ? inland_point(s, sc, w) : scene::sea_point(s, sc, w.land);
            const auto plain = ask(spc, a, b, INFINITY, true);
            for (int k = 0; k < 2; ++k) {
                const double weight = s.coin() ? (double)s.draw(10) / 10 : 1 + (double)s.draw(60) / 10;
                c.describe([&] { std::ostringstream os; os << "\n" << a << " -> " << b << " corrected, weight " << weight; return os.str(); });
                const auto r = ask(spc, a, b, INFINITY, true, weight);
                PBT_CHECK(r.error.empty() == plain.error.empty(), "corrected-outcome",
                          "from " << a << " to " << b << " (corrected) weighting " << weight << (r.error.empty() ? " finds a route, 1 does not" : " finds no route, 1 does: " + r.error));
                if (!r.error.empty()) continue;
                PBT_CHECK(r.path.front() == plain.path.front() && r.path.back() == plain.path.back(), "corrected-ends",
                          "weighting " << weight << " changes the ends of " << str(plain.path) << " to those of " << str(r.path));
                PBT_CHECK(!longer(bounded_length(w, r.path, true), bounded_length(w, plain.path, false) * std::max(1.0, weight)), "corrected-beyond-the-weighting",
                          std::setprecision(15) << "with weighting " << weight << " the route is " << str(r.path) << ", with 1 it is " << str(plain.path));
                c.label("corrected ends");
                if (r.path.size() > 3) c.nontrivial();
            }
        }
        for (int q = 0; q < 4; ++q) {
            const End a = draw_end(s, sc, w), b = draw_end(s, sc, w);
            const bool arc_free = w.crossed_geodesic(a.p, b.p).empty();
            const auto plain = ask(spc, a.p, b.p);
            const double best = arc_free ? geo::dist(a.p, b.p) : paths::optimum(w, roads, a.p, b.p);
            for (int k = 0; k < 3; ++k) {
                const size_t how = s.pick({3, 2, 2, 1});
                const double weight = how == 0 ? 1 + (double)s.draw(40) / 10 : how == 1 ? (double)s.draw(10) / 10 : how == 2 ? 1 + (double)s.draw(100) / 1000 : (double)s.draw(1000);
                c.describe([&] { std::ostringstream os; os << "\n" << a.p << " -> " << b.p << " weight " << weight; return os.str(); });
                const auto r = ask(spc, a.p, b.p, INFINITY, s.chance(1, 4), weight); // no end is on land: correction has nothing to do
                PBT_CHECK(r.error.empty() == plain.error.empty(), "outcome",
                          "from " << a.p << " to " << b.p << " weighting " << weight << (r.error.empty() ? " finds a route, 1 does not" : " finds no route, 1 does: " + r.error));
                if (!r.error.empty()) { c.label("no route"); continue; }
                PBT_CHECK((plain.path.size() == 2) == (r.path.size() == 2) || !arc_free, "direct", "directness changes with the weighting");
                const double len = check_route(w, r.path, a.p, b.p, arc_free);
                if (arc_free) { c.label("direct route"); continue; }
                PBT_CHECK(!longer(len, best * std::max(1.0, weight)), "beyond-the-weighting",
                          std::setprecision(15) << "with weighting " << weight << " the route " << str(r.path) << " has length " << len << ", the shortest " << best);
                if (longer(len, best)) { c.label("longer than the shortest"); c.nontrivial(); }
                else c.label("shortest");
                if (r.path.size() > 3) c.nontrivial();
            }
        }
    };
    return pbt_main(p, argc, argv);
}

// C02: a visibility graph has an edge wherever two corners see each other.
#include "vis.hpp"
using namespace vis;

int main(int argc, char **argv) {
    Property p;
    p.id = "C02";
    p.quick_cases = 80000;
    p.thorough_cases = 3000000;
    p.rule = "Coast lines as for C01 (rarely with up to 3000 corners, of which pairs are drawn); every pair of corners which the exact brute-force oracle finds in clear sight must be joined both ways, "
             "flagged exactly if the direct connection is blocked. Non-trivial: a pair of different coast lines in clear sight, and a blocked pair.";
    p.assumptions = {"polygons are simple and pairwise disjoint", "grazing connections (along a coast line, through a corner) are not required"};
    p.worker_init = [] { threads(1); };
    p.body = [](Src &s, Ctx &c) {
        draw_threads(s, c, 40);
        const auto sc = draw_scene(s, c, true, 60, 5000);
        const auto land = periodic(sc.rings);
        const auto ps = polys(sc.rings);
        const auto g = VisgraphGenerator::generate(ps);
        PBT_CHECK(g->get_polygons() == ps, "polygons", "the graph's polygons are not those it was generated from");
        const auto vs = corners(sc.rings);
        std::multiset<P> have;
        for (auto v : g->get_vertices()) have.insert(pt(v));
        PBT_CHECK(have == std::multiset<P>(vs.begin(), vs.end()), "vertices", "the graph's vertices are not the corners of the land");
        std::vector<size_t> ring;
        for (size_t i = 0; i < sc.rings.size(); ++i) ring.insert(ring.end(), sc.rings[i].size(), i);
        bool seen = false, blocked = false;
        const bool sample = vs.size() > 450; // too many pairs to judge them all
        for (size_t i = 0; i < vs.size(); ++i)
            for (size_t k = 0, all = sample ? std::min<size_t>(i, 12) : i; k < all; ++k) {
                const size_t j = sample ? s.coin() ? s.draw(i - 1) : i - 1 - s.draw(std::min<size_t>(i - 1, 30)) : k;
                const P a = vs[i], b = vs[j];
                const Vis d = land.classify(a, b);
                const bool ab = g->has_edge(co(a), co(b)), ba = g->has_edge(co(b), co(a));
                PBT_CHECK(ab == ba, "one-way", "the edge " << a << " - " << b << " exists in one direction only");
                if (ab)
                    PBT_CHECK(g->is_edge_meridian_crossing(co(a), co(b)) == g->is_edge_meridian_crossing(co(b), co(a)), "one-way-flag",
                              "the edge " << a << " - " << b << " is flagged in one direction only");
                if (d == CLEAR) {
                    seen |= ring[i] != ring[j];
                    PBT_CHECK(ab, "missing-edge", a << " and " << b << " see each other, but are not joined");
                    PBT_CHECK(!g->is_edge_meridian_crossing(co(a), co(b)), "flag",
                              a << " and " << b << " see each other directly, but the edge is flagged as crossing the antimeridian");
                    c.label("pair in direct sight");
                } else if (d == BLOCKED) {
                    blocked = true;
                    const Vis x = across(land, a, b);
                    c.label(std::string("pair blocked, over the antimeridian ") + vis_name(x));
                    if (x == CLEAR) {
                        PBT_CHECK(ab, "missing-edge-over-meridian", a << " and " << b << " see each other over the antimeridian, but are not joined");
                        PBT_CHECK(g->is_edge_meridian_crossing(co(a), co(b)), "flag",
                                  a << " and " << b << " see each other only over the antimeridian, but the edge is not flagged");
                    }
                } else
                    c.label("pair grazing or marginal");
            }
        c.nontrivial(seen && blocked);
    };
    return pbt_main(p, argc, argv);
}

// C01: no edge of a visibility graph crosses land.
#include "vis.hpp"
using namespace vis;

int main(int argc, char **argv) {
    Property p;
    p.id = "C01";
    p.quick_cases = 80000;
    p.thorough_cases = 3000000;
    p.rule = "Disjoint simple coast lines (grid and jittered polyominoes, star polygons; anywhere, against +-180, on both sides of the "
             "antimeridian, world-wide; up to 420 corners); every edge of the generated graph is compared with an exact brute-force "
             "visibility oracle. Non-trivial: at least one edge between corners of different coast lines, and some pair of corners without an edge.";
    p.assumptions = {"polygons are simple and pairwise disjoint", "legs within 3 microdegrees of a coast line are not decided"};
    p.worker_init = [] { threads(1); };
    p.body = [](Src &s, Ctx &c) {
        draw_threads(s, c, 40);
        const auto sc = draw_scene(s, c);
        const auto land = periodic(sc.rings);
        const auto g = VisgraphGenerator::generate(polys(sc.rings));
        const auto vs = corners(sc.rings);
        size_t edges = 0;
        std::map<P, size_t> ring_of;
        for (size_t i = 0; i < sc.rings.size(); ++i)
            for (auto v : sc.rings[i]) ring_of[v] = i;
        bool between = false;
        for (auto v : g->get_vertices()) {
            const P a = pt(v);
            PBT_CHECK(ring_of.count(a), "unknown-vertex", "the graph has a vertex " << a << " which is no corner of the land");
            for (auto w : g->get_neighbors(v)) {
                const P b = pt(w);
                PBT_CHECK(ring_of.count(b), "unknown-vertex", "the graph has a neighbour " << b << " which is no corner of the land");
                ++edges;
                between |= ring_of[a] != ring_of[b];
                const bool over = g->is_edge_meridian_crossing(v, w);
                const Vis k = over ? across(land, a, b) : land.classify(a, b);
                PBT_CHECK(k != BLOCKED, over ? "flagged-edge-through-land" : "edge-through-land",
                          "the edge " << a << " - " << b << (over ? " (over the antimeridian)" : "") << " passes through land");
                c.label(std::string(over ? "edge over the antimeridian: " : "edge: ") + vis_name(k));
            }
        }
        c.nontrivial(between && edges < vs.size() * (vs.size() - 1));
    };
    return pbt_main(p, argc, argv);
}

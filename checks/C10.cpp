// C10: a saved graph loads back unchanged.
#include "graphs.hpp"
#include "route.hpp"
#include "serialization/graph_serializer.hpp"
using namespace graphs;

namespace {
std::string slurp(const std::string &path) {
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}
} // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C10";
    p.quick_cases = 4500;
    p.thorough_cases = 400000;
    p.rule = "A history of up to six saves to one or two paths (new ones, ones with a longer or shorter file of other content, ones with the previous graph, whole or slightly changed), each followed by loading every path. Graphs have 0 to 180 (rarely up to 443) corners "
             "(all sizes modulo eight) with no, some or all edges, flags at random; one in four is the visibility graph of a generated map, with routes compared. Non-trivial: a graph with direct edges and edges over the antimeridian is saved, or a path is saved to again.";
    p.assumptions = {"graphs have the corners of their polygons as vertices and are undirected, as generated and merged ones are"};
    p.worker_init = [] { threads(1); };
    p.body = [](Src &s, Ctx &c) {
        draw_threads(s, c, 6);
        const std::string dir = scratch() + "/" + std::to_string(getpid());
        const std::string paths[2] = {dir + "-a.graph", dir + "-b.graph"}, again = dir + "-c.graph";
        for (auto &f : paths) unlink(f.c_str());
        std::shared_ptr<Graph> stored[2];
        Model model[2];
        G last;
        std::vector<std::pair<std::shared_ptr<Graph>, Model>> loaded; // graphs that were loaded stay as they are
        const int saves = 1 + (int)s.draw(s.chance(1, 2) ? 5 : 1);
        for (int k = 0; k < saves; ++k) {
            const int at = (int)s.draw(1);
            if (!stored[at] && s.chance(1, 3)) { // something else is there
                const size_t n = s.draw(s.coin() ? 40 : 20000);
                std::ofstream f(paths[at], std::ios::binary);
                for (size_t i = 0; i < n; ++i) f.put((char)mix(n + i));
                c.label("over other content");
            }
            if (stored[at]) {
                c.label("over a graph");
                c.nontrivial();
            }
            G g;
            std::vector<Ring> map;
            if (k && !last.order.empty() && s.chance(1, 3)) { // the last graph with a change or two: the file may be as long as it was
                g = make(last.g->get_polygons());
                for (auto &e : last.m.edges) {
                    for (const bool across : {false, true}) {
                        if (!(e.second & (across ? 2 : 1))) continue;
                        g.g->add_directed_edge(co(e.first.first), co(e.first.second), across);
                        g.m.add_directed(e.first.first, e.first.second, across);
                    }
                }
                for (int e = 1 + (int)s.draw(2); e > 0; --e) {
                    const P a = s.of(g.order), b = s.of(g.order);
                    if (g.m.edges.count({a, b})) {
                        g.g->remove_edge(co(a), co(b));
                        g.m.remove(a, b);
                    } else {
                        g.g->add_edge(co(a), co(b), false);
                        g.m.add(a, b, false);
                    }
                }
                c.label("the last graph, changed");
            } else if (s.chance(1, 4)) {
                scene::Opts o;
                o.max_vertices = 40;
                map = scene::generate(s, o).rings;
                g = make(polys(map));
                g.g = VisgraphGenerator::generate(polys(map));
                for (auto &a : g.order)
                    for (auto &b : points(g.g->get_neighbors(co(a)))) g.m.add_directed(a, b, g.g->is_edge_meridian_crossing(co(a), co(b)));
                c.label("visibility graph of a map");
            } else {
                const bool large = s.chance(1, 120); // more pairs of vertices than 16 bits can count
                const size_t n = large ? 363 + s.draw(80) : s.chance(1, 3) ? 30 + s.draw(150) : s.draw(30);
                if (large) c.label("more than 65536 pairs");
                g = make(polys(draw_rings(s, n)));
                const unsigned densities[] = {0, 8, 60, 128, 256};
                draw_edges(s, g, densities[s.pick({1, 2, 3, 2, 2})]);
                if (s.chance(1, 6) && !g.order.empty()) // re-flagged and removed edges
                    for (int e = 0; e < 8; ++e) {
                        const P a = s.of(g.order), b = s.of(g.order);
                        if (s.coin()) { g.g->remove_edge(co(a), co(b)); g.m.remove(a, b); }
                        const bool across = s.coin();
                        g.g->add_edge(co(a), co(b), across);
                        g.m.add(a, b, across);
                    }
            }
            size_t over = 0;
            for (auto &e : g.m.edges) over += e.second == 2;
            if (over && over < g.m.edges.size()) c.nontrivial();
            c.label(g.order.size() < 3 ? "no vertices" : over == 0 ? "no edge over the antimeridian" : over < g.m.edges.size() ? "edges of both kinds" : "all edges over the antimeridian");
            c.describe([&] { return (k ? "\nthen" : "") + std::string(" save to ") + (at ? "b" : "a") + ": " + str(g.m); });
            GraphSerializer::serialize_to_file(g.g, paths[at]);
            stored[at] = g.g;
            last = g;
            model[at] = g.m;
            check_graph(*g.g, g.m, "the graph that was saved"); // it is left as it was
            for (int q = 0; q < 2; ++q) {
                if (!stored[q]) continue;
                const auto back = GraphSerializer::deserialize_from_file(paths[q]);
                if (loaded.size() < 3) loaded.emplace_back(back, model[q]);
                check_graph(*back, model[q], "the loaded graph");
                PBT_CHECK(*back == *stored[q] && !(*back != *stored[q]), "unequal", "the loaded graph does not compare equal to the one saved");
                const auto a = stored[q]->get_polygons(), b = back->get_polygons();
                PBT_CHECK(a.size() == b.size(), "polygons", "the loaded graph has " << b.size() << " polygons, not " << a.size());
                for (size_t i = 0; i < a.size(); ++i)
                    PBT_CHECK(points(a[i].get_vertices()) == points(b[i].get_vertices()), "polygons", "polygon " << i << " of the loaded graph differs");
                another_heap();
                GraphSerializer::serialize_to_file(back, again);
                PBT_CHECK(slurp(again) == slurp(paths[q]), "bytes", "saving the loaded graph again writes other bytes");
                if (q == at && !map.empty()) { // the same routes
                    const paths::World w(map);
                    if (!w.valid_on_sphere) continue;
                    const ShortestPathComputer x(stored[q]), y(back);
                    for (int r = 0; r < 3; ++r) {
                        const P from{s.sym(MAXLON), s.sym(85000000)}, to = s.coin() ? P{s.sym(MAXLON), s.sym(85000000)} : s.of(w.verts);
                        const auto rx = route::ask(x, from, to), ry = route::ask(y, from, to);
                        PBT_CHECK(rx.path == ry.path && rx.error == ry.error, "routes", "from " << from << " to " << to << " the route is " << route::str(rx.path) << rx.error << ", on the loaded graph " << route::str(ry.path) << ry.error);
                    }
                }
            }
        }
        for (auto &l : loaded) check_graph(*l.first, l.second, "a graph that was loaded earlier");
        for (auto &f : paths) unlink(f.c_str());
        unlink(again.c_str());
    };
    return pbt_main(p, argc, argv);
}

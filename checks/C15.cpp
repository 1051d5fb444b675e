// C15: a graph overlay equals editing a copy, and leaves its base alone.
#include "graphs.hpp"
#include "route.hpp"
using namespace graphs;

namespace {
// One graph of a family: the base, overlays on it, overlays on these.
struct Node {
    std::shared_ptr<IGraph> g;
    Model m;
    std::shared_ptr<Graph> copy; // edited in the same way, but a graph of its own
    int parent = -1;
    bool frozen = false; // has overlays
    std::vector<P> order;
};
} // namespace

namespace {
// Route queries add their ends to an overlay of the graph: the graph itself stays as it is.
void queries(Src &s, Ctx &c) {
    const auto sc = route::draw_scene(s, c);
    const paths::World w(sc.rings);
    route::require_sphere(w);
    const auto g = VisgraphGenerator::generate(polys(sc.rings));
    Model m;
    for (auto &v : g->get_vertices()) {
        m.verts.insert(pt(v));
        for (auto &u : g->get_neighbors(v)) m.add_directed(pt(v), pt(u), g->is_edge_meridian_crossing(v, u));
    }
    const ShortestPathComputer spc(g);
    std::vector<std::pair<P, P>> asked;
    std::vector<route::Answer> first;
    for (int k = 0; k < 6; ++k) {
        P a = route::draw_end(s, sc, w).p, b = route::draw_end(s, sc, w).p;
        if (k && s.coin()) a = asked.back().second; // a chain: the end of the one is the start of the next
        asked.push_back({a, b});
        c.describe([&] { std::ostringstream os; os << "\n" << a << " -> " << b; return os.str(); });
        first.push_back(route::ask(spc, a, b, INFINITY, s.coin()));
        if (first.back().path.size() > 2) c.nontrivial();
    }
    check_graph(*g, m, "the graph after route queries");
    for (size_t k = 0; k < asked.size(); ++k) {
        const ShortestPathComputer fresh(g);
        const auto again = route::ask(fresh, asked[k].first, asked[k].second);
        PBT_CHECK(again.path == first[k].path && again.error == first[k].error, "influence", "after other queries the route from " << asked[k].first << " to " << asked[k].second << " was " << route::str(first[k].path) << first[k].error << ", alone it is " << route::str(again.path) << again.error);
    }
    c.label("route queries");
}
} // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C15";
    p.quick_cases = 200000;
    p.thorough_cases = 2000000;
    p.rule = "A base graph over 0 to 40 (rarely 200) corners with random directed edges; up to four overlays on it or on each other, side by side, edited in turns (up to 80 operations: adding and removing edges and directed edges, vertices) and compared, each with a map from ordered pairs to flags and with a plain graph "
             "which had the same edits; all the others must stay as they are. Non-trivial: an overlay removed an edge of its base or changed its flag, and has a vertex of its own with edges. One case in forty asks routes on a map's graph, which must not change and must answer as if asked alone.";
    p.assumptions = {"edges are added between vertices which the overlay has"};
    p.worker_init = [] { threads(1); };
    p.body = [](Src &s, Ctx &c) {
        if (s.chance(1, 40)) return queries(s, c);
        const bool big = s.chance(1, 500);
        G base = make(polys(draw_rings(s, big ? 50 + s.draw(150) : s.draw(s.chance(1, 4) ? 40 : 12))));
        for (int64_t k = s.draw(big ? 800 : 40); k > 0 && base.order.size() > 1; --k) {
            const P a = s.of(base.order), b = s.of(base.order);
            const bool over = s.coin();
            if (s.chance(1, 4)) {
                base.g->add_directed_edge(co(a), co(b), over);
                base.m.add_directed(a, b, over);
            } else {
                base.g->add_edge(co(a), co(b), over);
                base.m.add(a, b, over);
            }
        }
        c.describe([&] { return "base: " + str(base.m); });
        std::vector<Node> fam{{base.g, base.m, nullptr, -1, true, base.order}};
        const auto overlay = [&](int on) {
            fam[on].frozen = true;
            Node x;
            x.g = std::make_shared<ModifiedGraph>(fam[on].g);
            x.m = fam[on].m;
            x.order = fam[on].order;
            x.parent = on;
            x.copy = std::make_shared<Graph>(base.g->get_polygons());
            for (auto &v : x.m.verts) x.copy->add_vertex(co(v));
            for (auto &e : x.m.edges) {
                if (e.second & 1) x.copy->add_directed_edge(co(e.first.first), co(e.first.second), false);
                if (e.second & 2) x.copy->add_directed_edge(co(e.first.first), co(e.first.second), true);
            }
            fam.push_back(x);
            c.describe([&] { return "\noverlay " + std::to_string(fam.size() - 1) + " on " + std::to_string(on); });
        };
        overlay(0);
        bool changed_base = false, own_vertex = false;
        for (int64_t k = s.range(1, big ? 400 : s.chance(1, 3) ? 80 : 20); k > 0; --k) {
            if (fam.size() < 5 && s.chance(1, 15)) {
                overlay((int)s.draw(fam.size() - 1));
                continue;
            }
            std::vector<int> open;
            for (size_t i = 0; i < fam.size(); ++i)
                if (!fam[i].frozen) open.push_back((int)i);
            if (open.empty()) {
                overlay(0);
                continue;
            }
            const int at = s.of(open);
            auto &x = fam[at];
            const size_t op = s.pick({5, 4, 4, 3, 3});
            const auto pick = [&] { return s.chance(1, 3) ? x.order[x.order.size() - 1 - s.draw(std::min<size_t>(2, x.order.size() - 1))] : x.order[s.draw(std::min<size_t>(x.order.size() - 1, s.coin() ? 3 : 100))]; };
            if (op == 4 || x.order.empty()) {
                // vertices of its own; those of overlays side by side may be the same
                const P q = !x.order.empty() && s.chance(1, 4) ? s.of(x.order) : P{(int64_t)s.draw(5) * 1000, 81000000};
                c.describe([&] { std::ostringstream os; os << "\n" << at << ": add vertex " << q; return os.str(); });
                x.g->add_vertex(co(q));
                x.copy->add_vertex(co(q));
                if (x.m.verts.insert(q).second) x.order.push_back(q);
                continue;
            }
            const P a = pick(), b = pick();
            const bool over = s.coin();
            c.describe([&] { std::ostringstream os; os << "\n" << at << ": " << (op == 0 ? "add " : op == 1 ? "add directed " : op == 2 ? "remove " : "remove directed ") << a << " " << b << (op < 2 && over ? " over the antimeridian" : ""); return os.str(); });
            const auto &up = fam[x.parent].m;
            if (up.edge(a, b) && (op >= 2 || (!over && up.over(a, b)))) changed_base = true;
            if (op < 2 && a != b && (!up.has(a) || !up.has(b))) own_vertex = true;
            for (IGraph *g : {(IGraph *)x.g.get(), (IGraph *)x.copy.get()}) {
                if (op == 0) g->add_edge(co(a), co(b), over);
                if (op == 1) g->add_directed_edge(co(a), co(b), over);
                if (op == 2) g->remove_edge(co(a), co(b));
                if (op == 3) g->remove_directed_edge(co(a), co(b));
            }
            if (op == 0) x.m.add(a, b, over);
            if (op == 1) x.m.add_directed(a, b, over);
            if (op == 2) x.m.remove(a, b);
            if (op == 3) x.m.remove_directed(a, b);
            check_pair(*x.g, x.m, a, b, "after the operation");
            check_pair(*x.g, x.m, b, a, "after the operation");
            if (s.chance(1, 8)) check_vertex(*x.g, x.m, a, "in between");
        }
        for (size_t i = 0; i < fam.size(); ++i) {
            check_graph(*fam[i].g, fam[i].m, i ? "overlay " + std::to_string(i) : std::string("the base"));
            if (fam[i].copy) check_graph(*fam[i].copy, fam[i].m, "the copy edited like overlay " + std::to_string(i));
            PBT_CHECK(fam[i].g->get_polygons() == base.g->get_polygons(), "polygons", "overlay " << i << " has other polygons than its base");
            const P q{1, 89000000};
            PBT_CHECK(!fam[i].g->has_vertex(co(q)), "vertices", "has_vertex is true for " << q << ", which was never added");
        }
        if (changed_base) c.label("an edge of the base removed or made direct");
        if (own_vertex) c.label("an edge at a vertex of its own");
        if (fam.size() > 2) c.label("several overlays");
        c.nontrivial(changed_base && own_vertex);
    };
    return pbt_main(p, argc, argv);
}

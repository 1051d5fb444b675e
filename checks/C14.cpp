// C14: a graph answers as the set of edges put into it.
#include "graphs.hpp"
using namespace graphs;

int main(int argc, char **argv) {
    Property p;
    p.id = "C14";
    p.quick_cases = 250000;
    p.thorough_cases = 1500000;
    p.rule = "A history of up to 120 operations on a graph over 0 to 60 polygon corners (rarely 1500 operations over 400 corners): adding and removing edges and directed edges (self-edges and unknown ends too), adding vertices (again too), interleaved with queries; the whole graph is compared with a map from ordered pairs "
             "to flags in between and at the end. Non-trivial: at least two of adding a vertex, removing an edge which is there, and adding an edge with both flags happened.";
    p.worker_init = [] { threads(1); };
    p.body = [](Src &s, Ctx &c) {
        const bool big = s.chance(1, 800);
        const auto ps = polys(draw_rings(s, big ? 100 + s.draw(300) : s.draw(s.chance(1, 4) ? 60 : 15)));
        G g = ps.empty() && s.coin() ? G{std::make_shared<Graph>(), {}, {}} : make(ps);
        auto &m = g.m;
        auto &order = g.order;
        const auto unknown = [&] {
            P q{};
            do q = {s.sym(179999999), 81000000 + (int64_t)s.draw(8000000)};
            while (m.has(q));
            return q;
        };
        const auto pick = [&]() -> P {
            if (order.empty() || s.chance(1, 30)) return unknown();
            if (s.chance(1, 4)) return order[order.size() - 1 - s.draw(std::min<size_t>(3, order.size() - 1))]; // among the latest
            return order[s.draw(std::min<size_t>(order.size() - 1, s.coin() ? 4 : big ? 1000 : 100))];
        };
        const int64_t ops = s.range(1, big ? 1500 : s.chance(1, 3) ? 120 : 30);
        if (big) c.label("large graph");
        bool removed = false, both = false, added = false;
        for (int64_t k = 0; k < ops; ++k) {
            const size_t op = s.pick({6, 4, 3, 3, 2, 3});
            if (op == 4) {
                const P q = !order.empty() && s.chance(1, 4) ? s.of(order) : unknown();
                c.describe([&] { std::ostringstream os; os << "\nadd vertex " << q; return os.str(); });
                g.g->add_vertex(co(q));
                if (m.verts.insert(q).second) {
                    order.push_back(q);
                    added |= !m.edges.empty();
                }
                continue;
            }
            const P a = pick(), b = s.chance(1, 20) ? a : pick();
            const bool over = s.coin(), known = m.has(a) && m.has(b);
            c.describe([&] { std::ostringstream os; os << "\n" << (op == 0 ? "add " : op == 1 ? "add directed " : op == 2 ? "remove " : op == 3 ? "remove directed " : "query ") << a << " " << b << (op < 2 && over ? " over the antimeridian" : ""); return os.str(); });
            bool threw = false, edge = false, cross = false;
            try {
                if (op == 0) g.g->add_edge(co(a), co(b), over);
                if (op == 1) g.g->add_directed_edge(co(a), co(b), over);
                if (op == 2) g.g->remove_edge(co(a), co(b));
                if (op == 3) g.g->remove_directed_edge(co(a), co(b));
                if (op == 5) {
                    edge = g.g->has_edge(co(a), co(b));
                    cross = g.g->is_edge_meridian_crossing(co(a), co(b));
                }
            } catch (const std::runtime_error &) {
                threw = true;
            }
            if (!known && a != b) PBT_CHECK(threw, "unknown", "an operation on the unknown vertex " << (m.has(a) ? b : a) << " is accepted");
            if (known) {
                PBT_CHECK(!threw, "refused", "an operation on the vertices " << a << " and " << b << " is refused");
                removed |= (op == 2 || op == 3) && m.edge(a, b);
                if (op == 0) m.add(a, b, over);
                if (op == 1) m.add_directed(a, b, over);
                if (op == 2) m.remove(a, b);
                if (op == 3) m.remove_directed(a, b);
                both |= m.edge(a, b) && m.edges[{a, b}] == 3;
                if (op == 5) {
                    PBT_CHECK(edge == m.edge(a, b), "edge", "has_edge(" << a << "," << b << ") is " << edge);
                    PBT_CHECK(cross == m.over(a, b), "flag", "is_edge_meridian_crossing(" << a << "," << b << ") is " << cross);
                    check_vertex(*g.g, m, a, "in between");
                }
            }
            if (s.chance(1, 24)) check_graph(*g.g, m, "in between");
        }
        check_graph(*g.g, m, "at the end");
        // the vertices are the corners in the order of the polygons, and then the added ones
        PBT_CHECK(points(g.g->get_vertices()) == order, "order", "the vertices are not reported in the order in which they came");
        PBT_CHECK(g.g->get_polygons().size() == ps.size(), "polygons", "the graph has other polygons than it was made with");
        for (size_t i = 0; i < ps.size(); ++i) PBT_CHECK(g.g->get_polygons()[i] == ps[i], "polygons", "polygon " << i << " of the graph is not the one it was made with");
        const P q = unknown();
        PBT_CHECK(!g.g->has_vertex(co(q)), "vertices", "has_vertex is true for " << q << ", which was never added");
        bool threw = false;
        try { (void)g.g->get_neighbors(co(q)); } catch (const std::runtime_error &) { threw = true; }
        PBT_CHECK(threw, "unknown", "the neighbours of an unknown vertex are reported");
        if (removed) c.label("removed an edge");
        if (both) c.label("an edge both ways");
        if (added) c.label("added a vertex to a graph with edges");
        c.nontrivial(removed + both + added >= 2);
    };
    return pbt_main(p, argc, argv);
}

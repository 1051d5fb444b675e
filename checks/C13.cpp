// C13: merging graphs gives the union, in any order.
#include "graphs.hpp"
using namespace graphs;

#ifdef PBT_RACE
constexpr bool LARGE = false;
#else
constexpr bool LARGE = true;
#endif
int main(int argc, char **argv) {
    Property p;
    p.id = "C13";
    p.quick_cases = 12000;
    p.thorough_cases = 800000;
    p.replays = 40;
    p.schedules = true;
    p.rule = "One to eight graphs (rarely up to eighty, or of up to 400 corners) over overlapping, equal or disjoint choices of the same polygons (written down in other directions), with random edges and flags, also repeated ones, merged in several orders and groupings with one to sixteen threads; "
             "against the union of sets. Non-trivial: at least two graphs with edges share a pair of vertices.";
    p.assumptions = {"polygons which share a corner are the same polygon", "merged graphs are undirected, as generated ones are; of edges in one direction it is asked that they are in the merge, not that they lead one way there"};
    p.worker_init = [] { threads(1); };
    p.max_workers = 6;
    p.body = [](Src &s, Ctx &c) {
        const auto rings = draw_rings(s, LARGE && s.chance(1, 80) ? 200 + s.draw(200) : s.draw(s.chance(1, 5) ? 90 : 24));
        const auto all = polys(rings);
        std::vector<G> gs;
        const bool same = s.chance(1, 3);
        const bool many = LARGE && all.size() < 6 && s.chance(1, 60);
        for (int64_t k = many ? (s.coin() ? s.range(20, 80) : (int64_t)around_round_number(s, 130)) : s.range(1, 8); k > 0; --k) {
            if (!gs.empty() && s.chance(1, 6)) {
                gs.push_back(s.of(gs));
                continue;
            }
            std::vector<Polygon> ps;
            for (auto &q : all)
                if (same || s.chance(2, 3)) ps.push_back(q);
            s.shuffle(ps);
            G g = make(ps);
            if (s.chance(1, 6)) { // vertices of no polygon
                for (uint64_t k = s.range(1, 3); k > 0; --k) {
                    const P v{(int64_t)s.draw(5) * 1000, 88000000};
                    if (!g.m.verts.insert(v).second) continue;
                    g.g->add_vertex(co(v));
                    g.order.push_back(v);
                }
                c.label("with vertices of no polygon");
            }
            const unsigned densities[] = {0, 10, 60, 256};
            draw_edges(s, g, densities[s.pick({1, 3, 3, 2})]);
            gs.push_back(g);
        }
        c.describe([&] {
            std::string d;
            for (auto &g : gs) d += "a graph: " + str(g.m) + "\n";
            return d;
        });
        Model want;
        std::set<std::set<P>> want_polys;
        bool overlap = false;
        for (auto &g : gs) {
            want.verts.insert(g.m.verts.begin(), g.m.verts.end());
            for (auto &e : g.m.edges) {
                // an edge counts as direct if any of the graphs has it so
                const int kind = e.second == 2 ? 2 : 1;
                auto in = want.edges.insert({e.first, kind});
                overlap |= !in.second;
                in.first->second |= kind;
            }
            for (auto &q : g.g->get_polygons()) {
                const auto v = points(q.get_vertices());
                want_polys.insert(std::set<P>(v.begin(), v.end()));
            }
        }
        std::vector<std::shared_ptr<Graph>> in;
        for (auto &g : gs) in.push_back(g.g);
        const auto check = [&](const std::shared_ptr<Graph> &m, const std::string &what) {
            check_graph(*m, want, what);
            std::set<std::set<P>> got;
            for (auto &q : m->get_polygons()) {
                const auto v = points(q.get_vertices());
                got.insert(std::set<P>(v.begin(), v.end()));
            }
            PBT_CHECK(got == want_polys && m->get_polygons().size() == want_polys.size(), "polygons", what << " has " << m->get_polygons().size() << " polygons, there are " << want_polys.size() << " different ones");
        };
        const int th = s.chance(1, 3) ? (int)s.range(2, 16) : 1;
        threads(th);
        const auto m = merge_graphs(in);
        check(m, "the merge");
        if (in.size() == 1) PBT_CHECK(*m == *in[0], "single", "the merge of one graph does not compare equal to it");
        auto order = in;
        s.shuffle(order);
        if (s.coin()) order.push_back(s.of(order));
        const auto m2 = merge_graphs(order);
        check(m2, "the merge in another order");
        PBT_CHECK(*m2 == *m, "order", "merged in another order, or with one graph twice, the result does not compare equal");
        const size_t cut = s.draw(in.size());
        std::vector<std::shared_ptr<Graph>> left(in.begin(), in.begin() + (long)cut), right(in.begin() + (long)cut, in.end());
        std::vector<std::shared_ptr<Graph>> both;
        if (!left.empty()) both.push_back(merge_graphs(left));
        if (!right.empty()) both.push_back(merge_graphs(right));
        const auto m3 = merge_graphs(both);
        check(m3, "the merge of two merges");
        PBT_CHECK(*m3 == *m, "grouping", "merged in two groups, the result does not compare equal");
        check(merge_graphs({m, m}), "the merge of the merge with itself");
        for (auto &g : gs) check_graph(*g.g, g.m, "a graph that was merged");
        if (!all.empty() && s.chance(1, 3)) { // edges in one direction: they are in the union in that direction at least
            auto more = in;
            auto joined = want.edges; // either way, and how
            std::vector<std::pair<P, P>> put;
            for (int64_t k = s.range(1, 2); k > 0; --k) {
                std::vector<Polygon> ps;
                for (auto &q : all)
                    if (s.chance(2, 3)) ps.push_back(q);
                G g = make(ps);
                if (g.order.size() < 2) continue;
                for (int64_t e = s.range(1, 20); e > 0; --e) {
                    const P a = s.of(g.order), b = s.of(g.order);
                    if (a == b) continue;
                    const bool over = s.coin();
                    g.g->add_directed_edge(co(a), co(b), over);
                    put.push_back({a, b});
                    for (auto &way : {std::make_pair(a, b), std::make_pair(b, a)}) joined[way] |= over ? 2 : 1;
                }
                more.push_back(g.g);
            }
            s.shuffle(more);
            const auto md = merge_graphs(more);
            for (auto &e : put) {
                PBT_CHECK(md->has_edge(co(e.first), co(e.second)), "directed", "an edge from " << e.first << " to " << e.second << " is lost in the merge");
                PBT_CHECK(md->is_edge_meridian_crossing(co(e.first), co(e.second)) == (joined[e] == 2), "directed", "the edge from " << e.first << " to " << e.second << " has the wrong flag in the merge");
            }
            for (auto &v : want.verts)
                for (auto &n : md->get_neighbors(co(v))) PBT_CHECK(joined.count({v, pt(n)}), "directed", "the merge joins " << v << " and " << pt(n) << ", which no graph does");
            c.label("with edges in one direction", put.size());
        }
        if (!all.empty() && s.chance(1, 2)) { // what happens to one of them later does not change the others
            const auto &mine = s.of(gs);
            const bool one = s.coin();
            const auto fresh = one ? merge_graphs({mine.g}) : merge_graphs(in);
            std::set<P> vs = one ? mine.m.verts : want.verts;
            const std::vector<P> pool(vs.begin(), vs.end());
            for (int e = 0; e < 4 && !pool.empty(); ++e) {
                const P a = s.of(pool), b = s.of(pool);
                if (s.coin()) fresh->add_edge(co(a), co(b), s.coin());
                else fresh->remove_edge(co(a), co(b));
            }
            fresh->add_vertex(Coordinate(12345, 89000000));
            for (auto &g : gs) check_graph(*g.g, g.m, "a graph whose merge was changed");
            check(m, "a merge, after another one was changed");
            const auto kept = one ? merge_graphs({mine.g}) : nullptr;
            for (auto &v : mine.order)
                for (auto &n : mine.g->get_neighbors(co(v))) mine.g->remove_edge(co(v), n);
            check(m, "a merge, after one of the merged graphs was changed");
            if (kept) check_graph(*kept, mine.m, "the merge of a graph which was changed then");
            c.label("changed afterwards");
        }
        c.label(overlap ? "edges in common" : "no edges in common");
        c.label(th == 1 ? "one thread" : "several threads");
        c.nontrivial(overlap);
    };
    return pbt_main(p, argc, argv);
}

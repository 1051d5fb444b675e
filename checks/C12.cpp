// C12: graphs of split vertex ranges merge to the whole graph.
#include "graphs.hpp"
#include "vis.hpp"
#include "visgraph/visgraph_generator.hpp"
using namespace graphs;

int main(int argc, char **argv) {
    Property p;
    p.id = "C12";
    p.replays = 10;
    p.schedules = true;
    p.quick_cases = 16000;
    p.thorough_cases = 400000;
    p.rule = "A generated map (up to hundreds of corners), a seed and one to twelve cuts of the range of corners (repeated cuts give empty parts; sometimes one part per corner). The parts are generated with one to eight threads, compared with the whole pair by pair, "
             "merged in a random order, and the merge compared with the graph generated at once; parts of different seeds and improper ranges too. Non-trivial: at least two parts have edges.";
    p.assumptions = {"polygons are simple and pairwise disjoint"};
    p.worker_init = [] { threads(1); };
    p.body = [](Src &s, Ctx &c) {
        const auto sc = vis::draw_scene(s, c);
        const auto ps = polys(sc.rings);
        const size_t n = sc.vertices();
        threads(1);
        const auto whole = VisgraphGenerator::generate(ps);
        std::vector<size_t> cuts{0, n};
        if (n <= 40 && s.chance(1, 8)) for (size_t i = 1; i < n; ++i) cuts.push_back(i);
        else for (int64_t k = s.range(1, s.chance(1, 25) ? 70 : 12); k > 0; --k) cuts.push_back(s.draw(n));
        std::sort(cuts.begin(), cuts.end());
        const unsigned seed = s.chance(1, 6) ? (unsigned)(s.coin() ? 0u : 4294967295u) : (unsigned)s.draw(1000000);
        const int th = s.chance(1, 4) ? (int)s.range(2, 8) : 1;
        c.describe([&] {
            std::ostringstream os;
            os << "\nseed " << seed << ", " << th << " threads, cut at";
            for (auto k : cuts) os << " " << k;
            return os.str();
        });
        threads(th);
        std::vector<std::shared_ptr<Graph>> parts;
        std::map<std::pair<P, P>, bool> want, got;
        for (auto &v : whole->get_vertices())
            for (auto &u : whole->get_neighbors(v)) want[{pt(v), pt(u)}] = whole->is_edge_meridian_crossing(v, u);
        int with_edges = 0;
        for (size_t i = 0; i + 1 < cuts.size(); ++i) {
            const auto g = VisgraphGenerator::generate_with_shuffled_range(ps, cuts[i], cuts[i + 1], seed);
            size_t edges = 0;
            PBT_CHECK(g->get_vertices().size() == n, "vertices", "the part from " << cuts[i] << " to " << cuts[i + 1] << " has " << g->get_vertices().size() << " of " << n << " vertices");
            for (auto &v : g->get_vertices())
                for (auto &u : g->get_neighbors(v)) {
                    ++edges;
                    const auto it = want.find({pt(v), pt(u)});
                    PBT_CHECK(it != want.end(), "extra", "the part from " << cuts[i] << " to " << cuts[i + 1] << " has the edge " << pt(v) << "-" << pt(u) << ", the whole graph has not");
                    const bool over = g->is_edge_meridian_crossing(v, u);
                    const auto in = got.insert({{pt(v), pt(u)}, over});
                    in.first->second = in.first->second && over;
                    // a pair which sees each other both ways may be found one way in this part, and the other way in another one
                    PBT_CHECK(over == it->second || (over && !it->second), "flag", "the edge " << pt(v) << "-" << pt(u) << " crosses the antimeridian in the whole graph, but not in the part from " << cuts[i] << " to " << cuts[i + 1]);
                }
            PBT_CHECK(cuts[i] != cuts[i + 1] || edges == 0, "empty", "the empty part at " << cuts[i] << " has edges");
            with_edges += edges > 0;
            parts.push_back(g);
        }
        PBT_CHECK(got == want, "parts", "together the parts have " << got.size() << " directed edges, the whole graph has " << want.size() << ", or their flags differ");
        s.shuffle(parts);
        const auto merged = merge_graphs(parts);
        PBT_CHECK(*merged == *whole, "merge", "the merge of the parts is not the whole graph");
        PBT_CHECK(merged->get_polygons().size() == ps.size(), "polygons", "the merge has " << merged->get_polygons().size() << " polygons, not " << ps.size());
        // the same part again, with another number of threads
        const size_t i = s.draw(cuts.size() - 2);
        threads(th == 1 ? 3 : 1);
        const auto g1 = VisgraphGenerator::generate_with_shuffled_range(ps, cuts[i], cuts[i + 1], seed), g2 = VisgraphGenerator::generate_with_shuffled_range(ps, cuts[i], cuts[i + 1], seed);
        PBT_CHECK(*g1 == *g2, "repeated", "the part from " << cuts[i] << " to " << cuts[i + 1] << " is not the same when it is generated again");
        PBT_CHECK(*VisgraphGenerator::generate_with_shuffled_range(ps, 0, n, seed + 1) == *whole, "full-range", "the part which is the full range is not the whole graph");
        const auto refused = [&](size_t from, size_t to) {
            try {
                (void)VisgraphGenerator::generate_with_shuffled_range(ps, from, to, seed);
                return false;
            } catch (const std::runtime_error &) {
                return true;
            }
        };
        const size_t past = n + 1 + s.draw(5), lo = s.draw(n - 1);
        PBT_CHECK(refused(lo, past), "range", "the range from " << lo << " to " << past << " of " << n << " corners is not refused");
        PBT_CHECK(refused(past, past), "range", "the range from " << past << " to " << past << " of " << n << " corners is not refused");
        PBT_CHECK(refused(lo + 1, lo), "range", "the range from " << lo + 1 << " to " << lo << " is not refused");
        c.label(std::to_string(cuts.size() > 5 ? 5 : cuts.size() - 1) + (cuts.size() > 5 ? " or more parts" : " parts"));
        c.nontrivial(with_edges > 1);
    };
    return pbt_main(p, argc, argv);
}

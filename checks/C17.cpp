// C17: generation and routing do not depend on threads or chance.
#include "graphs.hpp"
#include "route.hpp"
using namespace graphs;

// A map with as many corners as another one and some of them in the same places, to come in between: every ring begins elsewhere, the last corner
// is the one which the other map begins with, and a ring has been moved or turned over where there is room.
static std::vector<Ring> sibling(Src &s, std::vector<Ring> rings) {
    const P begin = rings[0][0];
    std::reverse(rings.begin(), rings.end());
    for (auto &r : rings) {
        const auto at = std::find(r.begin(), r.end(), begin);
        std::rotate(r.begin(), at == r.end() ? r.begin() + (long)s.range(0, (int64_t)r.size() - 1) : at + 1, r.end());
    }
    size_t n = 0;
    for (auto &r : rings) n += r.size();
    for (int tries = 0; tries < 6 && n <= 120; ++tries) {
        const size_t k = s.range(0, (int64_t)rings.size() - 1);
        Ring moved = rings[k];
        const P about = s.of(moved);
        const int how = (int)s.range(0, 2);
        const int64_t span = (int64_t)1 << s.range(10, 26);
        const int64_t dx = how == 2 ? s.range(-span, span) : 0, dy = how == 2 ? s.range(-span, span) : 0;
        for (auto &p : moved) {
            if (how != 1) p.x = 2 * about.x - p.x;
            if (how != 0) p.y = 2 * about.y - p.y;
            p.x += dx, p.y += dy;
        }
        bool fits = std::all_of(moved.begin(), moved.end(), [](P p) { return std::abs(p.x) < 179000000 && std::abs(p.y) <= 85000000; });
        for (size_t i = 0; fits && i < rings.size(); ++i)
            if (i != k) fits = disjoint_rings(rings[i], moved);
        if (fits) {
            rings[k] = moved;
            break;
        }
    }
    return rings;
}
static std::string scene_str(const std::vector<Ring> &rings) {
    std::ostringstream os;
    for (auto &r : rings) {
        os << "\n  [";
        for (auto &p : r) os << p;
        os << "]";
    }
    return os.str();
}

int main(int argc, char **argv) {
    Property p;
    p.id = "C17";
    p.quick_cases = 5000;
    p.thorough_cases = 300000;
    p.replays = 40;
    p.schedules = true;
    p.max_workers = 6;
    p.case_wall_limit_s = 120;
    p.rule = "A generated map (up to hundreds of corners); its graph is generated with one thread, and again with two to sixteen, with the polygons in another order, repeatedly, within a parallel region, and after the graph of another map with as many corners, some of them the same; pairs and flags are compared one by one. "
             "Then routes are asked of each of these graphs, repeatedly, in turns with those of the other map, and in batches of different thread counts. Non-trivial: more than ten edges, and a route over corners.";
    p.assumptions = {"polygons are simple and pairwise disjoint", "where several routes are equally long, graphs whose polygons are in another order may give another one of them"};
    p.body = [](Src &s, Ctx &c) {
        auto sc = vis::draw_scene(s, c);
        auto ps = polys(sc.rings);
        threads(1);
        const auto one = VisgraphGenerator::generate(ps);
        Model m;
        for (auto &v : one->get_vertices()) {
            m.verts.insert(pt(v));
            for (auto &u : one->get_neighbors(v)) m.add_directed(pt(v), pt(u), one->is_edge_meridian_crossing(v, u));
        }
        std::vector<std::shared_ptr<Graph>> graphs{one};
        const int th = (int)s.range(2, 16);
        threads(th);
        for (int k = 0; k < 2; ++k) {
            another_heap();
            const auto g = VisgraphGenerator::generate(ps);
            check_graph(*g, m, "generated with " + std::to_string(th) + " threads");
            PBT_CHECK(*g == *one, "unequal", "generated with " << th << " threads, the graph does not compare equal to the one generated with one");
            graphs.push_back(g);
        }
        // one after another: the graph of another map must leave nothing behind
        const auto other_map = sibling(s, sc.rings);
        const auto other_ps = polys(other_map);
        threads(s.coin() ? 1 : th);
        const auto other_graph = VisgraphGenerator::generate(other_ps);
        another_heap();
        const auto after = VisgraphGenerator::generate(ps);
        check_graph(*after, m, "generated after the graph of another map");
        const auto other_again = VisgraphGenerator::generate(other_ps);
        PBT_CHECK(*other_again == *other_graph, "unequal", "the graph of a second map is not the same when it is generated again:" << scene_str(other_map));
        graphs.push_back(after);
#ifndef PBT_RACE
        // within a parallel region, where fewer threads take part than usual, and several at a time
        std::shared_ptr<Graph> within[3];
        threads(s.coin() ? 3 : th);
#pragma omp parallel for num_threads(3) schedule(static, 1) shared(within, ps, other_ps) default(none)
        for (int k = 0; k < 3; ++k) within[k] = VisgraphGenerator::generate(k == 1 ? other_ps : ps);
        check_graph(*within[0], m, "generated within a parallel region");
        PBT_CHECK(*within[0] == *one && *within[2] == *one && *within[1] == *other_graph, "unequal", "generated within a parallel region, a graph does not compare equal:" << scene_str(other_map));
#endif
        auto mixed = ps;
        s.shuffle(mixed);
        threads(s.coin() ? 1 : th);
        const auto g = VisgraphGenerator::generate(mixed);
        check_graph(*g, m, "generated from the polygons in another order");
        PBT_CHECK(*g == *one, "unequal", "generated from the polygons in another order, the graph does not compare equal");
        const paths::World w(sc.rings);
        if (!w.valid_on_sphere) return;
        std::vector<std::pair<Coordinate, Coordinate>> batch;
        std::vector<route::Answer> first;
        const ShortestPathComputer spc(one);
        bool corners = false;
        for (int k = 0; k < 6; ++k) {
            const P a = route::draw_end(s, sc, w).p, b = route::draw_end(s, sc, w).p;
            batch.push_back({co(a), co(b)});
            first.push_back(route::ask(spc, a, b));
            corners |= first.back().path.size() > 2;
        }
        const ShortestPathComputer elsewhere(other_graph);
        std::vector<route::Answer> first_elsewhere;
        const auto ask_elsewhere = [&] {
            const bool known = !first_elsewhere.empty();
            for (size_t k = 0; k < batch.size(); ++k) {
                const auto a = route::ask(elsewhere, pt(batch[k].first), pt(batch[k].second));
                if (!known) first_elsewhere.push_back(a);
                PBT_CHECK(a.path == first_elsewhere[k].path && a.error == first_elsewhere[k].error, "route", "asked again of a second map, the route from " << pt(batch[k].first) << " to " << pt(batch[k].second) << " is " << route::str(a.path) << a.error << ", and it was " << route::str(first_elsewhere[k].path) << first_elsewhere[k].error << ":" << scene_str(other_map));
            }
        };
        for (size_t i = 0; i < graphs.size(); ++i) {
            another_heap();
            ask_elsewhere();
            const ShortestPathComputer other(graphs[i]);
#ifdef PBT_RACE // S2 builds its index on the first query, in ways which ThreadSanitizer does not see through
            (void)route::ask(other, pt(batch[0].first), pt(batch[0].second));
#endif
            threads(i == 0 ? th : (int)s.range(1, 16));
            const auto all = other.shortest_paths(batch);
            PBT_CHECK(all.size() == batch.size(), "batch", "a batch of " << batch.size() << " has " << all.size() << " results");
            for (size_t k = 0; k < batch.size(); ++k) {
                const auto again = route::ask(i == 0 ? spc : other, pt(batch[k].first), pt(batch[k].second));
                PBT_CHECK(again.path == first[k].path && again.error == first[k].error, "route", "asked again, the route from " << pt(batch[k].first) << " to " << pt(batch[k].second) << " is " << route::str(again.path) << again.error << ", and it was " << route::str(first[k].path) << first[k].error);
                PBT_CHECK(all[k].path.has_value() == first[k].error.empty() && (!all[k].path.has_value() || points(*all[k].path) == first[k].path), "route", "in a batch, the route from " << pt(batch[k].first) << " to " << pt(batch[k].second) << " is not " << route::str(first[k].path) << first[k].error);
            }
        }
        c.label(std::to_string(th) + " threads");
        c.nontrivial(corners && m.edges.size() > 20);
    };
    return pbt_main(p, argc, argv);
}

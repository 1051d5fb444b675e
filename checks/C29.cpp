// C29: no valid use causes undefined behaviour or a hang.
#include "graphs.hpp"
#include "route.hpp"
#include "serialization/graph_serializer.hpp"
using namespace graphs;

namespace {
P globe(Src &s) {
    if (s.chance(1, 4)) return {(s.coin() ? 1 : -1) * (MAXLON - (int64_t)s.draw(2)), s.sym(90000000)};
    if (s.chance(1, 6)) return {s.sym(MAXLON), (s.coin() ? 1 : -1) * (90000000 - (int64_t)s.draw(2))};
    return {s.sym(MAXLON), s.sym(90000000)};
}
P onto(P p) { return {std::clamp<int64_t>(p.x, -MAXLON, MAXLON), std::clamp<int64_t>(p.y, -90000000, 90000000)}; }
// Land of any shape, not necessarily sensible.
std::vector<Ring> draw_any(Src &s, Ctx &c) {
    std::vector<Ring> rings;
    const size_t kind = s.pick({4, 2, 3, 1, 2, 2});
    const char *names[] = {"map", "big map or thin", "any polygons", "no land", "map with shapes added", "degenerate"};
    c.label(std::string("land: ") + names[kind]);
    if (kind == 0 || kind == 1 || kind == 4) {
        scene::Opts o;
        o.max_lat = 90000000;
        o.min_unit = 64;
        if (kind == 1) o = scene::big(o);
        if (kind == 4) o.max_vertices = 30;
        rings = kind == 1 && s.coin() ? vis::draw_thin(s, c).rings : scene::generate(s, o).rings;
    }
    if (kind == 2 || kind == 4 || kind == 5) {
        std::vector<P> pool;
        for (auto &r : rings) pool.insert(pool.end(), r.begin(), r.end());
        const int64_t size = (int64_t)std::exp(std::log(360e6) * (double)s.draw(1000) / 1000.0);
        const P o = globe(s);
        for (uint64_t k = s.range(1, 5); k > 0; --k) {
            Ring r;
            for (uint64_t n = s.draw(kind == 5 ? 5 : 12); n > 0; --n) {
                P p;
                switch (s.pick({3, 1, 2, 1, 1})) {
                case 0: p = o + P{s.sym(size), s.sym(size)}; break;
                case 1: p = globe(s); break;
                case 2: p = pool.empty() ? o : s.of(pool); break; // shared corners
                case 3: p = r.empty() ? o : P{r.back().x, (o + P{0, s.sym(size)}).y}; break;
                default: p = r.empty() ? o : s.of(r) + P{s.sym(1), s.sym(1)};
                }
                r.push_back(onto(p));
                pool.push_back(r.back());
            }
            if (kind == 5 && !r.empty() && s.coin()) { // on one line
                const P u{s.sym(1000), s.sym(1000)};
                for (auto &p : r) p = onto(r[0] + P{u.x * s.sym(1000), u.y * s.sym(1000)});
            }
            rings.push_back(r);
        }
        if (s.chance(1, 4) && !rings.empty()) rings.push_back(s.of(rings)); // twice the same
    }
    return rings;
}
double number(Src &s) {
    switch (s.pick({3, 2, 1, 1, 1, 1, 1})) {
    case 0: return (double)s.draw(40000) / 100.0;
    case 1: return INFINITY;
    case 2: return 0;
    case 3: return -(double)s.draw(1000) / 10.0;
    case 4: return 1e300;
    case 5: return 1e-300;
    default: return std::nan("");
    }
}
} // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C29";
    p.quick_cases = 9000;
    p.thorough_cases = 600000;
    p.case_wall_limit_s = 240;
    p.rule = "Land (maps up to hundreds of corners, thin and world-wide polygons, polygons at the poles and the antimeridian, overlapping, touching, repeated, self-intersecting, degenerate ones, none) and a session of up to ten calls over it: generation in whole and in parts, lines of sight, "
             "routes alone and in batches with any limits and weightings (negative, zero, infinite, none), saving, loading, merging, edits and queries of graphs, with one to eight threads, under AddressSanitizer and UndefinedBehaviorSanitizer. Any return or raised error is accepted. Non-trivial: a session that generated a graph with edges and asked for a route.";
    p.assumptions = {"coordinates of polygons are on the globe, those of queries within four turns"};
    p.body = [](Src &s, Ctx &c) {
        const auto rings = draw_any(s, c);
        c.describe([&] {
            std::ostringstream os;
            os << rings.size() << " polygons:";
            for (auto &r : rings) os << "\n [" << route::str(r) << "]";
            return os.str();
        });
        const auto ps = polys(rings);
        std::vector<P> pool;
        for (auto &r : rings) pool.insert(pool.end(), r.begin(), r.end());
        const auto point = [&]() -> P {
            P q = pool.empty() || s.chance(1, 4) ? globe(s) : s.of(pool);
            if (s.chance(1, 3)) q = q + P{s.sym(3), s.sym(3)};
            if (s.chance(1, 3) && !pool.empty()) { const P r = s.of(pool); q = {(q.x + r.x) / 2, (q.y + r.y) / 2}; }
            q = onto(q);
            if (s.chance(1, 6)) q.x += PERIOD * s.sym(4);
            return q;
        };
        std::vector<std::shared_ptr<Graph>> graphs;
        bool routed = false;
        threads(s.chance(1, 4) ? (int)s.range(2, 8) : 1);
        const std::string path = scratch() + "/session" + std::to_string(getpid()) + ".graph";
        const auto attempt = [&](const std::string &what, auto &&f) {
            c.describe([&] { return "\n" + what; });
            try {
                f();
                c.label(what);
            } catch (const std::exception &e) {
                PBT_CHECK(e.what() && *e.what(), "silent", what << " raised an error without a message");
                c.label(what + ": error");
            }
        };
        attempt("generate", [&] { graphs.push_back(VisgraphGenerator::generate(ps)); });
        for (uint64_t k = 1 + s.draw(9); k > 0; --k) {
            switch (s.pick({5, 4, 3, 2, 2, 2, 1, 2})) {
            case 0:
                if (graphs.empty()) break;
                attempt("route", [&] {
                    const ShortestPathComputer spc(s.of(graphs));
                    for (int i = 0; i < 3; ++i) {
                        const P a = point(), b = point();
                        const double limit = number(s), weight = s.coin() ? 1.0 : number(s);
                        const bool fix = s.coin();
                        c.describe([&] { std::ostringstream os; os << " " << a << "->" << b << " limit " << limit << (fix ? " corrected" : "") << " weight " << weight; return os.str(); });
                        try {
                            const auto r = spc.shortest_path(co(a), co(b), limit, fix, weight);
                            PBT_CHECK(r.size() == 1 || r.size() >= 2, "empty", "an empty route");
                            routed = true;
                        } catch (const std::runtime_error &e) { c.label("route: error"); }
                    }
                });
                break;
            case 1:
                attempt("lines of sight", [&] {
                    const VistreeGenerator g(s.coin() ? make_polygons_periodic(ps) : ps);
                    for (int i = 0; i < 3; ++i) (void)g.get_visible_vertices(co(onto(point())), s.coin());
                });
                break;
            case 2:
                if (graphs.empty()) break;
                attempt("batch", [&] {
                    const ShortestPathComputer spc(s.of(graphs));
                    std::vector<std::pair<Coordinate, Coordinate>> q;
                    for (uint64_t i = s.draw(8); i > 0; --i) q.push_back({co(point()), co(point())});
                    const auto r = spc.shortest_paths(q, number(s), s.coin(), number(s));
                    PBT_CHECK(r.size() == q.size(), "batch", "a batch of " << q.size() << " has " << r.size() << " results");
                });
                break;
            case 3: {
                const size_t n = (size_t)s.draw(pool.size() + 3), m = (size_t)s.draw(pool.size() + 3);
                attempt("part", [&] { graphs.push_back(VisgraphGenerator::generate_with_shuffled_range(ps, n, m, (unsigned)s.draw(UINT32_MAX))); });
                break;
            }
            case 4:
                if (graphs.empty()) break;
                attempt("save and load", [&] {
                    GraphSerializer::serialize_to_file(s.of(graphs), path);
                    graphs.push_back(GraphSerializer::deserialize_from_file(path));
                });
                break;
            case 5: attempt("merge", [&] { graphs.push_back(merge_graphs(graphs)); }); break;
            case 6: attempt("merge nothing", [&] { graphs.push_back(merge_graphs({})); }); break;
            default:
                if (graphs.empty()) break;
                attempt("edit and query", [&] {
                    const auto g = s.of(graphs);
                    for (int i = 0; i < 6; ++i) {
                        const auto vs = g->get_vertices();
                        const auto vertex = [&] { return vs.empty() || s.chance(1, 6) ? co(point()) : s.of(vs); };
                        const Coordinate a = vertex(), b = vertex();
                        try {
                            (void)g->has_vertex(a);
                            switch (s.draw(6)) {
                            case 4: (void)g->has_edge(a, b); break;
                            case 5: (void)g->is_edge_meridian_crossing(a, b); break;
                            case 0: g->add_edge(a, b, s.coin()); break;
                            case 1: g->remove_edge(a, b); break;
                            case 2: (void)g->get_neighbors(a); break;
                            case 3: g->add_vertex(a); break;
                            default: (void)(*g == *s.of(graphs)); (void)g->to_string_representation();
                            }
                        } catch (const std::exception &) { c.label("edit: error"); }
                    }
                });
            }
        }
        unlink(path.c_str());
        size_t edges = 0;
        if (!graphs.empty())
            for (auto &v : graphs[0]->get_vertices()) edges += graphs[0]->get_neighbors(v).size();
        c.nontrivial(edges > 0 && routed);
    };
    return pbt_main(p, argc, argv);
}

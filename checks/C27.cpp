// C27: graphs are equal exactly if their vertices and edges are.
#include "graphs.hpp"
#include <random>
using namespace graphs;

namespace {
// Points whose hash is the same as that of p, if there are any nearby (the hash mixes the two coordinates with an exclusive or).
std::vector<P> twins(P p) {
    std::vector<P> r;
    const size_t h = std::hash<Coordinate>()(co(p));
    for (int64_t dx = -400; dx <= 400 && r.size() < 3; ++dx)
        for (int64_t dy = -40; dy <= 40; ++dy) {
            const P q{p.x + dx, p.y + dy};
            if (q != p && std::abs(q.x) <= MAXLON && std::hash<Coordinate>()(co(q)) == h) r.push_back(q);
        }
    return r;
}
} // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C27";
    p.quick_cases = 30000;
    p.thorough_cases = 2000000;
    p.rule = "A graph over 0 to 40 (rarely 300) corners with random edges and flags; a second one with the same vertices and edges by another history (polygons and vertices in another order and direction, edges in another order, directed and undirected, detours over edges which are removed again); "
             "then one that differs in one directed edge, one flag, or one vertex. One case in three has vertices with equal hashes. Non-trivial: at least two edges.";
    p.worker_init = [] { threads(1); };
    p.body = [](Src &s, Ctx &c) {
        draw_threads(s, c, 40);
        const bool big = s.chance(1, 250);
        auto rings = draw_rings(s, big ? 100 + s.draw(200) : s.draw(s.chance(1, 4) ? 40 : 12));
        std::vector<P> loose; // vertices of no polygon
        for (int64_t k = s.draw(4); k > 0; --k) loose.push_back({s.sym(MAXLON), 85000000 + (int64_t)s.draw(4000000)});
        bool collide = false;
        if (s.chance(1, 3)) {
            const P q{s.sym(170000000), 84000000 + (int64_t)s.draw(500000)};
            for (auto &t : twins(q)) { loose.push_back(t); collide = true; }
            if (collide) loose.push_back(q);
        }
        std::sort(loose.begin(), loose.end());
        loose.erase(std::unique(loose.begin(), loose.end()), loose.end());
        const auto build = [&](std::vector<Ring> rs, std::vector<P> extra) {
            G g = make(polys(rs));
            for (auto &q : extra) {
                g.g->add_vertex(co(q));
                g.m.verts.insert(q);
                g.order.push_back(q);
            }
            return g;
        };
        G a = build(rings, loose);
        const unsigned dens = (unsigned)s.draw(big ? 30 : 256);
        std::mt19937_64 rnd(big ? s.draw(1000000) : 0);
        if (big) c.label("large graphs");
        for (auto &u : a.order)
            for (auto &v : a.order) {
                if (u == v) continue;
                const uint64_t x = big ? rnd() & 1023 : s.draw(1023);
                if (x % 256 > dens) continue;
                a.g->add_directed_edge(co(u), co(v), x >= 512);
                a.m.add_directed(u, v, x >= 512);
            }
        c.describe([&] { return str(a.m) + (collide ? ", with equal hashes" : ""); });
        // the same by another history
        const auto other_history = [&](const Model &target) {
            auto rs = rings;
            auto ex = loose;
            s.shuffle(rs);
            s.shuffle(ex);
            for (auto &r : rs) {
                if (s.coin()) std::reverse(r.begin(), r.end());
                std::rotate(r.begin(), r.begin() + (long)s.draw(r.size() - 1), r.end());
            }
            G b = build(rs, ex);
            std::vector<std::pair<std::pair<P, P>, int>> es(target.edges.begin(), target.edges.end());
            s.shuffle(es);
            for (auto &e : es) {
                const P u = e.first.first, v = e.first.second;
                if (s.chance(1, 8)) { // a detour
                    const P x = s.of(b.order);
                    if (!b.m.edge(u, x) && !b.m.edge(x, u)) { b.g->add_edge(co(u), co(x), s.coin()); b.g->remove_edge(co(u), co(x)); }
                }
                if (e.second & 2) b.g->add_directed_edge(co(u), co(v), true);
                if (e.second & 1) b.g->add_directed_edge(co(u), co(v), false);
                if (e.second & 1 && s.chance(1, 4)) b.g->add_directed_edge(co(u), co(v), s.coin());
                b.m.edges[e.first] = e.second;
            }
            return b;
        };
        const G b = other_history(a.m);
        check_graph(*b.g, a.m, "the second graph");
        PBT_CHECK(*a.g == *b.g && *b.g == *a.g, "unequal", "two graphs with the same vertices and edges do not compare equal");
        PBT_CHECK(!(*a.g != *b.g), "unequal", "operator != holds for two equal graphs");
        PBT_CHECK(a.g->to_string_representation() == b.g->to_string_representation(), "text", "two equal graphs print differently");
        PBT_CHECK(*a.g == *a.g, "self", "a graph does not compare equal to itself");
        // different
        const auto differ = [&](const Graph &x, const Graph &y, const std::string &how) {
            PBT_CHECK(x != y && y != x && !(x == y), "equal", "graphs which differ in " << how << " compare equal");
        };
        if (a.order.size() >= 2) {
            const P u = s.of(a.order), v = s.of(a.order);
            if (u != v) {
                Model m = a.m;
                std::string how;
                if (m.edge(u, v)) {
                    if (s.coin()) { m.remove_directed(u, v); how = "one directed edge"; }
                    else { m.edges[{u, v}] = m.over(u, v) ? 1 : 2; how = "one flag"; }
                } else { m.add_directed(u, v, s.coin()); how = "one more directed edge"; }
                const G d = other_history(m);
                c.describe([&] { std::ostringstream os; os << "\ndifferent in " << how << " " << u << v; return os.str(); });
                check_graph(*d.g, m, "the different graph");
                differ(*a.g, *d.g, how);
                // and made equal again
                d.g->remove_directed_edge(co(u), co(v));
                if (a.m.edge(u, v)) d.g->add_directed_edge(co(u), co(v), a.m.over(u, v));
                PBT_CHECK(*a.g == *d.g, "unequal", "graphs which were made equal again do not compare equal");
                c.label("different in " + how);
            }
        }
        {
            G d = other_history(a.m);
            const P q{s.sym(MAXLON), -85000000 - (int64_t)s.draw(4000000)};
            d.g->add_vertex(co(q));
            differ(*a.g, *d.g, "one vertex");
            if (s.coin() && !a.order.empty()) {
                G e = other_history(a.m);
                const P r{q.x + (q.x < 0 ? 1 : -1), q.y}; // one microdegree off
                e.g->add_vertex(co(r));
                differ(*e.g, *d.g, "one vertex by a microdegree");
            }
        }
        if (collide) c.label("vertices with equal hashes");
        c.nontrivial(a.m.edges.size() >= 2);
    };
    return pbt_main(p, argc, argv);
}

// C30: the open edges of a sweep are a set of edges, the one which was opened closest first.
#include "capi.hpp"
#include "datastructures/open_edges/open_edges.hpp"
using namespace pbt;
using namespace geo;
using namespace glue;

int main(int argc, char **argv) {
    Property p;
    p.id = "C30";
    p.quick_cases = 400000;
    p.thorough_cases = 20000000;
    p.rule = "A history of up to 60 additions and removals over 1 to 8 edges (rarely up to 900 over 300; which share corners, and are given in either direction, some with equal hashes) at few different distances, so that many are equal, small or beyond 32 bits; after each step the set is compared with a list. "
             "Non-trivial: an edge was removed while another with the same distance stayed.";
    p.body = [](Src &s, Ctx &c) {
        using E = std::pair<P, P>;
        std::vector<P> corners;
        const bool big = s.chance(1, 400);
        for (uint64_t k = 2 + s.draw(big ? 60 : 5); k > 0; --k) corners.push_back({s.sym(540000001), s.sym(90000000)});
        if (s.chance(1, 6)) { // corners of which several have the same hash, or lie on the equator in equal steps: then coast lines between them have the same hash
            const bool equator = s.coin();
            const P at{s.sym(100000000), s.sym(80000000)};
            corners.clear();
            for (int64_t k = 0, n = s.range(3, 7); k < n; ++k) {
                if (equator) corners.push_back({at.x + k * 1000, 0});
                else if (const auto q = same_hash(at, k * (1 + (int64_t)s.draw(3)))) corners.push_back(*q);
            }
            corners.push_back(at);
        }
        std::vector<E> pool;
        for (uint64_t k = 1 + s.draw(big ? 300 : 7); k > 0; --k) pool.push_back({s.of(corners), s.of(corners)});
        const auto key = [](E e) { return e.first < e.second ? e : std::make_pair(e.second, e.first); };
        std::vector<int64_t> dists;
        for (uint64_t k = 1 + s.draw(4); k > 0; --k) dists.push_back((int64_t)s.draw(3) + (s.coin() ? 0 : (int64_t)s.draw(1000000000000000000ULL)));
        std::map<E, int64_t> model;
        OpenEdges open;
        if (big) c.label("many open edges");
        for (size_t i = 0; i < pool.size() && !big; ++i)
            for (size_t j = 0; j < i; ++j)
                if (key(pool[i]) != key(pool[j]) && std::hash<LineSegment>()(LineSegment(co(pool[i].first), co(pool[i].second))) == std::hash<LineSegment>()(LineSegment(co(pool[j].first), co(pool[j].second)))) c.label("edges with the same hash");
        for (uint64_t k = s.draw(big ? 900 : 60); k > 0; --k) {
            E e = s.of(pool);
            if (s.chance(1, 3)) std::swap(e.first, e.second);
            const LineSegment seg(co(e.first), co(e.second));
            const auto it = model.find(key(e));
            std::ostringstream what;
            if (s.chance(3, 5)) {
                const int64_t d = s.of(dists);
                what << "+" << e.first << e.second << "@" << d << " ";
                c.describe([&] { return what.str(); });
                if (it != model.end() && it->second != d) continue; // an edge is opened once, at one distance
                open.add_edge(d, seg);
                model[key(e)] = d;
            } else {
                what << "-" << e.first << e.second << " ";
                c.describe([&] { return what.str(); });
                open.remove_edge(seg);
                if (it != model.end()) {
                    const int64_t d = it->second;
                    model.erase(it);
                    for (auto &m : model) if (m.second == d) c.nontrivial();
                } else c.label("removal of an edge that is not open");
            }
            PBT_CHECK(open.empty() == model.empty(), "empty", "after " << what.str() << "there are " << model.size() << " open edges, but the set is" << (open.empty() ? "" : " not") << " empty");
            if (model.empty()) continue;
            int64_t best = INT64_MAX;
            for (auto &m : model) best = std::min(best, m.second);
            const LineSegment first = open.closest_edge();
            const E f = key({pt(first.get_endpoint_1()), pt(first.get_endpoint_2())});
            const auto m = model.find(f);
            PBT_CHECK(m != model.end() && m->second == best, "closest", "after " << what.str() << "the closest open edge is said to be " << f.first << f.second << (m == model.end() ? ", which is not open" : ", which is not the closest"));
        }
    };
    return pbt_main(p, argc, argv);
}

// C09: a batch answers each query as if it were asked alone.
#include "route.hpp"
using namespace route;

int main(int argc, char **argv) {
    Property p;
    p.id = "C09";
    p.quick_cases = 6000;
    p.thorough_cases = 300000;
    p.rule = "A generated map and a batch of 0 to 30 queries (rarely up to 4000, and numbers around round ones), with repeated ones, ends on land, unreachable ends, limits, land correction and weightings; answered by 1 to 16 threads and "
             "compared with single queries; small batches are often asked again with other options. Non-trivial: at least two threads and queries, with both a route over corners and a failure or a repeated query in the batch.";
    p.assumptions = {"the single query is decided by C04 to C08"};
    p.worker_init = [] { threads(1); };
    p.max_workers = 4;
    p.replays = 20;
    p.schedules = true;
    p.body = [](Src &s, Ctx &c) {
        threads(1);
        const auto sc = draw_scene(s, c);
        const paths::World w(sc.rings);
        require_sphere(w);
        const auto graph = VisgraphGenerator::generate(polys(sc.rings));
        const ShortestPathComputer spc(graph);
        const bool correct = s.chance(1, 3);
        const double limit = s.chance(1, 3) ? (double)s.draw(200) / 100 * sc.unit * 1e-6 * (sc.w + sc.h) : INFINITY;
        const double weight = s.chance(1, 4) ? (double)s.draw(30) / 10 : 1;
        size_t n = s.draw(30);
        if (s.chance(1, 25)) n = s.chance(1, 8) ? 1000 + s.draw(3000) : 200 + s.draw(400);
        else if (s.chance(1, 12)) n = around_round_number(s, 520);
        std::vector<std::pair<Coordinate, Coordinate>> batch;
        bool repeated = false;
#ifdef PBT_RACE
        n = std::min<size_t>(n, 60);
#endif
        const auto any = [&] {
            if (s.chance(1, 4)) { // perhaps on land
                const auto &r = s.of(sc.rings);
                const P u = s.of(r), v = s.of(r), x = s.of(r);
                return P{(u.x + v.x + x.x) / 3, (u.y + v.y + x.y) / 3};
            }
            return scene::sea_point(s, sc, w.land);
        };
        std::vector<P> pool;
        for (int i = 0; i < 12; ++i) pool.push_back(any());
        for (size_t i = 0; i < n; ++i) {
            if (!batch.empty() && s.chance(1, 8)) {
                const auto again = s.of(batch);
                batch.push_back(again);
                repeated = true;
            } else
                batch.emplace_back(co(s.of(pool)), co(s.of(pool)));
        }
        const int nt = (int)s.range(1, 16);
        c.describe([&] {
            std::ostringstream os;
            os << "\n" << nt << " threads, limit " << limit << " weight " << weight << (correct ? ", land correction" : "") << ", " << n << " queries:";
            for (auto &b : batch) os << " " << pt(b.first) << "->" << pt(b.second);
            return os.str();
        });
        std::vector<Answer> alone;
        bool failed = false, corners = false;
        for (auto &b : batch) {
            alone.push_back(ask(spc, pt(b.first), pt(b.second), limit, correct, weight));
            failed |= !alone.back().error.empty();
            corners |= alone.back().path.size() > 2;
        }
        const bool fresh = s.chance(1, 3); // a computer which has not answered anything yet
        c.label(fresh ? "the batch is the first question" : "the batch comes after single queries");
        std::unique_ptr<ShortestPathComputer> cold;
        if (fresh) cold = std::make_unique<ShortestPathComputer>(graph);
#ifdef PBT_RACE // S2 builds its index on the first query, in ways which ThreadSanitizer does not see through
        if (fresh) (void)ask(*cold, pool[0], pool[1]);
#endif
        for (int round = 0; round < 2; ++round) {
            threads(round == 0 ? nt : 1);
            const auto got = (fresh ? *cold : spc).shortest_paths(batch, limit, correct, weight);
            threads(1);
            PBT_CHECK(got.size() == batch.size(), "size", "a batch of " << batch.size() << " queries has " << got.size() << " answers");
            for (size_t i = 0; i < got.size(); ++i) {
                const auto &g = got[i];
                PBT_CHECK(g.path.has_value() != g.error_msg.has_value(), "both", "query " << i << " of the batch has " << (g.path ? "both a route and an error" : "neither a route nor an error"));
                if (g.path) {
                    std::vector<P> q;
                    for (auto &x : *g.path) q.push_back(pt(x));
                    PBT_CHECK(alone[i].error.empty(), "differs", "query " << i << " of the batch is answered by " << str(q) << ", but alone fails: " << alone[i].error);
                    PBT_CHECK(q == alone[i].path, "differs", "query " << i << " of the batch is answered by " << str(q) << ", but alone by " << str(alone[i].path));
                } else
                    PBT_CHECK(*g.error_msg == alone[i].error, "differs", "query " << i << " of the batch fails with " << *g.error_msg << ", but alone " << (alone[i].error.empty() ? "succeeds" : alone[i].error));
            }
        }
        if (n <= 60 && s.chance(1, 3)) { // asked again with other options: alone by a computer which is new, in the batch by one which is not
            const bool correct2 = s.coin() ? !correct : correct;
            const double limit2 = s.coin() ? limit : s.chance(1, 3) ? INFINITY : (double)s.draw(200) / 100 * sc.unit * 1e-6 * (sc.w + sc.h);
            const double weight2 = s.coin() ? weight : (double)s.draw(30) / 10;
            if (s.coin()) std::reverse(batch.begin(), batch.end());
            c.describe([&] { std::ostringstream os; os << "\nagain, limit " << limit2 << " weight " << weight2 << (correct2 ? ", land correction" : ""); return os.str(); });
            c.label("asked again with other options");
            const ShortestPathComputer other(graph);
            std::vector<Answer> want;
            for (auto &b : batch) want.push_back(ask(other, pt(b.first), pt(b.second), limit2, correct2, weight2));
            threads(nt);
            const auto got = (fresh ? *cold : spc).shortest_paths(batch, limit2, correct2, weight2);
            threads(1);
            PBT_CHECK(got.size() == batch.size(), "size", "a batch of " << batch.size() << " queries has " << got.size() << " answers");
            for (size_t i = 0; i < got.size(); ++i) {
                std::vector<P> q;
                if (got[i].path)
                    for (auto &x : *got[i].path) q.push_back(pt(x));
                PBT_CHECK(got[i].path.has_value() == want[i].error.empty() && q == want[i].path, "again", "query " << i << " of the batch, when it is asked again, is answered by " << str(q) << (got[i].error_msg ? *got[i].error_msg : "") << ", but alone by " << str(want[i].path) << want[i].error);
            }
        }
        c.label(n > 30 ? "large batch" : n == 0 ? "empty batch" : "batch");
        c.label("queries", n);
        c.nontrivial(nt > 1 && n > 1 && corners && (failed || repeated));
    };
    return pbt_main(p, argc, argv);
}

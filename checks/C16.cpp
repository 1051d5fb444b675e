// C16: concurrent edge updates of a graph lose nothing.
#include "graphs.hpp"
#include <thread>
using namespace graphs;

namespace {
struct Op {
    int kind; // 0 add, 1 add directed, 2 remove, 3 remove directed, 4 query the pair, 5 neighbours
    P a, b;
    bool over;
};
using Pair = std::pair<P, P>;
} // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C16";
    p.quick_cases = 10000;
    p.thorough_cases = 200000;
    p.replays = 60;
    p.schedules = true;
    p.case_wall_limit_s = 90;
    p.max_workers = 4;
    p.rule = "Two to six threads, each with up to 60 operations on a graph of 3 to 24 vertices, built with ThreadSanitizer, released together. An ordered pair is either only added to (by any thread) or added and removed by one thread alone; any thread queries any pair or the neighbours of any vertex. "
             "Each query must see a state that lies between the updates, and at the end the graph must hold what the updates leave. Non-trivial: two threads update pairs of a common vertex.";
    p.assumptions = {"vertices are not added meanwhile (the code says that this is not thread-safe)"};
    p.body = [](Src &s, Ctx &c) {
        G g = make(polys(draw_rings(s, 3 + s.draw(s.coin() ? 3 : 21))));
        const auto &vs = g.order;
        const int T = (int)s.range(2, 6);
        // who owns an ordered pair: a thread, or (-1) nobody, then it is only ever added to
        std::map<Pair, int> owner;
        std::set<Pair> initial, added; // there from the start; added by someone
        const auto owner_of = [&](P a, P b) {
            const auto it = owner.find({a, b});
            if (it != owner.end()) return it->second;
            const int o = s.coin() ? -1 : (int)s.draw((uint64_t)T - 1);
            owner[{a, b}] = o;
            if (s.chance(1, 3)) {
                const bool over = s.coin();
                g.g->add_directed_edge(co(a), co(b), over);
                g.m.add_directed(a, b, over);
                initial.insert({a, b});
            }
            return o;
        };
        const auto hub = s.chance(1, 2);
        std::vector<std::vector<Op>> script((size_t)T);
        Model want;
        for (int t = 0; t < T; ++t)
            for (int64_t k = s.range(1, s.chance(1, 3) ? 60 : 15); k > 0; --k) {
                P a = hub && s.coin() ? vs[0] : s.of(vs), b = s.of(vs);
                if (s.coin()) std::swap(a, b);
                if (a == b) b = vs[(size_t)(std::find(vs.begin(), vs.end(), a) - vs.begin() + 1) % vs.size()];
                const int ab = owner_of(a, b), ba = owner_of(b, a);
                const size_t kind = s.pick({4, 3, 2, 2, 3, 2});
                const bool may_add = ab == -1 || ab == t, may_add_back = ba == -1 || ba == t;
                Op op{(int)kind, a, b, s.coin()};
                if (kind == 0 && !(may_add && may_add_back)) op.kind = may_add ? 1 : 4;
                if (kind == 1 && !may_add) op.kind = 4;
                if (kind == 2 && !(ab == t && ba == t)) op.kind = ab == t ? 3 : 5;
                if (kind == 3 && ab != t) op.kind = 4;
                script[(size_t)t].push_back(op);
            }
        // what is left: adding commutes, and removals are in one thread's order
        want = g.m;
        std::set<Pair> shared_added;
        std::set<P> touched;
        bool common = false;
        for (auto &sc : script) {
            std::set<P> mine;
            for (auto &op : sc) {
                if (op.kind == 0) want.add(op.a, op.b, op.over);
                if (op.kind == 1) want.add_directed(op.a, op.b, op.over);
                if (op.kind == 2) want.remove(op.a, op.b);
                if (op.kind == 3) want.remove_directed(op.a, op.b);
                if (op.kind <= 1) added.insert({op.a, op.b});
                if (op.kind == 0) added.insert({op.b, op.a});
                if (op.kind <= 3) { mine.insert(op.a); mine.insert(op.b); }
            }
            for (auto &v : mine) common |= !touched.insert(v).second;
        }
        c.describe([&] {
            std::ostringstream os;
            os << "at first: " << str(g.m);
            for (size_t t = 0; t < script.size(); ++t) {
                os << "\nthread " << t << ":";
                for (auto &op : script[t]) os << " " << (op.kind == 0 ? "add" : op.kind == 1 ? "add directed" : op.kind == 2 ? "remove" : op.kind == 3 ? "remove directed" : op.kind == 4 ? "query" : "neighbours") << (op.kind < 2 && op.over ? "*" : "") << op.a << op.b;
            }
            return os.str();
        });
        std::atomic<int> ready{0};
        std::vector<std::string> errors((size_t)T);
        const auto run = [&](int t) {
            auto &err = errors[(size_t)t];
            std::map<Pair, int> own; // state of the pairs this thread owns, and least state of the others
            const auto known = [&](P a, P b) { // 1 there, 0 not, -1 unknown
                const Pair k{a, b};
                const auto it = own.find(k);
                const int o = owner.count(k) ? owner.at(k) : -2;
                if (it != own.end()) return it->second;
                if (o == t || (o == -1 && initial.count(k)) || !added.count(k)) {
                    if (o == t || o == -1 || o == -2) return initial.count(k) ? 1 : (o == t || !added.count(k) ? 0 : -1);
                    return initial.count(k) ? -1 : 0;
                }
                return -1;
            };
            const auto set = [&](P a, P b, int v) {
                const int o = owner.at({a, b});
                if (o == t || (o == -1 && v == 1)) own[{a, b}] = v;
            };
            ready.fetch_add(1);
            while (ready.load() < T) std::this_thread::yield();
            try {
                for (auto &op : script[(size_t)t]) {
                    if (op.kind == 0) g.g->add_edge(co(op.a), co(op.b), op.over);
                    if (op.kind == 1) g.g->add_directed_edge(co(op.a), co(op.b), op.over);
                    if (op.kind == 2) g.g->remove_edge(co(op.a), co(op.b));
                    if (op.kind == 3) g.g->remove_directed_edge(co(op.a), co(op.b));
                    if (op.kind <= 3) set(op.a, op.b, op.kind <= 1);
                    if (op.kind == 0 || op.kind == 2) set(op.b, op.a, op.kind == 0);
                    std::ostringstream os;
                    if (op.kind == 4) {
                        const bool e = g.g->has_edge(co(op.a), co(op.b));
                        (void)g.g->is_edge_meridian_crossing(co(op.a), co(op.b));
                        const int k = known(op.a, op.b);
                        if (k >= 0 && e != (k == 1)) os << "thread " << t << ": has_edge(" << op.a << "," << op.b << ") is " << e;
                        if (e && owner.at({op.a, op.b}) == -1) own[{op.a, op.b}] = 1; // and stays
                    }
                    if (op.kind == 5) {
                        const auto ns = points(g.g->get_neighbors(co(op.a)));
                        const std::set<P> got(ns.begin(), ns.end());
                        for (auto &v : vs) {
                            const int k = v == op.a ? 0 : known(op.a, v);
                            if (k >= 0 && got.count(v) != (size_t)k) os << "thread " << t << ": " << v << " is " << (k ? "missing from" : "among") << " the neighbours of " << op.a;
                        }
                    }
                    if (err.empty()) err = os.str();
                }
            } catch (const std::exception &e) {
                err = std::string("an operation failed: ") + e.what();
            }
        };
        std::vector<std::thread> ts;
        for (int t = 0; t < T; ++t) ts.emplace_back(run, t);
        for (auto &t : ts) t.join();
        for (auto &e : errors) PBT_CHECK(e.empty(), "query", e);
        check_graph(*g.g, want, "at the end");
        c.label(std::to_string(T) + " threads");
        c.nontrivial(common);
    };
    return pbt_main(p, argc, argv);
}

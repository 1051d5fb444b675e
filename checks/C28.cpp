// C28: corners are swept counter-clockwise, nearest first.
#include "capi.hpp"
#include "geom/angle_sorter/angle_sorter.hpp"
using namespace pbt;
using namespace geo;
using namespace glue;

int main(int argc, char **argv) {
    Property p;
    p.id = "C28";
    p.quick_cases = 800000;
    p.thorough_cases = 8000000;
    p.rule = "An observer and up to 60 points (sometimes 400, rarely 6000) around it: on few rays with multiple points each, exactly opposite, on the axes, next to the axes by a microdegree, at random; some repeated, the observer among them once, several times or never; sorted from two start orders. "
             "The oracle orders by half-plane, exact cross product and distance. Non-trivial: two points in the same direction at different distances, and points in three quadrants.";
    p.assumptions = {"directions which differ by less than 1e-14 radians are given as one"};
    p.body = [](Src &s, Ctx &c) {
        const P o{s.sym(MAXLON), s.sym(90000000)};
        std::vector<P> pts, rays;
        for (uint64_t k = 1 + s.draw(6); k > 0; --k) rays.push_back({s.sym(s.coin() ? 9 : 100000), s.sym(s.coin() ? 9 : 100000)});
        const uint64_t n = s.draw(s.chance(1, 5000) ? 6000 : s.chance(1, 20) ? 400 : 40);
        if (n > 1000) c.label("more than 1000 points");
        const int64_t far = (int64_t)std::exp(std::log(500e6) * (double)s.range(300, 1000) / 1000.0);
        for (uint64_t k = 0; k < n; ++k) {
            P v{0, 0};
            switch (s.pick({4, 2, 2, 2, 1, 1})) {
            case 0: { v = s.of(rays); const int64_t f = s.range(-40, 40) * (s.chance(1, 4) ? 100 : 1); v = {v.x * f, v.y * f}; break; }
            case 1: v = {s.sym(far), 0}; break;
            case 2: v = {0, s.sym(std::min<int64_t>(far, 180000000))}; break;
            case 3: v = {s.sym(far), s.sym(std::min<int64_t>(far, 180000000))}; break;
            case 4: v = {s.sym(far), s.sym(1)}; break;
            default: v = pts.empty() ? P{0, 0} : s.of(pts) - o; // repeated
            }
            const P q = o + v;
            if (std::llabs(q.x) > 540000001 || std::llabs(q.y) > 90000000) continue;
            if (v == P{0, 0} && !s.chance(1, 4)) continue;
            pts.push_back(q);
        }
        if (s.chance(1, 6))
            for (uint64_t k = s.draw(s.chance(1, 5) ? 40 : 2); k > 0; --k) pts.push_back(o);
        // distinct directions which are too close for the arithmetic to tell apart are not asked for
        const auto half = [](P v) { return v.y > 0 || (v.y == 0 && v.x > 0) ? 0 : 1; };
        const auto before = [&](P a, P b) { // the observer first, then by angle in [0, 2 pi), then by distance
            const P u = a - o, v = b - o;
            const P zero{0, 0};
            if (u == zero || v == zero) return u == zero && v != zero;
            if (half(u) != half(v)) return half(u) < half(v);
            const i128 x = crossv(u, v);
            if (x != 0) return x > 0;
            return dotv(u, u) < dotv(v, v);
        };
        auto want = pts;
        std::sort(want.begin(), want.end(), before);
        for (size_t i = 1; i < want.size(); ++i) {
            const P u = want[i - 1] - o, v = want[i] - o;
            const double x = std::fabs((double)crossv(u, v)), len = std::sqrt((double)dotv(u, u)) * std::sqrt((double)dotv(v, v));
            if (x > 0 && x / len < 1e-14) { want.clear(); break; }
        }
        if (want.size() != pts.size()) discard();
        s.shuffle(pts);
        c.describe([&] { std::ostringstream os; os << "observer " << o << " points"; for (auto &q : pts) os << " " << q; return os.str(); });
        for (int k = 0; k < 2; ++k) {
            std::vector<Coordinate> v;
            for (auto &q : pts) v.push_back(co(q));
            AngleSorter::sort_counter_clockwise_around_observer(co(o), v);
            PBT_CHECK(v.size() == want.size(), "size", v.size() << " of " << want.size() << " points are left");
            std::vector<P> got;
            for (auto &q : v) got.push_back(pt(q));
            PBT_CHECK(std::multiset<P>(got.begin(), got.end()) == std::multiset<P>(want.begin(), want.end()), "points", "sorting changed the points");
            for (size_t i = 0; i < got.size(); ++i)
                PBT_CHECK(got[i] == want[i], "order", "place " << i << " around " << o << " is taken by " << got[i] << " instead of " << want[i]);
            s.shuffle(pts);
        }
        bool tie = false;
        std::set<int> quadrants;
        for (size_t i = 0; i < want.size(); ++i) {
            const P v = want[i] - o;
            quadrants.insert((v.x > 0) * 2 + (v.y > 0));
            if (i && want[i - 1] != o && want[i] != want[i - 1] && crossv(want[i - 1] - o, v) == 0 && dotv(want[i - 1] - o, v) > 0) tie = true;
        }
        if (std::count(pts.begin(), pts.end(), o)) c.label(std::count(pts.begin(), pts.end(), o) > 1 ? "observer among the points, repeated" : "observer among the points");
        if (tie) c.label("points in the same direction");
        c.nontrivial(tie && quadrants.size() >= 3);
    };
    return pbt_main(p, argc, argv);
}

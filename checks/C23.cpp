// C23: spatial queries find what a look at every coast line finds.
#include "route.hpp"
#include "datastructures/spatial_segment_index/spatial_segment_index.hpp"
using namespace route;

namespace {
using E = std::pair<P, P>;
E key(P a, P b) { return a < b ? E{a, b} : E{b, a}; }
std::string str(const std::multiset<E> &s) {
    std::ostringstream os;
    for (auto &e : s) os << " " << e.first << "-" << e.second;
    return os.str();
}
std::multiset<E> keys(const std::vector<LineSegment> &v) {
    std::multiset<E> r;
    for (auto &l : v) r.insert(key(pt(l.get_endpoint_1()), pt(l.get_endpoint_2())));
    return r;
}
} // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C23";
    p.quick_cases = 300000;
    p.thorough_cases = 1500000;
    p.rule = "Coast lines (up to hundreds of sides, rarely thousands; from microdegrees to land over most of the world; sometimes none); twelve queries of each kind at points at sea, on land, next to or exactly on coast lines, at corners, far away; segments between such points; distances around those of the coast lines. "
             "Each answer is compared with S2's exact predicates on every single side and polygon. Non-trivial: a query segment crosses at least two sides, or a point is on land.";
    p.assumptions = {"polygons are valid when drawn along great circles", "sides whose distance is within 1e-9 of the asked one are not decided"};
    p.worker_init = [] { threads(1); };
    p.body = [](Src &s, Ctx &c) {
        draw_threads(s, c, 60);
        scene::Scene sc;
        if (!s.chance(1, 40)) {
            scene::Opts o;
            if (s.chance(1, 12)) o = scene::big();
            if (s.chance(1, 1500)) o = scene::huge();
            const size_t scale = s.pick({3, 2, 2});
            o.max_unit = scale == 0 ? 300000 : scale == 1 ? 3000000 : 40000000;
            o.max_lat = 89000000;
            sc = s.chance(1, 60) ? scene::vast(s) : scene::generate(s, o);
            c.label("coast: " + sc.kind + ", " + sc.placement);
            if (sc.vertices() > 700) c.label("more than 700 sides");
        } else {
            sc.unit = 1000000;
            sc.w = sc.h = 3;
            c.label("no coast");
        }
        c.describe([&] { return sc.str(); });
        const paths::World w(sc.rings);
        require_sphere(w);
        for (auto &l : w.loops) if (l->GetArea() > 2 * M_PI) c.label("land over more than half of the world");
        std::vector<E> edges;
        for (auto &r : w.rings)
            for (size_t i = 0; i < r.size(); ++i) edges.push_back({r[i], r[(i + 1) % r.size()]});
        const SpatialSegmentIndex index(polys(sc.rings));
        const auto point = [&]() -> P {
            const int64_t q = std::max<int64_t>(1, sc.unit);
            P r{0, 0};
            switch (sc.rings.empty() ? 5 : s.pick({4, 2, 2, 2, 1, 1})) {
            case 0: r = {sc.x0 - q / 2 + (int64_t)s.draw((uint64_t)((sc.w + 1) * q)), sc.y0 - q / 2 + (int64_t)s.draw((uint64_t)((sc.h + 1) * q))}; break;
            case 1: return s.of(w.verts);
            case 2: { const auto &e = s.of(edges); r = {(e.first.x + e.second.x) / 2 + s.sym(2), (e.first.y + e.second.y) / 2 + s.sym(2)}; break; }
            case 3: { const auto &e = s.of(edges); r = e.first + P{s.sym(1), s.sym(1)}; break; }
            case 4: { const auto &g = s.of(w.rings); P sum{0, 0}; for (auto &v : g) sum = sum + v; r = {sum.x / (int64_t)g.size(), sum.y / (int64_t)g.size()}; break; }
            default: r = {s.sym(MAXLON), s.sym(90000000)};
            }
            return {std::clamp<int64_t>(r.x, -MAXLON, MAXLON), std::clamp<int64_t>(r.y, -90000000, 90000000)};
        };
        for (int k = 0; k < 12; ++k) {
            const P a = point(), b = point();
            c.describe([&] { std::ostringstream os; os << "\n" << a << " " << b; return os.str(); });
            // on land?
            bool land = false;
            for (size_t i = 0; i < w.rings.size(); ++i)
                land = land || (std::find(w.rings[i].begin(), w.rings[i].end(), a) == w.rings[i].end() && w.loops[i]->Contains(paths::s2(a)));
            PBT_CHECK(index.is_point_contained(co(a)) == land, "contained", a << " is" << (land ? "" : " not") << " on land, but the index says otherwise");
            if (land) { c.label("point on land"); c.nontrivial(); }
            // crossings
            if (a != b && paths::s2(a).Angle(paths::s2(b)) < 3.1) {
                std::multiset<E> want;
                for (auto &e : w.crossed_geodesic(a, b)) want.insert(key(e.first, e.second));
                const auto list = index.intersect_with_segments(LineSegment(co(a), co(b)));
                const auto got = keys(list);
                PBT_CHECK(got == want, "crossed", "the segment " << a << "-" << b << " meets" << str(want) << ", but the index gives" << str(got));
                PBT_CHECK(index.does_segment_intersect_with_segments(LineSegment(co(a), co(b))) == !want.empty(), "crosses", "the segment " << a << "-" << b << " meets " << want.size() << " coast lines, but the index says otherwise");
                double last = 0;
                for (auto &l : list) {
                    const double d = S2::GetDistance(paths::s2(a), paths::s2(pt(l.get_endpoint_1())), paths::s2(pt(l.get_endpoint_2()))).radians();
                    PBT_CHECK(d >= last - 1e-14, "order", "the coast lines met by " << a << "-" << b << " are not ordered by their distance:" << str(got));
                    last = d;
                }
                if (want.size() >= 2) { c.nontrivial(); c.label("segment over several coast lines"); }
            }
            // distances
            double best = 1e9;
            std::vector<double> dist;
            for (auto &e : edges) {
                dist.push_back(S2::GetDistance(paths::s2(a), paths::s2(e.first), paths::s2(e.second)).radians());
                best = std::min(best, dist.back());
            }
            if (edges.empty()) {
                bool threw = false;
                try { (void)index.closest_segment_to_point(co(a)); } catch (const std::runtime_error &) { threw = true; }
                PBT_CHECK(threw, "closest", "there is no coast line, but a closest one is given");
                PBT_CHECK(index.segments_within_distance_of_point(co(a), 4).empty(), "within", "there is no coast line, but one is within the distance");
                continue;
            }
            const auto tol = [](double d) { return d > 3 ? 2e-7 : 1e-9 * d + 3e-15; };
            const LineSegment close = index.closest_segment_to_point(co(a));
            const E ck = key(pt(close.get_endpoint_1()), pt(close.get_endpoint_2()));
            bool known = false;
            for (auto &e : edges) known = known || key(e.first, e.second) == ck;
            PBT_CHECK(known, "closest", "the closest coast line " << ck.first << "-" << ck.second << " is none");
            const double cd = S2::GetDistance(paths::s2(a), paths::s2(ck.first), paths::s2(ck.second)).radians();
            PBT_CHECK(cd <= best + tol(best), "closest", "the closest coast line to " << a << " is said to be " << ck.first << "-" << ck.second << ", " << cd << " away, but one is " << best << " away");
            double d = dist[s.draw(dist.size() - 1)];
            if (s.chance(1, 3)) d = d * ((double)s.draw(2000) / 1000.0);
            if (s.chance(1, 8)) d = s.coin() ? 0.0 : 4.0;
            const auto within = keys(index.segments_within_distance_of_point(co(a), d));
            for (size_t i = 0; i < edges.size(); ++i) {
                const bool in = within.count(key(edges[i].first, edges[i].second));
                PBT_CHECK(within.count(key(edges[i].first, edges[i].second)) <= 1, "within", "a coast line is given twice");
                if (std::fabs(dist[i] - d) <= tol(d)) continue;
                PBT_CHECK(in == (dist[i] < d), "within", "the coast line " << edges[i].first << "-" << edges[i].second << ", " << dist[i] << " from " << a << ", is" << (in ? "" : " not") << " held to be within " << d);
            }
            PBT_CHECK(within.size() <= edges.size(), "within", "more coast lines are given than there are");
        }
    };
    return pbt_main(p, argc, argv);
}

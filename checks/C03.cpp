// C03: an observer anywhere sees exactly the visible corners.
#include "vis.hpp"
using namespace vis;

int main(int argc, char **argv) {
    Property p;
    p.id = "C03";
    p.quick_cases = 300000;
    p.thorough_cases = 10000000;
    p.rule = "Coast lines as for C01 (rarely with up to 3000 corners), one observer per case: at sea (anywhere, or in line with corners), on a corner, or exactly on a coast line; with and without "
             "the copies of the land over the antimeridian. Non-trivial: some corner is visible and some is blocked.";
    p.assumptions = {"polygons are simple and pairwise disjoint", "grazing and marginal (within 3 microdegrees) lines of sight are not decided"};
    p.body = [](Src &s, Ctx &c) {
        draw_threads(s, c, 60);
        const auto sc = draw_scene(s, c, true, 100, 1000);
        const bool wrap = !s.chance(1, 4);
        const auto land = wrap ? periodic(sc.rings) : planar(sc.rings);
        P obs;
        const size_t who = s.pick({4, 4, 2});
        if (who == 0) obs = scene::sea_point(s, sc, land);
        else if (who == 1) obs = s.of(s.of(sc.rings));
        else obs = scene::coast_point(s, sc);
        const char *names[] = {"at sea", "on a corner", "on a coast line"};
        c.label(std::string("observer ") + names[who]);
        c.describe([&] { std::ostringstream os; os << "\nobserver " << obs << " " << names[who] << (wrap ? "" : ", land not repeated over the antimeridian"); return os.str(); });
        auto ps = polys(sc.rings);
        if (wrap) ps = make_polygons_periodic(ps);
        const VistreeGenerator g(ps);
        const bool by_segments = s.chance(1, 5);
        std::vector<std::shared_ptr<LineSegment>> segs;
        if (by_segments) {
            for (auto &q : ps)
                for (auto &l : q.get_line_segments()) segs.push_back(std::make_shared<LineSegment>(l));
            s.shuffle(segs);
        }
        const auto look = [&](bool half) {
            return by_segments ? g.get_visible_vertices_from_candidate_segments(co(obs), segs, half) : g.get_visible_vertices(co(obs), half);
        };
        std::map<std::pair<P, bool>, int> full, half;
        for (auto &v : look(false)) ++full[{pt(v.coord), v.is_visible_across_meridian}];
        for (auto &v : look(true)) ++half[{pt(v.coord), v.is_visible_across_meridian}];
        bool seen = false, blocked = false;
        std::set<std::pair<P, bool>> possible;
        for (auto v : corners(sc.rings)) {
            for (int over = 0; over <= (wrap ? 1 : 0); ++over) {
                possible.insert({v, over == 1});
                Vis k[2] = {BLOCKED, BLOCKED};
                if (!over) {
                    if (v == obs) {
                        PBT_CHECK(!full.count({v, false}) && !half.count({v, false}), "sees-itself", "the observer is reported as visible to itself");
                        continue;
                    }
                    k[0] = land.classify(obs, v);
                } else {
                    k[0] = land.classify(obs, {v.x + PERIOD, v.y});
                    k[1] = land.classify(obs, {v.x - PERIOD, v.y});
                }
                const int lo = (k[0] == CLEAR) + (over && k[1] == CLEAR), hi = (k[0] != BLOCKED) + (over && k[1] != BLOCKED);
                const auto f = full.count({v, over == 1}) ? full[{v, over == 1}] : 0, h = half.count({v, over == 1}) ? half[{v, over == 1}] : 0;
                seen |= lo > 0;
                blocked |= hi == 0;
                PBT_CHECK(f >= lo, "missing", "corner " << v << (over ? " over the antimeridian" : "") << " is in clear sight of " << obs << " but not reported");
                PBT_CHECK(f <= hi, hi ? "repeated" : "through-land",
                          "corner " << v << (over ? " over the antimeridian" : "") << " is reported " << f << " times, but is visible " << hi << " ways from " << obs);
                if (v.y >= obs.y)
                    PBT_CHECK(h == f, "half-scan", "corner " << v << " is not south of the observer, reported " << f << " times by a full and " << h << " times by a half scan");
                else
                    PBT_CHECK(h == 0, "half-scan", "corner " << v << " is south of the observer, but reported by a half scan");
                c.label(lo == hi ? (lo ? "sight clear" : "sight blocked") : "sight grazing or marginal");
            }
        }
        for (auto &f : full) PBT_CHECK(possible.count(f.first), "unknown", "reported " << f.first.first << " is no corner of the land");
        c.nontrivial(seen && blocked);
    };
    return pbt_main(p, argc, argv);
}

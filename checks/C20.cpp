// C20: longitudes wrap around the antimeridian consistently.
#include "route.hpp"
using namespace route;

namespace {
int64_t longitude(Src &s, int64_t max) {
    switch (s.pick({3, 3, 1, 1})) {
    case 0: return s.sym(max);
    case 1: return std::clamp<int64_t>((s.coin() ? 1 : -1) * (MAXLON + s.sym(3)) + PERIOD * s.sym(4), -max, max);
    case 2: return std::clamp<int64_t>(PERIOD * s.sym(4) + s.sym(3), -max, max);
    default: return (s.coin() ? 1 : -1) * (max - (int64_t)s.draw(3));
    }
}
void coordinates(Src &s, Ctx &c) {
    // as far as 32 bits go with one more turn
    const P a{longitude(s, INT32_MAX - PERIOD), s.coin() ? s.sym(90000000) : s.sym(INT32_MAX)};
    c.describe([&] { std::ostringstream os; os << a; return os.str(); });
    const P n = pt(coordinate_from_periodic_coordinate(co(a)));
    PBT_CHECK(n.y == a.y, "latitude", a << " wraps to " << n);
    PBT_CHECK(std::llabs(n.x) <= MAXLON, "range", a << " wraps to " << n);
    PBT_CHECK((a.x - n.x) % PERIOD == 0, "turns", a << " wraps to " << n << ", which is not whole turns away");
    if (std::llabs(a.x) <= MAXLON) PBT_CHECK(n == a, "in-range", a << " is in range, but wraps to " << n);
    PBT_CHECK(pt(coordinate_from_periodic_coordinate(co(n))) == n, "again", n << " wraps to something else");
    PBT_CHECK(is_coordinate_over_meridian(co(a)) == (std::llabs(a.x) > MAXLON), "over", a << " is" << (std::llabs(a.x) > MAXLON ? " not" : "") << " held to be over the antimeridian");
    if (std::llabs(a.x) <= INT32_MAX - PERIOD) {
        const auto three = periodic_coordinates_from_coordinate(co(a));
        std::multiset<P> got;
        for (auto &x : three) {
            got.insert(pt(x));
            PBT_CHECK(pt(coordinate_from_periodic_coordinate(x)) == n, "inverse", "a copy " << pt(x) << " of " << a << " wraps to " << pt(coordinate_from_periodic_coordinate(x)));
        }
        PBT_CHECK(got == (std::multiset<P>{a, {a.x + PERIOD, a.y}, {a.x - PERIOD, a.y}}), "copies", "the copies of " << a << " are wrong");
        PBT_CHECK(pt(three[0]) == a, "copies", "the first copy of " << a << " is not itself");
    }
    // lists
    std::vector<Coordinate> cs;
    std::vector<LineSegment> ls;
    std::multiset<P> want;
    std::multiset<std::pair<P, P>> want_segments;
    for (uint64_t k = s.draw(5); k > 0; --k) {
        const P q{longitude(s, 540000000), s.sym(90000000)}, r{longitude(s, 540000000), s.sym(90000000)};
        cs.push_back(co(q));
        ls.emplace_back(co(q), co(r));
        for (int64_t t = -1; t <= 1; ++t) {
            want.insert({q.x + t * PERIOD, q.y});
            want_segments.insert({{q.x + t * PERIOD, q.y}, {r.x + t * PERIOD, r.y}});
        }
    }
    std::multiset<P> got;
    for (auto &x : make_coordinates_periodic(cs)) got.insert(pt(x));
    PBT_CHECK(got == want, "list", "the copies of " << cs.size() << " coordinates are wrong");
    std::multiset<std::pair<P, P>> got_segments;
    for (auto &x : make_segments_periodic(ls)) got_segments.insert({pt(x->get_endpoint_1()), pt(x->get_endpoint_2())});
    PBT_CHECK(got_segments == want_segments, "segments", "the copies of " << ls.size() << " segments are wrong");
    PBT_CHECK(make_polygons_periodic({}).empty(), "polygons", "no polygons have copies");
    c.nontrivial(std::llabs(a.x) > MAXLON);
    c.label("coordinates");
}
void queries(Src &s, Ctx &c) {
    const auto sc = draw_scene(s, c, 30, 80000000);
    const auto ps = polys(sc.rings);
    const auto copies = make_polygons_periodic(ps);
    PBT_CHECK(copies.size() == 3 * ps.size(), "polygons", copies.size() << " copies of " << ps.size() << " polygons");
    std::multiset<Ring> want, got;
    for (auto &r : sc.rings)
        for (int64_t t = -1; t <= 1; ++t) want.insert(canonical(shifted(r, t * PERIOD)));
    for (auto &q : copies) {
        Ring r;
        for (auto &v : q.get_vertices()) r.push_back(pt(v));
        got.insert(canonical(r));
    }
    PBT_CHECK(got == want, "polygons", "the copies of the polygons are wrong");
    const auto g = VisgraphGenerator::generate(ps);
    const ShortestPathComputer spc(g);
    const Land land = periodic(sc.rings);
    for (int k = 0; k < 3; ++k) {
        const auto end = [&] { return s.chance(1, 5) ? P{sc.x0 + (int64_t)s.draw((uint64_t)(sc.w * sc.unit)), sc.y0 + (int64_t)s.draw((uint64_t)(sc.h * sc.unit))} : scene::sea_point(s, sc, land); };
        P a = end(), b = end();
        if (s.chance(1, 4)) a = s.of(s.of(sc.rings));
        a.x = std::clamp<int64_t>(a.x, -MAXLON, MAXLON);
        b.x = std::clamp<int64_t>(b.x, -MAXLON, MAXLON);
        const int64_t ta = s.sym(4), tb = s.sym(4); // whole turns
        const P a2{a.x + ta * PERIOD, a.y}, b2{b.x + tb * PERIOD, b.y};
        const bool fix = s.coin();
        const double limit = s.chance(1, 4) ? (double)s.draw(20000) / 100.0 : INFINITY, weight = s.chance(1, 4) ? (double)s.draw(300) / 100.0 : 1.0;
        c.describe([&] { std::ostringstream os; os << "\n" << a << " -> " << b << " asked as " << a2 << " -> " << b2 << (fix ? " with correction" : "") << " limit " << limit << " weight " << weight; return os.str(); });
        const auto r1 = ask(spc, a, b, limit, fix, weight), r2 = ask(spc, a2, b2, limit, fix, weight);
        PBT_CHECK(r1.path == r2.path && r1.error.empty() == r2.error.empty(), "route", "the route " << a << " -> " << b << " is " << str(r1.path) << r1.error << ", but for the ends " << a2 << " and " << b2 << " it is " << str(r2.path) << r2.error);
        if (r1.path.size() > 2 && (ta || tb)) c.nontrivial();
        c.label(r1.path.empty() ? "failing query" : r1.path.size() > 2 ? "route over corners" : "direct route");
    }
}
} // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C20";
    p.quick_cases = 600000;
    p.thorough_cases = 10000000;
    p.rule = "Nine cases in ten: a coordinate up to several turns away, biased towards the seam (180 degrees and whole turns, give or take three microdegrees), and lists of coordinates and segments. "
             "One in ten: coast lines and three route queries with every option, asked again with the ends whole turns away. Non-trivial: a coordinate out of range, or a route over corners with an end turns away.";
    p.worker_init = [] { threads(1); };
    p.body = [](Src &s, Ctx &c) {
        draw_threads(s, c, 60);
        if (s.chance(1, 10)) queries(s, c);
        else coordinates(s, c);
    };
    return pbt_main(p, argc, argv);
}

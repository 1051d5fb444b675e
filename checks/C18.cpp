// C18: a polygon is its outline, however it is written down.
#include "capi.hpp"
#include <s2/s2loop.h>
using namespace pbt;
using namespace geo;
using namespace glue;

namespace {
std::string str(const Ring &r) {
    std::ostringstream os;
    os << "[";
    for (size_t i = 0; i < r.size() && i < 60; ++i) os << (i ? " " : "") << r[i];
    os << (r.size() > 60 ? " ...]" : "]");
    return os.str();
}
int64_t gcd(int64_t a, int64_t b) {
    a = std::abs(a);
    b = std::abs(b);
    while (b) { const int64_t t = a % b; a = b; b = t; }
    return a;
}
int64_t extent(Src &s, int64_t max) { // log-uniform
    return std::max<int64_t>(1, (int64_t)std::exp(std::log((double)max) * (double)s.draw(1000) / 1000.0));
}
// A simple outline: its corners.
Ring draw_outline(Src &s, Ctx &c) {
    const size_t kind = s.pick({2, 2, 2, 2, 1});
    Ring r;
    if (kind == 0) { // triangles of every size
        const int64_t w = extent(s, 360000000), h = extent(s, 180000000);
        const P o{-MAXLON + (int64_t)s.draw((uint64_t)(2 * MAXLON - w)), -90000000 + (int64_t)s.draw((uint64_t)(180000000 - h))};
        for (int i = 0; i < 3; ++i) r.push_back(o + P{(int64_t)s.draw((uint64_t)w), (int64_t)s.draw((uint64_t)h)});
        c.label("triangle");
    } else if (kind == 1) { // slivers: a long line and a corner next to it
        r = scene::sliver(s);
        c.label("sliver");
    } else if (kind == 2) { // coast lines
        scene::Opts o;
        o.min_unit = 64;
        o.max_lat = 90000000;
        o.max_components = 1;
        o.max_grow = 40;
        r = geo::canonical(scene::generate(s, o).rings[0]);
        c.label("coast");
    } else if (kind == 3) { // staircase or comb of small steps: many corners
        const int64_t n = s.chance(1, 300) ? s.range(300, 1500) : s.range(1, 60), step = s.range(1, n > 60 ? 40000 : 1000000);
        const P o{-MAXLON + (int64_t)s.draw((uint64_t)(2 * MAXLON - step * (n + 1))), -90000000 + (int64_t)s.draw((uint64_t)(180000000 - step * (n + 1)))};
        r.push_back(o);
        for (int64_t i = 0; i < n; ++i) {
            r.push_back(o + P{(i + 1) * step, i * step});
            r.push_back(o + P{(i + 1) * step, (i + 1) * step});
        }
        r.push_back(o + P{0, n * step});
        c.label("stairs");
    } else { // a few microdegrees
        const int64_t n = s.range(3, 8);
        const P o{s.sym(MAXLON - 10), s.sym(90000000 - 10)};
        for (int64_t i = 0; i < n; ++i) r.push_back(o + P{s.range(0, 6), s.range(0, 6)});
        c.label("a few microdegrees");
    }
    r = geo::canonical(r);
    if (!simple_ring(r)) discard();
    return r;
}
// The same outline written differently.
Ring rewrite(Src &s, Ring r, size_t &extra) {
    if (s.coin()) std::reverse(r.begin(), r.end());
    Ring out;
    for (size_t i = 0; i < r.size(); ++i) {
        const P a = r[i], b = r[(i + 1) % r.size()];
        const auto push = [&](P p) {
            out.push_back(p);
            for (int64_t k = s.chance(1, 5) ? s.range(1, 3) : 0; k > 0; --k) { out.push_back(p); ++extra; }
        };
        push(a);
        const int64_t g = gcd(b.x - a.x, b.y - a.y);
        if (g >= 2 && s.chance(1, 3)) {
            std::set<int64_t> at;
            for (int64_t k = s.range(1, 4); k > 0; --k) at.insert(s.chance(1, 4) ? (s.coin() ? 1 : g - 1) : s.range(1, g - 1));
            for (int64_t k : at) { push({a.x + (b.x - a.x) / g * k, a.y + (b.y - a.y) / g * k}); ++extra; }
        }
    }
    std::rotate(out.begin(), out.begin() + (long)s.draw(out.size() - 1), out.end()); // maybe amid repeated or collinear points
    if (s.coin()) { out.push_back(out.front()); ++extra; } // closed
    return out;
}
Ring corners_of(const Polygon &p) {
    Ring r;
    for (auto &v : p.get_vertices()) r.push_back(pt(v));
    return r;
}
bool same_cycle(const Ring &a, Ring b) { // same direction
    if (a.size() != b.size()) return false;
    const auto it = std::find(b.begin(), b.end(), a[0]);
    if (it == b.end()) return false;
    std::rotate(b.begin(), it, b.end());
    return a == b;
}
} // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C18";
    p.quick_cases = 800000;
    p.thorough_cases = 8000000;
    p.rule = "A simple outline (triangles from one microdegree to the whole globe, slivers, coast lines, stairs, outlines of a few microdegrees), written in either direction, from any start, with points added on straight stretches (several, next to corners, at the start), repeated and closing points. "
             "Its corners are known exactly. Non-trivial: the writing has at least one point that is no corner.";
    p.body = [](Src &s, Ctx &c) {
        const Ring want = draw_outline(s, c);
        size_t extra = 0;
        const Ring w1 = rewrite(s, want, extra);
        c.describe([&] { return "outline " + str(want) + "\nwritten as " + str(w1); });
        const Polygon p1 = poly(w1);
        const Ring got = corners_of(p1);
        PBT_CHECK(same_cycle(want, got), std::set<P>(want.begin(), want.end()) == std::set<P>(got.begin(), got.end()) ? "order" : "corners",
                  "the polygon of " << str(w1) << " has the corners " << str(got) << " instead of " << str(want));
        { // start: the first corner in the order as written, once the direction is settled, is a matter of choice; making it again is not
            const Polygon again(p1.get_vertices());
            PBT_CHECK(corners_of(again) == got, "again", "making a polygon of the corners " << str(got) << " again gives " << str(corners_of(again)));
            PBT_CHECK(p1 == again && !(p1 != again), "equal", "a polygon made of a polygon's corners is not equal to it");
            PBT_CHECK(std::hash<Polygon>()(p1) == std::hash<Polygon>()(again), "hash", "equal polygons have different hashes");
            const Polygon twin = p1;
            PBT_CHECK(p1 == twin && std::hash<Polygon>()(p1) == std::hash<Polygon>()(twin), "equal", "a copy of a polygon is not equal to it");
        }
        { // its sides
            const auto segs = p1.get_line_segments();
            PBT_CHECK(segs.size() == got.size(), "sides", segs.size() << " sides of " << got.size() << " corners");
            for (size_t i = 0; i < segs.size(); ++i)
                PBT_CHECK(pt(segs[i].get_endpoint_1()) == got[i] && pt(segs[i].get_endpoint_2()) == got[(i + 1) % got.size()], "sides",
                          "side " << i << " of " << str(got) << " is " << pt(segs[i].get_endpoint_1()) << pt(segs[i].get_endpoint_2()));
            const auto loop = p1.to_s2_loop();
            PBT_CHECK(loop->num_vertices() == (int)got.size(), "sphere", "the loop on the sphere has " << loop->num_vertices() << " corners");
            for (int i = 0; i < loop->num_vertices(); ++i)
                PBT_CHECK(loop->vertex(i) == S2LatLng::FromE6((int32_t)got[i].y, (int32_t)got[i].x).ToPoint(), "sphere", "corner " << i << " of the loop on the sphere is not " << got[i]);
        }
        PBT_CHECK(get_orientation_of_vertices(p1.get_vertices()) == Orientation::COUNTER_CLOCKWISE, "direction", "the polygon " << str(got) << " is not held to be counter-clockwise");
        { // the copies over the antimeridian
            const auto ps = make_polygons_periodic({p1});
            PBT_CHECK(ps.size() == 3, "copies", ps.size() << " copies of a polygon");
            std::set<int64_t> offs;
            for (auto &q : ps) {
                const Ring r = corners_of(q);
                PBT_CHECK(r.size() == got.size(), "copies", "a copy of " << str(got) << " has the corners " << str(r));
                const int64_t off = r[0].x - got[0].x;
                offs.insert(off);
                for (size_t i = 0; i < r.size(); ++i)
                    PBT_CHECK(r[i] == (P{got[i].x + off, got[i].y}), "copies", "a copy of " << str(got) << " is " << str(r));
            }
            PBT_CHECK(offs == (std::set<int64_t>{0, PERIOD, -PERIOD}), "copies", "the copies of a polygon are not one turn apart");
        }
        { // another writing: equal exactly if it starts at the same corner
            size_t more = 0;
            const Polygon p2 = poly(rewrite(s, want, more));
            const Ring g2 = corners_of(p2);
            PBT_CHECK(same_cycle(want, g2), "corners", "another writing of " << str(want) << " gives " << str(g2));
            PBT_CHECK((p1 == p2) == (got == g2) && (p1 != p2) == (got != g2), "equal", "the polygons " << str(got) << " and " << str(g2) << " compare " << (p1 == p2 ? "equal" : "unequal"));
            if (p1 == p2) PBT_CHECK(std::hash<Polygon>()(p1) == std::hash<Polygon>()(p2), "hash", "equal polygons have different hashes");
        }
        { // one corner off by a microdegree, or one less
            Ring other = got;
            const size_t k = s.draw(other.size() - 1);
            if (s.coin() && other.size() > 3) other.erase(other.begin() + (long)k);
            else (s.coin() ? other[k].x : other[k].y) += s.coin() ? 1 : -1;
            const Polygon q = poly(other);
            if (corners_of(q) != got) PBT_CHECK(p1 != q && !(p1 == q), "equal", "the different polygons " << str(got) << " and " << str(corners_of(q)) << " compare equal");
        }
        if (extra) c.label("with points that are no corners");
        c.nontrivial(extra > 0);
    };
    return pbt_main(p, argc, argv);
}

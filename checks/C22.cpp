// C22: segment geometry agrees with exact arithmetic.
#include "paths.hpp"
#include <unordered_set>
using namespace pbt;
using namespace geo;
using namespace glue;

namespace {
constexpr int64_t XLON = 540000001, XLAT = 90000000;
P clampp(P p) { return {std::clamp<int64_t>(p.x, -XLON, XLON), std::clamp<int64_t>(p.y, -XLAT, XLAT)}; }
int64_t gcd(int64_t a, int64_t b) {
    a = std::abs(a);
    b = std::abs(b);
    while (b) { const int64_t t = a % b; a = b; b = t; }
    return a;
}
struct Frame { P o; int64_t w, h; };
P in_frame(Src &s, const Frame &f) { return clampp(f.o + P{s.sym(f.w), s.sym(f.h)}); }
// A point on the straight line through a and b (whole microdegrees), inside or outside of the segment, if there is one.
P on_line(Src &s, P a, P b) {
    const int64_t g = gcd(b.x - a.x, b.y - a.y);
    if (g == 0) return a;
    const P u{(b.x - a.x) / g, (b.y - a.y) / g};
    const int64_t k = s.range(-g / 2 - 2, g + g / 2 + 2);
    const P p{a.x + u.x * k, a.y + u.y * k};
    return p == clampp(p) ? p : a;
}
// The point of the segment nearest to a real position t along it, nudged.
P near_segment(Src &s, P a, P b) {
    const int64_t t = s.range(-100, 1100);
    return clampp({a.x + (int64_t)std::llround((double)(b.x - a.x) * (double)t / 1000) + s.sym(2), a.y + (int64_t)std::llround((double)(b.y - a.y) * (double)t / 1000) + s.sym(2)});
}
std::string str(P a, P b) {
    std::ostringstream os;
    os << a << "-" << b;
    return os.str();
}
} // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C22";
    p.quick_cases = 4000000;
    p.thorough_cases = 150000000;
    p.rule = "Two segments and a point: anywhere on the globe and its copies or within a few microdegrees to degrees of each other, with shared ends, ends on the other segment or next to it, the same line, parallels, nearly parallel ones; "
             "intersections, sides, incidence, equality and hash are compared with 128-bit arithmetic, projections with S2's distance to the one edge. Non-trivial: the segments meet.";
    p.body = [](Src &s, Ctx &c) {
        Frame f;
        f.o = {s.sym(XLON), s.sym(XLAT)};
        f.w = (int64_t)std::exp(std::log(360e6) * (double)s.draw(1000) / 1000.0);
        f.h = s.coin() ? f.w : (int64_t)std::exp(std::log(180e6) * (double)s.draw(1000) / 1000.0);
        P a = in_frame(s, f), b = in_frame(s, f);
        if (s.chance(1, 6)) b.x = a.x;
        if (s.chance(1, 6)) b.y = a.y;
        const auto other = [&](P u, P v) -> P {
            switch (s.pick({4, 1, 1, 2, 3})) {
            case 0: return in_frame(s, f);
            case 1: return u;
            case 2: return v;
            case 3: return on_line(s, u, v);
            default: return near_segment(s, u, v);
            }
        };
        P q = other(a, b), r = s.chance(1, 5) ? clampp(q + (b - a)) : other(a, b); // sometimes parallel
        c.describe([&] { return str(a, b) + " and " + str(q, r); });
        const LineSegment ab(co(a), co(b)), qr(co(q), co(r)), ba(co(b), co(a));
        PBT_CHECK(pt(ab.get_endpoint_1()) == a && pt(ab.get_endpoint_2()) == b, "ends", "the ends of " << str(a, b) << " are others");
        PBT_CHECK(pt(ab.get_tangent_vector()) == b - a, "tangent", "the direction of " << str(a, b) << " is " << pt(ab.get_tangent_vector()));
        { // the other end
            PBT_CHECK(pt(ab.get_adjacent_to(co(a))) == b && pt(ab.get_adjacent_to(co(b))) == a, "other-end", "the other end of " << str(a, b) << " is wrong");
            if (q != a && q != b) {
                bool threw = false;
                try { (void)ab.get_adjacent_to(co(q)); } catch (const std::runtime_error &) { threw = true; }
                PBT_CHECK(threw, "other-end", q << " is no end of " << str(a, b) << ", but has an other end");
            }
        }
        { // equality and hash
            const bool same = (a == q && b == r) || (a == r && b == q);
            PBT_CHECK((ab == qr) == same && (ab != qr) == !same, "equality", str(a, b) << " and " << str(q, r) << " compare " << (ab == qr ? "equal" : "different"));
            PBT_CHECK(ab == ba && !(ab != ba), "equality", str(a, b) << " is not equal to its reverse");
            PBT_CHECK(std::hash<LineSegment>()(ab) == std::hash<LineSegment>()(ba), "hash", str(a, b) << " and its reverse have different hashes");
        }
        { // sides
            const auto o = ab.orientation_of_point_to_segment(co(q));
            const int w = orient(a, b, q);
            PBT_CHECK(o == (w > 0 ? Orientation::COUNTER_CLOCKWISE : w < 0 ? Orientation::CLOCKWISE : Orientation::COLLINEAR), "side", "the side of " << str(a, b) << " on which " << q << " lies is wrong");
            PBT_CHECK(ab.on_segment(co(q)) == on_seg(a, b, q), "on-segment", q << " is" << (on_seg(a, b, q) ? " not" : "") << " held to lie on " << str(a, b));
            if (on_seg(a, b, q)) c.label("an end on the other segment");
        }
        { // intersection
            const P n = b - a, m = r - q;
            const i128 D = crossv(n, m);
            for (int flip = 0; flip < 4; ++flip) {
                const LineSegment &u = flip & 1 ? ba : ab;
                const LineSegment v = flip & 2 ? LineSegment(co(r), co(q)) : qr;
                const auto got = u.intersection_with_segment(v);
                const auto back = v.intersection_with_segment(u);
                PBT_CHECK(got.has_value() == back.has_value(), "symmetry", str(a, b) << " meets " << str(q, r) << " in one order only");
                if (D != 0) {
                    const bool meet = segments_touch(a, b, q, r);
                    PBT_CHECK(got.has_value() == meet, meet ? "missed" : "invented", str(a, b) << " and " << str(q, r) << " meet: " << meet << ", reported: " << got.has_value());
                    if (!meet) continue;
                    // p = a + n t, t = ((q - a) x m) / D
                    const long double t = (long double)crossv(q - a, m) / (long double)D;
                    const long double x = a.x + n.x * t, y = a.y + n.y * t;
                    for (const auto &g : {pt(*got), pt(*back)})
                        PBT_CHECK(std::fabs((double)(g.x - x)) <= 1 && std::fabs((double)(g.y - y)) <= 1, "where", str(a, b) << " and " << str(q, r) << " are said to meet at " << g << " instead of " << (double)x << "," << (double)y);
                } else {
                    const bool shared = a == q || a == r || b == q || b == r;
                    PBT_CHECK(got.has_value() == shared, "parallel", "parallel " << str(a, b) << " and " << str(q, r) << (shared ? " share an end, but" : " share no end, but") << " an intersection is" << (shared ? " not" : "") << " reported");
                    if (shared) {
                        const P g = pt(*got);
                        PBT_CHECK((g == a || g == b) && (g == q || g == r), "parallel", str(a, b) << " and " << str(q, r) << " are said to share the end " << g);
                    }
                }
            }
            if (D != 0 && segments_touch(a, b, q, r)) { c.nontrivial(); c.label("meeting"); }
            if (D == 0) c.label("parallel");
        }
        if (std::llabs(a.x) <= MAXLON && std::llabs(b.x) <= MAXLON && std::llabs(q.x) <= MAXLON && a != b && s.chance(1, 4)) { // projection, on the sphere
            const S2Point sa = paths::s2(a), sb = paths::s2(b), sq = paths::s2(q);
            if (sa.Angle(sb) < 3.0) {
                const Coordinate g = ab.project(co(q));
                const S2Point sg = paths::s2(pt(g));
                constexpr double MICRO = M_PI / 180e6;
                const double off = S2::GetDistance(sg, sa, sb).radians(), best = S2::GetDistance(sq, sa, sb).radians(), got = S1Angle(sq, sg).radians();
                PBT_CHECK(off <= 3 * MICRO, "projection", "the projection " << pt(g) << " of " << q << " is " << off / MICRO << " microdegrees off " << str(a, b));
                PBT_CHECK(got <= best + 3 * MICRO, "projection", "the projection " << pt(g) << " of " << q << " onto " << str(a, b) << " is " << got / MICRO << " microdegrees away, the segment " << best / MICRO);
                c.label("projection");
            }
        }
    };
    return pbt_main(p, argc, argv);
}

// C19: coordinates are exact microdegrees.
#include "capi.hpp"
#include <unordered_set>
using namespace pbt;
using namespace geo;
using namespace glue;

namespace {
constexpr int64_t XLON = 540000001, XLAT = 90000000;
int64_t value(Src &s, int64_t max) { // biased towards the boundaries, small values and powers of ten
    switch (s.pick({3, 2, 2, 1, 1})) {
    case 0: return s.sym(max);
    case 1: return s.sym(20);
    case 2: return (s.coin() ? 1 : -1) * (max - (int64_t)s.draw(3));
    case 3: { int64_t v = 1; for (uint64_t k = s.draw(8); k > 0; --k) v *= 10; return std::clamp<int64_t>((s.coin() ? 1 : -1) * v * s.range(1, 9), -max, max); }
    default: return std::clamp<int64_t>((s.coin() ? 1 : -1) * (180000000 + s.sym(2)), -max, max);
    }
}
P point(Src &s) { return {value(s, XLON), value(s, XLAT)}; }
P related(Src &s, P a) { // often parallel, equal in one part, or nearly so
    switch (s.pick({3, 2, 1, 1, 1, 2})) {
    case 0: return point(s);
    case 1: {
        int64_t g = std::abs(a.x), h = std::abs(a.y);
        while (h) { const int64_t t = g % h; g = h; h = t; }
        if (g == 0) return a;
        const P u{a.x / g, a.y / g};
        int64_t kmax = XLON;
        if (u.x) kmax = std::min(kmax, XLON / std::abs(u.x));
        if (u.y) kmax = std::min(kmax, XLAT / std::abs(u.y));
        const int64_t k = s.sym(kmax);
        P r{u.x * k, u.y * k};
        if (s.chance(1, 3)) r.y = std::clamp<int64_t>(r.y + s.sym(1), -XLAT, XLAT);
        return r;
    }
    case 2: return {a.x, value(s, XLAT)};
    case 3: return {value(s, XLON), a.y};
    case 4: return a;
    default: return {std::clamp<int64_t>(a.x + s.sym(2), -XLON, XLON), std::clamp<int64_t>(a.y + s.sym(2), -XLAT, XLAT)};
    }
}
bool near(long double got, long double want, long double rel, long double abs_) { return std::fabs((double)(got - want)) <= rel * std::fabs((double)want) + abs_; }
} // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C19";
    p.quick_cases = 4000000;
    p.thorough_cases = 200000000;
    p.rule = "Two coordinates with longitudes up to a turn and a half and latitudes on the globe, biased towards the boundaries, small values and powers of ten; the second often equal, parallel, nearly parallel, or equal in one part; a factor. "
             "Everything is compared with 128-bit integer or long double arithmetic. Non-trivial: neither is the origin.";
    p.body = [](Src &s, Ctx &c) {
        const P a = point(s), b = related(s, a);
        const Coordinate ca = co(a), cb = co(b);
        c.describe([&] { std::ostringstream os; os << a << " " << b; return os.str(); });
        // microdegrees are kept
        PBT_CHECK(pt(ca) == a, "microdegrees", "a coordinate of " << a << " microdegrees has " << pt(ca));
        PBT_CHECK(ca.get_longitude_microdegrees_long() == a.x && ca.get_latitude_microdegrees_long() == a.y, "microdegrees", "the long microdegrees of " << a << " differ");
        PBT_CHECK(near(ca.get_longitude(), a.x * 1e-6L, 1e-15L, 0) && near(ca.get_latitude(), a.y * 1e-6L, 1e-15L, 0), "degrees", "the degrees of " << a << " are " << ca.get_longitude() << "," << ca.get_latitude());
        { // from degrees, there and back
            const Coordinate d(ca.get_longitude(), ca.get_latitude());
            PBT_CHECK(std::llabs(pt(d).x - a.x) <= 1 && std::llabs(pt(d).y - a.y) <= 1, "degrees", a << " given in degrees becomes " << pt(d));
            const double x = (double)a.x * 1e-6 + (double)s.draw(1000000) * 1e-12, y = (double)a.y * 1e-6 + (double)s.draw(1000000) * 1e-12;
            const Coordinate e(x, y);
            PBT_CHECK(std::fabs((double)pt(e).x - 1e6 * x) <= 1.0 && std::fabs((double)pt(e).y - 1e6 * y) <= 1.0, "degrees", x << "," << y << " degrees become " << pt(e) << " microdegrees");
        }
        // equality and hash
        PBT_CHECK((ca == cb) == (a == b) && (ca != cb) == (a != b), "equality", a << " and " << b << " compare " << (ca == cb ? "equal" : "different"));
        if (a == b) PBT_CHECK(std::hash<Coordinate>()(ca) == std::hash<Coordinate>()(cb), "hash", "equal coordinates have different hashes");
        PBT_CHECK(pt(Coordinate(ca)) == a, "copy", "a copy differs");
        // sums (results within a 32-bit number of microdegrees: at most three turns)
        PBT_CHECK(pt(ca + cb) == a + b, "sum", a << " + " << b << " = " << pt(ca + cb));
        PBT_CHECK(pt(ca - cb) == a - b, "difference", a << " - " << b << " = " << pt(ca - cb));
        PBT_CHECK(pt(-ca) == (P{-a.x, -a.y}), "negation", "-" << a << " = " << pt(-ca));
        // products with a number
        {
            const double k = s.pick({2, 1, 1}) == 0 ? ((double)s.sym(3000000)) / 1e6 : s.coin() ? (double)s.sym(3) : (double)s.draw(1000000) / 1e6;
            if (std::fabs(k * (double)a.x) < 2e9 && std::fabs(k * (double)a.y) < 2e9) {
                const P r = pt(ca * k);
                PBT_CHECK(std::fabs((double)(r.x - (long double)k * a.x)) <= 1 && std::fabs((double)(r.y - (long double)k * a.y)) <= 1, "product", a << " * " << k << " = " << r);
            }
            if (k != 0 && std::fabs((double)a.x / k) < 2e9 && std::fabs((double)a.y / k) < 2e9) {
                const P r = pt(ca / k);
                PBT_CHECK(std::fabs((double)(r.x - (long double)a.x / k)) <= 1 && std::fabs((double)(r.y - (long double)a.y / k)) <= 1, "quotient", a << " / " << k << " = " << r);
            }
        }
        // products of the two, and of differences of points (vectors up to three turns long)
        const auto products = [&](P u, P v, const Coordinate &cu, const Coordinate &cv) {
            const i128 cr = crossv(u, v), dt = dotv(u, v), ms = dotv(u, u);
            PBT_CHECK((i128)cu.cross_product_magnitude_microdegrees(cv) == cr, "cross", "the cross product of " << u << " and " << v << " is wrong");
            PBT_CHECK((i128)cu.dot_product_microdegrees(cv) == dt, "dot", "the dot product of " << u << " and " << v << " is wrong");
            PBT_CHECK((i128)cu.magnitude_squared_microdegrees() == ms, "square", "the squared length of " << u << " is wrong");
            const auto o = cu.vector_orientation(cv);
            PBT_CHECK(o == (cr > 0 ? Orientation::COUNTER_CLOCKWISE : cr < 0 ? Orientation::CLOCKWISE : Orientation::COLLINEAR), "turn", "the turn from " << u << " to " << v << " is wrong");
            PBT_CHECK(cu.parallel(cv) == (cr == 0), "parallel", u << " and " << v << " are" << (cr == 0 ? " not" : "") << " held to be parallel");
            // in degrees, with doubles
            const long double scale = (std::fabs((double)u.x * (double)v.x) + std::fabs((double)u.y * (double)v.y) + std::fabs((double)u.x * (double)v.y) + std::fabs((double)u.y * (double)v.x)) * 1e-12L;
            PBT_CHECK(near(cu.dot_product(cv), (long double)dt * 1e-12L, 0, 1e-14L * scale + 1e-30L), "dot", "the dot product of " << u << " and " << v << " in degrees is " << cu.dot_product(cv));
            PBT_CHECK(near(cu.cross_product_magnitude(cv), (long double)cr * 1e-12L, 0, 1e-14L * scale + 1e-30L), "cross", "the cross product of " << u << " and " << v << " in degrees is " << cu.cross_product_magnitude(cv));
            PBT_CHECK(near(cu.magnitude_squared(), (long double)ms * 1e-12L, 1e-14L, 0), "square", "the squared length of " << u << " in degrees is wrong");
            PBT_CHECK(near(cu.magnitude(), std::sqrt((long double)ms) * 1e-6L, 1e-14L, 0), "length", "the length of " << u << " is " << cu.magnitude());
            const auto f = cu.scalar_multiple_factor(cv);
            PBT_CHECK(f.has_value() == (cr == 0), "factor", u << " and " << v << (cr == 0 ? " are parallel but have no factor" : " are not parallel but have a factor"));
            if (f && !(u == P{0, 0}))
                PBT_CHECK(near((long double)*f * u.x, v.x, 1e-14L, 0) && near((long double)*f * u.y, v.y, 1e-14L, 0), "factor", v << " is " << *f << " times " << u);
            if (!(u == P{0, 0})) {
                long double want = std::atan2((long double)u.y, (long double)u.x);
                if (want < 0) want += 2 * acosl(-1.0L);
                const double got = cu.angle_to_horizontal();
                PBT_CHECK(got >= 0 && got < 2 * M_PI && near(got, want, 1e-15L, 1e-15L), "angle", "the angle of " << u << " is " << got);
            }
        };
        products(a, b, ca, cb);
        const P d = related(s, a);
        products(a - b, d - b, ca - cb, co(d) - cb);
        if (std::llabs(a.x) <= MAXLON && std::llabs(b.x) <= MAXLON) { // to the sphere and back
            const P r = pt(Coordinate(ca.to_s2_point()));
            PBT_CHECK(r == a, "sphere", a << " comes back from the sphere as " << r);
            const double rad = M_PI / 180e6;
            const long double f1 = a.y * rad, f2 = b.y * rad, dl = (b.x - a.x) * rad;
            const long double num = std::hypot(std::cos(f2) * std::sin(dl), std::cos(f1) * std::sin(f2) - std::sin(f1) * std::cos(f2) * std::cos(dl));
            const long double want = std::atan2(num, std::sin(f1) * std::sin(f2) + std::cos(f1) * std::cos(f2) * std::cos(dl));
            PBT_CHECK(near(ca.spherical_distance(cb), want, 1e-9L, want > 3 ? 1e-6L : 1e-13L), "distance", "the distance of " << a << " and " << b << " on the sphere is " << ca.spherical_distance(cb) << " instead of " << (double)want);
            c.label("on the globe");
        }
        c.nontrivial(!(a == P{0, 0}) && !(b == P{0, 0}));
        if (crossv(a, b) == 0) c.label("parallel");
    };
    return pbt_main(p, argc, argv);
}

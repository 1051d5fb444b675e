// Exact planar oracles.  Everything is integer arithmetic on microdegrees (128-bit products), written from the
// definition (segments against simple polygons), sharing no code and no algorithm with the code under test.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <map>
#include <ostream>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace geo {
typedef __int128 i128;
constexpr int64_t PERIOD = 360000001; // microdegrees between a point and its copy over the antimeridian
constexpr int64_t MAXLON = 180000000;

struct P {
    int64_t x, y;
    bool operator==(const P &o) const { return x == o.x && y == o.y; }
    bool operator!=(const P &o) const { return !(*this == o); }
    bool operator<(const P &o) const { return x != o.x ? x < o.x : y < o.y; }
    P operator+(const P &o) const { return {x + o.x, y + o.y}; }
    P operator-(const P &o) const { return {x - o.x, y - o.y}; }
};
inline std::ostream &operator<<(std::ostream &os, const P &p) { return os << "(" << p.x << "," << p.y << ")"; }
using Ring = std::vector<P>;

inline int sgn(i128 v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline i128 crossv(P a, P b) { return (i128)a.x * b.y - (i128)a.y * b.x; }
inline i128 dotv(P a, P b) { return (i128)a.x * b.x + (i128)a.y * b.y; }
inline i128 cross3(P a, P b, P c) { return crossv(b - a, c - a); }
inline int orient(P a, P b, P c) { return sgn(cross3(a, b, c)); }
inline bool on_seg(P a, P b, P p) { // closed segment
    return orient(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) &&
           std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
inline bool in_open_seg(P a, P b, P p) { return p != a && p != b && on_seg(a, b, p); }
inline bool proper_cross(P a, P b, P c, P d) {
    const int o1 = orient(a, b, c), o2 = orient(a, b, d);
    if (o1 * o2 >= 0) return false;
    return orient(c, d, a) * orient(c, d, b) < 0;
}
inline bool segments_touch(P a, P b, P c, P d) { // closed segments share a point
    return proper_cross(a, b, c, d) || on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b);
}
// 1 strictly inside, 0 on the boundary, -1 outside
inline int in_ring(const Ring &r, P p) {
    bool in = false;
    for (size_t i = 0, n = r.size(); i < n; ++i) {
        const P a = r[i], b = r[(i + 1) % n];
        if (on_seg(a, b, p)) return 0;
        if ((a.y > p.y) != (b.y > p.y)) {
            const int o = orient(a, b, p);
            if ((b.y > a.y) ? o > 0 : o < 0) in = !in;
        }
    }
    return in ? 1 : -1;
}
inline i128 area2(const Ring &r) {
    i128 s = 0;
    for (size_t i = 0; i < r.size(); ++i) s += crossv(r[i], r[(i + 1) % r.size()]);
    return s;
}
inline bool simple_ring(const Ring &r) {
    const size_t n = r.size();
    if (n < 3) return false;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i + 1; j < n; ++j) {
            const P a = r[i], b = r[(i + 1) % n], c = r[j], d = r[(j + 1) % n];
            if (a == b || c == d) return false;
            if (j == i + 1 || (i == 0 && j == n - 1)) {
                const P shared = j == i + 1 ? b : a;
                const P u = j == i + 1 ? a : b, v = j == i + 1 ? d : c;
                if (orient(shared, u, v) == 0 && dotv(u - shared, v - shared) > 0) return false; // spike
            } else if (segments_touch(a, b, c, d))
                return false;
        }
    return true;
}
inline bool disjoint_rings(const Ring &r, const Ring &s) {
    for (size_t i = 0; i < r.size(); ++i)
        for (size_t j = 0; j < s.size(); ++j)
            if (segments_touch(r[i], r[(i + 1) % r.size()], s[j], s[(j + 1) % s.size()])) return false;
    return in_ring(r, s[0]) < 0 && in_ring(s, r[0]) < 0;
}
// Canonical outline of the region: counter-clockwise, corners only, starting at the smallest corner.
inline Ring canonical(Ring r) {
    if (area2(r) < 0) std::reverse(r.begin(), r.end());
    Ring u;
    for (auto &p : r)
        if (u.empty() || u.back() != p) u.push_back(p);
    while (u.size() > 1 && u.front() == u.back()) u.pop_back();
    bool again = true;
    while (again && u.size() >= 3) {
        again = false;
        for (size_t i = 0; i < u.size(); ++i)
            if (orient(u[(i + u.size() - 1) % u.size()], u[i], u[(i + 1) % u.size()]) == 0) {
                u.erase(u.begin() + i);
                again = true;
                break;
            }
    }
    if (!u.empty()) std::rotate(u.begin(), std::min_element(u.begin(), u.end()), u.end());
    return u;
}

enum Vis { CLEAR, GRAZING, MARGINAL, BLOCKED };
inline const char *vis_name(Vis v) {
    return v == CLEAR ? "clear" : v == GRAZING ? "grazing" : v == MARGINAL ? "marginal" : "blocked";
}

struct Box { int64_t x0, y0, x1, y1; };

// Land: disjoint simple rings, not periodic (add the copies yourself).
struct Land {
    std::vector<Ring> rings;
    std::vector<Box> boxes;
    void add(const Ring &r) {
        rings.push_back(r);
        Box b{r[0].x, r[0].y, r[0].x, r[0].y};
        for (auto &p : r) {
            b.x0 = std::min(b.x0, p.x); b.x1 = std::max(b.x1, p.x);
            b.y0 = std::min(b.y0, p.y); b.y1 = std::max(b.y1, p.y);
        }
        boxes.push_back(b);
    }
    // 1 strictly inside some ring, 0 on a boundary, -1 at sea
    int where(P p) const {
        for (size_t i = 0; i < rings.size(); ++i) {
            const auto &b = boxes[i];
            if (p.x < b.x0 || p.x > b.x1 || p.y < b.y0 || p.y > b.y1) continue;
            const int k = in_ring(rings[i], p);
            if (k >= 0) return k;
        }
        return -1;
    }
    // Can a ship sail straight from p to q?  CLEAR: the open segment touches no land.  GRAZING: it touches land only
    // along coast lines or at corners.  MARGINAL: it cuts land, but only within `tol` microdegrees of an end point
    // (or by a chord that short, or by passing a corner on its inside by less than a thousandth of a microdegree), which is
    // below the resolution of the coordinates (one microdegree, about 0.1 m).
    Vis classify(P p, P q, double tol = 3.0) const {
        if (p == q) return CLEAR;
        bool graze = false, marginal = false;
        const int64_t x0 = std::min(p.x, q.x), x1 = std::max(p.x, q.x), y0 = std::min(p.y, q.y), y1 = std::max(p.y, q.y);
        const double len = std::hypot((double)(q.x - p.x), (double)(q.y - p.y));
        for (size_t k = 0; k < rings.size(); ++k) {
            const auto &b = boxes[k];
            if (x1 < b.x0 || x0 > b.x1 || y1 < b.y0 || y0 > b.y1) continue;
            const auto &r = rings[k];
            const size_t n = r.size();
            std::vector<P> cuts;
            bool crossed = false;
            for (size_t i = 0; i < n; ++i) {
                const P a = r[i], c = r[(i + 1) % n];
                if (proper_cross(p, q, a, c)) {
                    const i128 d1 = cross3(a, c, p), d2 = cross3(a, c, q);
                    const double t = (double)d1 / ((double)d1 - (double)d2);
                    // how far the coast line's nearer corner is from the straight line, in microdegrees
                    const double corner = std::min(std::abs((double)cross3(p, q, a)), std::abs((double)cross3(p, q, c))) / len;
                    if (t * len <= tol || (1 - t) * len <= tol || corner < 1e-3) { marginal = true; crossed = true; }
                    else return BLOCKED;
                }
                if (in_open_seg(p, q, a)) cuts.push_back(a);
            }
            if (!cuts.empty()) graze = true;
            if (crossed) continue; // (the rest of this ring was not cut anywhere else)
            std::sort(cuts.begin(), cuts.end(), [&](P u, P v) { return dotv(u - p, q - p) < dotv(v - p, q - p); });
            cuts.insert(cuts.begin(), p);
            cuts.push_back(q);
            Ring r2 = r;
            for (auto &v : r2) { v.x *= 2; v.y *= 2; }
            for (size_t i = 0; i + 1 < cuts.size(); ++i) {
                const P m = cuts[i] + cuts[i + 1];
                const int w = in_ring(r2, m);
                if (w > 0) {
                    const P d = cuts[i + 1] - cuts[i];
                    if (std::hypot((double)d.x, (double)d.y) <= 2 * tol) marginal = true;
                    else return BLOCKED;
                }
            }
        }
        return marginal ? MARGINAL : graze ? GRAZING : CLEAR;
    }
};

inline Ring shifted(Ring r, int64_t dx) {
    for (auto &p : r) p.x += dx;
    return r;
}
inline Land periodic(const std::vector<Ring> &rings) {
    Land l;
    for (int k = -1; k <= 1; ++k)
        for (auto &r : rings) l.add(shifted(r, k * PERIOD));
    return l;
}
inline Land planar(const std::vector<Ring> &rings) {
    Land l;
    for (auto &r : rings) l.add(r);
    return l;
}
inline double dist(P a, P b) { return std::hypot((double)(a.x - b.x), (double)(a.y - b.y)) * 1e-6; }
} // namespace geo

// Generators of coast lines: disjoint simple polygons, by construction.
#pragma once
#include "engine.hpp"
#include "geo.hpp"
#include <tuple>

namespace scene {
using geo::P;
using geo::Ring;
using pbt::Src;

struct Opts {
    int max_w = 8, max_h = 7;       // grid cells
    int64_t min_unit = 60;          // microdegrees per cell
    int64_t max_unit = 20000000;
    int64_t max_lat = 85000000;
    bool near_meridian = true;      // may place land around +-180
    bool allow_world = true;
    size_t max_vertices = 70;
    bool degenerate_corners = false; // collinear / axis-parallel scenes (grid without jitter) allowed
    int max_components = 6;
    int only_region = -1; // >=0: force the kind of placement
    int max_grow = 9;     // cells per component
};

// A bigger map: hundreds of corners.
inline Opts big(Opts o = {}) {
    o.max_w = 24;
    o.max_h = 20;
    o.max_components = 45;
    o.max_vertices = 420;
    o.max_grow = 25;
    return o;
}

// A map with a thousand corners or more.
inline Opts huge(Opts o = {}) {
    o.max_w = 64;
    o.max_h = 48;
    o.max_components = 300;
    o.max_vertices = 3000;
    o.max_grow = 25;
    return o;
}

struct Scene {
    std::vector<Ring> rings; // as handed to the code: either direction, any starting corner
    int64_t unit = 0, x0 = 0, y0 = 0;
    int w = 0, h = 0;
    std::string kind, placement;
    size_t vertices() const {
        size_t n = 0;
        for (auto &r : rings) n += r.size();
        return n;
    }
    std::string str() const {
        std::ostringstream os;
        os << kind << " coast, " << placement << ", cell " << unit << " microdegrees, " << rings.size() << " polygons:";
        for (auto &r : rings) {
            os << "\n  [";
            for (size_t i = 0; i < r.size(); ++i) os << (i ? " " : "") << r[i];
            os << "]";
        }
        return os.str();
    }
};

// --- polyomino components on a w x h grid; returns rings in lattice coordinates, counter-clockwise
struct Grid {
    int w, h;
    std::vector<int> c; // component id or 0
    int at(int x, int y) const { return x < 0 || y < 0 || x >= w || y >= h ? 0 : c[y * w + x]; }
};
inline bool can_add(const Grid &g, int x, int y, int id) {
    if (x < 0 || y < 0 || x >= g.w || y >= g.h || g.at(x, y)) return false;
    for (int dx = -1; dx <= 1; ++dx)
        for (int dy = -1; dy <= 1; ++dy) {
            const int o = g.at(x + dx, y + dy);
            if (o && o != id) return false;
        }
    // no diagonal contact inside the component
    for (int dx : {-1, 1})
        for (int dy : {-1, 1})
            if (g.at(x + dx, y + dy) == id && g.at(x + dx, y) != id && g.at(x, y + dy) != id) return false;
    // keeps the component free of holes: the empty cells around (x,y), padded, stay connected
    Grid n = g;
    n.c[y * g.w + x] = id;
    std::vector<char> seen((g.w + 2) * (g.h + 2), 0);
    std::vector<std::pair<int, int>> st{{-1, -1}};
    auto idx = [&](int a, int b) { return (b + 1) * (g.w + 2) + a + 1; };
    seen[idx(-1, -1)] = 1;
    size_t count = 1;
    while (!st.empty()) {
        const auto [a, b] = st.back();
        st.pop_back();
        const int d[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
        for (auto &e : d) {
            const int u = a + e[0], v = b + e[1];
            if (u < -1 || v < -1 || u > g.w || v > g.h || seen[idx(u, v)] || n.at(u, v) == id) continue;
            seen[idx(u, v)] = 1;
            ++count;
            st.push_back({u, v});
        }
    }
    size_t of_id = 0;
    for (auto v : n.c) of_id += v == id;
    return count == (size_t)(g.w + 2) * (g.h + 2) - of_id;
}
inline Ring trace(const Grid &g, int id) {
    std::map<P, P> next;
    for (int y = 0; y < g.h; ++y)
        for (int x = 0; x < g.w; ++x) {
            if (g.at(x, y) != id) continue;
            if (g.at(x, y - 1) != id) next[{x, y}] = {x + 1, y};
            if (g.at(x + 1, y) != id) next[{x + 1, y}] = {x + 1, y + 1};
            if (g.at(x, y + 1) != id) next[{x + 1, y + 1}] = {x, y + 1};
            if (g.at(x - 1, y) != id) next[{x, y + 1}] = {x, y};
        }
    Ring r;
    if (next.empty()) return r;
    P p = next.begin()->first;
    const P start = p;
    do {
        r.push_back(p);
        p = next[p];
    } while (p != start && r.size() < 1000);
    return r;
}

inline Scene generate(Src &s, const Opts &o) {
    Scene sc;
    const size_t kind = s.pick({3, 4, 3}); // grid, jittered grid, stars
    // size and place of the grid
    sc.w = (int)s.range(2, o.max_w);
    sc.h = (int)s.range(2, o.max_h);
    const size_t placement = o.only_region >= 0 ? (size_t)o.only_region
                                                : s.pick({4, (unsigned)(o.near_meridian ? 2 : 0), (unsigned)(o.near_meridian ? 2 : 0),
                                                          (unsigned)(o.near_meridian ? 2 : 0), (unsigned)(o.allow_world ? 2 : 0)});
    const char *pn[] = {"anywhere", "against +180", "against -180", "on both sides of the antimeridian", "world-wide"};
    sc.placement = pn[placement];
    int64_t umax = std::min<int64_t>({o.max_unit, 350000000 / sc.w, 2 * o.max_lat / sc.h});
    if (placement == 4) {
        umax = std::min<int64_t>(2 * o.max_lat / sc.h, 359000000 / sc.w);
        sc.unit = umax - s.range(0, umax / 3);
    } else {
        // log-uniform unit
        const double lo = std::log((double)o.min_unit), hi = std::log((double)std::max(umax, o.min_unit + 1));
        sc.unit = (int64_t)std::exp(lo + (hi - lo) * (double)s.draw(1000) / 1000.0);
        sc.unit = std::max<int64_t>(o.min_unit, sc.unit);
        if (sc.unit >= 20 && s.chance(1, 2)) sc.unit = sc.unit / 10 * 10;
    }
    const int64_t W = sc.w * sc.unit, H = sc.h * sc.unit;
    if (W > 2 * geo::MAXLON || H > 2 * o.max_lat) pbt::discard();
    sc.y0 = -o.max_lat + (int64_t)s.draw((uint64_t)(2 * o.max_lat - H));
    if (s.chance(1, 3)) sc.y0 = std::max(-o.max_lat, -H / 2);
    if (placement == 1) sc.x0 = geo::MAXLON - W;
    else if (placement == 2) sc.x0 = -geo::MAXLON;
    else sc.x0 = -geo::MAXLON + (int64_t)s.draw((uint64_t)(2 * geo::MAXLON - W));
    const int n_comp = (int)s.range(1, o.max_components);
    std::vector<Ring> lattice; // in units of unit/64
    const int64_t Q = 64;
    if (kind <= 1) {
        sc.kind = kind == 0 ? "grid" : "jittered";
        Grid g{sc.w, sc.h, std::vector<int>(sc.w * sc.h, 0)};
        for (int id = 1; id <= n_comp; ++id) {
            const int sx = (int)s.range(0, sc.w - 1), sy = (int)s.range(0, sc.h - 1);
            if (!can_add(g, sx, sy, id)) continue;
            g.c[sy * sc.w + sx] = id;
            std::vector<std::pair<int, int>> cells{{sx, sy}};
            const int grow = (int)s.draw((uint64_t)o.max_grow);
            for (int k = 0; k < grow; ++k) {
                const auto c = cells[s.draw(cells.size() - 1)];
                const int d = (int)s.draw(3);
                const int dx[] = {1, 0, -1, 0}, dy[] = {0, 1, 0, -1};
                const int x = c.first + dx[d], y = c.second + dy[d];
                if (!can_add(g, x, y, id)) continue;
                g.c[y * sc.w + x] = id;
                cells.push_back({x, y});
            }
        }
        for (int id = 1; id <= n_comp; ++id) {
            Ring r = trace(g, id);
            if (r.size() < 4) continue;
            Ring corners;
            for (size_t i = 0; i < r.size(); ++i)
                if (geo::orient(r[(i + r.size() - 1) % r.size()], r[i], r[(i + 1) % r.size()]) != 0) corners.push_back(r[i]);
            for (auto &p : corners) {
                p.x *= Q;
                p.y *= Q;
                if (kind == 1) {
                    p.x += s.sym(15);
                    p.y += s.sym(15);
                }
                p.x = std::max<int64_t>(0, std::min<int64_t>(p.x, sc.w * Q));
                p.y = std::max<int64_t>(0, std::min<int64_t>(p.y, sc.h * Q));
            }
            lattice.push_back(corners);
        }
    } else {
        const bool islets = s.chance(1, 4); // small and far between: nearly everything is in sight
        sc.kind = islets ? "islets" : "star";
        std::set<std::pair<int, int>> used;
        for (int k = 0; k < n_comp; ++k) {
            const int cx = (int)s.range(0, sc.w - 1), cy = (int)s.range(0, sc.h - 1);
            if (!used.insert({cx, cy}).second) continue;
            const int n = (int)s.range(3, islets ? 4 : 9);
            Ring r;
            for (int i = 0; i < n; ++i) {
                const double a = 2 * M_PI * (i + 0.7 * (double)s.draw(100) / 100.0) / n;
                const double rad = (0.48 - 0.4 * (double)s.draw(100) / 100.0) * (islets ? 0.4 : 1) * Q;
                r.push_back({(int64_t)std::llround((cx + 0.5) * Q + rad * std::cos(a)), (int64_t)std::llround((cy + 0.5) * Q + rad * std::sin(a))});
            }
            lattice.push_back(r);
        }
    }
    // to microdegrees
    for (auto &r : lattice) {
        Ring m;
        // on both sides of the antimeridian: each component goes to one of the two edges of the map
        const bool east = placement == 3 ? s.coin() : false;
        const int64_t ox = placement == 3 ? (east ? geo::MAXLON - W : -geo::MAXLON) : sc.x0;
        for (auto &p : r) m.push_back({ox + (p.x * sc.unit) / Q, sc.y0 + (p.y * sc.unit) / Q});
        if (s.coin()) std::reverse(m.begin(), m.end());
        std::rotate(m.begin(), m.begin() + s.draw(m.size() - 1), m.end());
        sc.rings.push_back(m);
    }
    if (sc.rings.empty() || sc.vertices() > o.max_vertices) pbt::discard();
    for (size_t i = 0; i < sc.rings.size(); ++i) {
        if (!geo::simple_ring(sc.rings[i])) pbt::discard();
        for (size_t j = 0; j < i; ++j)
            if (!geo::disjoint_rings(sc.rings[i], sc.rings[j])) pbt::discard();
        for (size_t j = 0; j < sc.rings[i].size(); ++j) // corners only: no straight-through vertices
            if (geo::orient(sc.rings[i][j], sc.rings[i][(j + 1) % sc.rings[i].size()], sc.rings[i][(j + 2) % sc.rings[i].size()]) == 0) pbt::discard();
    }
    return sc;
}

// Many narrow bars, one beside the other, which reach past the middle from above and from below in turns: the shortest way through is long.
inline Scene slalom(Src &s, int max_bars, const Opts &o) {
    Scene sc;
    const int64_t Q = 64;
    const int n = (int)s.range(max_bars > 80 ? 60 : 2, max_bars), half = (int)s.range(2, 8);
    sc.w = 2 * n + 1;
    sc.h = 2 * half;
    sc.kind = "slalom";
    const int64_t umax = std::min<int64_t>({o.max_unit, 340000000 / sc.w, 2 * o.max_lat / sc.h});
    const double lo = std::log((double)o.min_unit * 4), hi = std::log((double)std::max(umax, o.min_unit * 4 + 1));
    sc.unit = (int64_t)std::exp(lo + (hi - lo) * (double)s.draw(1000) / 1000.0) / 4 * 4;
    if (sc.unit < Q) sc.unit = Q;
    const int64_t W = sc.w * sc.unit, H = sc.h * sc.unit;
    if (W > 340000000 || H > 2 * o.max_lat) pbt::discard();
    sc.y0 = -o.max_lat + (int64_t)s.draw((uint64_t)(2 * o.max_lat - H));
    if (s.chance(1, 2)) sc.y0 = std::max(-o.max_lat, -H / 2);
    const bool both = o.near_meridian && s.chance(1, 3);
    sc.x0 = -geo::MAXLON + (int64_t)s.draw((uint64_t)(2 * geo::MAXLON - W));
    const int first_over = both ? (int)s.range(1, n) : n; // the bars from here on lie past the antimeridian
    if (both) sc.x0 = geo::MAXLON - (2 * first_over + 1) * sc.unit + (int64_t)s.draw((uint64_t)sc.unit);
    sc.placement = both ? "on both sides of the antimeridian" : "anywhere";
    const bool deep = s.coin(); // the way through touches every bar
    bool above = s.coin();
    for (int k = 0; k < n; ++k, above = deep || s.chance(9, 10) ? !above : above) {
        const int64_t x = (2 * k + 1) * Q, tip = half * Q + (above ? -1 : 1) * s.range(deep ? Q - 10 : 0, Q), foot = above ? 2 * half * Q : 0;
        Ring r{{x + s.sym(15), foot}, {x + Q / 2 + s.range(0, 31), foot}, {x + Q / 2 + s.range(0, 31), tip}, {x + s.sym(15), tip + (s.coin() ? s.sym(20) : 0)}};
        if (s.chance(1, 5)) r.erase(r.begin() + 2);
        Ring m;
        for (auto &p : r) m.push_back({sc.x0 + p.x * sc.unit / Q - (k >= first_over ? geo::PERIOD : 0), sc.y0 + p.y * sc.unit / Q});
        for (auto &p : m)
            if (std::abs(p.x) > geo::MAXLON) pbt::discard();
        if (s.coin()) std::reverse(m.begin(), m.end());
        std::rotate(m.begin(), m.begin() + s.draw(m.size() - 1), m.end());
        sc.rings.push_back(m);
    }
    if (sc.x0 < -geo::MAXLON) pbt::discard();
    for (auto &r : sc.rings) {
        if (!geo::simple_ring(r)) pbt::discard();
        for (size_t j = 0; j < r.size(); ++j)
            if (geo::orient(r[j], r[(j + 1) % r.size()], r[(j + 2) % r.size()]) == 0) pbt::discard();
    }
    for (size_t i = 0; i < sc.rings.size(); ++i) // bars are disjoint by construction, but next to each other they may have been rounded
        for (size_t j = i ? i - 1 : 0; j < i; ++j)
            if (!geo::disjoint_rings(sc.rings[i], sc.rings[j])) pbt::discard();
    return sc;
}

// One or two coasts with many corners (hundreds in one polygon): headlands and bays above a straight base, and perhaps such land across a strait.
inline Scene terrain(Src &s, int max_corners, const Opts &o) {
    Scene sc;
    const int64_t Q = 64;
    const int lands = (int)s.range(1, 2);
    const int n = (int)s.range(4, max_corners / lands);
    sc.kind = "terrain";
    sc.placement = "anywhere";
    sc.w = n - 1;
    sc.h = (int)s.range(4, 12);
    const int64_t umax = std::min<int64_t>({o.max_unit, 300000000 / sc.w, 2 * o.max_lat / sc.h});
    const double lo = std::log((double)o.min_unit * 4), hi = std::log((double)std::max(umax, o.min_unit * 4 + 1));
    sc.unit = std::max(Q, (int64_t)std::exp(lo + (hi - lo) * (double)s.draw(1000) / 1000.0));
    const int64_t W = sc.w * sc.unit, H = sc.h * sc.unit;
    if (W > 300000000 || H > 2 * o.max_lat) pbt::discard();
    sc.y0 = -o.max_lat + (int64_t)s.draw((uint64_t)(2 * o.max_lat - H));
    if (s.chance(1, 2)) sc.y0 = std::max(-o.max_lat, -H / 2);
    sc.x0 = -geo::MAXLON + (int64_t)s.draw((uint64_t)(2 * geo::MAXLON - W));
    if (o.near_meridian && s.chance(1, 5)) {
        const bool east = s.coin();
        sc.x0 = east ? geo::MAXLON - W : -geo::MAXLON;
        sc.placement = east ? "against +180" : "against -180";
    }
    const int style = (int)s.range(0, 2); // rough, level plateaus, one mountain
    for (int l = 0; l < lands; ++l) {
        const int64_t room = Q * sc.h * 15 / 32; // each land stays on its side of the strait
        Ring r{{0, 0}, {sc.w * Q, 0}};
        for (int i = n - 1; i >= 0; --i) {
            const int64_t x = i * Q + (i && i < n - 1 ? s.sym(20) : 0);
            int64_t y = s.range(1, room);
            if (style == 1) y = std::min(room, (y / (2 * Q) + 1) * 2 * Q);
            if (style == 2) y = std::max<int64_t>(1, room - room * std::abs(2 * i - n) / n - s.range(0, room / 8));
            r.push_back({x, y});
        }
        for (auto &p : r) {
            if (l) p.y = sc.h * Q - p.y;
            p = {sc.x0 + p.x * sc.unit / Q, sc.y0 + p.y * sc.unit / Q};
        }
        Ring m;
        for (bool again = true; again;) { // corners only
            again = false;
            m.clear();
            for (size_t j = 0; j < r.size(); ++j) {
                const P before = m.empty() ? r.back() : m.back();
                if (before != r[j] && geo::orient(before, r[j], r[(j + 1) % r.size()]) != 0) m.push_back(r[j]);
                else again = true;
            }
            r = m;
            if (r.size() < 3) pbt::discard();
        }
        if (!geo::simple_ring(m)) pbt::discard();
        if (s.coin()) std::reverse(m.begin(), m.end());
        std::rotate(m.begin(), m.begin() + s.draw(m.size() - 1), m.end());
        sc.rings.push_back(m);
    }
    if (lands == 2 && !geo::disjoint_rings(sc.rings[0], sc.rings[1])) pbt::discard();
    return sc;
}

// Many long bars in a stack, with long oblique coasts between them and a few islands before them: sweeps with many open coast lines at a time,
// among which those which begin far off come close.
inline Scene blinds(Src &s, int max_bars, const Opts &o) {
    Scene sc;
    const int64_t Q = 64;
    const int n = (int)s.range(max_bars > 30 ? 25 : 3, max_bars);
    const int rows = n / 2 + 14, cols = (int)s.range(12, 60);
    sc.kind = "blinds";
    sc.placement = "anywhere";
    const bool turned = s.coin();
    const int flip = (int)s.range(0, 3);
    sc.w = turned ? rows : cols;
    sc.h = turned ? cols : rows;
    const int64_t umax = std::min<int64_t>({o.max_unit, 300000000 / sc.w, 2 * o.max_lat / sc.h});
    const double lo = std::log((double)o.min_unit * 4), hi = std::log((double)std::max(umax, o.min_unit * 4 + 1));
    sc.unit = std::max(Q, (int64_t)std::exp(lo + (hi - lo) * (double)s.draw(1000) / 1000.0));
    const int64_t W = sc.w * sc.unit, H = sc.h * sc.unit;
    if (W > 300000000 || H > 2 * o.max_lat) pbt::discard();
    sc.y0 = -o.max_lat + (int64_t)s.draw((uint64_t)(2 * o.max_lat - H));
    if (s.chance(1, 2)) sc.y0 = std::max(-o.max_lat, -H / 2);
    sc.x0 = -geo::MAXLON + (int64_t)s.draw((uint64_t)(2 * geo::MAXLON - W));
    std::vector<Ring> rs;
    const auto box = [](int64_t w, int64_t b, int64_t e, int64_t t) { return Ring{{w, b}, {e, b}, {e, t}, {w, t}}; };
    for (int k = s.range(1, 3); k > 0; --k) { // islands
        const int64_t x = s.range(0, cols / 3) * Q + 8, y = s.range(0, 3) * Q + 4;
        rs.push_back(box(x, y, x + s.range(4, Q - 10), y + s.range(4, Q - 10)));
    }
    for (int k = s.range(1, 2); k > 0; --k) { // oblique coasts
        const P far{s.range(cols / 2, cols) * Q, s.range(Q / 2, 8 * Q)}, near{s.range(1, cols / 3) * Q, s.range(3 * Q, 12 * Q)};
        rs.push_back({far, {near.x + s.range(0, 2 * Q), near.y + s.range(1, Q)}, near});
    }
    const bool even = s.coin();
    const int64_t west = s.range(2, cols / 2) * Q, east = std::max(west + Q, s.range(cols / 3, cols - 1) * Q);
    for (int k = 0; k < n; ++k) {
        const int64_t y = 13 * Q + k * Q / 2;
        const int64_t w = even ? west : s.range(0, west), e = even ? east : s.range(east, cols * Q);
        const int64_t tilt = s.chance(1, 3) ? s.sym(8) : 0;
        Ring b{{w, y + 8}, {e, y + 8 + tilt}, {e, y + 12 + tilt}, {w, y + 12}};
        if (s.chance(1, 4)) b.pop_back(); // a wedge
        rs.push_back(b);
    }
    for (auto &r : rs) {
        Ring m;
        for (auto p : r) {
            if (flip & 1) p.x = cols * Q - p.x;
            if (flip & 2) p.y = rows * Q - p.y;
            if (turned) std::swap(p.x, p.y);
            m.push_back({sc.x0 + p.x * sc.unit / Q, sc.y0 + p.y * sc.unit / Q});
        }
        bool ok = geo::simple_ring(m);
        for (size_t j = 0; ok && j < m.size(); ++j) ok = geo::orient(m[j], m[(j + 1) % m.size()], m[(j + 2) % m.size()]) != 0;
        for (auto &q : sc.rings) ok = ok && geo::disjoint_rings(m, q);
        if (!ok) continue;
        if (s.coin()) std::reverse(m.begin(), m.end());
        std::rotate(m.begin(), m.begin() + s.draw(m.size() - 1), m.end());
        sc.rings.push_back(m);
    }
    if (sc.rings.empty()) pbt::discard();
    return sc;
}

// Walls along meridians (which are the same on the plane and on the sphere) and islands small and far between, all around the globe:
// much is in sight over the antimeridian only, also at more than half a turn, and often the way around one wall leads there.
inline Scene meridians(Src &s, const Opts &o) {
    Scene sc;
    sc.kind = "meridians";
    sc.placement = "world-wide";
    sc.unit = 15000000;
    sc.w = 23;
    sc.h = (int)(2 * o.max_lat / sc.unit);
    sc.x0 = -175000000;
    sc.y0 = -o.max_lat;
    const int n = (int)s.range(2, 11);
    std::set<int> used;
    const int64_t top = std::min<int64_t>(o.max_lat, 89000000), fine = s.chance(1, 4) ? 1 : 1000000; // latitudes shared or not
    const auto lat = [&](int64_t lo, int64_t hi) { return s.range((lo + fine - 1) / fine, hi / fine) * fine; };
    for (int k = 0; k < n; ++k) {
        const int col = (int)s.range(0, 23);
        if (!used.insert(col).second) continue;
        int64_t x = -180000000 + col * sc.unit + s.range(0, 8) * 1000000 + (fine == 1 ? s.range(0, 999999) : 0), w = s.range(1, 60) * 100000;
        if (col == 23 && s.coin()) x = geo::MAXLON - w; // at the edge of the map
        Ring r;
        if (s.chance(2, 5)) {
            int64_t b = -top, t = top;
            switch (s.pick({2, 2, 2})) {
            case 0: t = lat(-top / 2, top - 1000000); break;
            case 1: b = lat(-top + 1000000, top / 2); break;
            default: b = lat(-top, -1000000), t = lat(1000000, top);
            }
            r = {{x, b}, {x + w, b}, {x + w, t}, {x, t}};
            if (s.chance(1, 4)) r.pop_back();
        } else {
            const int64_t b = lat(-top, top - 8000000), h = s.range(1, 60) * 100000;
            r = {{x, b}, {x + w, b}, {x + w, b + h}, {x, b + h}};
            if (s.coin()) r.erase(r.begin() + s.draw(3));
        }
        if (s.coin()) std::reverse(r.begin(), r.end());
        std::rotate(r.begin(), r.begin() + s.draw(r.size() - 1), r.end());
        sc.rings.push_back(r);
    }
    for (auto &r : sc.rings)
        for (auto &p : r)
            if (std::abs(p.x) > geo::MAXLON || std::abs(p.y) > 89500000) pbt::discard();
    return sc;
}

// Land over most of the world, with a ragged coast: along the antimeridian and the poles, the sea is left.
inline Scene vast(Src &s) {
    Scene sc;
    sc.kind = "vast";
    sc.placement = "world-wide";
    sc.unit = 10000000;
    sc.x0 = -180000000;
    sc.y0 = -90000000;
    sc.w = 36;
    sc.h = 18;
    const int64_t amp = s.range(0, s.coin() ? 9000000 : 1000000);
    const int64_t w = -180000000 + (int64_t)s.draw(40000000), e = 180000000 - (int64_t)s.draw(40000000);
    const int64_t b = -89000000 + (int64_t)s.draw(s.coin() ? 10000000 : 50000000), t = 89000000 - (int64_t)s.draw(s.coin() ? 10000000 : 50000000);
    const int64_t step = s.range(4000000, 20000000);
    Ring r;
    const auto in = [&] { return amp ? (int64_t)s.draw((uint64_t)amp) : 0; };
    r.push_back({w, b});
    for (int64_t x = w + amp + step; x <= e - amp - step / 2; x += step) r.push_back({x, b + in()});
    r.push_back({e, b});
    for (int64_t y = b + amp + step; y <= t - amp - step / 2; y += step) r.push_back({e - in(), y});
    r.push_back({e, t});
    for (int64_t x = e - amp - step; x >= w + amp + step / 2; x -= step) r.push_back({x, t - in()});
    r.push_back({w, t});
    for (int64_t y = t - amp - step; y >= b + amp + step / 2; y -= step) r.push_back({w + in(), y});
    if (s.coin()) std::reverse(r.begin(), r.end());
    std::rotate(r.begin(), r.begin() + s.draw(r.size() - 1), r.end());
    sc.rings.push_back(r);
    return sc;
}

// A triangle with a corner next to the straight line between the other two: often as thin as it can be.
inline Ring sliver(Src &s) {
    const P a{-geo::MAXLON + (int64_t)s.draw(2 * geo::MAXLON), -90000000 + (int64_t)s.draw(180000000)};
    const P b{-geo::MAXLON + (int64_t)s.draw(2 * geo::MAXLON), -90000000 + (int64_t)s.draw(180000000)};
    const int64_t num = (int64_t)s.draw(1000);
    P m{a.x + (b.x - a.x) * num / 1000 + s.sym(2), a.y + (b.y - a.y) * num / 1000 + s.sym(2)};
    if (s.coin()) { // the cross product is one, or little more
        const P d = b - a;
        int64_t r0 = d.x, r1 = d.y, s0 = 1, s1 = 0, t0 = 0, t1 = 1; // s0 * d.x + t0 * d.y = r0
        while (r1) {
            const int64_t q = r0 / r1;
            std::tie(r0, r1) = std::make_pair(r1, r0 - q * r1);
            std::tie(s0, s1) = std::make_pair(s1, s0 - q * s1);
            std::tie(t0, t1) = std::make_pair(t1, t0 - q * t1);
        }
        const int64_t k = (s.coin() ? 1 : -1) * s.range(1, 3);
        m = a + P{-t0 * k, s0 * k};
        const P mid{a.x + d.x * num / 1000, a.y + d.y * num / 1000};
        if (d.x || d.y) { // moved along the line to the chosen place
            const int64_t g = std::abs(r0), steps = d.x ? (mid.x - m.x) / (d.x / g) : (mid.y - m.y) / (d.y / g);
            m = m + P{d.x / g * steps, d.y / g * steps};
        }
    }
    m.x = std::clamp<int64_t>(m.x, -geo::MAXLON, geo::MAXLON);
    m.y = std::clamp<int64_t>(m.y, -90000000, 90000000);
    return {a, b, m};
}

// A point at sea (or on a coast line): near the scene, biased towards lattice points and corners' latitudes.
inline P sea_point(Src &s, const Scene &sc, const geo::Land &land) {
    for (int tries = 0; tries < 60; ++tries) {
        P p{0, 0};
        const int64_t q = std::max<int64_t>(1, sc.unit);
        const size_t how = s.pick({4, 2, 2, sc.kind == "slalom" ? 8u : 1u});
        int64_t ox = sc.x0;
        if (sc.placement[0] == 'o') ox = s.coin() ? geo::MAXLON - sc.w * q : -geo::MAXLON;
        if (how == 0) p = {ox - q / 2 + (int64_t)s.draw((uint64_t)((sc.w + 1) * q)), sc.y0 - q / 2 + (int64_t)s.draw((uint64_t)((sc.h + 1) * q))};
        else if (how == 1) p = {ox + s.range(-1, sc.w + 1) * q, sc.y0 + s.range(-1, sc.h + 1) * q};
        else if (how == 2) { // in line with a corner
            const auto &r = s.of(sc.rings);
            const P v = s.of(r);
            p = {ox + (int64_t)s.draw((uint64_t)(sc.w * q)), v.y};
            if (s.coin()) p = {v.x, sc.y0 + (int64_t)s.draw((uint64_t)(sc.h * q))};
        } else if (sc.kind == "slalom" && s.chance(3, 4)) { // one of the two ends
            p = {sc.x0 + (s.coin() ? sc.w * q - q / 4 : q / 4), sc.y0 + sc.h * q / 2 + s.sym(q)};
            if (p.x > geo::MAXLON) p.x -= geo::PERIOD;
        } else p = {-geo::MAXLON + (int64_t)s.draw(2 * geo::MAXLON), -85000000 + (int64_t)s.draw(170000000)};
        if (p.x < -geo::MAXLON || p.x > geo::MAXLON || p.y < -89000000 || p.y > 89000000) continue;
        if (land.where(p) < 0) return p;
    }
    pbt::discard();
    return {0, 0};
}

// A point exactly on a coast line, between two corners (discards when the scene has none with integer coordinates).
inline P coast_point(Src &s, const Scene &sc) {
    for (int tries = 0; tries < 30; ++tries) {
        const auto &r = s.of(sc.rings);
        const size_t i = s.draw(r.size() - 1);
        const P a = r[i], b = r[(i + 1) % r.size()];
        const int64_t dx = b.x - a.x, dy = b.y - a.y;
        int64_t g = std::abs(dx), h = std::abs(dy);
        while (h) { const int64_t t = g % h; g = h; h = t; }
        if (g < 2) continue;
        const int64_t k = s.range(1, g - 1);
        return {a.x + dx / g * k, a.y + dy / g * k};
    }
    pbt::discard();
    return {0, 0};
}
} // namespace scene

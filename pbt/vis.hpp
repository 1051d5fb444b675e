// Shared by the checks of visibility graphs.
#pragma once
#include "capi.hpp"
#include "visgraph/vistree_generator.hpp"
#include "visgraph/visgraph_generator.hpp"

namespace vis {
using namespace pbt;
using namespace geo;
using namespace glue;

// Ordinary scenes, with a tail of big ones and of ones that reach the poles.
// One thin triangle, mostly long, and a few small islands.
inline scene::Scene draw_thin(Src &s, Ctx &c) {
    scene::Scene sc;
    sc.kind = "thin";
    sc.placement = "anywhere";
    sc.w = sc.h = 4;
    Ring r = canonical(scene::sliver(s));
    if (!simple_ring(r)) discard();
    sc.rings.push_back(r);
    int64_t x0 = r[0].x, x1 = x0, y0 = r[0].y, y1 = y0;
    for (auto &p : r) {
        x0 = std::min(x0, p.x); x1 = std::max(x1, p.x);
        y0 = std::min(y0, p.y); y1 = std::max(y1, p.y);
    }
    sc.x0 = x0;
    sc.y0 = y0;
    sc.unit = std::max<int64_t>({(x1 - x0) / 4, (y1 - y0) / 4, 100});
    for (uint64_t k = s.draw(4); k > 0; --k) {
        const int64_t e = 1 + (int64_t)s.draw((uint64_t)sc.unit / 4);
        const P o{x0 + (int64_t)s.draw((uint64_t)(x1 - x0)), y0 + (int64_t)s.draw((uint64_t)(y1 - y0))};
        Ring t;
        for (int i = 0; i < 3; ++i) t.push_back(o + P{s.sym(e), s.sym(e)});
        t = canonical(t);
        bool ok = simple_ring(t);
        for (auto &p : t) ok = ok && std::llabs(p.x) <= MAXLON && std::llabs(p.y) <= 90000000;
        for (auto &q : sc.rings) ok = ok && disjoint_rings(q, t);
        if (ok) sc.rings.push_back(t);
    }
    c.label("coast: thin");
    c.describe([&] { return sc.str(); });
    return sc;
}
inline scene::Scene draw_scene(Src &s, Ctx &c, bool world = true, unsigned big_one_in = 60, unsigned huge_one_in = 0) {
    if (world && s.chance(1, 25)) return draw_thin(s, c);
    if (world && s.chance(1, 300)) {
        auto sc = scene::vast(s);
        c.label("coast: " + sc.kind + ", " + sc.placement);
        c.describe([&] { return sc.str(); });
        return sc;
    }
    scene::Opts o;
    o.allow_world = world;
    if (s.chance(1, 8)) o.max_lat = 90000000;
    if (s.chance(1, 10)) o.min_unit = 64; // tiny
    if (s.chance(1, big_one_in)) {
        o = scene::big(o);
        c.label("big map");
    }
    const bool huge = huge_one_in && s.chance(1, huge_one_in);
    if (huge) o = scene::huge(o);
    const bool many_corners = huge ? s.chance(1, 3) : s.chance(1, 100);
    const bool many_open = !huge && !many_corners && s.chance(1, 150);
    const bool around = !huge && o.near_meridian && o.allow_world && !many_open && !many_corners && s.chance(1, 30);
    auto sc = around ? scene::meridians(s, o) : many_open ? scene::blinds(s, s.chance(1, 2) ? 70 : 30, o) : many_corners ? scene::terrain(s, huge ? 1500 : s.chance(1, 8) ? 300 : 60, o) : scene::generate(s, o);
    c.label("coast: " + sc.kind + ", " + sc.placement);
    if (sc.vertices() > 700) c.label("more than 700 corners");
    c.describe([&] { return sc.str(); });
    return sc;
}
inline Vis across(const Land &l, P a, P b) {
    const Vis e = l.classify(a, {b.x + PERIOD, b.y});
    if (e == CLEAR) return e;
    return std::min(e, l.classify(a, {b.x - PERIOD, b.y}));
}
inline std::vector<P> corners(const std::vector<Ring> &rings) {
    std::vector<P> v;
    for (auto &r : rings) v.insert(v.end(), r.begin(), r.end());
    return v;
}
} // namespace vis

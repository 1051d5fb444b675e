// Glue between the oracles and the code under test.
#pragma once
#include "engine.hpp"
#include "geo.hpp"
#include "scene.hpp"
#include <omp.h>
#include <optional>

#include "coordinate_periodicity/coordinate_periodicity.hpp"
#include "types/coordinate/coordinate.hpp"
#include "types/line_segment/line_segment.hpp"
#include "types/polygon/polygon.hpp"

namespace glue {
using geo::P;
using geo::Ring;
inline Coordinate co(P p) { return Coordinate((int32_t)p.x, (int32_t)p.y); }
inline P pt(const Coordinate &c) { return {c.get_longitude_microdegrees(), c.get_latitude_microdegrees()}; }
inline Polygon poly(const Ring &r) {
    std::vector<Coordinate> v;
    for (auto &p : r) v.push_back(co(p));
    return Polygon(v);
}
inline std::vector<Polygon> polys(const std::vector<Ring> &rs) {
    std::vector<Polygon> v;
    for (auto &r : rs) v.push_back(poly(r));
    return v;
}
// A point dy to the north of p which has the hash of p, if there is one.
inline std::optional<P> same_hash(P p, int64_t dy) {
    const auto of = [](int64_t y) { return std::hash<int32_t>()((int32_t)y); };
    const auto mixed = [&](int64_t y) { return 0x9e3779b9 + (of(y) << 6) + (of(y) >> 2); };
    const P q{(int64_t)((of(p.y) ^ ((uint64_t)p.x + mixed(p.y)) ^ of(p.y + dy)) - mixed(p.y + dy)), p.y + dy};
    if (q.x < -180000000 || q.x > 180000000 || std::llabs(q.y) > 90000000 || q == p) return {};
    if (std::hash<Coordinate>()(co(p)) != std::hash<Coordinate>()(co(q))) return {};
    return q;
}
inline void threads(int n) {
    omp_set_dynamic(0);
    omp_set_num_threads(n);
}
// Most cases run on one thread, as there are many processes; some have more at their disposal.
template <class Source, class Context> inline void draw_threads(Source &s, Context &c, unsigned one_in) {
    const bool more = s.chance(1, one_in);
    threads(more ? (int)s.range(2, 6) : 1);
    if (more) c.label("several threads at disposal");
}
} // namespace glue

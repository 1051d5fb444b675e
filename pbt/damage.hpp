// Damaged files, and the use of whatever is loaded from one.
#pragma once
#include "datastructures/graph/graph.hpp"
#include "engine.hpp"
#include "serialization/graph_serializer.hpp"

namespace damage {
using pbt::Src;

inline void put64(std::string &b, size_t at, uint64_t v) {
    for (size_t i = 0; i < 8 && at + i < b.size(); ++i) b[at + i] = (char)(v >> (8 * i));
}
inline uint64_t get64(const std::string &b, size_t at) {
    uint64_t v = 0;
    for (size_t i = 0; i < 8 && at + i < b.size(); ++i) v |= (uint64_t)(uint8_t)b[at + i] << (8 * i);
    return v;
}
// offsets of the counts and of the matrix in a good file
inline std::vector<size_t> fields(const std::string &b) {
    std::vector<size_t> f{0};
    size_t at = 8, verts = 0;
    for (uint64_t i = 0, n = get64(b, 0); i < n && at + 8 <= b.size(); ++i) {
        f.push_back(at);
        const uint64_t k = get64(b, at);
        if (k > b.size()) return f;
        verts += k;
        at += 8 + 8 * k;
    }
    f.push_back(at);
    for (size_t i = 0; i < verts && at < b.size(); ++i) at += (i + 7) / 8;
    for (; at + 8 <= b.size(); at += 8) f.push_back(at); // number of edges over the antimeridian, and these
    return f;
}
inline uint64_t value(Src &s, uint64_t now) {
    switch (s.pick({3, 2, 2, 2, 2, 1})) {
    case 0: return now + (uint64_t)s.sym(3);
    case 1: return s.draw(200);
    case 2: return 1ull << s.draw(63);
    case 3: return UINT64_MAX - s.draw(64);
    case 4: return (1ull << s.draw(63)) - 1 + s.draw(16);
    default: return UINT64_MAX / (1 + s.draw(64));
    }
}
inline std::string draw(Src &s, const std::string &good) {
    if (s.chance(1, 8)) { // arbitrary bytes
        std::string b(s.draw(300), 0);
        const bool small = s.coin();
        for (auto &ch : b) ch = (char)(small ? (s.chance(1, 5) ? s.draw(3) : 0) : s.draw(255));
        return b;
    }
    std::string b = good;
    for (int64_t k = s.range(1, s.chance(1, 3) ? 12 : 2); k > 0; --k) {
        if (b.empty()) break;
        switch (s.pick({4, 4, 2, 1, 1, 1, 2})) {
        case 0: { const auto f = fields(b); const size_t at = s.of(f); put64(b, at, value(s, get64(b, at))); break; }
        case 1: b[s.draw(b.size() - 1)] ^= (char)(1 << s.draw(7)); break;
        case 2: b[s.draw(b.size() - 1)] = (char)s.draw(255); break;
        case 3: b.erase(s.draw(b.size() - 1), s.range(1, 16)); break;
        case 4: b.insert(s.draw(b.size()), std::string((size_t)s.range(1, 16), (char)s.draw(255))); break;
        case 5: { const size_t at = s.draw(b.size() - 1); b.insert(s.draw(b.size()), b.substr(at, (size_t)s.range(1, 64))); break; }
        case 6: { // extreme coordinates
            const int32_t v[] = {INT32_MIN, INT32_MAX, 0, -1, 540000001, -540000001};
            const uint32_t x = (uint32_t)v[s.draw(5)];
            const size_t at = 16 + 4 * s.draw(b.size() / 4);
            for (size_t i = 0; i < 4 && at + i < b.size(); ++i) b[at + i] = (char)(x >> (8 * i));
            break;
        }
        }
    }
    return b;
}
inline std::string hex(const std::string &b, const std::string &good) {
    std::string o = std::to_string(b.size()) + " bytes:";
    char t[40];
    int shown = 0;
    for (size_t i = 0; i < b.size() && shown < 24; ++i)
        if (i >= good.size() || b[i] != good[i]) {
            snprintf(t, sizeof t, " [%zu]=%02x", i, (uint8_t)b[i]);
            o += t;
            ++shown;
        }
    return o;
}
// Everything that can be asked of a graph without any assumption about it.
inline void use(const std::shared_ptr<Graph> &g, const std::string &scratch_file) {
    const auto vs = g->get_vertices();
    size_t edges = 0;
    for (auto &a : vs) {
        if (!g->has_vertex(a)) pbt::fail("unusable", "a vertex of the loaded graph is unknown to it");
        for (auto &b : g->get_neighbors(a)) {
            ++edges;
            if (!g->has_edge(a, b)) pbt::fail("unusable", "an edge of the loaded graph is unknown to it");
            (void)g->is_edge_meridian_crossing(a, b);
        }
    }
    (void)g->to_string_representation();
    for (auto &p : g->get_polygons())
        if (p.get_vertices().size() > vs.size()) pbt::fail("unusable", "a polygon of the loaded graph has corners which are no vertices");
    GraphSerializer::serialize_to_file(g, scratch_file);
    try {
        const auto back = GraphSerializer::deserialize_from_file(scratch_file);
        (void)back;
    } catch (const std::exception &) {
    }
}
} // namespace damage

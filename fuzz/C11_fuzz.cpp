// Coverage-guided fuzzing of graph files: any bytes are refused, or loaded as a graph which can be used.
#include "damage.hpp"
#include "visgraph/visgraph_generator.hpp"
#include <iostream>
#include <unistd.h>

static std::string dir;
static std::string file(const char *n) { return dir + "/" + std::to_string(getpid()) + n; }

extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    const char *d = getenv("PBT_SCRATCH");
    dir = d ? d : "/tmp";
    const char *seeds = getenv("CAPI_SEED_DIR"); // writes a few graphs there, to start from
    if (!seeds) return 0;
    uint64_t state = 1;
    const auto draw = [&](uint64_t n) { return state = pbt::mix(state), state % n; };
    for (int k = 0; k < 24; ++k) {
        std::vector<Polygon> ps;
        std::vector<Coordinate> vs;
        const int n = k == 0 ? 0 : 1 + (int)draw(4);
        for (int p = 0; p < n; ++p) {
            std::vector<Coordinate> v;
            const int m = 3 + (int)draw(6);
            for (int i = 0; i < m; ++i) v.emplace_back((int32_t)(p * 1000000 + i * 100), (int32_t)(i * i * 50 + k));
            ps.emplace_back(v);
            for (auto &c : ps.back().get_vertices()) vs.push_back(c);
        }
        auto g = std::make_shared<Graph>(ps);
        for (auto &a : vs)
            for (auto &b : vs)
                if (draw(3) == 0) g->add_edge(a, b, draw(2));
        GraphSerializer::serialize_to_file(g, std::string(seeds) + "/seed" + std::to_string(k));
    }
    return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    static const std::string in = file(".in"), out = file(".out");
    FILE *f = fopen(in.c_str(), "wb");
    if (!f) abort();
    if (size) fwrite(data, 1, size, f);
    fclose(f);
    std::shared_ptr<Graph> g;
    try {
        g = GraphSerializer::deserialize_from_file(in);
    } catch (const std::exception &) {
        return 0;
    }
    try {
        damage::use(g, out);
    } catch (const pbt::Fail &x) {
        std::cerr << x.kind << ": " << x.msg << "\n";
        abort();
    }
    return 0;
}

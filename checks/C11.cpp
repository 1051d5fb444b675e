// C11: a truncated or damaged graph file is refused safely.
#include "graphs.hpp"
#include "damage.hpp"
#include "serialization/graph_serializer.hpp"
extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
size_t __sanitizer_get_allocated_size(const volatile void *);
}
using namespace graphs;

namespace {
std::string slurp(const std::string &path) {
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}
void spill(const std::string &path, const std::string &bytes) {
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    f.write(bytes.data(), (std::streamsize)bytes.size());
}
size_t live, peak;
bool counting = false;
void on_malloc(const volatile void *, size_t n) {
    if (!counting) return;
    live += n;
    peak = std::max(peak, live);
}
void on_free(const volatile void *ptr) {
    if (!counting || !ptr) return;
    const size_t n = __sanitizer_get_allocated_size(ptr);
    live -= std::min(live, n);
}
// loads; an error is the absence of a graph
std::shared_ptr<Graph> load(const std::string &path, size_t file_size) {
    live = peak = 0;
    counting = true;
    std::shared_ptr<Graph> g;
    try {
        g = GraphSerializer::deserialize_from_file(path);
    } catch (const std::exception &) {
    }
    counting = false;
    PBT_CHECK(peak <= 2000000 + 300 * file_size, "memory", "loading a file of " << file_size << " bytes took " << peak << " bytes of memory");
    return g;
}
} // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C11";
    p.quick_cases = 800;
    p.thorough_cases = 60000;
    p.case_cpu_limit_s = 60;
    p.rule = "A generated graph is saved, and its file cut short at every byte (files up to 3000 bytes; at 200 places of longer ones): each must be refused, or still yield the whole graph (files end in padding). Then twenty damaged copies (bits, bytes and whole fields changed, counts set to "
             "boundary values, pieces removed, repeated or inserted) and files of arbitrary bytes are loaded under AddressSanitizer and UBSan: an error, or a graph that answers every query and can be saved and loaded again. Non-trivial: some damaged file was refused "
             "and some was loaded, or a file was cut at more than 100 places.";
    p.assumptions = {"files do not change while they are loaded", "memory in proportion: at most 2 MB plus 300 times the size of the file"};
    p.worker_init = [] {
        threads(1);
        __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    };
    p.body = [](Src &s, Ctx &c) {
        const std::string file = scratch() + "/" + std::to_string(getpid()) + ".graph";
        unlink(file.c_str());
        G g = make(polys(draw_rings(s, s.chance(1, 4) ? s.draw(90) : s.draw(20))));
        const unsigned densities[] = {0, 60, 128, 256};
        draw_edges(s, g, densities[s.pick({1, 2, 2, 1})]);
        GraphSerializer::serialize_to_file(g.g, file);
        const std::string good = slurp(file);
        c.describe([&] { return str(g.m) + ", " + std::to_string(good.size()) + " bytes"; });
        PBT_CHECK(load(file, good.size()), "refused", "the intact file is refused");
        // cut short
        uint64_t whole = 0;
        const size_t cuts = good.size() <= 3000 ? good.size() : 200;
        for (size_t k = 0; k < cuts; ++k) {
            const size_t n = good.size() <= 3000 ? k : s.draw(good.size() - 1);
            spill(file, good.substr(0, n));
            const auto x = load(file, n);
            if (!x) continue;
            ++whole; // the file ends in a little padding
            PBT_CHECK(*x == *g.g && x->get_polygons().size() == g.g->get_polygons().size(), "truncated", "the file of " << good.size() << " bytes, cut to " << n << ", is loaded as a graph which is not the one saved");
        }
        c.label("cut files", cuts);
        c.label("cut files which still had the whole graph", whole);
        c.nontrivial(cuts > 100);
        unlink(file.c_str());
        PBT_CHECK(!load(file, 0), "missing", "a path which does not exist is loaded as a graph");
        PBT_CHECK(!load(scratch(), 0), "directory", "a directory is loaded as a graph");
        // damaged
        int refused = 0, loaded = 0;
        for (int k = 0; k < 20; ++k) {
            const std::string bad = damage::draw(s, good);
            c.describe([&] { return "\n" + damage::hex(bad, good); });
            spill(file, bad);
            const auto x = load(file, bad.size());
            if (!x) { ++refused; continue; }
            ++loaded;
            damage::use(x, file + "2");
        }
        unlink(file.c_str());
        unlink((file + "2").c_str());
        c.label("damaged files refused", refused);
        c.label("damaged files loaded", loaded);
        c.nontrivial(refused && loaded);
    };
    return pbt_main(p, argc, argv);
}

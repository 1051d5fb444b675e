// An OpenMP runtime on std::thread, for the builds under ThreadSanitizer: libgomp synchronises in ways which it does not see,
// so that with libgomp every parallel region would look like a race. It has the entry points which gcc's -fopenmp calls.
// Every region starts its threads anew, and the threads hand over to each other at random where they take new work.
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <ctime>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

namespace {
typedef unsigned long long ull;

struct Loop { // one work-sharing construct
    std::mutex m;
    bool up = true;
    ull next = 0, end = 0, incr = 1, chunk = 1;
    int64_t left = 0; // iterations which are not handed out yet
    bool taken = false;   // "single"
    void *copy = nullptr; // "single copyprivate"
};

struct Team {
    unsigned n = 1;
    std::mutex m;
    std::condition_variable cv;
    unsigned waiting = 0;
    ull round = 0;
    std::vector<std::shared_ptr<Loop>> constructs;
    void barrier() {
        std::unique_lock<std::mutex> l(m);
        const ull r = round;
        if (++waiting == n) {
            waiting = 0;
            ++round;
            cv.notify_all();
        } else
            cv.wait(l, [&] { return round != r; });
    }
    // the k-th work-sharing construct which a thread of the team comes to, and whether it is the first to
    std::pair<std::shared_ptr<Loop>, bool> at(size_t k) {
        std::lock_guard<std::mutex> l(m);
        bool first = false;
        while (constructs.size() <= k) {
            constructs.push_back(std::make_shared<Loop>());
            first = true;
        }
        return {constructs[k], first};
    }
};

thread_local Team *team = nullptr;
thread_local unsigned self = 0;
thread_local size_t seen = 0;
thread_local std::shared_ptr<Loop> loop;
thread_local uint32_t noise = 1;
std::atomic<int> wanted{0};
std::recursive_mutex critical;

void hand_over() {
    noise = noise * 1664525u + 1013904223u;
    if ((noise >> 28) < 4) std::this_thread::yield();
}

Team *current() {
    static thread_local Team alone;
    return team ? team : &alone;
}

int default_threads() {
    const int w = wanted.load();
    return w > 0 ? w : (int)std::max(1u, std::thread::hardware_concurrency());
}

void run(void (*fn)(void *), void *data, unsigned n) {
    Team *outer = team;
    if (outer) n = 1; // nested
    if (n == 0) n = (unsigned)default_threads();
    const unsigned me = self;
    const size_t had = seen;
    auto had_loop = loop;
    Team t;
    t.n = n;
    const auto part = [&t, fn, data](unsigned k) {
        team = &t;
        self = k;
        seen = 0;
        loop.reset();
        noise = noise * 31 + k + 1;
        fn(data);
    };
    std::vector<std::thread> threads;
    for (unsigned k = 1; k < n; ++k) threads.emplace_back(part, k);
    part(0);
    for (auto &th : threads) th.join();
    team = outer;
    self = me;
    seen = had;
    loop = had_loop;
}

bool take(ull *istart, ull *iend) {
    hand_over();
    std::lock_guard<std::mutex> l(loop->m);
    if (loop->left <= 0) return false;
    const ull k = std::min<ull>((ull)loop->left, loop->chunk ? loop->chunk : 1);
    *istart = loop->next;
    loop->next += k * loop->incr;
    loop->left -= (int64_t)k;
    *iend = loop->left == 0 ? loop->end : loop->next;
    return true;
}

bool start(bool up, ull from, ull to, ull incr, ull chunk, ull *istart, ull *iend) {
    auto c = current()->at(seen++);
    loop = c.first;
    {
        std::lock_guard<std::mutex> l(loop->m);
        if (!loop->taken) {
            loop->taken = true;
            loop->up = up;
            loop->next = from;
            loop->end = to;
            loop->incr = incr;
            loop->chunk = chunk;
            const ull step = up ? incr : 0 - incr, span = up ? to - from : from - to;
            loop->left = (up ? from < to : from > to) ? (int64_t)((span + step - 1) / step) : 0;
        }
    }
    return take(istart, iend);
}

bool start_long(long from, long to, long incr, long chunk, long *istart, long *iend) {
    auto c = current()->at(seen++);
    loop = c.first;
    {
        std::lock_guard<std::mutex> l(loop->m);
        if (!loop->taken) {
            loop->taken = true;
            loop->next = (ull)from;
            loop->end = (ull)to;
            loop->incr = (ull)incr;
            loop->chunk = (ull)chunk;
            const long n = incr > 0 ? (to - from + incr - 1) / incr : (from - to - incr - 1) / -incr;
            loop->left = (incr > 0 ? from < to : from > to) ? n : 0;
        }
    }
    return take((ull *)istart, (ull *)iend);
}
} // namespace

extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run(fn, data, n); }
#define ULL_LOOP(kind)                                                                                                                        \
    bool GOMP_loop_ull_##kind##_start(bool up, ull a, ull b, ull i, ull c, ull *s, ull *e) { return start(up, a, b, i, c, s, e); }          \
    bool GOMP_loop_ull_##kind##_next(ull *s, ull *e) { return take(s, e); }                                                                 \
    bool GOMP_loop_##kind##_start(long a, long b, long i, long c, long *s, long *e) { return start_long(a, b, i, c, s, e); }                \
    bool GOMP_loop_##kind##_next(long *s, long *e) { return take((ull *)s, (ull *)e); }
ULL_LOOP(dynamic)
ULL_LOOP(nonmonotonic_dynamic)
ULL_LOOP(guided)
ULL_LOOP(nonmonotonic_guided)
ULL_LOOP(static)
#define RUNTIME_LOOP(kind)                                                                                                                   \
    bool GOMP_loop_ull_##kind##_start(bool up, ull a, ull b, ull i, ull *s, ull *e) { return start(up, a, b, i, 1, s, e); }                 \
    bool GOMP_loop_ull_##kind##_next(ull *s, ull *e) { return take(s, e); }                                                                 \
    bool GOMP_loop_##kind##_start(long a, long b, long i, long *s, long *e) { return start_long(a, b, i, 1, s, e); }                        \
    bool GOMP_loop_##kind##_next(long *s, long *e) { return take((ull *)s, (ull *)e); }
RUNTIME_LOOP(runtime)
RUNTIME_LOOP(nonmonotonic_runtime)
RUNTIME_LOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { current()->barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { current()->barrier(); }

// combined "parallel for": the loop is the first construct of the new team
struct Combined { void (*fn)(void *); void *data; long a, b, i, c; };
static void parallel_loop(void (*fn)(void *), void *data, unsigned n, long a, long b, long i, long c) {
    // the outlined function calls ..._next right away, so each thread has to be put into the loop first
    Combined comb{fn, data, a, b, i, c};
    run(
        [](void *p) {
            const auto &x = *(Combined *)p;
            auto k = current()->at(seen++);
            loop = k.first;
            {
                std::lock_guard<std::mutex> l(loop->m);
                if (!loop->taken) {
                    loop->taken = true;
                    loop->next = (ull)x.a;
                    loop->end = (ull)x.b;
                    loop->incr = (ull)x.i;
                    loop->chunk = (ull)x.c;
                    const long cnt = x.i > 0 ? (x.b - x.a + x.i - 1) / x.i : (x.a - x.b - x.i - 1) / -x.i;
                    loop->left = (x.i > 0 ? x.a < x.b : x.a > x.b) ? cnt : 0;
                }
            }
            x.fn(x.data);
        },
        &comb, n);
}
#define PARALLEL_LOOP(kind)                                                                                                                  \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned) { parallel_loop(fn, d, n, a, b, i, c); }
PARALLEL_LOOP(dynamic)
PARALLEL_LOOP(nonmonotonic_dynamic)
PARALLEL_LOOP(guided)
PARALLEL_LOOP(nonmonotonic_guided)
PARALLEL_LOOP(static)
#define PARALLEL_RUNTIME(kind)                                                                                                               \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned) { parallel_loop(fn, d, n, a, b, i, 1); }
PARALLEL_RUNTIME(runtime)
PARALLEL_RUNTIME(nonmonotonic_runtime)
PARALLEL_RUNTIME(maybe_nonmonotonic_runtime)

bool GOMP_single_start() {
    auto c = current()->at(seen++);
    std::lock_guard<std::mutex> l(c.first->m);
    const bool first = !c.first->taken;
    c.first->taken = true;
    return first;
}
// sections are numbered from one
unsigned GOMP_sections_next() {
    ull s, e;
    return take(&s, &e) ? (unsigned)s : 0;
}
unsigned GOMP_sections_start(unsigned count) {
    ull s, e;
    return start(true, 1, (ull)count + 1, 1, 1, &s, &e) ? (unsigned)s : 0;
}
void GOMP_sections_end() { current()->barrier(); }
void GOMP_sections_end_nowait() {}

static std::mutex atomic_lock;
void GOMP_critical_start() { critical.lock(); hand_over(); }
void GOMP_critical_end() { critical.unlock(); }
void GOMP_critical_name_start(void **) { critical.lock(); }
void GOMP_critical_name_end(void **) { critical.unlock(); }
void GOMP_atomic_start() { atomic_lock.lock(); }
void GOMP_atomic_end() { atomic_lock.unlock(); }
void GOMP_taskwait() {}

int omp_get_thread_num() { return (int)self; }
int omp_get_num_threads() { return (int)current()->n; }
int omp_get_max_threads() { return default_threads(); }
int omp_get_num_procs() { return (int)std::max(1u, std::thread::hardware_concurrency()); }
void omp_set_num_threads(int n) { wanted = n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
int omp_in_parallel() { return team && team->n > 1; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_thread_limit() { return 64; }
int omp_get_level() { return team ? 1 : 0; }
double omp_get_wtime() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
// an omp_lock_t has four bytes
void omp_init_lock(std::atomic<int> *l) { *l = 0; }
void omp_destroy_lock(std::atomic<int> *) {}
int omp_test_lock(std::atomic<int> *l) {
    int no = 0;
    return l->compare_exchange_strong(no, 1);
}
void omp_set_lock(std::atomic<int> *l) {
    while (!omp_test_lock(l)) std::this_thread::yield();
}
void omp_unset_lock(std::atomic<int> *l) { *l = 0; }
}

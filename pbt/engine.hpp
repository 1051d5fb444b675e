// Property-based testing engine (choice sequences, in the style of Hypothesis).
//
// A property is a function of a source of bounded choices.  Generators are ordinary code that draws from
// the source, so every generated case *is* its sequence of choices: a failing case is shrunk by editing that
// sequence (delete / zero / minimise) and replayed from it.  Zero is always the simplest choice.
//
// Cases run in forked workers (the code under test may crash, hang or print); case i is seeded by
// hash(seed, property, i), so what is generated does not depend on the number of workers or their speed.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <malloc.h>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string &s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return mix(h);
}

// ---------------------------------------------------------------- the source of choices
constexpr size_t MAX_CHOICES = 1 << 18;
struct Slot { // shared memory, one per worker: survives the worker's crash
    std::atomic<int64_t> case_index;
    std::atomic<uint64_t> n;
    uint64_t choices[MAX_CHOICES];
    char kind[256];
    char msg[8192];
};

class Src {
  public:
    Src(uint64_t seed, Slot *slot) : _state(seed), _slot(slot) { _slot->n = 0; }
    Src(const std::vector<uint64_t> *replay, Slot *slot) : _replay(replay), _slot(slot) { _slot->n = 0; }
    // uniform in [0, max]; zero is the simplest value
    uint64_t draw(uint64_t max) {
        uint64_t v;
        if (_replay) {
            v = _pos < _replay->size() ? (*_replay)[_pos] : 0;
            ++_pos;
            if (v > max) v = max;
        } else {
            _state += 0x9e3779b97f4a7c15ULL;
            const uint64_t r = mix(_state);
            v = max == UINT64_MAX ? r : (uint64_t)(((unsigned __int128)r * ((unsigned __int128)max + 1)) >> 64);
        }
        const uint64_t n = _slot->n;
        if (n < MAX_CHOICES) {
            _slot->choices[n] = v;
            _slot->n = n + 1;
        }
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
    // symmetric range that shrinks towards zero
    int64_t sym(int64_t bound) {
        const uint64_t v = draw((uint64_t)bound * 2);
        return (v & 1) ? (int64_t)((v + 1) / 2) : -(int64_t)(v / 2);
    }
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; } // false is simplest
    bool coin() { return draw(1) == 1; }
    // index of a weighted alternative; the first alternative is the simplest
    size_t pick(std::initializer_list<unsigned> weights) {
        uint64_t total = 0;
        for (auto w : weights) total += w;
        uint64_t v = draw(total - 1);
        size_t i = 0;
        for (auto w : weights) {
            if (v < w) return i;
            v -= w;
            ++i;
        }
        return 0;
    }
    template <class T> const T &of(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
    template <class T> void shuffle(std::vector<T> &v) {
        for (size_t i = v.size(); i > 1; --i) { // zero draws: identity
            const size_t j = i - 1 - draw(i - 1);
            std::swap(v[i - 1], v[j]);
        }
    }

  private:
    const std::vector<uint64_t> *_replay = nullptr;
    size_t _pos = 0;
    uint64_t _state = 0;
    Slot *_slot;
};
// Where counts are split, buffered or numbered something may happen at a round number
inline size_t around_round_number(Src &s, size_t most) {
    static const size_t units[] = {8, 10, 16, 20, 25, 32, 50, 64, 100, 128, 256, 1000};
    std::vector<size_t> round;
    for (size_t u : units)
        for (size_t k : {1, 2, 3, 5})
            if (u * k < most) round.push_back(u * k);
    return s.of(round) + s.draw(2) - 1;
}


// ---------------------------------------------------------------- outcome of a case
struct Fail {
    std::string kind, msg;
};
struct Discard {};

class Ctx {
  public:
    bool want_description = false;
    // A human readable rendering of the generated case.
    template <class F> void describe(F &&f) {
        if (!want_description) return;
        const std::string d = f();
        desc += d;
        size_t off = 0; // at once: the case may crash
        while (stream >= 0 && off < d.size()) {
            const auto w = write(stream, d.data() + off, d.size() - off);
            if (w <= 0) break;
            off += (size_t)w;
        }
    }
    int stream = -1;
    void label(const std::string &l, uint64_t n = 1) { labels[l] += n; }
    void nontrivial(bool b = true) { is_nontrivial = is_nontrivial || b; }
    // mixes something into the fingerprint used to count distinct cases (the choices are mixed in too)
    std::map<std::string, uint64_t> labels;
    std::string desc;
    bool is_nontrivial = false;
};

[[noreturn]] inline void fail(const std::string &kind, const std::string &msg) { throw Fail{kind, msg}; }
#define PBT_CHECK(cond, kind, msg)                                                                                     \
    do {                                                                                                               \
        if (!(cond)) {                                                                                                 \
            std::ostringstream _os;                                                                                    \
            _os << msg;                                                                                                \
            ::pbt::fail(kind, _os.str());                                                                              \
        }                                                                                                              \
    } while (0)
inline void discard() { throw Discard{}; }

struct Property {
    std::string id;
    std::string rule;                       // how cases are made, and what makes one non-trivial
    std::function<void(Src &, Ctx &)> body; // throws Fail
    uint64_t quick_cases, thorough_cases;
    unsigned case_cpu_limit_s = 60;
    unsigned case_wall_limit_s = 0; // for cases which may deadlock
    std::vector<std::string> assumptions;
    std::function<void()> worker_init; // run in each worker after the fork
    // Minimum fraction of evaluated cases that must be non-trivial; a run below it is an error of the check.
    double min_nontrivial = 0.05;
    unsigned max_workers = 16;
    // How often a failing case is run again before it counts as not reproducible.  A case that depends on the schedule
    // (`schedules`) counts even if it does not fail again: its choices are replayed over and over by --replay.
    int replays = 3;
    bool schedules = false;
    // Specific inputs on which the code is known to break the property: key -> does it still?  A key counts only if it is
    // listed in the known findings file.
    std::map<std::string, std::function<bool()>> known;
};

inline std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += (char)c;
        } else if (c == '\n') {
            o += "\\n";
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else {
            o += (char)c;
        }
    }
    return o;
}

enum Outcome { PASS = 0, FAILED = 1, DISCARDED = 2 };

inline Outcome run_body(const Property &p, Src &s, Ctx &c, Slot *slot) {
    slot->kind[0] = slot->msg[0] = 0;
    try {
        p.body(s, c);
        return PASS;
    } catch (const Discard &) {
        return DISCARDED;
    } catch (const Fail &f) {
        snprintf(slot->kind, sizeof slot->kind, "%s", f.kind.c_str());
        snprintf(slot->msg, sizeof slot->msg, "%s", f.msg.c_str());
    } catch (const std::exception &e) {
        snprintf(slot->kind, sizeof slot->kind, "unexpected-exception");
        snprintf(slot->msg, sizeof slot->msg, "an exception escaped from a call that must succeed: %s", e.what());
    }
    return FAILED;
}

// A directory of this check's own, made and removed by check.py.
inline std::string scratch() {
    const char *d = getenv("PBT_SCRATCH");
    if (!d || !*d) { fprintf(stderr, "PBT_SCRATCH is not set\n"); _exit(3); }
    return d;
}

// Fresh and freed memory is filled with another byte than before: what depends on it does not come out the same twice.
inline void another_heap() {
    static int k = 0;
    k = (k + 37) % 255;
    mallopt(M_PERTURB, k + 1);
}

inline void arm_cpu_limit(unsigned seconds, unsigned wall_seconds = 0) {
    static const char *slow = getenv("PBT_SLOW"); // under a slow machine, as a memory checker
    static const unsigned factor = slow ? std::max(1, atoi(slow)) : 1;
    seconds *= factor, wall_seconds *= factor;
    struct itimerval it {};
    it.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &it, nullptr);
    alarm(wall_seconds);
}
inline void mute_stdout() {
    const int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    if (!getenv("PBT_STDERR")) dup2(fd, 2);
    close(fd);
}
inline std::string signal_kind(int sig) {
    if (sig == SIGPROF || sig == SIGALRM) return "hang";
    return "crash";
}

struct ReplayResult {
    Outcome outcome = PASS;
    std::string kind, msg, desc;
    std::vector<uint64_t> used; // the choices consumed
    std::map<std::string, uint64_t> labels;
};

// Runs one case from a sequence of choices in a child process.
inline ReplayResult run_isolated(const Property &p, const std::vector<uint64_t> &choices, Slot *slot, bool describe) {
    slot->kind[0] = slot->msg[0] = 0;
    slot->n = 0;
    int pipefd[2];
    if (pipe(pipefd) != 0) { perror("pipe"); exit(3); }
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) {
        close(pipefd[0]);
        mute_stdout();
        if (p.worker_init) p.worker_init();
        arm_cpu_limit(p.case_cpu_limit_s, p.case_wall_limit_s);
        Src s(&choices, slot);
        Ctx c;
        c.want_description = describe;
        c.stream = describe ? pipefd[1] : -1;
        const auto o = run_body(p, s, c, slot);
        _exit(o == PASS ? 0 : o == DISCARDED ? 11 : 10);
    }
    close(pipefd[1]);
    ReplayResult r;
    char buf[4096];
    ssize_t k;
    while ((k = read(pipefd[0], buf, sizeof buf)) > 0) r.desc.append(buf, k);
    close(pipefd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) {
        r.outcome = FAILED;
        r.kind = signal_kind(WTERMSIG(st));
        r.msg = r.kind == "hang" ? "the case used more than " + std::to_string(p.case_cpu_limit_s) + " s of CPU time, or did not end"
                                 : std::string("the process died of signal ") + strsignal(WTERMSIG(st));
    } else if (WEXITSTATUS(st) == 0) {
        r.outcome = PASS;
    } else if (WEXITSTATUS(st) == 11) {
        r.outcome = DISCARDED;
    } else if (WEXITSTATUS(st) == 10) {
        r.outcome = FAILED;
        r.kind = slot->kind;
        r.msg = slot->msg;
    } else {
        r.outcome = FAILED;
        r.kind = "crash";
        r.msg = "the process ended with status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report)";
    }
    r.used.assign(slot->choices, slot->choices + slot->n);
    return r;
}

inline std::vector<uint64_t> shrink(const Property &p, std::vector<uint64_t> cur, const std::string &kind, Slot *slot,
                                    double budget_s, uint64_t &steps) {
    const auto t0 = std::chrono::steady_clock::now();
    auto left = [&] {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget_s;
    };
    auto better = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    auto try_it = [&](const std::vector<uint64_t> &cand) {
        ++steps;
        const auto r = run_isolated(p, cand, slot, false);
        if (r.outcome == FAILED && r.kind == kind) {
            auto used = r.used;
            while (!used.empty() && used.back() == 0) used.pop_back();
            if (better(used, cur)) {
                cur = used;
                return true;
            }
        }
        return false;
    };
    bool improved = true;
    while (improved && left()) {
        improved = false;
        for (size_t k = std::min<size_t>(64, cur.size()); k >= 1 && left(); k /= 2)
            for (size_t i = 0; i + k <= cur.size() && left();) {
                auto c = cur;
                c.erase(c.begin() + i, c.begin() + i + k);
                if (try_it(c)) improved = true; else i += (k > 4 ? k / 2 : 1);
            }
        for (size_t k = std::min<size_t>(32, cur.size()); k >= 1 && left(); k /= 2)
            for (size_t i = 0; i + k <= cur.size() && left(); i += k) {
                auto c = cur;
                bool any = false;
                for (size_t j = i; j < i + k; ++j) { any |= c[j] != 0; c[j] = 0; }
                if (any && try_it(c)) improved = true;
            }
        for (size_t i = 0; i < cur.size() && left(); ++i) {
            uint64_t lo = 0;
            while (i < cur.size() && lo < cur[i] && left()) {
                const uint64_t mid = lo + (cur[i] - lo) / 2;
                auto c = cur;
                c[i] = mid;
                if (try_it(c)) improved = true; else lo = mid + 1;
            }
        }
    }
    return cur;
}

// Prints a KNOWN-FINDING line for each listed finding that is still there (its input is run in a child process).
inline void report_known(const Property &p, const std::string &file) {
    std::ifstream f(file);
    std::string line;
    const std::string head = "finding: property=" + p.id + " key=";
    while (std::getline(f, line)) {
        if (line.rfind(head, 0) != 0) continue;
        const auto sp = line.find(' ', head.size());
        const auto key = line.substr(head.size(), sp - head.size());
        const auto it = p.known.find(key);
        if (it == p.known.end()) continue;
        fflush(nullptr);
        const pid_t pid = fork();
        if (pid == 0) {
            mute_stdout();
            if (p.worker_init) p.worker_init();
            bool still = false;
            try { still = it->second(); } catch (const std::exception &) {}
            _exit(still ? 7 : 0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 7)
            std::cout << "KNOWN-FINDING: property=" << p.id << " " << line.substr(sp + 1) << std::endl;
    }
}

inline std::string to_json_choices(const std::vector<uint64_t> &v) {
    std::ostringstream os;
    os << "[";
    for (size_t i = 0; i < v.size(); ++i) os << (i ? "," : "") << v[i];
    os << "]";
    return os.str();
}

inline int pbt_main(const Property &p, int argc, char **argv) {
    uint64_t seed = 1;
    std::string tier = "quick", evidence, replay_dir = "/tmp", replay_file, known_file, tag;
    int64_t only_cases = -1;
    unsigned workers = 8;
    double wall_guard = 0;
    double shrink_budget = 60;
    int64_t show_case = -1;
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--tier") tier = next();
        else if (a == "--evidence") evidence = next();
        else if (a == "--replay-dir") replay_dir = next();
        else if (a == "--replay") replay_file = next();
        else if (a == "--cases") only_cases = atoll(next().c_str());
        else if (a == "--workers") workers = atoi(next().c_str());
        else if (a == "--wall") wall_guard = atof(next().c_str());
        else if (a == "--shrink") shrink_budget = atof(next().c_str());
        else if (a == "--known") known_file = next();
        else if (a == "--tag") tag = next(); // part of the names of replay files
        else if (a == "--show") show_case = atoll(next().c_str());
        else { std::cerr << "unknown argument " << a << "\n"; return 3; }
    }
    workers = std::max(1u, std::min({workers, p.max_workers, 16u}));
    if (wall_guard <= 0) wall_guard = tier == "quick" ? 240 : 3000;
    auto *slots = (Slot *)mmap(nullptr, sizeof(Slot) * (workers + 1), PROT_READ | PROT_WRITE,
                               MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Slot *own = &slots[workers];
    const auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    const uint64_t base = mix(seed * 0x100000001b3ULL + 77) ^ hash_str(p.id);
    auto case_seed = [&](uint64_t i) { return mix(base + i * 0x632be59bd9b4e019ULL); };

    if (!replay_file.empty()) {
        std::ifstream f(replay_file);
        std::string line;
        std::vector<uint64_t> choices;
        bool found = false;
        while (std::getline(f, line))
            if (line.rfind("choices:", 0) == 0) {
                std::istringstream is(line.substr(8));
                uint64_t v;
                while (is >> v) choices.push_back(v);
                found = true;
            }
        if (!found) { std::cerr << "no choices in " << replay_file << "\n"; return 3; }
        auto r = run_isolated(p, choices, own, true);
        for (int k = 1; k < p.replays && r.outcome == PASS; ++k) r = run_isolated(p, choices, own, true);
        std::cout << r.desc << "\n";
        if (r.outcome == FAILED) {
            std::cout << r.kind << ": " << r.msg << "\nVIOLATION property=" << p.id << " replay=" << replay_file << "\n";
            return 1;
        }
        std::cout << "the property holds on this case\n";
        return 0;
    }

    if (!known_file.empty()) report_known(p, known_file);

    const uint64_t cases = only_cases >= 0 ? (uint64_t)only_cases : tier == "quick" ? p.quick_cases : p.thorough_cases;

    struct Shared { std::atomic<uint64_t> next; std::atomic<int> stop; };
    auto *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->next = 0;
    sh->stop = 0;
    char tmpl[] = "/tmp/pbt.XXXXXX";
    const std::string tmp = mkdtemp(tmpl);

    struct Found { int64_t index; std::string kind, msg; std::vector<uint64_t> choices; };
    std::vector<Found> found;
    if (show_case >= 0) sh->next = show_case;
    std::vector<pid_t> pids(workers, 0);
    fflush(nullptr);
    for (unsigned w = 0; w < workers; ++w) {
        slots[w].case_index = -1;
        const pid_t pid = fork();
        if (pid == 0) {
            mute_stdout();
            if (p.worker_init) p.worker_init();
            uint64_t evals = 0, nontriv = 0, discards = 0;
            std::map<std::string, uint64_t> labels;
            std::vector<uint64_t> hashes;
            std::vector<std::pair<int64_t, std::string>> samples;
            int code = 0;
            while (!sh->stop && elapsed() < wall_guard) {
                const uint64_t i = sh->next.fetch_add(1);
                if (i >= cases) break;
                slots[w].case_index = (int64_t)i;
                Src s(case_seed(i), &slots[w]);
                Ctx c;
                c.want_description = i < 40;
                arm_cpu_limit(p.case_cpu_limit_s, p.case_wall_limit_s);
                const auto o = run_body(p, s, c, &slots[w]);
                arm_cpu_limit(0);
                if (o == FAILED) {
                    sh->stop = 1;
                    code = 10;
                    ++evals;
                    break;
                }
                if (o == DISCARDED) { ++discards; continue; }
                ++evals;
                for (auto &l : c.labels) labels[l.first] += l.second;
                if (c.is_nontrivial) {
                    ++nontriv;
                    uint64_t h = 0;
                    const uint64_t n = slots[w].n;
                    for (uint64_t k = 0; k < n; ++k) h = mix(h ^ slots[w].choices[k]);
                    hashes.push_back(h);
                    if (c.want_description && samples.size() < 3 && c.desc.size() < 6000)
                        samples.emplace_back(i, c.desc);
                }
            }
            if (code == 0) slots[w].case_index = -1;
            std::ofstream f(tmp + "/" + std::to_string(w), std::ios::binary);
            f << evals << " " << nontriv << " " << discards << "\n" << labels.size() << "\n";
            for (auto &l : labels) f << l.second << " " << l.first << "\n";
            f << hashes.size() << "\n";
            for (auto h : hashes) f << h << "\n";
            f << samples.size() << "\n";
            for (auto &sm : samples) f << sm.first << " " << sm.second.size() << "\n" << sm.second << "\n";
            f.close();
            _exit(code);
        }
        pids[w] = pid;
    }
    for (unsigned w = 0; w < workers; ++w) {
        int st = 0;
        waitpid(pids[w], &st, 0);
        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
            sh->stop = 1;
            Found f;
            f.index = slots[w].case_index;
            f.choices.assign(slots[w].choices, slots[w].choices + slots[w].n);
            if (WIFSIGNALED(st)) {
                if (WTERMSIG(st) == SIGKILL) {
                    std::cerr << "a worker was killed from outside (memory?)\n";
                    return 4;
                }
                f.kind = signal_kind(WTERMSIG(st));
                f.msg = std::string("the process died of signal ") + strsignal(WTERMSIG(st));
            } else if (WEXITSTATUS(st) == 10) {
                f.kind = slots[w].kind;
                f.msg = slots[w].msg;
            } else {
                f.kind = "crash";
                f.msg = "the process ended with status " + std::to_string(WEXITSTATUS(st));
            }
            found.push_back(f);
        }
    }

    uint64_t evals = 0, nontriv = 0, discards = 0;
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    std::map<int64_t, std::string> samples;
    for (unsigned w = 0; w < workers; ++w) {
        std::ifstream f(tmp + "/" + std::to_string(w), std::ios::binary);
        uint64_t e = 0, n = 0, d = 0, k = 0;
        if (!(f >> e >> n >> d >> k)) continue;
        evals += e; nontriv += n; discards += d;
        for (uint64_t i = 0; i < k; ++i) {
            uint64_t c; std::string l;
            f >> c;
            f.get();
            std::getline(f, l);
            labels[l] += c;
        }
        f >> k;
        for (uint64_t i = 0; i < k; ++i) { uint64_t h; f >> h; distinct.insert(h); }
        f >> k;
        for (uint64_t i = 0; i < k; ++i) {
            int64_t idx; size_t len;
            f >> idx >> len;
            f.get();
            std::string s(len, 0);
            f.read(&s[0], len);
            f.get();
            samples[idx] = s;
        }
        unlink((tmp + "/" + std::to_string(w)).c_str());
    }
    rmdir(tmp.c_str());

    // A failure counts only if it comes back when its choices are replayed in a fresh process.
    int violations = 0;
    uint64_t shrink_steps = 0;
    std::string violation_replay;
    std::sort(found.begin(), found.end(), [](const Found &a, const Found &b) { return a.index < b.index; });
    bool unstable = false;
    for (auto &f : found) {
        int again = 0;
        for (int k = 0; k < p.replays && again < 3; ++k) {
            const auto r = run_isolated(p, f.choices, own, false);
            if (r.outcome == FAILED) { ++again; f.kind = r.kind; f.msg = r.msg; }
        }
        if (again == 0 && !p.schedules) {
            std::cerr << "case " << f.index << " failed once (" << f.kind << ": " << f.msg << ") but not when replayed\n";
            unstable = true;
            continue;
        }
        auto best = again ? shrink(p, f.choices, f.kind, own, shrink_budget, shrink_steps) : f.choices;
        auto r = run_isolated(p, best, own, true);
        for (int k = 0; k < 2 + p.replays && r.outcome != FAILED; ++k) r = run_isolated(p, best, own, true);
        if (r.outcome != FAILED) { best = f.choices; r = run_isolated(p, best, own, true); }
        mkdir(replay_dir.c_str(), 0755);
        violation_replay = replay_dir + "/" + p.id + "-" + tag + std::to_string(seed) + "-" + std::to_string(f.index) + ".replay";
        std::ofstream o(violation_replay);
        o << "property: " << p.id << "\nseed: " << seed << "\ncase: " << f.index << "\nkind: " << (r.kind.empty() ? f.kind : r.kind) << "\nmessage: "
          << (r.msg.empty() ? f.msg : r.msg) << "\nchoices:";
        for (auto v : best) o << " " << v;
        o << "\ncase written out:\n" << r.desc << "\n";
        o.close();
        ++violations;
        std::cout << "case " << f.index << " shrunk from " << f.choices.size() << " to " << best.size() << " choices in "
                  << shrink_steps << " steps\n" << r.desc << "\n" << (r.kind.empty() ? f.kind : r.kind) << ": " << (r.msg.empty() ? f.msg : r.msg)
                  << "\nVIOLATION property=" << p.id << " replay=" << violation_replay << std::endl;
        break;
    }

    if (!evidence.empty()) {
        std::ofstream o(evidence);
        o << "{\n \"property\": \"" << p.id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals
          << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"nontrivial\": " << nontriv
          << ",\n  \"discarded\": " << discards << ",\n  \"cases_planned\": " << cases << ",\n  \"rule\": \""
          << jesc(p.rule) << "\",\n  \"labels\": {";
        bool first = true;
        for (auto &l : labels) { o << (first ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second; first = false; }
        o << "},\n  \"samples\": [";
        first = true;
        int k = 0;
        for (auto &s : samples) {
            if (k++ >= 4) break;
            o << (first ? "" : ",") << "\n   \"case " << s.first << ": " << jesc(s.second) << "\"";
            first = false;
        }
        o << "\n  ]\n },\n \"assumptions\": [";
        first = true;
        for (auto &a : p.assumptions) { o << (first ? "" : ", ") << "\"" << jesc(a) << "\""; first = false; }
        o << "],\n \"wall_s\": " << elapsed() << ",\n \"violations\": " << violations << "\n}\n";
    }
    std::cout << p.id << ": " << evals << " cases (" << distinct.size() << " distinct non-trivial, " << discards
              << " discarded) of " << cases << " planned, " << elapsed() << " s";
    for (auto &l : labels) std::cout << "\n   " << l.first << ": " << l.second;
    std::cout << std::endl;
    if (violations) return 1;
    if (unstable) {
        std::cerr << "a failure could not be replayed\n";
        return 4;
    }
    if (evals == 0 || (only_cases < 0 && nontriv < p.min_nontrivial * evals)) {
        std::cerr << "too few non-trivial cases: " << nontriv << " of " << evals << "\n";
        return 5;
    }
    return 0;
}

} // namespace pbt

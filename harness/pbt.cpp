#include "pbt.hpp"

#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {

static uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

uint64_t Ctx::draw(uint64_t bound) {
    uint64_t v;
    if (replay) {
        v = pos < in.size() ? in[pos] : 0;
        if (v > bound) v = bound == UINT64_MAX ? v : v % (bound + 1);
        ++pos;
    } else {
        v = splitmix(rng[0]);
        if (bound != UINT64_MAX) v %= (bound + 1);
    }
    if (rec) {
        if (rec[0] + 1 < rec_cap) {
            rec[1 + rec[0]] = v;
            rec[0] += 1;
        }
    }
    return v;
}

int64_t Ctx::u(int64_t lo, int64_t hi) {
    if (hi < lo) hi = lo;
    return lo + (int64_t)draw((uint64_t)(hi - lo));
}
int64_t Ctx::i(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    if (!replay && rng[0] % 8 == 0) { // bias: the value drawn is still one choice
        uint64_t span = (uint64_t)(hi - lo);
        uint64_t k    = splitmix(rng[0]) % 4;
        uint64_t v    = k == 0 ? 0 : k == 1 ? span : k == 2 ? std::min<uint64_t>(1, span) : span - (span > 0);
        if (rec && rec[0] + 1 < rec_cap) {
            rec[1 + rec[0]] = v;
            rec[0] += 1;
        }
        return lo + (int64_t)v;
    }
    return u(lo, hi);
}
int64_t Ctx::small(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    if (!replay) {
        uint64_t span = (uint64_t)(hi - lo);
        double   x    = (splitmix(rng[0]) >> 11) * (1.0 / 9007199254740992.0);
        uint64_t v    = (uint64_t)(std::pow(x, 2.5) * (span + 1));
        if (v > span) v = span;
        if (rec && rec[0] + 1 < rec_cap) {
            rec[1 + rec[0]] = v;
            rec[0] += 1;
        }
        return lo + (int64_t)v;
    }
    return u(lo, hi);
}
bool   Ctx::b(int num, int den) { return (int)draw(den - 1) >= den - num; }
double Ctx::real(double lo, double hi) {
    auto   k = draw(1u << 20);
    double f = (double)k;
    if (k & 1) f += (double)((k * 0x9e3779b97f4a7c15ull) >> 11) / 9007199254740992.0; // the low bits are in use, too
    return lo + (hi - lo) * (f / double(1u << 20));
}

double Noise::normal() {
    double u1 = uni(), u2 = uni();
    if (u1 < 1e-300) u1 = 1e-300;
    return std::sqrt(-2 * std::log(u1)) * std::cos(6.283185307179586 * u2);
}

void fail(const std::string &key, const std::string &msg) { throw Violation{key, msg}; }

// ------------------------------------------------------------------------------------------------- shared memory
static constexpr uint64_t REC_CAP = 1 << 17;
static constexpr size_t   MSG_CAP = 1 << 16;
struct Shared {
    uint64_t rec[REC_CAP];
    volatile int64_t  case_index; // index being run
    volatile int      in_case;
    volatile int      outcome; // 0 none, 1 ok, 2 discard, 3 violation
    char              key[256];
    char              msg[MSG_CAP];
    char              desc[MSG_CAP];
    volatile int      nontrivial;
    volatile int      last; // the case itself has been reached, after those before it
};
static Shared *new_shared() {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(9);
    }
    return (Shared *)p;
}

static volatile double *g_stop; // shared: seconds after which workers stop
static std::string g_scratch;
std::string        scratch_dir() {
    static pid_t       made_for = 0;
    static std::string mine;
    if (made_for != getpid()) {
        mine = g_scratch + "/p" + std::to_string(getpid());
        mkdir(mine.c_str(), 0700);
        made_for = getpid();
    }
    return mine;
}
static void rmtree(const std::string &d) {
    // only ever called on directories below our own mkdtemp() directory
    if (d.compare(0, g_scratch.size(), g_scratch) != 0 || g_scratch.size() < 8) return;
    DIR *dp = opendir(d.c_str());
    if (!dp) return;
    while (auto *e = readdir(dp)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
            rmtree(p);
        else
            unlink(p.c_str());
    }
    closedir(dp);
    rmdir(d.c_str());
}

static void quiet_stdio(const std::string &errfile) {
    int n = open("/dev/null", O_WRONLY);
    if (n >= 0) dup2(n, 1);
    int e = errfile.empty() ? n : open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (e >= 0) dup2(e, 2);
}

static void set_str(char *dst, size_t cap, const std::string &s) {
    size_t n = std::min(cap - 1, s.size());
    memcpy(dst, s.data(), n);
    dst[n] = 0;
}

// run one case in this process
static void run_case(const Facet &f, Ctx &c, Shared *sh, int timeout_s) {
    sh->rec[0]  = 0;
    sh->outcome = 0;
    sh->key[0]  = 0;
    sh->msg[0]  = 0;
    sh->nontrivial = 0;
    c.rec     = sh->rec;
    c.rec_cap = REC_CAP - 2;
    sh->in_case = 1;
    alarm(timeout_s);
    int out = 1;
    try {
        f.fn(c);
    } catch (const Discard &) {
        out = 2;
    } catch (const Violation &v) {
        out = 3;
        set_str(sh->key, sizeof sh->key, v.key);
        set_str(sh->msg, MSG_CAP, v.msg);
    } catch (const std::exception &e) {
        out = 3;
        set_str(sh->key, sizeof sh->key, f.name + ":exception");
        set_str(sh->msg, MSG_CAP, std::string("unexpected exception: ") + e.what());
    } catch (...) {
        out = 3;
        set_str(sh->key, sizeof sh->key, f.name + ":exception");
        set_str(sh->msg, MSG_CAP, "unexpected exception of unknown type");
    }
    alarm(0);
    set_str(sh->desc, MSG_CAP, c.desc);
    sh->nontrivial = c.is_nontrivial;
    sh->outcome    = out;
    sh->in_case    = 0;
}

struct Result {
    int                   outcome = 0; // 1 ok 2 discard 3 violation
    std::string           key, msg, desc;
    std::vector<uint64_t> choices;
    bool                  crash = false;
};

static std::string crash_summary(const std::string &errfile, int status) {
    std::ostringstream o;
    if (WIFSIGNALED(status)) {
        int s = WTERMSIG(status);
        o << (s == SIGALRM ? "no result within the (very generous) case time limit" : "killed by signal ") ;
        if (s != SIGALRM) o << s << " (" << strsignal(s) << ")";
    } else
        o << "process ended with status " << WEXITSTATUS(status);
    std::ifstream f(errfile);
    std::string   l;
    int           n = 0;
    while (std::getline(f, l)) {
        if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("SUMMARY") != std::string::npos ||
            l.find("runtime error") != std::string::npos || l.find("Assertion") != std::string::npos ||
            (l.find("    #") != std::string::npos && l.find("/repo/") != std::string::npos && n < 12) ||
            l.find("what():") != std::string::npos) {
            o << " | " << l;
            if (++n > 14) break;
        }
    }
    return o.str();
}

// A case that ran earlier in the process: either given by its choices, or made again from its random state.
struct Earlier {
    const Facet          *facet = nullptr;
    bool                  made  = false;
    uint64_t              rng   = 0;
    std::vector<uint64_t> choices;
};

// Run a case in a process of its own, after the given earlier ones (which have to hold: otherwise nothing is decided).
static Result run_forked(const Facet &f, const std::vector<uint64_t> &choices, Shared *sh, int timeout_s, const std::vector<Earlier> &before = {}) {
    Result      r;
    std::string errfile = g_scratch + "/stderr.single";
    sh->outcome         = 0;
    sh->rec[0]          = 0;
    sh->desc[0]         = 0;
    pid_t p             = fork();
    if (p == 0) {
        quiet_stdio(errfile);
        sh->last = 0;
        for (auto &e : before) {
            Ctx b;
            b.replay = !e.made;
            b.in     = e.choices;
            b.rng[0] = e.rng, b.rng[1] = 0;
            run_case(*e.facet, b, sh, timeout_s);
            if (sh->outcome == 3) _exit(43);
        }
        sh->outcome = 0;
        sh->last    = 1;
        Ctx c;
        c.replay = true;
        c.in     = choices;
        run_case(f, c, sh, timeout_s);
        _exit(0);
    }
    int status = 0;
    waitpid(p, &status, 0);
    if (!sh->last || (WIFEXITED(status) && WEXITSTATUS(status) == 43)) {
        rmtree(g_scratch + "/p" + std::to_string(p));
        r.outcome = 2;
        return r;
    }
    r.choices.assign(sh->rec + 1, sh->rec + 1 + sh->rec[0]);
    r.desc = sh->desc;
    if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0) || sh->outcome == 0) {
        r.outcome = 3;
        r.crash   = true;
        r.key     = f.name + (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM ? ":hang" : ":crash");
        r.msg     = crash_summary(errfile, status);
    } else {
        r.outcome = sh->outcome;
        r.key     = sh->key;
        r.msg     = sh->msg;
    }
    // children leave scratch behind when they crash
    rmtree(g_scratch + "/p" + std::to_string(p));
    return r;
}

static std::vector<uint64_t> shrink(const Facet &f, std::vector<uint64_t> best, const std::string &key, Shared *sh,
                                    int timeout_s, int &attempts, const std::vector<Earlier> &before = {}) {
    if (getenv("PBT_NOSHRINK")) return best; // (mutation testing)
    using clk      = std::chrono::steady_clock;
    auto     start = clk::now();
    attempts       = 0;
    auto try_it    = [&](const std::vector<uint64_t> &cand) {
        if (attempts > 1500 || std::chrono::duration<double>(clk::now() - start).count() > 60) return false;
        ++attempts;
        auto r = run_forked(f, cand, sh, timeout_s, before);
        if (r.outcome == 3 && r.key == key) {
            // keep the normalised record when it is no larger
            std::vector<uint64_t> n = r.choices;
            if (n.size() <= cand.size() && (n.size() < best.size() || (n.size() == best.size() && n < best)))
                best = n;
            else if (cand.size() < best.size() || (cand.size() == best.size() && cand < best))
                best = cand;
            else
                return false;
            return true;
        }
        return false;
    };
    bool improved = true;
    while (improved && attempts < 1500) {
        improved = false;
        for (size_t len : {64, 32, 16, 8, 4, 3, 2, 1})
            for (size_t k = best.size() >= len ? best.size() - len + 1 : 0; k-- > 0;) {
                if (k + len > best.size()) continue;
                auto cand = best;
                cand.erase(cand.begin() + k, cand.begin() + k + len);
                if (try_it(cand)) improved = true;
            }
        for (size_t len : {8, 4, 2})
            for (size_t k = 0; k + len <= best.size(); ++k) {
                if (std::all_of(best.begin() + k, best.begin() + k + len, [](uint64_t x) { return x == 0; })) continue;
                auto cand = best;
                std::fill(cand.begin() + k, cand.begin() + k + len, 0);
                if (try_it(cand)) improved = true;
            }
        for (size_t k = 0; k < best.size(); ++k) {
            if (best[k] == 0) continue;
            auto cand = best;
            cand[k]   = 0;
            if (try_it(cand)) {
                improved = true;
                continue;
            }
            uint64_t lo = 0, hi = k < best.size() ? best[k] : 0;
            for (int it = 0; it < 12 && lo + 1 < hi; ++it) {
                uint64_t mid = lo + (hi - lo) / 2;
                cand         = best;
                if (k >= cand.size()) break;
                cand[k] = mid;
                if (try_it(cand)) {
                    hi       = k < best.size() ? best[k] : 0;
                    improved = true;
                } else
                    lo = mid;
            }
            if (k < best.size() && best[k] > 0) {
                cand = best;
                cand[k] -= 1;
                if (try_it(cand)) improved = true;
            }
        }
    }
    return best;
}

// What was left over of earlier cases in the same process can make a case fail. Find few of them that do it.
static bool find_history(const Facet &f, const std::vector<uint64_t> &choices, std::vector<Earlier> all, Shared *sh, int timeout_s, std::vector<Earlier> &before) {
    using clk  = std::chrono::steady_clock;
    auto start = clk::now();
    auto spent = [&] { return std::chrono::duration<double>(clk::now() - start).count(); };
    auto fails = [&](const std::vector<Earlier> &b) {
        auto r = run_forked(f, choices, sh, timeout_s, b);
        return r.outcome == 3;
    };
    before.clear();
    bool found = false;
    for (size_t n = 4;; n *= 4) {
        size_t k = std::min(n, all.size());
        before.assign(all.end() - k, all.end());
        if ((found = fails(before)) || k == all.size() || spent() > 60) break;
    }
    if (!found) return false;
    // fewer: leave out pieces as long as it still fails
    for (size_t len = before.size() / 2; len >= 1; len /= 2)
        for (size_t k = 0; k < before.size() && before.size() > 1 && spent() < 120;) {
            auto b = before;
            b.erase(b.begin() + k, b.begin() + std::min(b.size(), k + len));
            if (fails(b)) before = b;
            else k += len;
        }
    // their choices
    for (auto &e : before) {
        int64_t n = 0;
        pid_t   p = fork();
        if (p == 0) {
            quiet_stdio("");
            Ctx c;
            c.rng[0] = e.rng, c.rng[1] = 0;
            run_case(*e.facet, c, sh, timeout_s);
            _exit(0);
        }
        int status = 0;
        waitpid(p, &status, 0);
        n = sh->rec[0];
        e.choices.assign(sh->rec + 1, sh->rec + 1 + n);
        rmtree(g_scratch + "/p" + std::to_string(p));
    }
    auto given = before;
    for (auto &e : given) e.made = false;
    if (fails(given)) { // simpler ones
        before = given;
        for (size_t q = 0; q < before.size(); ++q)
            for (size_t len : {32, 8, 2, 1})
                for (size_t k = before[q].choices.size() >= len ? before[q].choices.size() - len + 1 : 0; k-- > 0 && spent() < 150;) {
                    if (k + len > before[q].choices.size()) continue;
                    auto b = before;
                    b[q].choices.erase(b[q].choices.begin() + k, b[q].choices.begin() + k + len);
                    if (fails(b)) before = b;
                }
    }
    int again = 0;
    for (int k = 0; k < 3; ++k) again += fails(before);
    return again == 3;
}

static std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += ch;
        } else if (ch < 0x20 || ch >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        } else
            o += ch;
    }
    return o;
}

struct Stats {
    int64_t                                                 evaluations = 0, discarded = 0, nontriv = 0, suppressed = 0;
    std::map<std::string, int64_t>                          per_facet, per_facet_nontriv, labels;
    std::unordered_set<uint64_t>                            hashes;
    std::vector<std::string>                                samples;
    std::map<std::string, int64_t>                          suppressed_keys;
};

static uint64_t hash_case(size_t facet, const uint64_t *rec) {
    uint64_t h = 1469598103934665603ull ^ (facet * 0x9E3779B97F4A7C15ull);
    for (uint64_t k = 0; k < rec[0]; ++k) {
        h ^= rec[1 + k] + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h *= 1099511628211ull;
    }
    return h;
}

static int pick_facet(const Suite &s, const std::vector<int> &schedule, int64_t idx) {
    (void)s;
    return schedule[idx % schedule.size()];
}

int run(int argc, char **argv, Suite suite) {
    auto        t0   = std::chrono::steady_clock::now();
    std::string tier = "quick", evidence, replay, known_file, replay_dir = ".";
    uint64_t    seed    = 1;
    int64_t     cases   = -1;
    int         workers = 8;
    double      max_s   = -1;
    std::string only;
    bool        verbose = false;
    for (int k = 1; k < argc; ++k) {
        std::string a = argv[k];
        auto        v = [&]() { return std::string(argv[++k]); };
        if (a == "--tier") tier = v();
        else if (a == "--seed") seed = std::stoull(v());
        else if (a == "--cases") cases = std::stoll(v());
        else if (a == "--workers") workers = std::stoi(v());
        else if (a == "--evidence") evidence = v();
        else if (a == "--replay") replay = v();
        else if (a == "--known") known_file = v();
        else if (a == "--replay-dir") replay_dir = v();
        else if (a == "--max-seconds") max_s = std::stod(v());
        else if (a == "--facet") only = v();
        else if (a == "-v") verbose = true;
    }
    bool thorough = tier == "thorough";
    if (cases < 0) cases = thorough ? suite.thorough_cases : suite.quick_cases;
    if (max_s < 0) max_s = thorough ? 2400 : 420;

    char        tmpl[] = "/tmp/blissverif.XXXXXX";
    const char *d      = mkdtemp(tmpl);
    if (!d) {
        perror("mkdtemp");
        return 3;
    }
    g_scratch = d;
    // code that never stops writing a file must not fill the disk
    struct rlimit largest{(rlim_t)4 << 30, (rlim_t)4 << 30};
    setrlimit(RLIMIT_FSIZE, &largest);
    struct Cleaner {
        pid_t me = getpid();
        ~Cleaner() {
            if (getpid() == me) rmtree(g_scratch);
        }
    } cleaner;

    Shared *single = new_shared();
    g_stop         = (volatile double *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    *g_stop        = max_s;

    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string   word, facet;
        std::vector<uint64_t> ch;
        std::vector<Earlier>  before;
        std::string line;
        while (std::getline(f, line)) {
            std::istringstream is(line);
            is >> word;
            if (word == "facet") is >> facet;
            if (word == "before" || word == "before-made") {
                Earlier     e;
                std::string n;
                is >> n;
                for (auto &fc : suite.facets)
                    if (fc.name == n) e.facet = &fc;
                if (e.facet == nullptr) continue;
                uint64_t x;
                if ((e.made = word == "before-made")) is >> e.rng;
                else
                    while (is >> x) e.choices.push_back(x);
                before.push_back(e);
            }
            if (word == "choices") {
                uint64_t x;
                while (is >> x) ch.push_back(x);
            }
        }
        for (auto &fc : suite.facets)
            if (fc.name == facet) {
                auto r = run_forked(fc, ch, single, suite.case_timeout_s, before);
                std::cout << "facet " << facet << (before.empty() ? "" : " (after " + std::to_string(before.size()) + " other cases in the same process)") << "\ncase: " << r.desc << "\n"
                          << (r.outcome == 3 ? "VIOLATED " + r.key + ": " + r.msg : "holds") << "\n";
                if (r.outcome == 3) {
                    std::cout << "VIOLATION property=" << suite.property << " replay=" << replay << "\n";
                    return 1;
                }
                return 0;
            }
        std::cerr << "replay: no facet named '" << facet << "'\n";
        return 3;
    }

    // known findings: lines "property=<id> key=<key> <text>"
    std::set<std::string> known;
    if (!known_file.empty()) {
        std::ifstream f(known_file);
        std::string   l;
        while (std::getline(f, l)) {
            if (l.rfind("property=" + suite.property + " key=", 0) == 0) {
                std::istringstream is(l.substr(("property=" + suite.property + " key=").size()));
                std::string        k;
                is >> k;
                known.insert(k);
            }
        }
    }

    std::vector<int> schedule;
    std::vector<int64_t> facet_cap(suite.facets.size(), 0);
    {
        std::vector<int> left;
        for (size_t k = 0; k < suite.facets.size(); ++k)
            left.push_back(only.empty() || suite.facets[k].name == only ? suite.facets[k].weight : 0);
        bool any = true;
        while (any) {
            any = false;
            for (size_t k = 0; k < left.size(); ++k)
                if (left[k] > 0) {
                    schedule.push_back(k);
                    --left[k];
                    any = true;
                }
        }
        if (schedule.empty()) {
            std::cerr << "no such facet\n";
            return 3;
        }
    }

    struct Worker {
        pid_t       pid = 0;
        Shared     *sh  = nullptr;
        int64_t     next = 0, first = 0;
        std::string err, out;
        bool        done = false;
    };
    std::vector<Worker> ws(workers);
    Stats               total;
    struct Failure {
        int                   facet;
        std::string           key, msg, desc;
        std::vector<uint64_t> choices;
        bool                  crash = false, killed = false;
        int64_t               first = 0, at = 0; // the worker ran every 'workers'-th case from 'first' up to 'at'
    };
    std::vector<Failure> failures;
    std::map<std::string, int> seen_keys;
    bool                  out_of_time = false;

    auto case_rng = [&](int64_t idx, Ctx &c) {
        uint64_t s = seed * 0xD1342543DE82EF95ull + (uint64_t)idx * 0x9E3779B97F4A7C15ull + 77;
        splitmix(s);
        c.rng[0] = splitmix(s);
        c.rng[1] = 0;
    };
    auto elapsed = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };

    auto spawn = [&](int w) {
        auto &W    = ws[w];
        W.err      = g_scratch + "/stderr." + std::to_string(w);
        W.out      = g_scratch + "/stats." + std::to_string(w) + "." + std::to_string(W.next);
        W.sh->case_index = W.next;
        W.first          = W.next;
        W.sh->in_case    = 0;
        W.pid = fork();
        if (W.pid != 0) return;
        quiet_stdio(W.err);
        FILE *out = fopen(W.out.c_str(), "w");
        int64_t since = 0;
        int     nsamp = 0;
        for (int64_t idx = W.next; idx < cases; idx += workers) {
            if (elapsed() > *g_stop) {
                fprintf(out, "T\n");
                break;
            }
            int fi = pick_facet(suite, schedule, idx);
            auto &fc = suite.facets[fi];
            if (fc.max_cases && (idx / (int64_t)schedule.size()) * fc.weight >= fc.max_cases * (thorough ? 8 : 1)) continue;
            Ctx c;
            case_rng(idx, c);
            W.sh->case_index = idx;
            if (since++ % 64 == 0) fflush(out);
            run_case(fc, c, W.sh, suite.case_timeout_s);
            if (W.sh->outcome == 3) {
                if (known.count(W.sh->key)) {
                    fprintf(out, "K %s\n", W.sh->key);
                    continue;
                }
                fflush(out);
                fclose(out);
                _exit(42); // violation: details in shared memory
            }
            fprintf(out, "C %d %d %d %016llx\n", fi, (int)W.sh->outcome, (int)W.sh->nontrivial,
                    (unsigned long long)hash_case(fi, W.sh->rec));
            for (auto &l : c.labels) fprintf(out, "L %s\n", l.c_str());
            if (W.sh->nontrivial && nsamp < 3 && (idx / workers) % 7 == 0) {
                ++nsamp;
                fprintf(out, "S %s\n", jesc(fc.name + ": " + c.desc.substr(0, 500)).c_str());
            }
        }
        fclose(out);
        rmtree(scratch_dir());
        _exit(0);
    };
    auto collect = [&](const std::string &path) {
        std::ifstream f(path);
        std::string   l;
        while (std::getline(f, l)) {
            if (l.size() < 1) continue;
            if (l[0] == 'C') {
                int                fi, oc, nt;
                unsigned long long h;
                if (sscanf(l.c_str(), "C %d %d %d %llx", &fi, &oc, &nt, &h) != 4) continue;
                if (oc == 2) {
                    ++total.discarded;
                    continue;
                }
                ++total.evaluations;
                ++total.per_facet[suite.facets[fi].name];
                if (nt) {
                    ++total.nontriv;
                    ++total.per_facet_nontriv[suite.facets[fi].name];
                    total.hashes.insert(h);
                }
            } else if (l[0] == 'L')
                ++total.labels[l.substr(2)];
            else if (l[0] == 'S') {
                if (total.samples.size() < 40) total.samples.push_back(l.substr(2));
            } else if (l[0] == 'K') {
                ++total.suppressed;
                ++total.suppressed_keys[l.substr(2)];
            } else if (l[0] == 'T')
                out_of_time = true;
        }
        unlink(path.c_str());
    };

    for (int w = 0; w < workers; ++w) {
        ws[w].sh   = new_shared();
        ws[w].next = w;
        if (w < cases) spawn(w);
        else ws[w].done = true;
    }
    for (;;) {
        bool any = false;
        for (auto &W : ws) any = any || !W.done;
        if (!any) break;
        int   status = 0;
        pid_t p      = waitpid(-1, &status, 0);
        if (p < 0) break;
        for (int w = 0; w < workers; ++w) {
            auto &W = ws[w];
            if (W.done || W.pid != p) continue;
            collect(W.out);
            if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
                W.done = true;
                break;
            }
            // a failing case
            Failure fl;
            fl.first = W.first, fl.at = W.sh->case_index;
            fl.killed = WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL;
            fl.facet = pick_facet(suite, schedule, W.sh->case_index);
            fl.choices.assign(W.sh->rec + 1, W.sh->rec + 1 + W.sh->rec[0]);
            if (WIFEXITED(status) && WEXITSTATUS(status) == 42) {
                fl.key  = W.sh->key;
                fl.msg  = W.sh->msg;
                fl.desc = W.sh->desc;
            } else {
                fl.crash = true;
                fl.desc  = W.sh->desc;
                fl.key   = suite.facets[fl.facet].name +
                         (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM ? ":hang" : ":crash");
                fl.msg = crash_summary(W.err, status);
                rmtree(g_scratch + "/p" + std::to_string(p));
                if (known.count(fl.key)) {
                    ++total.suppressed;
                    ++total.suppressed_keys[fl.key];
                }
            }
            ++total.evaluations;
            ++total.per_facet[suite.facets[fl.facet].name];
            if (!known.count(fl.key) && seen_keys[fl.key]++ < 3) failures.push_back(fl);
            W.next = W.sh->case_index + workers;
            // a handful of distinct failures is enough
            if (seen_keys.size() >= 4) *g_stop = 0;
            if (!failures.empty()) *g_stop = std::min((double)*g_stop, elapsed() + 15);
            if (W.next < cases && elapsed() < *g_stop)
                spawn(w);
            else
                W.done = true;
            break;
        }
    }

    // ---- confirm, shrink, write replays
    int                      rc = 0;
    std::vector<std::string> vio_json;
    int                      serial = 0;
    mkdir(replay_dir.c_str(), 0755);
    std::set<std::string> reported;
    int                   searched = 0;
    for (auto &fl : failures) {
        auto &fc = suite.facets[fl.facet];
        std::vector<Earlier> before;
        if (reported.count(fl.key)) continue; // (another example of what is reported already)
        bool hang = fl.key.size() > 5 && fl.key.compare(fl.key.size() - 5, 5, ":hang") == 0;
        if (rc != 0 && (hang || elapsed() > 400)) continue; // (each takes minutes to confirm)
        // confirm: three replays in fresh processes
        int ok = 0;
        for (int k = 0; k < 3; ++k) {
            auto r = run_forked(fc, fl.choices, single, suite.case_timeout_s);
            if (r.outcome == 3) ++ok;
            else if (hang) break;
        }
        if (ok < 3) {
            // The harness is deterministic; a result that varies between identical runs is retried, and only counts when
            // it comes back at all.
            for (int k = 0; k < 7 && !hang; ++k) ok += run_forked(fc, fl.choices, single, suite.case_timeout_s).outcome == 3;
            if (ok == 0 && !hang && !fl.killed && searched++ < 3) {
                std::vector<Earlier> all;
                for (int64_t idx = fl.first; idx < fl.at; idx += workers) {
                    Earlier e;
                    int     fi = pick_facet(suite, schedule, idx);
                    e.facet    = &suite.facets[fi];
                    if (e.facet->max_cases && (idx / (int64_t)schedule.size()) * e.facet->weight >= e.facet->max_cases * (thorough ? 8 : 1)) continue;
                    Ctx c;
                    case_rng(idx, c);
                    e.made = true, e.rng = c.rng[0];
                    all.push_back(e);
                }
                if (!all.empty() && find_history(fc, fl.choices, all, single, suite.case_timeout_s, before)) ok = 3;
                else before.clear();
            }
            if (ok == 0 || hang) {
                std::cerr << "note: a failure of " << fc.name << " (" << fl.key << ": " << fl.msg
                          << ") did not reproduce; not reported\n";
                continue;
            }
        }
        int  attempts = 0;
        reported.insert(fl.key);
        if (!before.empty()) fl.key = run_forked(fc, fl.choices, single, suite.case_timeout_s, before).key;
        auto   small  = hang ? fl.choices : shrink(fc, fl.choices, fl.key, single, suite.case_timeout_s, attempts, before);
        Result r;
        if (hang) r.outcome = 3, r.key = fl.key, r.msg = fl.msg, r.desc = fl.desc;
        else r = run_forked(fc, small, single, suite.case_timeout_s, before);
        if (r.outcome != 3) {
            small = fl.choices;
            r     = run_forked(fc, small, single, suite.case_timeout_s, before);
            if (r.outcome != 3) {
                r.key = fl.key;
                r.msg = fl.msg;
            }
        }
        std::string path = replay_dir + "/" + suite.property + "-" + std::to_string(serial++) + ".replay";
        {
            std::ofstream f(path);
            f << "property " << suite.property << "\nfacet " << fc.name << "\n";
            for (auto &e : before) {
                f << (e.made ? "before-made " : "before ") << e.facet->name;
                if (e.made) f << " " << e.rng;
                else
                    for (auto x : e.choices) f << " " << x;
                f << "\n";
            }
            f << "choices";
            for (auto x : small) f << " " << x;
            f << "\n# key: " << r.key << "\n# case: " << r.desc << "\n# observed: " << r.msg << "\n# shrink attempts: " << attempts
              << ", choices " << fl.choices.size() << " -> " << small.size() << "\n# re-run: check.py " << suite.property
              << " --replay " << path << "\n";
        }
        if (!before.empty()) {
            r.msg += " (only after " + std::to_string(before.size()) + " earlier case(s) in the same process: the result depends on what was computed before)";
        }
        std::cout << "facet " << fc.name << "\n  case: " << r.desc.substr(0, 1500) << "\n  " << r.key << ": " << r.msg.substr(0, 2500) << "\n";
        std::cout << "VIOLATION property=" << suite.property << " replay=" << path << std::endl;
        vio_json.push_back("{\"key\":\"" + jesc(r.key) + "\",\"facet\":\"" + jesc(fc.name) + "\",\"replay\":\"" + jesc(path) +
                           "\",\"case\":\"" + jesc(r.desc.substr(0, 1500)) + "\",\"observed\":\"" + jesc(r.msg.substr(0, 1500)) + "\"}");
        rc = 1;
    }

    // ---- known findings: show that each is still there
    std::vector<std::string> known_json;
    for (auto &wt : suite.witnesses) {
        Facet f{"witness:" + wt.key, 1, 0, [&](Ctx &) {
                    if (wt.fn()) fail(wt.key, wt.what);
                }};
        auto  r     = run_forked(f, {}, single, suite.case_timeout_s);
        bool  there = r.outcome == 3;
        if (known.count(wt.key)) {
            if (there) std::cout << "KNOWN-FINDING: property=" << suite.property << " " << wt.what << std::endl;
            else std::cout << "note: recorded finding no longer reproduces: " << wt.key << std::endl;
            known_json.push_back("{\"key\":\"" + jesc(wt.key) + "\",\"what\":\"" + jesc(wt.what) + "\",\"still_there\":" +
                                 (there ? "true" : "false") + "}");
        } else if (there) {
            std::string path = replay_dir + "/" + suite.property + "-w" + std::to_string(serial++) + ".replay";
            std::ofstream(path) << "property " << suite.property << "\nfacet witness:" << wt.key << "\nchoices\n# " << wt.what << "\n";
            std::cout << "VIOLATION property=" << suite.property << " replay=" << path << std::endl;
            rc = 1;
        }
    }

    if (total.evaluations == 0 || (total.hashes.empty() && rc == 0)) {
        std::cerr << "no non-trivial case was evaluated: this run decides nothing\n";
        if (rc == 0) rc = 4;
    }

    double wall = elapsed();
    if (!evidence.empty()) {
        std::ofstream o(evidence);
        o << "{\n \"property\": \"" << suite.property << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << total.evaluations
          << ",\n  \"distinct_nontrivial\": " << total.hashes.size() << ",\n  \"rule\": \"" << jesc(suite.rule)
          << "\",\n  \"discarded\": " << total.discarded << ",\n  \"planned_cases\": " << cases
          << ",\n  \"stopped_by_time_budget\": " << (out_of_time ? "true" : "false") << ",\n  \"workers\": " << workers
          << ",\n  \"suppressed_known\": " << total.suppressed << ",\n  \"per_facet\": {";
        bool first = true;
        for (auto &kv : total.per_facet) {
            o << (first ? "" : ", ") << "\"" << jesc(kv.first) << "\": {\"evaluations\": " << kv.second
              << ", \"nontrivial\": " << total.per_facet_nontriv[kv.first] << "}";
            first = false;
        }
        o << "},\n  \"labels\": {";
        first = true;
        for (auto &kv : total.labels) {
            o << (first ? "" : ", ") << "\"" << jesc(kv.first) << "\": " << kv.second;
            first = false;
        }
        o << "},\n  \"samples\": [";
        first = true;
        for (auto &s : total.samples) {
            if (!first) o << ",";
            o << "\n   \"" << s << "\"";
            first = false;
        }
        o << "]\n },\n \"known_findings\": [";
        for (size_t k = 0; k < known_json.size(); ++k) o << (k ? "," : "") << known_json[k];
        o << "],\n \"violations\": " << vio_json.size() << ",\n \"violation_details\": [";
        for (size_t k = 0; k < vio_json.size(); ++k) o << (k ? "," : "") << vio_json[k];
        o << "],\n \"assumptions\": [\"" << jesc(suite.assumptions) << "\"],\n \"wall_s\": " << wall << "\n}\n";
    }
    std::cout << suite.property << " " << tier << " seed=" << seed << ": " << total.evaluations << " cases, "
              << total.hashes.size() << " distinct non-trivial, " << total.discarded << " discarded, " << failures.size()
              << " failure class(es), " << wall << " s" << std::endl;
    if (verbose)
        for (auto &kv : total.labels) std::cout << "  " << kv.first << ": " << kv.second << "\n";
    return rc;
}

} // namespace pbt

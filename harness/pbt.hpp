// A small property-based testing engine.
//
// Every case is generated from a sequence of bounded integer choices ("choice sequence").  A case is replayed by
// feeding the same sequence back, and shrunk by deleting / lowering choices (integrated shrinking: generators need no
// shrinker of their own).  Cases run in forked workers, so a crash, a sanitizer report or a hang of the code under test
// is an observation, not the end of the run.
#pragma once

#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Violation {
    std::string key; // stable class of the failure (used to match known findings)
    std::string msg;
};
struct Discard {};

class Ctx {
  public:
    // --- choices
    uint64_t draw(uint64_t bound); // uniform in [0, bound]
    int64_t  i(int64_t lo, int64_t hi);          // uniform with some weight on the bounds, shrinks to lo
    int64_t  u(int64_t lo, int64_t hi);          // plain uniform, shrinks to lo
    int64_t  small(int64_t lo, int64_t hi);      // skewed to lo
    bool     b(int num = 1, int den = 2);        // true with probability num/den, shrinks to false
    template <class T> const T &pick(const std::vector<T> &v) { return v[u(0, (int64_t)v.size() - 1)]; }
    double   real(double lo, double hi);         // one of 2^20 values in [lo, hi], every second one of full precision; shrinks to lo
    uint64_t seed() { return draw(0xffffffffu); } // seed for bulk data (see Noise)

    // --- reporting
    template <class... A> void note(const A &...a) {
        std::ostringstream o;
        o.precision(9);
        (o << ... << a);
        desc += o.str();
        desc += "; ";
    }
    void label(const std::string &l) { labels.insert(l); }
    void nontrivial(bool v = true) { is_nontrivial = is_nontrivial || v; }

    std::string           desc;
    std::set<std::string> labels;
    bool                  is_nontrivial = false;

    // --- engine internals
    uint64_t              rng[2];
    bool                  replay = false;
    std::vector<uint64_t> in;
    size_t                pos = 0;
    uint64_t             *rec = nullptr; // shared-memory record of drawn choices: rec[0]=count
    uint64_t              rec_cap = 0;
};

// deterministic bulk data
struct Noise {
    uint64_t s;
    explicit Noise(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double normal();
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); }
};

[[noreturn]] void fail(const std::string &key, const std::string &msg);

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define REQUIRE_P(key, cond, ...)                                                                                      \
    do {                                                                                                               \
        if (!(cond)) {                                                                                                 \
            std::ostringstream pbt_o;                                                                                  \
            pbt_o.precision(9);                                                                                        \
            pbt::put(pbt_o, __VA_ARGS__);                                                                              \
            pbt::fail(key, std::string(#cond) + " : " + pbt_o.str());                                                  \
        }                                                                                                              \
    } while (0)

inline void put(std::ostringstream &) {}
template <class... A> void put(std::ostringstream &o, const A &...a) { (o << ... << a); }

template <class T> std::string str(const std::vector<T> &v, size_t maxn = 40) {
    std::ostringstream o;
    o.precision(9);
    o << "[";
    for (size_t k = 0; k < v.size() && k < maxn; ++k) o << (k ? "," : "") << +v[k];
    if (v.size() > maxn) o << ",...(" << v.size() << ")";
    o << "]";
    return o.str();
}

inline bool close(double a, double b, double rtol, double atol) {
    if (a == b) return true;
    if (a != a && b != b) return true;
    if (a != a || b != b) return false;
    double d = a > b ? a - b : b - a;
    double m = (a < 0 ? -a : a) > (b < 0 ? -b : b) ? (a < 0 ? -a : a) : (b < 0 ? -b : b);
    return d <= atol + rtol * m;
}

struct Facet {
    std::string               name;
    int                       weight;        // share of the cases
    int64_t                   max_cases;     // cap (0: none); for expensive facets
    std::function<void(Ctx &)> fn;
};
// A witness demonstrates one recorded known finding on a fixed input: returns true while the finding is still there.
struct Witness {
    std::string            key;
    std::string            what;
    std::function<bool()> fn;
};

struct Suite {
    std::string          property;
    std::string          rule; // non-triviality rule, in words
    int64_t              quick_cases, thorough_cases;
    std::vector<Facet>   facets;
    std::vector<Witness> witnesses;
    std::string          assumptions;
    int                  case_timeout_s = 120;
};

int run(int argc, char **argv, Suite suite);

std::string scratch_dir(); // per-run scratch directory of this process tree; removed at the end

} // namespace pbt

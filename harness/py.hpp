// A Python interpreter with the bindings, run next to the harness: one per worker process, replaced when it dies.
#pragma once
#include "arr.hpp"
#include <cstring>
#include <fcntl.h>
#include <signal.h>
#include <sstream>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace py {
using arr::Shape;

struct Val { // what out() reported: an array, a number, a text or a list
    char                kind = 'N';
    std::string         dtype, text;
    Shape               shape;
    std::vector<double> v;
    std::vector<Val>    l;
    double              num() const {
        REQUIRE_P("kind", kind == 'V', "not a number: ", kind);
        return v[0];
    }
};
inline double number(const std::string &t) {
    return std::strtod(t.c_str(), nullptr);
}
inline Val parse(std::istream &i) {
    Val         r;
    std::string t;
    i >> t;
    if (t.empty()) pbt::fail("output", "the program reported less than expected");
    r.kind = t[0];
    if (r.kind == 'V') {
        i >> t;
        r.v.push_back(number(t));
    } else if (r.kind == 'S') {
        i >> t;
        for (size_t k = 1; k + 1 < t.size(); k += 2) r.text += (char)std::stoi(t.substr(k, 2), nullptr, 16);
    } else if (r.kind == 'L') {
        int n;
        i >> n;
        while (n-- > 0) r.l.push_back(parse(i));
    } else if (r.kind == 'A') {
        int nd;
        i >> r.dtype >> nd;
        int64_t n = 1;
        for (int d = 0; d < nd; ++d) {
            int64_t s;
            i >> s;
            r.shape.push_back(s), n *= s;
        }
        i >> t;
        if ((int64_t)t.size() != 1 + 16 * n) pbt::fail("output", "an array reported " + std::to_string(t.size()) + " digits of " + std::to_string(n) + " elements");
        auto digit = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
        for (int64_t k = 0; k < n; ++k) {
            unsigned char b[8];
            for (int q = 0; q < 8; ++q) b[q] = digit(t[1 + k * 16 + q * 2]) * 16 + digit(t[2 + k * 16 + q * 2]);
            double v;
            std::memcpy(&v, b, 8);
            r.v.push_back(v);
        }
    }
    return r;
}

struct Interpreter {
    pid_t pid = -1, owner = -1;
    FILE *to = nullptr, *from = nullptr;
    std::string log;

    void start() {
        int a[2], b[2];
        if (::pipe(a) || ::pipe(b)) throw std::runtime_error("pipe");
        log = pbt::scratch_dir() + "/python." + std::to_string(getpid());
        pid = fork();
        if (pid == 0) {
            ::prctl(PR_SET_PDEATHSIG, SIGKILL);
            int in = ::fcntl(a[0], F_DUPFD, 20), ou = ::fcntl(b[1], F_DUPFD, 20), er = ::open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), nu = ::open("/dev/null", O_RDWR);
            er = ::fcntl(er, F_DUPFD, 20), nu = ::fcntl(nu, F_DUPFD, 20);
            ::dup2(nu, 0), ::dup2(nu, 1), ::dup2(er, 2), ::dup2(in, 3), ::dup2(ou, 4);
            for (int f = 5; f < 256; ++f) ::close(f);
            ::setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:handle_abort=1:handle_sigfpe=1:detect_stack_use_after_return=0", 1);
            ::setenv("LD_PRELOAD", PRELOAD, 1);
            ::setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
            ::setenv("PYTHONMALLOC", "malloc", 1);
            ::setenv("OMP_NUM_THREADS", "1", 1), ::setenv("OPENBLAS_NUM_THREADS", "1", 1);
            ::execlp("python3-vt", "python3-vt", DRIVE, MODULES, (char *)nullptr);
            _exit(97);
        }
        ::close(a[0]), ::close(b[1]);
        ::fcntl(a[1], F_SETFD, FD_CLOEXEC), ::fcntl(b[0], F_SETFD, FD_CLOEXEC);
        to = ::fdopen(a[1], "w"), from = ::fdopen(b[0], "r");
        owner = getpid();
    }
    void stop() {
        if (to) ::fclose(to);
        if (from) ::fclose(from);
        to = from = nullptr, pid = -1;
    }
    std::string run(const std::string &program) {
        if (owner != getpid()) to = from = nullptr, pid = -1; // of a parent process
        if (pid < 0) ::signal(SIGPIPE, SIG_IGN), start();
        std::string ans;
        bool        ok = ::fprintf(to, "%zu\n", program.size()) > 0 && ::fwrite(program.data(), 1, program.size(), to) == program.size() && ::fflush(to) == 0;
        size_t      n  = 0;
        if (ok) ok = ::fscanf(from, "%zu", &n) == 1 && ::fgetc(from) == '\n';
        if (ok) {
            ans.resize(n);
            ok = n == 0 || ::fread(&ans[0], 1, n, from) == n;
        }
        if (ok) return ans;
        int st = 0;
        ::waitpid(pid, &st, 0);
        std::string err;
        if (FILE *f = ::fopen(log.c_str(), "r")) {
            char   b[3000];
            size_t k = ::fread(b, 1, sizeof b, f);
            err.assign(b, k);
            ::fclose(f);
        }
        stop();
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 1)) throw std::runtime_error("python could not be run: " + err.substr(0, 1500));
        auto at = err.find("ERROR: AddressSanitizer");
        pbt::fail("crash", "the interpreter ended with " + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)) + ": " + err.substr(at == std::string::npos ? 0 : at, 1500));
    }
};
inline Interpreter &interpreter() {
    static Interpreter i;
    return i;
}

// a program under construction and its answers
struct Program {
    std::ostringstream o;
    Program() { o.precision(17); }
    template <class... A> void line(const A &...a) {
        (o << ... << a);
        o << "\n";
    }
    std::vector<Val> run() {
        auto             ans = interpreter().run(o.str());
        std::vector<Val> r;
        std::istringstream lines(ans);
        std::string        l;
        while (std::getline(lines, l)) {
            if (l.compare(0, 4, "EXC ") == 0) pbt::fail("exception", "unexpected exception " + l.substr(4) + " after " + std::to_string(r.size()) + " results of\n" + o.str());
            std::istringstream i(l);
            r.push_back(parse(i));
        }
        return r;
    }
};
template <class T> std::string list(const std::vector<T> &v) {
    std::ostringstream o;
    o.precision(17);
    o << "[";
    for (size_t k = 0; k < v.size(); ++k) o << (k ? "," : "") << +v[k];
    o << "]";
    return o.str();
}
inline std::string quote(const std::string &s) {
    std::string r = "bytes.fromhex('";
    char        b[4];
    for (unsigned char c : s) std::snprintf(b, sizeof b, "%02x", c), r += b;
    return r + "').decode('utf8','surrogateescape')";
}
// the elements, straight from memory (indexing is slow, and A01's)
inline std::vector<double> values(const bland::ndarray &a) {
    std::vector<double> v;
    auto                s = a.shape(), o = a.offsets(), st = a.strides();
    auto                d = a.dtype();
    if (arr::numel(s) == 0) return v;
    int  kind = d == arr::dt(arr::dt::float32) ? 0 : d == arr::dt(arr::dt::int32) ? 1 : d == arr::dt(arr::dt::uint8) ? 2 : 3;
    auto ix   = Shape(s.size(), 0);
    v.reserve(arr::numel(s));
    do {
        int64_t p = 0;
        for (size_t k = 0; k < ix.size(); ++k) p += o[k] + ix[k] * st[k];
        v.push_back(kind == 0 ? a.data_ptr<float>()[p] : kind == 1 ? a.data_ptr<int32_t>()[p] : kind == 2 ? a.data_ptr<uint8_t>()[p] : (double)a.data_ptr<uint32_t>()[p]);
    } while (arr::next(ix, s));
    return v;
}
inline const char *np_name(arr::K k) { return arr::name(k); }
inline const char *np_code(arr::K k) { return k == arr::K::f32 ? "f4" : k == arr::K::i32 ? "i4" : k == arr::K::u8 ? "u1" : "u4"; }
inline const char *np_code(const bland::ndarray &a) {
    auto d = a.dtype();
    using dt = bland::ndarray::datatype;
    if (d == dt(dt::float32)) return "f4";
    if (d == dt(dt::int32)) return "i4";
    if (d == dt(dt::uint8)) return "u1";
    if (d == dt(dt::uint32)) return "u4";
    return "?";
}
inline void expect(const std::string &key, const Val &g, const bland::ndarray &e, const std::string &w) {
    REQUIRE_P(key, g.kind == 'A', w, ": not an array but ", g.kind);
    REQUIRE_P(key, g.dtype == np_code(e), w, ": ", g.dtype, ", expected ", np_code(e));
    REQUIRE_P(key, g.shape == e.shape(), w, ": shape ", pbt::str(g.shape), " expected ", pbt::str(e.shape()));
    auto v = values(e);
    for (size_t k = 0; k < v.size(); ++k) REQUIRE_P(key, g.v[k] == v[k] || (g.v[k] != g.v[k] && v[k] != v[k]), w, ": element ", k, " is ", g.v[k], " expected ", v[k]);
}
} // namespace py

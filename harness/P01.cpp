// P01: the command line tools.
#include "band.hpp"
#include "hits.hpp"
#include <core/cadence.hpp>
#include <drift_search/filter_hits.hpp>
#include <drift_search/hit_search.hpp>
#include <drift_search/integrate_drifts.hpp>
#include <estimators/noise_estimate.hpp>
#include <file_types/cpnp_files.hpp>
#include <file_types/dat_file.hpp>
#include <flaggers/filter_rolloff.hpp>
#include <flaggers/sigmaclip.hpp>
#include <flaggers/spectral_kurtosis.hpp>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <preprocess/normalize.hpp>
#include <preprocess/passband_static_equalize.hpp>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace hg;
using namespace fb;
using namespace band;

#define BIN(x) PBT_STR(x)
static const char *find_hits = BIN(FIND_HITS), *hits_to_dat = BIN(HITS_TO_DAT), *gen_response = BIN(GEN_RESPONSE);

static std::string slurp(const std::string &f) {
    std::ifstream     i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
static bool exists(const std::string &p) {
    struct stat s;
    return ::stat(p.c_str(), &s) == 0;
}
static std::string here(const std::string &n) { return pbt::scratch_dir() + "/" + n; }
// outputs of earlier cases are none of this one
static void clean() {
    auto d = pbt::scratch_dir();
    for (auto &e : std::filesystem::directory_iterator(d)) std::filesystem::remove_all(e.path());
}
struct Run {
    int         rc = -1; // exit code, or 1000 + signal
    std::string out;
};
// runs a tool in the scratch directory
static Run run(const char *exe, const std::vector<std::string> &args) {
    std::string dir = pbt::scratch_dir(), out = dir + "/stdout", err = dir + "/stderr";
    pid_t       p   = fork();
    if (p == 0) {
        if (::chdir(dir.c_str())) _exit(98);
        int o = ::open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = ::open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        ::dup2(o, 1), ::dup2(e, 2);
        ::setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:abort_on_error=0", 1);
        std::vector<char *> a{const_cast<char *>(exe)};
        for (auto &s : args) a.push_back(const_cast<char *>(s.c_str()));
        a.push_back(nullptr);
        ::execv(exe, a.data());
        _exit(97);
    }
    int st = 0;
    ::waitpid(p, &st, 0);
    Run r;
    r.rc  = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    r.out = slurp(out);
    if (r.rc == 97 || r.rc == 98) throw std::runtime_error("the tool could not be run");
    REQUIRE_P("crash", r.rc != 99 && r.rc < 1000, "the tool ended with ", r.rc, ": ", slurp(err).substr(0, 1500));
    return r;
}
static void ran(const Run &r) { REQUIRE_P("exit-code", r.rc == 0, "the tool ended with ", r.rc, ": ", r.out.substr(r.out.size() > 600 ? r.out.size() - 600 : 0)); }

// what the tool is asked to do
struct Options {
    int         first = 0, number = 1, fine = 0;
    std::string equalizer;
    bool        desmear = true, components = true;
    int64_t     low = -500, high = 500, step = 1;
    float       rolloff = 0.25f, sk_low = 0.25f, sk_high = 50, sk_d = 2, clip_low = 3, clip_high = 4, snr = 10;
    int         clip_iters = 5, distance = 7;
};
static std::string num(double v) {
    std::ostringstream o;
    o.precision(9);
    o << v;
    return o.str();
}
static bliss::observation_target pipeline(const std::vector<std::string> &files, const Options &o) {
    bliss::observation_target t(files, o.fine);
    t = t.slice_observation_channels(o.first, o.number);
    t.set_device("cpu");
    t = bliss::normalize(t);
    t = o.equalizer.empty() ? bliss::flag_filter_rolloff(t, o.rolloff) : bliss::equalize_passband_filter(t, o.equalizer);
    t = bliss::flag_spectral_kurtosis(t, o.sk_low, o.sk_high, o.sk_d);
    t = bliss::flag_sigmaclip(t, o.clip_iters, o.clip_low, o.clip_high);
    bliss::noise_power_estimate_options n;
    n.estimator_method = bliss::noise_power_estimator::STDDEV, n.masked_estimate = true;
    t = bliss::estimate_noise_power(t, n);
    bliss::integrate_drifts_options d;
    d.desmear = o.desmear, d.low_rate = o.low, d.high_rate = o.high, d.rate_step_size = o.step;
    t = bliss::integrate_drifts(t, d);
    bliss::hit_search_options h;
    h.method = o.components ? bliss::hit_search_methods::CONNECTED_COMPONENTS : bliss::hit_search_methods::LOCAL_MAXIMA;
    h.snr_threshold = o.snr, h.neighbor_l1_dist = o.distance;
    t = bliss::hit_search(t, h);
    bliss::filter_options f;
    f.filter_zero_drift = true;
    return bliss::filter_hits(t, f);
}
// there is no noise to estimate when every sample is flagged
static bool possible(const std::vector<std::string> &files, const Options &o) {
    try {
        auto t = pipeline(files, o);
        for (auto &s : t._scans) s.hits();
        return true;
    } catch (const std::exception &) { return false; }
}
static std::list<hit> stored_hits(const std::string &p) {
    auto s = bliss::read_scan_hits_from_capnp_file(p);
    return s.hits();
}
// hits of the tool are inside of what it was asked to search
static void expect_inside(const std::list<hit> &l, const Band &b, const Options &o, const std::string &w) {
    double dt = b.f.tsamp.v, df = b.f.foff.v;
    for (auto &h : l) {
        double ch = (h.start_freq_MHz - b.f.fch1.v) / df;
        REQUIRE_P("hit-channel", ch > o.first * b.fine - 0.5 && ch < (o.first + o.number) * b.fine - 0.5, w, ": a hit at channel ", ch, " searching coarse channels ", o.first, " to ", o.first + o.number - 1, " of ", b.fine);
        REQUIRE_P("hit-coarse-channel", h.coarse_channel_number >= o.first && h.coarse_channel_number < o.first + o.number, w, ": a hit of coarse channel ", h.coarse_channel_number);
        double span = h.drift_rate_Hz_per_sec / (df * 1e6) * dt * (double)(b.f.T - 1);
        REQUIRE_P("hit-drift", span > (double)o.low - 1e-3 && span < (double)o.high + 1e-3, w, ": a hit drifting ", span, " channels, searching from ", o.low, " to ", o.high);
        REQUIRE_P("hit-zero-drift", h.drift_rate_Hz_per_sec != 0, w, ": a hit that does not drift");
        REQUIRE_P("hit-snr", h.snr >= o.snr * 0.9999, w, ": a hit of signal-to-noise ", h.snr, " with threshold ", o.snr);
    }
}
static Tone gen_tone(Ctx &c, const Band &b, const Options &o, int k) {
    Tone t;
    t.span = c.i(std::max(o.low, -2 * b.f.T), std::min(o.high - 1, 2 * b.f.T));
    if (t.span == 0) t.span = o.low < 0 ? -1 : 1;
    int64_t lo = k * b.fine, hi = lo + b.fine - 1;
    t.start = c.i(std::max<int64_t>(lo, lo - t.span), std::min<int64_t>(hi, hi - t.span));
    t.amp   = c.real(3, 60);
    return t;
}
// any options: the same as the stages they configure, one after the other
static void options(Ctx &c) {
    clean();
    quiet();
    auto    b = gen_band(c, c.i(4, 16), c.i(24, 96), c.i(1, 4));
    Options o;
    std::vector<std::string> a;
    auto p = here("p01.h5"), q = here("out.capnp");
    std::vector<std::vector<std::string>> opts;
    a.push_back(p);
    auto opt = [&](const char *s, const char *l, const std::string &v) {
        // in any order
        std::vector<std::string> o{c.b() ? s : l};
        if (v.size()) o.push_back(v);
        opts.insert(opts.begin() + c.u(0, (int)opts.size()), o);
    };
    opt("-d", "--device", "cpu");
    if (!c.b(1, 6)) o.fine = (int)b.fine, opt("--nchan-per-coarse", "--nchan-per-coarse", std::to_string(o.fine));
    else b.n = 1, b.fine = b.f.F;
    if (b.n > 1 || c.b()) {
        o.first = c.i(0, b.n - 1), o.number = c.i(1, b.n - o.first);
        if (o.first || c.b()) opt("-c", "--coarse-channel", std::to_string(o.first));
        if (o.number != 1 || c.b()) opt("--number-coarse", "--number-coarse", std::to_string(o.number));
    }
    o.low = -c.i(0, 3 * b.f.T), o.high = c.i(1, 3 * b.f.T);
    opt("-m", "--min-rate", std::to_string(o.low)), opt("-M", "--max-rate", std::to_string(o.high));
    if (c.b(1, 3)) o.step = c.i(1, 3), opt("-rs", "--rate-step", std::to_string(o.step));
    if (c.b(1, 3)) o.desmear = c.b(), opt(o.desmear ? "--desmear" : "--nodesmear", o.desmear ? "--desmear" : "--nodesmear", "");
    if (c.b(1, 3)) o.rolloff = (float)c.real(0, 0.5), opt("--filter-rolloff", "--filter-rolloff", num(o.rolloff));
    if (c.b(1, 4)) o.clip_iters = c.i(0, 6), opt("--sigmaclip-iters", "--sigmaclip-iters", std::to_string(o.clip_iters));
    if (c.b(1, 4)) o.clip_low = (float)c.real(1, 5), opt("--sigmaclip-low", "--sigmaclip-low", num(o.clip_low));
    if (c.b(1, 4)) o.clip_high = (float)c.real(1, 5), opt("--sigmaclip-high", "--sigmaclip-high", num(o.clip_high));
    if (c.b(1, 4)) o.sk_low = (float)c.real(0.05, 0.9), opt("--sk-low", "--sk-low", num(o.sk_low));
    if (c.b(1, 4)) o.sk_high = (float)c.real(1.1, 60), opt("--sk-high", "--sk-high", num(o.sk_high));
    if (c.b(1, 4)) o.sk_d = (float)c.real(0.5, 4), opt("--sk-d", "--sk-d", num(o.sk_d));
    if (c.b()) o.components = c.b(), opt(o.components ? "--connected-components" : "--local-maxima", o.components ? "--connected-components" : "--local-maxima", "");
    if (c.b(3, 4)) o.snr = (float)c.real(3, 15), opt("-s", "--snr", num(o.snr));
    if (c.b(3, 4)) o.distance = c.i(1, 8), opt("--distance", "--distance", std::to_string(o.distance));
    if (c.b(1, 4)) { // the response of the coarse channels
        o.equalizer = here("response.f32");
        std::ofstream r(o.equalizer, std::ios::binary);
        pbt::Noise    z(c.seed());
        for (int64_t k = 0; k < b.fine; ++k) {
            float v = (float)(0.5 + z.uni());
            r.write((const char *)&v, 4);
        }
        opt("-e", "--equalizer-channel", o.equalizer);
    }
    double sigma = sigma_of(b);
    for (int k = c.i(1, 5); k > 0; --k) add(b, gen_tone(c, b, o, c.u(0, b.n - 1)), sigma);
    store(b, p);
    opt("-o", "--output", c.b() ? q : "out.capnp");
    if (c.b(1, 4))
        for (auto &x : opts)
            if (x[0] == "-o" || x[0] == "--output") x.push_back("capnp");
    for (auto &x : opts) a.insert(a.end(), x.begin(), x.end());
    std::string line;
    for (auto &x : a) line += x.substr(x.rfind('/') + 1) + " ";
    c.note(b.f.T, " x ", b.fine, " x ", b.n, ": ", line);
    auto           r = run(find_hits, a);
    std::list<hit> hits;
    try {
        auto want = pipeline({p}, o);
        hits      = want._scans.at(0).hits();
    } catch (const std::exception &e) { // such as when every sample is flagged
        REQUIRE_P("exit-code", r.rc != 0, "the tool ended as if nothing was wrong, the pipeline fails: ", e.what());
        c.label("error");
        return;
    }
    ran(r);
    REQUIRE_P("output", exists(q), "no output file: ", r.out.substr(r.out.size() > 900 ? r.out.size() - 900 : 0));
    auto got  = stored_hits(q);
    expect_hits(got, hits, "hits of the tool");
    expect_inside(got, b, o, "hits of the tool");
    auto s = bliss::read_scan_hits_from_capnp_file(q);
    REQUIRE_P("scan", s.get_number_coarse_channels() == o.number && s.source_name() == b.f.source_name.v && pbt::close(s.fch1(), b.f.fch1.v + b.f.foff.v * (double)(o.first * b.fine), 1e-12, 0) && s.tsamp() == b.f.tsamp.v && s.tstart() == b.f.tstart.v, "the scan in the output has ",
              s.get_number_coarse_channels(), " coarse channels of ", o.number, ", source '", s.source_name(), "', fch1 ", s.fch1());
    c.label(got.empty() ? "no hits" : "hits");
    c.nontrivial(!got.empty());
}
// a strong tone inside of what is searched is found, wherever it is
static void recover(Ctx &c) {
    clean();
    quiet();
    auto    b = gen_band(c, c.i(8, 20), c.i(160, 260), c.i(1, 3), 12);
    Options o;
    o.fine = (int)b.fine, o.number = (int)b.n;
    o.low = -2 * b.f.T, o.high = 2 * b.f.T + 1, o.distance = c.i(1, 4);
    auto   p = here("p01.h5"), q = here("out.capnp");
    double sigma = sigma_of(b);
    int    k = c.u(0, b.n - 1);
    Tone   t;
    int64_t far = o.high - 1 - o.distance - 2;
    t.span = (c.b() ? 1 : -1) * c.i(3, far);
    // hits of flagged edges and channels of low kurtosis are filtered out
    o.rolloff = (float)c.real(0, 0.2), o.sk_low = 0;
    int64_t edge = o.distance + 8 + (int64_t)std::lround(o.rolloff * (double)b.fine), lo = k * b.fine + edge, hi = (k + 1) * b.fine - 1 - edge;
    if (hi - lo <= std::llabs(t.span)) throw pbt::Discard();
    t.start = c.i(std::max(lo, lo - t.span), std::min(hi, hi - t.span));
    t.amp   = c.real(30, 300);
    add(b, t, sigma);
    store(b, p);
    o.components = c.b();
    std::vector<std::string> a{p, "-d", "cpu", "--nchan-per-coarse", std::to_string(b.fine), "--number-coarse", std::to_string(b.n), "-m", std::to_string(o.low), "-M", std::to_string(o.high), "--distance", std::to_string(o.distance), "--filter-rolloff", num(o.rolloff), "--sk-low", "0", o.components ? "--connected-components" : "--local-maxima", "-o", q};
    c.note(b.f.T, " x ", b.fine, " x ", b.n, ", tone from channel ", t.start, " over ", t.span, " of ", t.amp, " deviations, ", o.components ? "components" : "maxima", " distance ", o.distance);
    ran(run(find_hits, a));
    auto   got = stored_hits(q);
    double f0 = b.f.fch1.v + b.f.foff.v * (double)t.start, step = b.f.foff.v * 1e6 / b.f.tsamp.v / (double)(b.f.T - 1);
    bool   found = false;
    std::string near;
    for (auto &h : got) {
        found = found || (std::fabs(h.start_freq_MHz - f0) <= 3.01 * std::fabs(b.f.foff.v) && std::fabs(h.drift_rate_Hz_per_sec - step * (double)t.span) <= 2.01 * std::fabs(step) && h.coarse_channel_number == k);
        if (near.size() < 300) near += " (channel " + num((h.start_freq_MHz - b.f.fch1.v) / b.f.foff.v) + ", span " + num(h.drift_rate_Hz_per_sec / step) + ")";
    }
    REQUIRE_P("found", found, got.size(), " hits, none is the tone:", near);
    expect_inside(got, b, o, "hits of the tool");
    // the table has the same
    auto r = run(hits_to_dat, {"-i", q, "-o", here("out.dat")});
    ran(r);
    auto s = bliss::read_scan_hits_from_capnp_file(q);
    bliss::write_scan_hits_to_dat_file(s, here("want.dat"));
    REQUIRE_P("dat", !slurp(here("out.dat")).empty() && slurp(here("out.dat")) == slurp(here("want.dat")), "the table is not that of the hits");
    c.nontrivial();
}
// any part of the coarse channels has the hits it has in the whole, and repeating gives the same
static void parts(Ctx &c) {
    clean();
    quiet();
    auto    b = gen_band(c, c.i(4, 12), c.i(24, 80), c.i(2, 5));
    Options o;
    o.low = -c.i(1, 2 * b.f.T), o.high = c.i(1, 2 * b.f.T), o.snr = (float)c.real(4, 10);
    double sigma = sigma_of(b);
    for (int k = 0; k < b.n; ++k)
        if (!c.b(1, 4)) add(b, gen_tone(c, b, o, k), sigma);
    auto p = here("p01.h5");
    store(b, p);
    std::vector<std::string> common{p, "-d", "cpu", "--nchan-per-coarse", std::to_string(b.fine), "-m", std::to_string(o.low), "-M", std::to_string(o.high), "-s", num(o.snr), "-o"};
    auto search = [&](int first, int number, const char *name) {
        auto a = common;
        a.insert(a.end(), {name, "-c", std::to_string(first), "--number-coarse", std::to_string(number)});
        ran(run(find_hits, a));
        o.first = first, o.number = number;
        auto l = stored_hits(here(name));
        expect_inside(l, b, o, "hits of the tool");
        return l;
    };
    c.note(b.f.T, " x ", b.fine, " x ", b.n, ", ", b.tones.size(), " tones");
    o.fine = (int)b.fine, o.number = (int)b.n;
    if (!possible({p}, o)) return;
    auto whole = search(0, b.n, "whole.capnp");
    int  first = c.i(0, b.n - 1), number = c.i(1, b.n - first);
    auto part = search(first, number, "part.capnp");
    std::list<hit> want;
    for (auto &h : whole)
        if (h.coarse_channel_number >= first && h.coarse_channel_number < first + number) want.push_back(h);
    REQUIRE_P("part", part.size() == want.size(), "coarse channels ", first, " to ", first + number - 1, " have ", part.size(), " hits, ", want.size(), " searching all of ", b.n);
    auto e = want.begin();
    for (auto &h : part) {
        REQUIRE_P("part", h.start_freq_index == e->start_freq_index && h.coarse_channel_number == e->coarse_channel_number && h.drift_rate_Hz_per_sec == e->drift_rate_Hz_per_sec && h.snr == e->snr && pbt::close(h.start_freq_MHz, e->start_freq_MHz, 1e-12, 0), "a hit at ", h.start_freq_MHz,
                  " of coarse channel ", h.coarse_channel_number, " is at ", e->start_freq_MHz, " of ", e->coarse_channel_number, " searching all");
        ++e;
    }
    auto one = slurp(here("part.capnp"));
    search(first, number, "again.capnp");
    REQUIRE_P("again", slurp(here("again.capnp")) == one, "searching the same again gives another file");
    c.nontrivial(!whole.empty());
}
// each of several files has its hits in its output
static void files(Ctx &c) {
    clean();
    quiet();
    int     n = c.i(1, 4);
    Options o;
    o.fine = c.i(24, 64), o.snr = 6;
    int64_t T = c.i(4, 12);
    o.low = -2 * T, o.high = 2 * T;
    std::vector<std::string> paths, names{"first", "second.part", "b-3", "x"};
    std::vector<std::string> a;
    ::mkdir(here("d").c_str(), 0700);
    auto like = gen_band(c, T, o.fine, 1);
    for (int k = 0; k < n; ++k) {
        auto b = gen_band(c, T, o.fine, 1);
        auto keep = b.f.val;
        b.f = like.f, b.f.val = keep, b.f.tstart.v += k * 0.01, b.f.tstart.store = 0;
        double s = sigma_of(b);
        for (int q = c.i(0, 3); q > 0; --q) add(b, gen_tone(c, b, o, 0), s);
        paths.push_back(here((c.b() ? "d/" : "") + names[k] + (c.b() ? ".h5" : ".fil.h5")));
        store(b, paths.back());
    }
    int how = c.u(0, 5);
    c.note(n, " files, output ", how);
    a = paths;
    a.insert(a.end(), {"-d", "cpu", "--nchan-per-coarse", std::to_string(o.fine), "-m", std::to_string(o.low), "-M", std::to_string(o.high), "-s", num(o.snr)});
    if (!possible(paths, o)) {
        auto r = run(find_hits, a);
        REQUIRE_P("exit-code", r.rc != 0, "the tool ended as if nothing was wrong, the pipeline fails");
        return;
    }
    auto   want = pipeline(paths, o);
    size_t total = 0;
    for (auto &s : want._scans) total += s.hits().size();
    if (how <= 2) { // named after the input, in the current directory
        ran(run(find_hits, a));
        for (int k = 0; k < n; ++k) {
            auto stem = paths[k].substr(paths[k].rfind('/') + 1);
            auto q    = here(stem.substr(0, stem.rfind('.')) + ".capnp");
            REQUIRE_P("output", exists(q), "no output ", q.substr(q.rfind('/') + 1), " for ", stem);
            expect_hits(stored_hits(q), want._scans[k].hits(), "hits of file " + std::to_string(k) + " of " + std::to_string(n));
            auto s = bliss::read_scan_hits_from_capnp_file(q);
            REQUIRE_P("scan", pbt::close(s.tstart(), want._scans[k].tstart(), 1e-12, 0), "the output of file ", k, " is that of another");
        }
    } else if (how == 3) { // printed
        a.insert(a.end(), {"-o", c.b() ? "-" : "stdout"});
        auto r = run(find_hits, a);
        ran(r);
        size_t at = 0;
        for (auto &s : want._scans) {
            auto l = s.hits();
            at     = r.out.find("scan has " + std::to_string(l.size()) + " hits", at);
            REQUIRE_P("printed", at != std::string::npos, "a scan of ", l.size(), " hits is not printed");
            for (auto &h : l) {
                at = r.out.find(h.repr(), at);
                REQUIRE_P("printed", at != std::string::npos, "a hit is not printed: ", h.repr());
            }
        }
    } else if (n == 1) { // a table
        a.insert(a.end(), {"-o", "t.dat"});
        if (c.b()) a.back() = "t.txt", a.push_back("dat");
        ran(run(find_hits, a));
        auto &s = want._scans[0];
        bliss::write_scan_hits_to_dat_file(s, here("want.dat"));
        auto got = slurp(exists(here("t.dat")) ? here("t.dat") : here("t.txt"));
        REQUIRE_P("dat", got == slurp(here("want.dat")), "the table is not that of the hits");
    } else { // one output cannot have the hits of several: all of them or an error
        a.insert(a.end(), {"-o", "one.capnp"});
        auto r = run(find_hits, a);
        REQUIRE_P("one-output", r.rc != 0, n, " files were searched for one output file, which has ", stored_hits(here("one.capnp")).size(), " of ", total, " hits");
    }
    c.nontrivial(n > 1 || total > 0);
}
// what cannot be done ends with an error code, not with a crash
static void errors(Ctx &c) {
    clean();
    quiet();
    auto    b = gen_band(c, 4, 24, 2);
    auto    p = here("p01.h5"), q = here("out.capnp");
    add(b, {6, 3, 40}, sigma_of(b));
    store(b, p);
    std::vector<std::string> a{p, "-d", "cpu", "--nchan-per-coarse", "24", "-m", "-4", "-M", "4"};
    int         how = c.u(0, 10);
    Run         r;
    switch (how) {
    case 0: a[0] = here("none.h5"), r = run(find_hits, a); break;
    case 1: {
        std::ofstream(here("bad.h5")) << "not an hdf5 file";
        a[0] = here("bad.h5"), r = run(find_hits, a);
    } break;
    case 2: a.insert(a.end(), {"-c", c.b() ? "2" : "-1"}), r = run(find_hits, a); break;
    case 3: a.insert(a.end(), {"--number-coarse", "3"}), r = run(find_hits, a); break;
    case 4: a.insert(a.end(), {"-o", c.b() ? "no/such/dir/x.capnp" : "/dev/full", "capnp"}), r = run(find_hits, a); break;
    case 5: a.insert(a.end(), {"-e", here("none.f32")}), r = run(find_hits, a); break;
    case 6: a[2] = c.b() ? "cuda:0" : "gpu", r = run(find_hits, a); break; // (there is none here)
    case 7: a[6] = "4", a[8] = c.b() ? "4" : "-4", r = run(find_hits, a); break;
    case 9: a.push_back("--no-such-option"), r = run(find_hits, a); break;
    case 8: {
        int k = c.u(0, 3);
        std::ofstream(here("bad.capnp")) << "abc";
        if (k == 0) r = run(hits_to_dat, {"-i", here("none.capnp")});
        else if (k == 1) r = run(hits_to_dat, {"-i", here("bad.capnp")});
        else {
            ran(run(find_hits, {p, "-d", "cpu", "--nchan-per-coarse", "24", "-m", "-4", "-M", "4", "-o", q}));
            r = run(hits_to_dat, {"-i", q, "-o", k == 2 ? "no/such/dir/x.dat" : "/dev/full"});
        }
    } break;
    default: { // one of several files
        auto all = std::vector<std::string>{p, here("none.h5")};
        all.insert(all.end(), a.begin() + 1, a.end());
        r = run(find_hits, all);
    }
    }
    c.note("error ", how);
    REQUIRE_P("exit-code", r.rc != 0, "error ", how, ": the tool ended as if nothing was wrong: ", r.out.substr(r.out.size() > 300 ? r.out.size() - 300 : 0));
    c.nontrivial();
}
// tables of stored hits, and responses
static void others(Ctx &c) {
    clean();
    if (c.b()) {
        static const std::vector<std::string> stems{"in", "in.2", "a.b.c", "in.dat"};
        auto stem = c.pick(stems);
        auto q = here(stem + ".capnp");
        std::map<int, std::shared_ptr<bliss::coarse_channel>> m;
        int n = c.i(1, 3);
        for (int k = 0; k < n; ++k) {
            m[k] = std::make_shared<bliss::coarse_channel>(8000.0 - k, -1e-3, (int64_t)1, (int64_t)32, (int64_t)10, (int64_t)4, (int64_t)1, "S", c.real(-90, 90), c.real(0, 24), (int64_t)3, 1.0, 58000.0, (int64_t)1, 0.0, 0.0, (int64_t)k);
            m[k]->set_hits(gen_hits(c, 6, false));
        }
        bliss::scan s(m);
        bliss::write_scan_hits_to_capnp_file(s, q);
        auto back = bliss::read_scan_hits_from_capnp_file(q);
        int  how  = c.u(0, 3);
        c.note("table ", how, " of ", back.hits().size());
        if (how == 0) {
            auto r = run(hits_to_dat, {"-i", q, "-o", c.b() ? "-" : "stdout"});
            ran(r);
            size_t at = r.out.find("Got " + std::to_string(back.hits().size()) + " hits");
            REQUIRE_P("printed", at != std::string::npos, "the number of hits is not printed");
            for (auto &h : back.hits()) {
                at = r.out.find(h.repr(), at);
                REQUIRE_P("printed", at != std::string::npos, "a hit is not printed");
                ++at;
            }
        } else if (how == 3) { // a command line it does not understand: nothing is done
            std::vector<std::string> a{"-i", q};
            a.insert(c.b() ? a.begin() : a.end(), c.b() ? "--no-such-option" : "no-option");
            run(hits_to_dat, a);
            REQUIRE_P("nothing", slurp(here(stem + ".dat")).empty(), "a table was written in spite of a wrong command line");
        } else {
            ran(how == 1 ? run(hits_to_dat, {"--input", q}) : run(hits_to_dat, {"--output", "other.dat", "--input", q}));
            bliss::write_scan_hits_to_dat_file(back, here("want.dat"));
            auto got = slurp(here(how == 1 ? stem + ".dat" : "other.dat"));
            REQUIRE_P("dat", got.size() && got == slurp(here("want.dat")), "the table is not that of the hits");
        }
        c.nontrivial(!back.hits().empty());
    } else {
        int  fine = 4 * c.i(1, 32), coarse = c.i(1, 8), taps = c.i(1, 6);
        c.note("response ", fine, " ", coarse, " ", taps);
        if (taps > fine) throw pbt::Discard();
        bool named = c.b();
        std::vector<std::string> a{"-M", std::to_string(coarse), "-f", std::to_string(fine), "-N", std::to_string(taps)};
        if (named) a.insert(a.end(), {"-o", "r.f32"});
        ran(run(gen_response, a));
        auto got  = slurp(here(named ? "r.f32" : "channelizer_response.f32"));
        auto want = arr::values(bliss::gen_coarse_channel_response(fine, coarse, taps));
        REQUIRE_P("response", got.size() == want.size() * 4, "a response of ", got.size() / 4, " values, expected ", want.size());
        for (size_t k = 0; k < want.size(); ++k) {
            float v;
            memcpy(&v, got.data() + 4 * k, 4);
            REQUIRE_P("response", (double)v == want[k] || (v != v && want[k] != want[k]), "value ", k, " is ", v, " expected ", want[k]);
        }
        c.nontrivial();
    }
}
int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "P01";
    s.rule           = "options, parts: there are hits; files: several files, or hits; others: a response, or hits; recover, errors: every case";
    s.quick_cases    = 1200;
    s.thorough_cases = 20000;
    s.assumptions    = "bands of up to 5 coarse channels of 260 fine channels and 20 times, normal noise; tones of at least 30 deviations per sample are located within 3 channels and 2 drift steps";
    s.facets         = {{"options", 5, 0, options}, {"recover", 3, 0, recover}, {"parts", 3, 0, parts}, {"files", 3, 0, files}, {"errors", 2, 0, errors}, {"others", 2, 0, others}};
    return pbt::run(argc, argv, s);
}

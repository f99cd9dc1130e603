// B05: pipelines on scans: random histories of copying, slicing, adding stages and reading.
#include "cc.hpp"
#include <drift_search/filter_hits.hpp>
#include <drift_search/hit_search.hpp>
#include <drift_search/integrate_drifts.hpp>
#include <estimators/noise_estimate.hpp>
#include <flaggers/filter_rolloff.hpp>
#include <flaggers/magnitude.hpp>
#include <flaggers/sigmaclip.hpp>
#include <flaggers/spectral_kurtosis.hpp>
#include <preprocess/normalize.hpp>
#include <preprocess/passband_static_equalize.hpp>
using namespace ccg;

struct Stage {
    int     kind;
    float   a, b;
    int     n;
    ndarray h;
    int     low = 0, high = 0;
    bool    flag = false;
    std::string str() const {
        static const char *nm[] = {"rolloff", "magnitude", "sigmaclip", "kurtosis", "normalize", "equalize", "noise", "masked noise", "affine", "drifts", "hits", "filter", "number"};
        std::ostringstream o;
        o << nm[kind] << "(" << a << "," << b << "," << n << ")";
        return o.str();
    }
};
static coarse_channel affine(coarse_channel x, float a, float b) { // a stage of the user's own
    x.set_data(x.data() * a + b);
    return x;
}
static coarse_channel few(coarse_channel x, int n) { // another, which keeps only the first hits
    auto l = x.hits();
    while ((int)l.size() > n) l.pop_back();
    x.set_hits(l);
    return x;
}
static bliss::integrate_drifts_options drift_opts(const Stage &s) {
    bliss::integrate_drifts_options o;
    o.desmear = s.flag, o.low_rate = s.low, o.high_rate = s.high, o.rate_step_size = s.n;
    return o;
}
static bliss::hit_search_options hit_opts(const Stage &s) {
    bliss::hit_search_options o;
    o.method        = s.flag ? bliss::hit_search_methods::LOCAL_MAXIMA : bliss::hit_search_methods::CONNECTED_COMPONENTS;
    o.snr_threshold = s.a, o.neighbor_l1_dist = s.n;
    return o;
}
static bliss::noise_power_estimate_options noise_opts(const Stage &s) {
    bliss::noise_power_estimate_options o;
    o.estimator_method = bliss::noise_power_estimator::STDDEV;
    o.masked_estimate  = s.kind == 7;
    return o;
}
template <class T> static T run(const Stage &s, T x) {
    switch (s.kind) {
    case 0: return bliss::flag_filter_rolloff(x, s.a);
    case 1: return bliss::flag_magnitude(x, s.a);
    case 2: return bliss::flag_sigmaclip(x, s.n, s.a, s.b);
    case 3: return bliss::flag_spectral_kurtosis(x, s.a, s.b, 2.0f);
    case 4: return bliss::normalize(x);
    case 5: return bliss::equalize_passband_filter(x, s.h);
    case 8:
        if constexpr (std::is_same_v<T, bliss::scan>) {
            x.add_coarse_channel_transform([a = s.a, b = s.b](coarse_channel q) { return affine(q, a, b); });
            return x;
        } else
            return affine(x, s.a, s.b);
    case 9: return bliss::integrate_drifts(x, drift_opts(s));
    case 10:
        if constexpr (std::is_same_v<T, bliss::scan>) return bliss::hit_search(x, hit_opts(s));
        else {
            x.set_hits(bliss::hit_search(x, hit_opts(s)));
            return x;
        }
    case 11: return bliss::filter_hits(x, bliss::filter_options{s.flag});
    case 12:
        if constexpr (std::is_same_v<T, bliss::scan>) {
            x.add_coarse_channel_transform([n = s.n](coarse_channel q) { return few(q, n); });
            return x;
        } else
            return few(x, s.n);
    default:
        if constexpr (std::is_same_v<T, bliss::scan>) return bliss::estimate_noise_power(x, noise_opts(s));
        else {
            x.set_noise_estimate(bliss::estimate_noise_power(x, noise_opts(s)));
            return x;
        }
    }
}
static Stage gen_kind(Ctx &c, int kind, int64_t F, double scale) {
    Stage s{kind, 0, 0, 0, ndarray({1})};
    if (s.kind == 0) s.a = (float)c.real(0, 0.45);
    else if (s.kind == 1) s.a = (float)(scale * c.real(0, 20));
    else if (s.kind == 2) s.a = (float)c.real(1, 4), s.b = (float)c.real(1, 4), s.n = c.i(1, 4);
    else if (s.kind == 3) s.a = (float)c.real(0, 10), s.b = s.a + (float)c.real(0, 60);
    else if (s.kind == 5) {
        std::vector<double> h(F);
        pbt::Noise r(c.seed());
        for (auto &q : h) q = (double)(float)(0.25 + r.uni());
        s.h = make(K::f32, {F}, h).nd;
    } else if (s.kind == 9) s.low = c.i(-3, 0), s.high = c.i(1, 4), s.n = c.i(1, 2), s.flag = c.b();
    else if (s.kind == 10) s.a = (float)c.real(0.5, 3), s.n = c.i(1, 3), s.flag = c.b();
    else if (s.kind == 11) s.flag = c.b();
    else if (s.kind == 12) s.n = c.u(0, 2);
    else if (s.kind == 8) s.a = (float)(0.5 + c.u(0, 4)), s.b = (float)c.u(0, 5);
    return s;
}
static Stage gen_stage(Ctx &c, int64_t F, double scale, const std::vector<Stage> &before) {
    int kind = c.u(0, 12);
    // most of the searches have what they need
    auto has = [&](int a, int b) { return std::any_of(before.begin(), before.end(), [&](const Stage &q) { return q.kind == a || q.kind == b; }); };
    if (kind >= 10 && c.b(7, 8)) kind = !has(6, 7) ? c.u(6, 7) : !has(9, 9) ? 9 : !has(10, 10) ? 10 : kind;
    return gen_kind(c, kind, F, scale);
}
struct Snap { // everything observable of a processed channel
    bool                failed = false;
    std::vector<double> d, m;
    bool                has_noise = false;
    double              floor = 0, power = 0, fch1 = 0;
    std::string         name;
    bool                has_hits = false, has_plane = false;
    std::vector<double> hits, plane;
};
static std::vector<double> numbers(const std::list<bliss::hit> &l) {
    std::vector<double> v;
    for (auto &h : l) {
        v.insert(v.end(), {(double)h.start_freq_index, h.start_freq_MHz, h.start_time_sec, h.duration_sec, (double)h.rate_index, h.drift_rate_Hz_per_sec, h.power, (double)h.time_span_steps, h.snr, h.bandwidth, (double)h.binwidth,
                           (double)h.coarse_channel_number});
        for (auto &f : h.rfi_counts) v.push_back((double)f.first), v.push_back(f.second);
    }
    return v;
}
static Snap snap(coarse_channel &cc) {
    Snap s;
    s.d = values(cc.data()), s.m = values(cc.mask());
    s.fch1 = cc.fch1(), s.name = cc.source_name();
    try {
        auto e = cc.noise_estimate();
        s.has_noise = true, s.floor = e.noise_floor(), s.power = e.noise_power();
    } catch (const std::logic_error &) {}
    s.has_hits = cc.has_hits();
    if (s.has_hits) s.hits = numbers(cc.hits());
    try {
        auto p = cc.integrated_drift_plane();
        s.has_plane = true, s.plane = values(p.integrated_drift_plane());
        for (auto &q : p.drift_rate_info()) s.plane.insert(s.plane.end(), {(double)q.index_in_plane, q.drift_rate_slope, q.drift_rate_Hz_per_sec, (double)q.desmeared_bins});
        auto f = p.integrated_rfi();
        for (auto *q : {&f.filter_rolloff, &f.low_spectral_kurtosis, &f.high_spectral_kurtosis}) {
            auto z = values(*q);
            s.plane.insert(s.plane.end(), z.begin(), z.end());
        }
    } catch (const std::logic_error &) {}
    return s;
}
static void expect_numbers(const std::string &key, const std::vector<double> &g, const std::vector<double> &e, const std::string &w) {
    REQUIRE_P(key, g.size() == e.size(), w, ": ", g.size(), " numbers, expected ", e.size());
    for (size_t n = 0; n < g.size(); ++n) REQUIRE_P(key, same(g[n], e[n]), w, ": number ", n, " is ", g[n], " expected ", e[n]);
}
static void expect_same(const Snap &g, const Snap &e, const std::string &key, const std::string &w) {
    REQUIRE_P(key, g.failed == e.failed, w, g.failed ? " failed" : " succeeded", " unlike the stages applied to the channel");
    if (g.failed) return;
    REQUIRE_P(key, g.d.size() == e.d.size() && g.m.size() == e.m.size(), w, ": another shape");
    for (size_t n = 0; n < g.d.size(); ++n) REQUIRE_P(key, same(g.d[n], e.d[n]), w, ": sample ", n, " is ", g.d[n], " expected ", e.d[n]);
    for (size_t n = 0; n < g.m.size(); ++n) REQUIRE_P(key, g.m[n] == e.m[n], w, ": flags of sample ", n, " are ", g.m[n], " expected ", e.m[n]);
    REQUIRE_P(key, g.has_noise == e.has_noise && same(g.floor, e.floor) && same(g.power, e.power), w, ": noise estimate ", g.has_noise, " ", g.floor, " ", g.power, " expected ", e.has_noise, " ", e.floor, " ", e.power);
    REQUIRE_P(key, pbt::close(g.fch1, e.fch1, 1e-13, 0) && g.name == e.name, w, ": metadata changed");
    REQUIRE_P(key, g.has_hits == e.has_hits && g.has_plane == e.has_plane, w, ": has ", g.has_hits ? "hits" : "no hits", g.has_plane ? " and a plane" : " and no plane");
    expect_numbers(key, g.hits, e.hits, w + ", hits");
    expect_numbers(key, g.plane, e.plane, w + ", drift plane");
}

static Snap expected_of(const Chan &y, const std::vector<Stage> &st) { // stages applied to a private, unprocessed channel
    coarse_channel cc(make(K::f32, {y.T, y.F}, y.d).nd, make(K::u8, {y.T, y.F}, std::vector<double>(y.m.begin(), y.m.end())).nd, y.fch1, y.foff, (int64_t)1, (int64_t)32, y.F, y.T, (int64_t)1, y.name, 1.0, 2.0,
                      (int64_t)3, y.tsamp, y.tstart, (int64_t)1, 0.5, 0.25, y.number);
    Snap s;
    try {
        for (auto &q : st) cc = run(q, cc);
        s = snap(cc);
    } catch (const std::exception &) { s.failed = true; }
    return s;
}
// the stages on channels: what is derived from a channel leaves it, and everything else derived from it, as it was
static void tree(Ctx &c) {
    quiet();
    Chan x;
    x.T = c.i(2, 5), x.F = c.i(3, 12);
    double     scale = c.b() ? 1 : 1000;
    pbt::Noise r(c.seed());
    x.d.resize(x.T * x.F);
    for (auto &q : x.d) q = (double)(float)(scale * (1 + 4 * r.uni() + (r.range(0, 9) == 0 ? 20 * r.uni() : 0)));
    x.m = gen_mask(c, x.T * x.F);
    auto root = channels(c, x, 1, [](Chan &) {})[0];
    struct Node {
        coarse_channel     cc;
        std::vector<Stage> st;
    };
    std::vector<Node> pool{{build(c, root), {}}};
    c.note("T ", x.T, " F ", x.F);
    auto look = [&](Node &n, const std::string &key, const std::string &w) {
        Snap g;
        try {
            g = snap(n.cc);
        } catch (const std::exception &) { g.failed = true; }
        expect_same(g, expected_of(root, n.st), key, w);
    };
    auto derive = [&](int id, const Stage &s) { // false: refused
        Node n{pool[id].cc, pool[id].st};
        n.st.push_back(s);
        try {
            n.cc = run(s, n.cc);
        } catch (const std::exception &) {
            REQUIRE_P("refused", expected_of(root, n.st).failed, s.str(), " of channel ", id, " failed");
            return false;
        }
        c.note("channel ", pool.size(), " = ", s.str(), " of ", id);
        pool.push_back(n);
        return true;
    };
    if (c.b(2, 3))
        for (int kind : {6, 9, 10}) derive((int)pool.size() - 1, gen_kind(c, kind, x.F, scale));
    int shared = 0;
    for (int step = c.i(2, 10); step > 0; --step) {
        int id = c.b() ? (int)pool.size() - 1 : c.u(0, (int)pool.size() - 1), op = c.u(0, 5);
        if (op <= 2 && pool.size() < 9) {
            derive(id, gen_stage(c, x.F, scale, pool[id].st));
            if (id + 2 < (int)pool.size()) ++shared;
        } else if (op == 3) { // a copy is altered
            auto q = pool[id].cc;
            int  w = c.u(0, 5);
            c.note("alter ", w, " of a copy of ", id);
            if (w == 0) q.set_mask(bland::zeros({x.T, x.F}, ndarray::datatype::uint8));
            else if (w == 1) q.set_data(bland::zeros({x.T, x.F}, ndarray::datatype::float32));
            else if (w == 2) q.set_hits(std::list<bliss::hit>(2));
            else if (w == 3) q.set_hits([]() -> std::list<bliss::hit> { throw std::logic_error("no hits"); });
            else if (w == 4) q.set_integrated_drift_plane([]() -> bliss::frequency_drift_plane { throw std::logic_error("no plane"); });
            else {
                bliss::noise_stats none;
                none.set_noise_floor(bland::zeros({1}, ndarray::datatype::float32)), none.set_noise_power(bland::zeros({1}, ndarray::datatype::float32));
                q.set_noise_estimate(none);
            }
            ++shared;
        } else if (op == 4 && pool.size() > 1) { // the one it was derived from goes away
            c.note("channel ", id, " is gone");
            pool.erase(pool.begin() + id);
        } else {
            c.note("look at ", id);
            look(pool[id], "channel", "channel " + std::to_string(id));
        }
    }
    size_t most = 0;
    for (size_t k = 0; k < pool.size(); ++k) look(pool[k], "channel-end", "channel " + std::to_string(k) + " at the end"), most = std::max(most, pool[k].st.size());
    c.nontrivial(shared > 0 && most > 1);
}

struct Sc {
    bliss::scan        s;
    int                first, count;
    std::vector<Stage> st;
};
struct Held {
    std::shared_ptr<coarse_channel> cc;
    Snap                            s;
    std::string                     w;
};

static void history(Ctx &c) {
    quiet();
    Chan x;
    x.T = c.i(2, 5), x.F = c.i(3, 12);
    int  N    = c.i(1, 4);
    bool file = c.b(1, 3);
    double scale = c.b() ? 1 : 1000;
    auto fill = [&](Chan &y) {
        pbt::Noise r(c.seed());
        y.d.resize(y.T * y.F);
        for (auto &q : y.d) q = (double)(float)(scale * (1 + 4 * r.uni() + (r.range(0, 9) == 0 ? 20 * r.uni() : 0)));
        y.m.assign(y.T * y.F, 0);
        if (!file) y.m = gen_mask(c, y.T * y.F);
    };
    fill(x);
    auto v = channels(c, x, N, fill);
    std::vector<coarse_channel> ccs;
    for (auto &y : v) ccs.push_back(build(c, y));
    bliss::scan root = scan_of(ccs);
    if (file) {
        Spec f;
        f.T = x.T, f.F = x.F * N;
        for (int64_t t = 0; t < f.T; ++t)
            for (int64_t k = 0; k < f.F; ++k) f.val.push_back((float)v[k / x.F].d[t * x.F + k % x.F]);
        f.fch1.v = x.fch1, f.foff.v = x.foff, f.tsamp.v = x.tsamp, f.tstart.v = x.tstart, f.machine_id = {true, 1, 2}, f.telescope_id = {true, 3, 2};
        f.src_raj.v = 2, f.src_dej.v = 1, f.az_start.v = 0.5, f.za_start.v = 0.25, f.data_type = {true, 1, 2}, f.nbits = {true, 32, 2}, f.nchans = {true, (double)f.F, 2}, f.nifs = {true, 1, 2};
        f.source_name.v = x.name, f.cls.v = "FILTERBANK", f.version.v = "1.0";
        auto p = pbt::scratch_dir() + "/b05.h5";
        fb::write(f, p);
        root = bliss::scan(p, (int)x.F);
        c.label("file");
    }
    c.note("T ", x.T, " F ", x.F, " channels ", N, file ? " from a file" : "");
    std::vector<Sc>   scans{{root, 0, N, {}}};
    std::vector<Held> held;
    auto expected = [&](const std::vector<Stage> &st, int global) { return expected_of(v[global], st); };
    if (c.b(2, 5)) { // a search of everything
        for (int kind : {7, 9, 10}) {
            if (kind == 7 && c.b()) kind = 6;
            Stage s = gen_kind(c, kind, x.F, scale);
            scans[0].s = run(s, scans[0].s), scans[0].st.push_back(s);
            c.note("scan 0: ", s.str());
        }
    }
    int reads = 0, deep = 0, hist = c.i(2, 14);
    for (int step = 0; step < hist; ++step) {
        int op = c.u(0, 9);
        int id = c.u(0, (int)scans.size() - 1);
        std::string w = "step " + std::to_string(step);
        if (op <= 2 && scans.size() < 7) { // a processed copy
            Stage s  = gen_stage(c, x.F, scale, scans[id].st);
            Sc    n{run(s, scans[id].s), scans[id].first, scans[id].count, scans[id].st};
            n.st.push_back(s);
            c.note(w, ": scan ", scans.size(), " = ", s.str(), " of scan ", id);
            if (c.b(1, 3)) scans[id] = n; // or in place
            else scans.push_back(n);
        } else if (op == 3 && scans.size() < 7) {
            int a = c.u(0, scans[id].count - 1), k = c.u(1, scans[id].count - a);
            c.note(w, ": scan ", scans.size(), " = channels ", a, "+", k, " of scan ", id);
            scans.push_back({scans[id].s.slice_scan_channels(a, k), scans[id].first + a, k, scans[id].st});
        } else if (op == 4 && !held.empty()) { // a holder does as it likes with what it has read
            int h = c.u(0, (int)held.size() - 1);
            c.note(w, ": alter what was read in ", held[h].w);
            held[h].cc->set_mask(bland::ndarray(held[h].cc->mask() * static_cast<uint8_t>(0)));
            held[h].cc->set_data(bland::ndarray(held[h].cc->data() * 0.0f));
            if (c.b()) held[h].cc->set_hits(std::list<bliss::hit>(2));
            if (c.b()) {
                bliss::noise_stats none;
                none.set_noise_floor(bland::zeros({1}, ndarray::datatype::float32)), none.set_noise_power(bland::zeros({1}, ndarray::datatype::float32));
                held[h].cc->set_noise_estimate(none);
            }
            if (c.b()) held[h].cc->set_integrated_drift_plane([]() -> bliss::frequency_drift_plane { throw std::logic_error("no plane"); });
            held.erase(held.begin() + h);
        } else { // read
            int  k = c.u(0, scans[id].count - 1);
            auto e = expected(scans[id].st, scans[id].first + k);
            std::shared_ptr<coarse_channel> cc;
            Snap g;
            bool peak = c.b(1, 6);
            c.note(w, ": ", peak ? "peek" : "read", " channel ", k, " of scan ", id);
            try {
                cc = peak ? scans[id].s.peak_coarse_channel(k) : scans[id].s.read_coarse_channel(k);
                if (peak && cc == nullptr) continue; // not read before
                g = snap(*cc);
            } catch (const std::exception &) { g.failed = true; }
            expect_same(g, e, "pipeline", w);
            if (!g.failed) held.push_back({cc, g, w});
            ++reads;
            if (scans[id].st.size() > 1) ++deep;
        }
    }
    for (auto &h : held) expect_same(snap(*h.cc), h.s, "holder", "read in " + h.w + ", now");
    for (size_t id = 0; id < scans.size(); ++id) {
        std::vector<double> all;
        bool                failed = false;
        for (int k = 0; k < scans[id].count; ++k) {
            Snap g;
            try {
                g = snap(*scans[id].s.read_coarse_channel(k));
            } catch (const std::exception &) { g.failed = true; }
            expect_same(g, expected(scans[id].st, scans[id].first + k), "final", "scan " + std::to_string(id) + " channel " + std::to_string(k) + " at the end");
            all.insert(all.end(), g.hits.begin(), g.hits.end());
            failed = failed || g.failed;
        }
        if (!all.empty()) c.label("hits");
        if (!failed) expect_numbers("scan-hits", numbers(scans[id].s.hits()), all, "hits of scan " + std::to_string(id));
    }
    if (!file)
        for (int k = 0; k < N; ++k) expect_untouched(ccs[k], v[k], "at the end");
    c.nontrivial(reads > 0 && deep > 0);
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "B05";
    s.rule           = "history: a channel of a scan with at least two stages is read; tree: a channel has two stages, and one that others are derived from is used again";
    s.quick_cases    = 5200;
    s.thorough_cases = 90000;
    s.assumptions    = "up to 7 scans derived from one another, up to 14 operations, and trees of up to 9 channels, 13 kinds of stages up to the search and filtering of hits; stages are deterministic, so equality is exact; CPU";
    s.facets         = {{"history", 2, 0, history}, {"tree", 1, 0, tree}};
    return pbt::run(argc, argv, s);
}

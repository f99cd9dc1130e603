// D06: from cells to hits.
#include "pl.hpp"
#include <drift_search/integrate_drifts.hpp>
#include <estimators/noise_estimate.hpp>
using namespace plg;
using bliss::hit;

static bliss::hit_search_options options(const Plane &p, bool maxima) {
    bliss::hit_search_options o;
    o.method = maxima ? bliss::hit_search_methods::LOCAL_MAXIMA : bliss::hit_search_methods::CONNECTED_COMPONENTS;
    o.snr_threshold = (float)p.thr, o.neighbor_l1_dist = p.dist;
    return o;
}
static void gen_meta(Ctx &c, Chan &x) {
    static const std::vector<double> foffs{-2.7939677238464355e-06, 2.7939677238464355e-06, -0.00286102294921875, 0.003, -1.0};
    x.fch1 = c.real(100, 12000), x.foff = c.pick(foffs), x.tsamp = c.b() ? 18.253611008 : c.real(1e-4, 100), x.tstart = c.real(50000, 62000);
}
// every field of every hit, from the region it was made of
static void fields(Ctx &c) {
    quiet();
    bool maxima = c.b();
    auto p = gen_plane(c, maxima);
    Chan x;
    x.T = p.T, x.F = p.F;
    gen_meta(c, x);
    x.d.assign(x.T * x.F, 1), x.m.assign(x.T * x.F, 0);
    std::vector<double> hz;
    for (int64_t r = 0; r < p.R; ++r) hz.push_back((double)(r - p.R / 2) * x.foff * 1e6 / x.tsamp);
    int  via = c.u(0, 3), n = via == DIRECT ? 1 : c.i(1, 3);
    auto chans = channels(c, x, n, [](Chan &) {});
    std::vector<coarse_channel> ccs;
    for (auto &y : chans) {
        auto cc = build(c, y);
        auto f  = fdp_of(c, p, &hz);
        if (c.b()) cc.set_integrated_drift_plane(f);
        else cc.set_integrated_drift_plane(std::function<bliss::frequency_drift_plane()>([f] { return f; }));
        cc.set_noise_estimate(noise_of(p));
        ccs.push_back(cc);
    }
    auto o = options(p, maxima);
    std::vector<std::list<hit>> got;
    if (via == DIRECT) got.push_back(bliss::hit_search(ccs[0], o));
    else {
        auto sc  = scan_of(ccs);
        auto set = [&](bliss::scan r) {
            for (int k = 0; k < n; ++k) got.push_back(r.read_coarse_channel(k)->hits());
            auto all = r.hits();
            size_t m = 0;
            for (auto &g : got) m += g.size();
            REQUIRE_P("scan-hits", all.size() == m, "the scan has ", all.size(), " hits, its coarse channels ", m);
        };
        if (via == SCAN) set(bliss::hit_search(sc, o));
        else if (via == OBSERVATION) set(bliss::hit_search(bliss::observation_target(std::vector<bliss::scan>{sc}), o)._scans.at(0));
        else set(bliss::hit_search(bliss::cadence(std::vector<bliss::observation_target>{bliss::observation_target(std::vector<bliss::scan>{sc})}), o)._observations.at(0)._scans.at(0));
    }
    auto f    = fdp_of(c, p, &hz);
    auto want = bliss::protohit_search(f, noise_of(p), o);
    c.note(maxima ? "maxima, " : "components, ", via_name(via), ", ", want.size(), " hits");
    c.label(via_name(via));
    c.nontrivial(!want.empty());
    for (int k = 0; k < n; ++k) {
        auto &y = chans[k];
        REQUIRE_P("number-of-hits", got[k].size() == want.size(), got[k].size(), " hits of ", want.size(), " regions");
        auto e = want.begin();
        for (auto &h : got[k]) {
            std::string w  = "hit at channel " + std::to_string(e->index_max.frequency_channel) + " of coarse channel " + std::to_string(k);
            int64_t     r  = e->index_max.drift_index;
            double      f0 = y.fch1 + y.foff * (double)e->index_center.frequency_channel, pw = e->max_integration - p.floor;
            REQUIRE_P("index", h.start_freq_index == e->index_max.frequency_channel && h.rate_index == r, w, ": index ", h.start_freq_index, " rate index ", h.rate_index, " expected ", r);
            REQUIRE_P("frequency", pbt::close(h.start_freq_MHz, f0, 1e-13, 0), w, ": ", h.start_freq_MHz, " MHz, expected ", f0);
            REQUIRE_P("drift", pbt::close(h.drift_rate_Hz_per_sec, hz[r], 1e-9, 0), w, ": ", h.drift_rate_Hz_per_sec, " Hz/s, expected ", hz[r]);
            REQUIRE_P("power", pbt::close(h.power, pw, 1e-5, 0), w, ": power ", h.power, " expected ", pw);
            double snr = pw / (p.power / std::sqrt((double)(p.T * p.bins[r])));
            REQUIRE_P("snr", pbt::close(h.snr, snr, 1e-5, 0), w, ": snr ", h.snr, " expected ", snr);
            REQUIRE_P("snr-threshold", h.snr > p.thr, w, ": snr ", h.snr, " below the threshold ", p.thr);
            REQUIRE_P("width", h.binwidth == e->binwidth && pbt::close(h.bandwidth, e->binwidth * std::fabs(y.foff) * 1e6, 1e-6, 0), w, ": ", h.binwidth, " bins, ", h.bandwidth, " Hz");
            REQUIRE_P("time", pbt::close(h.start_time_sec, y.tstart * 86400, 1e-13, 0) && pbt::close(h.duration_sec, y.tsamp * (double)p.T, 1e-12, 0) && h.time_span_steps == p.T, w, ": starts at ", h.start_time_sec, " for ", h.duration_sec,
                      " s, ", h.time_span_steps, " steps, expected ", y.tstart * 86400, ", ", y.tsamp * (double)p.T, ", ", p.T);
            REQUIRE_P("coarse-channel", h.coarse_channel_number == k, w, ": coarse channel ", h.coarse_channel_number);
            int64_t m = r * p.F + e->index_max.frequency_channel;
            REQUIRE_P("flags", h.rfi_counts[bliss::flag_values::filter_rolloff] == p.fl[0][m] && h.rfi_counts[bliss::flag_values::low_spectral_kurtosis] == p.fl[1][m] && h.rfi_counts[bliss::flag_values::high_spectral_kurtosis] == p.fl[2][m], w,
                      ": counts of flags are not those of its cell");
            ++e;
        }
        expect_untouched(ccs[k], y, "coarse channel");
    }
}
// strong drifting tones in noise are found where they are
static void signals(Ctx &c) {
    quiet();
    Chan x;
    gen_meta(c, x);
    x.T = c.i(8, 24), x.F = c.i(120, 260);
    bliss::integrate_drifts_options o;
    bool maxima = c.b();
    Plane p;
    p.dist = c.i(1, 4), p.thr = 15;
    int64_t reach = 2 * x.T, room = reach + 10;
    o.low_rate = -reach, o.high_rate = reach + 1, o.desmear = c.b();
    int64_t span  = c.i(-reach + p.dist + 2, reach - p.dist - 2), lo = 8 + std::max<int64_t>(0, -span), hi = x.F - 9 - std::max<int64_t>(0, span);
    int64_t start = c.i(std::max(lo, (int64_t)p.dist + 2), hi);
    double  mean = c.real(5, 100), sigma = c.real(0.01, 2), amp = sigma * c.real(60, 400);
    c.note(x.T, " x ", x.F, " tone from channel ", start, " over ", span, " of ", amp / sigma, " deviations, ", maxima ? "maxima" : "components");
    pbt::Noise r(c.seed());
    x.d.resize(x.T * x.F), x.m.assign(x.T * x.F, 0);
    for (auto &v : x.d) v = (double)(float)(mean + sigma * r.normal());
    for (int64_t t = 0; t < x.T; ++t) {
        auto f = start + (int64_t)std::llround((double)span * (double)t / (double)(x.T - 1));
        x.d[t * x.F + f] = (double)(float)(x.d[t * x.F + f] + amp);
    }
    (void)room;
    auto cc = build(c, x);
    // noise of the band without the tone
    bliss::noise_stats ns;
    ns.set_noise_floor(make(K::f32, {1}, {(double)(float)mean}).nd), ns.set_noise_power(make(K::f32, {1}, {(double)(float)sigma}).nd);
    cc.set_noise_estimate(ns);
    auto ic   = bliss::integrate_drifts(cc, o);
    auto hits = bliss::hit_search(ic, options(p, maxima));
    double f0 = x.fch1 + x.foff * (double)start, hz = (double)span / (double)(x.T - 1) * x.foff * 1e6 / x.tsamp, step = std::fabs(x.foff) * 1e6 / x.tsamp / (double)(x.T - 1);
    bool   found = false;
    std::string near;
    for (auto &h : hits) {
        found = found || (std::fabs(h.start_freq_MHz - f0) <= 3.01 * std::fabs(x.foff) && std::fabs(h.drift_rate_Hz_per_sec - hz) <= 2.01 * step);
        if (near.size() < 200) near += " (channel " + std::to_string((h.start_freq_MHz - x.fch1) / x.foff) + ", span " + std::to_string(h.drift_rate_Hz_per_sec / (hz / (double)span)) + ")";
        REQUIRE_P("in-band", h.start_freq_index >= 0 && h.start_freq_index < x.F, "a hit at channel ", h.start_freq_index);
    }
    REQUIRE_P("found", found, hits.size(), " hits, none is the tone from channel ", start, " over ", span, ":", near);
    // the strongest hit is the tone
    auto top = std::max_element(hits.begin(), hits.end(), [](const hit &a, const hit &b) { return a.snr < b.snr; });
    REQUIRE_P("strongest", std::fabs(top->start_freq_MHz - f0) <= 3.01 * std::fabs(x.foff), "the strongest hit is at channel ", (top->start_freq_MHz - x.fch1) / x.foff, ", the tone starts at ", start);
    c.nontrivial();
}
static void missing(Ctx &c) { // nothing to search in is an error
    quiet();
    auto p = gen_plane(c, false);
    Chan x;
    x.T = p.T, x.F = p.F;
    x.d.assign(x.T * x.F, 1), x.m.assign(x.T * x.F, 0);
    auto cc = build(c, x);
    bool plane = c.b();
    if (plane) cc.set_integrated_drift_plane(fdp_of(c, p));
    else cc.set_noise_estimate(noise_of(p));
    c.note(plane ? "no noise estimate" : "no plane");
    bool threw = false;
    try { bliss::hit_search(cc, options(p, false)); } catch (const std::exception &) { threw = true; }
    REQUIRE_P("rejected", threw, "a search without ", plane ? "noise estimate" : "drift plane", " was accepted");
    c.nontrivial();
}
int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "D06";
    s.rule           = "fields: at least one hit; signals, missing: every case";
    s.quick_cases    = 14000;
    s.thorough_cases = 250000;
    s.assumptions    = "planes of up to 40 drifts and 120 channels; tones of 60 to 400 deviations per sample, located within 3 channels and 2 drift steps";
    s.facets         = {{"fields", 6, 0, fields}, {"signals", 1, 0, signals}, {"missing", 1, 0, missing}};
    return pbt::run(argc, argv, s);
}

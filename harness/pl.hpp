// Generated frequency-drift planes with exactly representable signal-to-noise ratios, and the cells of them.
#pragma once
#include "cc.hpp"
#include <drift_search/connected_components.hpp>
#include <drift_search/hit_search.hpp>
#include <drift_search/local_maxima.hpp>
#include <drift_search/protohit_search.hpp>

namespace plg {
using namespace ccg;
using bliss::protohit;

struct Plane {
    int64_t                  R = 1, F = 1;
    std::vector<double>      snr;   // of every cell, a multiple of 1/8
    std::vector<double>      noise; // of every row, a power of two
    double                   floor = 0, thr = 10;
    int                      dist = 7;
    int64_t                  T = 1; // integration steps
    std::vector<int>         bins;  // desmearing of every row
    double                   power = 1;
    std::vector<uint8_t>     fl[3]; // counts of flags: rolloff, low, high
    double                   value(int64_t n) const { return floor + snr[n] * noise[n / F]; }
};
inline Plane gen_plane(Ctx &c, bool maxima) {
    Plane p;
    p.R = c.i(1, c.b(1, 6) ? 40 : 12), p.F = c.i(1, c.b(1, 6) ? 120 : 30);
    bool wide = c.b(1, 1500);
    if (wide) p.F = c.i(33000, 70000), p.R = c.i(1, 5), c.label("more than 2^15 channels");
    static const std::vector<double> thrs{10, 2, 1, 5.5, 3.25, 100}, floors{0, 1, 50, -2, 0.5};
    p.thr = c.pick(thrs), p.floor = c.pick(floors), p.dist = c.i(maxima ? 1 : 0, c.b() ? 3 : 8);
    if (wide) p.dist = std::min(p.dist, 2);
    static const std::vector<int64_t> sq{1, 4, 16, 64};
    static const std::vector<int>     bi{1, 4, 16};
    p.T = c.pick(sq), p.power = std::pow(2.0, c.u(-4, 4));
    bool varied = c.b();
    int  b0 = c.pick(bi);
    for (int64_t r = 0; r < p.R; ++r) {
        p.bins.push_back(varied ? c.pick(bi) : b0);
        p.noise.push_back(p.power / std::sqrt((double)(p.T * p.bins.back())));
    }
    p.snr.assign(p.R * p.F, 0);
    pbt::Noise r(c.seed());
    auto       level = [&](double lo, double hi) { return lo + std::floor(r.uni() * (hi - lo) * 8) / 8; };
    int        how = c.u(0, 4);
    for (auto &s : p.snr) {
        if (how == 0) s = level(-p.thr / 2, p.thr / 2);                            // noise only
        else if (how == 1) s = r.range(0, 9) == 0 ? level(p.thr / 2, 3 * p.thr) : 0; // scattered
        else if (how == 2) s = level(0, 2.2 * p.thr);                              // dense
        else if (how == 3) s = r.range(0, 5) == 0 ? p.thr / 2 + (double)r.range(-1, 1) / 8 : r.range(0, 12) == 0 ? p.thr + (double)r.range(-1, 1) / 8 : 0; // at the thresholds
        else s = level(-1, p.thr / 4);
    }
    int n = how == 2 ? 0 : c.i(0, 6); // and some signals
    for (int k = 0; k < n; ++k) {
        int64_t r0 = r.range(0, p.R - 1), f0 = r.range(0, p.F - 1), w = r.range(0, 5);
        double  s0 = level(p.thr, 20 * p.thr);
        for (int64_t a = -w; a <= w; ++a)
            for (int64_t b = -w; b <= w; ++b)
                if (r0 + a >= 0 && r0 + a < p.R && f0 + b >= 0 && f0 + b < p.F && std::llabs(a) + std::llabs(b) <= w)
                    p.snr[(r0 + a) * p.F + f0 + b] = std::max(p.snr[(r0 + a) * p.F + f0 + b], std::floor(s0 / (1 + 0.3 * std::llabs(a) + 0.7 * std::llabs(b)) * 8) / 8);
    }
    for (auto &f : p.fl) {
        f.resize(p.R * p.F);
        for (auto &x : f) x = r.range(0, 3) == 0 ? 0 : (uint8_t)r.range(0, 255);
    }
    c.note(p.R, " drifts x ", p.F, " channels, threshold ", p.thr, ", distance ", p.dist, ", floor ", p.floor, " kind ", how, " with ", n, " signals");
    return p;
}
inline bliss::integrated_flags flags_of(Ctx &c, const Plane &p) {
    bliss::integrated_flags f(p.R, p.F);
    std::shared_ptr<ndarray> base;
    std::vector<double>      cells;
    ndarray                 *a[] = {&f.filter_rolloff, &f.low_spectral_kurtosis, &f.high_spectral_kurtosis};
    for (int k = 0; k < 3; ++k) *a[k] = lay_out(c, K::u8, {p.R, p.F}, std::vector<double>(p.fl[k].begin(), p.fl[k].end()), base, cells);
    return f;
}
inline std::vector<double> cells_of(const Plane &p) {
    std::vector<double> v(p.R * p.F);
    for (int64_t n = 0; n < p.R * p.F; ++n) v[n] = p.value(n);
    return v;
}
inline bliss::noise_stats noise_of(const Plane &p) {
    bliss::noise_stats s;
    s.set_noise_floor(make(K::f32, {1}, {p.floor}).nd);
    s.set_noise_power(make(K::f32, {1}, {p.power}).nd);
    return s;
}
inline bliss::frequency_drift_plane fdp_of(Ctx &c, const Plane &p, const std::vector<double> *hz = nullptr) {
    std::shared_ptr<ndarray>                            base;
    std::vector<double>                                 cells;
    std::vector<bliss::frequency_drift_plane::drift_rate> info;
    for (int64_t r = 0; r < p.R; ++r) {
        bliss::frequency_drift_plane::drift_rate d;
        d.index_in_plane = (int)r, d.desmeared_bins = p.bins[r], d.drift_channels_span = (int)r, d.drift_rate_slope = (double)r, d.drift_rate_Hz_per_sec = hz ? (*hz)[r] : (double)r;
        info.push_back(d);
    }
    auto d = lay_out(c, K::f32, {p.R, p.F}, cells_of(p), base, cells);
    return bliss::frequency_drift_plane(d, flags_of(c, p), p.T, info);
}
// what a search reports, through one of its interfaces
inline std::vector<protohit> search(Ctx &c, const Plane &p, bool maxima) {
    bool whole = c.b();
    c.label(whole ? "search of a plane" : "search of an array");
    if (whole) {
        auto                      f = fdp_of(c, p);
        bliss::hit_search_options o;
        o.method = maxima ? bliss::hit_search_methods::LOCAL_MAXIMA : bliss::hit_search_methods::CONNECTED_COMPONENTS;
        o.snr_threshold = (float)p.thr, o.neighbor_l1_dist = p.dist;
        return bliss::protohit_search(f, noise_of(p), o);
    }
    std::shared_ptr<ndarray>                base;
    std::vector<double>                     cells;
    std::vector<bliss::protohit_drift_info> info;
    for (double n : p.noise) info.push_back({(float)n});
    auto d = lay_out(c, K::f32, {p.R, p.F}, cells_of(p), base, cells);
    return maxima ? bliss::find_local_maxima_above_threshold(d, flags_of(c, p), (float)p.floor, info, (float)p.thr, p.dist)
                  : bliss::find_components_above_threshold(d, flags_of(c, p), (float)p.floor, info, (float)p.thr, p.dist);
}
// what is reported of the strongest cell is that cell's
inline void expect_peak(const Plane &p, protohit &h, const std::string &w) {
    auto    m = h.index_max;
    REQUIRE_P("inside", m.drift_index >= 0 && m.drift_index < p.R && m.frequency_channel >= 0 && m.frequency_channel < p.F, w, ": reported at (", m.drift_index, ",", m.frequency_channel, ")");
    int64_t n = m.drift_index * p.F + m.frequency_channel;
    REQUIRE_P("peak-value", pbt::close(h.max_integration, p.value(n), 1e-6, 0), w, ": value ", h.max_integration, " of a cell of ", p.value(n));
    REQUIRE_P("peak-noise", pbt::close(h.desmeared_noise, p.noise[m.drift_index], 1e-6, 0), w, ": noise ", h.desmeared_noise, " at a drift of ", p.noise[m.drift_index]);
    REQUIRE_P("peak-snr", pbt::close(h.snr, p.snr[n], 1e-6, 0), w, ": snr ", h.snr, " of a cell of ", p.snr[n]);
    struct { bliss::flag_values f; int k; const char *n; } kinds[] = {{bliss::flag_values::filter_rolloff, 0, "rolloff"}, {bliss::flag_values::low_spectral_kurtosis, 1, "low kurtosis"}, {bliss::flag_values::high_spectral_kurtosis, 2, "high kurtosis"}};
    for (auto &k : kinds) REQUIRE_P("peak-flags", h.rfi_counts[k.f] == p.fl[k.k][n], w, ": ", +h.rfi_counts[k.f], " ", k.n, " flags of a cell with ", +p.fl[k.k][n]);
}
inline std::string at(int64_t n, int64_t F) { return "(" + std::to_string(n / F) + "," + std::to_string(n % F) + ")"; }
} // namespace plg

// Generated bands: noise of averaged spectra with drifting tones, in filterbank files.
#pragma once
#include "fb.hpp"

namespace band {
using namespace fb;

struct Tone {
    int64_t start, span; // channel at the first time, channels crossed to the last
    double  amp;         // in deviations
};
struct Band {
    Spec              f;
    int64_t           fine = 64, n = 1;
    std::vector<Tone> tones;
};
inline Band gen_band(Ctx &c, int64_t T, int64_t fine, int64_t n, double least = 2) {
    Band b;
    b.fine = fine, b.n = n;
    b.f.T = T, b.f.F = fine * n;
    gen_rest(c, b.f);
    b.f.foff = {true, (c.b() ? 1 : -1) * c.real(1e-6, 4e-6), 0}, b.f.tsamp = {true, c.real(least, 30), 0};
    b.f.store = c.b() ? 0 : 1, b.f.labels = c.u(0, 1), b.f.extra_dim = false;
    b.f.val.resize(T * b.f.F);
    // the power of noise, a mean of as many spectra as were taken in each sampling time
    double     mean = c.real(50, 5000);
    int        spectra = std::max<int>(1, (int)(std::fabs(b.f.foff.v) * 1e6 * b.f.tsamp.v));
    pbt::Noise r(c.seed());
    for (auto &v : b.f.val) {
        double s = 0;
        for (int k = 0; k < spectra; ++k) s -= std::log(1 - r.uni());
        v = mean * s / spectra;
    }
    return b;
}
inline double sigma_of(const Band &b) {
    double s = 0, q = 0, n = (double)b.f.val.size();
    for (auto v : b.f.val) s += v / n;
    for (auto v : b.f.val) q += (v - s) * (v - s) / n;
    return std::sqrt(q);
}
inline void add(Band &b, const Tone &t, double sigma) {
    for (int64_t k = 0; k < b.f.T; ++k) {
        int64_t f = t.start + (int64_t)std::llround((double)t.span * (double)k / (double)(b.f.T - 1));
        if (f >= 0 && f < b.f.F) b.f.val[k * b.f.F + f] += t.amp * sigma;
    }
    b.tones.push_back(t);
}
inline void store(Band &b, const std::string &p) {
    for (auto &v : b.f.val) v = (double)(float)v;
    fb::write(b.f, p);
}

} // namespace band

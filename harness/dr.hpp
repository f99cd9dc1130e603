// Generated drift searches and the lines they integrate along.
#pragma once
#include "cc.hpp"
#include <drift_search/integrate_drifts.hpp>

namespace drg {
using namespace ccg;
using Opt = bliss::integrate_drifts_options;

inline Opt gen_opt(Ctx &c, int64_t T, int64_t F, int most_rows = 40) {
    Opt o;
    o.desmear        = c.b();
    o.rate_step_size = c.b() ? 1 : c.i(1, 9);
    int64_t reach    = c.b(1, 4) ? 3 * F + 3 : c.b() ? 2 * T + 2 : F + 2;
    o.low_rate       = c.i(-reach, reach);
    int64_t span     = c.i(1, std::min<int64_t>(2 * reach, most_rows * o.rate_step_size));
    o.high_rate      = o.low_rate + span;
    if (F > 30000) o.low_rate = c.b(1, 4) ? c.i(-700, 700) : c.i(-40, 40), o.high_rate = o.low_rate + c.i(1, 3) * o.rate_step_size; // (what is long takes long)
    c.note("rates ", o.low_rate, "..", o.high_rate, " step ", o.rate_step_size, o.desmear ? " desmeared" : "");
    return o;
}
inline int64_t rows_of(const Opt &o) { return (o.high_rate - o.low_rate + o.rate_step_size - 1) / o.rate_step_size; }

// Channel offset of a line of the given span at time t: round(span * t / (T-1)); both neighbours when it is a tie
struct Offsets {
    int64_t a, b;
};
inline Offsets offsets(int64_t span, int64_t t, int64_t T) {
    if (T <= 1 || t == 0) return {0, 0};
    int64_t n = 2 * std::llabs(span) * t, d = 2 * (T - 1); // n/d = |span| t / (T-1)
    int64_t fl = n / d, rem = n % d;
    int64_t sg = span < 0 ? -1 : 1;
    if (2 * rem == d) return {sg * fl, sg * (fl + 1)};
    int64_t r = 2 * rem > d ? fl + 1 : fl;
    return {sg * r, sg * r};
}
// lowest and highest value of the sum of v along the line of each cell, with the given number of bins at each time
inline void line_sum(const std::vector<double> &v, int64_t T, int64_t F, int64_t span, int64_t bins, int64_t c, double &lo, double &hi, double &mag) {
    lo = hi = mag = 0;
    for (int64_t t = 0; t < T; ++t) {
        auto   o = offsets(span, t, T);
        double s[2];
        for (int k = 0; k < 2; ++k) {
            s[k] = 0;
            for (int64_t b = 0; b < bins; ++b) {
                int64_t f = c + (k ? o.b : o.a) + (span < 0 ? -b : b);
                if (f >= 0 && f < F) s[k] += v[t * F + f], mag += std::fabs(v[t * F + f]);
            }
        }
        lo += std::min(s[0], s[1]), hi += std::max(s[0], s[1]);
    }
}
// the bins a row is summed over: as many as channels are crossed in one time step
inline void expect_bins(int64_t bins, const Opt &o, int64_t span, int64_t T, const std::string &w) {
    if (!o.desmear) REQUIRE_P("desmear-width", bins == 1, w, ": ", bins, " bins without desmearing");
    else if (T > 1) {
        double m = std::fabs((double)span / (double)(T - 1));
        REQUIRE_P("desmear-width", bins >= 1 && (bins == 1 ? m <= 1.5 + 1e-5 : std::fabs((double)bins - m) <= 0.5 + 1e-5), w, ": ", bins, " bins for ", m, " channels per step");
    }
}
inline Chan gen_chan(Ctx &c, int64_t maxT, int64_t maxF) {
    Chan x;
    x.T = c.i(1, maxT), x.F = c.i(1, maxF);
    x.d = gen_data(c, x.T, x.F);
    x.m = gen_mask(c, x.T * x.F);
    c.note(x.T, " x ", x.F);
    return x;
}
} // namespace drg

// D05: local maxima.
#include "pl.hpp"
using namespace plg;

static void maxima(Ctx &c) {
    auto p = gen_plane(c, true);
    std::set<int64_t> want;
    for (int64_t r = p.dist; r + p.dist < p.R; ++r)
        for (int64_t f = p.dist; f + p.dist < p.F; ++f) {
            double s = p.snr[r * p.F + f];
            bool   top = s > p.thr;
            for (int a = -p.dist; top && a <= p.dist; ++a)
                for (int b = -p.dist; top && b <= p.dist; ++b)
                    if ((a || b) && std::abs(a) + std::abs(b) <= p.dist) top = s > p.snr[(r + a) * p.F + f + b];
            if (top) want.insert(r * p.F + f);
        }
    c.note(want.size(), " maxima");
    if (want.size() > 1) c.label("several maxima");
    c.nontrivial(!want.empty());
    auto   got = search(c, p, true);
    size_t k = 0;
    for (auto &h : got) {
        std::string w = "maximum " + std::to_string(k++);
        expect_peak(p, h, w);
        int64_t r = h.index_max.drift_index, f = h.index_max.frequency_channel, n = r * p.F + f;
        REQUIRE_P("not-a-maximum", want.erase(n), w, " at ", at(n, p.F), " (", p.snr[n], ") is not one, or was reported before");
        // the channels next to it that keep decreasing above the threshold belong to it
        int64_t lo = f - 1, hi = f + 1;
        while (lo >= 0 && p.snr[r * p.F + lo] > p.thr && p.snr[r * p.F + lo] < p.snr[r * p.F + lo + 1]) --lo;
        while (hi < p.F && p.snr[r * p.F + hi] > p.thr && p.snr[r * p.F + hi] < p.snr[r * p.F + hi - 1]) ++hi;
        REQUIRE_P("width", h.binwidth == hi - lo, w, ": width ", h.binwidth, " between channels ", lo, " and ", hi);
        REQUIRE_P("center", h.index_center.drift_index == r && h.index_center.frequency_channel == (lo + hi) / 2, w, ": centre (", h.index_center.drift_index, ",", h.index_center.frequency_channel, ") between channels ", lo, " and ", hi);
    }
    REQUIRE_P("missed", want.empty(), want.size(), " maxima are not reported, one at ", at(*want.begin(), p.F));
}
int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "D05";
    s.rule           = "at least one local maximum above the threshold";
    s.quick_cases    = 50000;
    s.thorough_cases = 1000000;
    s.assumptions    = "planes of up to 40 drifts and 120 channels, or 5 and 70000, distances of 1 to 8, signal-to-noise ratios that are exact in single precision; cells whose neighbourhood reaches out of the plane are not candidates";
    s.facets         = {{"maxima", 1, 0, maxima}};
    return pbt::run(argc, argv, s);
}

// D02: counts of flagged samples along drifts.
#include "dr.hpp"
using namespace drg;

static void counts(Ctx &c) {
    quiet();
    Chan x;
    bool many = c.b(1, 8); // more flagged samples along a line than a count can hold
    x.T = many ? c.i(200, 520) : c.i(1, 16), x.F = many ? c.i(1, 6) : c.i(1, 40);
    bool wide = !many && c.b(1, 1500);
    if (wide) x.F = c.i(33000, 70000), x.T = c.i(1, 3), c.label("more than 2^15 channels");
    x.d.assign(x.T * x.F, 1.0);
    x.m = gen_mask(c, x.T * x.F);
    if (many && c.b()) for (auto &m : x.m) m |= c.b(1, 200) ? 0 : 7;
    c.note(x.T, " x ", x.F);
    Opt o = gen_opt(c, x.T, x.F, wide ? 3 : many ? 6 : 40);
    int via = c.u(0, 3), n = via == DIRECT ? 1 : c.i(1, 3);
    auto chans = channels(c, x, n, [&](Chan &y) { y.m = gen_mask(c, y.T * y.F); });
    std::vector<coarse_channel> ccs;
    for (auto &y : chans) ccs.push_back(build(c, y));
    auto out = apply(c, via, ccs, [&](auto s) { return bliss::integrate_drifts(s, o); });
    bool some = false;
    for (int q = 0; q < n; ++q) {
        auto &y    = chans[q];
        auto  p    = out[q].integrated_drift_plane();
        auto  info = p.drift_rate_info();
        auto  fl   = p.integrated_rfi();
        REQUIRE_P("rows", (int64_t)info.size() == rows_of(o), info.size(), " drift rates, expected ", rows_of(o));
        struct { const char *n; int bit; ndarray *a; } kinds[] = {{"rolloff", 1, &fl.filter_rolloff}, {"low kurtosis", 2, &fl.low_spectral_kurtosis}, {"high kurtosis", 4, &fl.high_spectral_kurtosis}};
        for (auto &k : kinds) {
            REQUIRE_P("plane", k.a->shape() == (Shape{rows_of(o), y.F}), k.n, " counts of shape ", shape_str(k.a->shape()));
            auto                v = values(*k.a);
            std::vector<double> has(y.m.size());
            for (size_t i = 0; i < has.size(); ++i) has[i] = (y.m[i] & k.bit) ? 1 : 0, some = some || has[i];
            for (int64_t r = 0; r < rows_of(o); ++r) {
                int64_t span = o.low_rate + r * o.rate_step_size;
                expect_bins(info[r].desmeared_bins, o, span, y.T, "row");
                for (int64_t f = 0; f < y.F; ++f) {
                    double lo, hi, mag;
                    line_sum(has, y.T, y.F, span, info[r].desmeared_bins, f, lo, hi, mag);
                    if (hi > 255) c.label("more than 255");
                    lo = std::min(lo, 255.0), hi = std::min(hi, 255.0);
                    double g = v[r * y.F + f];
                    REQUIRE_P("count", g >= lo && g <= hi, k.n, " flags along a drift of ", span, " channels from channel ", f, ": ", g, ", the line has ", lo, " to ", hi, " (", info[r].desmeared_bins, " bins, coarse channel ", q, ")");
                }
            }
        }
        expect_untouched(ccs[q], y, "coarse channel");
    }
    c.label(via_name(via));
    c.nontrivial(some && x.T > 1);
}
int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "D02";
    s.rule           = "some sample is flagged and there is more than one time";
    s.quick_cases = 40000;
    s.thorough_cases = 800000;
    s.assumptions    = "up to 16 x 40 samples, 520 x 6 or 3 x 70000; counts are 8 bit and stay at 255; where a line lies exactly half way between two channels either is accepted";
    s.facets         = {{"counts", 1, 0, counts}};
    return pbt::run(argc, argv, s);
}

// C01: rolloff flags mark exactly the band edges.
#include "cc.hpp"
#include <flaggers/filter_rolloff.hpp>
using namespace ccg;

static void rolloff(Ctx &c) {
    quiet();
    Chan x;
    x.T = c.i(1, 6), x.F = c.b(1, 8) ? c.i(100, 600) : c.i(1, 40);
    sometimes_big(c, x.T, x.F);
    x.d = gen_data(c, x.T, x.F);
    x.m = gen_mask(c, x.T * x.F);
    float w;
    int   how = c.u(0, 4);
    if (how == 0) w = 0;
    else if (how == 1) w = (float)((double)c.u(0, x.F) / (double)x.F);
    else if (how == 2) w = (float)c.real(0, 1);
    else if (how == 3) w = (float)c.real(0, 0.1);
    else w = (float)(c.real(0, 0.6) / (double)x.F);
    int via = c.u(0, 3);
    int n   = via == DIRECT ? 1 : c.i(1, 3);
    auto v  = channels(c, x, n, [&](Chan &y) { y.m = gen_mask(c, y.T * y.F); });
    c.note("T ", x.T, " F ", x.F, " width ", w, " via ", via_name(via), " channels ", n);
    std::vector<coarse_channel> ccs;
    for (auto &y : v) ccs.push_back(build(c, y));
    auto out = apply(c, via, ccs, [&](auto q) { return bliss::flag_filter_rolloff(q, w); });
    double  edge  = (double)x.F * (double)w;
    int64_t lo    = (int64_t)std::floor(edge + 0.5 - 1e-3), hi = (int64_t)std::floor(edge + 0.5 + 1e-3);
    for (int k = 0; k < n; ++k) {
        auto            &y = v[k];
        std::vector<int> e(y.m.begin(), y.m.end());
        for (int64_t t = 0; t < y.T; ++t)
            for (int64_t f = 0; f < y.F; ++f) {
                int64_t  side = std::min(f, y.F - 1 - f);
                int     &q    = e[t * y.F + f];
                if (side < lo) q |= bliss::filter_rolloff;
                else if (side < hi) q = -1;
            }
        for (int again = 0; again < 2; ++again) expect_mask(out[k], y, e, "flags", again ? "read again" : "flagged");
        expect_data(out[k], y, "flagged");
        expect_meta(out[k], y, "flagged");
        expect_untouched(ccs[k], y, "flagged");
    }
    if (lo == 0 && hi == 0 && w > 0) c.label("less than half a channel");
    if (2 * lo >= x.F) c.label("overlapping edges");
    c.nontrivial(hi > 0 && hi < x.F && x.F > 2);
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "C01";
    s.rule           = "at least one channel at each edge is flagged and the channel has more than two fine channels";
    s.quick_cases    = 30000;
    s.thorough_cases = 600000;
    s.assumptions    = "fractions from 0 to 1; the number of flagged channels is the fraction of the channels rounded to nearest, either way when within 1e-3 of a half; CPU; uint8 masks";
    s.facets         = {{"rolloff", 1, 0, rolloff}};
    return pbt::run(argc, argv, s);
}

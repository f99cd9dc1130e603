// D01: drift integration.
#include "dr.hpp"
using namespace drg;

static void check(coarse_channel &r, const Chan &x, const Opt &o, const std::string &w) {
    auto p    = r.integrated_drift_plane();
    auto info = p.drift_rate_info();
    auto nd   = p.integrated_drift_plane();
    REQUIRE_P("rows", (int64_t)info.size() == rows_of(o), w, ": ", info.size(), " drift rates, expected ", rows_of(o));
    REQUIRE_P("plane", nd.shape() == (Shape{rows_of(o), x.F}), w, ": plane of shape ", shape_str(nd.shape()));
    REQUIRE_P("steps", p.integration_steps() == x.T, w, ": ", p.integration_steps(), " integration steps of ", x.T);
    auto v = values(nd);
    double most = *std::max_element(x.d.begin(), x.d.end());
    for (int64_t k = 0; k < rows_of(o); ++k) {
        int64_t span = o.low_rate + k * o.rate_step_size, bins = info[k].desmeared_bins;
        expect_bins(bins, o, span, x.T, w);
        for (int64_t f = 0; f < x.F; ++f) {
            double lo, hi, mag;
            line_sum(x.d, x.T, x.F, span, bins, f, lo, hi, mag);
            double n = (double)(x.T * bins), g = v[k * x.F + f], tol = 1e-7 * (double)(x.T * bins + 4) * mag / n;
            REQUIRE_P("cell", g >= lo / n - tol && g <= hi / n + tol, w, ": drift of ", span, " channels from channel ", f, " has ", g, ", the line has ", lo / n, " to ", hi / n, " (", bins, " bins)");
            if (most >= 0) REQUIRE_P("bounded", g <= most * 1.0001, w, ": a cell has ", g, ", no sample more than ", most);
        }
    }
}
static void model(Ctx &c) {
    quiet();
    Chan x = gen_chan(c, c.b(1, 8) ? 60 : 12, c.b(1, 8) ? 300 : 40);
    int  big = c.b(1, 800) ? c.u(1, 3) : 0;
    if (big) {
        if (big == 1) x.F = c.i(33000, 70000), x.T = c.i(1, 3);
        else x.T = big == 2 ? c.i(250, 600) : c.i(33000, 70000), x.F = c.i(1, 4);
        x.d = gen_data(c, x.T, x.F), x.m = gen_mask(c, x.T * x.F);
        c.label(big == 1 ? "more than 2^15 channels" : big == 2 ? "more than 2^8 times" : "more than 2^15 times");
    }
    Opt  o = gen_opt(c, x.T, x.F, big ? 4 : 40);
    int  via = c.u(0, 3), n = via == DIRECT ? 1 : c.i(1, 3);
    auto chans = channels(c, x, n, [&](Chan &y) { y.d = gen_data(c, y.T, y.F), y.m = gen_mask(c, y.T * y.F); });
    std::vector<coarse_channel> ccs;
    for (auto &y : chans) ccs.push_back(build(c, y));
    auto out = apply(c, via, ccs, [&](auto s) { return bliss::integrate_drifts(s, o); });
    for (int k = 0; k < n; ++k) {
        std::string w = std::string(via_name(via)) + " coarse channel " + std::to_string(k);
        check(out[k], chans[k], o, w);
        expect_meta(out[k], chans[k], w), expect_data(out[k], chans[k], w);
        expect_mask(out[k], chans[k], std::vector<int>(chans[k].m.begin(), chans[k].m.end()), "flags", w);
        expect_untouched(ccs[k], chans[k], w);
    }
    c.label(via_name(via));
    if (o.low_rate < 0 && o.high_rate > 0) c.label("both directions");
    if (o.desmear && std::max(std::llabs(o.low_rate), std::llabs(o.high_rate)) > 3 * x.T) c.label("smeared");
    if (std::max(std::llabs(o.low_rate), std::llabs(o.high_rate)) > x.F) c.label("leaves the band");
    c.nontrivial(x.T > 1 && x.F > 2);
}
// a tone which drifts by a whole number of channels per step keeps all of its power in its own cell, and only there
static void tone(Ctx &c) {
    quiet();
    Chan    x;
    int64_t per = c.i(-4, 4);
    x.T = c.i(2, 20);
    int64_t span = per * (x.T - 1), margin = std::llabs(span) + 8;
    x.F = 2 * margin + c.i(1, 40);
    int64_t start = margin + c.i(0, x.F - 2 * margin - 1);
    double  a = std::pow(2.0, c.u(-3, 10));
    x.d.assign(x.T * x.F, 0), x.m.assign(x.T * x.F, 0);
    for (int64_t t = 0; t < x.T; ++t) x.d[t * x.F + start + per * t] = a;
    Opt o;
    o.desmear = false, o.rate_step_size = 1, o.low_rate = span - c.i(0, 6), o.high_rate = span + 1 + c.i(0, 6);
    c.note(x.T, " x ", x.F, " tone of ", per, " channels per step from ", start);
    auto cc = build(c, x);
    auto r  = bliss::integrate_drifts(cc, o);
    auto v  = values(r.integrated_drift_plane().integrated_drift_plane());
    for (int64_t k = 0; k < rows_of(o); ++k)
        for (int64_t f = 0; f < x.F; ++f) {
            double g = v[k * x.F + f];
            bool   own = o.low_rate + k == span && f == start;
            if (own) REQUIRE_P("tone", pbt::close(g, a, 1e-6, 0), "the tone has ", g, " of its power of ", a);
            else REQUIRE_P("tone", g < a * (1 - 0.5 / (double)x.T), "a tone of span ", span, " from channel ", start, " has ", g / a, " of its power at span ", o.low_rate + k, " channel ", f);
        }
    c.nontrivial(x.T > 2);
}
int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "D01";
    s.rule           = "model: more than one time and two channels; tone: more than two times";
    s.quick_cases = 40000;
    s.thorough_cases = 600000;
    s.assumptions    = "up to 60 times, 300 channels and 40 drift rates; where a line lies exactly half way between two channels either is accepted; tolerance of a sum of single precision roundings";
    s.facets         = {{"model", 6, 0, model}, {"tone", 1, 0, tone}};
    return pbt::run(argc, argv, s);
}

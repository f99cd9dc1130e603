// D03: the searched drift rates.
#include "dr.hpp"
using namespace drg;

static void axis_of(Ctx &c, Chan x, Opt o) {
    c.note(x.T, " times, rates ", o.low_rate, "..", o.high_rate, " step ", o.rate_step_size, o.desmear ? " desmeared" : "", " foff ", x.foff, " tsamp ", x.tsamp);
    std::vector<coarse_channel> ccs{build(c, x)};
    auto out  = apply(c, c.u(0, 3), ccs, [&](auto s) { return bliss::integrate_drifts(s, o); });
    auto p    = out[0].integrated_drift_plane();
    auto info = p.drift_rate_info();
    // spelled out, not computed: the rates below the high bound
    std::vector<int64_t> e;
    for (int64_t r = o.low_rate; r < o.high_rate; r += o.rate_step_size) e.push_back(r);
    REQUIRE_P("rates", info.size() == e.size(), info.size(), " rates searched, expected ", e.size());
    REQUIRE_P("plane", p.integrated_drift_plane().shape() == (Shape{(int64_t)e.size(), x.F}), "plane of shape ", shape_str(p.integrated_drift_plane().shape()), " for ", e.size(), " rates");
    REQUIRE_P("steps", p.integration_steps() == x.T, p.integration_steps(), " steps integrated of ", x.T);
    for (size_t k = 0; k < e.size(); ++k) {
        auto       &i = info[k];
        std::string w = "rate " + std::to_string(k);
        REQUIRE_P("rates", i.drift_channels_span == e[k] && i.index_in_plane == (int64_t)k, w, " spans ", i.drift_channels_span, " channels (row ", i.index_in_plane, "), expected ", e[k]);
        REQUIRE_P("finite", std::isfinite(i.drift_rate_slope) && std::isfinite(i.drift_rate_Hz_per_sec), w, " has slope ", i.drift_rate_slope, ", ", i.drift_rate_Hz_per_sec, " Hz/s");
        if (x.T > 1) {
            double m = (double)e[k] / (double)(x.T - 1);
            REQUIRE_P("slope", pbt::close(i.drift_rate_slope, m, 1e-6, 0), w, " has a slope of ", i.drift_rate_slope, " channels per step, expected ", m);
        }
        double hz = i.drift_rate_slope * x.foff * 1e6 / x.tsamp;
        REQUIRE_P("hz", pbt::close(i.drift_rate_Hz_per_sec, hz, 1e-6, 0), w, " is ", i.drift_rate_Hz_per_sec, " Hz/s, expected ", hz);
        expect_bins(i.desmeared_bins, o, e[k], x.T, w);
        if (k > 0) {
            REQUIRE_P("order", x.foff > 0 ? i.drift_rate_Hz_per_sec > info[k - 1].drift_rate_Hz_per_sec : i.drift_rate_Hz_per_sec < info[k - 1].drift_rate_Hz_per_sec, w, " is not ordered");
            REQUIRE_P("order", i.drift_rate_slope > info[k - 1].drift_rate_slope, w, " is not ordered");
        }
    }
    if ((o.high_rate - o.low_rate) % o.rate_step_size) c.label("range not a multiple of the step");
    c.nontrivial(e.size() > 1 && x.T > 1);
}
static void axis(Ctx &c) {
    quiet();
    Chan x;
    x.T = c.b() ? c.i(1, 20) : c.i(1, 400), x.F = c.i(1, 4);
    x.d.assign(x.T * x.F, 1.0), x.m.assign(x.T * x.F, 0);
    static const std::vector<double> foffs{-2.7939677238464355e-06, 2.7939677238464355e-06, -0.00286102294921875, 0.3, -1.0, 1e-6};
    x.foff = c.pick(foffs), x.tsamp = c.b() ? 18.253611008 : c.real(1e-5, 100);
    Opt o;
    o.desmear = c.b(), o.rate_step_size = c.b() ? 1 : c.b() ? c.i(1, 12) : c.i(1, 100000);
    o.low_rate = c.b() ? c.i(-600, 600) : c.i(-1000000, 1000000);
    o.high_rate = o.low_rate + (c.b() ? c.i(1, 30) * o.rate_step_size : c.i(1, 60 * o.rate_step_size));
    if (c.b(1, 10)) o.low_rate = -500, o.high_rate = 500, o.rate_step_size = 1;
    axis_of(c, x, o);
    if (c.b(1, 4)) { // and another search, that differs in one respect
        switch (c.u(0, 5)) {
        case 0: x.foff *= c.b() ? -1 : c.real(0.5, 2); break;
        case 1: x.tsamp *= c.real(0.5, 2); break;
        case 2: o.desmear = !o.desmear; break;
        case 3: o.high_rate += c.i(1, 5); break;
        case 4: o.rate_step_size += c.i(1, 3); break;
        default: o.low_rate -= c.i(1, 5); break;
        }
        c.note("then");
        axis_of(c, x, o);
    }
}
static void rejected(Ctx &c) {
    quiet();
    Chan x;
    x.T = c.i(1, 8), x.F = c.i(1, 8);
    x.d.assign(x.T * x.F, 1.0), x.m.assign(x.T * x.F, 0);
    Opt o;
    o.desmear = c.b(), o.low_rate = c.i(-50, 50), o.high_rate = o.low_rate + c.i(-20, 20), o.rate_step_size = c.i(-5, 5);
    if (o.rate_step_size > 0 && o.high_rate > o.low_rate) o.high_rate = o.low_rate - c.i(0, 3);
    c.note("rates ", o.low_rate, "..", o.high_rate, " step ", o.rate_step_size);
    std::vector<coarse_channel> ccs{build(c, x)};
    try {
        auto out = apply(c, c.u(0, 3), ccs, [&](auto s) { return bliss::integrate_drifts(s, o); });
        auto p   = out[0].integrated_drift_plane();
        REQUIRE_P("empty", p.drift_rate_info().empty() && p.integrated_drift_plane().numel() == 0, p.drift_rate_info().size(), " rates searched");
    } catch (const std::exception &) { c.label("error"); }
    c.nontrivial();
}
int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "D03";
    s.rule           = "axis: more than one rate and time; rejected: every case";
    s.quick_cases    = 12000;
    s.thorough_cases = 200000;
    s.assumptions    = "up to 400 times and 1000 rates of up to 10^6 channels";
    s.facets         = {{"axis", 6, 0, axis}, {"rejected", 1, 0, rejected}};
    return pbt::run(argc, argv, s);
}

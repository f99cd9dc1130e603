// C05: noise estimates.
#include "cc.hpp"
#include "red.hpp"
#include <estimators/noise_estimate.hpp>
using namespace ccg;
using bliss::noise_power_estimate_options;
using bliss::noise_power_estimator;

static void check(bliss::noise_stats s, const red::Stat &st, const std::string &w) {
    red::check_mean("floor", s.noise_floor(), st, w + " noise floor");
    double d = s.noise_power();
    REQUIRE_P("deviation", d >= 0, w, ": noise power ", d);
    red::check_var("deviation", d * d, st, w + " noise power squared");
    REQUIRE_P("amplitude", pbt::close(s.noise_amplitude(), std::sqrt(d), 1e-6, 0), w, ": amplitude ", s.noise_amplitude(), " of power ", d);
}

struct Op { // estimating a channel gives the estimate itself
    noise_power_estimate_options o;
    coarse_channel operator()(coarse_channel q) const {
        q.set_noise_estimate(bliss::estimate_noise_power(q, o));
        return q;
    }
    template <class T> T operator()(T q) const { return bliss::estimate_noise_power(q, o); }
};

static void estimate(Ctx &c) {
    quiet();
    Chan x;
    x.T = c.i(1, 12), x.F = c.i(1, 40);
    sometimes_big(c, x.T, x.F);
    bool masked = c.b(2, 3);
    bool all    = masked && c.b(1, 12); // everything flagged
    auto fill = [&](Chan &y) {
        y.d = gen_data(c, y.T, y.F);
        y.m = gen_mask(c, y.T * y.F);
        if (all && c.b()) for (auto &f : y.m) f = (uint8_t)(1 << c.u(0, 7));
        else if (c.b(1, 4)) { // mostly flagged
            pbt::Noise r(c.seed());
            for (auto &f : y.m) f = r.range(0, 9) ? 33 : 0;
        }
        if (masked) { // flagged samples can be anything
            static const std::vector<double> odd{1e30, -1e30, 0, INFINITY, NAN, 12345};
            double o = c.pick(odd);
            if (c.b())
                for (size_t k = 0; k < y.d.size(); ++k)
                    if (y.m[k]) y.d[k] = (double)(float)o;
        }
    };
    fill(x);
    int  via = c.u(0, 4), n = via == DIRECT || via == 4 ? 1 : c.i(1, 3);
    if (via == 4) masked = false, x.d = gen_data(c, x.T, x.F);
    auto v = channels(c, x, n, fill);
    std::vector<coarse_channel> ccs;
    for (auto &y : v) ccs.push_back(build(c, y));
    noise_power_estimate_options o;
    o.estimator_method = noise_power_estimator::STDDEV;
    o.masked_estimate  = masked || (via == 4 && c.b());
    c.note("T ", x.T, " F ", x.F, masked ? " masked" : " unmasked", " via ", via == 4 ? "array" : via_name(via), " channels ", n);
    std::vector<red::Stat> st;
    size_t flagged = 0;
    bool   none = false;
    for (auto &y : v) {
        std::vector<double> keep;
        for (size_t k = 0; k < y.d.size(); ++k)
            if (!masked || y.m[k] == 0) keep.push_back(y.d[k]);
            else ++flagged;
        none = none || keep.empty();
        st.push_back(red::stat(keep));
    }
    if (none) { // nothing to estimate from: an error, not a number
        bool threw = false;
        try {
            apply(c, via, ccs, Op{o});
        } catch (const std::exception &) { threw = true; }
        REQUIRE_P("all-flagged", threw, "a masked estimate was given for a completely flagged channel");
        c.label("everything flagged");
        c.nontrivial();
        return;
    }
    if (via == 4) check(bliss::estimate_noise_power(ccs[0].data(), o), st[0], "array");
    else if (via == DIRECT) {
        auto s = bliss::estimate_noise_power(ccs[0], o);
        check(s, st[0], "channel");
        bool has = true;
        try {
            ccs[0].noise_estimate();
        } catch (const std::exception &) { has = false; }
        REQUIRE_P("source", !has, "estimating stored an estimate in the channel");
    } else {
        auto out = apply(c, via, ccs, Op{o});
        for (int k = 0; k < n; ++k) {
            check(out[k].noise_estimate(), st[k], "channel " + std::to_string(k));
            expect_data(out[k], v[k], "estimated");
            expect_mask(out[k], v[k], std::vector<int>(v[k].m.begin(), v[k].m.end()), "flags", "estimated");
            expect_meta(out[k], v[k], "estimated");
        }
    }
    for (int k = 0; k < n; ++k) expect_untouched(ccs[k], v[k], "estimated");
    // scaling by a power of two scales the estimate exactly; other flagged values make no difference
    if (c.b()) {
        auto y = x;
        int  e = c.i(-8, 8);
        pbt::Noise r(c.seed());
        for (size_t k = 0; k < y.d.size(); ++k) {
            y.d[k] = std::ldexp(y.d[k], e);
            if (masked && y.m[k]) y.d[k] = (double)(float)(1e6 * r.normal());
        }
        auto c2 = build(c, y);
        auto o2 = o;
        o2.masked_estimate = masked;
        auto a = bliss::estimate_noise_power(ccs[0], o2), b = bliss::estimate_noise_power(c2, o2);
        REQUIRE_P("relation", (float)std::ldexp(a.noise_floor(), e) == b.noise_floor() && (float)std::ldexp(a.noise_power(), e) == b.noise_power(), "scaling the unflagged samples by 2^", e, " and replacing the flagged ones turns floor ",
                  a.noise_floor(), " power ", a.noise_power(), " into ", b.noise_floor(), " and ", b.noise_power());
    }
    c.nontrivial(x.d.size() > 2 && (!masked || flagged > 0));
}

static void unimplemented(Ctx &c) {
    quiet();
    Chan x;
    x.T = c.i(1, 4), x.F = c.i(1, 10);
    x.d = gen_data(c, x.T, x.F), x.m.assign(x.T * x.F, 0);
    auto cc = build(c, x);
    noise_power_estimate_options o;
    o.estimator_method = noise_power_estimator::MEAN_ABSOLUTE_DEVIATION;
    o.masked_estimate  = c.b();
    bool arr = c.b();
    std::vector<double> s = x.d, dev;
    std::sort(s.begin(), s.end());
    try {
        auto e = arr ? bliss::estimate_noise_power(cc.data(), o) : bliss::estimate_noise_power(cc, o);
        double fl = e.noise_floor(); // a median is an element or the middle of two
        bool   ok = false;
        size_t h  = s.size() / 2;
        ok        = pbt::close(fl, s[h], 1e-6, 0) || (h > 0 && (pbt::close(fl, s[h - 1], 1e-6, 0) || pbt::close(fl, (s[h] + s[h - 1]) / 2, 1e-6, 0)));
        REQUIRE_P("median", ok, "median noise floor ", fl);
    } catch (const std::exception &) { c.label("refused"); }
    c.nontrivial();
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "C05";
    s.rule           = "more than two samples and, for masked estimates, at least one flagged sample";
    s.quick_cases    = 30000;
    s.thorough_cases = 600000;
    s.assumptions    = "float32 samples, finite where they count; tolerances as in A04; the median based estimator may be refused; CPU";
    s.facets         = {{"estimate", 20, 0, estimate}, {"unimplemented", 1, 0, unimplemented}};
    return pbt::run(argc, argv, s);
}

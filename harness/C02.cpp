// C02: spectral kurtosis and its flags.
#include "cc.hpp"
#include <estimators/spectral_kurtosis.hpp>
#include <flaggers/spectral_kurtosis.hpp>
using namespace ccg;

struct Sk {
    double v, tol;
    bool   defined;
};
static std::vector<Sk> reference(const Chan &x, double N, double d) {
    std::vector<Sk> r;
    double          M = (double)x.T;
    for (int64_t f = 0; f < x.F; ++f) {
        long double s1 = 0, s2 = 0, ab = 0;
        for (int64_t t = 0; t < x.T; ++t) s1 += x.d[t * x.F + f], s2 += (long double)x.d[t * x.F + f] * x.d[t * x.F + f], ab += std::fabs(x.d[t * x.F + f]);
        Sk k;
        k.defined = s1 != 0 && M > 1;
        double C  = (M * N * d + 1) / (M - 1);
        double q  = k.defined ? (double)(s2 / (s1 * s1)) : 0;
        double cond = k.defined ? (double)(ab / std::fabs((double)s1)) : 0; // cancellation in the sum
        k.v       = C * (M * q - 1);
        k.tol     = std::fabs(C) * (M * q * (4e-7 + 3e-7 * (M + 2) * cond) + 3e-7) + 1e-6 * std::fabs(k.v);
        r.push_back(k);
    }
    return r;
}
// a channel with time-constant, noisy, bursty and silent fine channels
static void fill(Ctx &c, Chan &x) {
    x.d.assign(x.T * x.F, 0);
    pbt::Noise r(c.seed());
    static const std::vector<double> scales{1, 1e-4, 1e6, 2e10};
    double sc = c.pick(scales);
    for (int64_t f = 0; f < x.F; ++f) {
        int kind = r.range(0, 5);
        int at   = r.range(0, x.T - 1);
        for (int64_t t = 0; t < x.T; ++t) {
            double v = 0;
            if (kind == 0) v = 5;
            else if (kind == 1) v = -std::log(1 - r.uni());
            else if (kind == 2) v = 10 + 0.3 * r.normal();
            else if (kind == 3) v = (t == at ? 1000 : 1) * (1 + 0.1 * r.uni());
            else if (kind == 4) v = t == at ? 3 : 0;
            else v = (double)r.range(0, 3);
            x.d[t * x.F + f] = (double)(float)(v * sc);
        }
    }
}

static bool judge(Ctx &c, const Chan &x, int64_t N, double d);
static void kurtosis(Ctx &c) {
    quiet();
    Chan x;
    x.T = c.b(1, 10) ? c.i(50, 300) : c.i(2, 20), x.F = c.i(1, 24);
    if (c.b(1, 800)) x.T = c.i(33000, 70000), x.F = c.i(1, 3), c.label("more than 2^15 times");
    static const std::vector<int64_t> Ns{1, 2, 7, 51, 128, 3067, 1000000, 120000000, 2000000000};
    int64_t N = c.b(1, 3) ? c.u(1, 2000) : c.pick(Ns);
    // tsamp and foff such that N samples fit in a time step
    static const std::vector<double> foffs{2.7939677238464355e-06, 0.00286102294921875, 0.366, 1.0, 2.9296875};
    double foff = c.pick(foffs);
    x.tsamp = ((double)N + c.real(-0.45, 0.45)) / (foff * 1e6);
    x.foff  = c.b() ? foff : -foff;
    double d = c.b(2, 3) ? 2 : c.b() ? 1 : c.real(0.5, 4);
    d = (double)(float)d;
    fill(c, x);
    x.m = gen_mask(c, x.T * x.F);
    bool nt = judge(c, x, N, d);
    if (c.b(1, 4)) { // once more, with a channel that differs in one respect
        switch (c.u(0, 3)) {
        case 0: {
            double foff2 = c.b() ? c.pick(foffs) : foff * c.real(0.5, 2), n = x.tsamp * foff2 * 1e6;
            if (n < 1 || n > 2e9 || std::fabs(n - std::round(n)) > 0.48) return c.nontrivial(nt);
            N = std::llround(n), x.foff = foff2;
            break;
        }
        case 1: x.tsamp = ((double)(N = c.pick(Ns)) + c.real(-0.45, 0.45)) / (foff * 1e6); break;
        case 2: d = (double)(float)c.real(0.5, 4); break;
        default: fill(c, x);
        }
        nt |= judge(c, x, N, d);
        c.label("second channel");
    }
    c.nontrivial(nt);
}
static bool judge(Ctx &c, const Chan &x, int64_t N, double d) {
    auto ref = reference(x, (double)N, d);
    // thresholds among the values that occur
    auto thr = [&](Ctx &c) {
        auto &a = ref[c.u(0, x.F - 1)], &b = ref[c.u(0, x.F - 1)];
        double t = c.b(1, 6) ? c.real(-1, 60) : a.v + (b.v - a.v) * c.real(0, 1);
        if (c.b(1, 8)) t = a.v;
        return (float)t;
    };
    float lower = thr(c), upper = thr(c);
    if (lower > upper && !c.b(1, 6)) std::swap(lower, upper);
    if (!std::isfinite(lower)) lower = 0.1f;
    if (!std::isfinite(upper)) upper = 5;
    int via = c.u(0, 4); // 4: the array function
    int n   = via == DIRECT || via == 4 ? 1 : c.i(1, 2);
    c.note("T ", x.T, " F ", x.F, " N ", N, " d ", d, " lower ", lower, " upper ", upper, " via ", via == 4 ? "array" : via_name(via));
    auto v = channels(c, x, n, [&](Chan &y) { fill(c, y), y.m = gen_mask(c, y.T * y.F); });
    std::vector<coarse_channel> ccs;
    for (auto &y : v) ccs.push_back(build(c, y));
    // the estimator
    {
        bool dflt = d == 2 && c.b(); // 2 is what is meant when nothing is said
        auto sk   = c.b() ? (dflt ? bliss::estimate_spectral_kurtosis(ccs[0]) : bliss::estimate_spectral_kurtosis(ccs[0], (float)d))
                   : dflt ? bliss::estimate_spectral_kurtosis(ccs[0].data(), (int32_t)N, (int32_t)x.T)
                          : bliss::estimate_spectral_kurtosis(ccs[0].data(), (int32_t)N, (int32_t)x.T, (float)d);
        REQUIRE_P("shape", sk.shape() == (Shape{x.F}), "kurtosis of shape ", shape_str(sk.shape()));
        auto g = values(sk);
        for (int64_t f = 0; f < x.F; ++f) {
            if (!ref[f].defined) continue;
            REQUIRE_P("kurtosis", std::fabs(g[f] - ref[f].v) <= ref[f].tol, "fine channel ", f, " has kurtosis ", g[f], " expected ", ref[f].v, " +- ", ref[f].tol);
        }
    }
    int low = 0, high = 0, none = 0;
    auto flag = [&](const Sk &k) {
        if (!k.defined) return 0;
        if (std::fabs(k.v - lower) <= k.tol || std::fabs(k.v - upper) <= k.tol) return -1;
        int f = (k.v < lower ? bliss::low_spectral_kurtosis : 0) | (k.v > upper ? bliss::high_spectral_kurtosis : 0);
        low += f & 2 ? 1 : 0, high += f & 4 ? 1 : 0, none += f == 0;
        return f;
    };
    if (via == 4) {
        auto r = bliss::flag_spectral_kurtosis(ccs[0].data(), N, x.T, (float)d, lower, upper);
        REQUIRE_P("shape", r.numel() == x.F, "flags of shape ", shape_str(r.shape()));
        auto g = values(r);
        for (int64_t f = 0; f < x.F; ++f) {
            int e = flag(ref[f]);
            if (e >= 0) REQUIRE_P("flags", g[f] == e, "fine channel ", f, " with kurtosis ", ref[f].v, " is flagged ", g[f]);
        }
    } else {
        auto out = apply(c, via, ccs, [&](auto q) { return d == 2 ? bliss::flag_spectral_kurtosis(q, lower, upper) : bliss::flag_spectral_kurtosis(q, lower, upper, (float)d); });
        for (int k = 0; k < n; ++k) {
            auto            &y = v[k];
            auto             r = reference(y, (double)N, d);
            std::vector<int> e(y.m.begin(), y.m.end());
            for (int64_t f = 0; f < y.F; ++f) {
                int q = flag(r[f]);
                for (int64_t t = 0; t < y.T; ++t) e[t * y.F + f] = q < 0 ? -1 : e[t * y.F + f] | q;
            }
            expect_mask(out[k], y, e, "flags", "flagged");
            expect_data(out[k], y, "flagged");
            expect_meta(out[k], y, "flagged");
        }
    }
    for (int k = 0; k < n; ++k) expect_untouched(ccs[k], v[k], "flagged");
    if (low) c.label("low");
    if (high) c.label("high");
    if ((double)N * (double)x.T > 2147483647.0) c.label("more than 2^31 samples");
    return (low > 0) + (high > 0) + (none > 0) >= 2;
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "C02";
    s.rule           = "at least two of {low, high, unflagged} occur among the fine channels";
    s.quick_cases    = 30000;
    s.thorough_cases = 600000;
    s.assumptions    = "at least two time samples; fine channels without power have no kurtosis and stay unflagged; values within the rounding of float sums of a threshold are not judged; N up to 2e9; CPU";
    s.facets         = {{"kurtosis", 1, 0, kurtosis}};
    return pbt::run(argc, argv, s);
}

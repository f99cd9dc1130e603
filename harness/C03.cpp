// C03: sigma clipping and magnitude flags mark exactly the outliers.
#include "cc.hpp"
#include "red.hpp"
#include <flaggers/magnitude.hpp>
#include <flaggers/sigmaclip.hpp>
using namespace ccg;

struct Clip {
    std::vector<int> flag;        // 0/1
    bool             sure = true; // no decision depends on rounding
    int              rounds = 0;
};
static double std_err(const red::Stat &s) { return s.var > 0 ? (1e-6 * s.var + 1e-14 * (s.n + 8) * s.meansq) / std::sqrt(s.var) : 1e-7 * std::sqrt(s.meansq) * std::sqrt((double)s.n + 8); }
static Clip reference(const std::vector<double> &d, int iters, double low, double high) {
    Clip r;
    r.flag.assign(d.size(), 0);
    auto st = red::stat(d);
    for (int it = 0; it < iters; ++it) {
        double dev = std::sqrt(st.var), lo = st.mean - low * dev, hi = st.mean + high * dev;
        double tol = 1e-6 * std::fabs(st.mean) + (std::fabs(low) + std::fabs(high)) * (1e-6 * dev + std_err(st)) + 1e-37;
        std::vector<int>    f(d.size());
        std::vector<double> keep;
        for (size_t n = 0; n < d.size(); ++n) {
            if (st.var > 0 && (std::fabs(d[n] - lo) <= tol || std::fabs(d[n] - hi) <= tol)) r.sure = false;
            f[n] = d[n] < lo || d[n] > hi;
            if (!f[n]) keep.push_back(d[n]);
        }
        if (f == r.flag) return r;
        r.flag = f;
        ++r.rounds;
        if (keep.empty()) {
            r.sure = false;
            return r;
        }
        auto ns = red::stat(keep);
        if (std::fabs(ns.mean - st.mean) <= 2e-5 * dev + 1e-6 * std::fabs(st.mean) && std::fabs(std::sqrt(ns.var) - dev) <= 2e-5 * dev + std_err(st) + std_err(ns)) r.sure = false;
        st = ns;
    }
    return r;
}
// samples with outliers on several scales, so that clipping needs several rounds
static std::vector<double> layered(Ctx &c, int64_t n) {
    std::vector<double> v(n);
    pbt::Noise          r(c.seed());
    double              base = c.b() ? 0 : c.real(-20, 100);
    int                 layers = c.u(0, 4);
    for (auto &x : v) x = base + r.normal();
    double mag = 8;
    for (int l = 0; l < layers; ++l, mag *= 9) {
        int k = c.i(1, 3);
        for (int q = 0; q < k; ++q) v[r.range(0, n - 1)] = base + (c.b(2, 3) ? 1 : -1) * mag * (1 + r.uni());
    }
    // as many above as below the mean: clipping leaves the mean where it is and only narrows the spread
    bool mirror = c.b(1, 3);
    if (mirror)
        for (int64_t k = 0; k < n / 2; ++k) v[n - 1 - k] = 2 * base - v[k];
    static const std::vector<double> scales{1, 1e-3, 1e-5, 1e-7, 1e-9, 1e5, 1e9};
    double                           sc = c.pick(scales);
    for (auto &x : v) x = (double)(float)(x * sc);
    c.note("layers ", layers, " base ", base, " scale ", sc, mirror ? " mirrored" : "");
    return v;
}
static std::vector<double> some(Ctx &c, int64_t T, int64_t F) { return c.b(2, 3) ? layered(c, T * F) : gen_data(c, T, F); }

static void gen(Ctx &c, Chan &x) {
    x.T = c.i(1, 16), x.F = c.i(x.T < 3 ? 20 : 4, 40);
    sometimes_big(c, x.T, x.F);
    x.d = some(c, x.T, x.F);
    x.m = gen_mask(c, x.T * x.F);
}

static void sigmaclip(Ctx &c) {
    quiet();
    Chan x;
    gen(c, x);
    int   iters = c.b(1, 12) ? 0 : c.i(1, 8);
    float low = (float)c.real(1, 6), high = (float)c.real(1, 6);
    int   via = c.u(0, 4), n = via == DIRECT || via == 4 ? 1 : c.i(1, 2);
    c.note("T ", x.T, " F ", x.F, " iterations ", iters, " low ", low, " high ", high, " via ", via == 4 ? "array" : via_name(via));
    auto v = channels(c, x, n, [&](Chan &y) { y.d = some(c, y.T, y.F), y.m = gen_mask(c, y.T * y.F); });
    std::vector<coarse_channel> ccs;
    std::vector<Clip>           ref;
    bool                        sure = true;
    for (auto &y : v) {
        ccs.push_back(build(c, y)), ref.push_back(reference(y.d, iters, low, high)), sure = sure && ref.back().sure;
        if (ref.back().rounds > 1) c.label("several rounds");
    }
    if (!sure) {
        c.label("depends on rounding, not judged");
        return;
    }
    int flagged = 0, kept = 0;
    if (via == 4) {
        auto g = values(bliss::flag_sigmaclip(ccs[0].data(), iters, low, high));
        REQUIRE_P("shape", g.size() == x.d.size(), g.size(), " flags");
        for (size_t k = 0; k < g.size(); ++k) {
            REQUIRE_P("flags", g[k] == ref[0].flag[k] * bliss::sigma_clip, "sample ", where(x, k), " = ", x.d[k], " is flagged ", g[k]);
            ref[0].flag[k] ? ++flagged : ++kept;
        }
        // the flags do not depend on the unit of the samples
        auto y = x;
        int  e = c.i(-12, 12);
        for (auto &q : y.d) q = std::ldexp(q, e);
        auto h = values(bliss::flag_sigmaclip(build(c, y).data(), iters, low, high));
        REQUIRE_P("scale", h == g, "scaling all samples by 2^", e, " changes the flags");
    } else {
        auto out = apply(c, via, ccs, [&](auto q) { return bliss::flag_sigmaclip(q, iters, low, high); });
        for (int k = 0; k < n; ++k) {
            std::vector<int> e(v[k].m.begin(), v[k].m.end());
            for (size_t q = 0; q < e.size(); ++q) {
                if (ref[k].flag[q]) e[q] |= bliss::sigma_clip;
                ref[k].flag[q] ? ++flagged : ++kept;
            }
            expect_mask(out[k], v[k], e, "flags", "clipped");
            expect_data(out[k], v[k], "clipped");
            expect_meta(out[k], v[k], "clipped");
        }
    }
    for (int k = 0; k < n; ++k) expect_untouched(ccs[k], v[k], "clipped");
    c.nontrivial(flagged > 0 && kept > 0);
}

static void magnitude(Ctx &c) {
    quiet();
    Chan x;
    x.T = c.i(2, 16), x.F = c.i(8, 60);
    sometimes_big(c, x.T, x.F);
    auto fill = [&](Chan &y) {
        y.d = some(c, y.T, y.F);
        y.m = gen_mask(c, y.T * y.F);
    };
    fill(x);
    bool  dflt = c.b();
    float thr  = (float)(c.b() ? c.pick(x.d) : x.d[0] + (c.pick(x.d) - x.d[0]) * c.real(0, 1));
    int   via = c.u(0, dflt ? 3 : 4), n = via == DIRECT || via == 4 ? 1 : c.i(1, 2);
    c.note("T ", x.T, " F ", x.F, dflt ? " default threshold" : " threshold ", thr, " via ", via == 4 ? "array" : via_name(via));
    auto v = channels(c, x, n, fill);
    std::vector<coarse_channel> ccs;
    for (auto &y : v) ccs.push_back(build(c, y));
    int flagged = 0, kept = 0;
    auto flag = [&](const Chan &y) {
        std::vector<int> e(y.d.size());
        auto             st  = red::stat(y.d);
        double           dev = std::sqrt(st.var), t = st.mean + 10 * dev, tol = 1e-6 * std::fabs(st.mean) + 10 * (1e-6 * dev + std_err(st)) + 1e-37;
        for (size_t k = 0; k < e.size(); ++k) {
            if (dflt) e[k] = st.var > 0 ? (std::fabs(y.d[k] - t) <= tol ? -1 : y.d[k] > t ? bliss::magnitude : 0) : -1;
            else e[k] = y.d[k] > (double)thr ? bliss::magnitude : 0;
            e[k] > 0 ? ++flagged : ++kept;
        }
        return e;
    };
    if (via == 4) {
        auto g = values(bliss::flag_magnitude(ccs[0].data(), thr));
        auto e = flag(x);
        REQUIRE_P("shape", g.size() == e.size(), g.size(), " flags");
        for (size_t k = 0; k < g.size(); ++k) REQUIRE_P("flags", g[k] == e[k], "sample ", where(x, k), " = ", x.d[k], " is flagged ", g[k]);
    } else {
        auto out = dflt ? apply(c, via, ccs, [&](auto q) { return bliss::flag_magnitude(q); }) : apply(c, via, ccs, [&](auto q) { return bliss::flag_magnitude(q, thr); });
        for (int k = 0; k < n; ++k) {
            auto e = flag(v[k]);
            for (size_t q = 0; q < e.size(); ++q)
                if (e[q] >= 0) e[q] |= v[k].m[q];
            expect_mask(out[k], v[k], e, "flags", "flagged");
            expect_data(out[k], v[k], "flagged");
            expect_meta(out[k], v[k], "flagged");
        }
    }
    for (int k = 0; k < n; ++k) expect_untouched(ccs[k], v[k], "flagged");
    if (dflt && flagged) c.label("default threshold exceeded");
    c.nontrivial(flagged > 0 && kept > 0);
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "C03";
    s.rule           = "at least one sample is flagged and one is not";
    s.quick_cases    = 30000;
    s.thorough_cases = 600000;
    s.assumptions    = "finite samples; clipping factors of at least 1 (something is always kept); a case where a sample is within float rounding of a threshold is not judged; CPU";
    s.facets         = {{"sigmaclip", 3, 0, sigmaclip}, {"magnitude", 2, 0, magnitude}};
    return pbt::run(argc, argv, s);
}

// C06: normalization and passband equalization.
#include "cc.hpp"
#include <preprocess/normalize.hpp>
#include <preprocess/passband_static_equalize.hpp>
using namespace ccg;

static void expect_scaled(coarse_channel &cc, const Chan &x, const std::function<double(size_t)> &by, const std::string &w) {
    auto v = data_of(cc, x, w);
    for (size_t n = 0; n < v.size(); ++n) {
        double e = x.d[n] / by(n);
        REQUIRE_P("value", pbt::close(v[n], e, 4e-7, 1e-43), w, ": sample ", where(x, n), " is ", v[n], " expected ", x.d[n], " / ", by(n), " = ", e);
    }
}
static void preprocess(Ctx &c) {
    quiet();
    Chan x;
    x.T = c.i(1, 8), x.F = c.i(1, 40);
    sometimes_big(c, x.T, x.F);
    auto fill = [&](Chan &y) {
        y.d = gen_data(c, y.T, y.F), y.m = gen_mask(c, y.T * y.F);
        if (c.b(1, 6)) for (auto &q : y.d) q = -q;
        if (*std::max_element(y.d.begin(), y.d.end()) == 0) y.d[0] = 3;
    };
    fill(x);
    bool norm = c.b(1, 3), file = !norm && c.b(1, 3);
    int  via = c.u(0, 3), n = via == DIRECT ? 1 : c.i(1, 3);
    auto v = channels(c, x, n, fill);
    std::vector<coarse_channel> ccs;
    for (auto &y : v) ccs.push_back(build(c, y));
    c.note(norm ? "normalize" : file ? "equalize from file" : "equalize", " T ", x.T, " F ", x.F, " via ", via_name(via), " channels ", n);
    std::vector<double> h(x.F);
    pbt::Noise          r(c.seed());
    int                 hk = c.u(0, 2);
    for (auto &q : h) q = (double)(float)(hk == 0 ? 1 : hk == 1 ? 0.01 + r.uni() : std::pow(10.0, r.uni() * 8 - 4));
    if (hk == 0 && x.F > 2) h[c.u(0, x.F - 1)] = 0.5;
    std::shared_ptr<ndarray> hb;
    std::vector<double>      hc;
    K                        kind = norm || c.b(2, 3) ? K::f32 : c.b() ? K::i32 : K::u8;
    if (kind != K::f32) {
        c.note("response of type ", name(kind));
        for (auto &q : h) q = std::min(std::ceil(q), kind == K::u8 ? 255.0 : 1e9);
    }
    ndarray H = lay_out(c, kind, {x.F}, h, hb, hc);
    std::string              path = pbt::scratch_dir() + "/response.f32";
    if (file) bland::write_to_file(H, path);
    auto out = apply(c, via, ccs, [&](auto q) {
        if (norm) return bliss::normalize(q);
        if (file) return kind != K::f32 ? bliss::equalize_passband_filter(q, std::string_view(path), dtype_of(kind)) : bliss::equalize_passband_filter(q, std::string_view(path));
        return bliss::equalize_passband_filter(q, H);
    });
    for (int k = 0; k < n; ++k) {
        auto  &y  = v[k];
        double mx = *std::max_element(y.d.begin(), y.d.end());
        for (int again = 0; again < 2; ++again) expect_scaled(out[k], y, [&](size_t q) { return norm ? mx : h[q % y.F]; }, again ? "read again" : "processed");
        if (norm && mx > 0) {
            auto q = data_of(out[k], y, "processed");
            REQUIRE_P("maximum", *std::max_element(q.begin(), q.end()) == 1, "the largest normalized sample is ", *std::max_element(q.begin(), q.end()));
        }
        expect_mask(out[k], y, std::vector<int>(y.m.begin(), y.m.end()), "flags", "processed");
        expect_meta(out[k], y, "processed");
        expect_untouched(ccs[k], y, "processed");
    }
    auto hv = values(H), hv2 = values(*hb);
    REQUIRE_P("response", hv == h && hv2 == hc, "the response given was changed");
    c.label(norm ? "normalize" : "equalize");
    c.nontrivial(x.T * x.F > 1);
}
// a response that does not fit the channel is refused, when it is given or when the samples are asked for
static void wrong_response(Ctx &c) {
    quiet();
    Chan x;
    x.T = c.i(1, 6), x.F = c.i(2, 20);
    x.d = gen_data(c, x.T, x.F), x.m = gen_mask(c, x.T * x.F);
    int64_t n = c.i(2, 24);
    if (n == x.F) n = x.F + 1;
    auto cc = build(c, x);
    auto p  = gen_dense(c, K::f32, {n});
    c.note("F ", x.F, " response of ", n);
    bool threw = false;
    try {
        auto o = bliss::equalize_passband_filter(cc, p.nd);
        o.data();
    } catch (const std::exception &) { threw = true; }
    REQUIRE_P("wrong-length", threw, "a response of ", n, " values was applied to ", x.F, " channels");
    expect_untouched(cc, x, "refused");
    c.nontrivial();
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "C06";
    s.rule           = "more than one sample; every wrong response";
    s.quick_cases    = 30000;
    s.thorough_cases = 600000;
    s.assumptions    = "channels whose maximum is not zero; non-zero responses; float rounding of one division; CPU";
    s.facets         = {{"preprocess", 8, 0, preprocess}, {"wrong_response", 1, 0, wrong_response}};
    return pbt::run(argc, argv, s);
}

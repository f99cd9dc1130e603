// C07: power spectrum helper, filter design and channelizer response.
#include "cc.hpp"
#include <bland/ops/ops_frequency.hpp>
#include <preprocess/passband_static_equalize.hpp>
#include <complex>
using namespace ccg;
using arr::values;

static void print_off() { quiet(); }

static std::vector<double> power(const std::vector<double> &x, double *energy = nullptr) { // centred on zero frequency
    int64_t             N = x.size();
    std::vector<double> p(N);
    double              en = 0;
    for (auto v : x) en += v * v;
    for (int64_t k = 0; k < N; ++k) {
        int64_t              f = k - N / 2;
        std::complex<double> s = 0;
        for (int64_t n = 0; n < N; ++n) {
            int64_t m = ((f * n) % N + N) % N;
            if (x[n] != 0) s += x[n] * std::polar(1.0, -2 * M_PI * (double)m / (double)N);
        }
        p[k] = std::norm(s);
    }
    if (energy) *energy = en;
    return p;
}

static void spectrum(Ctx &c) {
    print_off();
    int64_t N = c.b(1, 3) ? c.i(1, 8) : c.i(1, 200);
    static const std::vector<double> scales{1, 1e-3, 1e4};
    double     sc = c.pick(scales);
    int        kind = c.u(0, 3);
    pbt::Noise r(c.seed());
    std::vector<double> v(N);
    int64_t    at = c.u(0, N - 1);
    for (int64_t n = 0; n < N; ++n) v[n] = (double)(float)(sc * (kind == 0 ? r.normal() : kind == 1 ? (n == at) : kind == 2 ? std::cos(2 * M_PI * at * n / N) : 1 + 0.1 * r.normal()));
    std::shared_ptr<ndarray> base;
    std::vector<double>      cells;
    ndarray x = lay_out(c, K::f32, {N}, v, base, cells);
    c.note("N ", N, " kind ", kind, " scale ", sc);
    auto P = bland::fft_shift_mag_square(x);
    REQUIRE_P("shape", P.shape() == (Shape{N}), "power spectrum of shape ", shape_str(P.shape()));
    double en;
    auto   e = power(v, &en);
    auto   g = values(P);
    double top = en * N; // largest possible power
    for (int64_t k = 0; k < N; ++k) REQUIRE_P("power", std::fabs(g[k] - e[k]) <= 2e-6 * top * 1e-1 + 1e-5 * e[k], "power at ", k - N / 2, " cycles of ", N, " is ", g[k], " expected ", e[k], " (bound ", top, ")");
    REQUIRE_P("operand", values(x) == v && values(*base) == cells, "the input was changed");
    c.label(N % 2 ? "odd" : "even");
    c.nontrivial(N > 2);
}

static double window(int n, int N) { return N == 1 ? 1 : 0.54 - 0.46 * std::cos(2 * M_PI * n / (N - 1)); }
static std::vector<double> lowpass(int taps, double fc) {
    std::vector<double> h(taps);
    for (int n = 0; n < taps; ++n) {
        double t = fc * (n - (taps - 1) / 2.0), q = M_PI * t;
        h[n] = (q == 0 ? 1 : std::sin(q) / q) * window(n, taps);
    }
    return h;
}
static void filter_of(Ctx &c, int taps, float fc) {
    c.note("taps ", taps, " fc ", fc);
    auto h = bland::ndarray(bliss::firdes(taps, fc, "hamming"));
    REQUIRE_P("shape", h.shape() == (Shape{taps}), "filter of shape ", shape_str(h.shape()));
    auto g = values(h);
    auto e = lowpass(taps, fc);
    for (int n = 0; n < taps; ++n) {
        REQUIRE_P("taps", std::fabs(g[n] - e[n]) <= 1e-5, "tap ", n, " of ", taps, " is ", g[n], " expected ", e[n]);
        REQUIRE_P("symmetry", std::fabs(g[n] - g[taps - 1 - n]) <= 1e-5, "tap ", n, " is ", g[n], ", its mirror image ", g[taps - 1 - n]);
    }
}
static void filter(Ctx &c) {
    print_off();
    int   taps = c.b(1, 4) ? c.i(1, 4) : c.i(1, 300);
    float fc   = c.b() ? 1.0f / (float)c.i(1, 64) : (float)c.real(0.001, 1);
    c.nontrivial(taps > 2);
    filter_of(c, taps, fc);
    if (c.b(1, 4)) filter_of(c, taps, (float)c.real(0.001, 1)), filter_of(c, c.i(1, 300), fc);
}

static void response_of(Ctx &c, int fine, int coarse, int tpc) {
    c.note("fine ", fine, " coarse ", coarse, " taps per channel ", tpc);
    auto R = bliss::gen_coarse_channel_response(fine, coarse, tpc, "hamming", "cpu");
    REQUIRE_P("shape", R.shape() == (Shape{fine}), "response of shape ", shape_str(R.shape()), " for ", fine, " fine channels");
    int64_t             N = (int64_t)fine * coarse;
    std::vector<double> h = lowpass(tpc * coarse, (double)(1.0f / (float)coarse));
    h.resize(N, 0.0);
    double en;
    auto   P = power(h, &en);
    // every whole coarse channel of the band, zero frequency in the middle of one, adds up
    std::vector<double> e(fine, 0.0);
    int64_t             dc = N / 2, first = ((dc - fine / 2) % fine + fine) % fine;
    for (int64_t k = first; k + fine <= N; k += fine)
        for (int f = 0; f < fine; ++f) e[f] += P[k + f];
    double mx = *std::max_element(e.begin(), e.end());
    auto   g  = values(R);
    double gm = 0;
    for (int f = 0; f < fine; ++f) {
        REQUIRE_P("response", std::fabs(g[f] - e[f] / mx) <= 2e-5, "fine channel ", f, " has response ", g[f], " expected ", e[f] / mx);
        gm = std::max(gm, g[f]);
        // the fine channels at offset +f and -f of the centre respond alike
        int mirror = 2 * (fine / 2) - f;
        if (mirror < fine) REQUIRE_P("symmetry", std::fabs(g[f] - g[mirror]) <= 4e-5, "fine channel ", f, " responds ", g[f], ", its mirror image ", g[mirror]);
    }
    REQUIRE_P("normalized", pbt::close(gm, 1, 1e-6, 0), "largest response ", gm);
    c.label(coarse % 2 ? "odd coarse" : "even coarse");
    c.label(fine % 2 ? "odd fine" : "even fine");
}
// what was computed before has no part in it
static void response(Ctx &c) {
    print_off();
    int fine = c.b(1, 3) ? c.i(1, 6) : c.i(1, 24), coarse = c.i(1, 12);
    int tpc  = c.i(1, std::min(fine, 6));
    c.nontrivial(fine > 2 && coarse > 1);
    response_of(c, fine, coarse, tpc);
    for (int k = c.b(1, 3) ? c.i(1, 2) : 0; k > 0; --k) { // another one, that differs in one respect
        int f = fine, n = coarse, t = tpc;
        switch (c.u(0, 2)) {
        case 0: t = c.i(1, std::min(f, 6)); break;
        case 1: n = c.i(1, 12); break;
        default: f = c.i(t, 24); break;
        }
        c.note("then");
        response_of(c, f, n, t);
    }
}

static void rejected(Ctx &c) {
    print_off();
    int how = c.u(0, 2);
    c.note("how ", how);
    bool threw = false;
    try {
        if (how == 0) bland::fft_shift_mag_square(gen_dense(c, c.b() ? K::i32 : K::u8, {c.i(1, 9)}).nd);
        else if (how == 1) {
            auto p = gen_dense(c, K::f32, {c.i(2, 9), c.i(2, 9)});
            auto r = bland::fft_shift_mag_square(p.nd); // along the last axis, if it is supported at all
            for (int64_t i = 0; i < p.m.shape[0]; ++i) {
                std::vector<double> row(p.m.buf->begin() + i * p.m.shape[1], p.m.buf->begin() + (i + 1) * p.m.shape[1]);
                auto                e = power(row);
                for (int64_t k = 0; k < p.m.shape[1]; ++k) REQUIRE_P("rank", std::fabs(at(r, {i, k}) - e[k]) <= 1e-3 * (1 + e[k]), "two dimensional input is not transformed by rows");
            }
            threw = true;
        } else {
            int fine = c.i(1, 6), coarse = c.i(1, 6);
            bliss::gen_coarse_channel_response(fine, coarse, fine + c.i(1, 3), "hamming", "cpu"); // more taps than the band has channels
        }
    } catch (const std::exception &) { threw = true; }
    REQUIRE_P("rejected", threw, "accepted");
    c.nontrivial();
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "C07";
    s.rule           = "spectrum and filter: more than two points; response: more than two fine and more than one coarse channel; rejected: every case";
    s.quick_cases    = 16000;
    s.thorough_cases = 300000;
    s.assumptions    = "float32 real input up to 300 points; Hamming windowed sinc prototype (the only window there is); responses of up to 24 x 12 channels; tolerance 2e-7 of the largest possible power";
    s.facets         = {{"spectrum", 3, 0, spectrum}, {"filter", 2, 0, filter}, {"response", 3, 0, response}, {"rejected", 1, 0, rejected}};
    return pbt::run(argc, argv, s);
}

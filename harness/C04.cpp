// C04: flags accumulate over any sequence of flaggers.
#include "cc.hpp"
#include <flaggers/filter_rolloff.hpp>
#include <flaggers/magnitude.hpp>
#include <flaggers/sigmaclip.hpp>
#include <flaggers/spectral_kurtosis.hpp>
using namespace ccg;

struct Step {
    int   kind;
    float a, b;
    int   n;
    std::string str() const {
        static const char *nm[] = {"rolloff", "magnitude", "magnitude(default)", "sigmaclip", "kurtosis"};
        std::ostringstream o;
        o << nm[kind] << "(" << a << "," << b << "," << n << ")";
        return o.str();
    }
};
template <class T> static T run(const Step &s, T x) {
    switch (s.kind) {
    case 0: return bliss::flag_filter_rolloff(x, s.a);
    case 1: return bliss::flag_magnitude(x, s.a);
    case 2: return bliss::flag_magnitude(x);
    case 3: return bliss::flag_sigmaclip(x, s.n, s.a, s.b);
    default: return bliss::flag_spectral_kurtosis(x, s.a, s.b, 2.0f);
    }
}
static Step gen_step(Ctx &c, const Chan &x) {
    Step s{(int)c.u(0, 4), 0, 0, 0};
    if (s.kind == 0) s.a = c.b(1, 5) ? (float)c.real(0.4, 1) : (float)c.real(0, 0.4);
    else if (s.kind == 1) s.a = (float)c.pick(x.d);
    else if (s.kind == 3) s.a = (float)c.real(1, 4), s.b = (float)c.real(1, 4), s.n = c.i(1, 5);
    else if (s.kind == 4) s.a = (float)c.real(0, 40), s.b = s.a + (float)c.real(0, 60);
    return s;
}

static void sequence(Ctx &c) {
    quiet();
    Chan x;
    x.T = c.i(2, 8), x.F = c.i(3, 24);
    int  via = c.u(0, 3), nch = via == DIRECT ? 1 : c.i(1, 3);
    auto fill = [&](Chan &y) { y.d = gen_data(c, y.T, y.F), y.m = gen_mask(c, y.T * y.F); };
    fill(x);
    auto v = channels(c, x, nch, fill);
    std::vector<coarse_channel> ccs;
    for (auto &y : v) ccs.push_back(build(c, y));
    std::vector<Step> steps;
    int               n = c.i(1, 6);
    for (int k = 0; k < n; ++k) steps.push_back(k > 0 && c.b(1, 3) ? c.pick(steps) : gen_step(c, x));
    c.note("T ", x.T, " F ", x.F, " channels ", nch, " via ", via_name(via));
    for (auto &s : steps) c.note(s.str());
    // what each step assigns on its own, to a channel without flags
    std::vector<std::vector<std::vector<double>>> own(nch);
    for (int k = 0; k < nch; ++k)
        for (auto &s : steps) {
            auto y = v[k];
            std::fill(y.m.begin(), y.m.end(), 0);
            auto p = make(K::f32, {y.T, y.F}, y.d), q = make(K::u8, {y.T, y.F}, std::vector<double>(y.d.size(), 0.0));
            coarse_channel cc(p.nd, q.nd, y.fch1, y.foff, (int64_t)1, (int64_t)32, y.F, y.T, (int64_t)1, y.name, 1.0, 2.0, (int64_t)3, y.tsamp, y.tstart, (int64_t)1, 0.5, 0.25, y.number);
            auto r = run(s, cc);
            own[k].push_back(mask_of(r, y, s.str()));
            static const int bits[] = {1, 16, 16, 32, 6};
            for (auto f : own[k].back()) REQUIRE_P("foreign-flag", ((int)f & ~bits[s.kind]) == 0, s.str(), " sets flags ", f);
        }
    std::vector<coarse_channel> out;
    std::vector<std::vector<coarse_channel>> mids; // holders of intermediate results (direct)
    if (via == DIRECT) {
        auto cc = ccs[0];
        for (auto &s : steps) {
            mids.push_back({cc});
            if (c.b(1, 3)) cc.mask(); // reading in between makes no difference
            cc = run(s, cc);
        }
        out.push_back(cc);
    } else {
        out = apply(c, via, ccs, [&](auto q) {
            for (auto &s : steps) q = run(s, q);
            return q;
        });
    }
    bool several = false, again = false;
    for (int k = 0; k < nch; ++k) {
        std::vector<int> e(v[k].m.begin(), v[k].m.end());
        for (size_t j = 0; j < steps.size(); ++j) {
            if (via == DIRECT) { // the state before step j, read after all steps ran
                expect_mask(mids[j][0], v[k], e, "intermediate", "before step " + std::to_string(j));
            }
            for (size_t q = 0; q < e.size(); ++q) {
                int f = (int)own[k][j][q];
                if (f & e[q]) again = true;
                if (f && (e[q] & ~f)) several = true;
                e[q] |= f;
            }
        }
        for (int r = 0; r < 2; ++r) expect_mask(out[k], v[k], e, "union", r ? "read again" : "after all steps");
        expect_data(out[k], v[k], "after all steps");
        expect_meta(out[k], v[k], "after all steps");
        expect_untouched(ccs[k], v[k], "after all steps");
    }
    if (again) c.label("flag set again");
    if (several) c.label("several flags on a sample");
    c.nontrivial(again || several);
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "C04";
    s.rule           = "some sample gets a flag it already has, or two different flags";
    s.quick_cases    = 20000;
    s.thorough_cases = 400000;
    s.assumptions    = "sequences of up to 6 steps with the five flaggers; what a single step assigns is judged by C01-C03; CPU";
    s.facets         = {{"sequence", 1, 0, sequence}};
    return pbt::run(argc, argv, s);
}

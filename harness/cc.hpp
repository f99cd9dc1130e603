// Generated coarse channels, and ways to apply a processing step to them (directly or through a scan, observation or
// cadence), used by the flagging, estimation and preprocessing harnesses.
#pragma once
#include "fb.hpp"
#include <core/cadence.hpp>
#include <core/flag_values.hpp>
#include <core/scan.hpp>

namespace ccg {
using namespace fb;
using namespace arr;
using bliss::coarse_channel;

struct Chan {
    int64_t              T = 1, F = 1;
    std::vector<double>  d; // samples, exactly representable as float
    std::vector<uint8_t> m; // flags already present
    double               fch1 = 8000, foff = -2.7939677238464355e-06, tsamp = 18.253611008, tstart = 59000;
    int64_t              number = 0;
    std::string          name = "CH";
    // what the channel was made of, to see whether anything wrote to it
    std::shared_ptr<ndarray> data_base, mask_base;
    std::vector<double>      data_cells;
    std::vector<double>      mask_cells;
};

// an ndarray with the given elements: dense, or a strided window or transposed-like view of a larger array
inline ndarray lay_out(Ctx &c, K k, const Shape &s, const std::vector<double> &v, std::shared_ptr<ndarray> &base, std::vector<double> &cells) {
    if (c.b(2, 3)) {
        auto p = make(k, s, v);
        base   = p.base;
        cells  = v;
        return p.nd;
    }
    Shape big = s;
    Shape off(s.size()), st(s.size());
    for (size_t i = 0; i < s.size(); ++i) st[i] = c.u(1, 2), off[i] = c.u(0, 2), big[i] = off[i] + s[i] * st[i] + c.u(0, 2);
    cells.assign(numel(big), k == K::u8 ? 77 : 1.0e6);
    Shape ix(s.size(), 0);
    size_t n = 0;
    do {
        int64_t lin = 0;
        for (size_t i = 0; i < s.size(); ++i) lin = lin * big[i] + off[i] + ix[i] * st[i];
        cells[lin] = v[n++];
    } while (next(ix, s));
    auto p  = make(k, big, cells);
    base    = p.base;
    ndarray x = p.nd;
    for (size_t i = 0; i < s.size(); ++i) x = bland::slice(x, (int64_t)i, off[i], off[i] + s[i] * st[i], st[i]);
    c.label("strided");
    return x;
}

inline coarse_channel build(Ctx &c, Chan &x) {
    Shape   s{x.T, x.F};
    ndarray d = lay_out(c, K::f32, s, x.d, x.data_base, x.data_cells);
    ndarray m = lay_out(c, K::u8, s, std::vector<double>(x.m.begin(), x.m.end()), x.mask_base, x.mask_cells);
    if (c.b(1, 3)) { // read on demand, as from a file
        c.label("on demand");
        return coarse_channel(std::function<ndarray()>([d] { return d; }), std::function<ndarray()>([m] { return m; }), x.fch1, x.foff, (int64_t)1, (int64_t)32, x.F, x.T, (int64_t)1, x.name, 1.0, 2.0, (int64_t)3,
                              x.tsamp, x.tstart, (int64_t)1, 0.5, 0.25, x.number);
    }
    return coarse_channel(d, m, x.fch1, x.foff, (int64_t)1, (int64_t)32, x.F, x.T, (int64_t)1, x.name, 1.0, 2.0, (int64_t)3, x.tsamp, x.tstart, (int64_t)1, 0.5, 0.25, x.number);
}

inline std::vector<double> data_of(coarse_channel &cc, const Chan &x, const std::string &w) {
    auto d = cc.data();
    REQUIRE_P("shape", d.shape() == (Shape{x.T, x.F}), w, ": samples of shape ", shape_str(d.shape()));
    REQUIRE_P("type", d.dtype() == dt(dt::float32), w, ": samples are not float32");
    return values(d);
}
inline std::vector<double> mask_of(coarse_channel &cc, const Chan &x, const std::string &w) {
    auto d = cc.mask();
    REQUIRE_P("shape", d.shape() == (Shape{x.T, x.F}), w, ": flags of shape ", shape_str(d.shape()));
    REQUIRE_P("type", d.dtype() == dt(dt::uint8), w, ": flags are not uint8");
    return values(d);
}
inline std::string where(const Chan &x, size_t n) { return "(time " + std::to_string(n / x.F) + ", channel " + std::to_string(n % x.F) + ")"; }

inline void expect_meta(coarse_channel &cc, const Chan &x, const std::string &w) {
    REQUIRE_P("metadata", cc.fch1() == x.fch1 && cc.foff() == x.foff && cc.tsamp() == x.tsamp && cc.tstart() == x.tstart && cc.nchans() == x.F && cc.ntsteps() == x.T && cc.source_name() == x.name, w, ": metadata of the channel changed");
}
inline void expect_data(coarse_channel &cc, const Chan &x, const std::string &w) {
    auto v = data_of(cc, x, w);
    for (size_t n = 0; n < v.size(); ++n) REQUIRE_P("samples", v[n] == x.d[n] || (v[n] != v[n] && x.d[n] != x.d[n]), w, ": sample ", where(x, n), " is ", v[n], ", was ", x.d[n]);
}
// expected flags: -1 where the definition does not decide within rounding
inline void expect_mask(coarse_channel &cc, const Chan &x, const std::vector<int> &e, const std::string &key, const std::string &w) {
    auto v = mask_of(cc, x, w);
    for (size_t n = 0; n < v.size(); ++n)
        if (e[n] >= 0) REQUIRE_P(key, v[n] == e[n], w, ": flags at ", where(x, n), " are ", v[n], " expected ", e[n], " (flags before ", +x.m[n], ", sample ", x.d[n], ")");
}
inline bool same(double a, double b) { return a == b || (a != a && b != b); }
inline bool same(const std::vector<double> &a, const std::vector<double> &b) {
    if (a.size() != b.size()) return false;
    for (size_t n = 0; n < a.size(); ++n)
        if (!same(a[n], b[n])) return false;
    return true;
}
// neither the channel the step was applied to nor the memory behind it changed
inline void expect_untouched(coarse_channel &cc, Chan &x, const std::string &w) {
    expect_meta(cc, x, w);
    expect_data(cc, x, w + " (source)");
    expect_mask(cc, x, std::vector<int>(x.m.begin(), x.m.end()), "source-flags", w + " (source)");
    auto a = values(*x.data_base), b = values(*x.mask_base);
    for (size_t n = 0; n < a.size(); ++n) REQUIRE_P("memory", same(a[n], x.data_cells[n]), w, ": memory of the source samples changed");
    for (size_t n = 0; n < b.size(); ++n) REQUIRE_P("memory", b[n] == x.mask_cells[n], w, ": memory of the source flags changed");
}

// Applies op through one of the interfaces to each channel; returns the processed channels.  The sources are checked.
enum Via { DIRECT, SCAN, OBSERVATION, CADENCE };
inline const char *via_name(int v) { return v == 0 ? "channel" : v == 1 ? "scan" : v == 2 ? "observation" : "cadence"; }

inline std::vector<Chan> channels(Ctx &c, const Chan &first, int n, const std::function<void(Chan &)> &fill) {
    std::vector<Chan> v;
    for (int k = 0; k < n; ++k) {
        Chan x   = first;
        x.number = k;
        x.fch1   = first.fch1 + first.foff * (double)(k * x.F);
        if (k > 0) fill(x);
        v.push_back(x);
    }
    return v;
}
inline bliss::scan scan_of(std::vector<coarse_channel> &ccs) {
    std::map<int, std::shared_ptr<coarse_channel>> m;
    for (size_t k = 0; k < ccs.size(); ++k) m[(int)k] = std::make_shared<coarse_channel>(ccs[k]);
    return bliss::scan(m);
}

template <class Op> std::vector<coarse_channel> apply(Ctx &c, int via, std::vector<coarse_channel> &ccs, Op op) {
    std::vector<coarse_channel> out;
    if (via == DIRECT) {
        for (auto &x : ccs) out.push_back(op(x));
        return out;
    }
    auto        sc = scan_of(ccs);
    bliss::scan r  = sc;
    if (via == SCAN) r = op(sc);
    else if (via == OBSERVATION) {
        auto o = bliss::observation_target(std::vector<bliss::scan>{sc});
        auto q = op(o);
        REQUIRE_P("structure", q._scans.size() == 1, "the observation has ", q._scans.size(), " scans");
        r = q._scans[0];
    } else {
        auto o = bliss::cadence(std::vector<bliss::observation_target>{bliss::observation_target(std::vector<bliss::scan>{sc})});
        auto q = op(o);
        REQUIRE_P("structure", q._observations.size() == 1 && q._observations[0]._scans.size() == 1, "the cadence changed structure");
        r = q._observations[0]._scans[0];
    }
    std::vector<int> order(ccs.size());
    std::iota(order.begin(), order.end(), 0);
    if (ccs.size() > 1 && c.b()) std::reverse(order.begin(), order.end());
    std::vector<std::shared_ptr<coarse_channel>> got(ccs.size());
    for (int k : order) got[k] = r.read_coarse_channel(k);
    for (auto &g : got) out.push_back(*g);
    // the scan it came from is as it was
    for (size_t k = 0; k < ccs.size(); ++k)
        if (c.b(1, 3)) {
            auto a = sc.read_coarse_channel((int)k);
            auto x = values(a->data()), y = values(ccs[k].data()), m1 = values(a->mask()), m2 = values(ccs[k].mask());
            REQUIRE_P("source-scan", same(x, y) && same(m1, m2), "the scan itself now reads channel ", k, " differently");
        }
    return out;
}

inline std::vector<uint8_t> gen_mask(Ctx &c, int64_t n) {
    std::vector<uint8_t> m(n, 0);
    int how = c.u(0, 3);
    static const std::vector<int> flags{1, 2, 4, 16, 32, 8, 64, 128};
    if (how == 0) return m;
    pbt::Noise r(c.seed());
    for (auto &x : m) {
        if (how == 1) x = r.range(0, 3) == 0 ? flags[r.range(0, 7)] : 0;
        else if (how == 2) x = (uint8_t)r.range(0, 255);
        else
            for (int f : flags)
                if (r.range(0, 2) == 0) x |= f;
    }
    c.label("prior flags");
    return m;
}
// now and then more channels, or times, than fit into 15 bits
inline void sometimes_big(Ctx &c, int64_t &T, int64_t &F) {
    if (!c.b(1, 800)) return;
    int64_t n = c.i(33000, 70000), m = c.i(1, 3);
    if (c.b()) T = n, F = m;
    else T = m, F = n;
    c.label(T > F ? "more than 2^15 times" : "more than 2^15 channels");
}
// samples like those of a spectrometer: chi-squared noise, flat values, few levels, outliers, scaled
inline std::vector<double> gen_data(Ctx &c, int64_t T, int64_t F, int kind = -1) {
    std::vector<double> v(T * F);
    if (kind < 0) kind = c.u(0, 4);
    static const std::vector<double> scales{1, 1e-3, 1e4, 3e9, 1e-6, 7.5};
    double     sc = c.pick(scales);
    pbt::Noise r(c.seed());
    int        nout = kind == 3 ? c.i(1, 6) : 0;
    for (auto &x : v) {
        if (kind == 0) x = (double)r.range(0, 8);
        else if (kind == 1) { double s = 0; for (int k = 0; k < 2; ++k) s += -std::log(1 - r.uni()); x = s; }
        else if (kind == 2) x = 50 + r.normal();
        else if (kind == 3) x = 10 + r.normal();
        else x = r.range(0, 19) == 0 ? r.uni() * 30 : 1 + 0.05 * r.normal();
    }
    for (int k = 0; k < nout; ++k) v[r.range(0, T * F - 1)] = c.b(1, 4) ? -50 : 10 + std::pow(10.0, r.uni() * 4);
    for (auto &x : v) x = (double)(float)(x * sc);
    c.note("data kind ", kind, " scale ", sc);
    return v;
}
} // namespace ccg

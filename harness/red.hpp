// Reference reductions shared by A04 and A05.
#pragma once
#include "arr.hpp"
#include <algorithm>

namespace red {
using namespace arr;

struct Groups {
    Shape                            out;   // result shape
    std::vector<std::vector<size_t>> items; // for each result element the row-major positions reduced in to it
};
inline Groups groups(const Shape &s, const std::vector<int64_t> &axes) {
    Groups            g;
    std::vector<bool> red(s.size(), axes.empty());
    for (auto a : axes) red[a] = true;
    for (size_t d = 0; d < s.size(); ++d)
        if (!red[d]) g.out.push_back(s[d]);
    if (g.out.empty()) g.out = {1};
    g.items.resize(numel(g.out));
    Shape  ix(s.size(), 0);
    size_t lin = 0;
    do {
        size_t o = 0;
        for (size_t d = 0; d < s.size(); ++d)
            if (!red[d]) o = o * s[d] + ix[d];
        g.items[o].push_back(lin++);
    } while (next(ix, s));
    return g;
}
inline std::vector<int64_t> gen_axes(Ctx &c, size_t rank) {
    std::vector<int64_t> axes;
    if (c.b(1, 4)) return axes;
    for (size_t d = 0; d < rank; ++d)
        if (c.b()) axes.push_back(d);
    if (axes.empty()) axes.push_back(c.u(0, rank - 1));
    if (axes.size() > 1 && c.b(1, 3)) std::swap(axes[c.u(0, axes.size() - 1)], axes[c.u(0, axes.size() - 1)]);
    return axes;
}

struct Stat {
    size_t n = 0;
    double mean = 0, var = 0, meansq = 0, sumabs = 0;
};
inline Stat stat(const std::vector<double> &x) {
    Stat        s;
    long double m = 0, q = 0, v = 0, ab = 0;
    s.n = x.size();
    for (auto k : x) m += k, q += (long double)k * k, ab += std::fabs(k);
    m /= s.n;
    for (auto k : x) v += (k - m) * (k - m);
    s.mean   = (double)m;
    s.var    = (double)(v / s.n);
    s.meansq = (double)(q / s.n);
    s.sumabs = (double)ab;
    return s;
}
// real-valued data: exactly representable floats with assorted offset and scale
inline void realify(Ctx &c, Pair &p) {
    pbt::Noise r(c.seed());
    double     off = c.b() ? 0 : c.real(-50, 50), sc = std::pow(10.0, c.u(-3, 4));
    for (auto &v : *p.m.buf) v = (double)(float)(sc * (off + r.normal()));
    poke(*p.base, *p.m.buf);
    c.note("offset ", off, " scale ", sc);
}
inline void check_mean(const std::string &key, double g, const Stat &s, const std::string &what) {
    double tol = 3e-7 * (std::fabs(s.mean)) + 1e-12 * s.sumabs + 1e-37;
    REQUIRE_P(key, std::fabs(g - s.mean) <= tol, what, " gave ", g, " expected ", s.mean, " over ", s.n, " elements");
}
inline void check_var(const std::string &key, double gvar, const Stat &s, const std::string &what) {
    double tol = 1e-6 * s.var + 1e-14 * (s.n + 8) * s.meansq + 1e-37;
    REQUIRE_P(key, std::isfinite(gvar) && std::fabs(gvar - s.var) <= tol, what, ": variance ", gvar, " expected ", s.var, " over ", s.n, " elements (mean square ", s.meansq, ")");
}
// axes the array does not have or that are named twice
inline std::vector<int64_t> gen_bad_axes(Ctx &c, size_t rank) {
    std::vector<int64_t> axes;
    for (size_t d = 0; d < rank; ++d)
        if (c.b()) axes.push_back(d);
    int64_t bad = c.b(1, 3) && !axes.empty() ? axes[c.u(0, axes.size() - 1)] : c.b() ? (int64_t)rank + c.u(0, c.b() ? 0 : 1000) : -1 - c.u(0, c.b() ? 0 : 1000);
    axes.insert(axes.begin() + c.u(0, axes.size()), bad);
    return axes;
}
inline Shape other_shape(Ctx &c, Shape s) {
    Shape o = s;
    switch (c.u(0, 3)) {
    case 0: o.push_back(c.u(1, 3)); break;
    case 1: o[c.u(0, o.size() - 1)] += c.u(1, 3); break;
    case 2: if (o.size() > 1) o.pop_back(); break;
    default: { auto d = c.u(0, o.size() - 1); o[d] = std::max<int64_t>(1, o[d] - c.u(1, 3)); }
    }
    if (o == s) o[0] += 1;
    return o;
}
template <class F> void refused(const std::string &key, const std::string &what, F f) {
    bool threw = false;
    try {
        f();
    } catch (const std::exception &) { threw = true; }
    REQUIRE_P(key, threw, what, " was not refused");
}
} // namespace red

// Generated hits and scans with hits, and what a stored copy of them must be.
#pragma once
#include "fb.hpp"
#include <core/cadence.hpp>
#include <core/hit.hpp>
#include <core/scan.hpp>
#include <list>

namespace hg {
using pbt::Ctx;
using bliss::hit;

inline double gen_double(Ctx &c, double lo, double hi) {
    int k = c.u(0, 9);
    if (k == 0) return 0.0;
    if (k == 1) return -c.real(lo, hi);
    if (k == 2) return c.real(0, 1) * 1e-12;
    return c.real(lo, hi);
}
inline int64_t gen_index(Ctx &c) {
    int k = c.u(0, 7);
    if (k == 0) return 0;
    if (k == 1) return 2147483647;
    if (k == 2) return -2147483647 - 1;
    if (k == 3) return -c.u(1, 5000);
    return c.u(0, k == 4 ? 2000000000 : 1 << 20);
}
inline hit gen_hit(Ctx &c, bool wild = true) {
    hit h;
    h.start_freq_index      = wild ? gen_index(c) : c.u(0, 1 << 20);
    h.start_freq_MHz        = wild ? gen_double(c, 1, 12000) : c.real(1, 12000);
    h.start_time_sec        = c.real(4.3e9, 5.3e9);
    h.duration_sec          = wild ? gen_double(c, 1, 2000) : c.real(1, 2000);
    h.rate_index            = wild ? gen_index(c) : c.u(0, 1000);
    h.drift_rate_Hz_per_sec = c.real(-20, 20) * (c.b(1, 6) ? 1e-6 : 1);
    h.power                 = wild && c.b(1, 8) ? 3e37 * c.real(-1, 1) : gen_double(c, 0, 1e6);
    h.time_span_steps       = wild ? gen_index(c) : c.u(1, 300);
    h.snr                   = (float)(wild && c.b(1, 10) ? INFINITY : c.real(0, 1e5));
    h.bandwidth             = (float)c.real(0, 3000);
    h.binwidth              = wild && c.b(1, 10) ? -c.u(0, 100) : c.u(0, 5000);
    h.coarse_channel_number = c.b() ? 0 : c.u(0, 3000);
    return h;
}
inline std::list<hit> gen_hits(Ctx &c, int most, bool wild = true) {
    std::list<hit> l;
    int            n = c.small(0, most);
    for (int k = 0; k < n; ++k) l.push_back(k > 0 && c.b(1, 6) ? l.front() : gen_hit(c, wild));
    return l;
}
inline bool same(double a, double b) { return a == b || (a != a && b != b); }

// the single precision fields of the format are compared in single precision
inline void expect_hit(const hit &g, const hit &e, const std::string &w) {
#define HG_FIELD(f, T) REQUIRE_P("hit-" #f, same((double)(T)g.f, (double)(T)e.f), w, ": " #f " is ", +(T)g.f, " expected ", +(T)e.f)
    HG_FIELD(start_freq_index, int64_t);
    HG_FIELD(start_freq_MHz, double);
    HG_FIELD(rate_index, int64_t);
    HG_FIELD(drift_rate_Hz_per_sec, double);
    HG_FIELD(power, float);
    HG_FIELD(time_span_steps, int64_t);
    HG_FIELD(snr, float);
    HG_FIELD(start_time_sec, float);
    HG_FIELD(duration_sec, float);
    HG_FIELD(bandwidth, float);
    HG_FIELD(binwidth, int64_t);
    HG_FIELD(coarse_channel_number, int64_t);
#undef HG_FIELD
}
template <class L> void expect_hits(const L &g, const std::list<hit> &e, const std::string &w) {
    REQUIRE_P("number-of-hits", g.size() == e.size(), w, ": ", g.size(), " hits, expected ", e.size());
    auto   q = e.begin();
    size_t n = 0;
    for (auto &h : g) expect_hit(h, *q++, w + " hit " + std::to_string(n++));
}
} // namespace hg

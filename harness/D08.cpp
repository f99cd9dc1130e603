// D08: event search.
#include "hits.hpp"
#include <core/event.hpp>
#include <drift_search/event_search.hpp>
using namespace hg;
using namespace fb;
using bliss::coarse_channel;

struct Scan {
    double           tstart = 0, length = 0;
    int              channels = 1;
    std::vector<hit> hits; // in the order the scan lists them
};
struct Cad {
    std::vector<std::vector<Scan>> o; // observations; the first is ON
};
static bliss::scan build(Ctx &c, const Scan &s) {
    std::map<int, std::shared_ptr<coarse_channel>> m;
    int64_t T = 4;
    for (int k = 0; k < s.channels; ++k) {
        std::list<hit> l;
        for (size_t n = 0; n < s.hits.size(); ++n) // each coarse channel has a contiguous part of the list
            if ((int)(n * s.channels / s.hits.size()) == k) l.push_back(s.hits[n]);
        auto cc = std::make_shared<coarse_channel>(8000.0 - k, -1e-3, (int64_t)1, (int64_t)32, (int64_t)1000, T, (int64_t)1, "S", 1.0, 2.0, (int64_t)3, s.length / (double)T, s.tstart, (int64_t)1, 0.0, 0.0, (int64_t)k);
        if (c.b()) cc->set_hits(l);
        else cc->set_hits([l] { return l; });
        m[k] = cc;
    }
    return bliss::scan(m);
}
static bliss::cadence build(Ctx &c, const Cad &d) {
    std::vector<bliss::observation_target> o;
    for (auto &t : d.o) {
        bliss::observation_target ot;
        for (auto &s : t) ot._scans.push_back(build(c, s));
        o.push_back(ot);
    }
    bliss::cadence x;
    x._observations = o;
    return x;
}
static double distance(const hit &a, const hit &b) {
    double dd = std::fabs(a.drift_rate_Hz_per_sec - b.drift_rate_Hz_per_sec) / (1e-8 + a.drift_rate_Hz_per_sec * a.drift_rate_Hz_per_sec + b.drift_rate_Hz_per_sec * b.drift_rate_Hz_per_sec);
    double t0 = std::min(a.start_time_sec, b.start_time_sec), t1 = std::max(a.start_time_sec + a.duration_sec, b.start_time_sec + b.duration_sec), t = (t0 + t1) / 2;
    double fa = a.start_freq_MHz * 1e6 + a.drift_rate_Hz_per_sec * (t - a.start_time_sec), fb = b.start_freq_MHz * 1e6 + b.drift_rate_Hz_per_sec * (t - b.start_time_sec);
    return 0.01 * std::fabs(fa - fb) + 10 * dd * dd;
}
static bool unclear(double d) { return std::fabs(d - 50) < 0.02; }

struct Ev {
    std::vector<hit> hits;
    std::vector<std::pair<int, int>> from; // ON scan and index of each
};
// Starting from each hit that is not part of an event yet, in order: from each later ON scan the closest unused hit
// that is within reach of one of the event's hits belongs to it; it is reported when it has more than one hit and no
// OFF hit is within reach of it on average.
static std::vector<Ev> events(const Cad &d) {
    std::vector<Ev> r;
    if (d.o.empty()) return r;
    auto &on = d.o[0];
    std::vector<std::vector<char>> used;
    for (auto &s : on) used.emplace_back(s.hits.size(), 0);
    for (size_t a = 0; a < on.size(); ++a)
        for (size_t h = 0; h < on[a].hits.size(); ++h) {
            if (used[a][h]) continue;
            Ev e;
            e.hits.push_back(on[a].hits[h]), e.from.push_back({a, h});
            for (size_t b = a + 1; b < on.size(); ++b) {
                double best = 1e300, second = 1e300;
                int    which = -1;
                for (size_t k = 0; k < on[b].hits.size(); ++k) {
                    if (used[b][k]) continue;
                    double low = 1e300;
                    for (auto &x : e.hits) low = std::min(low, distance(x, on[b].hits[k]));
                    if (low < best) second = best, best = low, which = k;
                    else second = std::min(second, low);
                }
                if (unclear(best)) throw pbt::Discard();
                if (best < 50) {
                    if (second - best < 1e-3) throw pbt::Discard();
                    e.hits.push_back(on[b].hits[which]), e.from.push_back({b, which});
                    used[b][which] = 1;
                }
            }
            bool off = false;
            for (size_t o = 1; o < d.o.size(); ++o)
                for (auto &s : d.o[o])
                    for (auto &x : s.hits) {
                        double sum = 0;
                        for (auto &y : e.hits) sum += distance(x, y);
                        sum /= (double)e.hits.size();
                        if (unclear(sum)) throw pbt::Discard();
                        off = off || sum < 50;
                    }
            if (e.hits.size() > 1 && !off) r.push_back(e);
        }
    return r;
}
static void expect_event(const bliss::event &g, const Ev &e, const Cad &d, const std::string &w) {
    expect_hits(g.hits, std::list<hit>(e.hits.begin(), e.hits.end()), w);
    double n = (double)e.hits.size(), drift = 0, power = 0, snr = 0, bw = 0, dm = 0, pm = 0, sm = 0, bm = 0, t0 = 1e300, t1 = 0;
    for (size_t k = 0; k < e.hits.size(); ++k) {
        auto &h = e.hits[k];
        auto &s = d.o[0][e.from[k].first];
        drift += h.drift_rate_Hz_per_sec / n, dm += std::fabs(h.drift_rate_Hz_per_sec), power += h.power / n, snr += h.snr / n, bw += h.bandwidth / n;
        pm += std::fabs(h.power), sm += std::fabs(h.snr), bm += std::fabs(h.bandwidth);
        t0 = std::min(t0, s.tstart * 86400), t1 = std::max(t1, s.tstart * 86400 + s.length);
    }
    REQUIRE_P("average", pbt::close(g.average_drift_rate_Hz_per_sec, drift, 1e-9, 1e-9 * dm) && pbt::close(g.average_power, power, 1e-5, 1e-6 * pm) && pbt::close(g.average_snr, snr, 1e-5, 1e-6 * sm) && pbt::close(g.average_bandwidth, bw, 1e-5, 1e-6 * bm), w,
              ": averages drift ", g.average_drift_rate_Hz_per_sec, " power ", g.average_power, " snr ", g.average_snr, " bandwidth ", g.average_bandwidth, " expected ", drift, " ", power, " ", snr, " ", bw);
    REQUIRE_P("start", pbt::close(g.event_start_seconds, t0, 1e-13, 0), w, ": starts at ", g.event_start_seconds, " expected ", t0);
    REQUIRE_P("end", pbt::close(g.event_end_seconds, t1, 1e-13, 0), w, ": ends at ", g.event_end_seconds, " expected ", t1, " (starts at ", t0, ")");
    REQUIRE_P("frequency", pbt::close(g.starting_frequency_Hz, e.hits[0].start_freq_MHz * 1e6, 1e-13, 0), w, ": starts at ", g.starting_frequency_Hz, " Hz");
}
struct Signal {
    double f, drift; // MHz at t0, Hz/s
};
static hit hit_of(Ctx &c, const Signal &s, const Scan &sc, double t0, const hit *like = nullptr) {
    hit h = like ? *like : gen_hit(c, false);
    h.start_time_sec        = sc.tstart * 86400;
    h.duration_sec          = sc.length;
    h.drift_rate_Hz_per_sec = s.drift;
    h.start_freq_MHz        = s.f + s.drift * (h.start_time_sec - t0) * 1e-6;
    return h;
}
// an alternating sequence of scans of the ON target and others
static Cad gen_cadence(Ctx &c, double &t0) {
    Cad d;
    int targets = c.i(1, 3), n = 0;
    double mjd = c.real(57000, 61000), len = c.b() ? 300 : c.real(60, 600);
    bool varied = c.b(1, 3);
    t0 = mjd * 86400;
    d.o.resize(targets);
    int rounds = c.i(1, 4);
    for (int r = 0; r < rounds; ++r)
        for (int t = 0; t < targets; ++t)
            if (t == 0 || !c.b(1, 6)) {
                Scan s;
                s.length = varied ? len * c.real(0.3, 2) : len, s.channels = c.i(1, 3);
                s.tstart = mjd + (double)n++ * len * 2.1 / 86400;
                d.o[t].push_back(s);
            }
    if (c.b(1, 8)) // in any order
        for (auto &t : d.o)
            for (size_t k = 1; k < t.size(); ++k) std::swap(t[k], t[c.u(0, k)]);
    return d;
}
static void check(Ctx &c, const Cad &d, const std::vector<Ev> &want) {
    auto got = bliss::event_search(build(c, d));
    REQUIRE_P("number-of-events", got.size() == want.size(), got.size(), " events, expected ", want.size());
    for (size_t k = 0; k < got.size(); ++k) expect_event(got[k], want[k], d, "event " + std::to_string(k));
}
// well separated signals, each in some scans
static void signals(Ctx &c) {
    quiet();
    double t0;
    auto   d = gen_cadence(c, t0);
    int    n = c.i(1, 5), expected = 0;
    std::vector<std::vector<std::pair<int, hit>>> per(d.o.size());
    double f = c.real(1000, 8000);
    std::vector<Signal> sig;
    for (int k = 0; k < n; ++k) sig.push_back({f + 1.0 * k, (c.b() ? 1 : -1) * c.real(0.05, 3)});
    std::set<int> reported;
    for (int k = 0; k < n; ++k) {
        int how = c.u(0, 3), on = 0, off = 0; // everywhere, ON only, some of both, once
        for (size_t t = 0; t < d.o.size(); ++t)
            for (size_t q = 0; q < d.o[t].size(); ++q) {
                bool in = how == 0 ? true : how == 1 ? t == 0 : how == 2 ? (t == 0 || c.b(1, 4)) : c.b(1, 4);
                if (!in) continue;
                (t == 0 ? on : off)++;
                d.o[t][q].hits.push_back(hit_of(c, sig[k], d.o[t][q], t0));
            }
        if (on > 1 && off == 0) reported.insert(k), ++expected;
        if (off > 0) c.label("also OFF");
    }
    c.note(d.o.size(), " targets, ", d.o[0].size(), " ON scans, ", n, " signals, ", expected, " to be reported");
    auto got = bliss::event_search(build(c, d));
    REQUIRE_P("number-of-events", (int)got.size() == expected, got.size(), " events of ", expected, " signals seen ON more than once and never OFF");
    for (auto &g : got) {
        std::set<int> which;
        std::set<double> times;
        for (auto &h : g.hits) {
            which.insert((int)std::llround(h.start_freq_MHz - f));
            REQUIRE_P("distinct-scans", times.insert(h.start_time_sec).second, "two hits of an event are of one scan");
        }
        REQUIRE_P("one-signal", which.size() == 1, "an event has hits of ", which.size(), " signals");
        REQUIRE_P("signal", reported.erase(*which.begin()), "signal ", *which.begin(), " is not to be reported, or was before");
        size_t on = 0;
        for (auto &s : d.o[0])
            for (auto &h : s.hits) on += (int)std::llround(h.start_freq_MHz - f) == *which.begin();
        REQUIRE_P("all-hits", g.hits.size() == on, "an event has ", g.hits.size(), " hits of a signal with ", on);
    }
    c.nontrivial(expected > 0);
}
// signals close to each other, with errors of their frequency and drift, and hits of nothing
static void model(Ctx &c) {
    quiet();
    double t0;
    auto   d = gen_cadence(c, t0);
    if (c.b(1, 60)) d.o.clear();
    double f = c.real(1000, 8000);
    int    n = c.i(1, 5);
    hit    one; // sometimes all hits are alike but for what tells signals apart
    bool   alike = c.b(1, 3), still = alike && c.b(1, 3);
    if (alike) one = gen_hit(c, false);
    for (int k = 0; k < n; ++k) {
        Signal s{f + c.real(-0.02, 0.02), (c.b() ? 1 : -1) * c.real(0, 3)};
        double err = c.b() ? 0.004 : 0.0005, derr = c.b() ? 0.3 : 0.01;
        int    often = c.u(1, 4), off = c.u(0, 3);
        for (size_t t = 0; t < d.o.size(); ++t)
            for (auto &q : d.o[t])
                for (int m = 0; m < (c.b(1, 6) ? 2 : 1); ++m)
                    if (c.b(t == 0 ? often : off, 4)) {
                        Signal x{s.f + c.real(-err, err), s.drift + c.real(-derr, derr)};
                        hit h = hit_of(c, x, q, t0, alike ? &one : nullptr);
                        if (still) h.start_freq_MHz = f;
                        q.hits.insert(q.hits.begin() + c.u(0, q.hits.size()), h);
                    }
    }
    size_t hits = 0;
    for (auto &t : d.o)
        for (auto &q : t) hits += q.hits.size();
    auto want = events(d);
    c.note(d.o.size(), " targets, ", hits, " hits, ", want.size(), " events");
    check(c, d, want);
    c.nontrivial(!want.empty());
    if (hits > 0 && c.b(1, 5)) { // and with one hit changed in one respect
        for (auto &t : d.o)
            for (auto &q : t)
                for (auto &h : q.hits)
                    if (c.b(1, 4)) switch (c.u(0, 4)) {
                        case 0: h.drift_rate_Hz_per_sec += c.real(-2, 2); break;
                        case 1: h.start_freq_MHz += c.real(-0.01, 0.01); break;
                        case 2: h.duration_sec *= c.real(0.5, 2); break;
                        case 3: h.start_time_sec += c.real(-300, 300); break;
                        default: h.power *= 2, h.snr *= 2; break;
                        }
        want = events(d);
        c.note("changed: ", want.size(), " events");
        check(c, d, want);
    }
}
int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "D08";
    s.rule           = "at least one event is to be reported";
    s.quick_cases    = 120000;
    s.thorough_cases = 2000000;
    s.assumptions    = "up to 3 targets with up to 4 scans each and about 40 hits; cases in which a match is within rounding of the matching distance are discarded";
    s.facets         = {{"signals", 1, 0, signals}, {"model", 2, 0, model}};
    return pbt::run(argc, argv, s);
}

// D07: filtering hits.
#include "hits.hpp"
#include <drift_search/filter_hits.hpp>
using namespace hg;
using bliss::coarse_channel;

static hit gen(Ctx &c) {
    hit h = gen_hit(c);
    int k = c.u(0, 4);
    static const std::vector<double> small{0.0, -0.0, 1e-7, -1e-7, 9e-7, -9e-7}, large{1.1e-6, -1.1e-6, 1e-5, -1e-5, 0.01, -0.01};
    if (k == 0) h.drift_rate_Hz_per_sec = c.pick(small);
    else if (k == 1) h.drift_rate_Hz_per_sec = c.pick(large);
    static const std::vector<bliss::flag_values> kinds{bliss::flag_values::filter_rolloff, bliss::flag_values::low_spectral_kurtosis, bliss::flag_values::high_spectral_kurtosis, bliss::flag_values::magnitude, bliss::flag_values::sigma_clip};
    for (auto f : kinds)
        if (c.b(1, 3)) h.rfi_counts[f] = c.b() ? 0 : c.b() ? 255 : (uint8_t)c.i(1, 254);
    return h;
}
static uint8_t count(const hit &h, bliss::flag_values f) {
    auto i = h.rfi_counts.find(f);
    return i == h.rfi_counts.end() ? 0 : i->second;
}
static bool kept(const hit &h, const bliss::filter_options &o) {
    return count(h, bliss::flag_values::filter_rolloff) == 0 && count(h, bliss::flag_values::low_spectral_kurtosis) == 0 && !(o.filter_zero_drift && std::fabs(h.drift_rate_Hz_per_sec) < 1e-6);
}
static void expect(const std::list<hit> &g, const std::list<hit> &in, const bliss::filter_options &o, const std::string &w) {
    std::list<hit> e;
    for (auto &h : in)
        if (kept(h, o)) e.push_back(h);
    expect_hits(g, e, w);
    auto q = e.begin();
    for (auto &h : g) {
        REQUIRE_P("exact", h.power == q->power && h.start_time_sec == q->start_time_sec && h.duration_sec == q->duration_sec, w, ": a hit that is kept changed");
        for (int f = 1; f < 256; f *= 2) REQUIRE_P("flags", count(h, (bliss::flag_values)f) == count(*q, (bliss::flag_values)f), w, ": counts of flags of a hit that is kept changed");
        ++q;
    }
}
static std::list<hit> gen_list(Ctx &c) {
    std::list<hit> l;
    int n = c.small(0, 14);
    for (int k = 0; k < n; ++k) l.push_back(k > 0 && c.b(1, 8) ? l.back() : gen(c));
    return l;
}
static void lists(Ctx &c) {
    auto l = gen_list(c);
    bliss::filter_options o{c.b()};
    c.note(l.size(), " hits", o.filter_zero_drift ? ", zero drift removed" : "");
    auto before = l;
    auto g = bliss::filter_hits(l, o);
    expect(g, l, o, "list");
    expect_hits(l, before, "the list given");
    auto g2 = bliss::filter_hits(g, o);
    REQUIRE_P("again", g2.size() == g.size(), "filtering again removes ", g.size() - g2.size());
    expect(g2, l, o, "list filtered twice");
    if (g.size() < l.size()) c.label("some removed");
    c.nontrivial(g.size() < l.size() && !g.empty());
}
static coarse_channel chan(int k, const std::list<hit> *h, bool demand) {
    coarse_channel cc(8000.0 - k, -1e-3, (int64_t)1, (int64_t)32, (int64_t)1000, (int64_t)4, (int64_t)1, "S", 1.0, 2.0, (int64_t)3, 1.0, 59000.0, (int64_t)1, 0.0, 0.0, (int64_t)k);
    if (h) {
        auto l = *h;
        if (demand) cc.set_hits([l] { return l; });
        else cc.set_hits(l);
    }
    return cc;
}
static void structures(Ctx &c) {
    bliss::filter_options o{c.b()};
    int via = c.u(0, 3), n = via == 0 ? 1 : c.i(1, 4);
    std::vector<std::list<hit>> in;
    std::map<int, std::shared_ptr<coarse_channel>> m;
    size_t all = 0, rest = 0;
    for (int k = 0; k < n; ++k) {
        in.push_back(gen_list(c));
        m[k] = std::make_shared<coarse_channel>(chan(k, &in[k], c.b()));
        all += in[k].size();
        for (auto &h : in[k]) rest += kept(h, o);
    }
    c.note("via ", via, ", ", n, " coarse channels, ", all, " hits");
    if (via == 0) {
        auto g = bliss::filter_hits(*m[0], o);
        expect(g.hits(), in[0], o, "coarse channel");
        expect_hits(m[0]->hits(), in[0], "the coarse channel given");
    } else {
        bliss::scan sc(m), r = sc;
        if (via == 1) r = bliss::filter_hits(sc, o);
        else if (via == 2) r = bliss::filter_hits(bliss::observation_target(std::vector<bliss::scan>{sc}), o)._scans.at(0);
        else r = bliss::filter_hits(bliss::cadence(std::vector<bliss::observation_target>{bliss::observation_target(std::vector<bliss::scan>{sc})}), o)._observations.at(0)._scans.at(0);
        std::list<hit> flat;
        for (int k = 0; k < n; ++k) {
            expect(r.read_coarse_channel(k)->hits(), in[k], o, "coarse channel " + std::to_string(k));
            flat.insert(flat.end(), in[k].begin(), in[k].end());
        }
        expect(r.hits(), flat, o, "scan");
        if (c.b()) expect_hits(sc.hits(), flat, "the scan given");
    }
    c.nontrivial(rest < all && rest > 0);
}
static void missing(Ctx &c) {
    bool threw = false;
    c.note("no hits searched");
    try { bliss::filter_hits(chan(0, nullptr, false), bliss::filter_options{c.b()}); } catch (const std::exception &) { threw = true; }
    REQUIRE_P("rejected", threw, "filtering a coarse channel no hits were searched in was accepted");
    c.nontrivial();
}
int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "D07";
    s.rule           = "lists, structures: some hits are removed and some are kept; missing: every case";
    s.quick_cases    = 80000;
    s.thorough_cases = 1500000;
    s.assumptions    = "up to 14 hits per coarse channel, up to 4 coarse channels; drift rates not within rounding of the 1e-6 Hz/s that counts as zero";
    s.facets         = {{"lists", 5, 0, lists}, {"structures", 4, 0, structures}, {"missing", 1, 200, missing}};
    return pbt::run(argc, argv, s);
}

// S03: files of events.
#include "fault.hpp"
#include "hits.hpp"
#include <core/event.hpp>
#include <file_types/events_file.hpp>
#include <fstream>
using namespace hg;

static void store(Ctx &c, const std::vector<bliss::event> &l, const std::string &p) {
    std::string more = c.b() ? p + "-not-part-of-the-path" : p;
    bliss::write_events_to_file(l, std::string_view(more.data(), p.size()));
}
static std::vector<bliss::event> gen_events(Ctx &c) {
    std::vector<bliss::event> l(c.small(0, 8));
    for (auto &e : l) {
        e.hits = gen_hits(c, 6);
        e.starting_frequency_Hz = c.real(1e9, 2e9);
    }
    return l;
}
static void expect_events(const std::vector<bliss::event> &g, const std::vector<bliss::event> &e, const std::string &w) {
    REQUIRE_P("number-of-events", g.size() == e.size(), w, ": ", g.size(), " events, expected ", e.size());
    for (size_t k = 0; k < e.size(); ++k) expect_hits(g[k].hits, e[k].hits, w + " event " + std::to_string(k));
}
static void roundtrip(Ctx &c) {
    auto   p = pbt::scratch_dir() + "/s03.capnp";
    int    n = c.i(1, 3);
    size_t most = 0;
    for (int k = 0; k < n; ++k) {
        auto l = gen_events(c);
        c.note("write ", l.size());
        store(c, l, p);
        auto g = bliss::read_events_from_file(p);
        expect_events(g, l, "file " + std::to_string(k));
        if (c.b(1, 3)) {
            store(c, g, p);
            expect_events(bliss::read_events_from_file(p), l, "file written again " + std::to_string(k));
        }
        most = std::max(most, l.size());
    }
    ::unlink(p.c_str());
    c.nontrivial(most > 1);
}
// a file which ends early holds the events that are complete in it
static void cut(Ctx &c) {
    auto p = pbt::scratch_dir() + "/s03-cut.capnp", q = pbt::scratch_dir() + "/s03-one.capnp";
    auto l = gen_events(c);
    store(c, l, p);
    auto                size = [](const std::string &f) { std::ifstream i(f, std::ios::binary | std::ios::ate); return (int64_t)i.tellg(); };
    std::vector<int64_t> end{0};
    for (auto &e : l) {
        store(c, {e}, q);
        end.push_back(end.back() + size(q));
    }
    REQUIRE_P("size", end.back() == size(p), "a file of ", l.size(), " events has ", size(p), " bytes, single ones ", end.back());
    int64_t cutoff = c.b(1, 3) ? end[c.u(0, end.size() - 1)] : c.i(0, end.back());
    c.note(l.size(), " events, cut at ", cutoff, " of ", end.back());
    REQUIRE_P("truncate", ::truncate(p.c_str(), cutoff) == 0, "truncate failed");
    size_t k = 0;
    while (k + 1 < end.size() && end[k + 1] <= cutoff) ++k;
    expect_events(bliss::read_events_from_file(p), std::vector<bliss::event>(l.begin(), l.begin() + k), "cut file");
    c.nontrivial(l.size() > 1 && cutoff < end.back());
}
// an event larger than what a reader of untrusted messages accepts by default, with others around it
static void large(Ctx &c) {
    auto p = pbt::scratch_dir() + "/s03-large.capnp";
    auto l = gen_events(c);
    hit  h = gen_hit(c, false);
    int  n = c.i(900000, 1000000), at = c.u(0, l.size());
    c.note(n, " hits in event ", at, " of ", l.size() + 1);
    bliss::event big;
    for (int k = 0; k < n; ++k) h.start_freq_index = k, big.hits.push_back(h);
    l.insert(l.begin() + at, big);
    store(c, l, p);
    auto g = bliss::read_events_from_file(p);
    ::unlink(p.c_str());
    REQUIRE_P("number-of-events", g.size() == l.size(), "large: ", g.size(), " events of ", l.size());
    REQUIRE_P("number-of-hits", (int)g[at].hits.size() == n, "large: ", g[at].hits.size(), " hits of ", n);
    int k = 0;
    for (auto &x : g[at].hits) {
        REQUIRE_P("hit-start_freq_index", x.start_freq_index == k, "large: hit ", k, " has index ", x.start_freq_index);
        ++k;
    }
    g.erase(g.begin() + at), l.erase(l.begin() + at);
    expect_events(g, l, "large");
    c.nontrivial();
}
static void rejected(Ctx &c) {
    int  how = c.u(0, 3);
    auto l = gen_events(c);
    if (l.empty()) l.resize(1);
    c.note("how ", how);
    bool threw = false;
    try {
        if (how == 0) bliss::read_events_from_file(pbt::scratch_dir() + "/s03-none");
        else store(c, l, how == 1 ? pbt::scratch_dir() + "/no/such/x" : how == 2 ? pbt::scratch_dir() : std::string("/dev/full"));
    } catch (const std::exception &) { threw = true; }
    REQUIRE_P("rejected", threw, "accepted");
    c.nontrivial();
}
static void faults(Ctx &c) {
    auto p = pbt::scratch_dir() + "/s03-faults.capnp";
    auto l = gen_events(c);
    c.note(l.size(), " events");
    fault::exercise(c, p, [&] { store(c, l, p); }, [&] { expect_events(bliss::read_events_from_file(p), l, "file"); });
}
int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "S03";
    s.rule           = "roundtrip: more than one event; cut: more than one event and something missing; rejected, large: every case; faults: a call is short, interrupted or finds the disk full";
    s.quick_cases    = 40000;
    s.thorough_cases = 600000;
    s.assumptions    = "up to 8 events of up to 6 hits (one of up to 10^6 in the large facet); the hits of each event (the format has no fields for the averages of an event); single precision fields compared in single precision";
    s.facets         = {{"roundtrip", 5, 0, roundtrip}, {"cut", 4, 0, cut}, {"rejected", 1, 0, rejected}, {"faults", 2, 0, faults}, {"large", 1, 2, large}};
    return pbt::run(argc, argv, s);
}

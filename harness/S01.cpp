// S01: files of hits.
#include "fault.hpp"
#include "hits.hpp"
#include <file_types/cpnp_files.hpp>
#include <file_types/hits_file.hpp>
#include <fstream>
using namespace hg;

static std::list<hit> read_back(Ctx &c, const std::string &p) {
    int how = c.u(0, 2);
    if (how == 0) return bliss::read_hits_from_capnp_file(p);
    if (how == 1) return bliss::read_hits_from_file(p);
    return bliss::read_hits_from_file(p, "capnp");
}
static void store(Ctx &c, const std::list<hit> &l, const std::string &p) {
    // the path need not be the whole of the string it lies in
    std::string more = c.b() ? p + "-not-part-of-the-path" : p;
    std::string_view v(more.data(), p.size());
    if (c.b()) bliss::write_hits_to_capnp_file(l, v);
    else bliss::write_hits_to_capnp_file(std::vector<hit>(l.begin(), l.end()), v);
}

static void roundtrip(Ctx &c) {
    auto p = pbt::scratch_dir() + "/s01.capnp";
    int  n = c.i(1, 3);
    size_t most = 0;
    for (int k = 0; k < n; ++k) { // writing again leaves only the new contents
        auto l = gen_hits(c, c.b(1, 20) ? 400 : 12);
        c.note("write ", l.size());
        store(c, l, p);
        for (int r = 0; r < (c.b(1, 4) ? 2 : 1); ++r) expect_hits(read_back(c, p), l, "file " + std::to_string(k));
        most = std::max(most, l.size());
        if (l.empty()) c.label("empty");
    }
    if (n > 1) c.label("overwritten");
    ::unlink(p.c_str());
    c.nontrivial(most > 1);
}
// what was read is written again as it was
static void again(Ctx &c) {
    auto p = pbt::scratch_dir() + "/s01-a.capnp", q = pbt::scratch_dir() + "/s01-b.capnp";
    auto l = gen_hits(c, 20);
    c.note("write ", l.size());
    store(c, l, p);
    auto g = read_back(c, p);
    store(c, g, q);
    auto slurp = [](const std::string &f) {
        std::ifstream     i(f, std::ios::binary);
        std::stringstream s;
        s << i.rdbuf();
        return s.str();
    };
    REQUIRE_P("stable", slurp(p) == slurp(q), "a file written from what was read of another differs from it");
    c.nontrivial(l.size() > 1);
}
static void rejected(Ctx &c) {
    auto p = pbt::scratch_dir() + "/s01-none";
    int  how = c.u(0, 6);
    c.note("how ", how);
    bool threw = false;
    try {
        if (how == 0) bliss::read_hits_from_capnp_file(p);
        else if (how == 1) store(c, gen_hits(c, 3), pbt::scratch_dir() + "/no/such/directory/x");
        else if (how >= 5) {
            auto l = gen_hits(c, 3);
            l.push_back(gen_hit(c));
            store(c, l, how == 5 ? pbt::scratch_dir() : std::string("/dev/full"));
        } else {
            store(c, gen_hits(c, 3), p + "f");
            bliss::read_hits_from_file(p + "f", how == 2 ? "dat" : how == 3 ? "turboseti" : "other");
        }
    } catch (const std::exception &) { threw = true; }
    REQUIRE_P("rejected", threw, "accepted");
    c.nontrivial();
}

static void faults(Ctx &c) {
    auto p = pbt::scratch_dir() + "/s01-faults.capnp";
    auto l = gen_hits(c, c.b(1, 10) ? 60 : 6);
    c.note(l.size(), " hits");
    fault::exercise(c, p, [&] { store(c, l, p); }, [&] { expect_hits(read_back(c, p), l, "file"); });
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "S01";
    s.rule           = "roundtrip, again: more than one hit; rejected: every case; faults: a call is short, interrupted or finds the disk full";
    s.quick_cases    = 100000;
    s.thorough_cases = 1500000;
    s.assumptions    = "lists of up to 400 hits; indices within 32 bits; single precision fields (power, snr, start time, duration, widths) are compared in single precision; flag counts are not part of the format";
    s.facets         = {{"roundtrip", 6, 0, roundtrip}, {"again", 2, 0, again}, {"rejected", 1, 0, rejected}, {"faults", 2, 0, faults}};
    s.witnesses      = {{"start-time", "a hit's start time (MJD in seconds) is stored in single precision and comes back up to 256 s off", [] {
        hit h{};
        h.start_time_sec = 59000.0 * 86400 + 100;
        auto p = pbt::scratch_dir() + "/s01-w.capnp";
        bliss::write_hits_to_capnp_file(std::list<hit>{h}, p);
        auto g = bliss::read_hits_from_capnp_file(p);
        return g.size() == 1 && std::fabs(g.front().start_time_sec - h.start_time_sec) > 1;
    }}};
    return pbt::run(argc, argv, s);
}

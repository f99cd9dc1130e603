// S02: files of coarse channels, scans, observations and cadences with their hits.
#include "fault.hpp"
#include "hits.hpp"
#include <file_types/cpnp_files.hpp>
#include <file_types/hits_file.hpp>
using namespace hg;
using namespace fb;
using bliss::coarse_channel;

struct Cc {
    bool           has = true; // hits were searched for
    std::list<hit> hits;
};
struct Sc {
    std::string     name;
    double          fch1, foff, tsamp, tstart, ra, dec;
    int64_t         T, fine, telescope;
    std::vector<Cc> cc;
    bool            file = false;
    // what the scan itself says, when that is something else than what its coarse channels say
    bool            own = false;
    std::string     own_name;
    double          own_fch1, own_foff, own_tsamp, own_tstart, own_ra, own_dec;
};
static Sc gen_scan(Ctx &c) {
    Sc s;
    static const std::vector<std::string> names{"Voyager1", "", "a b", "{}", "HIP"};
    s.name = c.pick(names);
    s.fch1 = c.real(100, 12000), s.foff = (c.b() ? 1 : -1) * c.real(1e-6, 0.3), s.tsamp = c.real(1e-4, 30), s.tstart = c.real(50000, 62000), s.ra = c.real(0, 24), s.dec = c.real(-90, 90);
    s.T = c.i(1, 5), s.fine = c.i(1, 9), s.telescope = c.b() ? c.i(-3, 100) : c.i(-2147483647, 2147483647);
    s.cc.resize(c.i(1, 4));
    for (auto &k : s.cc) {
        k.has = !c.b(1, 8);
        if (k.has) k.hits = gen_hits(c, 6);
    }
    return s;
}
static coarse_channel build_cc(Ctx &c, const Sc &s, int k) {
    coarse_channel cc(s.fch1 + s.foff * (double)(k * s.fine), s.foff, (int64_t)1, (int64_t)32, s.fine, s.T, (int64_t)1, s.name, s.dec, s.ra, s.telescope, s.tsamp, s.tstart, (int64_t)1, 0.5, 0.25, (int64_t)k);
    if (s.cc[k].has) {
        auto h = s.cc[k].hits;
        if (c.b()) cc.set_hits(h);
        else cc.set_hits([h] { return h; });
    }
    return cc;
}
static int  file_n = 0;
static bliss::scan build_scan(Ctx &c, Sc &s, bool allow_file) {
    if (allow_file && c.b(1, 6)) { // from a filterbank file, hits found by a stage of the pipeline
        s.file = true;
        Spec f;
        f.T = s.T, f.F = s.fine * (int64_t)s.cc.size();
        f.val.assign(f.T * f.F, 1.0);
        f.fch1.v = s.fch1, f.foff.v = s.foff, f.tsamp.v = s.tsamp, f.tstart.v = s.tstart, f.machine_id = {true, 1, 2}, f.telescope_id = {true, (double)s.telescope, 2};
        f.src_raj.v = s.ra, f.src_dej.v = s.dec, f.az_start.v = 0.5, f.za_start.v = 0.25, f.data_type = {true, 1, 2}, f.nbits = {true, 32, 2}, f.nchans = {true, (double)f.F, 2}, f.nifs = {true, 1, 2};
        f.source_name.v = s.name, f.cls.v = "FILTERBANK", f.version.v = "1.0";
        auto p = pbt::scratch_dir() + "/s02-" + std::to_string(file_n++) + ".h5";
        fb::write(f, p);
        bliss::scan sc(p, (int)s.fine);
        ::unlink(p.c_str());
        for (auto &k : s.cc) k.has = true;
        std::vector<std::list<hit>> h;
        for (auto &k : s.cc) h.push_back(k.hits);
        sc.add_coarse_channel_transform([h](coarse_channel x) {
            x.set_hits(h.at(x._coarse_channel_number));
            return x;
        });
        if (c.b()) sc.read_coarse_channel(c.u(0, s.cc.size() - 1)); // read some of it before, or not
        if (c.b(1, 3)) sc.hits();
        c.label("file backed");
        return sc;
    }
    std::map<int, std::shared_ptr<coarse_channel>> m;
    for (int k = 0; k < (int)s.cc.size(); ++k) m[k] = std::make_shared<coarse_channel>(build_cc(c, s, k));
    bliss::scan sc(m);
    if (s.cc.size() > 1 && c.b(1, 4)) { // part of a scan
        int a = c.u(0, s.cc.size() - 1), n = c.u(1, s.cc.size() - a);
        sc = sc.slice_scan_channels(a, n);
        s.cc = std::vector<Cc>(s.cc.begin() + a, s.cc.begin() + a + n);
        s.fch1 += s.foff * (double)(a * s.fine);
        c.label("slice");
    }
    if (c.b(1, 4)) {
        auto o = gen_scan(c);
        s.own  = true, s.own_name = o.name, s.own_fch1 = o.fch1, s.own_foff = o.foff, s.own_tsamp = o.tsamp, s.own_tstart = o.tstart, s.own_ra = o.ra, s.own_dec = o.dec;
        sc.set_source_name(o.name), sc.set_fch1(o.fch1), sc.set_foff(o.foff), sc.set_tsamp(o.tsamp), sc.set_tstart(o.tstart), sc.set_src_raj(o.ra), sc.set_src_dej(o.dec);
        c.label("scan with metadata of its own");
    }
    return sc;
}
static void expect_cc(coarse_channel &g, const Sc &s, int k, const std::string &w) {
    double f0 = s.fch1 + s.foff * (double)(k * s.fine);
    REQUIRE_P("metadata", pbt::close(g.fch1(), f0, 1e-13, 0) && g.foff() == s.foff && g.tsamp() == s.tsamp && g.tstart() == s.tstart && g.src_raj() == s.ra && g.src_dej() == s.dec, w, ": fch1 ", g.fch1(), " expected ", f0, ", foff ",
              g.foff(), " expected ", s.foff, ", tsamp ", g.tsamp(), ", tstart ", g.tstart(), ", position ", g.src_raj(), " ", g.src_dej());
    REQUIRE_P("metadata", g.source_name() == s.name && g.telescope_id() == s.telescope && g.ntsteps() == s.T && g.nchans() == s.fine, w, ": source ", g.source_name(), " telescope ", g.telescope_id(), " steps ", g.ntsteps(), " channels ",
              g.nchans());
    REQUIRE_P("no-hits", g.has_hits(), w, ": has no list of hits");
    expect_hits(g.hits(), s.cc[k].hits, w);
}
static void expect_scan(bliss::scan &g, const Sc &s, const std::string &w) {
    REQUIRE_P("structure", g.get_number_coarse_channels() == (int)s.cc.size(), w, ": ", g.get_number_coarse_channels(), " coarse channels, expected ", s.cc.size());
    auto m = s;
    if (s.own) m.name = s.own_name, m.fch1 = s.own_fch1, m.foff = s.own_foff, m.tsamp = s.own_tsamp, m.tstart = s.own_tstart, m.ra = s.own_ra, m.dec = s.own_dec;
    REQUIRE_P("scan-metadata", pbt::close(g.fch1(), m.fch1, 1e-13, 0) && g.foff() == m.foff && g.tsamp() == m.tsamp && g.tstart() == m.tstart && g.src_raj() == m.ra && g.src_dej() == m.dec && g.source_name() == m.name &&
                                   g.telescope_id() == s.telescope && g.ntsteps() == s.T && g.nchans() == s.fine * (int64_t)s.cc.size(),
              w, ": metadata of the scan: fch1 ", g.fch1(), " foff ", g.foff(), " telescope ", g.telescope_id(), " steps ", g.ntsteps(), " channels ", g.nchans(), " tsamp ", g.tsamp(), " tstart ", g.tstart(), " source ", g.source_name());
    std::list<hit> all;
    for (int k = 0; k < (int)s.cc.size(); ++k) {
        auto cc = g.read_coarse_channel(k);
        expect_cc(*cc, s, k, w + " coarse channel " + std::to_string(k));
        all.insert(all.end(), s.cc[k].hits.begin(), s.cc[k].hits.end());
    }
    expect_hits(g.hits(), all, w);
}

static void channel(Ctx &c) {
    auto p = pbt::scratch_dir() + "/s02.capnp";
    auto s = gen_scan(c);
    int  k = c.u(0, s.cc.size() - 1);
    auto cc = build_cc(c, s, k);
    c.note(s.cc[k].hits.size(), " hits", s.cc[k].has ? "" : " (none searched)");
    bliss::write_coarse_channel_hits_to_capnp_file(cc, p);
    auto g = bliss::read_coarse_channel_hits_from_capnp_file(p);
    expect_cc(g, s, k, "coarse channel");
    c.nontrivial(s.cc[k].hits.size() > 1);
}
static void scans(Ctx &c) {
    quiet();
    static const std::vector<std::string> ends{".capnp", ".cp", "", ".dat.cp", ".dat.capnp", ".dat.x", ".data", ".DAT", "dat", "cp.dat."};
    auto p = pbt::scratch_dir() + "/s02" + c.pick(ends);
    auto s = gen_scan(c);
    auto sc = build_scan(c, s, true);
    size_t n = 0;
    for (auto &k : s.cc) n += k.hits.size();
    c.note(s.cc.size(), " coarse channels, ", n, " hits");
    bool general = c.b();
    if (general) bliss::write_scan_hits_to_file(sc, p, c.b() ? "" : "capnp");
    else bliss::write_scan_hits_to_capnp_file(sc, p);
    auto g = c.b() ? bliss::read_scan_hits_from_file(p, c.b() ? "" : "capnp") : bliss::read_scan_hits_from_capnp_file(p);
    expect_scan(g, s, "scan");
    if (c.b(1, 3)) { // and once more
        bliss::write_scan_hits_to_capnp_file(g, p);
        auto g2 = bliss::read_scan_hits_from_capnp_file(p);
        expect_scan(g2, s, "scan written twice");
    }
    c.nontrivial(s.cc.size() > 1 && n > 1);
}
static void groups(Ctx &c) {
    quiet();
    auto p = pbt::scratch_dir() + "/s02.capnp";
    bool cad = c.b();
    std::vector<std::vector<Sc>> m(cad ? c.i(0, 3) : 1);
    std::vector<bliss::observation_target> o;
    int n = 0;
    for (auto &t : m) {
        int k = c.i(0, 3);
        bliss::observation_target ot;
        for (int q = 0; q < k; ++q) {
            Sc s  = gen_scan(c);
            auto sc = build_scan(c, s, true);
            t.push_back(s);
            ot._scans.push_back(sc);
            ++n;
        }
        o.push_back(ot);
        c.note(k, " scans");
    }
    auto check = [&](std::vector<bliss::observation_target> &g, const std::string &w) {
        REQUIRE_P("structure", g.size() == m.size(), w, ": ", g.size(), " observations, expected ", m.size());
        for (size_t t = 0; t < m.size(); ++t) {
            REQUIRE_P("structure", g[t]._scans.size() == m[t].size(), w, ": observation ", t, " has ", g[t]._scans.size(), " scans, expected ", m[t].size());
            for (size_t k = 0; k < m[t].size(); ++k) expect_scan(g[t]._scans[k], m[t][k], w + " observation " + std::to_string(t) + " scan " + std::to_string(k));
        }
    };
    if (cad) {
        bliss::cadence x;
        x._observations = o;
        bliss::write_cadence_hits_to_capnp_files(x, p);
        auto g = bliss::read_cadence_hits_from_capnp_files(p);
        check(g._observations, "cadence");
    } else {
        bliss::write_observation_target_hits_to_capnp_files(o[0], p);
        std::vector<bliss::observation_target> g{bliss::read_observation_target_hits_from_capnp_files(p)};
        check(g, "observation");
    }
    c.label(cad ? "cadence" : "observation");
    c.nontrivial(n > 1);
}
// files larger than what a reader of untrusted messages accepts by default
static void large(Ctx &c) {
    auto p = pbt::scratch_dir() + "/s02-large.capnp";
    auto s = gen_scan(c);
    s.cc.resize(2);
    s.cc[0].has = s.cc[1].has = true;
    s.cc[0].hits.clear(), s.cc[1].hits.clear();
    hit h = gen_hit(c, false);
    int n = c.i(900000, 1000000);
    c.note(n, " hits");
    for (int k = 0; k < n; ++k) {
        h.start_freq_index = k;
        s.cc[k % 2].hits.push_back(h);
    }
    std::map<int, std::shared_ptr<coarse_channel>> m;
    for (int k = 0; k < 2; ++k) m[k] = std::make_shared<coarse_channel>(build_cc(c, s, k));
    bliss::write_scan_hits_to_capnp_file(bliss::scan(m), p);
    s.cc[0].hits.size();
    auto g = bliss::read_scan_hits_from_capnp_file(p);
    auto l = g.hits();
    ::unlink(p.c_str());
    REQUIRE_P("number-of-hits", (int)l.size() == n, l.size(), " hits of ", n);
    int k = 0;
    for (auto &x : l) {
        int e = k < (n + 1) / 2 ? 2 * k : 2 * (k - (n + 1) / 2) + 1;
        REQUIRE_P("hit-start_freq_index", x.start_freq_index == e, "hit ", k, " has index ", x.start_freq_index, " expected ", e);
        ++k;
    }
    c.nontrivial();
}

static void faults(Ctx &c) {
    quiet();
    auto p  = pbt::scratch_dir() + "/s02-faults.capnp";
    auto s  = gen_scan(c);
    auto sc = build_scan(c, s, false);
    int  k  = c.u(0, s.cc.size() - 1), how = c.u(0, 3);
    auto ot = bliss::observation_target(std::vector<bliss::scan>{sc});
    c.note("how ", how);
    fault::exercise(
            c, p,
            [&] {
                if (how == 0) bliss::write_coarse_channel_hits_to_capnp_file(*sc.read_coarse_channel(k), p);
                else if (how == 1) bliss::write_scan_hits_to_capnp_file(sc, p);
                else if (how == 2) bliss::write_observation_target_hits_to_capnp_files(ot, p);
                else bliss::write_cadence_hits_to_capnp_files(bliss::cadence(std::vector<bliss::observation_target>{ot}), p);
            },
            [&] {
                if (how == 0) {
                    auto g = bliss::read_coarse_channel_hits_from_capnp_file(p);
                    return expect_cc(g, s, k, "coarse channel");
                }
                auto g = how == 1 ? bliss::read_scan_hits_from_capnp_file(p) : how == 2 ? bliss::read_observation_target_hits_from_capnp_files(p)._scans.at(0) : bliss::read_cadence_hits_from_capnp_files(p)._observations.at(0)._scans.at(0);
                expect_scan(g, s, "scan");
            });
}
int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "S02";
    s.rule           = "channel: more than one hit; scans: more than one coarse channel and hit; groups: more than one scan; large: every case; faults: a call is short, interrupted or finds the disk full";
    s.quick_cases    = 24000;
    s.thorough_cases = 300000;
    s.assumptions    = "up to 4 coarse channels, 3 scans and 3 observations (up to 10^6 hits in the large facet); metadata the format has fields for; single precision fields compared in single precision";
    s.facets         = {{"channel", 2, 0, channel}, {"scans", 4, 0, scans}, {"groups", 3, 0, groups}, {"faults", 1, 0, faults}, {"large", 1, 3, large}};
    return pbt::run(argc, argv, s);
}

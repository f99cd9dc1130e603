// S04: text tables of hits (.dat).
#include "fault.hpp"
#include "hits.hpp"
#include <file_types/dat_file.hpp>
#include <file_types/hits_file.hpp>
#include <fstream>
#include <regex>
using namespace hg;
using namespace fb;
using bliss::coarse_channel;

struct Sc {
    std::string                 name;
    double                      fch1, foff, tsamp, tstart, ra, dec;
    int64_t                     T, fine;
    std::vector<std::list<hit>> cc;
    std::string                 path = "n/a";
};
// angles close to where the printed parts turn over are the interesting ones
static double gen_angle(Ctx &c, double lo, double hi, double parts) {
    if (c.b()) return c.real(lo, hi);
    double q = std::floor(c.real(lo, hi) * parts) / parts;
    if (c.b()) q += (c.b() ? 1 : -1) * c.real(0, 1) * 1e-6;
    return std::min(hi, std::max(lo, q));
}
static Sc gen_scan(Ctx &c) {
    Sc s;
    static const std::vector<std::string> names{"Voyager1", "a b", "{}", "HIP 1234", "%s"};
    s.name = c.pick(names);
    s.fch1 = c.real(100, 12000), s.foff = (c.b() ? 1 : -1) * c.real(1e-6, 0.3), s.tsamp = c.real(1e-4, 30), s.tstart = c.b() ? c.real(50000, 62000) : c.i(50000, 62000);
    s.ra = gen_angle(c, c.b(1, 4) ? -11.9999 : 0, 23.9999, c.b() ? 60 : 3600), s.dec = gen_angle(c, -90, 90, c.b() ? 60 : 3600);
    s.T = c.i(1, 40), s.fine = c.i(1, 9);
    s.cc.resize(c.i(1, 4));
    for (auto &k : s.cc) {
        k = gen_hits(c, 8, false);
        for (auto &h : k)
            if (c.b(1, 4)) h.start_freq_index = -c.u(0, 50);
        if (!k.empty() && c.b(1, 200)) { // a table of many rows
            auto few = k;
            for (int n = (int)c.i(20, 600); n > 0; --n)
                for (auto h : few) h.start_freq_MHz += 1e-3 * n, h.start_freq_index += n, k.push_back(h);
            c.label("many hits");
        }
    }
    return s;
}
static bliss::scan build_scan(Ctx &c, Sc &s) {
    if (c.b(1, 4)) {
        Spec f;
        f.T = s.T, f.F = s.fine * (int64_t)s.cc.size();
        f.val.assign(f.T * f.F, 1.0);
        f.fch1.v = s.fch1, f.foff.v = s.foff, f.tsamp.v = s.tsamp, f.tstart.v = s.tstart, f.machine_id = {true, 1, 2}, f.telescope_id = {true, 6, 2};
        f.src_raj.v = s.ra, f.src_dej.v = s.dec, f.az_start.v = 0.5, f.za_start.v = 0.25, f.data_type = {true, 1, 2}, f.nbits = {true, 32, 2}, f.nchans = {true, (double)f.F, 2}, f.nifs = {true, 1, 2};
        f.source_name.v = s.name, f.cls.v = "FILTERBANK", f.version.v = "1.0";
        s.path = pbt::scratch_dir() + "/s04-in.h5";
        fb::write(f, s.path);
        bliss::scan sc(s.path, (int)s.fine);
        ::unlink(s.path.c_str());
        auto h = s.cc;
        sc.add_coarse_channel_transform([h](coarse_channel x) {
            x.set_hits(h.at(x._coarse_channel_number));
            return x;
        });
        c.label("file backed");
        return sc;
    }
    std::map<int, std::shared_ptr<coarse_channel>> m;
    for (int k = 0; k < (int)s.cc.size(); ++k) {
        auto h = s.cc[k];
        m[k] = std::make_shared<coarse_channel>(s.fch1 + s.foff * (double)(k * s.fine), s.foff, (int64_t)1, (int64_t)32, s.fine, s.T, (int64_t)1, s.name, s.dec, s.ra, (int64_t)6, s.tsamp, s.tstart, (int64_t)1, 0.5, 0.25, (int64_t)k);
        if (c.b()) m[k]->set_hits(h);
        else m[k]->set_hits([h] { return h; });
    }
    return bliss::scan(m);
}
static std::vector<std::string> split(const std::string &s, char d) {
    std::vector<std::string> r(1);
    for (char x : s)
        if (x == d) r.emplace_back();
        else r.back() += x;
    return r;
}
static double num(const std::string &s, const std::string &w) {
    size_t n = 0;
    double v = 0;
    try { v = std::stod(s, &n); } catch (const std::exception &) { n = 0; }
    while (n < s.size() && s[n] == ' ') ++n;
    REQUIRE_P("number", n > 0 && n == s.size(), w, ": \"", s, "\" is not a number");
    return v;
}
// printed with (at least) six decimals; what it is derived from may itself be off by a few roundings
static void expect_num(const std::string &s, double e, const std::string &w, double rel = 1e-13) {
    double g = num(s, w);
    REQUIRE_P("value", std::fabs(g - e) <= 0.5000001e-6 + rel * std::fabs(e), w, ": ", s, " expected ", e);
}
static void expect_int(const std::string &s, int64_t e, const std::string &w) {
    num(s, w);
    REQUIRE_P("value", std::stoll(s) == e && s.find('.') == std::string::npos, w, ": ", s, " expected ", e);
}

static void table(Ctx &c) {
    quiet();
    auto s  = gen_scan(c);
    auto sc = build_scan(c, s);
    size_t n = 0;
    for (auto &k : s.cc) n += k.size();
    c.note(s.cc.size(), " coarse channels, ", n, " hits, ra ", s.ra, " dec ", s.dec);
    int  how = c.u(0, 2);
    auto p = pbt::scratch_dir() + (how == 1 ? (c.b() ? "/s04.dat" : "/s04.cp.dat") : c.b() ? "/s04.txt" : "/s04.capnp");
    if (c.b(1, 4)) { std::ofstream(p) << std::string(c.i(0, 20000), 'x'); } // contents of before are gone
    else ::unlink(p.c_str());
    std::string more = p + (c.b() ? ".dat" : "");
    std::string_view v(more.data(), p.size());
    if (how == 0) bliss::write_scan_hits_to_dat_file(sc, v);
    else if (how == 1) bliss::write_scan_hits_to_file(sc, v, c.b() ? "" : "dat");
    else bliss::write_scan_hits_to_file(sc, v, "dat");
    std::ifstream i(p, std::ios::binary);
    std::stringstream all;
    all << i.rdbuf();
    auto text = all.str();
    REQUIRE_P("lines", !text.empty() && text.back() == '\n', "the table does not end with a line end");
    text.pop_back();
    std::vector<std::string> head, rows;
    for (auto &l : split(text, '\n')) {
        if (l.rfind("#", 0) == 0) {
            REQUIRE_P("lines", rows.empty(), "a header line after a row");
            head.push_back(l);
        } else rows.push_back(l);
    }
    // rows
    REQUIRE_P("number-of-rows", rows.size() == n, rows.size(), " rows for ", n, " hits");
    size_t r = 0;
    for (auto &k : s.cc)
        for (auto &h : k) {
            auto        f = split(rows[r], '\t');
            std::string w = "row " + std::to_string(r);
            REQUIRE_P("columns", f.size() == 12, w, " has ", f.size(), " columns");
            double e = h.start_freq_MHz + h.duration_sec * h.drift_rate_Hz_per_sec / 1e6;
            expect_int(f[0], r + 1, w + " hit number");
            expect_num(f[1], h.drift_rate_Hz_per_sec, w + " drift rate");
            expect_num(f[2], h.snr, w + " snr");
            expect_num(f[3], (h.start_freq_MHz + e) / 2, w + " uncorrected frequency");
            expect_num(f[4], (h.start_freq_MHz + e) / 2, w + " corrected frequency");
            expect_int(f[5], h.start_freq_index, w + " index");
            expect_num(f[6], h.start_freq_MHz, w + " start frequency");
            expect_num(f[7], e, w + " end frequency");
            num(f[8], w), num(f[9], w);
            expect_int(f[10], h.coarse_channel_number, w + " coarse channel");
            num(f[11], w);
            ++r;
        }
    // header
    std::smatch m;
    std::string h;
    for (auto &l : head) h += l + "\n";
    REQUIRE_P("file-id", h.find("# File ID: " + s.path + "\n") != std::string::npos, "the file is not named ", s.path, " in ", h);
    REQUIRE_P("source", h.find("# Source:" + s.name + "\n") != std::string::npos || h.find("# Source: " + s.name + "\n") != std::string::npos, "the source is not named ", s.name, " in ", h);
    REQUIRE_P("header", std::regex_search(h, m, std::regex("# MJD: *(\\S+)\tRA: *(\\S+)\tDEC: *(\\S+)\n")), "no line with time and position in ", h);
    REQUIRE_P("mjd", std::fabs(num(m[1], "MJD") - s.tstart) <= 1e-9, "MJD ", m[1].str(), " expected ", s.tstart);
    std::string ra = m[2], dec = m[3];
    REQUIRE_P("ra", std::regex_match(ra, m, std::regex("(-?)(\\d\\d)h([0-5]\\d)m([0-5]\\d\\.\\d+)s")), "RA ", ra, " for ", s.ra);
    REQUIRE_P("ra", std::fabs((m[1].length() ? -1 : 1) * (num(m[2], "RA") + num(m[3], "RA") / 60 + num(m[4], "RA") / 3600) - s.ra) <= 0.51e-3 / 3600, "RA ", ra, " for ", s.ra);
    REQUIRE_P("dec", std::regex_match(dec, m, std::regex("([+-])(\\d\\d)d([0-5]\\d)m([0-5]\\d\\.\\d+)s")), "DEC ", dec, " for ", s.dec);
    double d = num(m[2], "DEC") + num(m[3], "DEC") / 60 + num(m[4], "DEC") / 3600;
    REQUIRE_P("dec", std::fabs((m[1] == "-" ? -d : d) - s.dec) <= 0.51e-2 / 3600, "DEC ", dec, " for ", s.dec);
    REQUIRE_P("header", std::regex_search(h, m, std::regex("# DELTAT: *(\\S+)\tDELTAF\\(Hz\\): *(\\S+) .*obs_length: *(\\S+)\n")), "no line with resolutions in ", h);
    expect_num(m[1], s.tsamp, "DELTAT");
    expect_num(m[2], s.foff * 1e6, "DELTAF");
    expect_num(m[3], s.tsamp * (double)s.T, "obs_length");
    REQUIRE_P("header", h.find("# Top_Hit_#\tDrift_Rate\tSNR\tUncorrected_Frequency\tCorrected_Frequency\tIndex\tfreq_start\tfreq_end\tSEFD\tSEFD_freq\tCoarse_Channel_Number\tFull_number_of_hits\n") != std::string::npos,
              "the columns are not named as they are in ", h);
    ::unlink(p.c_str());
    c.nontrivial(n > 1);
}
static void rejected(Ctx &c) {
    quiet();
    auto s  = gen_scan(c);
    auto sc = build_scan(c, s);
    int  how = c.u(0, 2);
    c.note("how ", how);
    bool threw = false;
    try {
        bliss::write_scan_hits_to_dat_file(sc, how == 0 ? pbt::scratch_dir() + "/no/such/x.dat" : how == 1 ? pbt::scratch_dir() : std::string("/dev/full"));
    } catch (const std::exception &) { threw = true; }
    REQUIRE_P("rejected", threw, "a table that could not be written was not reported");
    c.nontrivial();
}
static std::string slurp(const std::string &p) {
    std::ifstream     i(p, std::ios::binary);
    std::stringstream t;
    t << i.rdbuf();
    return t.str();
}
// what the header says is read from it, in the units of a scan
static void expect_header(const std::string &p, const Sc &s) {
    auto g = bliss::read_scan_hits_from_dat_file(p);
    REQUIRE_P("read-header", std::fabs(g.tstart() - s.tstart) <= 1e-9, "start ", g.tstart(), " was read, expected ", s.tstart);
    REQUIRE_P("read-header", std::fabs(g.tsamp() - s.tsamp) <= 0.51e-6 + 1e-13 * std::fabs(s.tsamp), "time resolution ", g.tsamp(), " was read, expected ", s.tsamp);
    REQUIRE_P("read-header", std::fabs(g.foff() - s.foff) <= 0.51e-12 + 1e-13 * std::fabs(s.foff), "frequency resolution ", g.foff(), " was read, expected ", s.foff);
}
static void header(Ctx &c) {
    quiet();
    auto p  = pbt::scratch_dir() + "/s04-header.dat";
    auto s  = gen_scan(c);
    auto sc = build_scan(c, s);
    c.note("tstart ", s.tstart, " tsamp ", s.tsamp, " foff ", s.foff);
    bliss::write_scan_hits_to_dat_file(sc, p);
    expect_header(p, s);
    ::unlink(p.c_str());
    c.nontrivial();
}
static void faults(Ctx &c) {
    quiet();
    auto p  = pbt::scratch_dir() + "/s04-faults.dat";
    auto s  = gen_scan(c);
    auto sc = build_scan(c, s);
    bliss::write_scan_hits_to_dat_file(sc, p);
    auto text = slurp(p);
    fault::exercise(c, p, [&] { bliss::write_scan_hits_to_dat_file(sc, p); }, [&] {
        REQUIRE_P("short-table", slurp(p) == text, "the table is another one than when it is written at once");
        expect_header(p, s);
    });
}
int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "S04";
    s.rule           = "table: more than one hit; rejected, header: every case; faults: a call is short, interrupted or finds the disk full";
    s.quick_cases    = 8000;
    s.thorough_cases = 300000;
    s.assumptions    = "up to 32 hits in up to 4 coarse channels with finite values; positions of 0..24 h and -90..90 degrees";
    s.facets         = {{"table", 9, 0, table}, {"rejected", 1, 0, rejected}, {"header", 1, 0, header}, {"faults", 1, 0, faults}};
    return pbt::run(argc, argv, s);
}

// B02: nested slices and frequency lookups of scans against the whole file.
#include "fb.hpp"
using namespace fb;

struct View {
    bliss::scan sc;
    int64_t     first, count; // coarse channels of the whole
    std::string name;
};
struct World {
    Spec    s;
    int64_t fine, coarse;
    bool    mapped;
};

static void check(Ctx &c, const World &w, View &v, bool all) {
    const Spec &s = w.s;
    double fch1 = num_value(s.fch1), foff = num_value(s.foff);
    REQUIRE_P("size", v.sc.get_number_coarse_channels() == v.count, v.name, ": ", v.sc.get_number_coarse_channels(), " coarse channels, expected ", v.count);
    if (v.count < w.coarse || s.F == w.fine * w.coarse) REQUIRE_P("size", v.sc.nchans() == v.count * w.fine, v.name, ": nchans ", v.sc.nchans(), " expected ", v.count * w.fine);
    double f0 = fch1 + foff * (double)(v.first * w.fine);
    REQUIRE_P("frequency", pbt::close(v.sc.fch1(), f0, 1e-12, 0), v.name, ": fch1 ", v.sc.fch1(), " expected ", f0);
    REQUIRE_P("metadata", v.sc.foff() == foff && v.sc.tsamp() == num_value(s.tsamp) && v.sc.tstart() == num_value(s.tstart) && v.sc.ntsteps() == s.T && v.sc.source_name() == s.source_name.v,
              v.name, ": other metadata changed");
    int reads = all ? (int)v.count : std::min<int>(1, v.count);
    for (int r = 0; r < reads; ++r) {
        int  i  = all ? r : (int)c.u(0, v.count - 1);
        auto cc = v.sc.read_coarse_channel(i);
        auto wh = v.name + " channel " + std::to_string(i);
        expect_cc("data", *cc, s, (v.first + i) * w.fine, w.fine, wh);
        double fi = fch1 + foff * (double)((v.first + i) * w.fine);
        REQUIRE_P("frequency", pbt::close(cc->fch1(), fi, 1e-12, 0), wh, ": fch1 ", cc->fch1(), " expected ", fi);
        REQUIRE_P("metadata", cc->nchans() == w.fine && cc->ntsteps() == s.T && cc->foff() == foff, wh, ": sizes");
        REQUIRE_P("metadata", cc->_coarse_channel_number == v.first + i, wh, ": numbered ", cc->_coarse_channel_number, ", it is channel ", v.first + i, " of the whole");
    }
    for (int k : {-1, (int)v.count}) {
        bool threw = false;
        try {
            v.sc.read_coarse_channel(k);
        } catch (const std::exception &) { threw = true; }
        REQUIRE_P("range", threw, v.name, ": channel ", k, " of ", v.count, " was read");
    }
    if (v.count > 0) { // a frequency away from the edge of its fine channel
        int64_t fine = c.i(0, v.count * w.fine - 1);
        double  fr = c.real(0.01, 0.99), f = fch1 + foff * ((double)(v.first * w.fine + fine) + fr);
        int     e = (int)(fine / w.fine), g = v.sc.get_coarse_channel_with_frequency(f);
        REQUIRE_P("lookup", g == e, v.name, ": fine channel ", fine, " + ", fr, " is found in coarse channel ", g, " expected ", e);
        // and one next to the scan is in none of its channels
        bool   below = c.b();
        double x     = fch1 + foff * ((double)((v.first + (below ? 0 : v.count)) * w.fine) + (below ? -fr : fr) * (double)(c.b() ? 1 : c.b() ? w.fine : 3 * w.fine));
        int    out   = -1;
        try {
            out = v.sc.get_coarse_channel_with_frequency(x);
        } catch (const std::exception &) {}
        REQUIRE_P("lookup", out < 0 || out >= v.count, v.name, ": a frequency ", below ? "before" : "behind", " the scan is found in coarse channel ", out, " of ", v.count);
    }
}

static void slices(Ctx &c) {
    quiet();
    World w;
    Spec &s  = w.s;
    s.T      = c.i(1, 4);
    w.fine   = c.i(1, 24);
    w.coarse = c.i(1, 9);
    w.mapped = c.b(1, 4);
    s.F      = w.fine * w.coarse + (!w.mapped && c.b(1, 3) ? c.u(0, w.fine - 1) : 0);
    gen_rest(c, s);
    // frequencies are resolved to a small part of a channel
    s.foff.store = s.fch1.store = 0;
    if (std::fabs(s.foff.v) < 1e-5) s.foff.v = s.foff.v < 0 ? -2.7939677238464355e-06 : 2.7939677238464355e-06;
    gen_samples(c, s);
    std::vector<View> live;
    if (w.mapped) {
        std::map<int, std::shared_ptr<bliss::coarse_channel>> m;
        for (int64_t k = 0; k < w.coarse; ++k) {
            ndarray d(Shape{s.T, w.fine}, ndarray::datatype::float32);
            for (int64_t t = 0; t < s.T; ++t)
                for (int64_t f = 0; f < w.fine; ++f) d.data_ptr<float>()[t * w.fine + f] = (float)s.at(t, k * w.fine + f);
            auto z = bland::zeros({s.T, w.fine}, ndarray::datatype::uint8);
            m[k] = std::make_shared<bliss::coarse_channel>(d, z, s.fch1.v + s.foff.v * (double)(k * w.fine), s.foff.v, (int64_t)1, (int64_t)32, w.fine, s.T, (int64_t)1, s.source_name.v, 1.0, 2.0,
                                                           (int64_t)3, num_value(s.tsamp), num_value(s.tstart), (int64_t)1, 0.5, 0.25, k);
        }
        live.push_back({bliss::scan(m), 0, w.coarse, "scan"});
    } else {
        auto path = pbt::scratch_dir() + "/b02.h5";
        write(s, path);
        live.push_back({bliss::scan(path, w.fine), 0, w.coarse, "scan"});
    }
    c.note(w.mapped ? "from channels" : "from file", " T=", s.T, " F=", s.F, " fine=", w.fine, " foff=", s.foff.v);
    int  n = c.i(1, 8), depth = 0;
    bool nested = false;
    for (int step = 0; step < n; ++step) {
        int   i  = c.u(0, (int64_t)live.size() - 1);
        auto &v  = live[i];
        int   op = c.u(0, 4);
        if (op <= 2) {
            int64_t a = c.i(0, v.count), k = c.i(0, v.count - a);
            bool    rest = c.b(1, 5);
            c.note("slice ", i, " (", a, ",", rest ? -1 : k, ")");
            View x{v.sc.slice_scan_channels(a, rest ? -1 : k), v.first + a, rest ? v.count - a : k, v.name + "/" + std::to_string(a) + "+" + std::to_string(rest ? -1 : k)};
            nested = nested || i > 0;
            live.push_back(x);
            check(c, w, live.back(), false);
        } else if (op == 3) {
            c.note("check ", i);
            check(c, w, v, false);
        } else {
            int64_t a = c.b() ? -c.i(1, 3) : c.u(0, v.count), k = a < 0 ? c.i(0, v.count) : v.count - a + c.i(1, 3);
            if (a < 0 && c.b()) a = 0, k = -c.i(2, 4);
            c.note("bad slice ", i, " (", a, ",", k, ")");
            bool threw = false;
            try {
                v.sc.slice_scan_channels(a, k);
            } catch (const std::exception &) { threw = true; }
            REQUIRE_P("bad-slice", threw, "slice (", a, ",", k, ") of ", v.count, " coarse channels was accepted");
        }
        (void)depth;
    }
    for (auto &v : live) check(c, w, v, true);
    if (w.mapped) c.label("scan-of-channels");
    if (nested) c.label("nested");
    if (s.foff.v < 0) c.label("descending");
    c.nontrivial(w.coarse > 1 && live.size() > 1 && s.T * w.fine > 1);
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property        = "B02";
    s.rule            = "more than one coarse channel, at least one slice, more than one sample per channel";
    s.quick_cases     = 16000;
    s.thorough_cases  = 150000;
    s.assumptions     = "up to 9 coarse channels of up to 24 fine channels, read from generated files or made of coarse channels; looked-up frequencies keep 1% of a fine channel away from channel edges (double rounding decides there)";
    s.facets          = {{"slices", 1, 0, slices}};
    return pbt::run(argc, argv, s);
}

// B06: observations and cadences of generated scans: consistency, lookups, slices.
#include "fb.hpp"
#include <core/cadence.hpp>
using namespace fb;
using bliss::cadence;
using bliss::observation_target;

struct Sc { // one scan of the model
    int64_t     T, fine, coarse, first; // first: coarse channel of the whole scan where this view starts
    double      fch1, foff;
    std::string name;
    double      base; // sample (t, f of the whole) = base + t*1000 + f
};
static bliss::scan build(const Sc &s) {
    std::map<int, std::shared_ptr<bliss::coarse_channel>> m;
    for (int64_t k = 0; k < s.coarse; ++k) {
        ndarray d(Shape{s.T, s.fine}, ndarray::datatype::float32);
        for (int64_t t = 0; t < s.T; ++t)
            for (int64_t f = 0; f < s.fine; ++f) d.data_ptr<float>()[t * s.fine + f] = (float)(s.base + t * 1000 + k * s.fine + f);
        auto z = bland::zeros({s.T, s.fine}, ndarray::datatype::uint8);
        m[k] = std::make_shared<bliss::coarse_channel>(d, z, s.fch1 + s.foff * (double)(k * s.fine), s.foff, (int64_t)1, (int64_t)32, s.fine, s.T, (int64_t)1, s.name, 1.0, 2.0, (int64_t)3, 18.0, 58000.0,
                                                       (int64_t)1, 0.5, 0.25, k);
    }
    return bliss::scan(m);
}
static std::string write_file(const Sc &s, int n) {
    Spec f;
    f.T = s.T, f.F = s.fine * s.coarse;
    for (int64_t t = 0; t < f.T; ++t)
        for (int64_t k = 0; k < f.F; ++k) f.val.push_back((float)(s.base + t * 1000 + k));
    f.fch1.v = s.fch1, f.foff.v = s.foff, f.tsamp.v = 18, f.tstart.v = 58000, f.machine_id = {true, 1, 2}, f.telescope_id = {true, 3, 2};
    f.src_raj.v = 2, f.src_dej.v = 1, f.az_start.v = 0.5, f.za_start.v = 0.25, f.data_type = {true, 1, 2}, f.nbits = {true, 32, 2}, f.nchans = {true, (double)f.F, 2}, f.nifs = {true, 1, 2};
    f.source_name.v = s.name, f.cls.v = "FILTERBANK", f.version.v = "1.0";
    auto p = pbt::scratch_dir() + "/b06-" + std::to_string(n) + ".h5";
    write(f, p);
    return p;
}
static Sc gen_scan(Ctx &c) {
    Sc s;
    s.T = c.i(1, 3), s.fine = c.i(1, 12), s.coarse = c.i(1, 6), s.first = 0;
    s.fch1 = 1000 + (double)c.u(0, 7000);
    s.foff = (c.b() ? 1 : -1) * (c.b() ? 2.7939677238464355e-06 : c.b() ? 0.001 : 0.25);
    return s;
}

static void check_scan(bliss::scan &x, const Sc &s, int64_t a, int64_t n, const std::string &w) {
    REQUIRE_P("scan", x.get_number_coarse_channels() == n, w, ": ", x.get_number_coarse_channels(), " coarse channels, expected ", n);
    REQUIRE_P("scan", x.source_name() == s.name, w, ": source name ", x.source_name());
    double f0 = s.fch1 + s.foff * (double)(a * s.fine);
    REQUIRE_P("scan", pbt::close(x.fch1(), f0, 1e-12, 0) && x.foff() == s.foff && x.ntsteps() == s.T && x.nchans() == n * s.fine, w, ": fch1 ", x.fch1(), " expected ", f0, ", nchans ", x.nchans());
    for (int64_t k = 0; k < n; ++k) {
        auto cc = x.read_coarse_channel(k);
        auto d  = cc->data();
        REQUIRE_P("scan", d.shape() == (Shape{s.T, s.fine}), w, ": shape");
        for (int64_t t = 0; t < s.T; ++t)
            for (int64_t f = 0; f < s.fine; ++f)
                REQUIRE_P("scan", d.scalarize<float>({t, f}) == (float)(s.base + t * 1000 + (a + k) * s.fine + f), w, ": sample (", t, ",", f, ") of channel ", k);
    }
}

static void cadences(Ctx &c) {
    quiet();
    Sc   base = gen_scan(c);
    int  nobs = c.i(1, 4);
    bool files = c.b(1, 6);
    int  bad_obs = -1, bad_scan = -1;
    std::vector<std::vector<Sc>> m(nobs);
    double stamp = 0;
    static const std::vector<std::string> names{"A", "B", "HIP1", "", "A", "HIP12"};
    int total = 0;
    for (auto &o : m) {
        int n = c.i(files ? 1 : 0, 3);
        std::string nm = c.pick(names);
        for (int k = 0; k < n; ++k) {
            Sc s   = base;
            s.base = stamp += 10000;
            s.name = c.b(1, 6) ? c.pick(names) : nm;
            s.T    = c.i(1, 3);
            o.push_back(s);
            ++total;
        }
    }
    std::string why;
    bool        bad = total > 1 && c.b(1, 3);
    if (bad) { // one scan that does not agree with the others
        std::vector<std::pair<int, int>> all;
        for (int i = 0; i < nobs; ++i)
            for (int k = 0; k < (int)m[i].size(); ++k) all.push_back({i, k});
        auto [i, k] = c.pick(all);
        bad_obs = i, bad_scan = k;
        auto &s = m[i][k];
        int   w = c.u(0, 4);
        if (w == 0) s.fch1 += (c.b() ? 1 : -1) * (c.b() ? 0.001 : 3.0), why = "fch1";
        else if (w == 1) s.foff = -s.foff, why = "sign of foff";
        else if (w == 2 && s.fine * s.coarse > 4 && std::fabs(s.foff) > 1e-4) s.foff *= 1.5, why = "foff";
        else if (w == 2) s.fch1 += 1, why = "fch1";
        else if (w == 3) s.coarse += 1, why = "coarse channels";
        else s.fine += 1, why = "fine channels";
        if (w == 1 && std::fabs(s.foff) * 2 * s.fine * s.coarse < 2e-6) s.fch1 += 1;
        if (w >= 3 && s.coarse * s.fine == base.coarse * base.fine) s.fch1 += 1;
    }
    for (auto &o : m) c.note("obs of ", o.size());
    c.note("coarse ", base.coarse, " fine ", base.fine, " foff ", base.foff, bad ? " disagreeing in " : "", why, files ? " from files" : "");
    cadence cad;
    std::vector<observation_target> targets;
    if (files && bad && (why == "fine channels")) files = false;
    if (files) {
        std::vector<std::vector<std::string>> paths(nobs);
        int n = 0;
        for (int i = 0; i < nobs; ++i)
            for (auto &s : m[i]) paths[i].push_back(write_file(s, n++));
        cad = cadence(paths, base.fine);
        targets = cad._observations;
    } else {
        for (int i = 0; i < nobs; ++i) {
            std::vector<bliss::scan> v;
            for (auto &s : m[i]) v.push_back(build(s));
            targets.push_back(observation_target(v));
        }
        cad = cadence(targets);
    }
    REQUIRE_P("structure", (int)cad._observations.size() == nobs, cad._observations.size(), " observations");
    for (int i = 0; i < nobs; ++i) {
        auto &o = cad._observations[i];
        REQUIRE_P("structure", o._scans.size() == m[i].size(), "observation ", i, " has ", o._scans.size(), " scans");
        for (size_t k = 0; k < m[i].size(); ++k) check_scan(o._scans[k], m[i][k], 0, m[i][k].coarse, "scan " + std::to_string(i) + "." + std::to_string(k));
        // the target is named after its scans
        std::set<std::string> nm;
        for (auto &s : m[i])
            if (!s.name.empty()) nm.insert(s.name);
        if (nm.empty()) REQUIRE_P("name", o._target_name == "unknown", "target of nameless scans is '", o._target_name, "'");
        else if (nm.size() == 1) REQUIRE_P("name", o._target_name == *nm.begin(), "target is '", o._target_name, "' for scans of '", *nm.begin(), "'");
        else
            for (auto &x : nm) REQUIRE_P("name", ("::" + o._target_name + "::").find("::" + x + "::") != std::string::npos, "target '", o._target_name, "' leaves out '", x, "'");
        // consistency of the observation
        bool agree = !(bad && bad_obs == i && m[i].size() > 1);
        REQUIRE_P("consistent", o.validate_scan_consistency() == agree, "observation ", i, ": consistent is ", o.validate_scan_consistency());
        int  got = -1, look = -1;
        bool threw = false;
        double f = base.fch1 + base.foff * ((double)(base.fine * base.coarse) - 0.5);
        if (bad && bad_obs == i) f = m[i][0].fch1 + m[i][0].foff * ((double)(m[i][0].fine * m[i][0].coarse) - 0.5);
        try {
            got  = o.get_number_coarse_channels();
            look = o.get_coarse_channel_with_frequency(f);
        } catch (const std::exception &) { threw = true; }
        if (m[i].empty()) REQUIRE_P("consistent", threw, "an observation without scans has ", got, " coarse channels");
        else if (!agree) REQUIRE_P("consistent", threw, "observation ", i, " disagrees but has ", got, " coarse channels");
        else REQUIRE_P("consistent", !threw && got == m[i][0].coarse && look == got - 1, "observation ", i, ": ", got, " coarse channels, last one looked up as ", look);
    }
    bool agree = !bad || total == 1;
    REQUIRE_P("consistent", cad.validate_scan_consistency() == agree, "cadence: consistent is ", cad.validate_scan_consistency());
    {
        int  got = -1, look = -1;
        bool threw = false;
        try {
            got  = cad.get_number_coarse_channels();
            look = cad.get_coarse_channel_with_frequency(base.fch1 + base.foff * ((double)(base.fine * base.coarse) - 0.5));
        } catch (const std::exception &) { threw = true; }
        if (total == 0 || !agree) REQUIRE_P("consistent", threw, "cadence has ", got, " coarse channels");
        else REQUIRE_P("consistent", !threw && got == base.coarse && look == got - 1, "cadence: ", got, " coarse channels, last one looked up as ", look);
    }
    // slices, twice nested
    if (bad && why == "coarse channels") return;
    int64_t a = c.i(0, base.coarse), n = c.i(0, base.coarse - a), a2 = c.i(0, n), n2 = c.i(0, n - a2);
    c.note("slice ", a, "+", n, " then ", a2, "+", n2);
    cad.set_device("cpu");
    auto s1 = cad.slice_cadence_channels(a, n);
    auto s2 = s1.slice_cadence_channels(a2, n2);
    auto check = [&](cadence &x, int64_t first, int64_t count, const char *w) {
        REQUIRE_P("slice", (int)x._observations.size() == nobs, w, ": ", x._observations.size(), " observations");
        for (int i = 0; i < nobs; ++i) {
            auto &o = x._observations[i];
            REQUIRE_P("slice", o._scans.size() == m[i].size(), w, ": observation ", i, " has ", o._scans.size(), " scans");
            REQUIRE_P("slice", o._target_name == targets[i]._target_name, w, ": observation ", i, " is named '", o._target_name, "' after '", targets[i]._target_name, "'");
            for (size_t k = 0; k < m[i].size(); ++k)
                check_scan(o._scans[k], m[i][k], first, count < 0 ? m[i][k].coarse : count, std::string(w) + " scan " + std::to_string(i) + "." + std::to_string(k));
        }
    };
    check(s1, a, n, "slice");
    check(s2, a + a2, n2, "nested slice");
    check(cad, 0, -1, "after slicing");
    if (nobs > 0) {
        int  i = c.u(0, nobs - 1);
        auto o = targets[i].slice_observation_channels(a, n);
        REQUIRE_P("slice", o._target_name == targets[i]._target_name && o._scans.size() == m[i].size(), "observation slice: '", o._target_name, "' with ", o._scans.size(), " scans");
        for (size_t k = 0; k < m[i].size(); ++k) check_scan(o._scans[k], m[i][k], a, n, "observation slice");
    }
    if (bad) c.label("disagreeing");
    c.label(files ? "files" : "channels");
    c.nontrivial(total > 1 && nobs > 1);
}

// bands of so many channels that counts need more than 32 bits; nothing is read from them
static void wide(Ctx &c) {
    quiet();
    auto    make = [&](int64_t fine, int64_t coarse, double fch1, double foff) {
        std::map<int, std::shared_ptr<bliss::coarse_channel>> m;
        auto none = []() -> ndarray { throw std::runtime_error("not to be read"); };
        for (int64_t k = 0; k < coarse; ++k)
            m[k] = std::make_shared<bliss::coarse_channel>(std::function<ndarray()>(none), std::function<ndarray()>(none), fch1 + foff * (double)(k * fine), foff, (int64_t)1, (int64_t)32, fine, (int64_t)2,
                                                           (int64_t)1, std::string("wide"), 1.0, 2.0, (int64_t)3, 18.0, 58000.0, (int64_t)1, 0.5, 0.25, k);
        return bliss::scan(m);
    };
    int64_t coarse = c.i(1, 6), fine = c.i(1 << 28, int64_t(1) << 33);
    double  foff = (c.b() ? 1 : -1) * c.real(1e-7, 3e-6), fch1 = c.real(1000, 9000);
    int     n = c.i(2, 4), bad = c.b(1, 3) ? (int)c.u(0, n - 1) : -1;
    // the one that differs has another number of channels (maybe in the upper half of the count only), channels of
    // another width so that the bands end apart, or another start
    int     how = bad < 0 ? -1 : c.u(0, 2);
    int64_t off = how != 0 ? 0 : c.b() ? int64_t(1) << 32 : c.i(1, 1000);
    double  apart = (c.b() ? 1 : -1) * 1e-6 * std::pow(10.0, c.real(0.5, 6)), band = (double)(coarse * fine);
    c.note(n, " scans of ", coarse, " x ", fine, " channels of ", foff, " MHz");
    if (how == 0) c.note("one with ", off, " more each");
    else if (how > 0) c.note("one which ", how == 1 ? "ends " : "starts ", apart, " MHz apart");
    // rounding in the headers is no disagreement
    auto                     noise = [&](double v) { return c.b() ? v : v * (1 + 4e-16 * (double)c.i(-1, 1)); };
    std::vector<bliss::scan> scans;
    for (int k = 0; k < n; ++k)
        scans.push_back(k == bad ? make(fine + off, coarse, fch1 + (how == 2 ? apart : 0), foff + (how == 1 ? apart / band : 0)) : make(fine, coarse, noise(fch1), noise(foff)));
    std::vector<observation_target> obs;
    observation_target              all(scans);
    if (c.b(1, 4)) obs.emplace_back(); // no scans
    for (auto &s : scans)
        if (obs.empty() || c.b()) obs.emplace_back(std::vector<bliss::scan>{s});
        else obs.back()._scans.push_back(s);
    cadence cad(obs);
    bool    ok = bad < 0;
    REQUIRE_P("accept", all.validate_scan_consistency() == ok, "an observation is ", ok ? "refused" : "accepted");
    REQUIRE_P("accept", cad.validate_scan_consistency() == ok, "a cadence is ", ok ? "refused" : "accepted");
    if (ok) {
        REQUIRE_P("count", all.get_number_coarse_channels() == coarse && cad.get_number_coarse_channels() == coarse, all.get_number_coarse_channels(), " coarse channels of ", coarse);
        int64_t k = c.i(0, coarse - 1);
        double  f = fch1 + foff * ((double)k + 0.5) * (double)fine;
        REQUIRE_P("lookup", all.get_coarse_channel_with_frequency(f) == k && cad.get_coarse_channel_with_frequency(f) == k, "the middle of coarse channel ", k, " is looked up as ", all.get_coarse_channel_with_frequency(f));
        int64_t a = c.i(0, coarse - 1), m = c.i(1, coarse - a);
        auto    sl = cad.slice_cadence_channels(a, m);
        for (auto &o : sl._observations)
            for (auto &s : o._scans)
                REQUIRE_P("slice", s.nchans() == m * fine && s.get_number_coarse_channels() == m && pbt::close(s.fch1(), fch1 + foff * (double)(a * fine), 1e-12, 0), "slice ", a, "+", m, " has ", s.nchans(), " channels from ", s.fch1());
    }
    c.nontrivial(true);
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property        = "B06";
    s.rule            = "cadences: at least two observations and two scans; wide: every case";
    s.quick_cases     = 16000;
    s.thorough_cases  = 200000;
    s.assumptions     = "disagreements of more than 1 Hz in first frequency or in accumulated channel width, or in the number of channels";
    s.facets          = {{"cadences", 7, 0, cadences}, {"wide", 2, 0, wide}};
    return pbt::run(argc, argv, s);
}

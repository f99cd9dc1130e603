// P03: the Python pipeline module gives what the C++ library gives.
#include "band.hpp"
#include "hits.hpp"
#include "py.hpp"
#include <core/cadence.hpp>
#include <core/event.hpp>
#include <drift_search/connected_components.hpp>
#include <drift_search/event_search.hpp>
#include <drift_search/filter_hits.hpp>
#include <drift_search/hit_search.hpp>
#include <drift_search/integrate_drifts.hpp>
#include <estimators/noise_estimate.hpp>
#include <estimators/spectral_kurtosis.hpp>
#include <file_types/cpnp_files.hpp>
#include <file_types/events_file.hpp>
#include <filesystem>
#include <flaggers/filter_rolloff.hpp>
#include <flaggers/magnitude.hpp>
#include <flaggers/sigmaclip.hpp>
#include <flaggers/spectral_kurtosis.hpp>
#include <fstream>
#include <preprocess/normalize.hpp>
#include <preprocess/passband_static_equalize.hpp>
using namespace band;
using namespace hg;
using bliss::event;
using bliss::scan;
using py::Program;
using py::Val;
using CC     = bliss::coarse_channel;
using Target = bliss::observation_target;
using bliss::cadence;

// ---- what is expected of out(): the same tree that py::parse makes
static Val V(double v) {
    Val r;
    r.kind = 'V', r.v = {v};
    return r;
}
static Val S(const std::string &t) {
    Val r;
    r.kind = 'S', r.text = t;
    return r;
}
static Val L(std::vector<Val> l) {
    Val r;
    r.kind = 'L', r.l = std::move(l);
    return r;
}
static Val A(const ndarray &a) {
    Val r;
    r.kind = 'A', r.dtype = py::np_code(a), r.shape = a.shape();
    r.v = py::values(a);
    return r;
}
template <class F> static Val T(F f) { // or an exception
    try {
        return f();
    } catch (const pbt::Violation &) {
        throw;
    } catch (...) { return S("!"); } // of any type, as those of HDF5
}
static std::string show(const Val &v) {
    std::ostringstream o;
    o.precision(17);
    if (v.kind == 'V') o << v.v[0];
    else if (v.kind == 'S') o << '"' << v.text << '"';
    else if (v.kind == 'L') {
        o << "[";
        for (auto &x : v.l) o << show(x) << " ";
        o << "]";
    } else if (v.kind == 'A') {
        o << v.dtype << pbt::str(v.shape) << "(";
        for (size_t k = 0; k < v.v.size() && k < 6; ++k) o << v.v[k] << " ";
        o << ")";
    } else o << v.kind;
    return o.str().substr(0, 400);
}
static void same(const Val &g, const Val &e, const std::string &w) {
    std::string key = w.substr(0, w.find_first_of("0123456789:["));
    REQUIRE_P(key, g.kind == e.kind && g.text == e.text && g.dtype == e.dtype && g.shape == e.shape && g.l.size() == e.l.size() && g.v.size() == e.v.size(), w, ": ", show(g), " expected ", show(e));
    for (size_t k = 0; k < g.v.size(); ++k) REQUIRE_P(key, hg::same(g.v[k], e.v[k]), w, ": element ", k, " is ", g.v[k], " expected ", e.v[k]);
    for (size_t k = 0; k < g.l.size(); ++k) same(g.l[k], e.l[k], w + "[" + std::to_string(k) + "]");
}

static const char *prelude = R"(
import pybliss as p, pickle, copy
b, ds, io, fl, es, pre = p.bland, p.drift_search, p.io, p.flaggers, p.estimators, p.preprocess
import types, sys, importlib
if 'plots' not in sys.modules:
    sys.modules['plots'] = types.ModuleType('plots')
    sys.modules['plots.utils'] = types.ModuleType('plots.utils')
    sys.modules['plots'].flaggers = fl
    sys.modules['plots'].__path__, sys.modules['plots.utils'].__path__ = [], [PLOTS]
encodings = importlib.import_module('plots.utils._encodings')
def t(f):
    try:
        return f()
    except Exception:
        return '!'
def attrs(o, names):
    return [t(lambda: getattr(o, n)) for n in names]
HIT = ['start_freq_index', 'start_freq_MHz', 'start_time_sec', 'duration_sec', 'rate_index', 'drift_rate_Hz_per_sec', 'power', 'time_span_steps', 'snr', 'bandwidth', 'binwidth']
def hit(h):
    return attrs(h, HIT) + [sorted([int(k), v] for k, v in h.rfi_counts.items()), repr(h)]
def hits(f):
    return t(lambda: [hit(h) for h in f()])
EVENT = ['starting_frequency_Hz', 'average_power', 'average_bandwidth', 'average_snr', 'average_drift_rate_Hz_per_sec', 'event_start_seconds', 'event_end_seconds']
def event(e):
    return attrs(e, EVENT) + [[hit(h) for h in e.hits], repr(e)]
META = ['az_start', 'data_type', 'fch1', 'foff', 'machine_id', 'nbits', 'nchans', 'source_name', 'src_dej', 'src_raj', 'telescope_id', 'tsamp', 'tstart', 'za_start']
def noise(n):
    return [n.noise_floor, n.noise_power, n.noise_amplitude, repr(n)]
def arr(f):
    return t(lambda: np.from_dlpack(f()))
def plane(f):
    pl = t(f)
    if isinstance(pl, str):
        return pl
    r = t(lambda: pl.integrated_rfi)
    return [arr(lambda: pl.integrated_drifts), [arr(lambda: getattr(r, n)) for n in ('filter_rolloff', 'low_spectral_kurtosis', 'high_spectral_kurtosis')],
            t(lambda: [attrs(d, ['index_in_plane', 'drift_rate_slope', 'drift_rate_Hz_per_sec', 'desmeared_bins']) for d in pl.drift_rate_info()])]
def channel(c):
    return [attrs(c, META), t(lambda: str(c.device())), arr(lambda: c.data), arr(lambda: c.mask), t(lambda: noise(c.noise_estimate)), plane(c.integrated_drift_plane), hits(lambda: c.hits)]
)";

static Val val(const hit &h) {
    std::vector<Val> r;
    for (auto &k : h.rfi_counts) r.push_back(L({V(k.first), V(k.second)}));
    return L({V(h.start_freq_index), V(h.start_freq_MHz), V(h.start_time_sec), V(h.duration_sec), V(h.rate_index), V(h.drift_rate_Hz_per_sec), V(h.power), V(h.time_span_steps), V(h.snr), V(h.bandwidth), V(h.binwidth), L(r), S(h.repr())});
}
template <class H> static Val val_hits(const H &l) {
    std::vector<Val> r;
    for (auto &h : l) r.push_back(val(h));
    return L(r);
}
static Val val(event e) { return L({V(e.starting_frequency_Hz), V(e.average_power), V(e.average_bandwidth), V(e.average_snr), V(e.average_drift_rate_Hz_per_sec), V(e.event_start_seconds), V(e.event_end_seconds), val_hits(e.hits), S(e.repr())}); }
template <class O> static Val meta(O &o) {
    return L({T([&] { return V(o.az_start()); }), T([&] { return V(o.data_type()); }), T([&] { return V(o.fch1()); }), T([&] { return V(o.foff()); }), T([&] { return V(o.machine_id()); }), T([&] { return V(o.nbits()); }), T([&] { return V(o.nchans()); }), T([&] { return S(o.source_name()); }), T([&] { return V(o.src_dej()); }), T([&] { return V(o.src_raj()); }), T([&] { return V(o.telescope_id()); }), T([&] { return V(o.tsamp()); }), T([&] { return V(o.tstart()); }), T([&] { return V(o.za_start()); })});
}
static Val val(bliss::noise_stats n) { return L({V(n.noise_floor()), V(n.noise_power()), V(n.noise_amplitude()), S(n.repr())}); }
static Val plane(CC &c) {
    return T([&] {
        auto pl = c.integrated_drift_plane();
        auto d  = T([&] { return A(pl.integrated_drift_plane()); });
        auto r  = pl.integrated_rfi();
        std::vector<Val> info;
        for (auto &i : pl.drift_rate_info()) info.push_back(L({V(i.index_in_plane), V(i.drift_rate_slope), V(i.drift_rate_Hz_per_sec), V(i.desmeared_bins)}));
        return L({d, L({A(r.filter_rolloff), A(r.low_spectral_kurtosis), A(r.high_spectral_kurtosis)}), L(info)});
    });
}
static Val val(CC &c) {
    std::vector<Val> v;
    v.push_back(meta(c));
    v.push_back(T([&] { return S(c.device().repr()); }));
    v.push_back(T([&] { return A(ndarray(c.data())); }));
    v.push_back(T([&] { return A(ndarray(c.mask())); }));
    v.push_back(T([&] { return val(c.noise_estimate()); }));
    v.push_back(plane(c));
    v.push_back(T([&] { return val_hits(c.hits()); }));
    return L(v);
}

// ---- stages with their options
struct Stage {
    int                                 kind = 0;
    float                               f[3] = {0, 0, 0};
    int                                 n = 0, variant = 0;
    bliss::noise_power_estimate_options noise;
    bliss::integrate_drifts_options     drifts;
    bliss::hit_search_options           hits;
    bliss::filter_options               filter;
    ndarray                             response;
    std::string                         path;
};
static std::string num(double v) {
    std::ostringstream o;
    o.precision(9);
    o << std::showpoint << v;
    return o.str();
}
static Stage gen_stage(Ctx &c, int kind, int64_t fine, int64_t T, int serial) {
    Stage s;
    s.kind = kind;
    switch (kind) {
    case 1: s.f[0] = (float)c.u(0, 8) / 16; break;
    case 2: s.f[0] = (float)c.u(0, 16) / 16, s.f[1] = (float)c.u(8, 80) / 8, s.f[2] = c.b() ? 2 : (float)c.u(1, 12) / 2, s.variant = c.u(0, 3); break;
    case 3: s.n = c.u(1, 6), s.f[0] = (float)c.u(8, 40) / 8, s.f[1] = (float)c.u(8, 40) / 8, s.variant = c.u(0, 2); break;
    case 4: s.variant = c.u(0, 1), s.f[0] = (float)c.u(4, 40) / 8; break;
    case 5: {
        std::vector<double> v;
        for (int64_t k = 0; k < fine; ++k) v.push_back((double)(float)(0.5 + (double)c.u(0, 100) / 64));
        s.response = arr::make(arr::K::f32, {fine}, v).nd;
        s.variant  = c.u(0, 3);
        s.path     = pbt::scratch_dir() + "/response" + std::to_string(serial) + ".f32";
        std::ofstream o(s.path, std::ios::binary);
        o.write((const char *)s.response.data_ptr<float>(), fine * 4);
    } break;
    case 6: s.noise.masked_estimate = c.b(), s.noise.estimator_method = c.b(7, 8) ? bliss::noise_power_estimator::STDDEV : bliss::noise_power_estimator::MEAN_ABSOLUTE_DEVIATION; break;
    case 7: s.drifts.desmear = c.b(), s.drifts.low_rate = -(int64_t)c.u(0, T), s.drifts.high_rate = c.u(0, T), s.drifts.rate_step_size = c.u(1, 3); break;
    case 8: s.hits.method = c.b() ? bliss::hit_search_methods::CONNECTED_COMPONENTS : bliss::hit_search_methods::LOCAL_MAXIMA, s.hits.snr_threshold = (float)c.u(6, 40) / 2, s.hits.neighbor_l1_dist = c.u(1, 9); break;
    case 9: s.filter.filter_zero_drift = c.b(); break;
    }
    return s;
}
template <class X> static X apply(const Stage &s, X x) {
    switch (s.kind) {
    case 0: return bliss::normalize(x);
    case 1: return bliss::flag_filter_rolloff(x, s.f[0]);
    case 2: return bliss::flag_spectral_kurtosis(x, s.f[0], s.f[1], s.f[2]);
    case 3: return bliss::flag_sigmaclip(x, s.n, s.f[0], s.f[1]);
    case 4:
        if constexpr (std::is_same_v<X, CC>)
            if (s.variant) return bliss::flag_magnitude(x, s.f[0]);
        return bliss::flag_magnitude(x);
    case 5:
        if (s.variant == 0) return bliss::equalize_passband_filter(x, s.response);
        return bliss::equalize_passband_filter(x, std::string_view(s.path), ndarray::datatype::float32);
    case 6:
        if constexpr (!std::is_same_v<X, CC>) return bliss::estimate_noise_power(x, s.noise);
        break;
    case 7: return bliss::integrate_drifts(x, s.drifts);
    case 8:
        if constexpr (!std::is_same_v<X, CC>) return bliss::hit_search(x, s.hits);
        break;
    default: return bliss::filter_hits(x, s.filter);
    }
    return x;
}
// the call of it on NAME
static std::string call(Program &p, const Stage &s, const std::string &x, bool channel) {
    std::ostringstream o;
    switch (s.kind) {
    case 0: o << "pre.normalize(" << x << ")"; break;
    case 1: o << "fl.flag_filter_rolloff(" << x << ", " << num(s.f[0]) << ")"; break;
    case 2:
        if (s.variant == 0) o << "fl.flag_spectral_kurtosis(" << x << ", upper_threshold=" << num(s.f[1]) << ", d=" << num(s.f[2]) << ", lower_threshold=" << num(s.f[0]) << ")";
        else if (s.f[2] == 2 && s.variant == 1) o << "fl.flag_spectral_kurtosis(" << x << ", " << num(s.f[0]) << ", " << num(s.f[1]) << ")";
        else o << "fl.flag_spectral_kurtosis(" << x << ", " << num(s.f[0]) << ", " << num(s.f[1]) << ", " << num(s.f[2]) << ")";
        break;
    case 3:
        if (s.variant == 0) o << "fl.flag_sigmaclip(" << x << ", upper_threshold=" << num(s.f[1]) << ", lower_threshold=" << num(s.f[0]) << ", max_iter=" << s.n << ")";
        else o << "fl.flag_sigmaclip(" << x << ", " << s.n << ", " << num(s.f[0]) << ", " << num(s.f[1]) << ")";
        break;
    case 4:
        o << "fl.flag_magnitude(" << x;
        if (channel && s.variant) o << ", " << num(s.f[0]);
        o << ")";
        break;
    case 5:
        if (s.variant == 0) {
            p.line("resp = np.fromfile('", s.path, "', 'f4'); resp = b.slice(resp, 0, 0, len(resp), 1)");
            o << "pre.equalize_passband_filter(" << x << ", resp)";
        } else { // the name is gone afterwards
            p.line("pth = ''.join(['", s.path, "'])");
            o << "pre.equalize_passband_filter(" << x << ", pth" << (s.variant == 1 ? "" : s.variant == 2 ? ", b.ndarray.datatype('float32')" : ", response_dtype=b.ndarray.datatype('float')") << ")";
        }
        break;
    case 6:
        p.line("o = es.noise_power_estimate_options(); o.masked_estimate = ", s.noise.masked_estimate ? "True" : "False", "; o.estimator_method = es.noise_power_estimator.", s.noise.estimator_method == bliss::noise_power_estimator::STDDEV ? "stddev" : "mad");
        o << "es.estimate_noise_power(" << x << ", o)";
        break;
    case 7:
        p.line("o = p.integrate_drifts_options(); o.desmear = ", s.drifts.desmear ? "True" : "False", "; o.low_rate = ", s.drifts.low_rate, "; o.high_rate = ", s.drifts.high_rate, "; o.rate_step_size = ", s.drifts.rate_step_size);
        o << "ds.integrate_drifts(" << x << ", o)";
        break;
    case 8:
        p.line("o = ds.hit_search_options(); o.method = ds.hit_search_methods.", s.hits.method == bliss::hit_search_methods::CONNECTED_COMPONENTS ? "connected_components" : "local_maxima", "; o.snr_threshold = ", num(s.hits.snr_threshold), "; o.neighbor_l1_dist = ", s.hits.neighbor_l1_dist);
        o << "ds.hit_search(" << x << ", o)";
        break;
    default:
        p.line("o = ds.filter_options(); o.filter_zero_drift = ", s.filter.filter_zero_drift ? "True" : "False");
        o << "ds.filter_hits(" << x << ", o)";
    }
    return o.str();
}

// ---- histories of objects of the pipeline
struct Live {
    std::string              name;
    int                      kind = 0; // 0 channel, 1 scan, 2 target, 3 cadence
    std::shared_ptr<CC>      cc;
    std::shared_ptr<scan>    sc;
    std::shared_ptr<Target>  ta;
    std::shared_ptr<cadence> ca;
    int                      stage = 0; // how far along the usual order
};
static std::string slurp(const std::string &f) {
    std::ifstream     i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
static void clean() {
    for (auto &e : std::filesystem::directory_iterator(pbt::scratch_dir()))
        if (e.path().filename().string().compare(0, 6, "python") != 0) std::filesystem::remove_all(e.path());
}
static std::vector<std::string> gen_files(Ctx &c, int64_t T, int64_t fine, int64_t n, int count, bool on = false) {
    std::vector<std::string> files;
    auto                     first = gen_band(c, T, fine, n);
    Tone                     shared{(int64_t)c.u(0, fine * n - 1), (int64_t)c.u(0, 4) - 2, c.real(10, 60)}; // of the first target
    for (int k = 0; k < count; ++k) {
        auto b = first;
        if (k) {
            pbt::Noise r(c.seed());
            for (auto &v : b.f.val) v = v * (0.5 + r.uni());
            b.f.tstart.v += k * 0.01;
            if (c.b()) b.f.source_name.v = "other";
        }
        double sigma = sigma_of(b);
        if (on && k < 2) add(b, shared, sigma);
        for (int q = c.u(0, on ? 1 : 3); q > 0; --q) add(b, {(int64_t)c.u(0, fine * n - 1), (int64_t)c.u(0, 2 * T) - T, c.real(1, 40)}, sigma);
        auto p = pbt::scratch_dir() + "/in" + std::to_string(k) + ".h5";
        store(b, p);
        files.push_back(p);
    }
    return files;
}
static double look_at(const scan &s, int at) { return s.fch1() + s.foff() * ((double)at + 0.5) * (double)s.nchans() / std::max(1., (double)s.get_number_coarse_channels()); }
static std::string exact(double v) {
    char b[64];
    std::snprintf(b, sizeof b, "float.fromhex('%a')", v);
    return b;
}
static std::string hexed(double v) {
    char b[64];
    std::snprintf(b, sizeof b, "%a", v);
    return b;
}
static Val look(const Live &l, int at) {
    switch (l.kind) {
    case 0: return val(*l.cc);
    case 1: {
        auto &s = *l.sc;
        auto m = meta(s);
        auto r = L({m, V(s.get_number_coarse_channels()), T([&] { return S(s.get_file_path()); }), S(s.device().repr()), T([&] { return val(*s.read_coarse_channel(at)); }), T([&] { return val_hits(s.hits()); }), T([&] { return V(s.get_coarse_channel_with_frequency(look_at(s, at))); })});
        return r;
    }
    case 2: {
        auto             &t = *l.ta;
        std::vector<Val> m;
        for (auto &s : t._scans) m.push_back(L({meta(s), T([&] { return val_hits(s.hits()); }), T([&] { return val(*s.read_coarse_channel(at)); })}));
        return L({S(t._target_name), T([&] { return V(t.get_number_coarse_channels()); }), T([&] { return V(t.validate_scan_consistency()); }), L(m), S(t.device().repr())});
    }
    default: {
        auto             &t = *l.ca;
        std::vector<Val> m;
        for (auto &o : t._observations) {
            std::vector<Val> q;
            for (auto &s : o._scans) q.push_back(T([&] { return val_hits(s.hits()); }));
            m.push_back(L({S(o._target_name), L(q), T([&] { return A(ndarray(o._scans.at(0).read_coarse_channel(at)->data())); })}));
        }
        return L({T([&] { return V(t.get_number_coarse_channels()); }), T([&] { return V(t.validate_scan_consistency()); }), L(m), S(t.device().repr())});
    }
    }
}
static std::string look_py(const Live &l, int at) {
    auto &x = l.name;
    auto  a = std::to_string(at);
    switch (l.kind) {
    case 0: return "channel(" + x + ")";
    case 1: return "[attrs(" + x + ", META), " + x + ".num_coarse_channels, t(" + x + ".get_file_path), str(" + x + ".device()), t(lambda: channel(" + x + ".read_coarse_channel(" + a + "))), hits(" + x + ".hits), t(lambda: " + x + ".get_coarse_channel_with_frequency(" + exact(look_at(*l.sc, at)) + "))]";
    case 2: return "[" + x + ".target_name, t(lambda: " + x + ".number_coarse_channels), t(" + x + ".validate_scan_consistency), [[attrs(s, META), hits(s.hits), t(lambda: channel(s.read_coarse_channel(" + a + ")))] for s in " + x + ".scans], str(" + x + ".device())]";
    default: return "[t(lambda: " + x + ".number_coarse_channels), t(" + x + ".validate_scan_consistency), [[q.target_name, [hits(s.hits) for s in q.scans], arr(lambda: q.scans[0].read_coarse_channel(" + a + ").data)] for q in " + x + ".observations], str(" + x + ".device())]";
    }
}

static void history(Ctx &c) {
    clean();
    Program p;
    p.line("PLOTS = '", SOURCES, "/bliss/python/blissdedrift/plot_utils'");
    p.line(prelude);
    std::list<std::vector<scan>>   old_scans; // replaced parts that may still be held
    std::list<std::vector<Target>> old_targets;
    std::vector<Live> live;
    std::vector<Val>  want;
    std::vector<std::string> what;
    std::vector<std::pair<std::string, std::string>> written;
    int64_t T_ = c.u(4, 12), fine = 16 << c.u(0, 2), n = c.u(1, 3);
    bool    directed = c.b(1, 3); // a search for events
    auto    files = gen_files(c, T_, fine, n, directed ? 3 : c.u(1, 4), directed);
    int     serial = 0, applied = 0, found = 0;
    auto name_of = [&] { return "v" + std::to_string(serial++); };
    auto expect = [&](const std::string &w, const std::string &program, const Val &v) {
        p.line("out(", program, ")");
        want.push_back(v), what.push_back(w);
    };
    // NAME = EXPRESSION, or an exception on both sides
    auto make = [&](Live l, const std::string &e, auto f) {
        l.name = name_of();
        c.note(l.name, " = ", e);
        bool ok = true;
        try {
            f(l);
        } catch (const std::exception &x) { ok = false, c.note("(refused)"); }
        p.line("try:\n    ", l.name, " = ", e, "\n    out(1)\nexcept Exception:\n    out(0)");
        want.push_back(V(ok)), what.push_back("refusal: of " + e);
        if (ok) live.push_back(l);
        return ok;
    };
    auto list_of = [](const std::vector<std::string> &v) {
        std::string r = "[";
        for (auto &s : v) r += "'" + s + "', ";
        return r + "]";
    };
    int steps = c.u(3, 16);
    for (int st = 0; st < steps; ++st) {
        int op = live.empty() ? c.u(0, 3) : c.b(1, 2) ? 20 : c.u(0, 15);
        int i  = live.empty() ? 0 : c.b() ? live.size() - 1 : c.u(0, live.size() - 1);
        int fp = c.b(1, 12) ? 0 : (int)fine;
        if (directed && st < 4 && (st == 0 || !live.empty())) op = st == 0 ? 3 : st == 1 ? 20 : st == 2 ? 11 : c.u(0, 2) == 0 ? 5 : c.b() ? 15 : 14, i = (int)live.size() - 1;
        Live x = live.empty() ? Live{} : live[i];
        switch (op) {
        case 0:
        case 1: {
            auto f = c.pick(files);
            make({"", 1}, op ? "p.scan('" + f + "', " + std::to_string(fp) + ")" : "p.scan(file_path='" + f + "', fine_channels_per_coarse=" + std::to_string(fp) + ")", [&](Live &l) { l.sc = std::make_shared<scan>(std::string_view(f), fp); });
        } break;
        case 2: {
            std::vector<std::string> fs;
            for (int k = c.u(1, 3); k > 0; --k) fs.push_back(c.pick(files));
            make({"", 2}, "p.observation_target(" + list_of(fs) + ", " + std::to_string(fp) + ")", [&](Live &l) { l.ta = std::make_shared<Target>(fs, fp); });
        } break;
        case 3: {
            std::vector<std::vector<std::string>> fs(c.u(1, 3));
            std::string                           e = "[";
            if (directed && st == 0) fs.resize(2);
            for (auto &f : fs) {
                if (directed && st == 0) f = &f == &fs[0] ? std::vector<std::string>{files[0], files[1]} : std::vector<std::string>{files[2]}, e += list_of(f) + ", ";
                else
                for (int k = c.b(1, 8) ? 0 : c.u(1, 2); k > 0; --k) f.push_back(c.pick(files));
                if (!(directed && st == 0)) e += list_of(f) + ", ";
            }
            make({"", 3}, "p.cadence(" + e + "], fine_channels_per_coarse=" + std::to_string(fp) + ")", [&](Live &l) { l.ca = std::make_shared<cadence>(fs, fp); });
        } break;
        case 4: { // from objects
            if (x.kind == 1) {
                std::vector<scan> v;
                std::string       e = "[";
                for (auto &y : live)
                    if (y.kind == 1 && c.b()) v.push_back(*y.sc), e += y.name + ", ";
                if (v.empty()) v.push_back(*x.sc), e += x.name;
                make({"", 2, {}, {}, {}, {}, x.stage}, "p.observation_target(scans=" + e + "])", [&](Live &l) { l.ta = std::make_shared<Target>(v); });
            } else if (x.kind == 2) {
                std::vector<Target> v;
                std::string         e;
                if (c.b(1, 4)) v.push_back(Target(std::vector<scan>{})), e += "p.observation_target(scans=[]), ";
                for (auto &y : live)
                    if (y.kind == 2 && c.b()) v.push_back(*y.ta), e += y.name + ", ";
                v.push_back(*x.ta), e += x.name;
                make({"", 3, {}, {}, {}, {}, x.stage}, "p.cadence(observations=[" + e + "])", [&](Live &l) { l.ca = std::make_shared<cadence>(v); });
            }
        } break;
        case 5: { // parts
            int k = c.u(0, 2);
            if (x.kind == 1) {
                bool peak = c.b();
                if (peak) expect("peak: of " + x.name, "t(lambda: " + x.name + ".peak_coarse_channel(" + std::to_string(k) + ") is None)", T([&] { return V(!x.sc->peak_coarse_channel(k)); }));
                bool none = false;
                try {
                    none = peak && !x.sc->peak_coarse_channel(k);
                } catch (const std::exception &) {}
                if (!none) make({"", 0, {}, {}, {}, {}, x.stage}, x.name + (peak ? ".peak" : ".read") + "_coarse_channel(" + std::to_string(k) + ")", [&](Live &l) { l.cc = peak ? x.sc->peak_coarse_channel(k) : x.sc->read_coarse_channel(k); });
            }
            else if (x.kind == 2) make({"", 1, {}, {}, {}, {}, x.stage}, x.name + ".scans[" + std::to_string(k) + "]", [&](Live &l) { l.sc = std::shared_ptr<scan>(x.ta, &x.ta->_scans.at(k)); });
            else if (x.kind == 3) make({"", 2, {}, {}, {}, {}, x.stage}, x.name + ".observations[" + std::to_string(k) + "]", [&](Live &l) { l.ta = std::shared_ptr<Target>(x.ca, &x.ca->_observations.at(k)); });
        } break;
        case 6: { // slices
            int  a = c.u(0, 3), k = c.u(0, 3);
            bool dflt = c.b(1, 4);
            if (dflt) k = 1;
            auto e = std::string(x.kind == 1 ? "scan" : x.kind == 2 ? "observation" : "cadence") + "_channels(" + (dflt ? "start=" + std::to_string(a) : std::to_string(a) + ", count=" + std::to_string(k)) + ")";
            if (x.kind == 1) make({"", 1, {}, {}, {}, {}, x.stage}, x.name + ".slice_" + e, [&](Live &l) { l.sc = std::make_shared<scan>(x.sc->slice_scan_channels(a, k)); });
            else if (x.kind == 2) make({"", 2, {}, {}, {}, {}, x.stage}, x.name + ".slice_" + e, [&](Live &l) { l.ta = std::make_shared<Target>(x.ta->slice_observation_channels(a, k)); });
            else if (x.kind == 3) make({"", 3, {}, {}, {}, {}, x.stage}, x.name + ".slice_" + e, [&](Live &l) { l.ca = std::make_shared<cadence>(x.ca->slice_cadence_channels(a, k)); });
        } break;
        case 7: // replaced parts
            if (x.kind == 2) {
                auto held = name_of();
                int  k = c.u(0, 1);
                auto part = k < (int)x.ta->_scans.size() ? std::shared_ptr<scan>(x.ta, &x.ta->_scans[k]) : nullptr;
                if (part) p.line(held, " = ", x.name, ".scans[", k, "]");
                std::vector<scan> v;
                std::string       e;
                for (auto &y : live)
                    if (y.kind == 1 && c.b()) v.push_back(*y.sc), e += y.name + ", ";
                if (v.empty()) v = x.ta->_scans, e = "*" + x.name + ".scans, *" + x.name + ".scans", v.insert(v.end(), x.ta->_scans.begin(), x.ta->_scans.end());
                auto nm = "renamed" + std::to_string(c.u(0, 9));
                old_scans.emplace_back(std::move(x.ta->_scans)), x.ta->_scans = v, x.ta->_target_name = nm;
                p.line(x.name, ".scans = [", e, "]; ", x.name, ".target_name = '", nm, "'");
                c.note(x.name, ".scans = [", e, "] while ", held, " is held");
                if (part) live.push_back({held, 1, {}, part, {}, {}, x.stage});
            } else if (x.kind == 3) {
                auto held = name_of();
                auto part = !x.ca->_observations.empty() ? std::shared_ptr<Target>(x.ca, &x.ca->_observations[0]) : nullptr;
                if (part) p.line(held, " = ", x.name, ".observations[0]");
                std::vector<Target> v;
                std::string         e;
                for (auto &y : live)
                    if (y.kind == 2 && c.b()) v.push_back(*y.ta), e += y.name + ", ";
                if (v.empty()) v = {*part}, e = held;
                old_targets.emplace_back(std::move(x.ca->_observations)), x.ca->_observations = v;
                p.line(x.name, ".observations = [", e, "]");
                c.note(x.name, ".observations = [", e, "] while ", held, " is held");
                if (part) live.push_back({held, 2, {}, {}, part, {}, x.stage});
            }
            break;
        case 8: // gone
            p.line("del ", x.name, "; gc.collect(); junk = [bytes(200) for _ in range(9)]");
            c.note("del ", x.name);
            live.erase(live.begin() + i);
            break;
        case 9:
        case 10: { // hits in files
            auto a = pbt::scratch_dir() + "/c" + std::to_string(serial), q = pbt::scratch_dir() + "/p" + std::to_string(serial);
            bool named = c.b(); // arguments by name
            if (x.kind == 1) {
                auto r = T([&] { bliss::write_scan_hits_to_capnp_file(*x.sc, a); auto s = bliss::read_scan_hits_from_capnp_file(a); return L({meta(s), val_hits(s.hits())}); });
                p.line("def f():\n    io.write_scan_hits_to_file(", named ? "scan_with_hits=" : "", x.name, named ? ", file_path='" : ", '", q, "')\n    s = io.read_scan_hits_from_capnp_file(", named ? "file_path='" : "'", q, "')\n    return [attrs(s, META), hits(s.hits)]");
                expect("scan file: of " + x.name, "t(f)", r);
            } else if (x.kind == 2) {
                auto r = T([&] {
                    bliss::write_observation_target_hits_to_capnp_files(*x.ta, a);
                    auto             s = bliss::read_observation_target_hits_from_capnp_files(a);
                    std::vector<Val> v;
                    for (auto &y : s._scans) v.push_back(val_hits(y.hits()));
                    return L(v);
                });
                p.line("def f():\n    io.write_observation_target_hits_to_capnp_files(", named ? "observation_target=" : "", x.name, named ? ", file_path='" : ", '", q, "')\n    s = io.read_observation_target_hits_from_capnp_files(", named ? "file_path='" : "'", q, "')\n    return [hits(y.hits) for y in s.scans]");
                expect("target files: of " + x.name, "t(f)", r);
            } else if (x.kind == 3) {
                auto r = T([&] {
                    bliss::write_cadence_hits_to_capnp_files(*x.ca, a);
                    auto             s = bliss::read_cadence_hits_from_capnp_files(a);
                    std::vector<Val> v;
                    for (auto &o : s._observations)
                        for (auto &y : o._scans) v.push_back(val_hits(y.hits()));
                    return L(v);
                });
                p.line("def f():\n    io.write_cadence_hits_to_capnp_files(", named ? "cadence_with_hits=" : "", x.name, named ? ", base_filename='" : ", '", q, "')\n    s = io.read_cadence_hits_from_capnp_files(", named ? "base_filename='" : "'", q, "')\n    return [hits(y.hits) for o in s.observations for y in o.scans]");
                expect("cadence files: of " + x.name, "t(f)", r);
            }
            ++serial;
        } break;
        case 11: // events
            if (x.kind == 3) {
                if (x.stage > 6) c.label("event search");
                auto a = pbt::scratch_dir() + "/c" + std::to_string(serial), q = pbt::scratch_dir() + "/p" + std::to_string(serial);
                ++serial;
                auto r = T([&] {
                    auto             ev = bliss::event_search(*x.ca);
                    std::vector<Val> v, w;
                    for (auto &e : ev) v.push_back(val(e));
                    if (!ev.empty()) c.label("event"), found = 1;
                    bliss::write_events_to_file(ev, a);
                    for (auto &e : bliss::read_events_from_file(a)) w.push_back(val(e));
                    return L({L(v), L(v), L(w)});
                });
                p.line("def f():\n    e = ds.event_search(", x.name, ")\n    io.write_events_to_file(e, '", q, "')\n    return [[event(x) for x in e], [event(x) for x in pickle.loads(pickle.dumps(e))], [event(x) for x in io.read_events_from_file('", q, "')]]");
                expect("events: of " + x.name, "t(f)", r);
            }
            break;
        case 12: // hits as values
            if (x.kind == 1) {
                auto f = c.b();
                auto r = T([&] {
                    auto h = x.sc->hits();
                    if (!h.empty()) c.label("hit"), found = 1;
                    return L({val_hits(h), val_hits(h), val_hits(bliss::filter_hits(h, {f}))});
                });
                p.line("o = ds.filter_options(); o.filter_zero_drift = ", f ? "True" : "False");
                expect("hit list: of " + x.name, std::string("t(lambda: [[hit(h) for h in pickle.loads(pickle.dumps(") + x.name + ".hits()))], [hit(copy.deepcopy(h)) for h in " + x.name + ".hits()], [hit(h) for h in ds.filter_hits(" + x.name + ".hits(), o)]])", r);
            }
            break;
        case 13:
            p.line(x.name, ".set_device(", c.b() ? "'cpu'" : "b.ndarray.dev('cpu')", x.kind ? ", verbose=False" : "", ")");
            if (x.kind == 0) x.cc->set_device("cpu");
            else if (x.kind == 1) x.sc->set_device("cpu", false);
            else if (x.kind == 2) x.ta->set_device("cpu", false);
            else x.ca->set_device("cpu", false);
            break;
        case 14: {
            int at = c.u(0, n);
            if (x.kind < 2 && c.b(1, 4)) { // kurtosis of a channel, without changing it
                float d   = c.b() ? 2 : (float)c.u(1, 12) / 4;
                auto  arg = d == 2 ? std::string(c.b() ? "" : ", 2") : (c.b() ? ", d=" : ", ") + num(d);
                auto  r   = T([&] {
                    auto ch = x.kind == 0 ? x.cc : x.sc->read_coarse_channel(at);
                    return T([&] { return A(bliss::estimate_spectral_kurtosis(*ch, d)); });
                });
                c.label("kurtosis of a channel");
                expect("kurtosis: of " + x.name, "t(lambda: arr(lambda: es.estimate_spectral_kurtosis(" + x.name + (x.kind == 0 ? "" : ".read_coarse_channel(" + std::to_string(at) + ")") + arg + ")))", r);
            }
            expect("view " + std::to_string(at) + " of " + x.name, look_py(x, at), look(x, at));
        } break;
        case 15: { // for plots
            std::vector<Val> v;
            auto entry = [&](auto &h, const std::string &origin) { v.push_back(L({V(h.start_freq_MHz), V(h.drift_rate_Hz_per_sec), V(h.snr), V(h.power), V(h.bandwidth), S(origin)})); };
            auto fixed = [](double d) {
                char b[400];
                std::snprintf(b, sizeof b, "%.4f", d);
                return std::string(b);
            };
            auto origin = [&](auto &o) { return o.source_name() + ":" + fixed(o.src_dej()) + "," + fixed(o.src_raj()) + ":" + fixed(o.tstart()); };
            auto of_target = [&](Target &t, const std::string &prefix) {
                for (size_t k = 0; k < t._scans.size(); ++k)
                    for (auto &h : t._scans[k].hits()) entry(h, prefix + t._target_name + "-" + std::to_string(k));
            };
            bool named = x.kind < 2 && c.b();
            auto r = T([&] {
                if (x.kind == 0) {
                    auto o = named ? "it" : origin(*x.cc);
                    for (auto &h : x.cc->hits()) entry(h, o);
                } else if (x.kind == 1) {
                    auto o = named ? "it" : origin(*x.sc);
                    for (auto &h : x.sc->hits()) entry(h, o);
                } else if (x.kind == 2) of_target(*x.ta, "");
                else
                    for (size_t k = 0; k < x.ca->_observations.size(); ++k) of_target(x.ca->_observations[k], std::string(1, 'A' + k) + ":");
                return L(v);
            });
            if (!v.empty()) c.label("encoded for plots");
            expect("encodings: of " + x.name, "t(lambda: [[h[k] for k in ('start_freq_MHz', 'drift_rate_Hz_per_sec', 'SNR', 'power', 'bandwidth_Hz', 'origin')] for h in encodings.get_hits_list(" + x.name + (named ? ", 'it'" : "") + ")])", r);
        } break;
        default: { // a stage, mostly the next of the usual order, or all that are left of that
            static const int usual[] = {0, 1, 2, 3, 6, 7, 8, 9};
            bool             all = (directed && st == 1) || c.b(1, 3);
            do {
                int s = x.stage > 7 || (!all && c.b(1, 4)) ? c.u(0, 9) : usual[x.stage];
                if (all && (s == 2 || s == 3) && c.b()) { // left out
                    ++x.stage;
                    continue;
                }
                if (x.kind == 0 && (s == 6 || s == 8)) s = 9;
                auto stage = gen_stage(c, s, fine, T_, serial);
                auto e = call(p, stage, x.name, x.kind == 0);
                Live l{"", x.kind, {}, {}, {}, {}, x.stage < 8 && (all || s == usual[x.stage]) ? x.stage + 1 : x.stage};
                bool ok = make(l, e, [&](Live &l) {
                    if (x.kind == 0) l.cc = std::make_shared<CC>(apply(stage, *x.cc));
                    else if (x.kind == 1) l.sc = std::make_shared<scan>(apply(stage, *x.sc));
                    else if (x.kind == 2) l.ta = std::make_shared<Target>(apply(stage, *x.ta));
                    else l.ca = std::make_shared<cadence>(apply(stage, *x.ca));
                });
                if (!stage.path.empty()) p.line("pth = resp = None; junk = [('x' * k) for k in range(40, 90)]");
                ++applied;
                if (!ok) break;
                x = live.back();
            } while (all && x.stage < 8);
        }
        }
    }
    for (auto &x : live) {
        int at = c.u(0, n - 1);
        if (x.kind == 1 && x.stage > 6) T([&] { if (!x.sc->hits().empty()) c.label("scan with hits"); return V(0); });
        expect("final " + std::to_string(at) + " of " + x.name, look_py(x, at), look(x, at));
    }
    auto r = p.run();
    REQUIRE_P("results", r.size() == want.size(), r.size(), " results of ", want.size());
    for (size_t k = 0; k < r.size(); ++k) same(r[k], want[k], what[k]);
    c.nontrivial(applied > 1);
}

// ---- functions of arrays, files of hits and values
static ndarray gen_array(Ctx &c, Program &p, const std::string &name, std::vector<int64_t> shape, bool bytes = false) {
    std::vector<double> v;
    int64_t             n = arr::numel(shape);
    pbt::Noise          r(c.seed());
    double              mean = c.real(1, 100);
    for (int64_t k = 0; k < n; ++k) v.push_back(bytes ? (double)(r.uni() < 0.4) : (double)(float)(mean * -std::log(1 - r.uni())));
    for (int q = c.u(0, 2); q > 0 && !bytes; --q) v[c.u(0, n - 1)] = (double)(float)(mean * c.real(3, 60));
    auto a = arr::make(bytes ? arr::K::u8 : arr::K::f32, shape, v);
    // as numpy's, or the module's
    std::ofstream o(pbt::scratch_dir() + "/" + name, std::ios::binary);
    if (bytes) o.write((const char *)a.nd.data_ptr<uint8_t>(), n);
    else o.write((const char *)a.nd.data_ptr<float>(), n * 4);
    p.line(name, " = np.fromfile('", pbt::scratch_dir(), "/", name, "', '", bytes ? "u1" : "f4", "').reshape(", py::list(shape), ")");
    return a.nd;
}
static const char *module_copy(Ctx &c, Program &p, const std::string &name) { // the module's own array, which owns a copy
    p.line(name, " = b.slice(", name, ", 0, 0, ", name, ".shape[0], 1)");
    return "";
}
static std::vector<Val> val_proto(const std::vector<bliss::protohit> &l) {
    std::vector<Val> r;
    for (auto &h : l) {
        std::vector<Val> q, k;
        for (auto &x : h.locations) q.push_back(L({V(x.drift_index), V(x.frequency_channel)}));
        for (auto &x : h.rfi_counts) k.push_back(L({V((int)x.first), V(x.second)}));
        r.push_back(L({L(q), V(h.index_max.drift_index), V(h.index_max.frequency_channel), L(k)}));
    }
    return r;
}
static void functions(Ctx &c) {
    clean();
    Program p;
    p.line("PLOTS = '", SOURCES, "/bliss/python/blissdedrift/plot_utils'");
    p.line(prelude);
    p.line("def proto(h): return [[[x.drift_index, x.frequency_channel] for x in h.locations], h.index_max.drift_index, h.index_max.frequency_channel, sorted([int(k), v] for k, v in h.rfi_counts.items())]");
    std::vector<Val>         want;
    std::vector<std::string> what;
    auto expect = [&](const std::string &w, const std::string &program, const Val &v) {
        p.line("out(", program, ")");
        want.push_back(v), what.push_back(w);
    };
    int steps = c.u(1, 5), did = 0;
    for (int st = 0; st < steps; ++st) {
        auto x  = "x" + std::to_string(st);
        bool md = c.b();
        switch (c.u(0, 13)) {
        case 0: {
            int         n = c.u(1, 40);
            float       f = (float)c.u(1, 63) / 128;
            std::string w = c.pick(std::vector<std::string>{"hamming", "hann", "rect", "blackman", "none such"});
            expect("firdes: " + w, "t(lambda: arr(lambda: pre.firdes(" + std::to_string(n) + ", " + num(f) + ", '" + w + "')))", T([&] { return A(bliss::firdes(n, f, w)); }));
        } break;
        case 1: {
            int         fine = 4 << c.u(0, 4), n = c.u(1, 24), taps = c.u(1, 6);
            std::string w = c.pick(std::vector<std::string>{"hamming", "hann", "rect"});
            bool        dflt = c.b(1, 3);
            auto        e    = "fine_per_coarse=" + std::to_string(fine) + ", num_coarse_channels=" + std::to_string(n) + ", taps_per_channel=" + std::to_string(taps);
            expect("response: of " + e, "t(lambda: arr(lambda: pre.gen_coarse_channel_response(" + (dflt ? e : std::to_string(fine) + ", " + std::to_string(n) + ", " + std::to_string(taps) + ", '" + w + "', device_str='cpu'") + ")))", T([&] { return A(bliss::gen_coarse_channel_response(fine, n, taps, dflt ? "hamming" : w, "cpu")); }));
        } break;
        case 2: {
            auto  a = gen_array(c, p, x, {c.u(2, 12), c.u(1, 40)});
            int   N = c.u(1, 60), M = c.u(2, 40);
            float d = c.b() ? 2 : (float)c.u(1, 12) / 2;
            if (md) module_copy(c, p, x);
            expect("kurtosis: of an array", "t(lambda: arr(lambda: es.estimate_spectral_kurtosis(" + (md ? x : "b.slice(" + x + ", 0, 0, " + x + ".shape[0], 1)") + ", " + (d == 2 ? "M=" + std::to_string(M) + ", N=" + std::to_string(N) : std::to_string(N) + ", " + std::to_string(M) + ", " + num(d)) + ")))", T([&] { return A(bliss::estimate_spectral_kurtosis(a, N, M, d)); }));
        } break;
        case 3: {
            auto a = gen_array(c, p, x, {c.u(1, 9), c.u(1, 60)});
            if (md) module_copy(c, p, x);
            bliss::noise_power_estimate_options o;
            o.masked_estimate  = c.b(1, 3);
            o.estimator_method = c.b(4, 5) ? bliss::noise_power_estimator::STDDEV : bliss::noise_power_estimator::MEAN_ABSOLUTE_DEVIATION;
            p.line("o = es.noise_power_estimate_options(); o.masked_estimate = ", o.masked_estimate ? "True" : "False", "; o.estimator_method = es.noise_power_estimator.", o.estimator_method == bliss::noise_power_estimator::STDDEV ? "stddev" : "mad");
            expect("noise: of an array", "t(lambda: noise(es.estimate_noise_power(" + x + ", o)))", T([&] { return val(bliss::estimate_noise_power(a, o)); }));
        } break;
        case 4: {
            auto  a = gen_array(c, p, x, {c.u(1, 9), c.u(1, 60)});
            float f = (float)c.u(4, 40) / 8;
            module_copy(c, p, x);
            expect("magnitude: of an array", "t(lambda: arr(lambda: fl.flag_magnitude(" + x + ", threshold=" + num(f) + ")))", T([&] { return A(bliss::flag_magnitude(a, f)); }));
        } break;
        case 5: {
            auto  a = gen_array(c, p, x, {c.u(1, 9), c.u(1, 60)});
            int   n = c.u(0, 6);
            float l = (float)c.u(4, 40) / 8, h = (float)c.u(4, 40) / 8;
            module_copy(c, p, x);
            expect("sigmaclip: of an array", "t(lambda: arr(lambda: fl.flag_sigmaclip(" + x + ", upper_threshold=" + num(h) + ", lower_threshold=" + num(l) + ", max_iter=" + std::to_string(n) + ")))", T([&] { return A(bliss::flag_sigmaclip(a, n, l, h)); }));
        } break;
        case 6: {
            auto                          a = gen_array(c, p, x, {c.u(1, 8), c.u(1, 16)}, true);
            std::vector<bland::nd_coords> nb;
            std::string                   e = "[";
            for (int k = c.u(0, 5); k > 0; --k) nb.push_back({c.u(0, 4) - 2, c.u(0, 6) - 3}), e += py::list(nb.back()) + ",";
            if (md) module_copy(c, p, x);
            expect("components: of " + e + "]", "t(lambda: [proto(h) for h in ds.find_components_in_binary_mask(" + x + ", " + e + "])])", T([&] { return L(val_proto(bliss::find_components_in_binary_mask(a, nb))); }));
        } break;
        case 7: { // a file
            int64_t Tn = c.u(2, 9), F = c.u(1, 40);
            auto    b = gen_band(c, Tn, F, 1);
            auto    f = pbt::scratch_dir() + "/f" + std::to_string(st) + ".h5";
            store(b, f);
            std::vector<int64_t> o, n;
            if (c.b(2, 3)) {
                o = {c.u(0, Tn - 1), 0, c.u(0, F - 1)};
                n = {Tn - o[0] - c.u(0, Tn - 1 - o[0]), 1, F - o[2] - c.u(0, F - 1 - o[2])};
                if (c.b(1, 6)) n[c.b() ? 0 : 2] += c.u(1, 50);
                if (c.b(1, 12)) n.pop_back();
            }
            auto e = py::list(o) + ", " + py::list(n);
            auto r = T([&] {
                auto h = std::make_shared<bliss::h5_filterbank_file>(f);
                return L({T([&] { return A(h->read_data(o, n)); }), T([&] { return A(h->read_mask(o, n)); }), S(h->get_file_path()), S(h->repr())});
            });
            p.line("def f():\n    h = io.h5_filterbank_file('", f, "')\n    return [arr(lambda: h.read_data(", e, ")), arr(lambda: h.read_mask(", e, ")), h.get_file_path(), repr(h)]");
            expect("file: " + e, "t(f)", r);
        } break;
        case 8:
        case 9:
        case 10: { // hits of a file, changed, pickled and in a file again
            auto l = gen_hits(c, 6);
            for (auto &h : l)
                for (int q = c.u(0, 2); q > 0; --q) h.rfi_counts[c.pick(std::vector<bliss::flag_values>{bliss::flag_values::filter_rolloff, bliss::flag_values::magnitude, bliss::flag_values::sigma_clip})] = c.u(0, 200);
            auto f = pbt::scratch_dir() + "/h" + std::to_string(st), g = f + "b";
            bliss::write_hits_to_capnp_file(l, f);
            auto r = bliss::read_hits_from_capnp_file(f);
            p.line("l = io.read_hits_from_capnp_file('", f, "')");
            std::vector<hit> now(r.begin(), r.end());
            for (int q = c.u(0, 4); q > 0 && !now.empty(); --q) {
                int   i = c.u(0, now.size() - 1);
                auto &h = now[i];
                auto  n = gen_hit(c);
                auto  at = "l[" + std::to_string(i) + "].";
#define CHANGE(k, f) \
    case k: h.f = n.f, p.line(at, #f " = ", std::is_integral_v<decltype(n.f)> ? std::to_string((int64_t)n.f) : "float.fromhex('" + hexed(n.f) + "')"); break;
                switch (c.u(0, 12)) {
                    CHANGE(0, start_freq_index)
                    CHANGE(1, start_freq_MHz)
                    CHANGE(2, start_time_sec)
                    CHANGE(3, duration_sec)
                    CHANGE(4, rate_index)
                    CHANGE(5, drift_rate_Hz_per_sec)
                    CHANGE(6, power)
                    CHANGE(7, time_span_steps)
                    CHANGE(8, snr)
                    CHANGE(9, bandwidth)
                    CHANGE(10, binwidth)
                case 11: h.rfi_counts = {{bliss::flag_values::low_spectral_kurtosis, 3}}, p.line(at, "rfi_counts = {fl.flag_values.low_spectral_kurtosis: 3}"); break;
                default: // another reference to one of them
                    p.line("z = l[", i, "]; l.append(z); l.append(pickle.loads(pickle.dumps(z, ", c.u(2, 5), "))); del z; gc.collect()");
                    now.push_back(hit(h)), now.push_back(hit(now[i]));
                    p.line("l[-2] = copy.copy(l[-2])");
                }
#undef CHANGE
            }
            expect("hits: of a file", "[hit(h) for h in l]", val_hits(now));
            p.line("io.write_hits_to_capnp_file(l, '", g, "p')");
            bliss::write_hits_to_capnp_file(std::list<hit>(now.begin(), now.end()), g);
            auto back = bliss::read_hits_from_capnp_file(g);
            expect("hits: in a file again", "[hit(h) for h in io.read_hits_from_capnp_file('" + g + "p')]", val_hits(back));
            bool zero = c.b();
            p.line("o = ds.filter_options(); o.filter_zero_drift = ", zero ? "True" : "False");
            expect("hits: filtered", "[hit(h) for h in ds.filter_hits(l, o)]", val_hits(bliss::filter_hits(std::list<hit>(now.begin(), now.end()), {zero})));
            // byte for byte the file that C++ writes
            p.line("out(open('", g, "p', 'rb').read() == open('", g, "', 'rb').read())");
            want.push_back(V(1)), what.push_back("hits: file bytes");
            // an event of them
            if (!now.empty()) {
                event e;
                e.hits = std::list<hit>(now.begin(), now.end());
                e.starting_frequency_Hz = gen_double(c, 1e9, 9e9), e.average_power = (float)c.real(0, 100), e.average_bandwidth = (float)c.real(0, 100), e.average_snr = (float)c.real(0, 100);
                e.average_drift_rate_Hz_per_sec = gen_double(c, 0, 5), e.event_start_seconds = gen_double(c, 0, 5e9), e.event_end_seconds = gen_double(c, 0, 5e9);
                auto first = event{};
                first.hits = l;
                bliss::write_events_to_file({first}, g + "e");
                p.line("k = io.read_events_from_file('", g, "e'); e = k[0]; held = e.hits; e.hits = l");
                for (auto &q : std::vector<std::pair<std::string, double>>{{"starting_frequency_Hz", e.starting_frequency_Hz}, {"average_power", e.average_power}, {"average_bandwidth", e.average_bandwidth}, {"average_snr", e.average_snr}, {"average_drift_rate_Hz_per_sec", e.average_drift_rate_Hz_per_sec}, {"event_start_seconds", e.event_start_seconds}, {"event_end_seconds", e.event_end_seconds}}) p.line("e.", q.first, " = ", exact(q.second));
                expect("event: of values", "event(e)", val(e));
                expect("event: pickled", "event(pickle.loads(pickle.dumps(e)))", val(e));
                expect("event: held hits", "[hit(h) for h in held]", val_hits(bliss::read_events_from_file(g + "e").front().hits));
                bliss::write_events_to_file({e, first}, g + "f");
                p.line("first = io.read_events_from_file('", g, "e')[0]; io.write_events_to_file([e, first], '", g, "q')");
                std::vector<Val> two;
                for (auto &q : bliss::read_events_from_file(g + "f")) two.push_back(val(q));
                expect("event: in a file", "[event(x) for x in io.read_events_from_file('" + g + "q')]", L(two));
            }
            c.label("hits");
        } break;
        case 11: { // values
            std::vector<Val> v;
            for (auto k : {bliss::flag_values::unflagged, bliss::flag_values::filter_rolloff, bliss::flag_values::low_spectral_kurtosis, bliss::flag_values::high_spectral_kurtosis, bliss::flag_values::magnitude, bliss::flag_values::sigma_clip}) v.push_back(V((int)k));
            expect("values: of flags", "[int(getattr(fl.flag_values, n)) for n in ('unflagged', 'filter_rolloff', 'low_spectral_kurtosis', 'high_spectral_kurtosis', 'magnitude', 'sigma_clip')]", L(v));
            expect("values: of pickled flags", "[int(pickle.loads(pickle.dumps(getattr(fl.flag_values, n)))) for n in ('unflagged', 'filter_rolloff', 'low_spectral_kurtosis', 'high_spectral_kurtosis', 'magnitude', 'sigma_clip')]", L(v));
            bliss::integrate_drifts_options d;
            bliss::hit_search_options       h;
            bliss::noise_power_estimate_options o;
            bliss::filter_options           f;
            p.line("d, h, o, f = p.integrate_drifts_options(), ds.hit_search_options(), es.noise_power_estimate_options(), ds.filter_options()");
            expect("values: of defaults", "[d.desmear, d.low_rate, d.high_rate, d.rate_step_size, int(h.method == ds.hit_search_methods.connected_components), h.snr_threshold, h.neighbor_l1_dist, int(o.estimator_method == es.noise_power_estimator.stddev), o.masked_estimate, f.filter_zero_drift]",
                   L({V(d.desmear), V(d.low_rate), V(d.high_rate), V(d.rate_step_size), V(h.method == bliss::hit_search_methods::CONNECTED_COMPONENTS), V(h.snr_threshold), V(h.neighbor_l1_dist), V(o.estimator_method == bliss::noise_power_estimator::STDDEV), V(o.masked_estimate), V(f.filter_zero_drift)}));
            auto big = [&] { return c.b() ? c.u(0, 9) : c.u(0, 1 << 20); };
            int  l1 = (int)big(), rate = (int)big() - 5000, step = (int)big() + 1;
            bool on = c.b(), two = c.b();
            float snr = (float)big() / 4;
            expect("values: of options", "[setattr(h, 'neighbor_l1_dist', " + std::to_string(l1) + "), setattr(h, 'snr_threshold', " + num(snr) + "), setattr(d, 'low_rate', " + std::to_string(rate) + "), setattr(d, 'high_rate', " + std::to_string(rate + 7) + "), setattr(d, 'rate_step_size', " + std::to_string(step) + "), setattr(d, 'desmear', " + (on ? "True" : "False") + "), setattr(o, 'masked_estimate', " + (two ? "True" : "False") + "), setattr(f, 'filter_zero_drift', " + (on ? "True" : "False") + "), h.neighbor_l1_dist, h.snr_threshold, d.low_rate, d.high_rate, d.rate_step_size, d.desmear, o.masked_estimate, f.filter_zero_drift][8:]",
                   L({V(l1), V(snr), V(rate), V(rate + 7), V(step), V(on), V(two), V(on)}));
            int64_t r = c.u(1, 9), n = c.u(1, 30);
            bliss::integrated_flags q(r, n, ndarray::dev::cpu);
            auto                    a = gen_array(c, p, x, {r, n}, true);
            q.magnitude               = a;
            module_copy(c, p, x);
            p.line("q = p.integrated_flags(", r, ", ", n, ", b.ndarray.dev('cpu')); q.magnitude = ", x, "; del ", x, "; gc.collect()");
            expect("values: of integrated flags", "[arr(lambda: q.magnitude), [arr(lambda: getattr(q, n)).shape for n in ('filter_rolloff', 'low_spectral_kurtosis', 'high_spectral_kurtosis')]]",
                   L({A(q.magnitude), L(std::vector<Val>(3, L({V(r), V(n)})))}));
        } break;
        case 13: { // what cannot be done is refused
            auto b = gen_band(c, 4, 16, 2);
            auto f = pbt::scratch_dir() + "/r" + std::to_string(st) + ".h5";
            store(b, f);
            p.line("s = p.scan('", f, "', 16); ta = p.observation_target([s]); ca = p.cadence([ta]); ch = s.read_coarse_channel(0); o = ds.hit_search_options(); d = p.integrate_drifts_options(); h5 = io.h5_filterbank_file('", f, "'); nowhere = '", pbt::scratch_dir(), "/nowhere/x'");
            static const std::vector<std::string> refused = {
                "p.scan(nowhere)", "p.scan(nowhere, 16)", "p.scan(7)", "p.scan(None)", "p.scan()", "p.observation_target([nowhere])", "p.observation_target([1, 2])", "p.observation_target(s)", "p.observation_target([None])", "p.observation_target([ta])", "p.cadence([[nowhere]])", "p.cadence([s])", "p.cadence([None])",
                "s.read_coarse_channel(2)", "s.read_coarse_channel(-1)", "s.read_coarse_channel(2**31 - 1)", "s.read_coarse_channel(2**40)", "s.read_coarse_channel('a')", "s.read_coarse_channel(None)", "s.slice_scan_channels(2, 1)", "s.slice_scan_channels(-1, 1)", "s.slice_scan_channels(0, 3)", "ta.slice_observation_channels(1, 2)", "ca.slice_cadence_channels(5)",
                "ch.noise_estimate", "ch.hits", "ch.integrated_drift_plane().integrated_drifts", "ds.hit_search(s)", "ds.hit_search(ch, o)", "ds.hit_search(s, d)", "ds.integrate_drifts(s, o)", "ds.integrate_drifts(None, d)", "ds.filter_hits(s, o)", "ds.event_search(ta)", "ds.event_search(None)", "es.estimate_noise_power(s)", "es.estimate_noise_power(s, o)", "es.estimate_noise_power(None, es.noise_power_estimate_options())",
                "fl.flag_filter_rolloff(s)", "fl.flag_filter_rolloff(s, 'a')", "fl.flag_filter_rolloff(None, .1)", "fl.flag_spectral_kurtosis(s)", "fl.flag_sigmaclip(s, 'a')", "fl.flag_magnitude(3)", "fl.flag_magnitude(None)", "pre.normalize(None)", "pre.equalize_passband_filter(s, nowhere)", "pre.equalize_passband_filter(s, None)", "pre.firdes(8, .1)", "pre.firdes('a', .1, 'hamming')",
                "io.h5_filterbank_file(nowhere)", "io.h5_filterbank_file(None)", "h5.read_data([9, 0, 0], [1, 1, 1])", "h5.read_data([0, 0, 0], [1, 1, 33])", "h5.read_data(None, [1, 1, 1])", "h5.read_data(['a'], [1])", "io.read_hits_from_capnp_file(nowhere)", "io.read_scan_hits_from_capnp_file(nowhere)", "io.read_events_from_file(nowhere)", "io.write_scan_hits_to_file(s, nowhere)", "io.write_scan_hits_to_file(None, nowhere)", "io.write_hits_to_capnp_file([], nowhere)", "io.write_hits_to_capnp_file([1], nowhere)", "io.write_events_to_file([], nowhere)", "io.write_events_to_file([s], nowhere)", "io.write_cadence_hits_to_capnp_files(ta, nowhere)",
                "s.set_device('none such')", "s.set_device(None)", "s.set_device(3)", "ch.set_device('none such')", "ta.set_device('none such')", "ca.set_device('none such')", "setattr(s, 'fch1', 3.)", "setattr(ta, 'scans', None)", "setattr(ta, 'scans', [1])", "setattr(ca, 'observations', [s])", "setattr(ta, 'target_name', 3)", "setattr(o, 'method', 1.5)", "setattr(o, 'snr_threshold', 'a')", "setattr(d, 'low_rate', 'a')", "setattr(d, 'low_rate', .5)", "setattr(d, 'desmear', 'a')", "setattr(es.noise_power_estimate_options(), 'estimator_method', o)", "ds.find_components_in_binary_mask(None, [])", "ds.find_components_in_binary_mask(np.zeros((2, 2), 'u1'), [['a']])",
                "p.integrated_flags(1, 2)", "p.integrated_flags(1, 2, 'none such')", "ta.scans[1]", "ca.observations[3]", "pickle.dumps(s)", "pickle.dumps(ta)", "fl.flag_values(77)", "ds.hit_search_methods(9)"};
            for (int k = c.u(3, 12); k > 0; --k) {
                auto e = c.pick(refused);
                expect("refused: " + e, "t(lambda: " + e + ") == '!'", V(1));
            }
            expect("refused: and still usable", "[attrs(s, META), len(ta.scans), len(ca.observations), ta.target_name]", L({T([&] { scan sc(std::string_view(f), 16); return meta(sc); }), V(1), V(1), S(Target({scan(std::string_view(f), 16)})._target_name)}));
            c.label("refused");
        } break;
        default: { // noise values
            auto a = gen_array(c, p, x, {1}), y = gen_array(c, p, x + "y", {1});
            bliss::noise_stats s;
            s.set_noise_floor(a), s.set_noise_power(y);
            module_copy(c, p, x), module_copy(c, p, x + "y");
            p.line("s = es.noise_power(); s.noise_floor = ", x, "; s.noise_power = ", x, "y");
            expect("noise: of values", "noise(s)", val(s));
        }
        }
        ++did;
    }
    auto r = p.run();
    REQUIRE_P("results", r.size() == want.size(), r.size(), " results of ", want.size());
    for (size_t k = 0; k < r.size(); ++k) same(r[k], want[k], what[k]);
    c.nontrivial(did > 1);
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "P03";
    s.rule           = "history: two or more stages were applied";
    s.quick_cases    = 700;
    s.thorough_cases = 100000;
    s.assumptions    = "CPU build; the C++ library in the same build is the reference for values; AddressSanitizer build of the module; plotting functions need packages that are not available";
    s.facets         = {{"history", 4, 0, history}, {"functions", 2, 0, functions}};
    return pbt::run(argc, argv, s);
}

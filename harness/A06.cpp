// A06: creators and raw array files against their definitions.
#include "arr.hpp"
#include "fault.hpp"
#include <cstring>
#include <fstream>
#include <unistd.h>
#include <bland/ops/creators.hpp>
using namespace arr;

template <class T> struct TI;
#define TI_(T, c, s) template <> struct TI<T> { static constexpr DLDataType d = dt::c; static constexpr const char *n = #c; static constexpr bool fl = s; };
TI_(float, float32, true) TI_(double, float64, true) TI_(int8_t, int8, false) TI_(int16_t, int16, false) TI_(int32_t, int32, false)
TI_(int64_t, int64, false) TI_(uint8_t, uint8, false) TI_(uint16_t, uint16, false) TI_(uint32_t, uint32, false) TI_(uint64_t, uint64, false)

static double dense_at(const ndarray &a, int64_t k) {
    auto d = a.dtype();
    if (d == dt(dt::float32)) return a.data_ptr<float>()[k];
    if (d == dt(dt::float64)) return a.data_ptr<double>()[k];
    if (d == dt(dt::int8)) return a.data_ptr<int8_t>()[k];
    if (d == dt(dt::int16)) return a.data_ptr<int16_t>()[k];
    if (d == dt(dt::int32)) return a.data_ptr<int32_t>()[k];
    if (d == dt(dt::int64)) return (double)a.data_ptr<int64_t>()[k];
    if (d == dt(dt::uint8)) return a.data_ptr<uint8_t>()[k];
    if (d == dt(dt::uint16)) return a.data_ptr<uint16_t>()[k];
    if (d == dt(dt::uint32)) return a.data_ptr<uint32_t>()[k];
    if (d == dt(dt::uint64)) return (double)a.data_ptr<uint64_t>()[k];
    pbt::fail("dtype", "unexpected dtype");
}

static DLDataType gen_dtype(Ctx &c, std::string &n, bool &fl) {
    int k = c.u(0, 9);
    static const DLDataType ds[] = {dt::float32, dt::float64, dt::int8, dt::int16, dt::int32, dt::int64, dt::uint8, dt::uint16, dt::uint32, dt::uint64};
    static const char *ns[] = {"float32", "float64", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"};
    n = ns[k];
    fl = k < 2;
    return ds[k];
}

static void check_1d(const std::string &key, const ndarray &a, DLDataType d) {
    REQUIRE_P(key, a.ndim() == 1, "rank ", a.ndim());
    REQUIRE_P(key, a.dtype() == dt(d), "wrong element type");
    REQUIRE_P(key, a.strides()[0] == 1 || a.numel() <= 1, "not dense");
}

template <class T> static void arange_T(Ctx &c) {
    bool fl = TI<T>::fl;
    bool sg = std::is_signed<T>::value;
    double q = fl ? 0.25 : 1;
    // small numbers: every intermediate value is exact in every type
    int64_t n    = c.small(0, 60);
    double  step = (double)c.i(1, fl ? 12 : 2) * q;
    if (!fl && sizeof(T) > 1) step = (double)c.i(1, 9);
    if (sizeof(T) == 1) n = std::min<int64_t>(n, 50);
    double start = sg ? (double)c.u(0, 24) * q - 12 * q : (double)c.u(0, 20);
    if (sg && c.b(1, 3)) step = -step;
    if (!sg && c.b(1, 20)) {} // (no descending unsigned ranges)
    double part = std::fabs(step) > q && c.b(1, 2) ? (double)c.u(0, (int64_t)(std::fabs(step) / q) - 1) * q : 0;
    if (sizeof(T) == 1 && sg) {
        while (n > 0 && (start + step * (n + 1) > 127 || start + step * (n + 1) < -128)) --n;
    }
    double end  = start + step * n + (step < 0 ? -part : part);
    bool   expl = c.b();
    std::string on = TI<T>::n;
    bool        ofl = fl;
    DLDataType  od  = TI<T>::d;
    if (expl) {
        od = gen_dtype(c, on, ofl);
    }
    c.note("arange<", TI<T>::n, ">(", start, ",", end, ",", step, ") as ", on);
    double lo = std::min(start, end), hi = std::max(start, end);
    auto a = expl ? bland::arange<T, T, T>((T)start, (T)end, (T)step, od) : bland::arange<T, T, T>((T)start, (T)end, (T)step);
    check_1d("arange", a, od);
    int64_t got = a.numel();
    REQUIRE_P("arange", got == n || (part > 0 && got == n + 1), got, " values, expected ", n);
    for (int64_t k = 0; k < got; ++k) {
        double e = start + step * k, g = dense_at(a, k);
        if (!ofl) e = std::trunc(e);
        if (e < 0 && (on[0] == 'u')) continue; // not representable
        if ((on == "int8" && (e > 127 || e < -128)) || (on == "uint8" && e > 255)) continue;
        REQUIRE_P("arange", g == e, "value #", k, " is ", g, " expected ", e);
        (void)lo; (void)hi;
    }
    c.label(TI<T>::n);
    if (part > 0) c.label("partial-step");
    if (step < 0) c.label("descending");
    c.nontrivial(got > 2 && start != 0);
}
static void arange(Ctx &c) {
    switch (c.u(0, 11)) {
    case 0: return arange_T<float>(c);
    case 1: return arange_T<double>(c);
    case 2: return arange_T<int8_t>(c);
    case 3: return arange_T<int16_t>(c);
    case 4: return arange_T<int32_t>(c);
    case 5: return arange_T<int64_t>(c);
    case 6: return arange_T<uint8_t>(c);
    case 7: return arange_T<uint16_t>(c);
    case 8: return arange_T<uint32_t>(c);
    case 9: return arange_T<uint64_t>(c);
    case 10: { // signed ends with an unsigned step
        std::string on;
        bool        ofl;
        auto        od   = gen_dtype(c, on, ofl);
        int64_t     n    = c.small(0, 60);
        uint32_t    step = c.i(1, 9);
        int32_t     start = (int32_t)c.u(0, 200) - 100, end = start + (int32_t)(n * step + c.u(0, step - 1));
        c.note("arange<int32,int32,uint32>(", start, ",", end, ",", step, ") as ", on);
        auto a = bland::arange<int32_t, int32_t, uint32_t>(start, end, step, od);
        check_1d("arange-mixed", a, od);
        REQUIRE_P("arange-mixed", a.numel() == n || (a.numel() == n + 1 && (end - start) % step), a.numel(), " values, expected ", n);
        for (int64_t k = 0; k < a.numel(); ++k) {
            double e = start + (double)step * k;
            if ((on[0] == 'u' && e < 0) || (on == "int8" && std::fabs(e) > 127) || (on == "uint8" && e > 255)) continue;
            REQUIRE_P("arange-mixed", dense_at(a, k) == e, "value #", k, " is ", dense_at(a, k), " expected ", e);
        }
        c.nontrivial(n > 2 && start < 0);
        return;
    }
    default: { // ends that the step does not lead to
        int32_t start = (int32_t)c.u(0, 100) - 50, d = c.u(1, 50), step = c.u(0, 5);
        bool    desc = c.b();
        bool    fl   = c.b();
        int     uns  = c.u(0, 2);
        c.note("arange from ", start, desc ? " down " : " up ", d, " step ", desc ? step : -step, fl ? " float" : uns == 0 ? " uint32" : " int32");
        bool    threw = false;
        int64_t n = -1;
        try {
            if (fl) n = bland::arange<float, float, float>((float)start, (float)(desc ? start - d : start + d), (float)(desc ? step : -step)).numel();
            else if (uns == 0 && desc) n = bland::arange<uint32_t, uint32_t, uint32_t>(start + 100, start + 100 - d, step).numel();
            else n = bland::arange<int32_t, int32_t, int32_t>(start, desc ? start - d : start + d, desc ? step : -step).numel();
        } catch (const std::exception &) { threw = true; }
        REQUIRE_P("arange-invalid", threw || n == 0, "gave ", n, " values");
        c.nontrivial();
    }
    }
}

template <class T> static void linspace_T(Ctx &c) {
    bool fl = TI<T>::fl, sg = std::is_signed<T>::value;
    int64_t n = c.small(0, 70);
    double  q = fl ? 0.125 : 1;
    double  start = sg ? (double)c.u(0, 120) * q - 60 * q : (double)c.u(0, 120), end = sg ? (double)c.u(0, 120) * q - 60 * q : (double)c.u(0, 120);
    bool    expl  = true;
    std::string on = TI<T>::n;
    bool        ofl = fl;
    DLDataType  od  = TI<T>::d;
    if (c.b()) od = gen_dtype(c, on, ofl);
    c.note("linspace<", TI<T>::n, ">(", start, ",", end, ",", n, ") as ", on);
    (void)expl;
    auto a = bland::linspace<T>((T)start, (T)end, (size_t)n, od);
    check_1d("linspace", a, od);
    REQUIRE_P("linspace", a.numel() == n, a.numel(), " values");
    for (int64_t k = 0; k < n; ++k) {
        double e = start + (end - start) * k / n, g = dense_at(a, k);
        if (on[0] == 'u' && e < 0) continue;
        bool whole = e == std::trunc(e);
        if (ofl) REQUIRE_P("linspace", pbt::close(g, e, on == "float32" || std::is_same<T, float>::value ? 1e-5 : 1e-12, 1e-4), "value #", k, " is ", g, " expected ", e);
        else if (whole && k == 0) REQUIRE_P("linspace", g == e, "value #0 is ", g, " expected ", e);
        else REQUIRE_P("linspace", std::fabs(g - e) <= 1.0001, "value #", k, " is ", g, " expected about ", e);
    }
    c.label(TI<T>::n);
    c.nontrivial(n > 2 && start != end);
}
static void linspace(Ctx &c) {
    switch (c.u(0, 9)) {
    case 0: return linspace_T<float>(c);
    case 1: return linspace_T<double>(c);
    case 2: return linspace_T<int8_t>(c);
    case 3: return linspace_T<int16_t>(c);
    case 4: return linspace_T<int32_t>(c);
    case 5: return linspace_T<int64_t>(c);
    case 6: return linspace_T<uint8_t>(c);
    case 7: return linspace_T<uint16_t>(c);
    case 8: return linspace_T<uint32_t>(c);
    default: return linspace_T<uint64_t>(c);
    }
}

// element types can be given by their names
static void names(Ctx &c) {
    struct N {
        const char *name;
        int         code, bits;
        dt          same;
    };
    static const N all[] = {{"float", kDLFloat, 32, dt::float32}, {"float32", kDLFloat, 32, dt::float32}, {"double", kDLFloat, 64, dt::float64}, {"float64", kDLFloat, 64, dt::float64}, {"int", kDLInt, 64, dt::int64}, {"int64", kDLInt, 64, dt::int64}, {"int32", kDLInt, 32, dt::int32}, {"int16", kDLInt, 16, dt::int16}, {"int8", kDLInt, 8, dt::int8}, {"uint", kDLUInt, 64, dt::uint64}, {"uint64", kDLUInt, 64, dt::uint64}, {"uint32", kDLUInt, 32, dt::uint32}, {"uint16", kDLUInt, 16, dt::uint16}, {"uint8", kDLUInt, 8, dt::uint8}};
    auto &e = all[c.u(0, 13)];
    dt    t{std::string_view(e.name)};
    REQUIRE_P("name", t.code == e.code && t.bits == e.bits && t.lanes == 1, "type ", e.name, " is code ", (int)t.code, ", ", (int)t.bits, " bits, ", t.lanes, " lanes");
    REQUIRE_P("name", t == e.same && !(t != e.same), "type ", e.name, " differs from the constant of that name");
    auto &f = all[c.u(0, 13)];
    REQUIRE_P("name", (t == f.same) == (e.code == f.code && e.bits == f.bits), "types ", e.name, " and ", f.name, " compare wrongly");
    std::string bad = e.name;
    switch (c.u(0, 4)) {
    case 0: bad += '_'; break;
    case 1: bad = bad.substr(1); break;
    case 2: bad[c.u(0, bad.size() - 1)] = 'x'; break;
    case 3: bad += "128"; break;
    default: bad = ""; break;
    }
    for (auto &q : all)
        if (bad == q.name) return; // "uint" less its first letter
    bool threw = false;
    try {
        dt{std::string_view(bad)};
    } catch (const std::runtime_error &) { threw = true; }
    REQUIRE_P("name", threw, "'", bad, "' passes for a type");
}

static void constants(Ctx &c) {
    if (c.b(1, 8)) names(c);
    K    k = gen_kind(c);
    auto s = gen_shape(c, 5, 9, 600);
    int  w = c.u(0, 5);
    double v = gen_value(c, k);
    c.note("creator ", w, " ", name(k), shape_str(s), " ", v);
    ndarray a = w == 0   ? bland::zeros(s, dtype_of(k))
                : w == 1 ? bland::ones(s, dtype_of(k))
                : w == 2 ? (k = K::f32, bland::zeros(s))
                : w == 3 ? (k = K::f32, bland::ones(s))
                : w == 4 ? (k == K::f32 ? ndarray(s, (float)v, dtype_of(k)) : k == K::i32 ? ndarray(s, (int32_t)v, dtype_of(k)) : k == K::u8 ? ndarray(s, (uint8_t)v, dtype_of(k)) : ndarray(s, (uint32_t)v, dtype_of(k)))
                         : bland::fill(ndarray(s, dtype_of(k)), (int32_t)v);
    if (w == 0 || w == 2) v = 0;
    if (w == 1 || w == 3) v = 1;
    if (w == 5) v = (double)(int32_t)v;
    REQUIRE_P("constant", a.shape() == s, "shape ", shape_str(a.shape()));
    REQUIRE_P("constant", a.dtype() == dt(dtype_of(k)), "element type");
    auto x = values(a);
    for (size_t n = 0; n < x.size(); ++n) REQUIRE_P("constant", x[n] == v, "element #", n, " is ", x[n], " expected ", v);
    // each creation has storage of its own
    auto b = w == 1 ? bland::ones(s, dtype_of(k)) : bland::zeros(s, dtype_of(k));
    bland::fill(a, (int32_t)7);
    for (auto y : values(b)) REQUIRE_P("constant", y == (w == 1 ? 1 : 0), "another array changed");
    c.nontrivial(numel(s) > 1 && s.size() > 1);
}

// more elements than 32 bits count
static void giant(Ctx &c) {
    int64_t n = (int64_t(1) << 31) + c.i(1, 300);
    Shape   s = c.b() ? Shape{n} : Shape{3, (n + 2) / 3};
    n         = numel(s);
    int     w = c.u(0, 2);
    uint8_t v = w == 0 ? 1 : w == 1 ? 0 : (uint8_t)c.i(2, 255);
    c.note(w == 0 ? "ones" : w == 1 ? "zeros" : "filled with ", (int)v, shape_str(s));
    ndarray a = w == 0 ? bland::ones(s, ndarray::datatype::uint8) : w == 1 ? bland::zeros(s, ndarray::datatype::uint8) : ndarray(s, v, ndarray::datatype::uint8);
    REQUIRE_P("constant", a.shape() == s && a.numel() == n, "shape ", shape_str(a.shape()));
    auto p = a.data_ptr<uint8_t>();
    int  step = c.i(1, 4096);
    for (int64_t k = 0; k < n; k += step) REQUIRE_P("constant", p[k] == v, "element #", k, " is ", (int)p[k], " expected ", (int)v);
    for (int64_t k = n - 4096; k < n; ++k) REQUIRE_P("constant", p[k] == v, "element #", k, " is ", (int)p[k], " expected ", (int)v);
    c.nontrivial(true);
}

static void random_(Ctx &c) {
    auto s  = c.b(1, 30) ? Shape{c.i(100, 300), 200} : gen_shape(c, 4, 12, 800);
    bool un = c.b(2, 3);
    std::string on;
    bool        ofl;
    auto        od = gen_dtype(c, on, ofl);
    int         st = c.u(0, 3);
    ndarray     a;
    double      lo, hi;
    if (un) {
        lo = (double)c.u(0, 120), hi = lo + (double)c.u(1, 120 - (int64_t)lo + 1);
        hi = std::min(hi, 127.0);
        if (on[0] != 'u' && st < 2 && c.b()) {
            lo = -lo;
        }
        c.note("uniform ", on, shape_str(s), " [", lo, ",", hi, "]");
        a = st == 0   ? bland::rand_uniform<float>(s, (float)lo, (float)hi, od)
            : st == 1 ? bland::rand_uniform<int32_t>(s, (int32_t)lo, (int32_t)hi, od)
            : st == 2 ? bland::rand_uniform<uint8_t>(s, (uint8_t)lo, (uint8_t)hi, od)
                      : bland::rand_uniform<uint32_t>(s, (uint32_t)lo, (uint32_t)hi, od);
    } else {
        lo = (double)c.u(0, 100) - 50, hi = (double)c.u(1, 40) / 4;
        c.note("normal ", on, shape_str(s), " mean ", lo, " stddev ", hi);
        bool threw = false;
        try {
            a = st < 2 ? bland::rand_normal<float>(s, (float)lo, (float)hi, od) : bland::rand_normal<double>(s, lo, hi, od);
        } catch (const std::exception &) { threw = true; }
        REQUIRE_P("normal", threw == !ofl, "threw: ", threw);
        if (threw) return;
    }
    const char *key = un ? "uniform" : "normal";
    REQUIRE_P(key, a.shape() == s, "shape ", shape_str(a.shape()));
    REQUIRE_P(key, a.dtype() == dt(od), "element type");
    int64_t n = a.numel();
    double  sum = 0, sq = 0;
    double  mean = un ? (lo + hi) / 2 : lo, sd = un ? (hi - lo + (ofl ? 0 : 1)) / std::sqrt(12.0) : hi;
    for (int64_t k = 0; k < n; ++k) {
        double v = dense_at(a, k);
        if (un) REQUIRE_P(key, v >= lo && v <= hi, "value ", v);
        else REQUIRE_P(key, std::fabs(v - mean) < 12 * sd + 1e-3, "value ", v);
        sum += v - mean, sq += (v - mean) * (v - mean);
    }
    // 10 sigma: a false alarm is out of reach over any number of runs
    REQUIRE_P(key, std::fabs(sum / n) <= 10 * sd / std::sqrt((double)n) + 0.5 * (un && !ofl) + 1e-3, "the mean is off by ", sum / n);
    double slack = un && !ofl ? 2.5 : 10 * std::sqrt(2.0 / n); // of the variance, relative
    if (n >= 400) REQUIRE_P(key, sq / n > sd * sd * (un && !ofl ? 0.3 : 1 - slack) - 1e-9 && sq / n < sd * sd * (1 + slack) + (un && !ofl ? 1 : 1e-6), "the variance is ", sq / n, " expected ", sd * sd);
    c.label(key);
    c.nontrivial(n > 16);
}

// raw files: any layout out, row-major in
template <class T> static void file_T(Ctx &c) {
    auto s = gen_shape(c, 4, 7, 250);
    Shape big = s;
    std::vector<int64_t> start(s.size(), 0), stride(s.size(), 1);
    bool partial = false;
    for (size_t d = 0; d < s.size(); ++d)
        if (c.b(1, 3)) {
            stride[d] = c.i(1, 3), start[d] = c.i(0, 2);
            big[d] = start[d] + s[d] * stride[d] + c.i(0, 2);
            partial = partial || big[d] != s[d];
        }
    ndarray base(big, TI<T>::d);
    pbt::Noise r(c.seed());
    int64_t    n = base.numel();
    std::vector<T> raw(n);
    for (auto &v : raw) {
        if (TI<T>::fl) v = (T)(r.normal() * 1000);
        else v = (T)r.next();
    }
    std::copy(raw.begin(), raw.end(), base.data_ptr<T>());
    ndarray view = base;
    for (size_t d = 0; d < s.size(); ++d)
        if (big[d] != s[d]) view = ndarray(bland::slice(view, (int64_t)d, start[d], start[d] + s[d] * stride[d], stride[d]));
    std::string path = pbt::scratch_dir() + "/a06.raw";
    c.note("write ", TI<T>::n, shape_str(s), " from ", shape_str(big));
    int extra = c.u(0, 3) == 3 ? (int)c.u(1, 9) : 0;
    if (c.b(1, 3)) { std::ofstream f(path, std::ios::binary); f << std::string(c.u(0, 5000), 'x'); } // whatever was there is replaced
    std::string longer = path + "-not-part-of-the-name";
    bland::write_to_file(view, std::string_view(longer).substr(0, path.size()));
    std::ifstream f(path, std::ios::binary);
    REQUIRE_P("file", (bool)f, "nothing was written");
    std::string bytes((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    Shape          ix(s.size(), 0);
    std::vector<T> want;
    do {
        int64_t lin = 0;
        for (size_t d = 0; d < s.size(); ++d) lin = lin * big[d] + start[d] + ix[d] * stride[d];
        want.push_back(raw[lin]);
    } while (next(ix, s));
    REQUIRE_P("file", bytes.size() == want.size() * sizeof(T), "file has ", bytes.size(), " bytes for ", want.size(), " elements");
    REQUIRE_P("file", std::memcmp(bytes.data(), want.data(), bytes.size()) == 0, "the file does not hold the elements in row-major order");
    if (extra) {
        std::ofstream g(path, std::ios::binary | std::ios::app);
        g << std::string(extra, 'z');
        bytes += std::string(extra, 'z');
        c.note("+", extra, " bytes");
    }
    ndarray back = bland::read_from_file(std::string_view(longer).substr(0, path.size()), TI<T>::d);
    check_1d("file", back, TI<T>::d);
    REQUIRE_P("file", back.numel() == (int64_t)(bytes.size() / sizeof(T)), "read ", back.numel(), " elements of ", bytes.size(), " bytes");
    REQUIRE_P("file", std::memcmp(back.data_ptr<T>(), bytes.data(), back.numel() * sizeof(T)) == 0, "read different elements");
    ::unlink(path.c_str());
    bool threw = false;
    try {
        bland::read_from_file(path, TI<T>::d);
    } catch (const std::exception &) { threw = true; }
    REQUIRE_P("file", threw, "a missing file was read");
    if (c.b(1, 6)) {
        threw = false;
        try {
            bland::write_to_file(view, pbt::scratch_dir() + "/no-such-dir/x");
        } catch (const std::exception &) { threw = true; }
        REQUIRE_P("file", threw, "writing into a missing directory was silent");
    }
    if (partial) c.label("partial-view");
    c.label(std::string("file-") + TI<T>::n);
    c.nontrivial(partial && want.size() > 3);
}
// the same with short or interrupted calls, or a disk that fills up
static void faults(Ctx &c) {
    auto     s = gen_shape(c, 3, 40, 6000);
    ndarray  a(s, dt::int32);
    int64_t  n = a.numel();
    pbt::Noise r(c.seed());
    for (int64_t k = 0; k < n; ++k) a.data_ptr<int32_t>()[k] = (int32_t)r.next();
    std::string p = pbt::scratch_dir() + "/a06.raw";
    fault::exercise(
            c, p, [&] { bland::write_to_file(a, p); },
            [&] {
                ndarray back = bland::read_from_file(p, dt::int32);
                REQUIRE_P("file", back.numel() == n, "read ", back.numel(), " of ", n, " elements");
                REQUIRE_P("file", std::memcmp(back.data_ptr<int32_t>(), a.data_ptr<int32_t>(), n * 4) == 0, "read different elements");
            });
}
static void files(Ctx &c) {
    switch (c.u(0, 9)) {
    case 0: return file_T<float>(c);
    case 1: return file_T<double>(c);
    case 2: return file_T<int8_t>(c);
    case 3: return file_T<int16_t>(c);
    case 4: return file_T<int32_t>(c);
    case 5: return file_T<int64_t>(c);
    case 6: return file_T<uint8_t>(c);
    case 7: return file_T<uint16_t>(c);
    case 8: return file_T<uint32_t>(c);
    default: return file_T<uint64_t>(c);
    }
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property        = "A06";
    s.rule            = "arange: more than 2 values, start not 0 (or an unreachable end); linspace: more than 2 values over a non-empty span; constants: rank > 1; random: more than 16 values; giant: every case; files: more than 3 elements of a partial view; faults: a call is short, interrupted or finds the disk full";
    s.quick_cases     = 400000;
    s.thorough_cases  = 2000000;
    s.assumptions     = "CPU arrays; ranges use small numbers that are exact in every element type; where a range is not a whole number of steps both counts (rounded down or up) are accepted; integer linspace values may be rounded either way; random creators: support and moments within 10 standard errors";
    s.facets          = {{"arange", 3, 0, arange}, {"linspace", 2, 0, linspace}, {"constants", 2, 0, constants}, {"random", 1, 0, random_}, {"files", 3, 0, files}, {"faults", 1, 0, faults}, {"giant", 1, 1, giant}};
    return pbt::run(argc, argv, s);
}

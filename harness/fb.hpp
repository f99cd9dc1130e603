// Generated HDF5 filterbank files, and what reading them must give.
#pragma once
#include "arr.hpp"

#include <core/scan.hpp>
#include <file_types/h5_filterbank_file.hpp>

#include <H5Cpp.h>
#include <unistd.h>

namespace fb {
using arr::Shape;
using bland::ndarray;
using pbt::Ctx;

struct Num { // a numeric attribute
    bool   present = true;
    double v       = 0;
    int    store   = 0; // see type_of
};
struct Str {
    bool        present = true;
    std::string v;
    int         store = 0; // 0 variable length, 1 fixed null padded, 2 fixed space padded, 3 fixed exact length, 4 fixed null terminated, 5 variable length, an empty one as null
};
struct Spec {
    int64_t             T = 1, F = 1;
    std::vector<double> val;          // [T][F]
    int                 store   = 0;  // sample type
    bool                chunked = false;
    int64_t             ct = 1, cf = 1;
    int                 deflate = 0; // 0 none, else level
    bool                shuffle = false;
    int                 labels = 0; // 0 variable, 1 fixed, +2: time and frequency swapped
    bool                extra_dim = false;
    bool                mask      = false;
    Num                 fch1, foff, tsamp, tstart, machine_id, telescope_id, src_raj, src_dej, az_start, za_start, data_type, nbits, nchans, nifs;
    Str                 source_name, cls, version;
    double              at(int64_t t, int64_t f) const { return val[t * F + f]; }
};

inline H5::DataType num_type(int s) {
    switch (s) {
    case 0: return H5::PredType::NATIVE_DOUBLE;
    case 1: return H5::PredType::NATIVE_FLOAT;
    case 2: return H5::PredType::NATIVE_INT64;
    case 3: return H5::PredType::NATIVE_INT32;
    case 4: return H5::PredType::NATIVE_UINT32;
    case 5: return H5::PredType::NATIVE_INT16;
    case 6: return H5::PredType::NATIVE_UINT64;
    case 7: return H5::PredType::NATIVE_UINT16;
    case 8: return H5::PredType::NATIVE_INT8;
    case 9: return H5::PredType::IEEE_F64BE;
    case 10: return H5::PredType::STD_I32BE;
    case 11: return H5::PredType::IEEE_F32BE;
    case 12: return H5::PredType::STD_I64BE;
    default: return H5::PredType::NATIVE_UINT8;
    }
}
inline bool num_float(int s) { return s == 0 || s == 1 || s == 9 || s == 11; }
inline double num_value(const Num &n) { // the value actually stored
    if (n.store == 1 || n.store == 11) return (double)(float)n.v;
    return n.v;
}
inline H5::DataType sample_type(int s) {
    switch (s) {
    case 0: return H5::PredType::NATIVE_FLOAT;
    case 1: return H5::PredType::NATIVE_DOUBLE;
    case 2: return H5::PredType::NATIVE_UINT8;
    case 3: return H5::PredType::NATIVE_INT16;
    case 4: return H5::PredType::IEEE_F32BE;
    case 5: return H5::PredType::NATIVE_INT32;
    default: return H5::PredType::NATIVE_INT8;
    }
}

inline void put_num(H5::DataSet &ds, const char *key, const Num &n) {
    if (!n.present) return;
    auto a = ds.createAttribute(key, num_type(n.store), H5::DataSpace(H5S_SCALAR));
    a.write(H5::PredType::NATIVE_DOUBLE, &n.v);
}
template <class O> void put_str(O &o, const char *key, const Str &s) {
    if (!s.present) return;
    if (s.store == 0 || s.store == 5) {
        H5::StrType t(H5::PredType::C_S1, H5T_VARIABLE);
        auto        a = o.createAttribute(key, t, H5::DataSpace(H5S_SCALAR));
        const char *p = s.store == 5 && s.v.empty() ? nullptr : s.v.c_str();
        a.write(t, &p);
    } else {
        size_t      len = std::max<size_t>(1, s.v.size() + (s.store == 3 ? 0 : s.store == 4 ? 1 : 5));
        H5::StrType t(H5::PredType::C_S1, len);
        t.setStrpad(s.store == 2 ? H5T_STR_SPACEPAD : s.store == 4 ? H5T_STR_NULLTERM : H5T_STR_NULLPAD);
        std::string buf = s.v;
        buf.resize(len, s.store == 2 ? ' ' : '\0');
        auto a = o.createAttribute(key, t, H5::DataSpace(H5S_SCALAR));
        a.write(t, buf.data());
    }
}

inline void write(const Spec &s, const std::string &path) {
    H5::H5File f(path, H5F_ACC_TRUNC);
    put_str(f, "CLASS", s.cls);
    put_str(f, "VERSION", s.version);
    std::vector<hsize_t> dims{(hsize_t)s.T, 1, (hsize_t)s.F};
    if (s.extra_dim) dims.push_back(1);
    H5::DataSpace       sp(dims.size(), dims.data());
    H5::DSetCreatPropList pl;
    if (s.chunked || s.deflate || s.shuffle) {
        std::vector<hsize_t> ch{(hsize_t)std::min(s.ct, s.T), 1, (hsize_t)std::min(s.cf, s.F)};
        if (s.extra_dim) ch.push_back(1);
        pl.setChunk(ch.size(), ch.data());
        if (s.shuffle) pl.setShuffle();
        if (s.deflate) pl.setDeflate(s.deflate);
    }
    auto ds = f.createDataSet("data", sample_type(s.store), sp, pl);
    ds.write(s.val.data(), H5::PredType::NATIVE_DOUBLE);
    std::vector<std::string> labels{"time", "feed_id", "frequency"};
    if (s.labels >= 2) std::swap(labels[0], labels[2]);
    if (s.extra_dim) labels.push_back("polarisation");
    hsize_t       nl = labels.size();
    H5::DataSpace lsp(1, &nl);
    if (s.labels % 2 == 0) {
        H5::StrType               t(H5::PredType::C_S1, H5T_VARIABLE);
        std::vector<const char *> p;
        for (auto &l : labels) p.push_back(l.c_str());
        ds.createAttribute("DIMENSION_LABELS", t, lsp).write(t, p.data());
    } else {
        size_t            len = 13;
        H5::StrType       t(H5::PredType::C_S1, len);
        t.setStrpad(H5T_STR_NULLPAD);
        std::string       buf;
        for (auto l : labels) {
            l.resize(len, '\0');
            buf += l;
        }
        ds.createAttribute("DIMENSION_LABELS", t, lsp).write(t, buf.data());
    }
    put_num(ds, "fch1", s.fch1), put_num(ds, "foff", s.foff), put_num(ds, "tsamp", s.tsamp), put_num(ds, "tstart", s.tstart);
    put_num(ds, "machine_id", s.machine_id), put_num(ds, "telescope_id", s.telescope_id), put_num(ds, "src_raj", s.src_raj), put_num(ds, "src_dej", s.src_dej);
    put_num(ds, "az_start", s.az_start), put_num(ds, "za_start", s.za_start), put_num(ds, "data_type", s.data_type), put_num(ds, "nbits", s.nbits);
    put_num(ds, "nchans", s.nchans), put_num(ds, "nifs", s.nifs);
    put_str(ds, "source_name", s.source_name);
    if (s.mask) {
        std::vector<uint8_t> z(s.T * s.F, 0);
        f.createDataSet("mask", H5::PredType::NATIVE_UINT8, sp).write(z.data(), H5::PredType::NATIVE_UINT8);
    }
}

inline Num gen_real(Ctx &c, double lo, double hi) {
    Num n;
    n.store = c.b(1, 4) ? (c.b() ? 9 : c.b() ? 1 : 11) : 0;
    n.v     = c.real(lo, hi);
    if (n.store == 1 || n.store == 11) n.v = (double)(float)n.v;
    if (c.b(1, 10)) n.store = c.b() ? 2 : 10, n.v = std::trunc(n.v);
    return n;
}
inline Num gen_int(Ctx &c, int64_t lo, int64_t hi) {
    Num n;
    n.v = (double)c.i(lo, hi);
    static const std::vector<int> all{2, 3, 12, 0, 4, 5, 6, 7, 8, 9, 10, 1, 11, 13};
    n.store = c.b(1, 2) ? 2 : c.pick(all);
    auto fits = [&] {
        switch (n.store) {
        case 4: return n.v >= 0;
        case 5: return std::fabs(n.v) < 32768;
        case 6: return n.v >= 0;
        case 7: return n.v >= 0 && n.v < 65536;
        case 8: return std::fabs(n.v) < 128;
        case 13: return n.v >= 0 && n.v < 256;
        case 1: case 11: return std::fabs(n.v) < (1 << 24);
        default: return true;
        }
    };
    if (!fits()) n.store = 2;
    return n;
}
inline Str gen_str(Ctx &c, const std::vector<std::string> &choices) {
    Str s;
    s.v     = c.pick(choices);
    s.store = c.u(0, 5);
    if (s.store == 3 && s.v.empty()) s.store = 1;
    if (s.store == 2 && !s.v.empty() && s.v.back() == ' ') s.store = 0;
    return s;
}

// metadata and storage; the caller sets T and F first
inline void gen_rest(Ctx &c, Spec &s) {
    s.fch1  = gen_real(c, 100, 12000);
    s.foff  = gen_real(c, 1e-6, 0.4);
    if (s.foff.v == 0) s.foff.v = 1;
    if (c.b()) s.foff.v = -s.foff.v;
    s.tsamp  = gen_real(c, 1e-4, 40);
    if (s.tsamp.v == 0) s.tsamp.v = 1;
    s.tstart = gen_real(c, 50000, 62000);
    s.machine_id   = gen_int(c, -3, 100);
    s.telescope_id = gen_int(c, -5, 40);
    s.src_raj = gen_real(c, 0, 24), s.src_dej = gen_real(c, -90, 90);
    s.az_start = gen_real(c, 0, 360), s.za_start = gen_real(c, 0, 90);
    s.data_type = gen_int(c, 0, 3), s.nbits = gen_int(c, 1, 64);
    s.nchans = gen_int(c, s.F, s.F), s.nifs = gen_int(c, 1, 1);
    s.source_name = gen_str(c, {"Voyager1", "", "B0329+54", "a source with spaces", "HIP 4436 OFF", "{}", std::string(200, 'x')});
    s.cls         = gen_str(c, {"FILTERBANK", "OTHER"});
    s.version     = gen_str(c, {"1.0", "2.0", "3.{}"});
    s.labels      = c.u(0, 3);
    if (s.T == s.F && s.labels >= 2) s.labels -= 2; // ambiguous: not a well-formed file
    s.mask      = c.b(1, 4);
    s.extra_dim = c.b(1, 8);
    s.store     = c.b() ? 0 : c.u(0, 6);
    s.chunked   = c.b();
    if (s.chunked) {
        s.ct = c.i(1, s.T), s.cf = c.i(1, s.F);
        if (c.b()) s.deflate = c.u(1, 9);
        s.shuffle = c.b(1, 3);
    }
}
inline void gen_samples(Ctx &c, Spec &s) {
    pbt::Noise r(c.seed());
    s.val.resize(s.T * s.F);
    bool specials = s.store <= 1 && c.b(1, 8);
    for (auto &v : s.val) {
        switch (s.store) {
        case 2: v = (double)r.range(0, 255); break;
        case 3: v = (double)r.range(-32768, 32767); break;
        case 5: v = (double)r.range(-16000000, 16000000); break;
        case 6: v = (double)r.range(-128, 127); break;
        default: v = (double)(float)(r.normal() * 1000);
        }
        if (specials && r.range(0, 15) == 0) v = r.range(0, 1) ? INFINITY : NAN;
    }
}

inline void expect_cc(const std::string &key, bliss::coarse_channel &cc, const Spec &s, int64_t first, int64_t count, const std::string &where) {
    auto d = cc.data();
    Shape want{s.T, count};
    REQUIRE_P(key, d.shape() == want, where, ": data shape ", pbt::str(d.shape()), " expected ", pbt::str(want));
    REQUIRE_P(key, d.dtype() == ndarray::datatype(ndarray::datatype::float32), where, ": sample type");
    for (int64_t t = 0; t < s.T; ++t)
        for (int64_t f = 0; f < count; ++f) {
            double g = d.scalarize<float>({t, f}), e = s.at(t, first + f);
            REQUIRE_P(key, g == e || (g != g && e != e), where, ": sample (", t, ",", f, ") is ", g, " expected ", e);
        }
    auto m = cc.mask();
    REQUIRE_P(key, m.shape() == want, where, ": mask shape ", pbt::str(m.shape()));
    REQUIRE_P(key, m.dtype() == ndarray::datatype(ndarray::datatype::uint8), where, ": mask type");
    for (auto v : arr::values(m)) REQUIRE_P(key, v == 0, where, ": a sample is flagged to begin with");
}
inline void quiet() { H5::Exception::dontPrint(); }
} // namespace fb

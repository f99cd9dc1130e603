// B01: reading generated HDF5 filterbank files against the samples and attributes they were written with.
#include "fb.hpp"
using namespace fb;

static Spec gen_file(Ctx &c, int64_t &fine, int64_t &coarse) {
    Spec s;
    s.T    = c.i(1, 9);
    fine   = c.i(1, 40);
    coarse = c.i(1, 7);
    int  huge = c.b(1, 150) ? c.u(1, 2) : 0;
    if (huge == 1) s.T = c.i(30000, 70000), fine = c.i(1, 2), coarse = c.i(1, 2);       // long
    if (huge == 2) coarse = c.i(250, c.b() ? 300 : 70000), fine = 1, s.T = c.i(1, 2); // very many coarse channels
    int64_t left = c.b(1, 4) && fine > 1 ? c.u(0, fine - 1) : 0;
    s.F = fine * coarse + left;
    gen_rest(c, s);
    if (huge && s.chunked) s.ct = std::max(s.ct, s.T / 10), s.cf = std::max(s.cf, s.F / 10);
    if (huge) c.label(huge == 1 ? "long" : "many coarse channels");
    gen_samples(c, s);
    return s;
}
static void note(Ctx &c, const Spec &s, int64_t fine) {
    c.note("T=", s.T, " F=", s.F, " fine=", fine, " samples as ", s.store, s.chunked ? " chunked" : "", s.deflate ? " deflated" : "", " labels ", s.labels, s.extra_dim ? " extra dim" : "",
           " foff=", s.foff.v);
}
static bool near(double a, double b) { return pbt::close(a, b, 1e-13, 0); }

static void read_file(Ctx &c) {
    quiet();
    int64_t fine, coarse;
    auto    s    = gen_file(c, fine, coarse);
    auto    path = pbt::scratch_dir() + "/b01.h5";
    write(s, path);
    note(c, s, fine);
    std::string longer = path + "junk";
    bool        via_file = c.b(1, 4);
    auto sc = via_file ? bliss::scan(bliss::h5_filterbank_file(std::string_view(longer).substr(0, path.size())), fine) : bliss::scan(std::string_view(longer).substr(0, path.size()), fine);
    const char *k = "metadata";
    REQUIRE_P(k, sc.get_number_coarse_channels() == coarse, "coarse channels ", sc.get_number_coarse_channels());
    REQUIRE_P(k, sc.nchans() == s.F, "nchans ", sc.nchans());
    REQUIRE_P(k, sc.fch1() == num_value(s.fch1), "fch1 ", sc.fch1(), " stored ", num_value(s.fch1));
    REQUIRE_P(k, sc.foff() == num_value(s.foff), "foff ", sc.foff(), " stored ", num_value(s.foff));
    REQUIRE_P(k, sc.tsamp() == num_value(s.tsamp), "tsamp ", sc.tsamp());
    REQUIRE_P(k, sc.tstart() == num_value(s.tstart), "tstart ", sc.tstart());
    REQUIRE_P(k, sc.ntsteps() == s.T, "ntsteps ", sc.ntsteps());
    REQUIRE_P(k, near(sc.tduration_secs(), s.T * num_value(s.tsamp)), "duration ", sc.tduration_secs());
    REQUIRE_P(k, sc.machine_id() == (int64_t)s.machine_id.v, "machine_id ", sc.machine_id(), " stored ", s.machine_id.v, " as ", s.machine_id.store);
    REQUIRE_P(k, sc.telescope_id() == (int64_t)s.telescope_id.v, "telescope_id ", sc.telescope_id(), " stored ", s.telescope_id.v, " as ", s.telescope_id.store);
    REQUIRE_P(k, sc.src_raj() == num_value(s.src_raj) && sc.src_dej() == num_value(s.src_dej), "source position");
    REQUIRE_P(k, sc.az_start() == num_value(s.az_start) && sc.za_start() == num_value(s.za_start), "pointing");
    REQUIRE_P(k, sc.data_type() == (int64_t)s.data_type.v, "data_type ", sc.data_type());
    REQUIRE_P(k, sc.nbits() == (int64_t)s.nbits.v, "nbits ", sc.nbits(), " stored ", s.nbits.v, " as ", s.nbits.store);
    REQUIRE_P(k, sc.nifs() == 1, "nifs ", sc.nifs());
    REQUIRE_P(k, sc.source_name() == s.source_name.v, "source_name '", sc.source_name(), "' stored '", s.source_name.v, "' as ", s.source_name.store);
    REQUIRE_P(k, sc.get_file_path() == path, "file path ", sc.get_file_path());
    // read in any order, repeatedly, through copies; keep some
    std::vector<std::pair<int, std::shared_ptr<bliss::coarse_channel>>> kept;
    int  n = c.i(1, std::min<int>(15, 2 * (int)coarse + 1));
    auto other = sc;
    std::vector<int> seen(coarse, 0);
    for (int step = 0; step < n; ++step) {
        int   i  = c.u(0, coarse - 1);
        auto &from = c.b(1, 4) ? other : sc;
        bool  was  = from.peak_coarse_channel(i) != nullptr;
        auto  cc   = from.read_coarse_channel(i);
        REQUIRE_P("peak", from.peak_coarse_channel(i) != nullptr, "a channel that was read is not there");
        (void)was;
        seen[i]++;
        std::string w = "coarse channel " + std::to_string(i);
        expect_cc("data", *cc, s, i * fine, fine, w);
        double f0 = num_value(s.fch1) + num_value(s.foff) * (double)(i * fine);
        REQUIRE_P("channel-metadata", near(cc->fch1(), f0), w, ": fch1 ", cc->fch1(), " expected ", f0);
        REQUIRE_P("channel-metadata", cc->foff() == num_value(s.foff), w, ": foff");
        REQUIRE_P("channel-metadata", cc->nchans() == fine && cc->ntsteps() == s.T && cc->nifs() == 1, w, ": sizes ", cc->nchans(), " ", cc->ntsteps(), " ", cc->nifs());
        REQUIRE_P("channel-metadata", cc->tsamp() == num_value(s.tsamp) && cc->tstart() == num_value(s.tstart), w, ": times");
        REQUIRE_P("channel-metadata", cc->source_name() == s.source_name.v && cc->src_raj() == num_value(s.src_raj) && cc->src_dej() == num_value(s.src_dej), w, ": source");
        REQUIRE_P("channel-metadata", cc->telescope_id() == (int64_t)s.telescope_id.v && cc->machine_id() == (int64_t)s.machine_id.v, w, ": ids");
        REQUIRE_P("channel-metadata", cc->az_start() == num_value(s.az_start) && cc->za_start() == num_value(s.za_start), w, ": pointing");
        REQUIRE_P("channel-metadata", cc->data_type() == (int64_t)s.data_type.v && cc->nbits() == (int64_t)s.nbits.v, w, ": data type");
        REQUIRE_P("channel-metadata", cc->_coarse_channel_number == i, w, ": number ", cc->_coarse_channel_number);
        if (c.b(1, 3)) kept.push_back({i, cc});
        if (c.b(1, 6)) { // what a holder does with its samples is its own business
            auto d = cc->data();
            bland::fill(d, -7.0f);
            auto m = cc->mask();
            bland::fill(m, (uint8_t)9);
            expect_cc("data", *sc.read_coarse_channel(i), s, i * fine, fine, w + " after a holder wrote to what it read");
        }
    }
    for (auto &[i, cc] : kept) expect_cc("data", *cc, s, i * fine, fine, "kept coarse channel " + std::to_string(i));
    for (int bad : {-1, (int)coarse, (int)coarse + 1}) {
        bool threw = false;
        try {
            sc.read_coarse_channel(bad);
        } catch (const std::exception &) { threw = true; }
        REQUIRE_P("range", threw, "coarse channel ", bad, " of ", coarse, " was read");
        threw = false;
        try {
            sc.peak_coarse_channel(bad);
        } catch (const std::exception &) { threw = true; }
        REQUIRE_P("range", threw, "coarse channel ", bad, " of ", coarse, " was looked at");
    }
    c.label("samples-" + std::to_string(s.store));
    if (s.deflate) c.label("deflated");
    if (s.labels >= 2) c.label("swapped-labels");
    if (s.F != fine * coarse) c.label("channels-left-over");
    c.nontrivial(coarse > 1 && s.T > 1 && fine > 1 && n > 1);
}

static void raw_file(Ctx &c) {
    quiet();
    int64_t fine, coarse;
    auto    s    = gen_file(c, fine, coarse);
    auto    path = pbt::scratch_dir() + "/b01.h5";
    write(s, path);
    note(c, s, fine);
    bliss::h5_filterbank_file f(path);
    REQUIRE_P("raw", f.get_data_shape() == (Shape{s.T, 1, s.F}), "shape ", pbt::str(f.get_data_shape()));
    REQUIRE_P("raw", f.get_file_path() == path, "path");
    int64_t t0 = c.i(0, s.T - 1), f0 = c.i(0, s.F - 1), tn = c.i(1, s.T - t0), fn = c.i(1, s.F - f0);
    int     how = c.u(0, 3);
    std::vector<int64_t> off, cnt;
    if (how >= 1) off = {t0, 0, f0};
    else t0 = f0 = 0;
    if (how >= 2) cnt = {tn, 1, fn};
    else tn = s.T - t0, fn = s.F - f0;
    c.note("offset ", pbt::str(off), " count ", pbt::str(cnt));
    auto d = f.read_data(off, cnt);
    REQUIRE_P("raw", d.shape() == (Shape{tn, fn}), "block shape ", pbt::str(d.shape()));
    for (int64_t t = 0; t < tn; ++t)
        for (int64_t k = 0; k < fn; ++k) {
            double g = d.scalarize<float>({t, k}), e = s.at(t0 + t, f0 + k);
            REQUIRE_P("raw", g == e || (g != g && e != e), "sample (", t, ",", k, ") of the block is ", g, " expected ", e);
        }
    auto m = f.read_mask(off, cnt);
    REQUIRE_P("raw-mask", m.shape() == (Shape{tn, fn}), "mask shape ", pbt::str(m.shape()));
    for (auto v : arr::values(m)) REQUIRE_P("raw-mask", v == 0, "flagged");
    // a block that is not in the file
    std::vector<int64_t> bo{t0, 0, f0}, bc{tn, 1, fn};
    int axis = c.b() ? 0 : 2;
    bc[axis] = (axis ? s.F : s.T) - bo[axis] + c.i(1, 5);
    bool threw = false;
    try {
        f.read_data(bo, bc);
    } catch (const std::exception &) { threw = true; } catch (const H5::Exception &) { threw = true; }
    REQUIRE_P("raw", threw, "a block that is not in the file was read");
    threw = false;
    try {
        f.read_mask(bo, bc);
    } catch (const std::exception &) { threw = true; } catch (const H5::Exception &) { threw = true; }
    REQUIRE_P("raw-mask", threw, "the mask of a block that is not in the file was read");
    // nor one that is no block of the file at all: it starts outside, has a negative size or another number of dimensions
    auto bad = [&](std::vector<int64_t> o, std::vector<int64_t> n, bool mask, const char *what) {
        bool threw = false;
        try {
            mask ? f.read_mask(o, n) : f.read_data(o, n);
        } catch (const std::exception &) { threw = true; } catch (const H5::Exception &) { threw = true; }
        REQUIRE_P("raw-bad", threw, what, " was read: offset ", pbt::str(o), " count ", pbt::str(n), mask ? " (mask)" : "");
    };
    for (int mask = 0; mask < 2; ++mask)
        switch (c.u(0, 4)) {
        case 0: {
            auto o = bo;
            o[axis] = (axis ? s.F : s.T) + c.i(1, 3);
            bad(o, {}, mask, "a block starting outside of the file");
        } break;
        case 1: {
            auto o = bo;
            o[axis] = -c.i(1, 3);
            bad(o, c.b() ? std::vector<int64_t>{} : std::vector<int64_t>{1, 1, 1}, mask, "a block with a negative offset");
        } break;
        case 2: {
            auto n = std::vector<int64_t>{1, 1, 1};
            n[axis] = -c.i(1, 3);
            bad(bo, n, mask, "a block of negative size");
        } break;
        case 3: bad(std::vector<int64_t>(c.pick(std::vector<size_t>{1, 2, 4}), 0), {}, mask, "a block with another number of dimensions"); break;
        default: bad(c.b() ? bo : std::vector<int64_t>{}, std::vector<int64_t>(c.pick(std::vector<size_t>{1, 2, 4}), 1), mask, "a block with another number of dimensions");
        }
    c.nontrivial(s.T > 1 && s.F > 2 && how > 0);
}

// an attribute of any numeric type, read as any other
template <class T> static void expect_attr(Ctx &c, bliss::h5_filterbank_file &f, const char *type, bool real, double x, bool neg, uint64_t mag) {
    // the stored value is x, or (neg ? -mag : mag)
    bool fits;
    T    e{};
    if constexpr (std::is_floating_point_v<T>) {
        fits = true;
        e    = real ? (T)x : neg ? (T) - (int64_t)mag : (T)mag;
        if (real && std::fabs(x) > (double)std::numeric_limits<T>::max() && std::isfinite(x)) return; // how far beyond is not judged
    } else {
        if (real) {
            fits = std::isfinite(x);
            neg = x < 0, mag = 0;
            double t = fits ? std::trunc(std::fabs(x)) : 0;
            if (t >= 18446744073709551616.0) fits = false;
            else mag = (uint64_t)t;
            if (mag == 0) neg = false;
        }
        uint64_t most = neg ? (std::is_signed_v<T> ? (uint64_t)std::numeric_limits<T>::max() + 1 : 0) : (uint64_t)std::numeric_limits<T>::max();
        fits = (!real || std::isfinite(x)) && (!real || std::fabs(x) < 18446744073709551616.0) && mag <= most;
        if (fits) e = neg ? (T)(0 - mag) : (T)mag;
    }
    bool threw = false;
    T    g{};
    try {
        g = f.read_data_attr<T>("probe");
    } catch (const std::invalid_argument &) { threw = true; }
    REQUIRE_P("attr", threw == !fits, type, ": ", threw ? "refused" : "accepted", " as ", +g);
    if (fits) REQUIRE_P("attr", g == e || (g != g && e != e), type, ": read as ", +g, " expected ", +e);
    c.label(fits ? "attribute fits" : "attribute does not fit");
}
static void attributes(Ctx &c) {
    quiet();
    static const std::string path = [] {
        auto p = pbt::scratch_dir() + "/b01-attr.h5";
        Spec s;
        s.T = 1, s.F = 2, s.val = {1, 2};
        s.source_name.v = "A", s.cls.v = "FILTERBANK", s.version.v = "1.0";
        write(s, p);
        return p;
    }();
    struct Type {
        H5::DataType t;
        int          bits; // 0 real
        bool         sign;
    };
    using P = H5::PredType;
    static const std::vector<Type> types{{P::NATIVE_DOUBLE, 0, true}, {P::NATIVE_FLOAT, 0, true}, {P::IEEE_F64BE, 0, true}, {P::IEEE_F32BE, 0, true}, {P::NATIVE_INT8, 8, true}, {P::NATIVE_UINT8, 8, false}, {P::NATIVE_INT16, 16, true}, {P::NATIVE_UINT16, 16, false}, {P::NATIVE_INT32, 32, true}, {P::NATIVE_UINT32, 32, false}, {P::NATIVE_INT64, 64, true}, {P::NATIVE_UINT64, 64, false}, {P::STD_I16BE, 16, true}, {P::STD_U16BE, 16, false}, {P::STD_I32BE, 32, true}, {P::STD_U32BE, 32, false}, {P::STD_I64BE, 64, true}, {P::STD_U64BE, 64, false}};
    int   k  = c.u(0, types.size() - 1);
    auto &ty = types[k];
    double   x   = 0;
    bool     neg = false;
    uint64_t mag = 0;
    // values around the limits of the integer types, and of what a double counts in ones
    int bit = c.pick(std::vector<int>{0, 1, 7, 8, 15, 16, 24, 31, 32, 53, 62, 63, 64});
    if (ty.bits == 0) {
        static const std::vector<double> odd{NAN, INFINITY, -INFINITY, 1e300, -1e300, -0.0, 0.5, -0.5, 5e-324};
        double p = std::ldexp(1.0, bit);
        switch (c.u(0, 4)) {
        case 0: x = c.pick(odd); break;
        case 1: x = p; break;
        case 2: x = std::nextafter(p, 0); break;
        case 3: x = p + c.i(-2, 2); break;
        default: x = p + c.real(-2, 2);
        }
        if (c.b()) x = -x;
        if (k % 2) x = (double)(float)x;
        c.note("stored as real ", x, " (type ", k, ")");
    } else {
        mag = bit == 64 ? ~uint64_t(0) : (uint64_t(1) << bit);
        if (bit < 64) mag += (uint64_t)c.i(-2, 2);
        if (mag > (uint64_t(1) << 63) + 10 && bit <= 1) mag = 0;
        neg = ty.sign && c.b() && mag != 0;
        uint64_t most = ty.sign ? (uint64_t(1) << (ty.bits - 1)) - (neg ? 0 : 1) : ty.bits == 64 ? ~uint64_t(0) : (uint64_t(1) << ty.bits) - 1;
        if (mag > most) mag = most;
        c.note("stored as ", ty.sign ? "signed " : "unsigned ", ty.bits, " bits (type ", k, "): ", neg ? "-" : "", mag);
    }
    {
        H5::H5File h(path, H5F_ACC_RDWR);
        auto       ds = h.openDataSet("data");
        if (ds.attrExists("probe")) ds.removeAttr("probe");
        auto a = ds.createAttribute("probe", ty.t, H5::DataSpace(H5S_SCALAR));
        if (ty.bits == 0) a.write(P::NATIVE_DOUBLE, &x);
        else if (ty.sign) {
            int64_t v = neg ? (int64_t)(0 - mag) : (int64_t)mag;
            a.write(P::NATIVE_INT64, &v);
        } else a.write(P::NATIVE_UINT64, &mag);
    }
    bliss::h5_filterbank_file f(path);
    bool                      r = ty.bits == 0;
    expect_attr<float>(c, f, "float", r, x, neg, mag);
    expect_attr<double>(c, f, "double", r, x, neg, mag);
    expect_attr<int8_t>(c, f, "int8", r, x, neg, mag);
    expect_attr<uint8_t>(c, f, "uint8", r, x, neg, mag);
    expect_attr<int16_t>(c, f, "int16", r, x, neg, mag);
    expect_attr<uint16_t>(c, f, "uint16", r, x, neg, mag);
    expect_attr<int32_t>(c, f, "int32", r, x, neg, mag);
    expect_attr<uint32_t>(c, f, "uint32", r, x, neg, mag);
    expect_attr<int64_t>(c, f, "int64", r, x, neg, mag);
    expect_attr<uint64_t>(c, f, "uint64", r, x, neg, mag);
    c.nontrivial(bit > 1);
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property        = "B01";
    s.rule            = "read: more than one coarse channel, time step, fine channel and read; raw: more than one time step and two channels with an offset; attributes: a value beyond 2 bits";
    s.quick_cases     = 14000;
    s.thorough_cases  = 200000;
    s.assumptions     = "files of up to 9 x 320 samples written with the HDF5 library (contiguous, chunked, shuffled, deflated; seven sample types; attributes of any numeric type and string storage); samples that float32 represents exactly";
    s.facets          = {{"read", 3, 0, read_file}, {"raw", 1, 0, raw_file}, {"attributes", 3, 0, attributes}};
    return pbt::run(argc, argv, s);
}

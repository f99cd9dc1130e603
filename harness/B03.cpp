// B03: channelization of files with any number of channels.  The files are sparse: samples that were not written read as 0.
#include "fb.hpp"
using namespace fb;

static const struct { int64_t fine; double res, tsamp; const char *name; } known[] = {
    {1033216, 2.84, 17.98, "HSR-Rev1A"}, {8, 366210.0, 0.00034953, "HTR-Rev1A"}, {1024, 2860.0, 1.06, "MR-Rev1A"},
    {999424, 2.93, 17.4, "HSR-Rev1B"},   {1024, 2860.0, 1.02, "MR-Rev1B"},       {1048576, 2.79, 18.25, "HSR-Rev2A"}, {1024, 2860.0, 1.07, "MR-Rev2A"}};

static void write_sparse(const std::string &path, int64_t T, int64_t F, double fch1, double foff, double tsamp, const std::vector<std::pair<std::pair<int64_t, int64_t>, float>> &samples) {
    H5::H5File            f(path, H5F_ACC_TRUNC);
    hsize_t               dims[3] = {(hsize_t)T, 1, (hsize_t)F}, ch[3] = {1, 1, (hsize_t)std::min<int64_t>(F, 4096)};
    H5::DSetCreatPropList pl;
    pl.setChunk(3, ch);
    H5::DataSpace sp(3, dims);
    auto          ds = f.createDataSet("data", H5::PredType::NATIVE_FLOAT, sp, pl);
    for (auto &[at, v] : samples) {
        hsize_t off[3] = {(hsize_t)at.first, 0, (hsize_t)at.second}, one[3] = {1, 1, 1};
        H5::DataSpace w(3, dims), m(3, one);
        w.selectHyperslab(H5S_SELECT_SET, one, off);
        ds.write(&v, H5::PredType::NATIVE_FLOAT, m, w);
    }
    Str  nm;
    nm.v = "sparse";
    put_str(ds, "source_name", nm);
    auto num = [&](const char *k, double v, int store) {
        Num n;
        n.v = v, n.store = store;
        put_num(ds, k, n);
    };
    num("fch1", fch1, 0), num("foff", foff, 0), num("tsamp", tsamp, 0), num("tstart", 58000, 0), num("src_raj", 1, 0), num("src_dej", 2, 0), num("telescope_id", 6, 2), num("machine_id", 1, 2);
    num("nchans", (double)F, 2), num("nifs", 1, 2), num("nbits", 32, 2), num("data_type", 1, 2);
    hsize_t                   nl = 3;
    H5::DataSpace             lsp(1, &nl);
    H5::StrType               t(H5::PredType::C_S1, H5T_VARIABLE);
    std::vector<const char *> p{"time", "feed_id", "frequency"};
    ds.createAttribute("DIMENSION_LABELS", t, lsp).write(t, p.data());
}

static void infer(Ctx &c) {
    quiet();
    int64_t F = 1, T = c.i(1, 3), want = 0, explicit_fine = 0;
    double  foff = 1e-6 * c.real(0.5, 20), tsamp = c.real(0.001, 30);
    int     kind = c.u(0, 6);
    std::string name;
    if (kind == 0) { // a published channelization
        auto &k = known[c.u(0, 6)];
        F     = k.fine * (k.fine > 100000 ? c.i(1, c.b(1, 4) ? 6000 : 130) : c.i(1, 600000 / k.fine + 3));
        foff  = 1e-6 * (k.res + c.real(-0.02, 0.02)), tsamp = k.tsamp + c.real(0, 0.02);
        want  = k.fine;
        name  = k.name;
    } else if (kind == 1) F = c.small(1, 5000);
    else if (kind == 2) F = (1 << 18) * c.i(1, c.b(1, 4) ? 30000 : 40) + (c.b() ? c.i(-40, 40) : 0);
    else if (kind == 3) F = 1000000 * c.i(1, c.b(1, 4) ? 9000 : 100) + (c.b() ? c.i(-100, 100) : 0);
    else if (kind == 4) F = c.i(1, 300000);
    else if (kind == 5) F = c.i(1, c.b() ? int64_t(1) << 34 : 1 << 30);
    else { // explicit
        explicit_fine = c.b() ? c.small(1, 3000) : (1 << 16) * c.i(1, 12);
        F = explicit_fine * c.i(1, explicit_fine > 3000 && c.b(1, 4) ? 70000 : 50) + (c.b(1, 3) ? c.u(0, explicit_fine - 1) : 0);
        if (c.b(1, 3)) { // also where a published one would match
            foff = 2.79e-6, tsamp = 18.25, F = 1048576;
            explicit_fine = c.b() ? 1 << c.u(8, 20) : c.i(1000, 1048576);
        }
    }
    if (F < 1) F = 1;
    if (c.b()) foff = -foff;
    double fch1 = c.real(1000, 9000);
    for (int turn = 0, turns = c.b(1, 4) ? 2 : 1; turn < turns; ++turn) {
    if (turn == 1) { // another file, that differs in one respect
        if (!explicit_fine && c.b(2, 3)) {
            want = 0, foff = 1e-6 * c.real(0.5, 2) , tsamp = c.real(20, 30);
            for (auto &k : known)
                if (F % k.fine == 0 && F / k.fine < 100000 && c.b()) { want = k.fine, name = k.name, foff = 1e-6 * k.res, tsamp = k.tsamp + 0.01; break; }
        } else explicit_fine = explicit_fine ? 0 : std::min<int64_t>(F, F < 1000000 ? c.i(1, 10000) : 1 << c.u(12, 20)), want = 0, foff = 1e-6 * c.real(0.5, 2), tsamp = c.real(20, 30);
    }
    c.note("F=", F, " T=", T, " foff=", foff, " tsamp=", tsamp, want ? " " + name : "", explicit_fine ? " explicit " : "", explicit_fine ? std::to_string(explicit_fine) : "");
    std::vector<std::pair<std::pair<int64_t, int64_t>, float>> samples;
    int n = c.u(1, 3);
    for (int k = 0; k < n; ++k) samples.push_back({{c.u(0, T - 1), k == 0 ? c.i(0, F - 1) : c.u(0, F - 1)}, (float)(k + 1)});
    auto path = pbt::scratch_dir() + "/b03.h5";
    write_sparse(path, T, F, fch1, foff, tsamp, samples);
    bliss::scan sc(path, (int)explicit_fine);
    int64_t num = sc.get_number_coarse_channels();
    REQUIRE_P("count", num >= 1, num, " coarse channels");
    auto cc = sc.read_coarse_channel(0);
    int64_t fine = cc->nchans();
    if (explicit_fine) {
        REQUIRE_P("explicit", fine == explicit_fine, fine, " fine channels per coarse, asked for ", explicit_fine);
        REQUIRE_P("explicit", num == F / explicit_fine, num, " coarse channels of ", F / explicit_fine);
    } else REQUIRE_P("partition", num * fine == F, num, " coarse channels of ", fine, " do not make ", F);
    if (want) REQUIRE_P("known", fine == want, fine, " fine channels per coarse, published is ", want);
    REQUIRE_P("count", sc.nchans() == F, "nchans ", sc.nchans());
    // channels tile the band
    for (int r = 0; r < 3; ++r) {
        int64_t i = r == 0 ? num - 1 : c.u(0, num - 1);
        auto    x = sc.read_coarse_channel((int)i);
        double  f = fch1 + foff * (double)(i * fine);
        REQUIRE_P("tile", x->nchans() == fine && pbt::close(x->fch1(), f, 1e-12, 0), "coarse channel ", i, " starts at ", x->fch1(), " with ", x->nchans(), " channels, expected ", f, " with ", fine);
        int64_t e = std::min(num - 1, i), g = sc.get_coarse_channel_with_frequency(f + foff * (fine * 0.5));
        REQUIRE_P("tile", g == e, "the middle of coarse channel ", i, " is looked up as ", g);
    }
    // and the samples are where they were put
    for (auto &[at, v] : samples) {
        int64_t i = at.second / fine;
        if (i >= num || fine * T > 3000000) continue;
        double last = v;
        for (auto &[at2, v2] : samples)
            if (at2 == at) last = v2;
        auto d = sc.read_coarse_channel((int)i)->data();
        REQUIRE_P("sample", d.shape() == (Shape{T, fine}), "shape ", pbt::str(d.shape()));
        double g = d.scalarize<float>({at.first, at.second % fine});
        REQUIRE_P("sample", g == last, "sample (", at.first, ",", at.second, ") in coarse channel ", i, " is ", g, " expected ", last);
        if (fine > 100000) break;
    }
    ::unlink(path.c_str());
    c.label(want ? name : explicit_fine ? "explicit" : F < (1 << 18) ? "small" : "large");
    c.nontrivial(F > 1 && (num > 1 || want == 0));
    }
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property        = "B03";
    s.rule            = "more than one fine channel and (several coarse channels or no published channelization)";
    s.quick_cases     = 14000;
    s.thorough_cases  = 80000;
    s.assumptions     = "up to 2^35 fine channels in sparse files; published resolutions within 0.02 Hz and 0.02 s";
    s.facets          = {{"infer", 1, 0, infer}};
    return pbt::run(argc, argv, s);
}

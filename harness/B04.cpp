// B04: damaged and incomplete input files.
#include "hits.hpp"
#include "fault.hpp"
#include <core/event.hpp>
#include <core/cadence.hpp>
#include <file_types/cpnp_files.hpp>
#include <file_types/events_file.hpp>
#include <file_types/hits_file.hpp>
#include <fstream>
#include <sys/stat.h>
using namespace hg;
using namespace fb;

// runs f; true when it reported an error
template <class F> static bool errs(F f) {
    try {
        f();
        return false;
    } catch (const pbt::Violation &) { throw; } catch (const pbt::Discard &) { throw; } catch (const std::exception &) { return true; } catch (const H5::Exception &) { return true; }
}
static std::string path_of(const char *n) { return pbt::scratch_dir() + "/" + n; }
static int64_t file_size(const std::string &f) {
    std::ifstream i(f, std::ios::binary | std::ios::ate);
    return (int64_t)i.tellg();
}
static std::string slurp(const std::string &f) {
    std::ifstream     i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
static void spit(const std::string &f, const std::string &d) {
    std::ofstream o(f, std::ios::binary | std::ios::trunc);
    o.write(d.data(), d.size());
}
static std::string noise_bytes(Ctx &c, int64_t n) {
    pbt::Noise  r(c.seed());
    std::string s(n, 0);
    int         dense = r.range(0, 2);
    for (auto &b : s) b = dense == 0 || r.range(0, 9) == 0 ? (char)r.next() : dense == 1 ? (char)(r.next() % 5) : 0;
    return s;
}

// open through one of the interfaces
static bliss::scan open_scan(int via, const std::string &p, int fine) {
    if (via == 1) {
        bliss::observation_target o(std::vector<std::string>{p}, fine);
        return o._scans.at(0);
    }
    if (via == 2) {
        bliss::cadence k(std::vector<std::vector<std::string>>{{p}}, fine);
        return k._observations.at(0)._scans.at(0);
    }
    if (via == 3) return bliss::scan(bliss::h5_filterbank_file(p), fine);
    return bliss::scan(p, fine);
}
// whatever can be read of it is in the file
static int read_all(Ctx &c, bliss::scan &s, const Spec &f, const std::string &w) {
    int n = s.get_number_coarse_channels(), ok = 0;
    int64_t fine = s.nchans() / (n ? n : 1);
    std::vector<int> which{0, 1, n - 1, n, n / 2, -1};
    for (int k : which) {
        std::shared_ptr<bliss::coarse_channel> cc;
        bool e = errs([&] {
            cc   = s.read_coarse_channel(k);
            auto d = cc->data();
            auto m = cc->mask();
        });
        if (k < 0 || k >= n) REQUIRE_P("no-such-channel", e, w, ": coarse channel ", k, " of ", n, " was read");
        if (e) continue;
        int64_t count = cc->nchans();
        REQUIRE_P("inside", k * count + count <= f.F && count >= 0, w, ": coarse channel ", k, " of ", count, " channels was read from a file of ", f.F);
        expect_cc("samples", *cc, f, k * count, count, w + " coarse channel " + std::to_string(k));
        ++ok;
    }
    errs([&] { s.get_coarse_channel_with_frequency(f.fch1.v); });
    errs([&] { s.get_coarse_channel_with_frequency(c.real(-1e5, 1e5)); });
    return ok;
}

enum Damage { OMIT, TEXT, NUMBERS, NOVALUE, NUMBER, WILD };
static void put_damage(H5::DataSet &ds, const std::string &key, Damage d, double v, int many) {
    if (ds.attrExists(key)) ds.removeAttr(key);
    if (d == OMIT) return;
    if (d == TEXT) {
        std::string t = many ? std::string(many, '7') : "x";
        H5::StrType st(H5::PredType::C_S1, t.size());
        ds.createAttribute(key, st, H5::DataSpace(H5S_SCALAR)).write(st, t.data());
    } else if (d == NUMBERS) {
        hsize_t             n = many;
        H5::DataSpace       sp(1, &n);
        auto                a = ds.createAttribute(key, H5::PredType::NATIVE_DOUBLE, sp);
        std::vector<double> x(std::max(many, 1), v);
        if (many) a.write(H5::PredType::NATIVE_DOUBLE, x.data());
    } else if (d == NOVALUE) {
        if (many % 2) {
            H5::StrType st(H5::PredType::C_S1, H5T_VARIABLE);
            ds.createAttribute(key, st, H5::DataSpace(H5S_NULL));
        } else ds.createAttribute(key, H5::PredType::NATIVE_INT64, H5::DataSpace(H5S_NULL));
    } else {
        auto a = ds.createAttribute(key, H5::PredType::NATIVE_DOUBLE, H5::DataSpace(H5S_SCALAR));
        a.write(H5::PredType::NATIVE_DOUBLE, &v);
    }
}
static void gen_small(Ctx &c, Spec &f) {
    f.T = c.i(1, 5), f.F = c.i(1, 40);
    gen_rest(c, f);
    gen_samples(c, f);
}
static double wild(Ctx &c) {
    static const std::vector<double> v{NAN, INFINITY, -INFINITY, 1e300, -1e300, 0, -1, 9.3e18, -9.3e18, 1e10, -2147483649.0, 0.5, 5e-324};
    return c.pick(v);
}
// attributes missing, of another type, several or no values, and values out of the ordinary
static void attributes(Ctx &c) {
    quiet();
    Spec f;
    gen_small(c, f);
    for (auto *n : {&f.fch1, &f.foff, &f.tsamp, &f.tstart, &f.machine_id, &f.telescope_id, &f.src_raj, &f.src_dej, &f.az_start, &f.za_start, &f.data_type, &f.nbits, &f.nchans, &f.nifs}) n->store = 0;
    if (f.T == f.F && f.labels >= 2) f.labels -= 2;
    auto p = path_of("b04.h5");
    fb::write(f, p);
    static const std::vector<std::string> keys{"fch1", "foff", "tsamp", "tstart", "telescope_id", "src_raj", "src_dej", "source_name", "machine_id", "az_start", "za_start", "data_type", "nbits", "nchans", "nifs"};
    static const std::set<std::string>    integer{"telescope_id", "machine_id", "data_type", "nbits", "nchans", "nifs"};
    auto required = [&](const std::string &k) { return std::find(keys.begin(), keys.end(), k) - keys.begin() < 8; };
    std::map<std::string, std::pair<Damage, double>> dmg;
    int n = c.i(1, 3);
    bool must = false, may = false, swapped = f.labels >= 2;
    {
        H5::H5File h(p, H5F_ACC_RDWR);
        auto       ds = h.openDataSet("data");
        for (int k = 0; k < n; ++k) {
            auto   key = c.pick(keys);
            Damage d   = (Damage)c.u(0, 5);
            if (dmg.count(key)) continue;
            if (key == "source_name" && (d == TEXT || d == WILD)) d = NUMBER;
            double v = d == WILD ? wild(c) : (double)c.i(-3, 100);
            if (key == "nchans" && d >= NUMBER) {
                static const std::vector<double> some{-3, -1, 0, 1, 2, 1e6, -1e9, 262144, 300000};
                v = d == WILD && c.b() ? v : c.b() ? c.pick(some) : (double)(f.F * c.i(1, 3) + c.i(-1, 1));
                if (std::fabs(v) > 5e6) d = WILD;
                if (v > 5e6 && v < 1e19) v = 5e6; // (only because it would be allocated)
            }
            int many = d == NUMBERS ? (c.b(1, 4) ? 0 : c.i(2, 4)) : c.u(0, 9);
            put_damage(ds, key, d, v, many);
            dmg[key] = {d, v};
            c.note(key, " damage ", (int)d, " value ", v, " x ", many);
            bool bad = d == TEXT || d == NUMBERS || d == NOVALUE || (key == "source_name" && d == NUMBER);
            if (integer.count(key) && d == WILD && !(std::fabs(v) < 9.2e18)) bad = true; // not an integer of 64 bits
            if (required(key) && (bad || d == OMIT)) must = true;
            if (bad) may = true;
            // which of the dimensions is which may be told from the number of channels
            if (key == "nchans") may = may || swapped || std::trunc(v) == (double)f.T;
        }
    }
    int  fine = c.b() ? 0 : c.pick(std::vector<int>{1, 2, (int)f.F, (int)f.F + 1, -3, 2147483647, 3});
    int  via  = c.u(0, 3);
    bool with_nchans = dmg.count("nchans");
    c.note(f.T, " x ", f.F, " via ", via, " fine ", fine);
    std::string w = "damaged file";
    int         ok = 0;
    bool e = errs([&] {
        auto s = open_scan(via, p, fine);
        REQUIRE_P("required", !must, w, ": an attribute that is required is missing or not a number, but it was opened");
        auto expect = [&](const char *key, double got, double orig) {
            auto i = dmg.find(key);
            if (i != dmg.end() && !(i->second.first >= NUMBER)) return; // checked by its default below
            double want = i == dmg.end() ? orig : i->second.second;
            if (integer.count(key)) want = std::trunc(want);
            if (integer.count(key) && !(std::fabs(want) < 9.2e18)) return;
            REQUIRE_P("metadata", same(got, want), w, ": ", key, " is ", got, ", the file has ", want);
        };
        expect("fch1", s.fch1(), f.fch1.v), expect("foff", s.foff(), f.foff.v), expect("tsamp", s.tsamp(), f.tsamp.v), expect("tstart", s.tstart(), f.tstart.v);
        expect("telescope_id", s.telescope_id(), f.telescope_id.v), expect("src_raj", s.src_raj(), f.src_raj.v), expect("src_dej", s.src_dej(), f.src_dej.v);
        REQUIRE_P("metadata", s.source_name() == f.source_name.v, w, ": source_name is '", s.source_name(), "'");
        auto optional = [&](const char *key, auto get, double orig, double dflt) {
            auto   i = dmg.find(key);
            double got = 0;
            bool   none = errs([&] { got = (double)get(); });
            bool   gone = i != dmg.end() && (i->second.first < NUMBER || (integer.count(key) && !(std::fabs(i->second.second) < 9.2e18)));
            if (!gone) {
                REQUIRE_P("metadata", !none, w, ": ", key, " is in the file but an error to ask for");
                expect(key, got, orig);
            } else REQUIRE_P("default", none || got == dflt, w, ": ", key, " is not in the file but ", got);
        };
        optional("machine_id", [&] { return s.machine_id(); }, f.machine_id.v, NAN), optional("az_start", [&] { return s.az_start(); }, f.az_start.v, NAN), optional("za_start", [&] { return s.za_start(); }, f.za_start.v, NAN);
        optional("data_type", [&] { return s.data_type(); }, f.data_type.v, 1), optional("nbits", [&] { return s.nbits(); }, f.nbits.v, 32);
        optional("nchans", [&] { return s.nchans(); }, f.nchans.v, (double)f.F), optional("nifs", [&] { return s.nifs(); }, f.nifs.v, 1);
        bool plain = !with_nchans || dmg["nchans"].first < NUMBER;
        if (plain) REQUIRE_P("metadata", s.ntsteps() == f.T, w, ": ", s.ntsteps(), " time steps of ", f.T);
        if (s.ntsteps() == f.T) ok = read_all(c, s, f, w);
        if (plain && (fine == 0 || (fine > 0 && f.F / fine > 0))) REQUIRE_P("readable", ok > 0, w, ": no coarse channel can be read");
    });
    if (!e) c.label("opened");
    else c.label("error");
    if (!must && !may) REQUIRE_P("opens", !e, w, ": an error, but only attributes it can do without are missing");
    ::unlink(p.c_str());
    c.nontrivial();
}

// datasets missing or of another kind, labels which do not describe them
static void structure(Ctx &c) {
    quiet();
    Spec f;
    gen_small(c, f);
    f.extra_dim = false;
    for (auto *n : {&f.fch1, &f.foff, &f.tsamp, &f.tstart, &f.machine_id, &f.telescope_id, &f.src_raj, &f.src_dej, &f.az_start, &f.za_start, &f.data_type, &f.nbits, &f.nchans, &f.nifs}) n->store = 0;
    auto p = path_of("b04s.h5");
    int  how = c.u(0, 17);
    c.note("structure ", how, " ", f.T, " x ", f.F);
    bool good = false, may = false; // must be readable; may be
    {
        H5::H5File h(p, H5F_ACC_TRUNC);
        put_str(h, "CLASS", f.cls), put_str(h, "VERSION", f.version);
        std::vector<hsize_t>     dims{(hsize_t)f.T, 1, (hsize_t)f.F};
        std::vector<std::string> labels{"time", "feed_id", "frequency"};
        H5::DataType             type = H5::PredType::NATIVE_FLOAT;
        std::unique_ptr<H5::DataSpace> sp;
        bool                           write = true, put_labels = true, numeric = false;
        H5S_class_t                    cls = H5S_SIMPLE;
        switch (how) {
        case 0: good = true; break;
        case 1: break; // no data
        case 2: break; // data is a group
        case 3: type = H5::StrType(H5::PredType::C_S1, 7), write = false; break;
        case 4: {
            H5::CompType t((size_t)16);
            t.insertMember("a", 0, H5::PredType::NATIVE_DOUBLE), t.insertMember("b", 8, H5::PredType::NATIVE_DOUBLE);
            type = t, write = false;
        } break;
        case 5: cls = c.b() ? H5S_SCALAR : H5S_NULL, write = false; break;
        case 6: dims.erase(dims.begin() + c.u(0, 2)), labels.resize(dims.size()), write = false; break;
        case 7: dims.push_back(c.i(2, 3)), labels.push_back("polarisation"), write = false; break;
        case 8: dims[1] = c.i(2, 3), write = false; break;
        case 9: put_labels = false; break;
        case 10: numeric = true; break;
        case 11:
            if (c.b()) labels.pop_back();
            else labels.push_back("more");
            break;
        case 12: labels[c.u(0, 2)] = c.b() ? "" : "something"; break;
        case 13: {
            int k = c.u(0, 2);
            labels[k] = labels[(k + 1) % 3];
        } break;
        case 14: std::swap(labels[c.u(0, 1)], labels[2]), may = true; break; // time and frequency swapped is a known mistake
        case 15: dims[c.b() ? 0 : 2] = 0, write = false, may = true; break;
        case 16: {
            auto g = h.createGroup("mask"); // there is no need of it
            good   = true;
        } break;
        case 17: { // attributes of the file that are not what they should be
            for (auto k : {"CLASS", "VERSION"})
                if (h.attrExists(k)) h.removeAttr(k);
            double x = 3;
            h.createAttribute(c.b() ? "CLASS" : "VERSION", H5::PredType::NATIVE_DOUBLE, H5::DataSpace(H5S_SCALAR)).write(H5::PredType::NATIVE_DOUBLE, &x);
            may = true;
        } break;
        }
        if (how == 2) h.createGroup("data");
        else if (how != 1) {
            if (cls == H5S_SIMPLE) sp.reset(new H5::DataSpace(dims.size(), dims.data()));
            else sp.reset(new H5::DataSpace(cls));
            auto ds = h.createDataSet("data", type, *sp);
            if (write) ds.write(f.val.data(), H5::PredType::NATIVE_DOUBLE);
            if (put_labels) {
                hsize_t       nl = labels.size();
                H5::DataSpace lsp(1, &nl);
                if (numeric) {
                    std::vector<double> x(nl, 1);
                    ds.createAttribute("DIMENSION_LABELS", H5::PredType::NATIVE_DOUBLE, lsp).write(H5::PredType::NATIVE_DOUBLE, x.data());
                } else if (c.b()) {
                    H5::StrType               t(H5::PredType::C_S1, H5T_VARIABLE);
                    std::vector<const char *> q;
                    for (auto &l : labels) q.push_back(l.c_str());
                    auto a = ds.createAttribute("DIMENSION_LABELS", t, lsp);
                    if (how == 12 && c.b()) c.label("labels never written"); // null strings
                    else a.write(t, q.data());
                } else {
                    H5::StrType t(H5::PredType::C_S1, 13);
                    std::string buf;
                    for (auto l : labels) l.resize(13, '\0'), buf += l;
                    ds.createAttribute("DIMENSION_LABELS", t, lsp).write(t, buf.data());
                }
            }
            put_num(ds, "fch1", f.fch1), put_num(ds, "foff", f.foff), put_num(ds, "tsamp", f.tsamp), put_num(ds, "tstart", f.tstart), put_num(ds, "telescope_id", f.telescope_id);
            put_num(ds, "src_raj", f.src_raj), put_num(ds, "src_dej", f.src_dej), put_str(ds, "source_name", f.source_name);
            if (c.b()) put_num(ds, "nchans", f.nchans);
        }
    }
    f.store = 0;
    for (auto &v : f.val) v = (double)(float)v;
    int  ok = 0, via = c.u(0, 3), fine = c.b() ? 0 : c.i(1, f.F);
    std::string w = "structure " + std::to_string(how);
    bool e = errs([&] {
        auto s = open_scan(via, p, fine);
        if (how == 15) { // there is nothing in it
            int n = s.get_number_coarse_channels();
            for (int k = 0; k < std::min(n, 3); ++k)
                errs([&] {
                    auto cc = s.read_coarse_channel(k);
                    REQUIRE_P("empty", arr::values(cc->data()).empty(), w, ": samples read from a dataset without any");
                });
            return;
        }
        int n = s.get_number_coarse_channels();
        REQUIRE_P("channels", n >= 1, w, ": ", n, " coarse channels");
        ok = read_all(c, s, f, w);
        if (!ok) throw std::runtime_error("nothing to be read");
    });
    if (good) REQUIRE_P("opens", !e && ok, w, ": cannot be read");
    else if (!may) REQUIRE_P("error-reported", e, w, ": no error");
    ::unlink(p.c_str());
    c.nontrivial(how != 0);
}

// the bytes of the file are cut off, replaced, or changed
static void bytes(Ctx &c) {
    quiet();
    Spec f;
    gen_small(c, f);
    auto p   = path_of("b04b.h5");
    int  how = c.u(0, 7);
    bool raw = how == 0;
    if (raw) {
        f.chunked = false, f.deflate = 0, f.shuffle = false;
        f.store   = c.b() ? 2 : 6; // one byte per sample: any byte is a value
        f.extra_dim = false;
        gen_samples(c, f);
    } else if (how == 1) f.chunked = true, f.ct = c.i(1, f.T), f.cf = c.i(1, f.F), f.deflate = c.i(1, 9), f.shuffle = c.b();
    fb::write(f, p);
    int64_t size = file_size(p);
    bool    must = false, good = false;
    if (how == 0 || how == 1) { // a sample changes: it is read as it is, or it is an error (when compressed)
        std::vector<std::pair<int64_t, int64_t>> spans;
        {
            H5::H5File h(p, H5F_ACC_RDONLY);
            auto       ds = h.openDataSet("data");
            if (raw) spans.push_back({(int64_t)ds.getOffset(), f.T * f.F});
            else {
                hsize_t n = 0;
                H5Dget_num_chunks(ds.getId(), ds.getSpace().getId(), &n);
                for (hsize_t k = 0; k < n; ++k) {
                    hsize_t  off[4], sz;
                    unsigned mask;
                    haddr_t  at;
                    H5Dget_chunk_info(ds.getId(), ds.getSpace().getId(), k, off, &mask, &at, &sz);
                    spans.push_back({(int64_t)at, (int64_t)sz});
                }
            }
        }
        auto d = slurp(p);
        int  n = c.i(1, 4);
        auto q = c.pick(spans);
        for (int k = 0; k < n; ++k) {
            int64_t at = c.i(0, q.second - 1);
            d[q.first + at] = (char)c.u(0, 255);
            if (raw) f.val[at] = f.store == 2 ? (double)(uint8_t)d[q.first + at] : (double)(int8_t)d[q.first + at];
        }
        spit(p, d);
        good = raw;
        c.note("samples changed ", raw);
    } else if (how == 2) { // cut off
        int64_t at = c.b(1, 8) ? 0 : c.b() ? size - c.i(1, std::min<int64_t>(size, 64)) : c.i(0, size - 1);
        c.note("cut at ", at, " of ", size);
        REQUIRE_P("truncate", ::truncate(p.c_str(), at) == 0, "truncate failed");
    } else if (how == 3) { // more at the end
        auto d = slurp(p);
        spit(p, d + noise_bytes(c, c.i(1, 400)));
        good = true;
        c.note("more at the end");
    } else if (how == 4) {
        must = true;
        auto g = noise_bytes(c, c.i(0, 3000));
        if (c.b() && g.size() > 16) g.replace(0, 8, slurp(p).substr(0, 8)); // starts like one
        if (c.b() && g.size() > 200) g.replace(0, 40, slurp(p).substr(0, 40));
        spit(p, g);
        c.note("noise of ", g.size());
    } else if (how == 5) {
        must = true;
        ::unlink(p.c_str());
        if (c.b()) ::mkdir(p.c_str(), 0700);
        c.note("none or a directory");
    } else if (how == 6) { // nothing of the data was written
        good = true;
        c.note("unchanged");
    } else {
        must = true;
        bliss::write_hits_to_capnp_file(gen_hits(c, 5), p);
        c.note("another kind of file");
    }
    int         via = c.u(0, 3), fine = c.b() ? 0 : c.i(1, f.F), ok = 0;
    std::string w = "bytes " + std::to_string(how);
    bool        e = errs([&] {
        auto s = open_scan(via, p, fine);
        REQUIRE_P("error-reported", !must, w, ": no error to open it");
        if (how == 1) { // no promise of what is read, but it has the shape
            for (int k = 0; k < s.get_number_coarse_channels(); ++k)
                errs([&] {
                    auto d = s.read_coarse_channel(k)->data();
                    REQUIRE_P("shape", d.shape() == (Shape{f.T, fine ? fine : f.F}), w, ": shape ", pbt::str(d.shape()));
                });
            return;
        }
        ok = read_all(c, s, f, w);
    });
    if (good) REQUIRE_P("opens", !e && ok, w, ": cannot be read");
    ::rmdir(p.c_str()), ::unlink(p.c_str());
    c.nontrivial(how != 6);
}

// files of hits, coarse channels, scans, observations, cadences and events
static bliss::scan small_scan(Ctx &c) {
    std::map<int, std::shared_ptr<bliss::coarse_channel>> m;
    int n = c.i(1, 3);
    for (int k = 0; k < n; ++k) {
        m[k] = std::make_shared<bliss::coarse_channel>(8000.0 - k, -1e-3, (int64_t)1, (int64_t)32, (int64_t)10, (int64_t)4, (int64_t)1, "S", 1.0, 2.0, (int64_t)3, 1.0, 58000.0, (int64_t)1, 0.0, 0.0, (int64_t)k);
        m[k]->set_hits(gen_hits(c, 4));
    }
    return bliss::scan(m);
}
static const int kinds = 6;
static bliss::observation_target small_obs(Ctx &c) {
    bliss::observation_target o;
    for (int n = c.i(0, 2); n > 0; --n) o._scans.push_back(small_scan(c));
    return o;
}
static void store(Ctx &c, int kind, const std::string &p, std::list<hit> &l) {
    switch (kind) {
    case 0: bliss::write_hits_to_capnp_file(l, p); break;
    case 1: {
        auto s = small_scan(c);
        bliss::write_coarse_channel_hits_to_capnp_file(*s.read_coarse_channel(0), p);
    } break;
    case 2: bliss::write_scan_hits_to_capnp_file(small_scan(c), p); break;
    case 3: bliss::write_observation_target_hits_to_capnp_files(small_obs(c), p); break;
    case 4: {
        bliss::cadence k;
        for (int n = c.i(0, 2); n > 0; --n) k._observations.push_back(small_obs(c));
        bliss::write_cadence_hits_to_capnp_files(k, p);
    } break;
    default: {
        std::vector<bliss::event> e(1 + l.size() / 3);
        for (auto &h : l) e[e.size() / 2].hits.push_back(h);
        bliss::write_events_to_file(e, p);
    }
    }
}
// reads everything of it; how many hits there were
static size_t load(int kind, const std::string &p, std::list<hit> &l) {
    size_t n = 0;
    auto   scan = [&](bliss::scan &s) { n += s.hits().size(); };
    switch (kind) {
    case 0: l = bliss::read_hits_from_capnp_file(p), n = l.size(); break;
    case 1: n = bliss::read_coarse_channel_hits_from_capnp_file(p).hits().size(); break;
    case 2: {
        auto s = bliss::read_scan_hits_from_capnp_file(p);
        scan(s);
    } break;
    case 3: {
        auto o = bliss::read_observation_target_hits_from_capnp_files(p);
        for (auto &s : o._scans) scan(s);
    } break;
    case 4: {
        auto k = bliss::read_cadence_hits_from_capnp_files(p);
        for (auto &o : k._observations)
            for (auto &s : o._scans) scan(s);
    } break;
    default:
        for (auto &e : bliss::read_events_from_file(p)) n += e.hits.size();
    }
    return n;
}
static void hit_files(Ctx &c) {
    auto           p = path_of("b04.capnp");
    int            kind = c.u(0, kinds - 1), how = c.u(0, 4);
    std::list<hit> l = gen_hits(c, 8, false), got;
    if (kind == 0 && l.empty()) l.push_back(gen_hit(c, false));
    store(c, kind, p, l);
    auto        d = slurp(p);
    std::string w = "kind " + std::to_string(kind) + " how " + std::to_string(how);
    c.note(w, ", ", d.size(), " bytes");
    size_t n = 0;
    if (how == 0) { // cut off
        int64_t at = c.i(0, d.size() - 1);
        c.note("cut at ", at);
        spit(p, d.substr(0, at));
        bool e = errs([&] { n = load(kind, p, got); });
        if (kind == 0) {
            int64_t each = d.size() / l.size();
            if (!e) {
                auto it = l.begin();
                std::advance(it, at / each);
                expect_hits(got, std::list<hit>(l.begin(), it), w);
            }
        } else if (kind < 5) REQUIRE_P("error-reported", e, w, ": a file of which the end is missing was read");
    } else if (how == 1) { // some bytes changed
        int64_t first = d.size();
        for (int k = c.i(1, 6); k > 0; --k) {
            int64_t at = c.b(1, 3) ? c.i(0, std::min<int64_t>(d.size(), 32) - 1) : c.u(0, d.size() - 1);
            char    was = d[at];
            d[at] = c.b() ? (char)c.u(0, 255) : (char)(d[at] ^ (1 << c.u(0, 7)));
            if (was != d[at]) first = std::min(first, at);
        }
        spit(p, d);
        bool e = errs([&] { n = load(kind, p, got); });
        if (kind == 0 && !e) { // the hits before the change are not affected
            size_t each = d.size() / l.size(), before = first / each;
            REQUIRE_P("before", got.size() >= before, w, ": ", got.size(), " hits were read, ", before, " are before the change at ", first);
            auto it = l.begin();
            std::advance(it, before);
            got.resize(before);
            expect_hits(got, std::list<hit>(l.begin(), it), w);
        }
        c.label(e ? "error" : "read");
    } else if (how == 2) { // noise
        auto g = noise_bytes(c, c.i(0, 600));
        if (c.b() && g.size() >= 8) { // a plausible size
            uint32_t s = (uint32_t)(g.size() / 8 - 1);
            g.replace(0, 8, std::string(4, '\0') + std::string((char *)&s, 4));
        }
        spit(p, g);
        bool e = errs([&] { n = load(kind, p, got); });
        if (g.empty() && kind >= 1 && kind < 5) REQUIRE_P("error-reported", e, w, ": an empty file was read");
        c.label(e ? "error" : "read");
    } else if (how == 3) { // another kind of file
        int other = c.u(0, kinds - 1);
        bool e = errs([&] { n = load(other, p, got); });
        if (other == kind) REQUIRE_P("opens", !e, w, ": an error to read an undamaged file");
    } else {
        ::unlink(p.c_str());
        bool dir = c.b();
        if (dir) ::mkdir(p.c_str(), 0700);
        bool e = errs([&] { n = load(kind, p, got); });
        if (!dir) REQUIRE_P("error-reported", e, w, ": a file that does not exist was read");
        REQUIRE_P("nothing", n == 0, w, ": ", n, " hits of nothing");
        ::rmdir(p.c_str());
    }
    ::unlink(p.c_str());
    c.nontrivial(how != 3);
}
// reads that are short, interrupted or fail: nothing but what is in the file, and once it works again all of it
static void failing(Ctx &c) {
    quiet();
    bool    once = c.b();
    int64_t chunk = c.b() ? c.i(1, c.b() ? 16 : 600) : 0;
    int     interrupt = c.b(1, 3) ? c.i(2, 6) : 0;
    auto    fail = [&](int64_t calls) {
        if (c.b(1, 5)) return;
        fault::broken = c.u(0, calls), fault::broken_for = once ? 1 : INT32_MAX;
        c.note("read ", fault::broken, once ? " fails" : " and all after it fail");
    };
    c.note("at most ", chunk, " bytes, each ", interrupt, " interrupted");
    int64_t faults = 0;
    if (c.b(2, 3)) {
        Spec f;
        gen_small(c, f);
        auto p = path_of("b04f.h5");
        fb::write(f, p);
        int         via = c.u(0, 3), fine = c.b() ? 0 : c.i(1, f.F), ok = 0;
        int64_t     calls;
        {
            fault::Scope s(chunk, interrupt);
            auto         q = open_scan(via, p, fine);
            ok             = read_all(c, q, f, "short reads");
            calls = fault::reads, faults += fault::faults;
        }
        REQUIRE_P("short", ok > 0, "nothing can be read");
        {
            fault::Scope s(chunk, interrupt);
            fail(calls);
            bool e = errs([&] {
                auto q = open_scan(via, p, fine);
                int  n = q.get_number_coarse_channels();
                // once a read has failed the HDF5 library may take the buffer of that read for the samples, so that is the last one
                for (int k = 0; k < n; ++k) {
                    auto    cc    = q.read_coarse_channel(k);
                    int64_t count = cc->nchans();
                    auto    d = cc->data();
                    auto    m = cc->mask();
                    expect_cc("samples", *cc, f, k * count, count, "failing reads coarse channel " + std::to_string(k));
                }
            });
            faults += fault::faults;
            if (e) c.label("error");
        }
        auto q = open_scan(via, p, fine);
        REQUIRE_P("again", read_all(c, q, f, "afterwards") == ok, "less can be read afterwards");
        ::unlink(p.c_str());
    } else {
        auto           p    = path_of("b04f.capnp");
        int            kind = c.u(0, kinds - 1);
        std::list<hit> l = gen_hits(c, 8, false), got;
        store(c, kind, p, l);
        size_t  all, some = 0;
        int64_t calls;
        {
            fault::Scope s(chunk, interrupt);
            all   = load(kind, p, got);
            calls = fault::reads, faults += fault::faults;
        }
        if (kind == 0) expect_hits(got, l, "short reads");
        got.clear();
        bool e;
        {
            fault::Scope s(chunk, interrupt);
            fail(calls);
            e = errs([&] { some = load(kind, p, got); });
            faults += fault::faults;
        }
        if (!e) REQUIRE_P("only", some <= all, some, " of ", all, " hits were read");
        if (!e && kind == 0) {
            auto it = l.begin();
            std::advance(it, got.size());
            expect_hits(got, std::list<hit>(l.begin(), it), "failing reads");
        }
        if (e) c.label("error");
        got.clear();
        REQUIRE_P("again", load(kind, p, got) == all, "another number of hits afterwards");
        ::unlink(p.c_str());
    }
    c.nontrivial(faults > 0);
}
int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "B04";
    s.rule           = "attributes: every case; structure, bytes, hit_files: the file is damaged; failing: a read is short, interrupted or fails";
    s.quick_cases    = 25000;
    s.thorough_cases = 400000;
    s.assumptions    = "HDF5 internals are damaged by truncation, noise and changed samples, not byte by byte (that would test the HDF5 library); hit files are changed anywhere";
    s.facets         = {{"attributes", 4, 0, attributes}, {"structure", 3, 0, structure}, {"bytes", 3, 0, bytes}, {"hit_files", 5, 0, hit_files}, {"failing", 1, 0, failing}};
    s.case_timeout_s = 60;
    return pbt::run(argc, argv, s);
}

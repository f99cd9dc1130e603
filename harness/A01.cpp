// A01: arrays, views and slices denote exactly the elements they should (stateful, against a cell-level model).
#include "arr.hpp"
#include <functional>
#include <numeric>
#include <sstream>
using namespace arr;

// the defaults say the same: to the end, every element
static bland::slice_spec spec_of(Ctx &c, int64_t d, int64_t start, int64_t end, int64_t stride, int64_t extent) {
    if (stride == 1 && c.b()) return end >= extent && c.b() ? bland::slice_spec{d, start} : bland::slice_spec{d, start, end};
    return bland::slice_spec{d, start, end, stride};
}
static ndarray slice_specs(ndarray &a, const std::vector<bland::slice_spec> &s) {
    switch (s.size()) {
    case 1: return a.slice(s[0]);
    case 2: return a.slice(s[0], s[1]);
    case 3: return a.slice(s[0], s[1], s[2]);
    default: return a.slice(s[0], s[1], s[2], s[3]);
    }
}

static void set_all(ndarray &nd, View &m, double v) {
    for (auto k : m.cell) (*m.buf)[k] = v;
    switch (m.kind) {
    case K::f32: bland::fill(nd, (float)v); break;
    case K::i32: bland::fill(nd, (int32_t)v); break;
    case K::u8: bland::fill(nd, (uint8_t)v); break;
    default: bland::fill(nd, (uint32_t)v); break;
    }
}

static void history(Ctx &c) {
    K                 k = gen_kind(c);
    std::vector<Pair> live;
    auto              s0 = gen_shape(c, 4, 9, 250);
    live.push_back(gen_dense(c, k, s0));
    if (c.b(1, 24)) live[0] = far(c, live[0]);
    else live[0].base = nullptr; // the views themselves keep the memory
    c.note(name(k), shape_str(s0));
    int nops    = c.u(1, 10);
    int slices  = 0, writes = 0;
    for (int op = 0; op < nops; ++op) {
        size_t  at_  = c.u(0, (int64_t)live.size() - 1);
        Pair   &p    = live[at_];
        int     what = c.u(0, 9);
        switch (what) {
        case 0:
        case 1: { // slice one axis
            int  d = c.u(0, (int64_t)p.m.shape.size() - 1);
            auto s = gen_slice(c, p.m.shape[d]);
            c.note("v", live.size(), "=v", at_, ".slice(", d, ",", s.start, ",", s.end, ",", s.stride, ")");
            Pair q{p.nd, p.m, p.base};
            q.nd = ndarray(bland::slice(p.nd, d, s.start, s.end, s.stride));
            q.m  = slice(p.m, d, s.nstart, s.stride, s.len);
            if (c.b(1, 4)) // the one-axis form and the spec form agree
                q.nd = p.nd.slice(spec_of(c, d, s.start, s.end, s.stride, p.m.shape[d]));
            live.push_back(q);
            ++slices;
        } break;
        case 2: { // several axes at once
            std::vector<bland::slice_spec> specs;
            View                           m = p.m;
            std::string                    txt;
            int                            n = c.u(1, std::min<int64_t>(4, p.m.shape.size() + 1));
            for (int j = 0; j < n; ++j) {
                int  d = c.u(0, (int64_t)m.shape.size() - 1);
                auto s = gen_slice(c, m.shape[d]);
                specs.push_back(spec_of(c, d, s.start, s.end, s.stride, m.shape[d]));
                m = slice(m, d, s.nstart, s.stride, s.len);
                txt += "{" + std::to_string(d) + "," + std::to_string(s.start) + "," + std::to_string(s.end) + "," + std::to_string(s.stride) + "}";
            }
            c.note("v", live.size(), "=v", at_, ".slice", txt);
            Pair q{slice_specs(p.nd, specs), m, p.base};
            live.push_back(q);
            ++slices;
        } break;
        case 3: { // write through: fill
            double v = gen_value(c, k);
            c.note("fill(v", at_, ",", v, ")");
            set_all(p.nd, p.m, v);
            ++writes;
        } break;
        case 4: { // write through: slice assignment from a fresh array
            int  d = c.u(0, (int64_t)p.m.shape.size() - 1);
            auto s = gen_slice(c, p.m.shape[d]);
            auto m = slice(p.m, d, s.nstart, s.stride, s.len);
            auto src = gen_view(c, k, m.shape);
            c.note("v", at_, ".slice(", d, ",", s.start, ",", s.end, ",", s.stride, ")=fresh");
            auto val = src.m.vals();
            p.nd.slice(spec_of(c, d, s.start, s.end, s.stride, p.m.shape[d])) = src.nd;
            for (size_t j = 0; j < m.cell.size(); ++j) (*m.buf)[m.cell[j]] = val[j];
            ++writes;
        } break;
        case 5: { // copy: independent of the source from now on
            c.note("v", live.size(), "=copy(v", at_, ")");
            Pair q{bland::copy(p.nd), p.m, nullptr};
            q.m.buf = std::make_shared<std::vector<double>>(p.m.vals());
            std::iota(q.m.cell.begin(), q.m.cell.end(), 0);
            live.push_back(q);
        } break;
        case 6: { // handle copy / assignment alias the same elements
            c.note("v", live.size(), "=alias v", at_);
            Pair q{p.nd, p.m, p.base};
            if (c.b()) q.nd = p.nd;
            live.push_back(q);
        } break;
        case 7: { // squeeze
            std::vector<int64_t> ones;
            for (size_t d = 0; d < p.m.shape.size(); ++d)
                if (p.m.shape[d] == 1) ones.push_back(d);
            if (ones.empty() || p.m.shape.size() == 1) break;
            int64_t d = c.pick(ones);
            Pair    q{p.nd, p.m, p.base};
            q.m.shape.erase(q.m.shape.begin() + d);
            int64_t arg = c.b(1, 3) ? d - (int64_t)p.m.shape.size() : d;
            c.note("v", live.size(), "=v", at_, ".squeeze(", arg, ")");
            q.nd = q.nd.squeeze(arg);
            live.push_back(q);
        } break;
        case 8: { // unsqueeze
            if (p.m.shape.size() > 5) break;
            int64_t d = c.u(0, p.m.shape.size());
            Pair    q{p.nd, p.m, p.base};
            q.m.shape.insert(q.m.shape.begin() + d, 1);
            c.note("v", live.size(), "=v", at_, ".unsqueeze(", d, ")");
            q.nd = q.nd.unsqueeze(d);
            live.push_back(q);
        } break;
        default: { // reshape of an independent handle; whether it shares storage is not promised
            Shape   want;
            int64_t n = numel(p.m.shape);
            for (int64_t left = n; left > 1 && want.size() < 4;) {
                std::vector<int64_t> div;
                for (int64_t q = 2; q <= left; ++q)
                    if (left % q == 0) div.push_back(q);
                int64_t q = c.pick(div);
                want.push_back(q);
                left /= q;
            }
            int64_t have = numel(want);
            if (have != n) want.push_back(n / have);
            if (want.empty() || c.b(1, 5)) want.insert(want.begin() + c.u(0, want.size()), 1);
            c.note("v", live.size(), "=copy(v", at_, ").reshape", shape_str(want));
            bool    viaview = c.b(1, 3);
            ndarray h       = viaview ? p.nd : bland::copy(p.nd);
            ndarray r       = h.reshape(want);
            View    m       = p.m;
            m.shape         = want;
            m.buf           = std::make_shared<std::vector<double>>(p.m.vals());
            std::iota(m.cell.begin(), m.cell.end(), 0);
            expect_same("reshape", r, m, "reshape");
            if (!viaview) live.push_back(Pair{r, m, nullptr});
            c.label("reshape");
        } break;
        }
        for (size_t j = 0; j < live.size(); ++j) expect_same("view", live[j].nd, live[j].m, "v" + std::to_string(j));
        if (live.size() > 8 || (live.size() > 1 && c.b(1, 5))) { // the others stay valid
            size_t j = c.u(0, (int64_t)live.size() - 1);
            c.note("v", j, " dropped");
            live.erase(live.begin() + j);
        }
    }
    if (slices) c.label("slices");
    if (writes) c.label("writes");
    c.nontrivial(slices > 0 && (writes > 0 || slices > 1));
}

// single elements, sizes and error handling
static void access(Ctx &c) {
    K    k = gen_kind(c);
    auto s = gen_shape(c, 4, 7, 200);
    auto p = gen_view(c, k, s);
    c.note(name(k), shape_str(s));
    expect_same("view", p.nd, p.m, "view");
    for (size_t d = 0; d < s.size(); ++d) REQUIRE_P("size", p.nd.size(d) == s[d], "size(", d, ")=", p.nd.size(d));
    bool threw = false;
    try {
        p.nd.size(s.size() + c.u(0, 2));
    } catch (const std::exception &) { threw = true; }
    REQUIRE_P("size", threw, "size() of a missing axis was accepted");
    threw = false;
    try {
        Shape ix(s.size() + 1, 0);
        at(p.nd, ix);
    } catch (const std::exception &) { threw = true; }
    REQUIRE_P("index-rank", threw, "indexing with too many subscripts was accepted");
    // one element cut out of the array reads as that element
    View    m = p.m;
    ndarray e = p.nd;
    Shape   ix;
    for (size_t d = 0; d < s.size(); ++d) {
        int64_t x = c.i(0, s[d] - 1);
        ix.push_back(x);
        e = ndarray(bland::slice(e, d, x, x + 1));
        m = slice(m, d, x, 1, 1);
    }
    c.note("element", shape_str(ix));
    double got = k == K::f32 ? (double)e.scalarize<float>() : k == K::i32 ? (double)e.scalarize<int32_t>() : k == K::u8 ? (double)e.scalarize<uint8_t>() : (double)e.scalarize<uint32_t>();
    REQUIRE_P("scalarize", got == m.get(0), "single-element view reads ", got, " expected ", m.get(0));
    if (numel(s) > 1) {
        threw = false;
        try {
            p.nd.scalarize<float>();
        } catch (const std::exception &) { threw = true; }
        REQUIRE_P("scalarize", threw, "a many-element array was accepted as a scalar");
    }
    // printed, the first elements are in order
    {
        auto   r = p.nd.repr();
        size_t o = r.find(":\n");
        REQUIRE_P("repr", o != std::string::npos, "printed as ", r);
        auto               v = p.m.vals();
        std::istringstream t(r.substr(o + 2));
        std::string        w;
        size_t             n = 0;
        for (; t >> w && n < v.size(); ++n) {
            double x = k == K::f32 ? (double)std::strtof(w.c_str(), nullptr) : std::strtod(w.c_str(), nullptr);
            REQUIRE_P("repr", x == v[n], "printed element ", n, " is ", w, " expected ", v[n], " in ", r);
        }
        REQUIRE_P("repr", n == std::min<size_t>(v.size(), n > 20 ? n : 25), n, " elements of ", v.size(), " printed in ", r);
    }
    // on another (numa) device of the same kind there is a copy of the same elements
    {
        ndarray there = bland::to(p.nd, DLDevice{kDLCPU, 1 + (int)c.u(0, 2)}), here = p.nd.to("cpu");
        expect_same("to", there, p.m, "copy on another cpu device");
        expect_same("to", here, p.m, "same device");
        auto back = bland::to(there, DLDevice{kDLCPU, 0});
        auto before = p.m.vals();
        View w = p.m;
        w.buf  = std::make_shared<std::vector<double>>(before);
        std::iota(w.cell.begin(), w.cell.end(), 0);
        set_all(back, w, 3);
        expect_same("to", back, w, "changed copy");
        expect_same("to", there, p.m, "copy after a copy of it was changed");
        expect_same("to", p.nd, p.m, "array after a copy of it was changed");
    }
    // invalid slices are refused
    int d = c.u(0, (int64_t)s.size() - 1);
    threw = false;
    try {
        bland::slice(p.nd, d, s[d] + 1 + c.u(0, 3), s[d] + 9);
    } catch (const std::exception &) { threw = true; }
    REQUIRE_P("slice-range", threw, "a slice starting past the end was accepted");
    if (s[d] >= 2) {
        int64_t st = c.u(1, s[d] - 1);
        threw      = false;
        try {
            bland::slice(p.nd, d, st, c.u(0, st - 1));
        } catch (const std::exception &) { threw = true; }
        REQUIRE_P("slice-range", threw, "a slice ending before its start was accepted");
    }
    // so are axes and bounds that do not exist
    auto refused = [&](const char *what, std::function<void()> f) {
        bool t = false;
        try {
            f();
        } catch (const std::exception &) { t = true; }
        REQUIRE_P("invalid-request", t, what, " was accepted on shape ", shape_str(s));
    };
    int64_t far = c.i(1, 4), n = (int64_t)s.size();
    refused("a slice starting before the first element", [&] { bland::slice(p.nd, d, -s[d] - far, s[d]); });
    refused("a slice of a missing axis", [&] { bland::slice(p.nd, n - 1 + far, 0, 1); });
    refused("a slice with stride 0", [&] { bland::slice(p.nd, d, 0, s[d], 0); });
    refused("a squeeze of a missing axis", [&] { ndarray q = p.nd; q.squeeze(n - 1 + far); });
    refused("an unsqueeze beyond the rank", [&] { ndarray q = p.nd; q.unsqueeze(n + far); });
    if (s[d] != 1) refused("a squeeze of an axis longer than 1", [&] { ndarray q = p.nd; q.squeeze(d); });
    refused("a reshape to another number of elements", [&] { ndarray q = p.nd; q.reshape({numel(s) + far}); });
    refused("a reshape to negative sizes", [&] { ndarray q = p.nd; q.reshape({-1, -numel(s)}); });
    expect_same("view", p.nd, p.m, "view after refused requests");
    // copying in to an array of another shape is refused, and of another rank
    auto other = s;
    other[d] += 1 + c.u(0, 2);
    if (s[d] != 1) {
        ndarray out(other, dtype_of(k));
        threw = false;
        try {
            bland::copy(p.nd, out);
        } catch (const std::exception &) { threw = true; }
        REQUIRE_P("copy-shape", threw, "copy in to a mismatched shape was accepted");
    }
    c.nontrivial(p.nd.numel() > 1 && (p.m.buf->size() > p.m.cell.size()));
}

// copy() between dtypes / in to strided destinations leaves everything else untouched
static void copy_into(Ctx &c) {
    K    k = gen_kind(c);
    auto s = gen_shape(c, 3, 8, 200);
    auto src = gen_view(c, k, s);
    auto dst = gen_view(c, k, s);
    c.note(name(k), shape_str(s), " dst cells ", dst.m.buf->size());
    auto before_src = *src.m.buf;
    // the whole backing buffer of dst, seen through the dense base
    auto vals = src.m.vals();
    bland::copy(src.nd, dst.nd);
    for (size_t j = 0; j < dst.m.cell.size(); ++j) (*dst.m.buf)[dst.m.cell[j]] = vals[j];
    expect_same("copy-into", dst.nd, dst.m, "destination");
    expect_same("copy-into", src.nd, src.m, "source");
    expect_buffer("copy-into", dst, "destination's buffer");
    // broadcast copy: a size-1 axis is repeated
    int d = c.u(0, (int64_t)s.size() - 1);
    auto one = s;
    one[d]   = 1;
    auto b   = gen_view(c, k, one);
    ndarray out(s, dtype_of(k));
    bland::copy(b.nd, out);
    Shape ix(s.size(), 0);
    do {
        auto jx = ix;
        jx[d]   = 0;
        REQUIRE_P("copy-broadcast", at(out, ix) == at(b.nd, jx), "copy of shape ", shape_str(one), " to ", shape_str(s), " at ", shape_str(ix), ": ", at(out, ix),
                  " expected ", at(b.nd, jx));
    } while (next(ix, s));
    c.nontrivial(numel(s) > 2);
}

// arrays of more elements than 32 bits count (over memory of which only the touched pages exist)
static void huge(Ctx &c) {
    const int64_t most = int64_t{20} << 30;
    int64_t       rows = c.i(2, 70000), cols = c.b() ? most / rows - c.i(0, 1000) : ((int64_t{1} << (31 + c.i(0, 1))) / rows) + c.i(-2, 300);
    if (c.b(1, 3)) std::swap(rows, cols);
    void *mem = sparse_region();
    if (!mem || cols < 2) throw pbt::Discard{};
    auto *bytes = (uint8_t *)mem;
    int64_t n = rows * cols;
    c.note("uint8 ", rows, "x", cols);
    Shape           shape{rows, cols};
    DLManagedTensor t{};
    t.dl_tensor.data   = mem;
    t.dl_tensor.device = DLDevice{kDLCPU, 0};
    t.dl_tensor.ndim   = 2;
    t.dl_tensor.dtype  = dt(dt::uint8);
    t.dl_tensor.shape  = shape.data();
    ndarray a(t);
    REQUIRE_P("huge", a.numel() == n, "numel() of ", rows, "x", cols, " is ", a.numel());
    // some elements, in single elements and in small windows, of the array and of the same elements in other shapes
    for (int j = c.u(1, 4); j > 0; --j) {
        ndarray v  = a;
        int64_t vc = cols;
        int     how = c.u(0, 2);
        if (how == 1) v = v.reshape({1, n}), vc = n;
        if (how == 2) {
            int64_t f = 1;
            for (int64_t x = 2; x < 40; ++x)
                if (rows % x == 0) f = x;
            v = v.reshape({rows / f, cols * f}), vc = cols * f;
        }
        REQUIRE_P("huge", v.shape() == (Shape{n / vc, vc}) && v.numel() == n, "reshaped to ", shape_str(v.shape()));
        int64_t r0 = c.i(0, n / vc - 1), c0 = c.i(0, vc - 1), nr = c.i(1, std::min<int64_t>(3, n / vc - r0)), nc = c.i(1, std::min<int64_t>(12, vc - c0)), st = c.i(1, 3);
        if (c.b()) c0 = vc - nc;
        if (c.b()) r0 = n / vc - nr;
        c.note("window of ", n / vc, "x", vc, " at ", r0, ",", c0, " of ", nr, "x", nc, " every ", st);
        for (int64_t r = 0; r < nr; ++r)
            for (int64_t k = 0; k < nc; ++k) bytes[(r0 + r) * vc + c0 + k] = (uint8_t)c.u(0, 255);
        auto w  = ndarray(v.slice(bland::slice_spec{0, r0, r0 + nr, 1}, bland::slice_spec{1, c.b() ? c0 : c0 - vc, c0 + nc, st}));
        auto wc = (nc + st - 1) / st;
        REQUIRE_P("huge", w.shape() == (Shape{nr, wc}), "window has shape ", shape_str(w.shape()));
        auto sum = w + (uint8_t)1;
        auto cp  = bland::copy(w);
        for (int64_t r = 0; r < nr; ++r)
            for (int64_t k = 0; k < wc; ++k) {
                auto e = bytes[(r0 + r) * vc + c0 + k * st];
                REQUIRE_P("huge", v.scalarize<uint8_t>({r0 + r, c0 + k * st}) == e, "element by index");
                REQUIRE_P("huge", at(w, {r, k}) == e, "element of the window");
                REQUIRE_P("huge", at(cp, {r, k}) == e, "element of the copied window");
                REQUIRE_P("huge", at(sum, {r, k}) == (uint8_t)(e + 1), "element of the window + 1");
            }
        bland::fill(w, (uint8_t)77);
        for (int64_t r = 0; r < nr; ++r)
            for (int64_t k = 0; k < wc; ++k) REQUIRE_P("huge", bytes[(r0 + r) * vc + c0 + k * st] == 77, "filled window");
    }
    // shapes of another number of elements are refused, also when it differs by a multiple of 2^32
    for (auto bad : {Shape{n - (int64_t{1} << 32)}, Shape{1, n + (int64_t{1} << 32)}, Shape{n + 1}}) {
        if (bad.back() <= 0) continue;
        ndarray v = a;
        bool    threw = false;
        try {
            v.reshape(bad);
        } catch (const std::exception &) { threw = true; }
        REQUIRE_P("huge-refused", threw, rows, "x", cols, " was reshaped to ", shape_str(bad));
    }
    c.nontrivial();
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "A01";
    s.rule           = "history: a random history of slice/multi-slice/fill/slice-assignment/copy/alias/squeeze/unsqueeze/reshape on up to 9 live views, every view compared element by element with a cell-level model after every step; non-trivial = at least one slice and (a write or a second slice). access/copy: non-trivial = a view with more than one element that is smaller than its buffer / more than two elements";
    s.quick_cases    = 150000;
    s.thorough_cases = 4000000;
    s.assumptions    = "CPU arrays of the dtypes the library dispatches (float32, int32, uint8, uint32), rank <= 6, <= 400 elements; reshape to a different rank";
    s.facets         = {{"history", 4, 0, history}, {"access", 1, 0, access}, {"copy", 1, 0, copy_into}, {"huge", 1, 0, huge}};
    return pbt::run(argc, argv, s);
}

// A08: DLPack exchange against the model of views.
#include "arr.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace arr;

static double tensor_at(const DLTensor &t, K k, const Shape &ix) {
    int64_t off = 0;
    for (int d = 0; d < t.ndim; ++d) off += ix[d] * t.strides[d];
    auto p = (const char *)t.data + t.byte_offset;
    switch (k) {
    case K::f32: return ((const float *)p)[off];
    case K::i32: return ((const int32_t *)p)[off];
    case K::u8: return ((const uint8_t *)p)[off];
    default: return ((const uint32_t *)p)[off];
    }
}
static void tensor_put(const DLTensor &t, K k, const Shape &ix, double v) {
    int64_t off = 0;
    for (int d = 0; d < t.ndim; ++d) off += ix[d] * t.strides[d];
    auto p = (char *)t.data + t.byte_offset;
    switch (k) {
    case K::f32: ((float *)p)[off] = (float)v; break;
    case K::i32: ((int32_t *)p)[off] = (int32_t)v; break;
    case K::u8: ((uint8_t *)p)[off] = (uint8_t)v; break;
    default: ((uint32_t *)p)[off] = (uint32_t)v;
    }
}
static void check_tensor(const DLTensor &t, const View &m, const std::string &where) {
    REQUIRE_P("export", t.ndim == (int)m.shape.size(), where, ": ndim ", t.ndim);
    for (int d = 0; d < t.ndim; ++d) REQUIRE_P("export", t.shape[d] == m.shape[d], where, ": shape[", d, "] ", t.shape[d]);
    auto want = dtype_of(m.kind);
    REQUIRE_P("export", t.dtype.code == want.code && t.dtype.bits == want.bits && t.dtype.lanes == 1, where, ": element type");
    REQUIRE_P("export", t.device.device_type == kDLCPU, where, ": device");
    Shape  ix(m.shape.size(), 0);
    size_t n = 0;
    do {
        double g = tensor_at(t, m.kind, ix), e = m.get(n++);
        REQUIRE_P("export", g == e, where, ": element ", shape_str(ix), " is ", g, " expected ", e);
    } while (next(ix, m.shape));
}

static View squeeze_model(View v, int d) {
    v.shape.erase(v.shape.begin() + d);
    return v;
}
// further view operations on a view
static void more_views(Ctx &c, Pair &p) {
    int n = c.small(0, 2);
    for (int k = 0; k < n; ++k) {
        int d = c.u(0, (int64_t)p.m.shape.size() - 1);
        if (p.m.shape[d] == 1 && p.m.shape.size() > 1 && c.b()) {
            p.nd = p.nd.squeeze(d);
            p.m  = squeeze_model(p.m, d);
        } else {
            auto s = gen_slice(c, p.m.shape[d]);
            p.nd   = ndarray(bland::slice(p.nd, d, s.start, s.end, s.stride));
            p.m    = slice(p.m, d, s.nstart, s.stride, s.len);
        }
    }
}

static void export_history(Ctx &c) {
    K    k = gen_kind(c);
    auto p = gen_view(c, k, gen_shape(c, 4, 8, 200));
    more_views(c, p);
    c.note(name(k), shape_str(p.m.shape), " of ", p.m.buf->size());
    struct Live {
        DLManagedTensor *t;
        View             m;
    };
    std::vector<Live> live;
    View              m    = p.m;
    bool              gone = false;
    {
        auto arr = std::make_unique<Pair>(p);
        p        = Pair{}; // nothing else owns the memory (moving from an array may copy it)
        int  n   = c.i(1, 10);
        for (int step = 0; step < n; ++step) {
            int op = c.u(0, 4);
            if (op == 0 && !gone) {
                live.push_back({arr->nd.get_managed_tensor(), arr->m});
                c.note("export");
            } else if (op == 1 && !live.empty()) { // write by the consumer: shared memory
                auto &l = c.pick(live);
                Shape ix(l.m.shape.size(), 0);
                for (size_t d = 0; d < ix.size(); ++d) ix[d] = c.u(0, l.m.shape[d] - 1);
                double v = gen_value(c, k);
                tensor_put(l.t->dl_tensor, k, ix, v);
                int64_t lin = 0;
                for (size_t d = 0; d < ix.size(); ++d) lin = lin * l.m.shape[d] + ix[d];
                (*l.m.buf)[l.m.cell[lin]] = v;
                c.note("consumer writes");
            } else if (op == 2 && !gone) { // write by the owner
                double v = gen_value(c, K::u8);
                bland::fill(arr->nd, (int32_t)v);
                for (auto x : arr->m.cell) (*arr->m.buf)[x] = v;
                c.note("owner fills");
            } else if (op == 3 && !live.empty()) {
                size_t i = c.u(0, (int64_t)live.size() - 1);
                check_tensor(live[i].t->dl_tensor, live[i].m, "before release");
                live[i].t->deleter(live[i].t);
                live.erase(live.begin() + i);
                c.note("release");
            } else if (op == 4 && !gone && step > 0) {
                arr.reset();
                gone = true;
                c.note("array dropped");
            }
            if (!gone) expect_same("owner", arr->nd, arr->m, "owner");
            if (!gone) expect_buffer("owner", *arr, "owner's buffer");
            for (auto &l : live) check_tensor(l.t->dl_tensor, l.m, "exported");
        }
    }
    for (auto &l : live) {
        check_tensor(l.t->dl_tensor, l.m, "after everything else is gone");
        l.t->deleter(l.t);
    }
    if (gone) c.label("owner-gone-first");
    c.nontrivial(m.cell.size() > 1 && m.buf->size() > m.cell.size());
}

// importing borrows a foreign tensor
static void import_history(Ctx &c) {
    K    k   = gen_kind(c);
    auto s   = gen_shape(c, 4, 8, 200);
    int  es  = k == K::u8 ? 1 : 4;
    bool compact = c.b(1, 3);
    bool no_strides = compact && c.b();
    Shape strides(s.size(), 1);
    int64_t need = 1;
    if (compact) {
        for (int d = (int)s.size() - 2; d >= 0; --d) strides[d] = strides[d + 1] * s[d + 1];
        need = numel(s);
    } else { // axes in any order, with gaps
        std::vector<int> order(s.size());
        std::iota(order.begin(), order.end(), 0);
        for (size_t d = order.size(); d > 1; --d) std::swap(order[d - 1], order[c.u(0, (int64_t)d - 1)]);
        for (auto d : order) {
            strides[d] = need * c.i(1, 2);
            need       = strides[d] * s[d];
        }
    }
    int64_t lead = c.i(0, 9); // elements before the first one
    std::vector<char> raw((lead + need) * es + 16, 0x5a);
    auto buf = std::make_shared<std::vector<double>>(lead + need);
    auto put = [&](int64_t n, double v) {
        (*buf)[n] = v;
        if (k == K::f32) ((float *)raw.data())[n] = (float)v;
        else if (k == K::i32) ((int32_t *)raw.data())[n] = (int32_t)v;
        else if (k == K::u8) ((uint8_t *)raw.data())[n] = (uint8_t)v;
        else ((uint32_t *)raw.data())[n] = (uint32_t)v;
    };
    auto get = [&](int64_t n) -> double {
        if (k == K::f32) return ((float *)raw.data())[n];
        if (k == K::i32) return ((int32_t *)raw.data())[n];
        if (k == K::u8) return ((uint8_t *)raw.data())[n];
        return ((uint32_t *)raw.data())[n];
    };
    auto vals = gen_values(c, k, lead + need);
    for (int64_t n = 0; n < lead + need; ++n) put(n, vals[n]);
    bool by_offset = c.b();
    View m;
    m.buf = buf, m.shape = s, m.kind = k;
    Shape ix(s.size(), 0);
    do {
        int64_t o = lead;
        for (size_t d = 0; d < s.size(); ++d) o += ix[d] * strides[d];
        m.cell.push_back(o);
    } while (next(ix, s));
    auto shp = std::make_unique<Shape>(s);
    auto str = std::make_unique<Shape>(strides);
    DLManagedTensor t{};
    t.dl_tensor.data        = raw.data() + (by_offset ? 0 : lead * es);
    t.dl_tensor.byte_offset = by_offset ? lead * es : 0;
    t.dl_tensor.device      = DLDevice{kDLCPU, 0};
    t.dl_tensor.ndim        = (int)s.size();
    t.dl_tensor.dtype       = dtype_of(k);
    t.dl_tensor.shape       = shp->data();
    t.dl_tensor.strides     = no_strides ? nullptr : str->data();
    c.note("import ", name(k), shape_str(s), " strides ", no_strides ? std::string("null") : shape_str(strides), " lead ", lead, by_offset ? " byte_offset" : "");
    ndarray a(t);
    // the description is copied: the producer may drop it
    shp.reset(), str.reset();
    ndarray b = a;            // copies keep borrowing
    ndarray d(Shape{1}, dt::float32);
    d = a;
    Pair p{a, m, nullptr};
    expect_same("import", a, m, "imported");
    expect_same("import", b, m, "copied handle");
    expect_same("import", d, m, "assigned handle");
    more_views(c, p);
    expect_same("import", p.nd, p.m, "view of the import");
    // memory is shared both ways
    put(m.cell[c.u(0, (int64_t)m.cell.size() - 1)], gen_value(c, k));
    expect_same("import", a, m, "after the producer wrote");
    double v = gen_value(c, K::u8);
    bland::fill(p.nd, (int32_t)v);
    for (auto x : p.m.cell) (*buf)[x] = v;
    for (int64_t n = 0; n < lead + need; ++n) REQUIRE_P("import", get(n) == (*buf)[n], "producer's cell #", n, " is ", get(n), " expected ", (*buf)[n]);
    // copying gives independent storage
    auto cp = bland::copy(a);
    expect_same("import", cp, m, "copy");
    // round trip
    auto e = p.nd.get_managed_tensor();
    check_tensor(e->dl_tensor, p.m, "re-exported");
    {
        ndarray again(*e);
        expect_same("import", again, p.m, "re-imported");
    }
    e->deleter(e);
    raw.assign(raw.size(), 0); // (still allocated while anything borrows)
    c.label(no_strides ? "no-strides" : compact ? "compact" : "permuted");
    c.nontrivial(m.cell.size() > 1 && (lead > 0 || !compact));
}

// exports give back all their memory
static void leaks(Ctx &c) {
    K    k = gen_kind(c);
    auto s = gen_shape(c, 3, 20, 2000);
    int  rounds = 12;
    c.note("leak check ", name(k), shape_str(s));
    size_t before = 0;
    for (int r = 0; r < rounds; ++r) {
        if (r == 2) before = __sanitizer_get_current_allocated_bytes();
        ndarray a(s, dtype_of(k));
        bland::fill(a, (int32_t)1);
        auto t = a.get_managed_tensor();
        auto u = a.get_managed_tensor();
        {
            ndarray b(*t);
            ndarray d(b);
        }
        if (r % 2) {
            a = ndarray(Shape{1}, dt::uint8);
        }
        t->deleter(t);
        u->deleter(u);
    }
    size_t after = __sanitizer_get_current_allocated_bytes();
    REQUIRE_P("leak", after <= before + 8, after - before, " bytes were not given back after ", rounds - 2, " exports");
    c.nontrivial();
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property        = "A08";
    s.rule            = "export: a partial view of more than one element; import: more than one element with an offset or non-compact strides; leak: every case";
    s.quick_cases     = 300000;
    s.thorough_cases  = 2000000;
    s.assumptions     = "CPU arrays float32/int32/uint8/uint32; importing borrows: the producer keeps the memory alive (the import constructor takes the managed tensor by value and never calls its deleter)";
    s.facets          = {{"export", 4, 0, export_history}, {"import", 4, 0, import_history}, {"leak", 1, 0, leaks}};
    return pbt::run(argc, argv, s);
}

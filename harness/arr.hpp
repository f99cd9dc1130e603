// Reference model of bland arrays used by the array harnesses.
#pragma once
#include "pbt.hpp"

#include <bland/ndarray.hpp>
#include <bland/ndarray_slice.hpp>
#include <bland/ops/ops.hpp>

#include <cmath>
#include <cstring>
#include <memory>
#include <numeric>
#include <sys/mman.h>

namespace arr {
using pbt::Ctx;
using bland::ndarray;
using dt = ndarray::datatype;
using Shape = std::vector<int64_t>;

enum class K { f32, i32, u8, u32 };
inline dt dtype_of(K k) {
    switch (k) {
    case K::f32: return dt::float32;
    case K::i32: return dt::int32;
    case K::u8: return dt::uint8;
    default: return dt::uint32;
    }
}
inline const char *name(K k) {
    switch (k) {
    case K::f32: return "float32";
    case K::i32: return "int32";
    case K::u8: return "uint8";
    default: return "uint32";
    }
}
inline K gen_kind(Ctx &c) { return (K)c.u(0, 3); }

inline int64_t numel(const Shape &s) {
    int64_t n = 1;
    for (auto x : s) n *= x;
    return n;
}

// element of an ndarray as a double, by public indexing
inline double at(const ndarray &a, const Shape &ix) {
    auto d = a.dtype();
    if (d == dt(dt::float32)) return a.scalarize<float>(ix);
    if (d == dt(dt::int32)) return a.scalarize<int32_t>(ix);
    if (d == dt(dt::uint8)) return a.scalarize<uint8_t>(ix);
    if (d == dt(dt::uint32)) return a.scalarize<uint32_t>(ix);
    pbt::fail("dtype", "array has an unexpected dtype");
}
inline bool next(Shape &ix, const Shape &shape) {
    for (int d = (int)shape.size() - 1; d >= 0; --d) {
        if (++ix[d] < shape[d]) return true;
        ix[d] = 0;
    }
    return false;
}
inline std::vector<double> values(const ndarray &a) {
    std::vector<double> v;
    auto                s = a.shape();
    if (numel(s) == 0) return v;
    Shape ix(s.size(), 0);
    do v.push_back(at(a, ix));
    while (next(ix, s));
    return v;
}

// A view in the model: a shape, and for each element (row-major) the cell of the shared buffer it denotes.
struct View {
    std::shared_ptr<std::vector<double>> buf;
    Shape                                shape;
    std::vector<int64_t>                 cell;
    K                                    kind;

    double              get(size_t n) const { return (*buf)[cell[n]]; }
    std::vector<double> vals() const {
        std::vector<double> v;
        for (auto k : cell) v.push_back((*buf)[k]);
        return v;
    }
};

// values every supported dtype represents exactly and on which small integer arithmetic is exact
inline double gen_value(Ctx &c, K k, int64_t maxmag = 12) {
    switch (k) {
    case K::f32: return (double)c.u(0, 8 * maxmag) / 4.0 - maxmag;
    case K::i32: return (double)c.u(0, 2 * maxmag) - maxmag;
    default: return (double)c.u(0, maxmag);
    }
}

inline void poke(ndarray &a, const std::vector<double> &v) { // store the elements at their addresses
    int64_t n = a.numel(), first = 0;
    auto    d = a.dtype();
    auto    s = a.shape(), st = a.strides();
    for (auto o : a.offsets()) first += o;
    Shape ix(s.size(), 0);
    for (int64_t j = 0; j < n; ++j, next(ix, s)) {
        int64_t k = first;
        for (size_t q = 0; q < s.size(); ++q) k += ix[q] * st[q];
        if (d == dt(dt::float32)) a.data_ptr<float>()[k] = (float)v[j];
        else if (d == dt(dt::int32)) a.data_ptr<int32_t>()[k] = (int32_t)v[j];
        else if (d == dt(dt::uint8)) a.data_ptr<uint8_t>()[k] = (uint8_t)v[j];
        else a.data_ptr<uint32_t>()[k] = (uint32_t)v[j];
    }
}

struct Pair {
    ndarray                  nd;
    View                     m;
    std::shared_ptr<ndarray> base; // the dense array that owns the cells
};

inline Pair make(K k, const Shape &shape, const std::vector<double> &v) {
    Pair p{ndarray(shape, dtype_of(k)), View{}, nullptr};
    poke(p.nd, v);
    p.base    = std::make_shared<ndarray>(p.nd);
    p.m.buf   = std::make_shared<std::vector<double>>(v);
    p.m.shape = shape;
    p.m.kind  = k;
    p.m.cell.resize(v.size());
    std::iota(p.m.cell.begin(), p.m.cell.end(), 0);
    return p;
}
inline std::vector<double> gen_values(Ctx &c, K k, int64_t n, int64_t maxmag = 12) {
    std::vector<double> v(n);
    if (n <= 24 || (n <= 5000 && c.b(1, 3))) {
        for (auto &x : v) x = gen_value(c, k, maxmag);
    } else {
        pbt::Noise r(c.seed());
        for (auto &x : v)
            x = k == K::f32 ? r.range(0, 8 * maxmag) / 4.0 - maxmag
                : k == K::i32 ? (double)r.range(-maxmag, maxmag)
                              : (double)r.range(0, maxmag);
    }
    return v;
}
inline Pair gen_dense(Ctx &c, K k, const Shape &s, int64_t maxmag = 12) {
    return make(k, s, gen_values(c, k, numel(s), maxmag));
}

// A dense-looking array whose elements lie beyond 2^31 elements of a huge (sparse: only the pages used exist) buffer, as those of
// the later channels of a large file do; the rows of its first axis may be as far apart.
inline void *sparse_region() {
    constexpr size_t         bytes = size_t{20} << 30;
    static std::vector<void *> ring(256, nullptr);
    static size_t            next = 0;
    auto                   &r    = ring[next++ % ring.size()];
    if (r) munmap(r, bytes);
    r = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (r == MAP_FAILED) r = nullptr;
    return r;
}
inline Pair far(Ctx &c, const Pair &dense) { // the same elements as a freshly made array, somewhere far into a huge buffer
    auto    s     = dense.nd.shape();
    int64_t first = (int64_t{1} << 31) + c.i(-2, 2000), dense_stride = 1;
    if (s.empty() || dense.nd.numel() == 0) return dense;
    void *mem = sparse_region();
    if (!mem) return dense;
    Shape shape{2}, strides(s.size() + 1);
    for (int d = (int)s.size() - 1; d >= 0; --d) strides[d + 1] = dense_stride, dense_stride *= s[d];
    if (s[0] > 1 && s[0] <= 4 && c.b()) strides[1] = (int64_t{1} << 29) + c.i(0, 100); // far between the rows too
    strides[0] = first;
    shape.insert(shape.end(), s.begin(), s.end());
    DLManagedTensor t{};
    t.dl_tensor.data    = mem;
    t.dl_tensor.device  = DLDevice{kDLCPU, 0};
    t.dl_tensor.ndim    = (int)shape.size();
    t.dl_tensor.dtype   = dense.nd.dtype();
    t.dl_tensor.shape   = shape.data();
    t.dl_tensor.strides = strides.data();
    ndarray whole(t);
    Pair    p = dense;
    p.nd      = ndarray(bland::slice(whole, 0, 1, 2));
    p.nd      = p.nd.squeeze(0);
    const size_t es = dense.nd.dtype().bits / 8;
    Shape        ix(s.size(), 0);
    for (int64_t n = 0; n < dense.nd.numel(); ++n, next(ix, s)) {
        int64_t at = first;
        for (size_t d = 0; d < s.size(); ++d) at += ix[d] * strides[d + 1];
        memcpy((char *)mem + at * es, dense.nd.data_ptr<char>() + n * es, es);
    }
    p.base = std::make_shared<ndarray>(p.nd);
    return p;
}

inline Shape gen_shape(Ctx &c, int maxdim = 4, int64_t maxlen = 11, int64_t max_numel = 400, int mindim = 1) {
    int   nd = c.u(mindim, maxdim);
    Shape s;
    for (int d = 0; d < nd; ++d) {
        int64_t cap = std::max<int64_t>(1, max_numel / std::max<int64_t>(1, numel(s)));
        s.push_back(c.i(1, std::min<int64_t>(maxlen, cap)));
    }
    return s;
}

// the same, and now and then more elements than fit into 15 or 16 bits
inline Shape gen_shape_any(Ctx &c, int maxdim = 4, int64_t maxlen = 11, int64_t max_numel = 400) {
    if (!c.b(1, 2500)) return gen_shape(c, maxdim, maxlen, max_numel);
    c.label("more than 2^15 elements");
    int64_t n = c.i(33000, 70000), m = c.i(1, 3);
    switch (c.u(0, 3)) {
    case 0: return {n};
    case 1: return {n, m};
    case 2: return {m, n};
    default: return {c.i(200, 300), c.i(200, 300)};
    }
}

// model of slicing [start, end) with a stride, already normalised
inline View slice(const View &v, int dim, int64_t start, int64_t stride, int64_t len) {
    View r  = v;
    r.shape[dim] = len;
    r.cell.clear();
    if (numel(r.shape) == 0) return r;
    Shape ix(r.shape.size(), 0);
    do {
        int64_t lin = 0;
        for (size_t d = 0; d < ix.size(); ++d) {
            int64_t p = (int)d == dim ? start + ix[d] * stride : ix[d];
            lin       = lin * v.shape[d] + p;
        }
        r.cell.push_back(v.cell[lin]);
    } while (next(ix, r.shape));
    return r;
}

struct SliceArgs {
    int64_t start, end, stride; // as passed
    int64_t nstart, nend;       // normalised
    int64_t len;
};
// a valid, non-empty slice of an axis of length n
inline SliceArgs gen_slice(Ctx &c, int64_t n) {
    SliceArgs s;
    s.nstart = c.i(0, n - 1);
    s.nend   = c.i(s.nstart + 1, n);
    int64_t span = s.nend - s.nstart;
    s.stride = c.b(1, 3) ? c.i(1, 4) : 1;
    s.len = (span + s.stride - 1) / s.stride; // start, start + stride, ... before end
    s.start = s.nstart;
    s.end   = s.nend;
    if (s.nstart > 0 && c.b(1, 4)) s.start = s.nstart - n;             // negative: offset from the end
    if (s.nend < n && c.b(1, 4)) s.end = s.nend - n;
    if (s.nend == n && c.b(1, 2)) s.end = c.b() ? std::numeric_limits<int64_t>::max() : n + c.i(1, 5); // clipped
    return s;
}

// a view (possibly strided, offset, squeezed) with exactly the wanted shape, cut from a larger dense array
inline Pair gen_view(Ctx &c, K k, const Shape &want, int64_t maxmag = 12) {
    auto dense = [&](const Shape &s) {
        auto p = gen_dense(c, k, s, maxmag);
        return c.b(1, 24) ? far(c, p) : p;
    };
    if (!c.b(2, 3)) return dense(want);
    Shape                big = want;
    std::vector<int64_t> start(want.size(), 0), stride(want.size(), 1);
    for (size_t d = 0; d < want.size(); ++d) {
        if (!c.b()) continue;
        stride[d]    = c.b(1, 3) ? c.i(1, 3) : 1;
        start[d]     = c.i(0, 3);
        int64_t tail = c.i(0, 2);
        big[d]       = start[d] + want[d] * stride[d] + tail;
    }
    auto p = dense(big);
    for (size_t d = 0; d < want.size(); ++d) {
        if (big[d] == want[d]) continue;
        p.nd = ndarray(bland::slice(p.nd, (int64_t)d, start[d], start[d] + want[d] * stride[d] - (c.b(1, 3) ? c.i(0, stride[d] - 1) : 0), stride[d]));
        p.m  = slice(p.m, d, start[d], stride[d], want[d]);
    }
    return p;
}

inline std::string shape_str(const Shape &s) { return pbt::str(s); }

inline void expect_same(const std::string &key, const ndarray &nd, const View &m, const std::string &where) {
    REQUIRE_P(key, nd.shape() == m.shape, where, ": shape ", shape_str(nd.shape()), " expected ", shape_str(m.shape));
    REQUIRE_P(key, nd.ndim() == (int64_t)m.shape.size(), where, ": ndim ", nd.ndim());
    REQUIRE_P(key, nd.numel() == numel(m.shape), where, ": numel ", nd.numel());
    auto v = values(nd);
    auto e = m.vals();
    for (size_t k = 0; k < e.size(); ++k)
        REQUIRE_P(key, v[k] == e[k] || (v[k] != v[k] && e[k] != e[k]), where, ": element #", k, " of shape ", shape_str(m.shape), " is ", v[k],
                  " expected ", e[k]);
}

// every cell of the whole backing buffer still holds what the model says
inline void expect_buffer(const std::string &key, const Pair &p, const std::string &where) {
    auto v = values(*p.base);
    REQUIRE_P(key, v.size() == p.m.buf->size(), where, ": buffer of ", v.size(), " cells");
    for (size_t k = 0; k < v.size(); ++k) {
        double e = (*p.m.buf)[k];
        REQUIRE_P(key, v[k] == e || (v[k] != v[k] && e != e), where, ": backing cell #", k, " is ", v[k], " expected ", e);
    }
}

// a pair of shapes that broadcast to one another, and the result's shape
struct BShapes {
    Shape a, b, out;
};
inline BShapes gen_broadcast(Ctx &c, int maxdim = 4, int64_t maxlen = 9, int64_t max_numel = 300) {
    BShapes s;
    s.out = gen_shape_any(c, maxdim, maxlen, max_numel);
    s.a = s.b = s.out;
    if (c.b(2, 3)) {
        for (size_t d = 0; d < s.out.size(); ++d) {
            int w = c.u(0, 5);
            if (w == 4) s.a[d] = 1;
            if (w == 5) s.b[d] = 1;
        }
        int drop = c.u(0, 3);
        if (drop >= 2 && s.out.size() > 1) {
            auto &x = drop == 2 ? s.a : s.b;
            x.erase(x.begin(), x.begin() + c.u(1, (int64_t)s.out.size() - 1));
        }
        for (size_t d = 0; d < s.out.size(); ++d) { // both may have ended up with nothing to repeat over
            auto len = [&](const Shape &x) { return d + x.size() < s.out.size() ? 1 : x[d + x.size() - s.out.size()]; };
            s.out[d] = std::max(len(s.a), len(s.b));
        }
    }
    return s;
}
// row-major position in an operand of shape s of the element that broadcasts to index ix of the result
inline size_t bindex(const Shape &s, const Shape &ix) {
    size_t lin = 0, lead = ix.size() - s.size();
    for (size_t d = 0; d < s.size(); ++d) lin = lin * s[d] + (s[d] == 1 ? 0 : ix[lead + d]);
    return lin;
}
// shapes that do not broadcast
inline BShapes gen_mismatch(Ctx &c) {
    BShapes s;
    s.out = gen_shape(c, 4, 6, 200);
    s.a = s.b = s.out;
    int d  = c.u(0, (int64_t)s.out.size() - 1);
    s.a[d] = std::max<int64_t>(2, s.a[d]);
    s.b[d] = s.a[d] + c.u(1, 3);
    if (c.b()) std::swap(s.a, s.b);
    if (d > 0 && c.b()) {
        auto &x = c.b() ? s.a : s.b;
        x.erase(x.begin(), x.begin() + c.u(1, d));
    }
    return s;
}
} // namespace arr

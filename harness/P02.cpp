// P02: the Python array module gives what the C++ array library gives, for arrays of any producer and layout.
#include "py.hpp"
#include "red.hpp"
#include <bland/bland.hpp>
#include <algorithm>
using namespace arr;
using py::Program;
using py::Val;

// an operand: its logical values, and a layout of them in cells of its own
struct Operand {
    K                    k;
    Shape                s;
    std::vector<double>  v; // logical, row-major
    std::vector<double>  cells;
    std::vector<int64_t> strides;
    int64_t              start = 0;
    bool                 shared = false; // several indices of one cell
    bool                 native = false; // an array of the module rather than of numpy
    bool                 partial = false;
    ndarray              nd() const {
        auto a = make(k, s, v);
        return a.nd;
    }
};
static Operand lay(Ctx &c, K k, const Shape &s, const std::vector<double> &v) {
    Operand o{k, s, v};
    int     r = s.size();
    std::vector<int> order(r);
    std::iota(order.begin(), order.end(), 0);
    if (c.b()) // any order of the axes in memory
        for (int d = 0; d + 1 < r; ++d) std::swap(order[d], order[c.u(d, r - 1)]);
    o.strides.assign(r, 0);
    int64_t step = 1, low = 0, high = 0;
    bool    plain = c.b(1, 3);
    for (int n = r - 1; n >= 0; --n) {
        int     d   = order[n];
        int64_t gap = plain || c.b() ? 1 : c.u(1, 3);
        o.strides[d] = step * gap;
        step *= gap * std::max<int64_t>(1, s[d]);
        if (!plain && c.b(1, 5)) o.strides[d] = -o.strides[d];
        (o.strides[d] < 0 ? low : high) += o.strides[d] * std::max<int64_t>(0, s[d] - 1);
    }
    int64_t lead = plain ? 0 : c.u(0, 2), tail = plain ? 0 : c.u(0, 2);
    o.start      = lead - low;
    int64_t n    = lead + high - low + 1 + tail;
    for (int64_t q = 0; q < n; ++q) o.cells.push_back(k == K::u8 ? 77 : 1000 + q % 7);
    o.partial = (int64_t)v.size() < n;
    if (v.empty()) return o;
    Shape  ix(r, 0);
    size_t q = 0;
    do {
        int64_t p = o.start;
        for (int d = 0; d < r; ++d) p += ix[d] * o.strides[d];
        o.cells[p] = v[q++];
    } while (next(ix, s));
    return o;
}
static Operand gen_operand(Ctx &c, K k, const Shape &s, int64_t maxmag = 12) {
    auto o   = lay(c, k, s, gen_values(c, k, numel(s), maxmag));
    o.native = !s.empty() && c.b(1, 4);
    return o;
}
// declares the operand as NAME, on cells NAME_b
static void declare(Program &p, const Operand &o, const std::string &n) {
    p.line(n, "_b, ", n, " = view('", py::np_code(o.k), "', ", py::list(o.cells), ", ", py::list(o.s), ", ", py::list(o.strides), ", ", o.start, ")");
    if (o.native) p.line(n, " = b.slice(", n, ", 0, 0, ", o.s[0], ", 1)");
}
static void unchanged(const Val &g, const Operand &o, const std::string &n) {
    for (size_t k = 0; k < o.cells.size(); ++k) REQUIRE_P("operand", g.v.size() == o.cells.size() && g.v[k] == o.cells[k], "operand ", n, ": cell ", k, " of ", g.v.size(), " is ", g.v[k], ", was ", o.cells[k]);
}
static void begin(Program &p) { p.line("import pybland as b"); }

static std::string scalar(Ctx &c, K k, double &v, bool &whole) {
    whole = k != K::f32 || c.b();
    v     = whole ? (double)(k == K::u8 || k == K::u32 ? c.u(0, 12) : c.u(0, 24) - 12) : (double)c.u(0, 96) / 4.0 - 12;
    std::ostringstream o;
    o.precision(17);
    if (whole) o << (int64_t)v;
    else o << v << (v == std::floor(v) ? ".0" : "");
    return o.str();
}

// one function of the module on operands of any layout
static void call(Ctx &c) {
    int     f = c.u(0, 20);
    Program p;
    begin(p);
    std::vector<std::pair<std::string, Operand>> ops;
    std::vector<ndarray>                         want;
    std::string                                  expr, what;
    double                                       median = 0;
    bool                                         is_median = false;
    auto add = [&](const Operand &o) {
        std::string n(1, (char)('x' + ops.size()));
        declare(p, o, n);
        ops.push_back({n, o});
        c.label(o.native ? "module array" : "numpy array");
        return n;
    };
    if (f <= 3) { // array with array
        static const char *names[] = {"add", "subtract", "multiply", "divide"};
        auto               bs = gen_broadcast(c);
        K                  k  = gen_kind(c);
        auto               a = gen_operand(c, k, bs.a), b = gen_operand(c, k, bs.b);
        if (f == 3) {
            for (auto &v : b.v) v = v == 0 ? 3 : std::fabs(v);
            auto nat = b.native;
            b = lay(c, k, bs.b, b.v), b.native = nat;
        }
        auto x = add(a), y = add(b);
        expr = std::string("b.") + names[f] + "(" + x + ", " + y + ")";
        auto A = a.nd(), B = b.nd();
        want.push_back(f == 0 ? bland::add(A, B) : f == 1 ? bland::subtract(A, B) : f == 2 ? bland::multiply(A, B) : bland::divide(A, B));
        what = names[f];
    } else if (f <= 8) { // array with scalar
        static const char *names[] = {"add", "subtract", "multiply", "less_than", "greater_than"};
        int                g = f - 4;
        K                  k = gen_kind(c);
        auto               a = gen_operand(c, k, gen_shape(c, 4, 9, 300));
        double             v;
        bool               whole;
        auto               s = scalar(c, k, v, whole);
        auto               x = add(a);
        expr = std::string("b.") + names[g] + "(" + x + ", " + s + ")";
        auto A = a.nd();
        if (whole) {
            int32_t i = (int32_t)v;
            want.push_back(g == 0 ? bland::add(A, i) : g == 1 ? bland::subtract(A, i) : g == 2 ? bland::multiply(A, i) : g == 3 ? bland::less_than(A, (float)i) : bland::greater_than(A, (float)i));
        } else {
            float i = (float)v;
            want.push_back(g == 0 ? bland::add(A, i) : g == 1 ? bland::subtract(A, i) : g == 2 ? bland::multiply(A, i) : g == 3 ? bland::less_than(A, i) : bland::greater_than(A, i));
        }
        what = std::string(names[g]) + " " + s;
    } else if (f == 9) {
        K    k = gen_kind(c);
        auto a = gen_operand(c, k, gen_shape(c, 4, 9, 300));
        auto x = add(a);
        expr   = "b.square(" + x + ")";
        want.push_back(bland::square(a.nd()));
        what = "square";
    } else if (f <= 17) { // reductions
        static const char *names[] = {"max", "sum", "mean", "median", "stddev", "var", "mean_stddev", "standardized_moment"};
        int                g = f - 10;
        K                  k = g <= 1 || g == 3 ? gen_kind(c) : K::f32;
        auto               s = gen_shape(c, 4, 9, 500);
        auto               axes = g == 3 ? std::vector<int64_t>{} : red::gen_axes(c, s.size());
        auto               a = gen_operand(c, k, s, k == K::u8 ? 3 : 12);
        bool               masked = g != 0 && g != 1 && g != 3 && g != 5 && g != 7 && c.b();
        auto               x = add(a);
        auto               A = a.nd();
        std::string        y;
        ndarray            M = A;
        if (masked) {
            auto groups = red::groups(s, axes);
            auto m      = gen_operand(c, K::u8, s, 1);
            for (auto &it : groups.items) m.v[it[c.u(0, it.size() - 1)]] = 0; // something is left of every group
            auto nat = m.native;
            m = lay(c, K::u8, s, m.v), m.native = nat;
            y = add(m), M = m.nd();
        }
        int  deg = c.u(1, 4);
        expr = std::string("b.") + (masked ? "masked_" : "") + names[g] + "(" + x + (masked ? ", " + y : "") + (g == 7 ? ", " + std::to_string(deg) : "");
        if (!axes.empty() || c.b()) expr += std::string(", ") + (c.b() ? "axes=" : "") + py::list(axes);
        expr += ")";
        switch (g) {
        case 0: want.push_back(bland::max(A, axes)); break;
        case 1: want.push_back(bland::sum(A, axes)); break;
        case 2: want.push_back(masked ? bland::masked_mean(A, M, axes) : bland::mean(A, axes)); break;
        case 3: median = bland::median(A, axes), is_median = true; break;
        case 4: want.push_back(masked ? bland::masked_stddev(A, M, axes) : bland::stddev(A, axes)); break;
        case 5: want.push_back(bland::var(A, axes)); break;
        case 6: {
            auto r = masked ? bland::masked_mean_stddev(A, M, axes) : bland::mean_stddev(A, axes);
            want.push_back(r.first), want.push_back(r.second);
        } break;
        default: want.push_back(bland::standardized_moment(A, deg, axes));
        }
        what = (masked ? std::string("masked_") : std::string()) + names[g] + " over " + pbt::str(axes);
    } else if (f == 18) { // slices are copies of the logical elements
        auto s  = gen_shape(c, 4, 9, 300);
        K    k  = gen_kind(c);
        auto a  = gen_operand(c, k, s);
        int  d  = c.u(0, s.size() - 1);
        auto sl = gen_slice(c, s[d]);
        auto x  = add(a);
        expr    = "b.slice(" + x + ", " + std::to_string(d) + ", " + std::to_string(sl.start) + ", " + std::to_string(sl.end) + ", " + std::to_string(sl.stride) + ")";
        want.push_back(bland::copy(bland::slice(a.nd(), d, sl.start, sl.end, sl.stride)));
        what = "slice";
    } else if (f == 19) {
        int64_t n = c.u(1, 40);
        auto    a = gen_operand(c, K::f32, {n});
        auto    x = add(a);
        expr      = "b.fft_shift_mag_square(" + x + ")";
        want.push_back(bland::fft_shift_mag_square(a.nd()));
        what = "fft_shift_mag_square";
    } else if (c.b()) {
        float   from = (float)c.u(0, 80) / 4 - 10, step = (float)c.u(1, 12) / 4;
        int64_t n = c.u(0, 40);
        if (c.b()) step = -step;
        float to = from + (float)n * step;
        std::ostringstream o;
        o.precision(9);
        o << "b.arange(" << std::showpoint << from << ", " << to << ", " << step << ")";
        expr = o.str();
        want.push_back(bland::arange(from, to, step));
        what = "arange";
    } else {
        float   from = (float)c.u(0, 80) / 4 - 10, to = (float)c.u(0, 80) / 4 - 10;
        int64_t n = c.u(1, 40);
        std::ostringstream o;
        o.precision(9);
        o << "b.linspace(" << std::showpoint << from << ", " << to << ", " << n << ")";
        expr = o.str();
        want.push_back(bland::linspace(from, to, n));
        what = "linspace";
    }
    c.note(expr);
    for (auto &o : ops) c.note(o.first, ": ", name(o.second.k), shape_str(o.second.s), " strides ", pbt::str(o.second.strides), o.second.native ? " module array" : "");
    p.line("r = ", expr);
    for (auto &o : ops) p.line("out(", o.first, "_b)");
    if (want.size() == 2) p.line("for q in r: out(q, q.shape(), q.ndim(), q.numel(), [q.dtype().code, q.dtype().bits, q.dtype().lanes], q.offsets(), q.strides())");
    else if (is_median) p.line("out(r)");
    else p.line("q = r; out(q, q.shape(), q.ndim(), q.numel(), [q.dtype().code, q.dtype().bits, q.dtype().lanes], q.offsets(), q.strides())");
    auto   r = p.run();
    size_t n = 0;
    for (auto &o : ops) unchanged(r[n++], o.second, o.first);
    if (is_median) REQUIRE_P("median", r.at(n).num() == median || std::fabs(r[n].num() - median) < 1e-6 * std::fabs(median), "median is ", r[n].num(), " expected ", median);
    for (auto &w : want) {
        py::expect("value", r.at(n), w, what);
        auto ints = [&](const Val &v) {
            std::vector<int64_t> x;
            for (auto &y : v.l) x.push_back((int64_t)y.num());
            return x;
        };
        REQUIRE_P("shape", ints(r.at(n + 1)) == w.shape() && r[n + 2].num() == w.ndim() && r[n + 3].num() == w.numel(), "shape ", pbt::str(ints(r[n + 1])), ", ndim ", r[n + 2].num(), ", numel ", r[n + 3].num(), " of ", shape_str(w.shape()));
        REQUIRE_P("dtype", (ints(r.at(n + 4)) == std::vector<int64_t>{w.dtype().code, w.dtype().bits, w.dtype().lanes}), "dtype ", pbt::str(ints(r[n + 4])));
        REQUIRE_P("layout", ints(r.at(n + 5)) == w.offsets() && ints(r.at(n + 6)) == w.strides(), "offsets ", pbt::str(ints(r[n + 5])), " strides ", pbt::str(ints(r[n + 6])), " of shape ", shape_str(w.shape()));
        n += 7;
    }
    c.label(what.substr(0, what.find(' ')));
    bool odd = false;
    for (auto &o : ops) odd = odd || o.second.partial || o.second.native || (o.second.s.size() > 1);
    c.nontrivial(odd || ops.empty());
}

// scalars anywhere in their range, next to the elements they are compared with
static void scalars(Ctx &c) {
    K                   k = c.b() ? K::i32 : c.b() ? K::u32 : K::u8;
    double              lo = k == K::i32 ? -2147483648.0 : 0, hi = k == K::i32 ? 2147483647.0 : k == K::u32 ? 4294967295.0 : 255;
    double              s = c.b(1, 4) ? (double)c.u(0, 300) - 150 : std::floor(c.real(lo, hi));
    s                     = std::min(hi, std::max(lo, s + (double)c.u(0, 200) - 100));
    std::vector<double> v;
    int                 n = c.u(1, 6);
    for (int q = 0; q < n; ++q) v.push_back(std::min(hi, std::max(lo, s + (double)c.u(0, 4) - 2)));
    int f = c.u(0, 3);
    static const char *names[] = {"less_than", "greater_than", "add", "subtract"};
    auto o = lay(c, k, {n}, v);
    Program p;
    begin(p);
    declare(p, o, "x");
    p.line("out(b.", names[f], "(x, ", (int64_t)s, "))");
    c.note(names[f], " ", name(k), pbt::str(v), " and ", (int64_t)s);
    auto r = p.run();
    for (int q = 0; q < n; ++q) {
        double e;
        if (f == 0) e = v[q] < s;
        else if (f == 1) e = v[q] > s;
        else { // as the element type counts
            int64_t t = (int64_t)v[q] + (f == 2 ? 1 : -1) * (int64_t)s;
            e = k == K::i32 ? (double)(int32_t)t : k == K::u32 ? (double)(uint32_t)t : (double)(uint8_t)t;
            if (k == K::i32 && (t > 2147483647 || t < -2147483648LL)) continue;
        }
        REQUIRE_P("scalar", r.at(0).v.size() == (size_t)n && r[0].v[q] == e, names[f], " of ", (int64_t)v[q], " and ", (int64_t)s, " gave ", r[0].v[q], " expected ", e);
    }
    c.label(names[f]);
    c.nontrivial(std::fabs(s) > 16777216 || s < 0);
}

// arrays of the module made from one another and from the memory of numpy, in any order of creation, use and deletion
static void history(Ctx &c) {
    Program p;
    begin(p);
    struct Live {
        std::string n;
        ndarray     nd;   // the reference: shares elements exactly where the module's arrays do
        int         kind; // 0 numpy array, 1 of the module, 2 numpy's view of one of the module
        Operand     o;
    };
    std::vector<Live> live;
    int               next_name = 0, steps = c.u(2, 16);
    bool              wrote = false, dropped = false, shared = false;
    auto name_of = [&] { return "v" + std::to_string(next_name++); };
    for (int st = 0; st < steps; ++st) {
        int  op = live.empty() ? 0 : c.u(0, 10);
        int  i  = live.empty() ? 0 : c.u(0, live.size() - 1);
        auto n  = name_of();
        if (op == 0) { // memory of numpy's
            K    k = gen_kind(c);
            auto s = gen_shape(c, 3, 5, 40);
            auto o = lay(c, k, s, gen_values(c, k, numel(s)));
            declare(p, o, n);
            live.push_back({n, o.nd(), 0, o});
            c.note(n, " = numpy's ", name(k), shape_str(s));
        } else if (op == 1 && live[i].kind == 1) {
            p.line(n, " = np.from_dlpack(", live[i].n, ")");
            c.note(n, " = numpy's view of ", live[i].n);
            live.push_back({n, live[i].nd, 2, {}});
            shared = true;
        } else if (op == 2 && live[i].kind == 1) {
            Shape   to;
            int64_t t = live[i].nd.numel();
            while (t > 1) { // some factorisation of the size
                int64_t d = 2;
                while (t % d) ++d;
                if (!to.empty() && c.b()) to.back() *= d;
                else to.push_back(d);
                t /= d;
            }
            if (to.empty()) to.push_back(1);
            p.line(n, " = ", live[i].n, ".reshape(", py::list(to), ")");
            c.note(n, " = ", live[i].n, " as ", shape_str(to));
            auto r = live[i].nd.reshape(to);
            live.push_back({n, r, 1, {}});
            shared = true;
        } else if (op <= 4 && live[i].kind == 0) { // an element of numpy's
            auto   &x = live[i];
            Shape   ix;
            int64_t cell = x.o.start, lin = 0;
            for (size_t d = 0; d < x.o.s.size(); ++d) ix.push_back(c.u(0, x.o.s[d] - 1)), cell += ix[d] * x.o.strides[d], lin += ix[d] * x.nd.strides()[d];
            int v = c.u(0, 100);
            auto d = x.nd.dtype();
            if (d == dt(dt::float32)) x.nd.data_ptr<float>()[lin] = v;
            else if (d == dt(dt::uint8)) x.nd.data_ptr<uint8_t>()[lin] = v;
            else x.nd.data_ptr<uint32_t>()[lin] = v;
            p.line(x.n, "_b[", cell, "] = ", v);
            c.note(x.n, pbt::str(ix), " = ", v);
            wrote = true;
        } else if (op <= 5 && live[i].kind != 2) {
            p.line(n, " = b.add(", live[i].n, ", 1)");
            c.note(n, " = ", live[i].n, " + 1");
            auto r = bland::add(live[i].nd, (int32_t)1);
            live.push_back({n, r, 1, {}});
        } else if (op == 6 && live[i].kind != 2) {
            auto    s  = live[i].nd.shape();
            int     d  = c.u(0, s.size() - 1);
            auto    sl = gen_slice(c, s[d]);
            p.line(n, " = b.slice(", live[i].n, ", ", d, ", ", sl.start, ", ", sl.end, ", ", sl.stride, ")");
            c.note(n, " = ", live[i].n, " axis ", d, " from ", sl.start, " to ", sl.end, " by ", sl.stride);
            auto r = bland::copy(bland::slice(live[i].nd, d, sl.start, sl.end, sl.stride));
            if (r.numel() == 0) { // nothing to work on
                p.line("del ", n);
                continue;
            }
            live.push_back({n, r, 1, {}});
        } else if (op == 7 && live[i].kind == 1) {
            p.line(n, " = ", live[i].n, ".to('cpu')");
            c.note(n, " = ", live[i].n, " to cpu");
            auto r = live[i].nd.to("cpu");
            live.push_back({n, r, 1, {}});
        } else if (op == 8 && live[i].kind == 1) {
            const char *how = c.b() ? "pickle.loads(pickle.dumps(" : "(copy.deepcopy(";
            p.line("import pickle, copy; ", n, " = ", how, live[i].n, "))");
            c.note(n, " = ", how, live[i].n);
            auto r = bland::copy(live[i].nd);
            live.push_back({n, r, 1, {}});
            c.label("pickle");
        } else if (op >= 9) {
            p.line("del ", live[i].n, live[i].kind == 0 ? ", " + live[i].n + "_b" : "", "; gc.collect(); junk = [np.full(64, 123, 'f4') for _ in range(4)]");
            c.note("del ", live[i].n);
            live.erase(live.begin() + i);
            dropped = true;
        }
    }
    for (auto &x : live) p.line("out(", x.n, ")");
    auto r = p.run();
    for (size_t k = 0; k < live.size(); ++k) py::expect("history", r.at(k), live[k].nd, live[k].n);
    if (wrote) c.label("write");
    if (dropped) c.label("deletion");
    if (shared) c.label("shared");
    c.nontrivial((wrote || dropped || shared) && live.size() > 1);
}

// what the module cannot do raises an exception and leaves the interpreter and the operands alone
static void refuse(Ctx &c) {
    Program p;
    begin(p);
    auto    s = gen_shape(c, 3, 6, 60);
    auto    o = lay(c, K::f32, s, gen_values(c, K::f32, numel(s)));
    declare(p, o, "x");
    std::string e;
    switch (c.u(0, 9)) {
    case 0: {
        static const std::vector<std::string> types{"i1", "i2", "u2", "u8", "f2", "f8", "c8", "c16", "?", "S3", "O", ">f4", "M8[s]"};
        static const std::vector<std::string> fs{"b.add(y, y)", "b.square(y)", "b.mean(y)", "b.max(y, [0])", "b.median(y)", "b.less_than(y, 2)", "b.multiply(y, 2.5)", "b.standardized_moment(y, 2)", "b.fft_shift_mag_square(y)", "b.masked_mean(y, np.zeros(y.shape, 'u1'))", "b.masked_mean(x, y)"};
        e = c.pick(fs);
        p.line("y = np.zeros(", py::list(s), ", '", c.pick(types), "')");
    } break;
    case 1: {
        static const std::vector<std::string> fs{"max", "sum", "mean", "stddev", "var", "mean_stddev", "median"};
        e = "b." + c.pick(fs) + "(x, " + py::list(red::gen_bad_axes(c, s.size())) + ")";
    } break;
    case 2: {
        auto bs = gen_mismatch(c);
        static const std::vector<std::string> fs{"add", "subtract", "multiply", "divide"};
        e = "b." + c.pick(fs) + "(np.ones(" + py::list(bs.a) + ", 'f4'), np.ones(" + py::list(bs.b) + ", 'f4'))";
    } break;
    case 3: {
        static const std::vector<std::string> fs{"masked_mean", "masked_stddev", "masked_mean_stddev"};
        e = "b." + c.pick(fs) + "(x, np.zeros(" + py::list(red::other_shape(c, s)) + ", 'u1'))";
    } break;
    case 4: {
        static const std::vector<std::string> fs{"b.ndarray.datatype('bogus')", "b.ndarray.datatype('')", "b.ndarray.dev('bogus')", "b.ndarray.dev('')", "b.slice(x, 0, 0, 1, 1).to('bogus')", "b.slice(x, 0, 0, 1, 1).to('cuda')", "b.ndarray.datatype('Float32')", "b.read_from_file('/nonexistent/file', b.ndarray.datatype('float32'))", "b.write_to_file(b.square(x), '/nonexistent/dir/file')"};
        e = c.pick(fs);
    } break;
    case 5: {
        std::ostringstream q;
        int                how = c.u(0, 3);
        int64_t            d = c.u(0, s.size() - 1);
        if (how == 0) q << "b.slice(x, " << (int64_t)s.size() + c.u(0, 4) << ", 0, 1, 1)";
        else if (how == 1) q << "b.slice(x, " << -1 - c.u(0, 5) << ", 0, 1, 1)";
        else if (how == 2) q << "b.slice(x, " << d << ", 0, 1, " << -c.u(0, 3) << ")";
        else q << "b.slice(x, " << d << ", " << s[d] - 1 << ", " << s[d] - 1 - c.u(1, 3) - (int64_t)s[d] * 2 << ", 1)";
        e = q.str();
    } break;
    case 6: e = "b.square(x).reshape(" + py::list(Shape{numel(s) + c.u(1, 3)}) + ")"; break;
    case 7: {
        static const std::vector<std::string> fs{"b.add([1.0, 2.0], 1.0)", "b.add(x, 'a')", "b.add(x, None)", "b.add(None, x)", "b.add(x)", "b.mean(x, 0)", "b.mean(x, ['a'])", "b.less_than(x, x)", "b.arange(0, 1)", "b.linspace(0., 1., -1)", "b.masked_mean(x)", "b.fft(x)", "b.fft(b.square(x))", "b.multiply(x, 1j)", "b.square(5)"};
        e = c.pick(fs);
    } break;
    case 8: {
        static const std::vector<std::string> fs{"b.arange(0., 1., 0.)", "b.arange(0., 1., -1.)", "b.arange(1., 0., 1.)"};
        e = c.pick(fs);
    } break;
    default: e = "b.masked_mean(x, np.ones(" + py::list(s) + ", 'u1'))";
    }
    p.line("raises(lambda: ", e, ")");
    p.line("out(x_b); out(b.sum(x))");
    c.note(e);
    auto r = p.run();
    REQUIRE_P("refused", r.at(0).num() == 1, e, " did not raise");
    unchanged(r.at(1), o, "x");
    py::expect("alive", r.at(2), bland::sum(o.nd()), "sum");
    c.nontrivial();
}

// arrays in files, and names
static void files(Ctx &c) {
    K       k = gen_kind(c);
    auto    s = gen_shape(c, 3, 8, 100);
    auto    o = lay(c, k, s, gen_values(c, k, numel(s)));
    Program p;
    begin(p);
    declare(p, o, "x");
    auto path = pbt::scratch_dir() + "/array";
    p.line("y = b.slice(x, 0, 0, ", s[0], ", 1)");
    p.line("b.write_to_file(y, '", path, "')");
    p.line("out(np.fromfile('", path, "', '", py::np_code(k), "'))");
    p.line("t = b.ndarray.datatype('", name(k), "')");
    p.line("out(b.read_from_file('", path, "', t))");
    p.line("out([t.code, t.bits, t.lanes, y.device().device_id, y.size(0)], str(b.ndarray.dev('cpu')) == str(y.device()), repr(t) == repr(y.dtype()))");
    p.line("out([b.ndarray.dev(n).device_type for n in ('cpu', 'cuda', 'cuda:1', 'cudahost', 'cudahost:2', 'cudamanaged')], b.ndarray.dev('cudamanaged:3').device_id)");
    p.line("z = b.ndarray(", py::list(s), "); out(z.shape(), z.numel())");
    c.note(name(k), shape_str(s), " strides ", pbt::str(o.strides));
    auto r = p.run();
    auto flat = bland::copy(o.nd()).reshape({numel(s)});
    py::expect("file", r.at(0), flat, "file");
    py::expect("read-back", r.at(1), flat, "read back");
    auto d = flat.dtype();
    REQUIRE_P("dtype", r.at(2).l[0].num() == d.code && r[2].l[1].num() == d.bits && r[2].l[2].num() == 1 && r[2].l[3].num() == 0, "datatype of ", name(k));
    REQUIRE_P("size", r[2].l[4].num() == s[0], "size of the first axis");
    REQUIRE_P("repr", r.at(3).num() == 1 && r.at(4).num() == 1, "texts of the device and type differ");
    const int devices[] = {kDLCPU, kDLCUDA, kDLCUDA, kDLCUDAHost, kDLCUDAHost, kDLCUDAManaged};
    for (int k = 0; k < 6; ++k) REQUIRE_P("device", r.at(5).l[k].num() == devices[k], "device type ", k, " is ", r[5].l[k].num());
    REQUIRE_P("device", r.at(6).num() == 3, "device id is ", r[6].num());
    c.nontrivial(o.partial || s.size() > 1);
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "P02";
    s.rule           = "call: an operand that is strided, multi-dimensional or a module array, or a creator; scalars: beyond 2^24 or negative; history: a write or deletion with more than one array left; refuse: every case; files: partial or multi-dimensional";
    s.quick_cases    = 14000;
    s.thorough_cases = 600000;
    s.assumptions    = "float32, int32, uint32 and uint8 arrays of numpy (any strides, also negative and permuted) or of the module; the C++ library in the same build is the reference for values; AddressSanitizer build of the module";
    s.facets         = {{"call", 8, 0, call}, {"scalars", 2, 0, scalars}, {"history", 4, 0, history}, {"refuse", 3, 0, refuse}, {"files", 1, 0, files}};
    return pbt::run(argc, argv, s);
}

// A02: element-wise arithmetic against C++ arithmetic on the logical elements, broadcast by the usual trailing-axis rule.
#include "arr.hpp"
using namespace arr;

enum class Op { add, sub, mul, div };
static const char *opname(Op o) {
    static const char *n[] = {"+", "-", "*", "/"};
    return n[(int)o];
}

// does the language define `out = a op b`, and what is it?
static bool expected(K ka, K kb, K out, Op op, double a, double b, double &r) {
    bool fl = ka == K::f32 || kb == K::f32;
    if (fl) {
        double x = a, y = b; // small values: exact in float
        switch (op) {
        case Op::add: r = (float)x + (float)y; break;
        case Op::sub: r = (float)x - (float)y; break;
        case Op::mul: r = (float)x * (float)y; break;
        default:
            if (y == 0 && out != K::f32) return false;
            r = (float)x / (float)y;
        }
        if (op != Op::div || y != 0) r = (float)r;
        if (out == K::f32) return true;
        r = std::trunc(r);
        double lo = out == K::i32 ? -2147483648.0 : 0, hi = out == K::u8 ? 255.0 : out == K::u32 ? 4294967295.0 : 2147483647.0;
        return r >= lo && r <= hi;
    }
    int64_t x = (int64_t)a, y = (int64_t)b, z = 0;
    switch (op) {
    case Op::add: z = x + y; break;
    case Op::sub: z = x - y; break;
    case Op::mul: z = x * y; break;
    default:
        if (y == 0) return false;
        if ((ka == K::u32 || kb == K::u32) && (x < 0 || y < 0)) return false; // converted to unsigned first
        z = x / y;
    }
    if (out == K::i32) {
        if (z < -2147483648LL || z > 2147483647LL) return false;
        if ((ka == K::u32 || kb == K::u32)) z = (int32_t)(uint32_t)z;
        r = (double)z;
    } else if (out == K::u8) r = (double)(uint8_t)z;
    else if (out == K::u32) r = (double)(uint32_t)z;
    else {
        // integral operands never reach a float result here
        return false;
    }
    return true;
}

static void compare(Ctx &c, const std::string &key, const ndarray &r, const Shape &shape, K ka, K kb, K out, Op op, const std::vector<double> &a,
                    const Shape &sa, const std::vector<double> &b, const Shape &sb) {
    (void)c;
    REQUIRE_P(key, r.shape() == shape, "result shape ", shape_str(r.shape()), " expected ", shape_str(shape));
    REQUIRE_P(key, r.dtype() == dt(dtype_of(out)), "result type is not ", name(out));
    Shape ix(shape.size(), 0);
    do {
        double x = a[sa.empty() ? 0 : bindex(sa, ix)], y = b[sb.empty() ? 0 : bindex(sb, ix)], e;
        if (!expected(ka, kb, out, op, x, y, e)) continue;
        double g = at(r, ix);
        REQUIRE_P(key, g == e || (g != g && e != e), "at ", shape_str(ix), ": ", x, " ", opname(op), " ", y, " gave ", g, " expected ", e);
    } while (next(ix, shape));
}

static double nonzero(double v) { return v == 0 ? 1 : v; }

template <class B> static ndarray apply_op(Ctx &c, Op op, const ndarray &a, const B &b) {
    bool fn = c.b();
    switch (op) {
    case Op::add: return fn ? bland::add(a, b) : a + b;
    case Op::sub: return fn ? bland::subtract(a, b) : a - b;
    case Op::mul: return fn ? bland::multiply(a, b) : a * b;
    default: return fn ? bland::divide(a, b) : a / b;
    }
}

static Pair gen_operand(Ctx &c, K k, const Shape &s, bool denominator) {
    auto p = gen_view(c, k, s);
    if (denominator && k != K::f32) {
        for (auto &v : *p.m.buf) v = nonzero(v);
        poke(*p.base, *p.m.buf);
    } else if (k == K::f32 && c.b(1, 12)) {
        for (auto &v : *p.m.buf)
            if (v == 3) v = INFINITY;
            else if (v == -3) v = NAN;
        poke(*p.base, *p.m.buf);
    }
    return p;
}

static void array_array(Ctx &c) {
    K    ka = gen_kind(c), kb = c.b(2, 3) ? ka : gen_kind(c);
    Op   op = (Op)c.u(0, 3);
    auto s  = gen_broadcast(c);
    auto a  = gen_operand(c, ka, s.a, false);
    auto b  = gen_operand(c, kb, s.b, op == Op::div);
    c.note(name(ka), shape_str(s.a), opname(op), name(kb), shape_str(s.b));
    if (op == Op::div && kb == K::f32 && ka != K::f32) // integer result of x / 0.0 is not defined
        for (auto &v : *b.m.buf) v = nonzero(v);
    poke(*b.base, *b.m.buf);
    if (ka != K::f32 && kb == K::f32) // casts of out-of-range results are not defined
        for (auto &v : *b.m.buf)
            if (!std::isfinite(v)) v = 2;
    poke(*b.base, *b.m.buf);
    auto r = apply_op(c, op, a.nd, b.nd);
    auto av = a.m.vals(), bv = b.m.vals();
    compare(c, "array", r, s.out, ka, kb, ka, op, av, s.a, bv, s.b);
    expect_buffer("operand", a, "first operand");
    expect_buffer("operand", b, "second operand");
    // the result has storage of its own
    if (ka == K::f32) bland::fill(r, 77.0f);
    expect_buffer("operand", a, "first operand after writing to the result");
    expect_buffer("operand", b, "second operand after writing to the result");
    bool bc = s.a != s.b;
    if (bc) c.label("broadcast");
    if (s.a.size() != s.b.size()) c.label("rank-mismatch");
    c.label(opname(op));
    c.nontrivial(numel(s.out) > 3 && (bc || a.m.buf->size() > a.m.cell.size() || b.m.buf->size() > b.m.cell.size()));
}

// operands that are views of one another's storage
static void shared_operands(Ctx &c) {
    K    k  = gen_kind(c);
    Op   op = (Op)c.u(0, 3);
    auto s  = gen_shape_any(c, 3, 9, 250);
    auto p  = gen_operand(c, k, s, true);
    int  d  = c.u(0, (int64_t)s.size() - 1);
    auto x  = gen_slice(c, s[d]);
    int64_t room = s[d] - x.len * x.stride;
    int64_t st2  = c.i(0, room);
    auto m1 = slice(p.m, d, x.nstart, x.stride, x.len), m2 = slice(p.m, d, st2, x.stride, x.len);
    c.note(name(k), shape_str(s), " ", opname(op), " axis ", d, " starts ", x.nstart, ",", st2, " stride ", x.stride, " len ", x.len);
    auto v1 = bland::slice(p.nd, d, x.nstart, x.nend, x.stride);
    auto v2 = bland::slice(p.nd, d, st2, st2 + x.len * x.stride, x.stride);
    // slices are usable as operands directly
    ndarray r = op == Op::add ? v1 + ndarray(v2) : op == Op::sub ? v1 - ndarray(v2) : op == Op::mul ? v1 * ndarray(v2) : v1 / ndarray(v2);
    auto r2 = op == Op::add ? bland::add(ndarray(v1), v2) : op == Op::sub ? bland::subtract(ndarray(v1), v2) : op == Op::mul ? bland::multiply(ndarray(v1), v2) : bland::divide(ndarray(v1), v2);
    compare(c, "slice-operand", r, m1.shape, k, k, k, op, m1.vals(), m1.shape, m2.vals(), m2.shape);
    compare(c, "slice-operand", r2, m1.shape, k, k, k, op, m1.vals(), m1.shape, m2.vals(), m2.shape);
    expect_buffer("operand", p, "operand");
    c.nontrivial(x.len > 1);
}

template <class T> static void scalar_T(Ctx &c, K ks) {
    K    k  = gen_kind(c);
    Op   op = (Op)c.u(0, 3);
    bool left = c.b();
    auto s  = gen_shape_any(c, 4, 12, 400);
    auto p  = gen_operand(c, k, s, left && op == Op::div);
    T    v  = (T)gen_value(c, ks);
    if (!left && op == Op::div && v == 0) v = (T)1;
    if (left && k != K::f32) v = (T)std::trunc((double)v);        // the scalar takes the array's type
    if (left && (k == K::u8 || k == K::u32) && v < 0) v = (T)(-v);
    c.note(name(k), shape_str(s), " ", opname(op), " scalar ", name(ks), " ", (double)v, left ? " on the left" : "");
    ndarray r = p.nd;
    if (left) r = op == Op::add ? v + p.nd : op == Op::sub ? v - p.nd : op == Op::mul ? v * p.nd : v / p.nd;
    else r = apply_op(c, op, p.nd, v);
    std::vector<double> sv{(double)v};
    if (left) compare(c, "scalar-left", r, s, k, k, k, op, sv, {}, p.m.vals(), s);
    else compare(c, "scalar", r, s, k, ks, k, op, p.m.vals(), s, sv, {});
    expect_buffer("operand", p, "operand");
    c.label(left ? "left" : "right");
    c.label(std::string("scalar-") + opname(op));
    c.nontrivial(numel(s) > 1 && v != 0);
}
static void scalar(Ctx &c) {
    K ks = gen_kind(c);
    if (ks == K::f32) scalar_T<float>(c, ks);
    else if (ks == K::i32) scalar_T<int32_t>(c, ks);
    else if (ks == K::u8) scalar_T<uint8_t>(c, ks);
    else scalar_T<uint32_t>(c, ks);
}

static void unary(Ctx &c) {
    K    ka = gen_kind(c), ko = gen_kind(c);
    auto s  = gen_shape_any(c, 4, 9, 300);
    auto sa = s;
    if (c.b(1, 3))
        for (auto &x : sa)
            if (c.b(1, 3)) x = 1;
    auto a  = gen_view(c, ka, sa);
    int  which = c.u(0, 3); // square, sqrt, abs, copy
    static const char *names[] = {"square", "sqrt", "abs", "copy"};
    bool has_out = c.b(2, 3);
    bool alias   = has_out && ka == ko && sa == s && c.b(1, 4); // in place
    if (!has_out) s = sa, ko = ka;
    c.note(names[which], " ", name(ka), shape_str(sa), has_out ? " to " : "", has_out ? name(ko) : "", shape_str(s), alias ? " in place" : "");
    Pair out = alias ? a : gen_view(c, ko, s);
    auto av = a.m.vals();
    ndarray r = a.nd;
    if (has_out) r = which == 0 ? bland::square(a.nd, out.nd) : which == 1 ? bland::sqrt(a.nd, out.nd) : which == 2 ? bland::abs(a.nd, out.nd) : bland::copy(a.nd, out.nd);
    else r = which == 0 ? bland::square(a.nd) : which == 1 ? bland::sqrt(a.nd) : which == 2 ? bland::abs(a.nd) : bland::copy(a.nd);
    REQUIRE_P("unary", r.shape() == s, "shape ", shape_str(r.shape()));
    Shape  ix(s.size(), 0);
    size_t n = 0;
    do {
        double x = av[bindex(sa, ix)], e;
        if (which == 0) e = x * x;
        else if (which == 1) e = ka == K::f32 ? (double)std::sqrt((float)x) : std::sqrt(x);
        else if (which == 2) e = std::fabs(x);
        else e = x;
        double g  = at(r, ix);
        bool   ok = true;
        if (ko == K::f32) e = (double)(float)e;
        else {
            if (e != e || (ko != K::i32 && e <= -1)) {
                // not representable; integers wrap, floats are undefined
                if (ka != K::f32 && e == e) e = ko == K::u8 ? (double)(uint8_t)(int64_t)e : (double)(uint32_t)(int64_t)e;
                else ok = false;
            }
            e = std::trunc(e);
        }
        if (ok) REQUIRE_P("unary", g == e || (g != g && e != e), names[which], " of ", x, " at ", shape_str(ix), " gave ", g, " expected ", e);
        if (has_out) {
            auto &cell = (*out.m.buf)[out.m.cell[n]];
            double w   = at(out.nd, ix);
            REQUIRE_P("unary", w == g || (w != w && g != g), "the output array holds ", w, " where the result holds ", g);
            cell = g;
        }
        ++n;
    } while (next(ix, s));
    if (has_out) expect_buffer("unary-out", out, "output buffer");
    if (!alias) expect_buffer("operand", a, "operand");
    c.label(names[which]);
    c.nontrivial(numel(s) > 2 && (has_out || a.m.buf->size() > a.m.cell.size()));
}

static void mismatch(Ctx &c) {
    K    ka = gen_kind(c), kb = c.b() ? ka : gen_kind(c);
    Op   op = (Op)c.u(0, 3);
    auto s  = gen_mismatch(c);
    auto a  = gen_operand(c, ka, s.a, false);
    auto b  = gen_operand(c, kb, s.b, true);
    c.note(name(ka), shape_str(s.a), opname(op), name(kb), shape_str(s.b));
    bool threw = false;
    try {
        apply_op(c, op, a.nd, b.nd);
    } catch (const std::exception &) { threw = true; }
    REQUIRE_P("mismatch", threw, "shapes ", shape_str(s.a), " and ", shape_str(s.b), " were accepted");
    expect_buffer("operand", a, "first operand");
    expect_buffer("operand", b, "second operand");
    c.nontrivial();
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "A02";
    s.rule           = "array-array: more than 3 result elements and (operand shapes differ or an operand is a partial view); shared: operands overlapping in one buffer, more than one element; scalar: more than one element, scalar not 0; unary: more than 2 elements with an output view or a partial input view; mismatch: every case";
    s.quick_cases    = 500000;
    s.thorough_cases = 6000000;
    s.assumptions    = "CPU arrays float32/int32/uint8/uint32, rank <= 4, <= 400 elements, small magnitudes so that the float result is exactly determined; results the language leaves undefined (out-of-range float to integer, division of an integer by zero) are not compared";
    s.facets         = {{"array-array", 4, 0, array_array}, {"shared", 2, 0, shared_operands}, {"scalar", 3, 0, scalar}, {"unary", 2, 0, unary}, {"mismatch", 1, 0, mismatch}};
    return pbt::run(argc, argv, s);
}

// A03: comparisons, bitwise and, and counting against the mathematical relation on the logical elements.
#include "arr.hpp"
using namespace arr;

enum Rel { GT, GE, LT, LE, EQ, AND };
static const char *relname[] = {">", ">=", "<", "<=", "==", "&"};

static int expected(Rel r, double a, double b) {
    switch (r) {
    case GT: return a > b;
    case GE: return a >= b;
    case LT: return a < b;
    case LE: return a <= b;
    case EQ: return a == b;
    default: return (int)(uint8_t)((int64_t)a & (int64_t)b);
    }
}

// values where comparing in the wrong type or with the wrong rounding shows
static double gen_special(Ctx &c, K k) {
    switch (k) {
    case K::f32: {
        static const std::vector<double> v{0.0, -0.0, NAN, INFINITY, -INFINITY, 16777216.0, -16777216.0, 2147483648.0, -2147483648.0, 255.0, 256.0, 0.5, -1.0, 1e-40};
        return c.pick(v);
    }
    case K::i32: {
        static const std::vector<double> v{0, -1, 1, 16777217, 16777216, 2147483647, -2147483648.0, 255, 256, 257, -256};
        return c.pick(v);
    }
    case K::u8: {
        static const std::vector<double> v{0, 1, 127, 128, 254, 255};
        return c.pick(v);
    }
    default: {
        static const std::vector<double> v{0, 1, 255, 256, 257, 2147483647.0, 2147483648.0, 4294967295.0, 16777217.0, 4294967041.0};
        return c.pick(v);
    }
    }
}
static Pair gen_operand(Ctx &c, K k, const Shape &s) {
    auto p = gen_view(c, k, s, c.b() ? 2 : 12); // small range: many equal pairs
    if (c.b(1, 3)) {
        int n = c.u(1, 6);
        for (int j = 0; j < n; ++j) (*p.m.buf)[c.u(0, (int64_t)p.m.buf->size() - 1)] = gen_special(c, k);
        if (k == K::f32)
            for (auto &v : *p.m.buf) v = (float)v;
        poke(*p.base, *p.m.buf);
        c.label("special-values");
    }
    return p;
}

template <class L, class R> static ndarray apply_rel(Ctx &c, Rel r, const L &a, const R &b) {
    bool fn = c.b();
    switch (r) {
    case GT: return fn ? bland::greater_than(a, b) : bland::operator>(a, b);
    case GE: return fn ? bland::greater_than_equal_to(a, b) : bland::operator>=(a, b);
    case LT: return fn ? bland::less_than(a, b) : bland::operator<(a, b);
    case LE: return fn ? bland::less_than_equal_to(a, b) : bland::operator<=(a, b);
    default: return fn ? bland::equal_to(a, b) : bland::operator==(a, b);
    }
}
template <class L, class R> static ndarray apply_and(Ctx &c, const L &a, const R &b) {
    return c.b() ? bland::logical_and(a, b) : bland::operator&(a, b);
}

static bool compare(const std::string &key, const ndarray &r, Rel rel, const Shape &out, const std::vector<double> &a, const Shape &sa,
                    const std::vector<double> &b, const Shape &sb) {
    REQUIRE_P(key, r.shape() == out, "result shape ", shape_str(r.shape()), " expected ", shape_str(out));
    REQUIRE_P(key, r.dtype() == dt(dt::uint8), "the result is not uint8");
    Shape ix(out.size(), 0);
    bool  zero = false, one = false;
    do {
        double x = a[sa.empty() ? 0 : bindex(sa, ix)], y = b[sb.empty() ? 0 : bindex(sb, ix)];
        int    e = expected(rel, x, y);
        double g = at(r, ix);
        REQUIRE_P(key, g == e, "at ", shape_str(ix), ": ", x, " ", relname[rel], " ", y, " gave ", g, " expected ", e);
        (e ? one : zero) = true;
    } while (next(ix, out));
    return zero && one;
}

static void array_array(Ctx &c) {
    K    ka = gen_kind(c), kb = c.b(2, 3) ? ka : gen_kind(c);
    Rel  r  = (Rel)c.u(0, 5);
    auto s  = gen_broadcast(c);
    auto a = gen_operand(c, ka, s.a), b = gen_operand(c, kb, s.b);
    c.note(name(ka), shape_str(s.a), relname[r], name(kb), shape_str(s.b));
    if (r == AND && (ka == K::f32 || kb == K::f32)) {
        bool threw = false;
        try {
            apply_and(c, a.nd, b.nd);
        } catch (const std::exception &) { threw = true; }
        REQUIRE_P("and-float", threw, "bitwise and of floats was accepted");
        return;
    }
    auto res = r == AND ? apply_and(c, a.nd, b.nd) : apply_rel(c, r, a.nd, b.nd);
    bool mix = compare("array", res, r, s.out, a.m.vals(), s.a, b.m.vals(), s.b);
    expect_buffer("operand", a, "first operand");
    expect_buffer("operand", b, "second operand");
    if (s.a != s.b) c.label("broadcast");
    if (ka != kb) c.label("mixed-types");
    c.label(relname[r]);
    c.nontrivial(mix);
}

template <class T> static void scalar_T(Ctx &c, K ks) {
    K    k = gen_kind(c);
    Rel  r = (Rel)c.u(0, 5);
    bool left = c.b();
    auto s = gen_shape_any(c, 4, 11, 400);
    auto p = gen_operand(c, k, s);
    T    v = (T)(c.b(1, 4) ? gen_special(c, ks) : c.b(1, 3) && p.m.get(0) == (double)(T)p.m.get(0) ? p.m.get(0) : gen_value(c, ks, 3));
    if (ks != K::f32 && (double)v != std::trunc((double)v)) v = 1;
    c.note(name(k), shape_str(s), relname[r], name(ks), " ", (double)v, left ? " on the left" : "");
    ndarray res = p.nd;
    if (r == AND) {
        if constexpr (!std::is_same_v<T, float>) {
            if (k == K::f32) return;
            res = left ? apply_and(c, v, p.nd) : apply_and(c, p.nd, v);
        } else return;
    } else res = left ? apply_rel(c, r, v, p.nd) : apply_rel(c, r, p.nd, v);
    std::vector<double> sv{(double)v};
    bool mix = left ? compare("scalar-left", res, r, s, sv, {}, p.m.vals(), s) : compare("scalar", res, r, s, p.m.vals(), s, sv, {});
    expect_buffer("operand", p, "operand");
    c.label(left ? "left" : "right");
    c.nontrivial(mix);
}
static void scalar(Ctx &c) {
    K ks = gen_kind(c);
    if (ks == K::f32) scalar_T<float>(c, ks);
    else if (ks == K::i32) scalar_T<int32_t>(c, ks);
    else if (ks == K::u8) scalar_T<uint8_t>(c, ks);
    else scalar_T<uint32_t>(c, ks);
}

static void count(Ctx &c) {
    K    k = gen_kind(c);
    auto s = gen_shape_any(c, 4, 40, 2000);
    auto p = gen_operand(c, k, s);
    if (c.b()) // sparse, with values whose low bits are zero or that only differ in the fraction
        for (auto &v : *p.m.buf) {
            int w = (int)std::fmod(std::fabs(std::isfinite(v) ? v : 1), 4);
            v     = w == 0 ? 0 : k == K::f32 ? (w == 1 ? 0.25 : 1e-30f) : k == K::u8 ? 128 : 65536;
        }
    poke(*p.base, *p.m.buf);
    c.note(name(k), shape_str(s));
    int64_t e = 0;
    for (auto v : p.m.vals()) e += v != 0;
    int64_t g = bland::count_true(p.nd);
    REQUIRE_P("count", g == e, "count_true gave ", g, " expected ", e);
    // counting the result of a comparison counts the elements for which it holds
    double  t  = gen_value(c, K::f32, 3);
    int64_t e2 = 0;
    for (auto v : p.m.vals()) e2 += v > (float)t;
    REQUIRE_P("count", bland::count_true(p.nd > (float)t) == e2, "count_true of a comparison with ", t);
    expect_buffer("operand", p, "operand");
    c.nontrivial(e > 0 && e < numel(s));
}

static void mismatch(Ctx &c) {
    K    ka = gen_kind(c), kb = c.b() ? ka : gen_kind(c);
    Rel  r  = (Rel)c.u(0, 5);
    auto s  = gen_mismatch(c);
    auto a = gen_dense(c, ka, s.a), b = gen_dense(c, kb, s.b);
    c.note(name(ka), shape_str(s.a), relname[r], name(kb), shape_str(s.b));
    bool threw = false;
    try {
        if (r == AND) apply_and(c, a.nd, b.nd);
        else apply_rel(c, r, a.nd, b.nd);
    } catch (const std::exception &) { threw = true; }
    REQUIRE_P("mismatch", threw, "shapes were accepted");
    c.nontrivial();
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "A03";
    s.rule           = "array-array and scalar: the expected result contains both a zero and a non-zero; count: some but not all elements are non-zero; mismatch: every case";
    s.quick_cases    = 400000;
    s.thorough_cases = 8000000;
    s.assumptions    = "CPU arrays float32/int32/uint8/uint32, rank <= 4; bitwise and: the low 8 bits (the result is uint8), integers only";
    s.facets         = {{"array-array", 4, 0, array_array}, {"scalar", 4, 0, scalar}, {"count", 2, 0, count}, {"mismatch", 1, 0, mismatch}};
    return pbt::run(argc, argv, s);
}

// A05: masked statistics equal the plain statistic of the unmasked elements.
#include "red.hpp"
using namespace red;

enum Fn { MEAN, STD, VAR, MS };
static void check_nonneg(double got, const std::string &where) { REQUIRE_P("var", got >= 0, where, " gave ", got); }
static const char *fname[] = {"masked_mean", "masked_stddev", "masked_var", "masked_mean_stddev"};

static void call(Fn f, const ndarray &a, const ndarray &m, const std::vector<int64_t> &axes, Pair *o1, Pair *o2, ndarray &r, ndarray &r2) {
    if (o1) switch (f) {
        case MEAN: r = bland::masked_mean(a, m, o1->nd, axes); break;
        case STD: r = bland::masked_stddev(a, m, o1->nd, axes); break;
        case VAR: r = bland::masked_var(a, m, o1->nd, axes); break;
        default: std::tie(r, r2) = bland::masked_mean_stddev(a, m, o1->nd, o2->nd, axes);
        }
    else switch (f) {
        case MEAN: r = bland::masked_mean(a, m, axes); break;
        case STD: r = bland::masked_stddev(a, m, axes); break;
        case VAR: r = bland::masked_var(a, m, axes); break;
        default: std::tie(r, r2) = bland::masked_mean_stddev(a, m, axes);
        }
}

static void masked(Ctx &c) {
    Fn   f = (Fn)c.u(0, 3);
    auto s = gen_shape(c, 4, c.b(1, 4) ? 40 : 9, 1200);
    auto p = gen_view(c, K::f32, s);
    if (c.b()) realify(c, p);
    auto m = gen_view(c, K::u8, s, 255);
    auto axes = gen_axes(c, s.size());
    auto g    = groups(s, axes);
    int  density = c.u(0, 4); // 0: nothing masked
    {
        pbt::Noise r(c.seed());
        for (auto &x : *m.m.buf) x = r.uni() * 4 < density * 0.9 ? (double)r.range(1, 255) : 0;
        if (density && c.b(1, 3)) // single-bit flags
            for (auto &x : *m.m.buf)
                if (x) x = (double)(1 << ((int)x % 8));
        // usually leave something unmasked in every group
        if (c.b(4, 5))
            for (auto &it : g.items) {
                bool any = false;
                for (auto k : it) any = any || m.m.get(k) == 0;
                if (!any) (*m.m.buf)[m.m.cell[it[(size_t)r.range(0, it.size() - 1)]]] = 0;
            }
        poke(*m.base, *m.m.buf);
    }
    // garbage under the mask
    int garbage = c.u(0, 3);
    for (size_t k = 0; k < p.m.cell.size(); ++k)
        if (m.m.get(k) != 0 && garbage) (*p.m.buf)[p.m.cell[k]] = garbage == 1 ? NAN : garbage == 2 ? (double)3e37f : -INFINITY;
    poke(*p.base, *p.m.buf);
    bool has_out = c.b(1, 3);
    c.note(fname[f], shape_str(s), " axes ", pbt::str(axes), " mask density ", density, " garbage ", garbage, has_out ? " with out" : "");
    Pair o1, o2;
    if (has_out) o1 = gen_view(c, K::f32, g.out), o2 = gen_view(c, K::f32, g.out);
    std::vector<std::vector<double>> x(g.items.size());
    bool empty = false;
    size_t nmasked = 0;
    for (size_t n = 0; n < x.size(); ++n) {
        for (auto k : g.items[n])
            if (m.m.get(k) == 0) x[n].push_back(p.m.get(k));
            else ++nmasked;
        empty = empty || x[n].empty();
    }
    ndarray r = p.nd, r2 = p.nd;
    bool    threw = false;
    try {
        call(f, p.nd, m.nd, axes, has_out ? &o1 : nullptr, has_out ? &o2 : nullptr, r, r2);
    } catch (const std::exception &) { threw = true; }
    REQUIRE_P("all-masked", threw == empty, empty ? "a result with no unmasked element was given as a number" : "rejected although every result has an unmasked element");
    expect_buffer("operand", p, "data");
    expect_buffer("operand", m, "mask");
    if (empty) {
        c.label("all-masked");
        c.nontrivial(numel(s) > 1);
        return;
    }
    REQUIRE_P("shape", r.shape() == g.out, "result shape ", shape_str(r.shape()), " expected ", shape_str(g.out));
    Shape  ix(g.out.size(), 0);
    size_t n = 0;
    do {
        auto        st    = stat(x[n]);
        double      got   = at(r, ix);
        std::string where = std::string(fname[f]) + " at " + shape_str(ix);
        if (f == MEAN || f == MS) check_mean("mean", got, st, where);
        if (f == STD) check_nonneg(got, where), check_var("var", got * got, st, where);
        if (f == VAR) check_var("var", got, st, where);
        if (f == MS) {
            double d = at(r2, ix);
            REQUIRE_P("var", d >= 0, where, " gave deviation ", d);
            check_var("var", d * d, st, where);
        }
        if (has_out) {
            (*o1.m.buf)[o1.m.cell[n]] = got;
            REQUIRE_P("out", at(o1.nd, ix) == got, "the output array differs from the returned one");
            if (f == MS) (*o2.m.buf)[o2.m.cell[n]] = at(r2, ix);
        }
        ++n;
    } while (next(ix, g.out));
    if (has_out) {
        expect_buffer("out-buffer", o1, "output buffer");
        expect_buffer("out-buffer", o2, "second output buffer");
    }
    if (nmasked == 0) { // an all-zero mask gives the unmasked statistic
        ndarray q = f == MEAN || f == MS ? bland::mean(p.nd, axes) : f == STD ? bland::stddev(p.nd, axes) : bland::var(p.nd, axes);
        auto    a = values(r), b = values(q);
        for (size_t k = 0; k < a.size(); ++k)
            REQUIRE_P("zero-mask", std::fabs(a[k] - b[k]) <= 2e-3 * std::fabs(b[k]) + 1e-5 * (std::fabs(stat(x[k]).meansq) + 1), "with an all-zero mask ", a[k], ", unmasked ", b[k]);
    }
    bool partial = !axes.empty() && axes.size() < s.size();
    if (partial) c.label("partial");
    c.label(fname[f]);
    c.nontrivial(nmasked > 0 && numel(s) > 3);
}

static void rejected(Ctx &c) {
    Fn   f = (Fn)c.u(0, 3);
    auto s = gen_shape(c, 3, 8, 200);
    auto p = gen_view(c, K::f32, s);
    auto ms = s;
    K    k = K::u8;
    int  how = c.u(0, 2);
    if (how == 0) ms[c.u(0, s.size() - 1)] += c.u(1, 3);
    else if (how == 1) ms.insert(ms.begin() + c.u(0, ms.size()), 1);
    else k = c.b() ? K::i32 : K::u32;
    auto m = gen_dense(c, k, ms, 0);
    auto axes = gen_axes(c, s.size());
    c.note(fname[f], shape_str(s), " mask ", name(k), shape_str(ms));
    bool threw = false;
    ndarray r = p.nd, r2 = p.nd;
    try {
        call(f, p.nd, m.nd, axes, nullptr, nullptr, r, r2);
    } catch (const std::exception &) { threw = true; }
    REQUIRE_P("bad-mask", threw, "a mask of another shape or type was accepted");
    expect_buffer("operand", p, "data");
    c.nontrivial();
}

static void refuse(Ctx &c) { // axes the array does not have, and masks or output arrays of another shape
    auto s = gen_shape(c, 4, 9, 400);
    auto how = c.u(0, 2);
    auto axes = how == 0 ? gen_bad_axes(c, s.size()) : gen_axes(c, s.size());
    auto p = gen_view(c, K::f32, s);
    auto m = gen_view(c, K::u8, how == 1 ? other_shape(c, s) : s, 1);
    auto f = c.u(0, 3);
    bool has_out = how == 2 || c.b();
    auto o = how == 2 ? other_shape(c, groups(s, axes).out) : how == 1 ? groups(s, axes).out : gen_shape(c, 4, 5, 100);
    c.note("function ", f, " ", shape_str(s), " mask ", shape_str(m.m.shape), " axes ", pbt::str(axes), has_out ? " to " + shape_str(o) : "");
    auto o1 = gen_view(c, K::f32, o), o2 = gen_view(c, K::f32, o);
    refused(how == 0 ? "axes" : how == 1 ? "mask-shape" : "out-shape", "masked statistic", [&] {
        switch (f) {
        case 0: has_out ? bland::masked_mean(p.nd, m.nd, o1.nd, axes) : bland::masked_mean(p.nd, m.nd, axes); break;
        case 1: has_out ? bland::masked_stddev(p.nd, m.nd, o1.nd, axes) : bland::masked_stddev(p.nd, m.nd, axes); break;
        case 2: has_out ? bland::masked_var(p.nd, m.nd, o1.nd, axes) : bland::masked_var(p.nd, m.nd, axes); break;
        default: has_out ? bland::masked_mean_stddev(p.nd, m.nd, o1.nd, o2.nd, axes) : bland::masked_mean_stddev(p.nd, m.nd, axes);
        }
    });
    expect_buffer("out-buffer", o1, "output buffer");
    expect_buffer("operand", p, "data");
    c.label(how == 0 ? "bad axes" : how == 1 ? "bad mask" : "bad out");
    c.nontrivial();
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "A05";
    s.rule           = "masked: at least one masked element and more than 3 elements, or a fully masked group; rejected and refuse: every case";
    s.quick_cases    = 200000;
    s.thorough_cases = 5000000;
    s.assumptions    = "float32 data, finite where unmasked and NaN/huge/infinite under the mask; uint8 masks; rank <= 4, <= 1200 elements; tolerances as in A04";
    s.facets         = {{"masked", 9, 0, masked}, {"rejected", 2, 0, rejected}, {"refuse", 1, 0, refuse}};
    return pbt::run(argc, argv, s);
}

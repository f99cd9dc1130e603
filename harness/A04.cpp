// A04: reductions over any axes against their definitions in extended precision.
#include "red.hpp"
using namespace red;

static std::vector<double> pickv(const std::vector<double> &v, const std::vector<size_t> &ix) {
    std::vector<double> r;
    for (auto k : ix) r.push_back(v[k]);
    return r;
}

enum Fn { SUM, MAX, MEAN, STD, VAR, MS, MOM };
static const char *fname[] = {"sum", "max", "mean", "stddev", "var", "mean_stddev", "standardized_moment"};

static void reduce(Ctx &c) {
    Fn   f = (Fn)c.u(0, 6);
    K    k = (f == SUM || f == MAX) ? gen_kind(c) : K::f32;
    auto s = gen_shape(c, 4, c.b(1, 4) ? 40 : 9, 1500);
    auto p = gen_view(c, k, s, k == K::u8 ? 3 : 12);
    if (k == K::f32 && c.b()) realify(c, p), c.label("real-valued");
    auto axes = gen_axes(c, s.size());
    auto g    = groups(s, axes);
    auto v    = p.m.vals();
    int  deg  = f == MOM ? c.u(1, 4) : 0;
    bool has_out = c.b(1, 3);
    c.note(fname[f], deg ? std::to_string(deg) : "", " ", name(k), shape_str(s), " axes ", pbt::str(axes), has_out ? " with out" : "");
    Pair o1, o2;
    if (has_out) o1 = gen_view(c, k, g.out), o2 = gen_view(c, k, g.out);
    ndarray r = p.nd, r2 = p.nd;
    if (has_out) switch (f) {
        case SUM: r = bland::sum(p.nd, o1.nd, axes); break;
        case MAX: r = bland::max(p.nd, o1.nd, axes); break;
        case MEAN: r = bland::mean(p.nd, o1.nd, axes); break;
        case STD: r = bland::stddev(p.nd, o1.nd, axes); break;
        case VAR: r = bland::var(p.nd, o1.nd, axes); break;
        case MS: std::tie(r, r2) = bland::mean_stddev(p.nd, o1.nd, o2.nd, axes); break;
        default: r = bland::standardized_moment(p.nd, deg, o1.nd, axes);
        }
    else switch (f) {
        case SUM: r = bland::sum(p.nd, axes); break;
        case MAX: r = bland::max(p.nd, axes); break;
        case MEAN: r = bland::mean(p.nd, axes); break;
        case STD: r = bland::stddev(p.nd, axes); break;
        case VAR: r = bland::var(p.nd, axes); break;
        case MS: std::tie(r, r2) = bland::mean_stddev(p.nd, axes); break;
        default: r = bland::standardized_moment(p.nd, deg, axes);
        }
    REQUIRE_P("shape", r.shape() == g.out, "result shape ", shape_str(r.shape()), " expected ", shape_str(g.out));
    if (f == MS) REQUIRE_P("shape", r2.shape() == g.out, "deviation shape ", shape_str(r2.shape()), " expected ", shape_str(g.out));
    Shape ix(g.out.size(), 0);
    size_t n = 0;
    do {
        auto        x = pickv(v, g.items[n]);
        auto        st = stat(x);
        double      got = at(r, ix);
        std::string where = std::string(fname[f]) + " at " + shape_str(ix);
        switch (f) {
        case SUM: {
            double e = 0;
            for (auto y : x) e += y;
            double tol = k == K::f32 ? 1.2e-7 * x.size() * st.sumabs : 0;
            if (k == K::u8) e = (double)(uint8_t)(int64_t)e;
            if (tol > 0 && std::all_of(x.begin(), x.end(), [](double y) { return std::fabs(y) < 4096 && y * 4 == std::trunc(y * 4); })) tol = 0;
            REQUIRE_P("sum", std::fabs(got - e) <= tol, where, " gave ", got, " expected ", e, " over ", x.size(), " elements");
        } break;
        case MAX: {
            double e = *std::max_element(x.begin(), x.end());
            REQUIRE_P("max", got == e, where, " gave ", got, " expected ", e);
        } break;
        case MEAN: check_mean("mean", got, st, where); break;
        case STD: REQUIRE_P("var", got >= 0, where, " gave ", got); check_var("var", got * got, st, where); break;
        case VAR: check_var("var", got, st, where); break;
        case MS:
            check_mean("mean", got, st, where);
            REQUIRE_P("var", at(r2, ix) >= 0, where, " gave deviation ", at(r2, ix));
            check_var("var", at(r2, ix) * at(r2, ix), st, where);
            break;
        default: {
            if (x.size() < 2 || st.var < 0.01 || st.var < 1e-4 * st.mean * st.mean) break; // ill-conditioned
            long double m = 0, a1 = 0, s2 = 0, ak = 0;
            for (auto y : x) {
                long double d = y - st.mean;
                m += std::pow((double)d, deg), ak += std::pow((double)std::fabs(d), deg - 1), s2 += d * d, a1 += std::fabs((double)d);
            }
            double N1 = x.size() - 1;
            m /= N1, s2 /= N1, ak /= N1, a1 /= N1;
            double den = std::pow((double)s2, deg / 2.0);
            double e   = (double)m / den;
            double err = 2.5e-7 * (std::fabs(st.mean) + std::sqrt((double)s2) * 4);
            double tol = 2 * deg * (double)ak * err / den + std::fabs(e) * (1e-6 + 2e-8 / den + deg * (double)a1 * err / (double)s2) + 1e-9;
            REQUIRE_P("moment", std::fabs(got - e) <= tol, where, " gave ", got, " expected ", e, " (tolerance ", tol, ")");
        }
        }
        if (has_out) {
            (*o1.m.buf)[o1.m.cell[n]] = got;
            REQUIRE_P("out", at(o1.nd, ix) == got || got != got, "the output array differs from the returned one");
            if (f == MS) {
                (*o2.m.buf)[o2.m.cell[n]] = at(r2, ix);
                REQUIRE_P("out", at(o2.nd, ix) == at(r2, ix), "the deviation output array differs from the returned one");
            }
        }
        ++n;
    } while (next(ix, g.out));
    if (has_out) {
        expect_buffer("out-buffer", o1, "output buffer");
        expect_buffer("out-buffer", o2, "second output buffer");
    }
    expect_buffer("operand", p, "operand");
    bool partial = !axes.empty() && axes.size() < s.size();
    if (partial) c.label("partial");
    c.label(fname[f]);
    c.nontrivial(numel(s) > 3 && (partial || p.m.buf->size() > p.m.cell.size()) && numel(s) > numel(g.out));
}

static void layout(Ctx &c) { // all axes listed == none listed; layout does not matter
    auto s = gen_shape(c, 4, 12, 600);
    auto p = gen_view(c, K::f32, s);
    realify(c, p);
    auto axes = gen_axes(c, s.size());
    c.note(shape_str(s), " axes ", pbt::str(axes));
    auto dense = bland::copy(p.nd);
    auto same  = [&](const ndarray &a, const ndarray &b, const char *what) {
        REQUIRE_P("layout", a.shape() == b.shape(), what, ": shapes ", shape_str(a.shape()), shape_str(b.shape()));
        auto x = values(a), y = values(b);
        for (size_t k = 0; k < x.size(); ++k) REQUIRE_P("layout", x[k] == y[k] || (x[k] != x[k] && y[k] != y[k]), what, ": ", x[k], " and ", y[k]);
    };
    same(bland::sum(p.nd, axes), bland::sum(dense, axes), "sum of a view and of its copy");
    same(bland::max(p.nd, axes), bland::max(dense, axes), "max of a view and of its copy");
    same(bland::mean(p.nd, axes), bland::mean(dense, axes), "mean of a view and of its copy");
    same(bland::stddev(p.nd, axes), bland::stddev(dense, axes), "stddev of a view and of its copy");
    std::vector<int64_t> all;
    for (size_t d = 0; d < s.size(); ++d) all.push_back(d);
    same(bland::sum(p.nd, all), bland::sum(p.nd), "sum over all axes and over none");
    same(bland::mean(p.nd, all), bland::mean(p.nd), "mean over all axes and over none");
    same(bland::max(p.nd, all), bland::max(p.nd), "max over all axes and over none");
    same(bland::stddev(p.nd, all), bland::stddev(p.nd), "stddev over all axes and over none");
    // median: exact for both parities
    auto v = p.m.vals();
    std::sort(v.begin(), v.end());
    size_t n = v.size();
    double e = n % 2 ? v[n / 2] : (double)(((float)v[n / 2] + (float)v[n / 2 - 1]) / 2);
    double g = bland::median(p.nd);
    REQUIRE_P("median", std::fabs(g - e) <= 2e-7 * std::fabs(e), "median of ", n, " elements gave ", g, " expected ", e);
    expect_buffer("operand", p, "operand");
    c.label(n % 2 ? "odd" : "even");
    c.nontrivial(n > 2 && p.m.buf->size() > n);
}

static void refuse(Ctx &c) { // what cannot be reduced is refused, and nothing is written
    auto s = gen_shape(c, 4, 9, 400);
    auto p = gen_view(c, K::f32, s);
    auto f = (Fn)c.u(0, 6);
    auto how = c.u(0, 2);
    auto axes = how < 2 ? gen_bad_axes(c, s.size()) : gen_axes(c, s.size());
    auto o = how == 0 ? Shape{} : how == 1 ? gen_shape(c, 4, 5, 100) : other_shape(c, groups(s, axes).out);
    c.note(fname[f], " ", shape_str(s), " axes ", pbt::str(axes), how ? " to " + shape_str(o) : "");
    if (!how) refused("axes", fname[f], [&] {
        switch (f) {
        case SUM: bland::sum(p.nd, axes); break;
        case MAX: bland::max(p.nd, axes); break;
        case MEAN: bland::mean(p.nd, axes); break;
        case STD: bland::stddev(p.nd, axes); break;
        case VAR: bland::var(p.nd, axes); break;
        case MS: bland::mean_stddev(p.nd, axes); break;
        default: bland::standardized_moment(p.nd, 2, axes);
        }
    });
    else {
        auto o1 = gen_view(c, K::f32, o);
        refused(how == 1 ? "axes" : "out-shape", fname[f], [&] {
            switch (f) {
            case SUM: bland::sum(p.nd, o1.nd, axes); break;
            case MAX: bland::max(p.nd, o1.nd, axes); break;
            case MEAN: bland::mean(p.nd, o1.nd, axes); break;
            case STD: bland::stddev(p.nd, o1.nd, axes); break;
            case VAR: bland::var(p.nd, o1.nd, axes); break;
            case MS: bland::mean_stddev(p.nd, o1.nd, o1.nd, axes); break;
            default: bland::standardized_moment(p.nd, 2, o1.nd, axes);
            }
        });
        expect_buffer("out-buffer", o1, "output buffer");
    }
    if (f == MAX) {
        refused("axes", "median", [&] { bland::median(p.nd, gen_bad_axes(c, s.size())); });
        auto some = gen_axes(c, s.size());
        if (!some.empty() && some.size() < s.size()) refused("axes", "a median over some axes", [&] { bland::median(p.nd, some); });
        refused("empty", "the median of nothing", [&] { bland::median(ndarray({c.u(0, 3), 0}, bland::ndarray::datatype::float32)); });
    }
    expect_buffer("operand", p, "operand");
    c.label(how == 0 ? "bad axes" : how == 1 ? "bad axes with out" : "bad out");
    c.nontrivial();
}

static void median(Ctx &c) { // of any element type
    auto k = gen_kind(c);
    auto s = gen_shape(c, 4, 9, 400);
    auto p = gen_view(c, k, s, k == K::u8 ? 250 : 100000);
    auto v = p.m.vals();
    std::sort(v.begin(), v.end());
    size_t n = v.size();
    std::vector<int64_t> all;
    if (c.b()) for (size_t d = 0; d < s.size(); ++d) all.push_back(d);
    c.note(name(k), shape_str(s), " axes ", pbt::str(all));
    double e = n % 2 ? v[n / 2] : (v[n / 2] + v[n / 2 - 1]) / 2, g = bland::median(p.nd, all);
    REQUIRE_P("median", std::fabs(g - e) <= 2e-7 * std::max(std::fabs(v[n / 2]), std::fabs(v[(n - 1) / 2])), "median of ", n, " ", name(k), " elements gave ", g, " expected ", e);
    expect_buffer("operand", p, "operand");
    c.label(name(k));
    c.nontrivial(n > 2);
}

static void mixed(Ctx &c) { // into an output array of another element type than the input's
    Fn   f  = (Fn)c.u(0, 4);
    K    k  = gen_kind(c), ko = K::f32;
    bool to_int = f == SUM && c.b();
    if (to_int) k = (K)c.u(1, 3), ko = c.b() ? K::i32 : K::u32; // whole numbers stay whole numbers
    else if (k == K::f32) k = K::u8;
    auto s = gen_shape(c, 3, 9, 400);
    auto p = gen_view(c, k, s, k == K::u8 ? 250 : 100000);
    auto axes = gen_axes(c, s.size());
    auto g    = groups(s, axes);
    auto v    = p.m.vals();
    auto o    = gen_view(c, ko, g.out);
    c.note(fname[f], " ", name(k), shape_str(s), " axes ", pbt::str(axes), " to ", name(ko));
    ndarray r = o.nd;
    bool    threw = false;
    try {
        switch (f) {
        case SUM: r = bland::sum(p.nd, o.nd, axes); break;
        case MAX: r = bland::max(p.nd, o.nd, axes); break;
        case MEAN: r = bland::mean(p.nd, o.nd, axes); break;
        case STD: r = bland::stddev(p.nd, o.nd, axes); break;
        default: r = bland::var(p.nd, o.nd, axes);
        }
    } catch (const std::exception &) { threw = true; }
    if (!threw) {
        REQUIRE_P("mixed-shape", r.shape() == g.out && r.dtype() == dtype_of(ko), "result of shape ", shape_str(r.shape()));
        Shape  ix(g.out.size(), 0);
        size_t n = 0;
        do {
            auto        x = pickv(v, g.items[n]);
            auto        st = stat(x);
            double      got = at(r, ix), e = 0;
            std::string where = std::string(fname[f]) + " of " + name(k) + " at " + shape_str(ix);
            for (auto y : x) e += y;
            if (f == SUM) REQUIRE_P("mixed-sum", ko == K::u32 && e < 0 ? true : std::fabs(got - e) <= (to_int ? 0 : 1.2e-7 * st.sumabs), where, " gave ", got, " expected ", e);
            if (f == MAX) REQUIRE_P("mixed-max", got == *std::max_element(x.begin(), x.end()), where, " gave ", got);
            if (f == MEAN) check_mean("mixed-mean", got, st, where);
            if (f == STD) REQUIRE_P("mixed-var", got >= 0, where, " gave ", got);
            if (f == STD) check_var("mixed-var", got * got, st, where);
            if (f == VAR) check_var("mixed-var", got, st, where);
            (*o.m.buf)[o.m.cell[n]] = got;
            REQUIRE_P("mixed-out", at(o.nd, ix) == got || got != got, "the output array differs from the returned one");
            ++n;
        } while (next(ix, g.out));
    } else REQUIRE_P("mixed-refused", f != SUM && f != MEAN && f != STD, fname[f], " of ", name(k), " into ", name(ko), " was refused");
    expect_buffer("out-buffer", o, "output buffer");
    expect_buffer("operand", p, "operand");
    c.label(fname[f]);
    c.nontrivial(!threw && numel(s) > numel(g.out));
}

// more elements than a float counts (one period of them in memory)
static void many(Ctx &c) {
    bool    big = c.b(1, 1500);
    int64_t period = c.i(1, 64), rows = (big ? (int64_t{1} << 24) / period : 20) + c.i(1, 1000);
    std::vector<float> mem(period);
    for (auto &x : mem) x = 1 + c.u(0, 12) / 4.0f;
    Shape           shape{rows, period}, strides{0, 1};
    DLManagedTensor t{};
    t.dl_tensor.data    = mem.data();
    t.dl_tensor.device  = DLDevice{kDLCPU, 0};
    t.dl_tensor.ndim    = 2;
    t.dl_tensor.dtype   = dtype_of(K::f32);
    t.dl_tensor.shape   = shape.data();
    t.dl_tensor.strides = strides.data();
    ndarray a(t);
    double  sum = 0, sq = 0;
    for (auto x : mem) sum += x, sq += (double)x * x;
    double mean = sum / period, var = std::max(0.0, sq / period - mean * mean), n = (double)rows * period;
    int    f = c.u(0, 4);
    c.note(rows, "x", period, " elements, function ", f);
    auto near = [&](double got, double e, const char *what) {
        REQUIRE_P("many", std::fabs(got - e) <= 1e-6 * std::fabs(e) + 1e-5, what, " of ", n, " elements gave ", got, " expected ", e);
    };
    if (f == 0) near(at(bland::sum(a), {0}), sum * rows, "sum");
    if (f == 1) near(at(bland::mean(a), {0}), mean, "mean");
    if (f == 2) near(at(bland::stddev(a), {0}), std::sqrt(var), "stddev");
    if (f == 3) {
        auto r = bland::mean_stddev(a);
        near(at(r.first, {0}), mean, "mean_stddev"), near(at(r.second, {0}), std::sqrt(var), "mean_stddev");
    }
    if (f == 4) {
        auto r = bland::sum(a, {0});
        for (int64_t k = 0; k < period; ++k) near(at(r, {k}), (double)mem[k] * rows, "sum over the first axis");
    }
    if (big) c.label("more than 2^24");
    c.nontrivial();
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "A04";
    s.rule           = "reduce: more than 3 elements, something is reduced, and (a proper subset of the axes or a partial view); layout: more than 2 elements of a partial view; refuse: every case; median: more than 2 elements";
    s.quick_cases    = 200000;
    s.thorough_cases = 5000000;
    s.assumptions    = "finite float32 data (sum and max also int32/uint8/uint32); rank <= 4, <= 1500 elements; tolerances: float sum n*2^-23*sum|x| (exact for quarter-integers), mean 3e-7, variance 1e-6 + 1e-14 n E[x^2], moments by first-order error propagation where the variance is not negligible";
    s.facets         = {{"reduce", 8, 0, reduce}, {"layout", 2, 0, layout}, {"refuse", 1, 0, refuse}, {"median", 1, 0, median}, {"mixed", 1, 0, mixed}, {"many", 1, 0, many}};
    return pbt::run(argc, argv, s);
}

// A07: deferred arrays against a model of their evaluation mode.
#include "arr.hpp"
#include <bland/ndarray_deferred.hpp>
using namespace arr;
using bland::ndarray_deferred;
using pol = ndarray_deferred::eval_policy;

// The producer's current output and the number of times it was asked
struct Source {
    int                 calls = 0;
    double              value = 0;
    Shape               shape;
    K                   kind;
    bool                fails = false;
};
// what a deferred array is: empty, a value, or a producer with a policy; memoized values are shared by copies
struct Cell {
    int                     state = 0; // 0 empty, 1 value, 2 producer
    double                  value = 0;
    Shape                   shape;
    K                       kind = K::f32;
    std::shared_ptr<Source> src;
};
struct Model {
    std::shared_ptr<Cell> cell;
    pol                   policy;
};
struct Slot {
    ndarray_deferred d;
    Model            m;
};

static ndarray constant(const Shape &s, K k, double v) {
    ndarray a(s, dtype_of(k));
    bland::fill(a, (int32_t)v);
    return a;
}

static void history(Ctx &c) {
    std::vector<std::shared_ptr<Source>> srcs;
    std::vector<Slot>                    slots;
    int                                  n = c.i(2, 24);
    double                               stamp = 1;
    int  uses = 0, copies = 0;
    bool memo_reuse = false;
    auto check_read = [&](Slot &s) {
        auto cell = s.m.cell;
        std::vector<int> before;
        for (auto &x : srcs) before.push_back(x->calls);
        ndarray got;
        bool    threw = false;
        try {
            got = s.d;
        } catch (const std::exception &) { threw = true; }
        ++uses;
        if (cell->state == 0) {
            REQUIRE_P("empty", threw, "an empty deferred array gave an array");
            return;
        }
        double want = cell->value;
        Shape  ws   = cell->shape;
        K      wk   = cell->kind;
        int    asked = 0;
        if (cell->state == 2) {
            asked = 1;
            want = cell->src->value, ws = cell->src->shape, wk = cell->src->kind;
            if (cell->src->fails) {
                REQUIRE_P("failing", threw, "the producer failed but an array came back");
            } else if (s.m.policy == pol::memoize) {
                cell->state = 1, cell->value = want, cell->shape = ws, cell->kind = wk;
            }
        } else memo_reuse = memo_reuse || cell->src != nullptr;
        for (size_t k = 0; k < srcs.size(); ++k) {
            int e = before[k] + (cell->src == srcs[k] && asked ? 1 : 0);
            REQUIRE_P("calls", srcs[k]->calls == e, "producer ", k, " has run ", srcs[k]->calls, " times, expected ", e);
        }
        if (threw) {
            REQUIRE_P("failing", asked && cell->src->fails, "reading threw");
            return;
        }
        REQUIRE_P("value", got.shape() == ws, "shape ", shape_str(got.shape()), " expected ", shape_str(ws));
        REQUIRE_P("value", got.dtype() == dt(dtype_of(wk)), "element type");
        for (auto v : values(got)) REQUIRE_P("value", v == want, "element ", v, " expected ", want);
    };
    for (int step = 0; step < n; ++step) {
        int op = slots.empty() ? c.u(0, 1) : c.u(0, 8);
        if (op == 0) { // from a producer
            auto s   = std::make_shared<Source>();
            s->shape = gen_shape(c, 3, 4, 30), s->kind = gen_kind(c), s->value = stamp++;
            int  pk  = c.u(0, 3);
            srcs.push_back(s);
            auto fn = [s]() {
                ++s->calls;
                if (s->fails) throw std::runtime_error("producer failed");
                return constant(s->shape, s->kind, s->value);
            };
            Slot x;
            x.m.cell      = std::make_shared<Cell>();
            x.m.cell->src = s;
            x.m.policy    = pk == 0 ? pol::memoize : pk == 1 ? pol::eager : pol::lazy;
            x.d           = pk == 3 ? ndarray_deferred(fn) : ndarray_deferred(fn, x.m.policy);
            if (pk == 1) {
                REQUIRE_P("calls", s->calls == 1, "eager construction ran its producer ", s->calls, " times");
                x.m.cell->state = 1, x.m.cell->value = s->value, x.m.cell->shape = s->shape, x.m.cell->kind = s->kind;
            } else {
                REQUIRE_P("calls", s->calls == 0, "the producer ran before it was needed");
                x.m.cell->state = 2;
            }
            slots.push_back(x);
            c.note(pk == 0 ? "memoize" : pk == 1 ? "eager" : pk == 2 ? "lazy" : "default");
        } else if (op == 1) { // from an array, or empty
            Slot x;
            x.m.cell   = std::make_shared<Cell>();
            x.m.policy = pol::memoize;
            if (c.b(4, 5)) {
                x.m.cell->state = 1, x.m.cell->value = stamp++, x.m.cell->shape = gen_shape(c, 3, 4, 30), x.m.cell->kind = gen_kind(c);
                x.d = ndarray_deferred(constant(x.m.cell->shape, x.m.cell->kind, x.m.cell->value));
                c.note("array");
            } else c.note("empty");
            slots.push_back(x);
        } else if (op <= 4) {
            int i = c.u(0, (int64_t)slots.size() - 1);
            c.note("read ", i);
            check_read(slots[i]);
        } else if (op == 5) { // copy
            int i = c.u(0, (int64_t)slots.size() - 1);
            c.note("copy ", i);
            slots.push_back(slots[i]);
            ++copies;
        } else if (op == 6) { // assign over another, by copy or from an array
            int i = c.u(0, (int64_t)slots.size() - 1), j = c.u(0, (int64_t)slots.size() - 1);
            if (c.b()) {
                c.note(i, "=", j);
                slots[i] = slots[j];
                ++copies;
            } else {
                c.note(i, "=array");
                slots[i].m.cell   = std::make_shared<Cell>();
                slots[i].m.policy = pol::memoize;
                auto &m           = *slots[i].m.cell;
                m.state = 1, m.value = stamp++, m.shape = gen_shape(c, 3, 4, 30), m.kind = gen_kind(c);
                slots[i].d = constant(m.shape, m.kind, m.value);
            }
        } else if (op == 7 && !srcs.empty()) { // the producer's output changes, or it starts/stops failing
            auto &s = c.pick(srcs);
            if (c.b(1, 4)) s->fails = !s->fails;
            else s->value = stamp++, s->shape = gen_shape(c, 3, 4, 30);
            c.note("producer changes");
        } else if (op == 8) {
            int i = c.u(0, (int64_t)slots.size() - 1);
            auto &s = slots[i];
            std::vector<int> before;
            for (auto &x : srcs) before.push_back(x->calls);
            if (c.b()) {
                s.d.repr(); // only looks
                c.note("repr ", i);
            } else {
                // asking for the device it is on anyway changes neither the value nor when it is made
                if (s.m.cell->state == 0) continue;
                if (c.b()) s.d.to("cpu");
                else s.d.to(bland::ndarray::dev("cpu"));
                c.note("to cpu ", i);
                if (s.m.cell->state == 1) {} // same value, possibly no longer shared: values never change, so this is not visible
            }
            for (size_t k = 0; k < srcs.size(); ++k) REQUIRE_P("calls", srcs[k]->calls == before[k], "looking at a deferred array ran its producer");
        }
    }
    for (size_t k = 0; k < slots.size(); ++k) {
        c.note("final ", k);
        check_read(slots[k]);
    }
    if (memo_reuse) c.label("memoized-value-reused");
    if (copies) c.label("copies");
    c.nontrivial(uses >= 3 && (memo_reuse || copies));
}

int main(int argc, char **argv) {
    pbt::Suite s;
    s.property        = "A07";
    s.rule            = "history with at least 3 reads and at least one copy or one re-read of a kept value";
    s.quick_cases     = 300000;
    s.thorough_cases  = 4000000;
    s.assumptions     = "single thread, CPU device; copies of a memoizing array may share what was kept";
    s.facets          = {{"history", 1, 0, history}};
    return pbt::run(argc, argv, s);
}

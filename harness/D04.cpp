// D04: connected components.
#include "pl.hpp"
using namespace plg;

// connected components of the cells of `in`, as a label per cell (-1: not in)
static std::vector<int> components(int64_t R, int64_t F, const std::vector<char> &in, const std::vector<std::pair<int, int>> &nb) {
    std::vector<int> lab(R * F, -1);
    int              next = 0;
    for (int64_t n = 0; n < R * F; ++n) {
        if (!in[n] || lab[n] >= 0) continue;
        std::vector<int64_t> todo{n};
        lab[n] = next;
        while (!todo.empty()) {
            int64_t k = todo.back();
            todo.pop_back();
            for (auto &o : nb) {
                int64_t r = k / F + o.first, f = k % F + o.second;
                if (r < 0 || r >= R || f < 0 || f >= F || !in[r * F + f] || lab[r * F + f] >= 0) continue;
                lab[r * F + f] = next;
                todo.push_back(r * F + f);
            }
        }
        ++next;
    }
    return lab;
}
static std::map<int, std::set<int64_t>> by_label(const std::vector<int> &lab) {
    std::map<int, std::set<int64_t>> m;
    for (size_t n = 0; n < lab.size(); ++n)
        if (lab[n] >= 0) m[lab[n]].insert((int64_t)n);
    return m;
}
// every reported region is a component, and each component is reported once
static void match(Ctx &, std::vector<protohit> &got, std::map<int, std::set<int64_t>> want, const std::vector<int> &lab, int64_t F, const std::function<void(protohit &, const std::set<int64_t> &, const std::string &)> &each) {
    size_t n = 0;
    for (auto &h : got) {
        std::string w = "region " + std::to_string(n++);
        REQUIRE_P("empty-region", !h.locations.empty(), w, " has no cells");
        std::set<int64_t> cells;
        for (auto &l : h.locations) {
            REQUIRE_P("inside", l.drift_index >= 0 && l.frequency_channel >= 0 && l.frequency_channel < F && l.drift_index * F + l.frequency_channel < (int64_t)lab.size(), w, " has cell (", l.drift_index, ",", l.frequency_channel, ")");
            REQUIRE_P("cell-once", cells.insert(l.drift_index * F + l.frequency_channel).second, w, " has cell (", l.drift_index, ",", l.frequency_channel, ") twice");
        }
        int  k = lab[*cells.begin()];
        auto e = want.find(k);
        REQUIRE_P("region", e != want.end(), w, " at ", at(*cells.begin(), F), " is not a region above the threshold, or was reported before");
        REQUIRE_P("region-cells", cells == e->second, w, " has ", cells.size(), " cells, expected ", e->second.size(), ", first ", at(*cells.begin(), F), " expected ", at(*e->second.begin(), F));
        each(h, cells, w);
        want.erase(e);
    }
    REQUIRE_P("missed", want.empty(), want.size(), " regions are not reported, one at ", at(*want.begin()->second.begin(), F));
}
static void regions(Ctx &c) {
    auto p = gen_plane(c, false);
    std::vector<char> in(p.snr.size());
    for (size_t n = 0; n < in.size(); ++n) in[n] = p.snr[n] > p.thr / 2;
    std::vector<std::pair<int, int>> nb;
    for (int a = -p.dist; a <= p.dist; ++a)
        for (int b = -p.dist; b <= p.dist; ++b)
            if (std::abs(a) + std::abs(b) <= p.dist) nb.push_back({a, b});
    auto lab  = components(p.R, p.F, in, nb);
    auto want = by_label(lab);
    size_t all = want.size();
    for (auto i = want.begin(); i != want.end();) {
        bool above = false;
        for (auto n : i->second) above = above || p.snr[n] > p.thr;
        i = above ? std::next(i) : want.erase(i);
    }
    c.note(want.size(), " regions");
    auto got = search(c, p, false);
    if (want.size() > 1) c.label("several regions");
    if (all > want.size()) c.label("regions below the threshold");
    c.nontrivial(!want.empty());
    match(c, got, want, lab, p.F, [&](protohit &h, const std::set<int64_t> &cells, const std::string &w) {
        expect_peak(p, h, w);
        int64_t m = h.index_max.drift_index * p.F + h.index_max.frequency_channel, lo = p.F, hi = -1;
        REQUIRE_P("peak-in-region", cells.count(m), w, ": its strongest cell ", at(m, p.F), " is not in it");
        for (auto n : cells) {
            REQUIRE_P("strongest", p.snr[n] <= p.snr[m], w, ": reported at ", at(m, p.F), " with ", p.snr[m], ", but ", at(n, p.F), " has ", p.snr[n]);
            if (n / p.F == m / p.F) lo = std::min(lo, n % p.F), hi = std::max(hi, n % p.F);
        }
        REQUIRE_P("width", h.binwidth == hi - lo, w, ": width ", h.binwidth, " from channel ", lo, " to ", hi);
        REQUIRE_P("center", h.index_center.drift_index == m / p.F && h.index_center.frequency_channel == (lo + hi) / 2, w, ": centre (", h.index_center.drift_index, ",", h.index_center.frequency_channel, ") for channels ", lo, " to ", hi);
    });
}
static void binary(Ctx &c) {
    int64_t R = c.i(1, 12), F = c.i(1, 40);
    if (c.b(1, 800)) F = c.i(33000, 70000), R = c.i(1, 3), c.label("more than 2^15 channels");
    std::vector<double> m(R * F);
    pbt::Noise r(c.seed());
    int often = c.i(2, 12);
    for (auto &x : m) x = r.range(0, often) == 0 ? (r.range(0, 3) == 0 ? (double)r.range(1, 255) : 1) : 0;
    std::vector<std::pair<int, int>> nb;
    int n = c.i(0, 8);
    for (int k = 0; k < n; ++k) {
        int a = c.u(-3, 3), b = c.u(-3, 3);
        nb.push_back({a, b}), nb.push_back({-a, -b});
    }
    std::vector<bland::nd_coords> hood;
    for (auto &o : nb) hood.push_back({o.first, o.second});
    if (c.b(1, 3)) hood.push_back({0, 0});
    c.note(R, " x ", F, ", ", nb.size(), " neighbours");
    std::vector<char> in(m.begin(), m.end());
    for (size_t k = 0; k < in.size(); ++k) in[k] = m[k] > 0;
    auto lab = components(R, F, in, nb);
    std::shared_ptr<ndarray> base;
    std::vector<double>      cells;
    auto d   = lay_out(c, K::u8, {R, F}, m, base, cells);
    auto got = bliss::find_components_in_binary_mask(d, hood);
    auto want = by_label(lab);
    c.nontrivial(want.size() > 1);
    match(c, got, want, lab, F, [](protohit &, const std::set<int64_t> &, const std::string &) {});
    REQUIRE_P("mask-changed", values(*base) == cells, "the mask was changed");
}
int main(int argc, char **argv) {
    pbt::Suite s;
    s.property       = "D04";
    s.rule           = "regions: at least one region above the threshold; binary: more than one component";
    s.quick_cases    = 40000;
    s.thorough_cases = 800000;
    s.assumptions    = "planes of up to 40 drifts and 120 channels, or 5 and 70000, positive thresholds, signal-to-noise ratios that are exact in single precision (so that no decision depends on rounding)";
    s.facets         = {{"regions", 5, 0, regions}, {"binary", 2, 0, binary}};
    return pbt::run(argc, argv, s);
}

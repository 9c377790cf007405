// A01 assignment, A02 ranked enumeration, A03 connected components: real solvers against exhaustive and independent ones.
#include "oracle.hpp"
#include <Eigen/Core>
#include <algorithm>
#include "murty.hpp"
#include "rlapjv.h"
#include "connectedcomponents.hpp"
using H::cat;
using O::ld;

struct Tab { int n, m; std::vector<double> a; const char* kind; double& at(int i, int j) { return a[i * m + j]; } double at(int i, int j) const { return a[i * m + j]; } };
static O::Table table(const Tab& t) { O::Table C(t.n, std::vector<ld>(t.m)); for (int i = 0; i < t.n; ++i) { for (int j = 0; j < t.m; ++j) { C[i][j] = t.at(i, j); } } return C; }
static std::string str(const Tab& t) { std::string o = cat(t.kind, " ", t.n, "x", t.m, ":\n"); for (int i = 0; i < t.n && i < 12; ++i) { for (int j = 0; j < t.m && j < 24; ++j) { o += cat(t.at(i, j), " "); } o += "\n"; } return o; }

static Tab gen(H::Rng& g, int n, int m) {
    Tab t{n, m, std::vector<double>(n * m), ""};
    const double INF = std::numeric_limits<double>::infinity();
    int kind = g.i(0, 11);
    double dens = g.pick<double>({0, 0, 0.2, 0.5, 0.8});
    auto fill = [&](const std::function<double(int, int)>& f) { for (int i = 0; i < n; ++i) { for (int j = 0; j < m; ++j) { t.at(i, j) = f(i, j); } } };
    auto holes = [&] { for (auto& v : t.a) { if (g.p(dens)) { v = INF; } } };
    switch (kind) {
        case 0: t.kind = "uniform"; fill([&](int, int) { return g.u(0, 100); }); holes(); break;
        case 1: t.kind = "integers"; { int k = g.i(1, 10); fill([&](int, int) { return g.i(0, k); }); } holes(); break;
        case 2: t.kind = "negative"; fill([&](int, int) { return g.u(-100, 30); }); holes(); break;
        case 3: t.kind = "spread"; fill([&](int, int) { return g.logu(1e-6, 1e6); }); holes(); break;
        case 4: t.kind = "constant"; { double v = g.pick<double>({0, 1, -3, 1e-300}); fill([&](int, int) { return v; }); } holes(); break;
        case 5: {   // near ties: rows compete for columns that differ by minute amounts
            t.kind = "near-ties"; double e = g.logu(1e-16, 1e-9); int k = g.i(1, 3); std::vector<double> base(m); for (int j = 0; j < m; ++j) { base[j] = j < n - k ? g.u(0, 1) : g.u(5, 100); }
            double b = g.u(0, 10); fill([&](int, int j) { return (j < n - k ? b : base[j]) + e * g.u(0, 1); });
            break; }
        case 6: {   // duplicated rows and columns up to rounding
            t.kind = "duplicates"; Tab s{n, m, std::vector<double>(n * m), ""}; for (auto& v : s.a) { v = g.u(0, 40); }
            int R = g.i(1, n), C = g.i(1, m); double e = g.pick<double>({0, 1e-15, 1e-13});
            fill([&](int i, int j) { return s.at(i % R, j % C) * (1 + e * g.u(-1, 1)); }); holes(); break; }
        case 7: {   // permutation plus extras: barely feasible or infeasible
            t.kind = "sparse"; fill([&](int, int) { return INF; });
            std::vector<int> p(m); for (int j = 0; j < m; ++j) { p[j] = j; } g.shuffle(p);
            for (int i = 0; i < n; ++i) { t.at(i, p[i]) = g.u(-5, 5); }
            for (int q = g.i(0, n * 2); q--;) { t.at(g.i(0, n - 1), g.i(0, m - 1)) = g.u(-5, 5); }
            if (g.p(0.4)) { t.at(g.i(0, n - 1), p[g.i(0, n - 1)]) = INF; }
            break; }
        case 8: {   // Hall violation: k+1 rows share k columns
            t.kind = "hall"; int k = g.i(1, n); fill([&](int i, int j) { return i <= k && j >= k ? INF : g.u(0, 9); });
            if (g.p(0.5)) { t.at(g.i(0, std::min(k, n - 1)), m - 1) = g.u(0, 9); } break; }
        case 9: t.kind = "product"; fill([&](int i, int j) { return (i + 1.0) * (j + 1.0) * g.pick<double>({1, 1, 1.0000001}); }); break;
        default: {  // the shape the tracker builds: detections, one miss and one death column per row
            t.kind = "cluster"; int N = std::max(0, m - 2 * n);
            fill([&](int, int) { return INF; });
            for (int i = 0; i < n; ++i) { for (int j = 0; j < std::min(N, m); ++j) { if (g.p(0.6)) { t.at(i, j) = g.pick<double>({g.u(-10, 30), g.u(-1, 3)}); } } if (N + i < m) { t.at(i, N + i) = g.p(0.9) ? g.u(0, 5) : INF; } if (N + n + i < m) { t.at(i, N + n + i) = g.p(0.9) ? g.u(0, 8) : INF; } }
            break; }
    }
    if (g.p(0.2)) { std::vector<int> pr(n), pc(m); for (int i = 0; i < n; ++i) { pr[i] = i; } for (int j = 0; j < m; ++j) { pc[j] = j; } g.shuffle(pr); g.shuffle(pc); Tab s = t; for (int i = 0; i < n; ++i) { for (int j = 0; j < m; ++j) { t.at(i, j) = s.at(pr[i], pc[j]); } } }
    return t;
}
static lap::CostMatrix rowm(const Tab& t) { lap::CostMatrix C(t.n, t.m); for (int i = 0; i < t.n; ++i) { for (int j = 0; j < t.m; ++j) { C(i, j) = t.at(i, j); } } return C; }

static bool judge(H::Ctx& c, const Tab& t, bool feas, ld best, bool ok, const Eigen::VectorXi& x, const char* how, double maxabs) {
    if (ok != feas) { c.fail(feas ? "false-infeasible" : "false-feasible", cat("solver (", how, ") says ", ok ? "feasible" : "infeasible", " for ", str(t))); return false; }
    if (!feas) { return true; }
    std::set<int> used; ld s = 0;
    for (int i = 0; i < t.n; ++i) {
        if (x[i] < 0 || x[i] >= t.m || !used.insert(x[i]).second) { c.fail("not-assignment", cat("solver (", how, ") assigns row ", i, " column ", x[i], " twice or outside in ", str(t))); return false; }
        if (!std::isfinite(t.at(i, x[i]))) { c.fail("forbidden", cat("solver (", how, ") uses a forbidden entry in ", str(t))); return false; }
        s += t.at(i, x[i]);
    }
    double tol = 4e-15 * maxabs * t.n * t.m + 1e-300;
    c.maxi("excess_share", static_cast<double>((s - best) / (tol > 0 ? tol : 1)));
    if (!(s <= best + tol)) { c.fail("not-minimal", cat("solver (", how, ") found total ", static_cast<double>(s), ", minimum is ", static_cast<double>(best), " in ", str(t))); return false; }
    return true;
}

static void a01(H::Ctx& c) {
    auto& g = c.rng;
    int n = g.p(0.7) ? g.i(1, 8) : g.i(1, 48), m = n + (g.p(0.3) ? 0 : g.i(0, g.p(0.5) ? 3 : 2 * n + 5));
    if (c.thorough && g.p(0.02)) { n = g.i(50, 120); m = n + g.i(0, 200); }
    Tab t = gen(g, n, m);
    O::Table T = table(t);
    std::vector<int> best; ld bc = 0;
    bool feas = O::matchable(T);
    double maxabs = 0; for (double v : t.a) { if (std::isfinite(v)) { maxabs = std::max(maxabs, std::fabs(v)); } }
    if (feas && !O::assign(T, best, bc)) { c.count("oracle_gave_up"); return; }
    lap::CostMatrix R = rowm(t);
    Eigen::MatrixXd C = R;
    auto solve = [&](const auto& M, const char* how) {
        lap::Assignment x(n); lap::Dual u(n), v(m);
        bool ok = lap::lap(M, x, u, v);
        return judge(c, t, feas, bc, ok, x, how, maxabs);
    };
    if (!solve(R, "row-major") || !solve(C, "column-major")) { return; }
    if (!(rowm(t).array() == R.array()).all()) { c.fail("input-changed", "the cost table was modified"); return; }
    if (feas) {
        lap::Assignment x = lap::lap(C), y = lap::lap(R);
        if (!judge(c, t, true, bc, true, x, "short form, column-major", maxabs) || !judge(c, t, true, bc, true, y, "short form", maxabs)) { return; }
        ld s = 0; for (int i = 0; i < n; ++i) { s += t.at(i, x[i]); }
        double pc = lap::cost(C, x), pr = lap::cost(R, x);
        if (!(std::fabs(pc - static_cast<double>(s)) <= 1e-14 * maxabs * n && pc == pr)) { c.fail("cost", cat("stated cost ", pc, ", entries sum to ", static_cast<double>(s), " in ", str(t))); return; }
    }
    // a part of a larger table
    Eigen::MatrixXd big = Eigen::MatrixXd::Constant(n + 3, m + 2, 0.5); big.block(1, 1, n, m) = C;
    Eigen::MatrixXd part = big.block(1, 1, n, m); if (!solve(part, "extracted block")) { return; }
    c.count(feas ? "feasible" : "infeasible"); c.count(cat("kind_", t.kind)); c.maxi("rows", n);
    if (n > 1) { c.mark(static_cast<uint64_t>(n * 1000 + m)); c.mark(H::hashs(t.kind)); c.mark(static_cast<double>(bc)); }
    c.sample(cat(t.kind, " ", n, "x", m, feas ? cat(" minimum ", static_cast<double>(bc)) : std::string(" infeasible")));
}

static void a02(H::Ctx& c) {
    auto& g = c.rng;
    bool full = g.p(0.8);
    int n = full ? g.i(1, 5) : g.i(4, 20), m = n + g.i(0, full ? 3 : 2 * n);
    if (g.p(0.3)) { n = full ? g.i(1, 4) : g.i(3, 10); m = n * 2 + g.i(0, full ? 3 : 12); }
    Tab t = gen(g, n, m);
    double maxabs = 1e-300; for (double v : t.a) { if (std::isfinite(v)) { maxabs = std::max(maxabs, std::fabs(v)); } }
    double tol = 1e-13 * maxabs * n * (m + 4);
    O::Table T = table(t);
    std::vector<ld> costs; long cnt = 0; const long LIM = full ? 12000 : 0;
    bool feas = O::matchable(T);
    if (full) {
        struct Stop {};
        try { O::all_assignments(T, [&](const std::vector<int>&, ld s) { costs.push_back(s); if (++cnt > LIM) { throw Stop(); } }); } catch (Stop&) { full = false; }
        std::sort(costs.begin(), costs.end());
    }
    long draws = full ? static_cast<long>(costs.size()) : 300;
    lap::CostMatrix C = rowm(t);
    lap::Murty mu(C);
    std::set<std::vector<int>> seen;
    ld prev = -1e300L;
    bool tuple = g.p(0.3), ended = false;
    for (long k = 0; k < draws; ++k) {
        lap::Assignment x; double cost = -1; bool ok;
        if (tuple) { auto r = mu.draw_tuple(); ok = std::get<0>(r); cost = std::get<1>(r); x = std::get<2>(r); }
        else { ok = mu.draw(x, cost); }
        if (!ok) { if (full || (!feas ? false : k == 0)) { c.fail("ended-early", cat("enumeration ended after ", k, " of ", full ? static_cast<long>(costs.size()) : -1, " assignments of ", str(t))); return; } ended = true; break; }
        if (!feas) { c.fail("infeasible-drawn", cat("an assignment was drawn from an infeasible table ", str(t))); return; }
        if (x.rows() != n) { c.fail("size", cat("assignment of ", x.rows(), " rows from ", str(t))); return; }
        std::vector<int> v(x.data(), x.data() + n); std::set<int> cols; ld s = 0;
        for (int i = 0; i < n; ++i) {
            if (v[i] < 0 || v[i] >= m || !cols.insert(v[i]).second) { c.fail("not-assignment", cat("draw ", k, " assigns row ", i, " column ", v[i], " twice or outside in ", str(t))); return; }
            if (!std::isfinite(t.at(i, v[i]))) { c.fail("forbidden", cat("draw ", k, " uses a forbidden entry of ", str(t))); return; }
            s += t.at(i, v[i]);
        }
        if (!seen.insert(v).second) { c.fail("repeated", cat("draw ", k, " repeats an assignment of ", str(t))); return; }
        if (!(std::fabs(static_cast<double>(s) - cost) <= tol)) { c.fail("stated-cost", cat("draw ", k, " states cost ", cost, ", entries sum to ", static_cast<double>(s), " in ", str(t))); return; }
        if (!(s >= prev - tol)) { c.fail("order", cat("draw ", k, " costs ", static_cast<double>(s), " after ", static_cast<double>(prev), " in ", str(t))); return; }
        if (full && !(std::fabs(static_cast<double>(s - costs[k])) <= tol)) { c.fail("rank", cat("draw ", k, " costs ", static_cast<double>(s), ", the assignment of that rank costs ", static_cast<double>(costs[k]), " in ", str(t))); return; }
        if (!full && k == 0) { std::vector<int> b; ld bc; if (O::assign(T, b, bc) && !(s <= bc + tol)) { c.fail("first", cat("first draw costs ", static_cast<double>(s), ", minimum is ", static_cast<double>(bc), " in ", str(t))); return; } }
        prev = std::max(prev, s);
        c.count("draws");
    }
    if (full || ended) {
        for (int k = 0; k < 3; ++k) { lap::Assignment x; double cost; if (mu.draw(x, cost)) { c.fail("not-exhausted", cat("another assignment after all ", draws, " of ", str(t))); return; } }
        c.count("exhausted");
    }
    if (draws > 1) { c.mark(H::hashs(t.kind)); c.mark(static_cast<uint64_t>(n * 1000 + m)); c.mark(static_cast<double>(prev)); }
    c.maxi("assignments", draws); c.count(cat("kind_", t.kind));
    c.sample(cat(t.kind, " ", n, "x", m, " ", draws, " draws, last cost ", static_cast<double>(prev)));
}

static void a03(H::Ctx& c) {
    auto& g = c.rng;
    int n = g.p(0.8) ? g.i(0, 12) : g.i(0, 300);
    std::vector<long> store(n + 1);
    std::vector<int> perm(n); for (int i = 0; i < n; ++i) { perm[i] = i; } g.shuffle(perm);
    O::DSU d(n + 1);
    std::vector<std::set<int>> link(n);
    int kind = g.i(0, 4), e = g.i(0, kind == 0 ? n / 2 + 1 : 2 * n + 1);
    auto add = [&](int a, int b) { link[a].insert(b); link[b].insert(a); d.unite(a, b); };
    if (n > 0) {
        if (kind == 1) { for (int i = 0; i + 1 < n; ++i) { if (g.p(0.9)) { add(perm[i], perm[i + 1]); } } }            // long chains
        else if (kind == 2) { int hub = perm[0]; for (int i = 1; i < n; ++i) { if (g.p(0.7)) { add(hub, perm[i]); } } }   // stars
        else if (kind == 3) { int k = g.i(1, 5); for (int i = 0; i < n; ++i) { for (int j = 0; j < i && j < 40; ++j) { if (i % k == j % k) { add(perm[i], perm[j]); } } } }   // cliques
        else { for (int q = 0; q < e; ++q) { add(g.i(0, n - 1), g.i(0, n - 1)); } }
    }
    lmb::ConnectedComponents<long> cc;
    std::vector<int> order(n); for (int i = 0; i < n; ++i) { order[i] = i; } g.shuffle(order);
    int when = g.i(0, 3);      // initialised all first, one by one, some only after their links are recorded, or never where a link is recorded
    bool initfirst = when == 0; std::vector<int> late;
    if (initfirst) { for (int i : order) { cc.init(&store[i]); } }
    for (int i : order) {
        if (when == 1 || (when == 2 && g.p(0.5))) { cc.init(&store[i]); }
        else if (when == 2 || link[i].empty()) { late.push_back(i); }
        std::vector<long*> v; for (int j : link[i]) { v.push_back(&store[j]); if (g.p(0.1)) { v.push_back(&store[j]); } }
        if (g.p(0.5)) { v.push_back(&store[i]); }
        if (g.p(0.3) && v.size() > 1) { std::vector<long*> a(v.begin(), v.begin() + v.size() / 2), b(v.begin() + v.size() / 2, v.end()); cc.connect(&store[i], a); cc.connect(&store[i], b); }
        else if (!v.empty() || g.p(0.5)) { cc.connect(&store[i], v); }
        if (g.p(0.2)) { cc.init(&store[i]); }
    }
    g.shuffle(late); for (int i : late) { cc.init(&store[i]); }
    std::vector<int> comp(n, -1); int k = 0, left = n;
    std::vector<long*> res;
    auto desc = [&] { std::string o = cat(n, " nodes, links:"); for (int i = 0; i < n && i < 20; ++i) { for (int j : link[i]) { if (j >= i) { o += cat(" ", i, "-", j); } } } return o; };
    while (cc.get_component(res)) {
        if (res.empty()) { c.fail("empty", cat("empty component for ", desc())); return; }
        for (auto* p : res) {
            int i = p - store.data();
            if (i < 0 || i >= n) { c.fail("foreign", cat("node outside the set for ", desc())); return; }
            if (comp[i] >= 0) { c.fail("twice", cat("node ", i, " is returned twice for ", desc())); return; }
            comp[i] = k; --left;
        }
        if (++k > n) { c.fail("endless", cat("more components than nodes for ", desc())); return; }
    }
    if (left) { c.fail("lost", cat(left, " nodes never returned for ", desc())); return; }
    for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) { if ((comp[i] == comp[j]) != (d.find(i) == d.find(j))) { c.fail(comp[i] == comp[j] ? "merged" : "split", cat("nodes ", i, " and ", j, " for ", desc())); return; } } }
    for (int q = 0; q < 2; ++q) { if (cc.get_component(res) || !res.empty()) { c.fail("not-done", cat("another component after all for ", desc())); return; } }
    c.count("components", k); c.count("nodes", n); c.maxi("nodes", n);
    if (n > 2) { c.mark(static_cast<uint64_t>(n)); c.mark(static_cast<uint64_t>(k)); c.mark(static_cast<uint64_t>(kind * 1000 + e)); for (int x : comp) { c.mark(static_cast<uint64_t>(x)); } }
    c.sample(cat(desc().substr(0, 300), " -> ", k, " components"));
}

int main(int argc, char** argv) {
    return H::run(argc, argv, "lapm", [](H::Ctx& c) { if (c.mode == "A01") { a01(c); } else if (c.mode == "A02") { a02(c); } else { a03(c); } });
}

// F11 OSPA/GOSPA scores and F12 density grids of real trackers against exact assignments and exact probabilities.
#include "world.hpp"
using namespace T;
using H::cat;
using O::ld;
using O::Mat;

static V4d local_mean(const Snap& s, const V2d& o) {
    V4d m = V4d::Zero();
    for (auto& k : s.c) { V4d x = k.x; x.head<2>() = T::ll2ne(V2d(k.x.head<2>()), o); m += k.w * x; }
    return m;
}
struct Score { double ospa, gospa; };
static Score exact(const std::vector<V4d>& a, const std::vector<V4d>& b, double c, double p) {
    size_t M = a.size(), N = b.size(), n = std::max(M, N), k = std::min(M, N);
    if (n == 0) { return {0, 0}; }
    ld cp = std::pow(static_cast<ld>(c), static_cast<ld>(p)), best = 0;
    if (k) {
        const auto &s = M <= N ? a : b, &l = M <= N ? b : a;
        O::Table t(k, std::vector<ld>(n));
        for (size_t i = 0; i < k; ++i) { for (size_t j = 0; j < n; ++j) { ld d = 0; for (int q = 0; q < 4; ++q) { ld e = static_cast<ld>(s[i][q]) - l[j][q]; d += e * e; } t[i][j] = std::pow(std::min<ld>(std::sqrt(d), c), static_cast<ld>(p)); } }
        std::vector<int> x; O::assign(t, x, best);
    }
    Score r; r.ospa = std::pow((best + cp * (n - k)) / n, 1 / static_cast<ld>(p)); r.gospa = std::pow(best + cp / 2 * (n - k), 1 / static_cast<ld>(p));
    return r;
}

static void f11(H::Ctx& c) {
    auto& g = c.rng;
    Params par; par.cov_lim = 1e9; Tracker t(par); cf::LL o = origin(g);
    double L = g.pick<double>({5, 50, 500, 5000});
    bool big = g.p(0.15);
    int M = big ? g.i(10, 60) : g.i(0, 7), N = big ? g.i(10, 60) : g.i(0, 7);
    if (g.p(0.3)) { N = M; }
    Tracker::TargetStates truth;
    bool single = g.p(0.5);
    std::vector<V2d> lat; for (int k = 0; k < 4; ++k) { lat.push_back(V2d(g.u(-L, L), g.u(-L, L))); }
    for (int i = 0; i < M; ++i) {
        V2d at(g.u(-L, L), g.u(-L, L)); if (g.p(0.2)) { at = lat[g.i(0, 3)]; }
        add(t, &t.params, g.u(0.1, 1), rmix(g, at, V2d(g.n(), g.n()) * g.pick<double>({0, 2}), single ? 1 : g.i(1, 4), 3, 0.1, 5), o);
    }
    Snaps s = snap(t);
    int coincide = g.p(0.15);
    for (int j = 0; j < N; ++j) {
        V4d x; x << g.u(-L, L), g.u(-L, L), g.n(), g.n();
        double q = g.u();
        if (j < M && (coincide || q < 0.5)) { x = s[j].mean(); if (!coincide) { V2d d(g.n() * L / 20, g.n() * L / 20); V2d ne = T::ll2ne(V2d(x.head<2>()), o); x.head<2>() = ne2ll(V2d(ne + d), o); x.tail<2>() += V2d(g.n(), g.n()); } }
        else { V2d ne = q < 0.6 ? lat[g.i(0, 3)] : V2d(x.head<2>()); x.head<2>() = ne2ll(ne, o); }
        truth.push_back(x);
    }
    { std::vector<V4d> v(truth.begin(), truth.end()); g.shuffle(v); truth.assign(v.begin(), v.end()); }
    double cut = g.pick<double>({g.logu(0.01, 1e4), L / 2, L / 10, 10}), p = g.pick<double>({1, 2, 3, g.u(1, 6)});
    V2d mid = V2d::Zero(); for (auto& x : truth) { mid += x.head<2>(); } for (auto& x : s) { mid += x.mean().head<2>(); } if (M + N) { mid /= M + N; }
    bool given = g.p(0.4); cf::LL org = given ? cf::LL(ne2ll(V2d(g.n() * 1000, g.n() * 1000), o)) : mid;
    std::vector<V4d> a, b;
    for (auto& x : s) { a.push_back(local_mean(x, org)); }
    for (auto& x : truth) { V4d y = x; y.head<2>() = T::ll2ne(V2d(x.head<2>()), org); b.push_back(y); }
    Score e = exact(a, b, cut, p);
    auto os = [&](const Tracker::TargetStates& z) { return given ? t.ospa(z, org, cut, p) : t.ospa(z, cut, p); };
    auto gs = [&](const Tracker::TargetStates& z) { return given ? t.gospa(z, org, cut, p) : t.gospa(z, cut, p); };
    double so = os(truth), sg = gs(truth);
    std::string what = cat(M, " targets, ", N, " true states within ", L, " m, cut-off ", cut, " order ", p, given ? ", given origin" : "");
    double dev = std::max(std::fabs(so - e.ospa) / (e.ospa + 1e-3), std::fabs(sg - e.gospa) / (e.gospa + 1e-3)); c.maxi("relative_deviation", dev);
    // tiny sums under a root lose digits: absolute slack grows with the cut-off
    double slack = 1e-5 * cut + 2e-4;
    if (!(std::fabs(so - e.ospa) <= 2e-5 * e.ospa + (e.ospa < 10 * slack ? slack : 1e-5))) { c.fail("ospa", cat(what, ": OSPA ", so, ", exact ", e.ospa)); return; }
    if (!(std::fabs(sg - e.gospa) <= 2e-5 * e.gospa + (e.gospa < 10 * slack ? slack : 1e-5))) { c.fail("gospa", cat(what, ": GOSPA ", sg, ", exact ", e.gospa)); return; }
    if (!(so >= 0 && so <= cut * (1 + 1e-9))) { c.fail("ospa-bound", cat(what, ": OSPA ", so, " outside 0..cut-off")); return; }
    double pen = std::pow(std::pow(cut, p) / 2 * std::abs(M - N), 1 / p), all = std::pow(std::pow(cut, p) * (std::min(M, N) + std::abs(M - N) / 2.0), 1 / p);
    if (!(sg >= pen * (1 - 1e-9) && sg <= all * (1 + 1e-9))) { c.fail("gospa-bound", cat(what, ": GOSPA ", sg, " outside ", pen, "..", all)); return; }
    if (coincide && M == N && !(so < slack * std::max(1, M) && sg < slack * std::max(1, M) * 3)) { c.fail("zero", cat(what, ": coinciding sets score ", so, " and ", sg)); return; }
    std::vector<V4d> v(truth.begin(), truth.end()); g.shuffle(v); Tracker::TargetStates sh(v.begin(), v.end());
    double so2 = os(sh), sg2 = gs(sh);
    if (!(std::fabs(so2 - so) <= 1e-9 * (1 + so) + slack * 1e-2 && std::fabs(sg2 - sg) <= 1e-9 * (1 + sg) + slack * 1e-2)) { c.fail("order", cat(what, ": reordering the truth changes the scores from ", so, ", ", sg, " to ", so2, ", ", sg2)); return; }
    c.count("scores", 4); c.maxi("set_size", std::max(M, N)); if (big) { c.count("large_sets"); } if (M != N) { c.count("mismatched"); } if (M > 1 && N > 1) { c.mark(so); c.mark(sg); }
    c.sample(cat(what, " -> OSPA ", so, " GOSPA ", sg));
}

static Mat pos2(const M4d& P) { Mat m(2, 2); for (int i = 0; i < 2; ++i) { for (int j = 0; j < 2; ++j) { m(i, j) = P(i, j); } } return m; }

static void f12(H::Ctx& c) {
    auto& g = c.rng;
    Params par; par.cov_lim = 1e12; par.nstd = g.pick<double>({1.9, 3, 1}); Tracker t(par); cf::LL o = origin(g, 65);
    double L = g.pick<double>({30, 200, 2000, 8000});
    int M = g.i(0, 6);
    double rmax = 0;
    for (int i = 0; i < M; ++i) {
        V2d at(g.u(-1.6 * L, 1.6 * L), g.u(-1.6 * L, 1.6 * L)); if (g.p(0.1)) { at *= 20; }
        double sc = std::pow(L * g.logu(0.003, 0.3), 2), r = g.u(0.05, 1);
        rmax = std::max(rmax, r);
        add(t, &t.params, r, rmix(g, at, V2d(g.n(), g.n()), g.i(1, 4), L * 0.1, sc, 4 * sc), o);
    }
    Snaps s = snap(t);
    double hn = L * g.u(0.4, 1.2), he = L * g.u(0.4, 1.2); V2d fc(g.u(-L, L) * 0.5, g.u(-L, L) * 0.5);
    V2d lo = ne2ll(V2d(fc - V2d(hn, he)), o), hi = ne2ll(V2d(fc + V2d(hn, he)), o);
    lmb::AABBox fov(lo[0], lo[1], hi[0], hi[1]); Box fb = box(fov);
    V2d org((fb.min[0] + fb.max[0]) / 2, (fb.min[1] + fb.max[1]) / 2);
    int nx = g.pick<int>({1, 2, 5, 9, g.i(1, 14)}), ny = g.pick<int>({1, 2, 5, 9, g.i(1, 14)});
    Eigen::MatrixXd R = t.pos_phd(fov, Eigen::Array2i(nx, ny));
    std::string what = cat(M, " targets, region ", 2 * hn, "x", 2 * he, " m, grid ", nx, "x", ny);
    if (R.rows() != nx || R.cols() != ny) { c.fail("shape", cat(what, ": result is ", R.rows(), "x", R.cols())); return; }
    V2d a = T::ll2ne(V2d(fb.min[0], fb.min[1]), org), b = T::ll2ne(V2d(fb.max[0], fb.max[1]), org);
    double sx = (b[0] - a[0]) / nx, sy = (b[1] - a[1]) / ny;
    Eigen::MatrixXd E = Eigen::MatrixXd::Zero(nx, ny), V = E; double tot = 0, tvar = 0, zs = 0; int inside = 0;
    for (auto& q : s) {
        if (!meets(q.aabb, fb)) { continue; }
        ++inside;
        double total = 0;
        Eigen::MatrixXd pc = Eigen::MatrixXd::Zero(nx, ny);
        for (auto& k : q.c) {
            V2d m = T::ll2ne(V2d(k.x.head<2>()), org); double dx = 8 * std::sqrt(k.P(0, 0)), dy = 8 * std::sqrt(k.P(1, 1));
            for (int i = 0; i < nx; ++i) { for (int j = 0; j < ny; ++j) {
                double x0 = a[0] + i * sx, y0 = a[1] + j * sy;
                if (x0 > m[0] + dx || x0 + sx < m[0] - dx || y0 > m[1] + dy || y0 + sy < m[1] - dy) { continue; }
                pc(i, j) += k.w * static_cast<double>(O::boxprob({m[0], m[1]}, pos2(k.P), x0, x0 + sx, y0, y0 + sy));
            } }
        }
        total = pc.sum();
        E += q.r * pc; V += q.r * q.r * (pc.array() * (1 - pc.array()).max(0)).matrix() / 1000; tot += q.r * total; tvar += q.r * q.r * std::max(0.0, total * (1 - total)) / 1000;
    }
    if (!(R.minCoeff() >= 0) || !R.allFinite()) { c.fail("negative", cat(what, ": negative or non-finite cell ", R.minCoeff())); return; }
    double d = R.sum() - tot; c.maxi("total_deviation", std::fabs(d));
    if (!(std::fabs(d) <= 6.5 * std::sqrt(tvar) + 0.025 * rmax * std::max(1, inside))) { c.fail("mass", cat(what, ": grid sums to ", R.sum(), ", the targets have ", tot, " inside the region\n", str(s))); return; }
    for (int i = 0; i < nx; ++i) { for (int j = 0; j < ny; ++j) {
        double dv = R(i, j) - E(i, j), lim = 6.5 * std::sqrt(V(i, j)) + 0.025 * rmax * std::max(1, inside); c.maxi("cell_deviation", std::fabs(dv));
        if (!(std::fabs(dv) <= lim)) { c.fail("cell", cat(what, ": cell ", i, ",", j, " holds ", R(i, j), ", expected ", E(i, j), " +- ", lim, "\n", str(s))); return; }
        if (E(i, j) < 1e-12 && R(i, j) > 0.0021 * rmax * std::max(1, inside)) { c.fail("stray", cat(what, ": cell ", i, ",", j, " holds ", R(i, j), " although no target reaches it")); return; }
        zs += V(i, j) > 1e-6 ? 1 : 0;
    } }
    static double z = 0; static int zn = 0;       // over the whole shard: no systematic loss or gain
    if (tvar > 1e-5) { z += d / std::sqrt(tvar); ++zn; double q = std::fabs(z) / std::sqrt(double(zn)); c.maxi("z_mass", q); if (zn > 30 && !(q < 7)) { c.fail("mass-bias", cat("grids of ", zn, " scenes are biased by ", q, " standard errors")); z = 0; zn = 0; return; } }
    // density at given points, normalised over the points
    if (M > 0) {
        int which = g.i(0, M - 1); auto* tg = t.targettree.targets[which]; const Snap& q = s[which];
        int n = g.i(2, 30); Eigen::Array<double, 2, Eigen::Dynamic> pts(2, n);
        PDF loc = tg->pdf; loc.transform_to_local(org);
        for (int k = 0; k < n; ++k) { auto& cc = loc.c[g.i(0, loc.c.size() - 1)]; pts(0, k) = cc.x[0] + g.n() * std::sqrt(cc.P(0, 0)); pts(1, k) = cc.x[1] + g.n() * std::sqrt(cc.P(1, 1)); }
        Eigen::Array<double, 1, Eigen::Dynamic> res = Eigen::Array<double, 1, Eigen::Dynamic>::Constant(1, n, 0.25);
        loc.sampled_pos_pdf(pts, res, q.r);
        std::vector<ld> ex(n, 0); bool edge = false;
        for (auto& k : loc.c) {
            std::vector<ld> f(n); ld sum = 0; Mat P(2, 2); for (int i = 0; i < 2; ++i) { for (int j = 0; j < 2; ++j) { P(i, j) = k.P(i, j); } }
            for (int i = 0; i < n; ++i) { Mat dd(2, 1); dd(0, 0) = pts(0, i) - k.x[0]; dd(1, 0) = pts(1, i) - k.x[1]; f[i] = std::exp(O::logn(dd, P)); sum += f[i]; }
            if (std::fabs(static_cast<double>(sum) - 1e-7) < 1e-9) { edge = true; }
            if (sum > 1e-7L) { for (int i = 0; i < n; ++i) { ex[i] += q.r * static_cast<ld>(k.w) * f[i] / sum; } }
        }
        if (!edge) { for (int i = 0; i < n; ++i) { if (!(std::fabs(res(0, i) - 0.25 - static_cast<double>(ex[i])) < 1e-9)) { c.fail("point-density", cat("normalised density at point ", i, " is ", res(0, i) - 0.25, " expected ", static_cast<double>(ex[i]))); return; } } c.count("point_densities", n); }
    }
    c.count("grids"); c.count("cells", nx * ny); c.count("cells_with_mass", zs); if (inside) { c.mark(R.sum()); c.mark(static_cast<uint64_t>(nx * 100 + ny)); }
    c.sample(cat(what, " -> total ", R.sum(), " (exact ", tot, ")"));
}

int main(int argc, char** argv) { return H::run(argc, argv, "score", [](H::Ctx& c) { if (c.mode == "F11") { f11(c); } else { f12(c); } }); }

#include <array>
// F03 single-report updates, F08 mixture reduction and moments, R02 sampling, F09 field-of-view shares:
// the real Gaussian, mixture, target and sensor code against long-double definitions and sampling bounds.
#include "track.hpp"
#include "world.hpp"
#include <omp.h>
using namespace T;
using H::cat;
using O::ld;
using O::Mat;

template<int S> Eigen::Matrix<double, S, S> spd(H::Rng& g, double lo, double hi) {
    Eigen::Matrix<double, S, S> A, D = Eigen::Matrix<double, S, S>::Zero();
    for (int i = 0; i < S; ++i) { for (int j = 0; j < S; ++j) { A(i, j) = g.n(); } D(i, i) = g.logu(lo, hi); }
    Eigen::HouseholderQR<Eigen::Matrix<double, S, S>> qr(A);
    Eigen::Matrix<double, S, S> Q = qr.householderQ();
    Eigen::Matrix<double, S, S> P = Q * D * Q.transpose();
    return (P + P.transpose()) / 2;
}

// A linear sensor with an arbitrary observation matrix; the detection probability depends on the component it is asked about
template<int S> struct LinSensor {
    using Report = lmb::GaussianReport_<2>;
    Eigen::Matrix<double, 2, S> H;
    double p = 0.9, slope = 0;
    // what a position sensor has besides; nothing in an update should depend on these
    lmb::BBox fov; Eigen::Matrix2d pv = Eigen::Matrix2d::Identity(); double lambdaB = 1, pD_ = 0.31, kappa_ = 7.3;
    mutable long calls = 0;
    cf::LL expect_origin = cf::LL::Zero();
    mutable bool origin_ok = true;
    template<typename St> auto measurement(const St& m) const { return (H * m).eval(); }
    double f(const Eigen::Matrix<double, S, 1>& x) const { return p * (slope == 0 ? 1 : 0.5 + 0.5 * std::tanh(slope * x[0])); }
    template<typename P> double pD(const P& pdf, const cf::LL& o) const { ++calls; if (o != expect_origin) { origin_ok = false; } return f(pdf.x); }
    template<typename R> double kappa(const R&) const { return 1; }
};

template<int S> struct KJ { Eigen::Matrix<double, S, 1> x; Eigen::Matrix<double, S, S> P; double w; ld lw; double d2, cond, cancel; };
template<int S> KJ<S> oracle(const Eigen::Matrix<double, S, 1>& x, const Eigen::Matrix<double, S, S>& P, double w, const Eigen::Matrix<double, 2, S>& Hm, const V2d& z, const M2d& R, double pd, double kappa) {
    O::KU k = O::kalman(Mat::of(x), Mat::of(P), Mat::of(Hm), Mat::of(z), Mat::of(R));
    KJ<S> r;
    for (int i = 0; i < S; ++i) { r.x[i] = k.x(i, 0); for (int j = 0; j < S; ++j) { r.P(i, j) = k.P(i, j); } }
    r.lw = std::log(static_cast<ld>(w)) + std::log(static_cast<ld>(pd)) + k.loglik - std::log(static_cast<ld>(kappa));
    r.w = static_cast<double>(std::exp(r.lw));
    M2d Sm = Hm * P * Hm.transpose() + R;
    V2d d = z - Hm * x;
    r.d2 = d.dot(Sm.inverse() * d);
    Eigen::SelfAdjointEigenSolver<M2d> es(Sm); r.cond = es.eigenvalues()[1] / es.eigenvalues()[0];
    r.cancel = (Hm.norm() * x.norm() + z.norm()) / std::sqrt(es.eigenvalues()[0]) * (1 + std::sqrt(r.d2));     // size of the terms that cancel in the innovation
    return r;
}

template<int S> bool check_component(H::Ctx& c, const KJ<S>& e, const Eigen::Matrix<double, S, 1>& x0, const Eigen::Matrix<double, S, S>& P0, const lmb::Gaussian_<S>& a, const std::string& what) {
    double cond = e.cond, ex = (a.x - e.x).norm(), tx = 1e-13 * cond * ((e.x - x0).norm() + 1e-3 * std::sqrt(P0.trace())) + 1e-12 * (x0.norm() + e.x.norm());
    double eP = (a.P - e.P).norm(), tP = 1e-14 * cond * P0.norm() + 1e-12 * P0.norm();
    c.maxi("mean_error_share", ex / tx); c.maxi("cov_error_share", eP / tP);
    if (!(ex <= tx)) { c.fail("mean", cat(what, ": posterior mean is off the Kalman mean by ", ex, " (allowed ", tx, ")\ngot ", a.x.transpose(), "\nwant ", e.x.transpose())); return false; }
    if (!(eP <= tP)) { c.fail("covariance", cat(what, ": posterior covariance is off the Kalman covariance by ", eP, " (allowed ", tP, ")\ngot\n", a.P, "\nwant\n", e.P)); return false; }
    return true;
}
static double wtol(double cond, double d2, double cancel) { return 1e-14 * cond * (1 + d2) + 1e-11 * (1 + d2) + 1e-14 * cancel; }

template<int S> void gaussian_case(H::Ctx& c) {
    auto& g = c.rng;
    using X = Eigen::Matrix<double, S, 1>;
    X x; for (int i = 0; i < S; ++i) { x[i] = g.n() * g.pick<double>({1, 100, 1e4}); }
    double sc = g.logu(1e-3, 1e3);
    Eigen::Matrix<double, S, S> P = spd<S>(g, 0.01 * sc, 10 * sc);
    LinSensor<S> s;
    if (g.p(0.5)) { s.H.setIdentity(); } else { for (int i = 0; i < 2; ++i) { for (int j = 0; j < S; ++j) { s.H(i, j) = g.p(0.3) ? 0 : g.n(); } } }
    s.p = g.pick<double>({0.9, 1, 0.3, g.u(0, 1)}); s.slope = g.pick<double>({0, 0, 1e-3, 0.1});
    s.expect_origin = cf::LL(g.u(-70, 70), g.u(-170, 170));
    M2d R = spd2(g, 1e-3 * sc * g.logu(0.1, 10), 10 * sc * g.logu(0.1, 100));
    M2d Sm = s.H * P * s.H.transpose() + R;
    V2d z = s.H * x + Eigen::LLT<M2d>(Sm).matrixL() * V2d(g.n(), g.n()) * g.pick<double>({1, 1, 3, 20, 60});
    double w0 = g.pick<double>({1, g.u(0, 1), 1e-6}), kappa = g.logu(1e-9, 1e6);
    auto e = oracle<S>(x, P, w0, s.H, z, R, s.f(x), kappa);
    lmb::Gaussian_<S> a(x, P, w0);
    lmb::GaussianReport_<2> rep(z, R, kappa);
    double ret = a.correct(rep, s, s.expect_origin);
    std::string what = cat("Gaussian of ", S, " states, d2=", e.d2, " kappa=", kappa, " pD=", s.f(x), " weight ", w0);
    if (!check_component<S>(c, e, x, P, a, what)) { return; }
    if (ret != a.w && !(std::isnan(ret) && std::isnan(a.w))) { c.fail("returned", cat(what, ": returns ", ret, " but holds weight ", a.w)); return; }
    if (!s.origin_ok) { c.fail("origin", cat(what, ": detection probability was asked for at another origin")); return; }
    c.maxi("evidence_error_share", e.w > 1e-280 ? std::fabs(a.w / e.w - 1) / wtol(e.cond, e.d2, e.cancel) : 0);
    if (!(std::fabs(a.w - e.w) <= wtol(e.cond, e.d2, e.cancel) * e.w + 1e-280)) { c.fail("evidence", cat(what, ": evidence ", a.w, " expected ", e.w)); return; }
    if (rep.x != z || rep.P != R || rep.kappa != kappa) { c.fail("report-changed", cat(what, ": the report was modified")); return; }
    // moving it by a linear model
    Eigen::Matrix<double, S, S> F = Eigen::Matrix<double, S, S>::Identity(), Q = spd<S>(g, 1e-3 * sc, sc);
    for (int q = g.i(0, 6); q--;) { F(g.i(0, S - 1), g.i(0, S - 1)) = g.n(); }
    auto b = a; b.linear_update(F, Q);
    Mat ex = Mat::of(F) * Mat::of(a.x), eP = Mat::of(F) * Mat::of(a.P) * O::tr(Mat::of(F)) + Mat::of(Q);
    double dx = 0, dP = 0; for (int i = 0; i < S; ++i) { dx += std::fabs(b.x[i] - static_cast<double>(ex(i, 0))); for (int j = 0; j < S; ++j) { dP += std::fabs(b.P(i, j) - static_cast<double>(eP(i, j))); } }
    double fn = 1 + F.squaredNorm();
    if (!(dx <= 1e-13 * fn * a.x.norm()) || !(dP <= 1e-12 * fn * fn * (a.P.norm() + Q.norm())) || b.w != a.w) { c.fail("linear", cat(what, ": linear motion is off by ", dx, " (mean) and ", dP, " (covariance)")); return; }
    c.count("gaussian_updates"); c.mark(e.d2); c.mark(kappa);
    c.sample(cat(what, " -> evidence ", a.w, " mean ", a.x.transpose()));
}

struct MixIn { std::vector<Comp> c; };
static PDF build(H::Rng& g, Params* p, int K, double spread, double p0, double p1, const cf::LL& o, double wsum = 1) {
    PDF pdf(p); pdf.origin = o; pdf.eta = 1;
    double s = 0; std::vector<double> w; for (int k = 0; k < K; ++k) { w.push_back(g.u(0.01, 1)); s += w.back(); }
    for (int k = 0; k < K; ++k) { V4d x; x << g.n() * spread, g.n() * spread, g.n() * 5, g.n() * 5; pdf.c.emplace_back(x, covpv(g, p0, p1, 0.05, 3), w[k] / s * wsum); }
    return pdf;
}

static void mixture_case(H::Ctx& c) {
    auto& g = c.rng;
    Params par; cf::LL o = origin(g);
    int K = g.i(1, g.p(0.1) ? 40 : 6);
    PDF a = build(g, &par, K, g.pick<double>({0, 5, 50}), 0.1, 20, o);
    LinSensor<4> s; s.H.setIdentity(); s.expect_origin = o; s.p = g.pick<double>({0.9, 1, 0.2, 1e-3}); s.slope = g.pick<double>({0, 0.05, 1});
    Sensor real; real.pD_ = s.p; real.fov = fovbox(o, 200000, 200000);
    bool useReal = g.p(0.4); if (useReal) { s.slope = 0; if (K > 12) { return; } }
    PDF b = a;
    std::vector<Comp> exp; comps(a, exp);
    int steps = g.i(1, 3); bool cleared = false;
    for (int st = 0; st < steps && !cleared; ++st) {
        V2d z = exp[g.i(0, K - 1)].x.head<2>() + V2d(g.n(), g.n()) * g.pick<double>({1, 4, 15});
        M2d R = spd2(g, 0.05, 20); double kappa = g.logu(1e-7, 1e3);
        Report rep(z, R, kappa);
        ld tot = 0; std::vector<KJ<4>> ks; double mc = 1, md = 0, mk = 0;
        for (auto& k : exp) { ks.push_back(oracle<4>(k.x, k.P, k.w, s.H, z, R, s.f(k.x), kappa)); tot += std::exp(ks.back().lw); mc = std::max(mc, ks.back().cond); md = std::max(md, std::min(ks.back().d2, 700.0)); mk = std::max(mk, std::min(ks.back().cancel, 1e6)); }
        double eta = useReal ? b.correct(rep, real) : b.correct(rep, s);
        double tol = 20 * wtol(mc, md, mk);
        std::string what = cat("mixture of ", K, " components, step ", st, useReal ? " (position sensor)" : "", " kappa=", kappa, " evidence ", static_cast<double>(tot));
        if (tot < 1e-8L) {
            if (tot > 0.99e-8L) { return; }
            if (eta != 0 || !b.c.empty()) { c.fail("floor", cat(what, ": below the numerical floor but returns ", eta, " with ", b.c.size(), " components")); return; }
            cleared = true; c.count("below_floor"); break;
        }
        if (tot < 1.01e-8L) { return; }
        if (!(std::fabs(eta - static_cast<double>(tot)) <= tol * static_cast<double>(tot))) { c.fail("evidence", cat(what, ": returned evidence ", eta)); return; }
        if (b.c.size() != exp.size()) { c.fail("components", cat(what, ": now ", b.c.size(), " components")); return; }
        ld ws = 0;
        for (int k = 0; k < K; ++k) {
            double ew = static_cast<double>(std::exp(ks[k].lw) / tot);
            ws += b.c[k].w;
            if (!(std::fabs(b.c[k].w - ew) <= tol * ew + 1e-12)) { c.fail("weight", cat(what, ": component ", k, " weighs ", b.c[k].w, " expected ", ew)); return; }
            if (!check_component<4>(c, ks[k], exp[k].x, exp[k].P, b.c[k], what)) { return; }
        }
        if (!(std::fabs(static_cast<double>(ws) - 1) <= 1e-12)) { c.fail("normalised", cat(what, ": weights sum to ", static_cast<double>(ws))); return; }
        c.maxi("mixture_evidence_error", std::fabs(eta / static_cast<double>(tot) - 1) / tol);
        if (!s.origin_ok) { c.fail("origin", cat(what, ": detection probability was asked for at another origin")); return; }
        comps(b, exp); c.count("mixture_updates", K); c.mark(static_cast<double>(tot));
    }
    // missed detection: weights, density untouched
    PDF m = a; std::vector<Comp> before; comps(a, before);
    ld ap = 0; for (auto& k : before) { ap += static_cast<ld>(k.w) * s.f(k.x); }
    double mi = useReal ? m.missed(real) : m.missed(s);
    double em = std::max(0.0, 1 - static_cast<double>(ap));
    if (!(mi >= 0) || !(std::fabs(mi - em) <= 1e-14)) { c.fail("missed", cat("missed-detection weight ", mi, ", expected ", em, " (", K, " components, pD ", s.p, ")")); return; }
    std::vector<Comp> after; comps(m, after);
    for (size_t k = 0; k < before.size(); ++k) { if (k >= after.size() || after[k].x != before[k].x || after[k].P != before[k].P || after[k].w != before[k].w) { c.fail("missed-density", "a missed detection changed the density"); return; } }
    // pD = 1 with weights that do not sum to exactly one
    for (auto& k : m.c) { k.w *= 1 + 1e-15; }
    s.p = 1; s.slope = 0; double m1 = m.missed(s);
    if (!(m1 >= 0 && m1 < 1e-13)) { c.fail("missed-negative", cat("missed-detection weight ", m1, " at full detection probability")); return; }
    c.count("missed"); c.mark(mi);
    c.sample(cat("mixture of ", K, " components, pD ", s.p, " missed weight ", mi));
}

static void f03(H::Ctx& c) {
    for (int q = 0; q < 6; ++q) { gaussian_case<4>(c); mixture_case(c); }
    gaussian_case<2>(c); gaussian_case<6>(c);
}

// ---- F08
template<int S, int CAP> void join_case(H::Ctx& c) {
    auto& g = c.rng;
    using G = lmb::GM<S, CAP>;
    using X = Eigen::Matrix<double, S, 1>; using C = Eigen::Matrix<double, S, S>;
    Params par; par.cw_lim = g.pick<double>({0.01, 0, 0.05, 0.2, 1e-4});
    int J = g.i(1, 8);
    std::vector<G> pdfs(J, G(&par));
    Eigen::MatrixXd W(2, J);
    bool ties = g.p(0.2);
    int label = 0; struct It { double w; int id; X x; C P; };
    std::vector<It> all;
    for (int j = 0; j < J; ++j) {
        int K = g.i(g.p(0.2) ? 0 : 1, CAP > 50 && g.p(0.1) ? 150 : 8);
        double s = 0; std::vector<double> w; for (int k = 0; k < K; ++k) { w.push_back(ties ? g.i(1, 3) : g.p(0.2) ? g.logu(1e-6, 1) : g.u(0, 1)); s += w.back(); }
        W(0, j) = g.p(0.15) ? 0 : ties ? 0.5 : g.u(0, 1); W(1, j) = g.u();
        for (int k = 0; k < K; ++k) {
            X x; for (int i = 0; i < S; ++i) { x[i] = g.n() * 100; } x[0] = ++label;
            C P = spd<S>(g, 0.1, 10);
            pdfs[j].c.emplace_back(x, P, w[k] / s);
            all.push_back({W(0, j) * (w[k] / s), label, x, P});
        }
    }
    std::stable_sort(all.begin(), all.end(), [](const It& a, const It& b) { return a.w > b.w; });
    size_t keep = 0; double run = 0; bool edge = false;
    while (keep < all.size() && keep < static_cast<size_t>(CAP)) {
        double nw = all[keep].w; run += nw;
        if (std::fabs(nw / run - par.cw_lim) < 1e-9) { edge = true; }
        if (nw / run < par.cw_lim) { run -= nw; break; }
        ++keep;
    }
    double tot = 0; for (size_t k = 0; k < keep; ++k) { tot += all[k].w; }
    if (tot < 1.1e-8) { if (tot > 0.9e-8) { return; } keep = 0; }
    if (edge) { c.count("edge"); return; }
    G out(&par); { X x = X::Ones(); out.c.emplace_back(x, C(C::Identity()), 0.5); }
    G::join(out, W.row(0), pdfs);
    std::string what = cat("join of ", J, " mixtures, ", all.size(), " components, limit ", par.cw_lim, " cap ", CAP);
    if (out.c.size() != keep) { c.fail("kept-count", cat(what, ": keeps ", out.c.size(), " components instead of ", keep)); return; }
    std::map<int, const It*> by; for (auto& i : all) { by[i.id] = &i; }
    std::set<int> seen; double ws = 0; std::vector<double> got, want;
    for (auto& k : out.c) {
        int id = static_cast<int>(std::lround(k.x[0]));
        if (!by.count(id) || !seen.insert(id).second) { c.fail("component-identity", cat(what, ": component ", id, " is kept twice or unknown")); return; }
        if (k.x != by[id]->x || k.P != by[id]->P) { c.fail("component-changed", cat(what, ": mean or covariance of component ", id, " was changed")); return; }
        if (!(std::fabs(k.w - by[id]->w / tot) <= 1e-12)) { c.fail("component-weight", cat(what, ": component ", id, " weighs ", k.w, " expected ", by[id]->w / tot)); return; }
        ws += k.w; got.push_back(k.w);
    }
    if (keep && !(std::fabs(ws - 1) < 1e-12)) { c.fail("normalised", cat(what, ": weights sum to ", ws)); return; }
    std::sort(got.rbegin(), got.rend());
    for (size_t k = 0; k < keep; ++k) { if (std::fabs(got[k] - all[k].w / tot) > 1e-12) { c.fail("not-heaviest", cat(what, ": the components kept are not the heaviest")); return; } }
    if (keep && !(std::fabs(out.eta - tot) <= 1e-12 * (1 + tot))) { c.fail("eta", cat(what, ": total weight reported as ", out.eta, ", is ", tot)); return; }
    c.count("joins"); c.count("components_joined", all.size()); if (keep < all.size()) { c.count("joins_reducing"); } if (keep == CAP) { c.count("capped"); }
    // adding
    G a(&par), b(&par); std::vector<It> sum;
    auto fill = [&](G& m) { int K = g.i(0, CAP > 50 && g.p(0.05) ? 160 : 7); double s = 0; std::vector<double> w; for (int k = 0; k < K; ++k) { w.push_back(g.u(0.001, 1)); s += w.back(); }
        if (K && par.cw_lim > 0 && g.p(0.3)) { int k = g.i(0, K - 1); s += par.cw_lim - w[k]; w[k] = par.cw_lim; double t = 0; for (int i = 0; i < K; ++i) { t += i == k ? 0 : w[i]; } if (t > 0) { for (int i = 0; i < K; ++i) { if (i != k) { w[i] *= (1 - par.cw_lim) / t; } } s = 1; } }    // a weight exactly at the limit
        for (int k = 0; k < K; ++k) { X x; for (int i = 0; i < S; ++i) { x[i] = g.n(); } x[0] = ++label; C P = spd<S>(g, 0.1, 10); m.c.emplace_back(x, P, w[k] / s); sum.push_back({w[k] / s, label, x, P}); } };
    fill(a); fill(b);
    G a0 = a, b0 = b;
    G r1 = a + b;
    if (a.c.size() != a0.c.size() || b.c.size() != b0.c.size()) { c.fail("operand-changed", cat("adding two mixtures changed an operand")); return; }
    G r2 = a; r2 += b;
    std::vector<It> kept; bool e2 = false; for (auto& i : sum) { if (i.w != par.cw_lim && std::fabs(i.w - par.cw_lim) < 1e-12) { e2 = true; } if (i.w >= par.cw_lim) { kept.push_back(i); } }
    std::stable_sort(kept.begin(), kept.end(), [](const It& p, const It& q) { return p.w > q.w; });
    if (kept.size() > static_cast<size_t>(CAP)) { kept.resize(CAP); }
    double t2 = 0; for (auto& i : kept) { t2 += i.w; }
    by.clear(); for (auto& i : sum) { by[i.id] = &i; }
    if (!e2) {
        for (G* r : {&r1, &r2}) {
            std::string w2 = cat(r == &r1 ? "a+b" : "a+=b", " of ", a0.c.size(), " and ", b0.c.size(), " components, limit ", par.cw_lim, " cap ", CAP);
            if (r->c.size() != kept.size()) { c.fail("sum-count", cat(w2, ": ", r->c.size(), " components instead of ", kept.size())); return; }
            double s = 0; std::set<int> sn; double lightest = 1e9;
            for (auto& k : r->c) {
                int id = std::lround(k.x[0]); if (!by.count(id) || !sn.insert(id).second || k.x != by[id]->x || k.P != by[id]->P) { c.fail("sum-component", cat(w2, ": component ", id, " changed or repeated")); return; }
                if (!(std::fabs(k.w - by[id]->w / t2) < 1e-12)) { c.fail("sum-weight", cat(w2, ": component ", id, " weighs ", k.w, " expected ", by[id]->w / t2)); return; }
                s += k.w; lightest = std::min(lightest, by[id]->w);
            }
            if (kept.size() && !(std::fabs(s - 1) < 1e-12)) { c.fail("sum-normalised", cat(w2, ": weights sum to ", s)); return; }
            for (auto& i : sum) { if (!sn.count(i.id) && i.w > lightest + 1e-12) { c.fail("sum-not-heaviest", cat(w2, ": a heavier component was dropped")); return; } }
        }
        c.count("sums");
    }
    // moments
    auto moments = [&](const G& m, const char* who) {
        if (m.c.empty()) { return true; }
        std::vector<ld> mu(S, 0); Mat V(S, S);
        for (auto& k : m.c) { for (int i = 0; i < S; ++i) { mu[i] += static_cast<ld>(k.w) * k.x[i]; } }
        for (auto& k : m.c) { for (int i = 0; i < S; ++i) { for (int j = 0; j < S; ++j) { V(i, j) += static_cast<ld>(k.w) * (k.P(i, j) + (k.x[i] - mu[i]) * (k.x[j] - mu[j])); } } }
        X x = m.mean(); C P = m.cov(), P2 = m.cov(x); G mm = m; V2d ps = mm.pos(); V2d vl = mm.vel(); M2d pc = m.poscov(), vc = m.velcov();
        double sc = 0, sx = 0; for (int i = 0; i < S; ++i) { sc += static_cast<double>(V(i, i)); for (auto& k : m.c) { sx = std::max(sx, std::fabs(k.x[i])); } }
        for (int i = 0; i < S; ++i) {
            if (!(std::fabs(x[i] - static_cast<double>(mu[i])) < 1e-12 * (1 + sx))) { c.fail("mean", cat(who, ": mean of a mixture of ", m.c.size(), " components: entry ", i, " is ", x[i], " not ", static_cast<double>(mu[i]))); return false; }
            for (int j = 0; j < S; ++j) { for (auto* q : {&P, &P2}) { if (!(std::fabs((*q)(i, j) - static_cast<double>(V(i, j))) < 1e-11 * (1 + sc))) { c.fail("cov", cat(who, ": covariance of a mixture of ", m.c.size(), " components: entry ", i, ",", j, " is ", (*q)(i, j), " not ", static_cast<double>(V(i, j)))); return false; } } }
        }
        if (ps != x.template head<2>() || vl != x.template tail<2>() || pc != P.template topLeftCorner<2, 2>() || vc != P.template bottomRightCorner<2, 2>()) { c.fail("parts", cat(who, ": position or velocity part differs from the full moments")); return false; }
        c.count("moments"); return true;
    };
    if (!moments(out, "joined") || !moments(r1, "added") || !moments(pdfs[0], "given")) { return; }
    c.mark(tot); c.mark(static_cast<uint64_t>(keep)); c.sample(what + cat(" -> ", keep, " kept, total ", tot));
}

static void target_moments(H::Ctx& c) {
    auto& g = c.rng;
    Params par; par.cov_lim = 1e9; Tracker t(par); cf::LL o = origin(g);
    int n = g.i(1, 4);
    for (int i = 0; i < n; ++i) {
        V2d m(g.u(-3000, 3000), g.u(-3000, 3000)), v(g.n() * 5, g.n() * 5);
        add(t, &t.params, g.u(0.1, 1), rmix(g, m, v, g.i(1, 6), g.pick<double>({0, 3, 60}), 0.2, 50), o);
    }
    Snaps s = snap(t); auto sum = t.get_targets();
    if (sum.size() != s.size()) { c.fail("summaries", "number of summaries"); return; }
    for (size_t i = 0; i < s.size(); ++i) {
        V4d mean = s[i].mean(); V2d ll = mean.head<2>();
        std::vector<V4d> xs; V4d mu = V4d::Zero();
        for (auto& k : s[i].c) { V4d x = k.x; x.head<2>() = T::ll2ne(V2d(k.x.head<2>()), ll); xs.push_back(x); mu += k.w * x; }
        M4d P = M4d::Zero(); for (size_t k = 0; k < xs.size(); ++k) { V4d d = xs[k] - mu; P += s[i].c[k].w * (s[i].c[k].P + d * d.transpose()); }
        M4d A = t.targettree.targets[i]->cov(), B = sum[i].P;
        V4d x = sum[i].x;
        double tol = 1e-6 * P.norm() + 1e-6;
        if (!((A - P).norm() < tol)) { c.fail("target-cov", cat("target covariance\n", A, "\nexact mixture covariance in metres\n", P)); return; }
        if (!((B - P).norm() < tol)) { c.fail("summary-cov", cat("summary covariance\n", B, "\nexact mixture covariance in metres\n", P)); return; }
        if (!(std::fabs(x[0] - mean[0]) < 1e-11 && std::fabs(x[1] - mean[1]) < 1e-11 && (x - mean).tail<2>().norm() < 1e-9)) { c.fail("summary-mean", cat("summary mean ", x.transpose(), " not ", mean.transpose())); return; }
        if (sum[i].w != s[i].r || sum[i].r != s[i].r || sum[i].id != s[i].id || sum[i].cid != s[i].cid) { c.fail("summary-fields", "summary fields differ from the target's"); return; }
        c.count("target_moments");
    }
}
static void f08(H::Ctx& c) { for (int q = 0; q < 3; ++q) { join_case<4, 200>(c); join_case<4, 5>(c); join_case<2, 3>(c); join_case<6, 20>(c); join_case<4, 1>(c); } target_moments(c); }

// ---- R02
// Kolmogorov-Smirnov bound exceeded with probability below 1e-12
static double ksbound(int n) { return std::sqrt(std::log(2 / 1e-12) / (2.0 * n)) + 1e-9; }
static double ks(std::vector<double> v, const std::function<double(double)>& cdf) {
    std::sort(v.begin(), v.end()); double d = 0; int n = v.size();
    for (int i = 0; i < n; ++i) { double f = cdf(v[i]); d = std::max(d, std::max(f - i / double(n), (i + 1) / double(n) - f)); }
    return d;
}
static double phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }

// whitened samples in columns: standard normal, independent between entries and neighbours
static bool white(H::Ctx& c, const Eigen::MatrixXd& y, const std::string& what) {
    int d = y.rows(), n = y.cols();
    if (n < 50) { return true; }
    for (int i = 0; i < d; ++i) {
        double m = y.row(i).mean() * std::sqrt(double(n));
        c.maxi("z_mean", std::fabs(m));
        if (!(std::fabs(m) < 7)) { c.fail("mean", cat(what, ": mean of entry ", i, " is ", m, " standard errors off")); return false; }
        for (int j = 0; j <= i; ++j) {
            double s = ((y.row(i).array() * y.row(j).array()).mean() - (i == j)) * std::sqrt(double(n) / (i == j ? 2 : 1));
            c.maxi("z_cov", std::fabs(s));
            if (!(std::fabs(s) < 8)) { c.fail("covariance", cat(what, ": covariance entry ", i, ",", j, " of the whitened samples is ", s, " standard errors off")); return false; }
        }
        double lag = 0; for (int k = 0; k + 1 < n; ++k) { lag += y(i, k) * y(i, k + 1); } lag /= std::sqrt(double(n - 1));
        if (!(std::fabs(lag) < 8)) { c.fail("dependence", cat(what, ": neighbouring samples are correlated, ", lag, " standard errors")); return false; }
        std::vector<double> v(n); for (int k = 0; k < n; ++k) { v[k] = y(i, k); }
        double D = ks(v, phi); c.maxi("ks_share", D / ksbound(n));
        if (!(D < ksbound(n))) { c.fail("shape", cat(what, ": entry ", i, " is not normal, KS distance ", D, " for ", n, " samples")); return false; }
    }
    return true;
}
template<int S> static Eigen::MatrixXd whiten(const Eigen::MatrixXd& x, const Eigen::Matrix<double, S, 1>& m, const Eigen::Matrix<double, S, S>& P) {
    Eigen::LLT<Eigen::Matrix<double, S, S>> L(P);
    return L.matrixL().solve(x.colwise() - m);
}

template<int S> static void sample_gauss(H::Ctx& c) {
    auto& g = c.rng;
    Eigen::Matrix<double, S, 1> m; for (int i = 0; i < S; ++i) { m[i] = g.n() * g.pick<double>({0, 1, 1e4}); }
    double sc = g.logu(1e-2, 1e4);
    Eigen::Matrix<double, S, S> P = spd<S>(g, sc * g.pick<double>({1e-3, 0.1}), sc);
    int n = g.pick<int>({1, 2, 100, 1000, 3000});
    lmb::Gaussian_<S> G(m, P);
    const double SENT = 1.2345e300;
    std::string what = cat("Gaussian of ", S, " states, ", n, " samples");
    Eigen::Matrix<double, S, Eigen::Dynamic> x = Eigen::Matrix<double, S, Eigen::Dynamic>::Constant(S, n, SENT);
    G.sample(x);
    if (!((x.array() < 1e299).all())) { c.fail("unset", cat(what, ": a requested sample was not produced")); return; }
    if (!white(c, whiten<S>(x, m, P), what)) { return; }
    Eigen::Array<double, 2, Eigen::Dynamic> xp = Eigen::Array<double, 2, Eigen::Dynamic>::Constant(2, n, SENT);
    auto blk = xp.matrix(); G.sample_pos(blk);
    if (!((xp < 1e299).all())) { c.fail("unset", cat(what, ": a requested position sample was not produced")); return; }
    if (!white(c, whiten<2>(xp.matrix(), m.template head<2>(), P.template topLeftCorner<2, 2>()), what + " (position only)")) { return; }
    c.count("samples", 2 * n); c.mark(P(0, 1)); c.mark(static_cast<uint64_t>(n));
    c.sample(cat(what, " mean ", m.transpose()));
    // singular covariance: samples stay on its line
    if (S == 4 && n >= 100) {
        Eigen::Matrix<double, S, 1> d; for (int i = 0; i < S; ++i) { d[i] = g.n(); }
        Eigen::Matrix<double, S, S> P1 = d * d.transpose(); lmb::Gaussian_<S> G1(m, P1); G1.sample(x);
        Eigen::MatrixXd y = x.colwise() - m; Eigen::RowVectorXd t = d.transpose() * y / d.squaredNorm();
        double off = (y - d * t).norm() / std::sqrt(double(n));
        if (!(off <= 1e-6 * d.norm() + 1e-11 * m.norm())) { c.fail("singular", cat(what, ": samples of a singular covariance lie ", off, " off its support")); return; }
        if (!white(c, t, what + " (singular covariance)")) { return; }
        c.count("singular");
    }
}

static void sample_mix(H::Ctx& c) {
    auto& g = c.rng; Params par; cf::LL o = origin(g);
    int K = g.i(1, 7); PDF m(&par);
    double s = 0; std::vector<double> w; for (int k = 0; k < K; ++k) { w.push_back(g.p(0.2) ? g.logu(1e-4, 1) : g.u(0.01, 1)); s += w.back(); }
    for (int k = 0; k < K; ++k) { V4d x; x << 10000.0 * k, g.u(-500, 500), g.n(), g.n(); M4d P = covpv(g, 0.1, 400, 0.05, 3); m.c.emplace_back(x, P, w[k] / s); }
    int n = g.pick<int>({1, 3, 7, 50, 1000, 1000, 4000});
    const double SENT = 1.2345e300;
    for (int full = 0; full < 2; ++full) {
        std::string what = cat("mixture of ", K, " components, ", n, full ? " full" : " position", " samples");
        Eigen::Matrix<double, 4, Eigen::Dynamic> x = Eigen::Matrix<double, 4, Eigen::Dynamic>::Constant(4, n, SENT);
        Eigen::Array<double, 2, Eigen::Dynamic> xp = Eigen::Array<double, 2, Eigen::Dynamic>::Constant(2, n, SENT);
        if (full) { m.sample(x); } else { m.sample_pos(xp); }
        if (full ? !((x.array() < 1e299).all()) : !((xp < 1e299).all())) { c.fail("unset", cat(what, ": a requested sample was not produced")); return; }
        std::vector<std::vector<int>> by(K);
        for (int i = 0; i < n; ++i) { int k = static_cast<int>(std::lround((full ? x(0, i) : xp(0, i)) / 10000)); if (k < 0 || k >= K) { c.fail("stray", cat(what, ": sample far from every component")); return; } by[k].push_back(i); }
        for (int k = 0; k < K; ++k) {
            double e = n * m.c[k].w, dev = std::fabs(by[k].size() - e), lim = 7 * std::sqrt(e * (1 - m.c[k].w)) + 12;
            c.maxi("proportion_deviation", dev);
            if (!(dev <= std::min(lim, 1e9))) { c.fail("proportions", cat(what, ": component of weight ", m.c[k].w, " got ", by[k].size(), " samples")); return; }
            int q = by[k].size();
            if (full) { Eigen::MatrixXd y(4, q); for (int i = 0; i < q; ++i) { y.col(i) = x.col(by[k][i]); } if (!white(c, whiten<4>(y, m.c[k].x, m.c[k].P), what + cat(" component ", k))) { return; } }
            else { Eigen::MatrixXd y(2, q); for (int i = 0; i < q; ++i) { y.col(i) = xp.col(by[k][i]).matrix(); } if (!white(c, whiten<2>(y, m.c[k].x.head<2>(), m.c[k].P.topLeftCorner<2, 2>()), what + cat(" component ", k))) { return; } }
        }
        c.count("mixture_samples", n);
    }
    c.mark(m.c[0].w); c.mark(static_cast<uint64_t>(n));
}

// share of a density inside a box: each estimate within its own error, the average error within its own
struct Shares {
    double z = 0; int n = 0;
    bool add(H::Ctx& c, double est, double p, double var, double wmax, const std::string& what) {
        double dev = std::fabs(est - p), lim = 6.5 * std::sqrt(var) + 25 * wmax / 1000;
        c.maxi("share_deviation", dev);
        if (!(est >= -1e-12 && est <= 1 + 1e-9)) { c.fail("share-range", cat(what, ": share ", est)); return false; }
        if (!(dev <= lim)) { c.fail("share", cat(what, ": estimated share ", est, ", true probability ", p, " (allowed deviation ", lim, ")")); return false; }
        if (var > 1e-5) { z += (est - p) / std::sqrt(var); ++n; }
        c.count("shares"); return true;
    }
    void done(H::Ctx& c) { if (n > 3) { double t = z / std::sqrt(double(n)); c.maxi("z_share", std::fabs(t)); if (!(std::fabs(t) < 6.5)) { c.fail("share-bias", cat("shares of ", n, " densities are biased by ", t, " standard errors")); } } }
};
static std::vector<O::V2> polyof(const lmb::BBox& b) { std::vector<O::V2> v; for (int k = 0; k < 4; ++k) { v.push_back({b.corners(0, k), b.corners(1, k)}); } return v; }
static Mat pos2(const M4d& P) { Mat m(2, 2); for (int i = 0; i < 2; ++i) { for (int j = 0; j < 2; ++j) { m(i, j) = P(i, j); } } return m; }

static void shares(H::Ctx& c) {
    auto& g = c.rng; Params par; Shares acc; cf::LL o = origin(g);
    for (int q = 0; q < 24; ++q) {
        int K = g.p(0.5) ? 1 : g.i(2, 4);
        PDF m = build(g, &par, K, g.pick<double>({0, 10}), 0.5, 60, o);
        double th = g.u(0, M_PI), a = g.logu(0.5, 60), b = g.logu(0.5, 60); V2d ce(g.n() * 8, g.n() * 8);
        bool ax = g.p(0.4); if (ax) { th = 0; }
        lmb::BBox::Corners cc; const double sg[4][2] = {{1, 1}, {1, -1}, {-1, -1}, {-1, 1}};
        for (int k = 0; k < 4; ++k) { double u = a * sg[k][0], v = b * sg[k][1]; cc.col(k) << ce[0] + u * std::cos(th) - v * std::sin(th), ce[1] + u * std::sin(th) + v * std::cos(th); }
        lmb::BBox box(cc); lmb::AABBox ab = box.aabbox();
        double p = 0, var = 0, wm = 0;
        for (auto& k : m.c) { O::V2 mm{k.x[0], k.x[1]}; double pk = ax ? O::boxprob(mm, pos2(k.P), ab.min[0], ab.max[0], ab.min[1], ab.max[1]) : O::polyprob(mm, pos2(k.P), polyof(box)); p += k.w * pk; var += k.w * k.w * pk * (1 - pk) / 1000; wm = std::max(wm, k.w); }
        std::string what = cat("mixture of ", K, " components in a ", 2 * a, "x", 2 * b, " box at angle ", th);
        double est = K == 1 && g.p(0.5) ? (ax && g.p(0.5) ? m.c[0].overlap(ab) : m.c[0].overlap(box)) : (ax && g.p(0.5) ? m.overlap(ab) : m.overlap(box));
        if (!acc.add(c, est, p, var, wm, what)) { return; }
        c.mark(p);
    }
    acc.done(c);
}

static void streams(H::Ctx& c) {
    // raw generators, alone and from several threads at once
    int n = 4000; std::vector<double> u(n), v(n);
    for (int i = 0; i < n; ++i) { u[i] = lmb::urand(); v[i] = lmb::nrand(); }
    for (double x : u) { if (!(x >= 0 && x < 1)) { c.fail("uniform-range", cat("uniform sample ", x)); return; } }
    double D = ks(u, [](double x) { return x; }), E = ks(v, phi);
    if (!(D < ksbound(n))) { c.fail("uniform", cat("uniform samples: KS distance ", D)); return; }
    if (!(E < ksbound(n))) { c.fail("normal", cat("normal samples: KS distance ", E)); return; }
    const int TH = 4; std::vector<std::vector<double>> s(TH, std::vector<double>(1000));
    #pragma omp parallel for num_threads(4)
    for (int t = 0; t < TH; ++t) { for (auto& x : s[t]) { x = lmb::nrand(); } }
    std::vector<double> all; for (auto& x : s) { all.insert(all.end(), x.begin(), x.end()); }
    if (!(ks(all, phi) < ksbound(all.size()))) { c.fail("normal-threads", "normal samples drawn from several threads are not normal"); return; }
    for (int a = 0; a < TH; ++a) { for (int b = 0; b < a; ++b) { std::set<double> A(s[a].begin(), s[a].end()); int dup = 0; for (double x : s[b]) { dup += A.count(x); } if (dup > 3) { c.fail("streams-equal", cat("two threads draw the same samples (", dup, " of 1000)")); return; } } }
    c.count("raw_samples", 3 * n);
}
// how often samples fall beyond so many standard deviations, on each side, up to where a handful are expected
static void tails(H::Ctx& c) {
    auto& g = c.rng; const double lim[] = {2, 3, 3.5, 4, 4.5, 4.75}; const int L = 6;
    bool whole = g.p(0.5); long n = whole ? 3000000 : 1200000; std::vector<std::array<double, 2>> cnt(L, {0, 0}); double far = 0;
    auto put = [&](double v) { for (int k = 0; k < L; ++k) { if (v > lim[k]) { ++cnt[k][1]; } else if (v < -lim[k]) { ++cnt[k][0]; } } far = std::max(far, std::fabs(v)); };
    if (!whole) { for (long i = 0; i < n; ++i) { put(lmb::nrand()); } }
    else {
        V2d mu(g.u(-50, 50), g.u(-50, 50)); M2d P = spd2(g, 0.1, 50); Eigen::LLT<M2d> ch(P); lmb::Gaussian_<2> q(mu, P, 1);
        for (long i = 0; i < n / 20000; ++i) { Eigen::Matrix<double, 2, Eigen::Dynamic> x(2, 10000); q.sample(x); for (int j = 0; j < 10000; ++j) { V2d y = ch.matrixL().solve(x.col(j) - mu); put(y[0]); put(y[1]); } }
    }
    for (int k = 0; k < L; ++k) { for (int side = 0; side < 2; ++side) {
        double ex = n * 0.5 * std::erfc(lim[k] / std::sqrt(2.0)), k_ = cnt[k][side], bound = ex - k_ + (k_ > 0 ? k_ * std::log(k_ / ex) : 0);     // Chernoff: probability of such a count is at most exp(-bound)
        if (!(bound < 36)) { c.fail("tail", cat(whole ? "mixture component" : "generator", ": ", k_, " of ", n, " samples lie beyond ", side ? "+" : "-", lim[k], " standard deviations, expected ", ex)); return; }
    } }
    if (!(far < 9)) { c.fail("tail-far", cat("a sample lies ", far, " standard deviations out in ", n, " draws")); return; }
    if (!whole) {
        long lo = 0, hi = 0, m = 1000000; for (long i = 0; i < m; ++i) { double u = lmb::urand(); lo += u < 1e-3; hi += u >= 1 - 1e-3; }
        for (double k : {lo * 1.0, hi * 1.0}) { if (!(std::fabs(k - 1000) < 320)) { c.fail("uniform-tail", cat(k, " of ", m, " uniform samples fall in an outermost thousandth")); return; } }
    }
    c.count("tail_samples", n); c.maxi("tail_far", far);
}
static void r02(H::Ctx& c) { if (c.cas / 8 % 64 == c.cas % 8) { tails(c); } sample_gauss<4>(c); sample_gauss<2>(c); sample_mix(c); sample_mix(c); if (c.rng.p(0.3)) { shares(c); } if (c.cas % 8 == c.cas / 8 % 8) { streams(c); } }

// ---- F09: detection probability at the edge of the field of view
// boxes clearly apart (own separating-axis test, with a margin)
template<typename C> static bool disjoint(const C& a, const C& b, O::ld margin) {
    for (auto* e : {&a, &b}) {
        for (int i = 0; i < 4; ++i) {
            O::ld nx = -(static_cast<O::ld>((*e)(1, (i + 1) % 4)) - (*e)(1, i)), ny = static_cast<O::ld>((*e)(0, (i + 1) % 4)) - (*e)(0, i), l = hypotl(nx, ny);
            O::ld lo[2] = {1e300L, 1e300L}, hi[2] = {-1e300L, -1e300L};
            for (int k = 0; k < 4; ++k) { int w = 0; for (auto* q : {&a, &b}) { O::ld v = (nx * (*q)(0, k) + ny * (*q)(1, k)) / l; lo[w] = std::min(lo[w], v); hi[w] = std::max(hi[w], v); ++w; } }
            if (l > 0 && (lo[0] > hi[1] + margin || lo[1] > hi[0] + margin)) { return true; }
        }
    }
    return false;
}
static void f09(H::Ctx& c) {
    auto& g = c.rng; Params par; Shares acc;
    for (int q = 0; q < 16; ++q) {
        cf::LL o = origin(g); double pD = g.pick<double>({1, 0.9, 0.5, 0.1});
        cf::LL fo = ne2ll(V2d(g.n() * 3000, g.n() * 3000), o);
        Op op; op.fc = V2d(0, 0); op.fn = g.logu(3, 5000); op.fe = g.logu(3, 5000); op.fth = g.p(0.4) ? 0 : g.u(0, M_PI);
        Sensor s = sensor<Sensor>(op, fo); s.pD_ = pD;
        // component somewhere around an edge, in the local frame at o
        std::vector<O::V2> poly; for (int k = 0; k < 4; ++k) { V2d p = T::ll2ne(V2d(s.fov.corners(0, k), s.fov.corners(1, k)), o); poly.push_back({p[0], p[1]}); }
        int e = g.i(0, 3); double t = g.u(-0.2, 1.2); V2d A(poly[e][0], poly[e][1]), B(poly[(e + 1) % 4][0], poly[(e + 1) % 4][1]);
        double sc = g.logu(0.5, 100);
        int K = g.p(0.6) ? 1 : g.i(2, 4); PDF m(&par); m.origin = o;
        double p = 0, var = 0, wm = 0; std::vector<double> pk; double ws = 0; std::vector<double> ww; for (int k = 0; k < K; ++k) { ww.push_back(g.u(0.1, 1)); ws += ww.back(); }
        for (int k = 0; k < K; ++k) {
            V2d at = A + t * (B - A) + V2d(g.n(), g.n()) * std::sqrt(sc); V4d x; x << at, g.n(), g.n(); M4d P = covpv(g, 0.2 * sc, 2 * sc, 0.1, 2);
            m.c.emplace_back(x, P, ww[k] / ws);
            double pr = O::polyprob({at[0], at[1]}, pos2(P), poly); pk.push_back(pr); double w = ww[k] / ws; p += w * pr; var += w * w * pr * (1 - pr) / 1000; wm = std::max(wm, w);
        }
        std::string what = cat("component of spread ", std::sqrt(sc), " m at the edge of a ", 2 * op.fn, "x", 2 * op.fe, " m view, origin ", o.transpose());
        double est = s.pD(m.c[0], o);
        if (!acc.add(c, est / pD, pk[0], pk[0] * (1 - pk[0]) / 1000, 1, what)) { return; }
        double mi = m.missed(s);
        if (!acc.add(c, (1 - mi) / pD, p, var, wm, "missed: " + what)) { return; }
        // exactly full inside, exactly zero outside
        V4d x; V4d y; x << (A + (V2d((poly[0][0] + poly[2][0]) / 2, (poly[0][1] + poly[2][1]) / 2) - A)), 0, 0; M4d P = M4d::Identity() * 1e-2;
        if (std::min(op.fn, op.fe) > 3) { double v = s.pD(Gaussian(x, P), o); if (!(std::fabs(v - pD) < 1e-12)) { c.fail("inside", cat("detection probability ", v, " of ", pD, " in the middle of the view: ", what)); return; } }
        y = x; y.head<2>() += (op.fn + op.fe) * 2 * V2d(std::cos(t * 9), std::sin(t * 9));
        { double v = s.pD(Gaussian(y, P), o); if (v != 0) { c.fail("outside", cat("detection probability ", v, " well outside the view: ", what)); return; } }
        // one undetected target in a tracker: existence follows the missed-detection rule with that share
        Params tp; tp.r_lim = 1e-6; tp.cov_lim = 1e12; tp.w_lim = 0; tp.nstd = g.pick<double>({1.9, 0.5, 1, 3}); Tracker tr(tp);
        std::vector<Comp> cs; comps(m, cs); double r = g.u(0.2, 0.99); add(tr, &tr.params, r, cs, o); Snap b0 = snap(tr)[0]; Scan z;
        auto* tg = tr.targettree.targets[0]; const lmb::BBox hull[2] = {lmb::BBox(tg->llaabbox()), lmb::BBox(s.fov.aabbox())};
        // clearly apart, and not clearly meeting: its oriented box and the view, or its axis-aligned box and the view's
        bool apart = disjoint(tg->pdf.bbox.corners, s.fov.corners, 1e-9L) || disjoint(hull[0].corners, hull[1].corners, 1e-9L);
        bool contact = disjoint(tg->pdf.bbox.corners, s.fov.corners, -1e-9L) || disjoint(hull[0].corners, hull[1].corners, -1e-9L);
        tr.correct(s, z, 0);
        Snaps af = snap(tr);
        if (apart) {    // the stored box is clear of the view, even if the density's tail is not
            c.count("clear_of_view");
            bool same = af.size() == 1 && af[0].r == b0.r && af[0].c.size() == b0.c.size();
            for (size_t k = 0; same && k < b0.c.size(); ++k) { same = af[0].c[k].x == b0.c[k].x && af[0].c[k].P == b0.c[k].P && af[0].c[k].w == b0.c[k].w; }
            if (!same) { c.fail("clear-of-view", cat("target whose box does not meet the view was changed: share ", p, ", existence ", r, " became ", af.empty() ? 0 : af[0].r, ": ", what)); return; }
            c.mark(p); continue;
        }
        double pd = pD * p, er = r * (1 - pd) / (1 - r * pd);
        double dr = 8 * std::sqrt(var) * pD + 0.03 * wm * pD, lo = r * (1 - std::min(pD, pd + dr)) / (1 - r * std::min(pD, pd + dr)), hi = r * (1 - std::max(0.0, pd - dr)) / (1 - r * std::max(0.0, pd - dr));
        // straight edges in degrees and in metres differ by the curvature: only small views are judged end to end
        double bend = std::pow(2 * (op.fn + op.fe), 2) * std::tan(std::fabs(o[0]) * M_PI / 180) / (2 * 6.37e6);
        if (bend > 0.05 * std::sqrt(0.2 * sc)) { c.count("edge_curved"); }
        else if (contact) { c.count("edge_contact"); }
        else if (af.size() != 1) { if (lo > 1e-5) { c.fail("edge-dropped", cat("undetected target at the edge of the view vanished: ", what)); return; } }
        else if (!(af[0].r >= lo - 1e-9 && af[0].r <= hi + 1e-9)) { c.fail("edge-missed", cat("undetected target with share ", p, ": existence ", r, " became ", af[0].r, ", expected ", er, ": ", what)); return; }
        else { std::string why; if (!mix_match(b0.c, af[0].c, 1.1 * par.cw_lim, 1e-3, 1e-9, why, 1.1 * par.cw_lim) && par.cw_lim == 0) { c.fail("edge-density", why); return; } }
        c.mark(p); c.count("edge_targets");
    }
    acc.done(c);
    if (c.cas % 8 == 0) {
        // a sensor left at its default field of view (latitudes -90..90, longitudes 0..180) sees a target at 57 N 15 E
        Params tp; Tracker t(tp); cf::LL o(g.u(20, 65), g.u(10, 150)); Comp k; k.x << 0, 0, 0, 0; k.P = M4d::Identity(); k.w = 1; add(t, &t.params, 0.5, {k}, o);
        Sensor s; s.pD_ = 0.9; Scan z; z.push_back(report(V2d(0.3, -0.2), M2d::Identity(), 1e-6, o)); t.correct(s, z, 0);
        double r = 0; for (auto& q : snap(t)) { if (q.id == 0) { r = q.r; } }
        if (!(r > 0.99)) { c.fail("default-fov", cat("target at ", o.transpose(), " with a report on top of it and the default field of view: existence ", r, " after the correction")); }
        c.count("default_views");
    }
}

int main(int argc, char** argv) {
    return H::run(argc, argv, "kal", [](H::Ctx& c) { if (c.mode == "F03") { f03(c); } else if (c.mode == "F08") { f08(c); } else if (c.mode == "R02") { r02(c); } else { f09(c); } });
}

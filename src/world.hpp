// Random tracking scenarios as scripts in a local frame, so the same script can be played anywhere, twice, or reordered.
#pragma once
#include <memory>
#include <type_traits>
#include "track.hpp"

namespace T {
// Position sensor whose detection probability is decided by a component's mean only: no sampling involved
struct DetSensor : Sensor {
    template<typename PDF_> double pD(const PDF_& pdf, const cf::LL& origin) const {
        return pD_ * (fov.nebbox(origin).within(pdf.x) ? 1 : 0);
    }
};

// Model and sensor objects that live through a whole history, their fields set before each use: the ones in Op when absent
struct Kit { lmb::CV<Target> cv; lmb::NM<Target> nm; Sensor s; DetSensor d; Kit() : cv(1, 1), nm(1, M4d::Zero()) {} };
struct Op {
    std::shared_ptr<Kit> kit;
    enum Kind { ADD, CV, NM, COR } k = COR;
    double t0 = 0, t1 = 0;                  // from, to
    double pS = 1, q = 1; M4d Q = M4d::Zero();
    double r = 0; std::vector<Comp> c;      // ADD
    struct R { V2d z; M2d P; double kappa; };
    std::vector<R> rep;
    double pD = 1, lambdaB = 1; M2d pv = M2d::Identity();
    V2d fc = V2d::Zero(); double fn = 1e5, fe = 1e5, fth = 0;   // field of view
    std::vector<V2d> fcorn() const {
        std::vector<V2d> v;
        const double s[4][2] = {{1, 1}, {1, -1}, {-1, -1}, {-1, 1}};
        for (auto& q_ : s) { double a = q_[0] * fn, b = q_[1] * fe; v.push_back(fc + V2d(a * std::cos(fth) - b * std::sin(fth), a * std::sin(fth) + b * std::cos(fth))); }
        return v;
    }
};
struct Script { Params par; std::vector<Op> ops; double radius = 0; };

struct GenOpt { bool kit = true; int minops = 4, maxops = 16, maxtruth = 6; bool hostile = false, partial = true, swarm = false, exact = false; double lmax = 3000; };

inline Params rparams(H::Rng& g, bool hostile) {
    Params p;
    if (g.p(0.3)) { p.tscale = 1; } else { p.tscale = g.pick<double>({1, 1, 60, 0.5, 10}); }
    p.w_lim = g.pick<double>({0.01, 0.01, 0.05, 0.001, hostile ? 0.0 : 0.01});
    p.nhyp_max = g.pick<double>({100, 20, 5, 1, 50});
    p.cw_lim = g.pick<double>({0.01, 0.01, 0.05, 0.001, hostile ? 0.0 : 0.01});
    p.r_lim = g.pick<double>({0.05, 0.01, 1e-3, 0.2});
    p.rB_max = g.pick<double>({0.8, 0.5, 0.99, 1.0});
    p.cov_lim = g.pick<double>({150, 150, 40, 1000});
    p.nstd = g.pick<double>({1.9, 1, 3, g.u(0.5, 4)});
    return p;
}
inline std::vector<Comp> rmix(H::Rng& g, const V2d& m, const V2d& v, int K, double spread, double p0, double p1) {
    std::vector<Comp> cs; double s = 0;
    for (int k = 0; k < K; ++k) {
        Comp c; c.x << m + V2d(g.n(), g.n()) * (k ? spread : 0), v + V2d(g.n(), g.n()) * 0.3;
        c.P = covpv(g, p0, p1, 0.05, 3); c.w = g.u(0.05, 1); s += c.w; cs.push_back(c);
    }
    for (auto& c : cs) { c.w /= s; }
    return cs;
}
inline Script script(H::Rng& g, const GenOpt& o) {
    Script s;
    s.par = rparams(g, o.hostile);
    double L = s.radius = g.pick<double>({100, 400, 1000, o.lmax});
    int nt = o.swarm ? g.i(30, 160) : g.i(0, o.maxtruth);
    if (o.swarm) { L = s.radius = g.u(1500, 4000); s.par.nhyp_max = g.pick<double>({1, 5, 20}); }
    if (o.hostile && g.p(0.2)) { nt = g.i(12, 34); L = s.radius = g.u(5, 60); s.par.nhyp_max = g.pick<double>({1, 5, 30}); }
    struct Tr { V2d p, v; };
    std::vector<Tr> tr;
    for (int i = 0; i < nt; ++i) { tr.push_back({V2d(g.u(-L, L), g.u(-L, L)), V2d(g.n(), g.n()) * 2}); }
    double psc = g.pick<double>({0.5, 2, 6});
    double t = g.u(0, 100);
    int n = g.i(o.minops, o.maxops);
    double kap = g.logu(1e-6, 1e-1);
    if (o.hostile && g.p(0.4)) { kap = g.logu(1e-15, 1e8); }
    double pD = g.pick<double>({0.9, 0.99, 0.6, 1.0});
    double lam = g.pick<double>({1, 0.3, 3});
    std::shared_ptr<Kit> kit; if (g.p(0.5) && o.kit) { kit = std::make_shared<Kit>(); }
    bool fullview = !o.partial || g.p(0.6);
    for (int k = 0; k < n; ++k) {
        Op op; op.kit = kit;
        int w = g.i(0, 9);
        if (k == 0 && nt > 0 && !o.swarm && g.p(0.5)) { w = 0; }
        if (w == 0 && s.ops.size() < 200) {
            int m = o.swarm ? 20 : 1;
            for (int q = 0; q < m; ++q) {
                Op a; a.k = Op::ADD; a.r = g.pick<double>({g.u(s.par.r_lim, 1), g.u(s.par.r_lim, 1), 1.0, std::max(0.5, s.par.r_lim)});
                V2d at = tr.empty() || g.p(0.3) ? V2d(g.u(-L, L), g.u(-L, L)) : tr[g.i(0, nt - 1)].p;
                V2d vel = V2d(g.n(), g.n());
                a.c = rmix(g, at, vel, g.p(0.5) ? 1 : g.i(2, 5), g.pick<double>({1, 10}), 0.2 * psc, 3 * psc);
                a.t0 = a.t1 = t;
                s.ops.push_back(a);
            }
            continue;
        }
        if (w <= 4) {
            op.k = g.p(0.75) ? Op::CV : Op::NM;
            double dt = g.pick<double>({g.u(0.1, 3), g.u(0.1, 3), 1.0, 0.0, g.u(0.01, 8)}) * s.par.tscale;
            op.t0 = t; op.t1 = t + dt; t += dt;
            op.pS = g.pick<double>({1, 0.99, 0.9, g.u(0.3, 1), 0.999});
            op.q = g.pick<double>({1, 0.1, 0.0, g.u(0, 3)});
            op.Q = g.p(0.1) ? M4d(M4d::Zero()) : M4d(covpv(g, 0.01, 2, 0.01, 1));
            if (op.k == Op::CV) { for (auto& x : tr) { x.p += x.v * dt / s.par.tscale; } }
            if (o.hostile && g.p(0.05)) { op.q = 1e4; }
        } else {
            op.k = Op::COR; op.t0 = op.t1 = t;
            op.pD = g.p(0.8) ? pD : g.pick<double>({1.0, 0.0, 0.5}); op.lambdaB = g.p(0.9) ? lam : g.u(0, 5);
            op.pv = spd2(g, 0.1, 5);
            for (auto& x : tr) {
                if (!g.p(o.hostile ? 0.8 : op.pD)) { continue; }
                Op::R r; r.P = spd2(g, 0.1 * psc, 2 * psc);
                double sd = std::sqrt(r.P.trace() / 2); r.z = x.p + V2d(g.n(), g.n()) * sd; r.kappa = kap * (g.p(0.8) ? 1 : g.u(0.2, 3));
                if (o.hostile && g.p(0.1)) { r.z += V2d(g.n(), g.n()) * sd * g.logu(1, 1e3); }
                if (o.hostile && g.p(0.05)) { r.P = spd2(g, 1e-8, 1e-6); }
                if (o.hostile && g.p(0.05)) { r.P = spd2(g, 1e2, 1e5); }
                op.rep.push_back(r);
            }
            int cl = g.pick<int>({0, 0, 1, 3, o.swarm ? 40 : 4});
            for (int q = 0; q < cl; ++q) { Op::R r; r.P = spd2(g, 0.1 * psc, 2 * psc); r.z = V2d(g.u(-L, L), g.u(-L, L)); r.kappa = kap; op.rep.push_back(r); }
            if (o.hostile && g.p(0.15) && !op.rep.empty()) { auto d = op.rep[0]; for (int q = g.i(1, 3); q--;) { op.rep.push_back(d); } }    // coincident reports
            g.shuffle(op.rep);
            if (!fullview && g.p(0.7)) {
                op.fc = V2d(g.u(-L, L), g.u(-L, L)); op.fn = g.u(0.1, 1) * L; op.fe = g.u(0.1, 1) * L; op.fth = g.p(0.5) ? 0 : g.u(0, 3);
                if (g.p(0.1)) { op.fc *= 20; }
            }
        }
        s.ops.push_back(op);
    }
    return s;
}

template<typename S> void aim(S& s, const Op& op, const cf::LL& o) {
    s.pD_ = op.pD; s.lambdaB = op.lambdaB; s.pv = op.pv; s.kappa_ = 7.3;     // reports bring their own clutter intensity
    lmb::BBox::Corners c; auto v = op.fcorn();
    for (int k = 0; k < 4; ++k) { V2d p = ne2ll(v[k], o); c(0, k) = p[0]; c(1, k) = p[1]; }
    s.fov = lmb::BBox(c);
}
template<typename S> S sensor(const Op& op, const cf::LL& o) { S s; aim(s, op, o); return s; }
inline Scan scan(const Op& op, const cf::LL& o) { Scan z; for (auto& r : op.rep) { z.push_back(report(r.z, r.P, r.kappa, o)); } return z; }
template<typename S> void play(Tracker& t, const Op& op, const cf::LL& o, Scan& z) {
    z.clear();
    if (op.k == Op::ADD) { add(t, &t.params, op.r, op.c, o); }
    else if (op.k == Op::CV && op.kit) { auto& m = op.kit->cv; m.pS = op.pS; m.q = op.q; t.predict(m, op.t1, op.t0); }
    else if (op.k == Op::NM && op.kit) { auto& m = op.kit->nm; m.pS = op.pS; m.Q = op.Q; t.predict(m, op.t1, op.t0); }
    else if (op.k == Op::CV) { lmb::CV<Target> m(op.pS, op.q); t.predict(m, op.t1, op.t0); }
    else if (op.k == Op::NM) { lmb::NM<Target> m(op.pS, op.Q); t.predict(m, op.t1, op.t0); }
    else if (op.kit && std::is_same<S, Sensor>::value) { aim(op.kit->s, op, o); z = scan(op, o); t.correct(op.kit->s, z, op.t1); }
    else if (op.kit && std::is_same<S, DetSensor>::value) { aim(op.kit->d, op, o); z = scan(op, o); t.correct(op.kit->d, z, op.t1); }
    else { S s = sensor<S>(op, o); z = scan(op, o); t.correct(s, z, op.t1); }
}
// the real sampled field-of-view share where that is affordable, the deterministic one otherwise
inline bool play_any(Tracker& t, const Op& op, const cf::LL& o, Scan& z) {
    size_t n = 0;
    if (op.k == Op::COR) { for (auto* p : t.targettree.targets) { n += p->pdf.c.size(); } n *= op.rep.size() + 1; }
    if (n < 4000) { play<Sensor>(t, op, o, z); return true; }
    play<DetSensor>(t, op, o, z); return false;
}
inline std::string str(const Op& op) {
    if (op.k == Op::ADD) { return H::cat("ADD r=", op.r, " n=", op.c.size()); }
    if (op.k == Op::CV) { return H::cat("CV dt=", op.t1 - op.t0, " pS=", op.pS, " q=", op.q); }
    if (op.k == Op::NM) { return H::cat("NM pS=", op.pS); }
    return H::cat("COR reports=", op.rep.size(), " pD=", op.pD, " fov ", op.fc[0], ",", op.fc[1], " ", op.fn, "x", op.fe);
}
}  // namespace T

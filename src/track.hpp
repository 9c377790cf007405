// Driving and observing the real tracker.
#pragma once
#include "post.hpp"
#include "gm.hpp"
#include "lmb.hpp"
#include "models.hpp"
#include "sensors.hpp"
#include "cf.hpp"

namespace T {
using PDF = lmb::GM<4>;
using Tracker = lmb::SILMB<PDF>;
using Target = Tracker::Target;
using Report = lmb::GaussianReport_<2>;
using Scan = std::vector<Report>;
using Sensor = lmb::PositionSensor<Target>;
using Params = lmb::Params;
using Gaussian = PDF::Gaussian;

inline Lim lim(const Params& p) { Lim l; l.w_lim = p.w_lim; l.r_lim = p.r_lim; l.nhyp_max = p.nhyp_max; l.rB_max = p.rB_max; l.nstd = p.nstd; l.cw_lim = p.cw_lim; l.cov_lim = p.cov_lim; l.tscale = p.tscale; return l; }
inline Box box(const lmb::AABBox& a) { Box b; b.min = a.min; b.max = a.max; return b; }

inline void comps(const PDF& pdf, std::vector<Comp>& c) { c.clear(); c.reserve(pdf.c.size()); for (auto& g : pdf.c) { Comp k; memcpy(k.x.data(), g.x.data(), 32); memcpy(k.P.data(), g.P.data(), 128); k.w = g.w; c.push_back(k); } }
inline Snap snap(const Target& t) {
    Snap s;
    s.id = t.id; s.cid = t.cid; s.r = t.r; s.la = static_cast<char>(t.last_action);
    comps(t.pdf, s.c);
    s.aabb = box(t.pdf.aabbox);
    memcpy(s.bb.data(), t.pdf.bbox.corners.data(), 64);
    return s;
}
inline Snaps snap(const Tracker& t) { Snaps r; for (auto* p : t.targettree.targets) { r.push_back(snap(*p)); } return r; }

// Insert a target with given components whose positions are in the local frame at o
inline Target* add(Tracker& t, Params* p, double r, const std::vector<Comp>& cs, const cf::LL& o) {
    PDF pdf(p);
    for (auto& k : cs) {
        V4d x = k.x; x.head<2>() = ne2ll(V2d(k.x[0], k.x[1]), o);
        pdf.c.emplace_back(x, k.P, k.w);
    }
    pdf.eta = 1;
    pdf.transform_to_local(pdf.pos());
    pdf.transform_to_global();
    return t.targettree.new_target(r, std::move(pdf), 0);
}
inline Report report(const V2d& ne, const M2d& R, double kappa, const cf::LL& o) {
    return Report(ne2ll(ne, o), R, kappa);
}
// Axis-aligned field of view in global coordinates covering +-half metres around o
inline lmb::BBox fovbox(const cf::LL& o, double halfn, double halfe) {
    V2d a = ne2ll(V2d(halfn, 0), o), b = ne2ll(V2d(0, halfe), o);
    double dla = std::fabs(a[0] - o[0]), dlo = std::fabs(b[1] - o[1]);
    lmb::BBox::Corners c;
    double v[8] = {o[0] + dla, o[1] + dlo, o[0] + dla, o[1] - dlo, o[0] - dla, o[1] - dlo, o[0] - dla, o[1] + dlo};
    memcpy(c.data(), v, 64);
    return lmb::BBox(c);
}
inline std::string str(const Scan& s) {
    std::string o;
    for (auto& r : s) { o += H::cat("R x=[", r.x[0], " ", r.x[1], "] P=[", r.P(0, 0), " ", r.P(0, 1), " ", r.P(1, 1), "] kappa=", r.kappa, " cid=", r.cid, " rB=", static_cast<double>(r.rB), "\n"); }
    return o;
}
inline void prior(Prior& pr, const Tracker& t, Scan& zs) {
    pr.t = snap(t);
    pr.z.clear();
    for (auto& r : zs) { Rep q; q.x = r.x; q.P = r.P; q.kappa = r.kappa; q.box = box(r.llaabbox()); pr.z.push_back(q); }
}
}  // namespace T

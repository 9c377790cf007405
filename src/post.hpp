// Reference labelled multi-Bernoulli correction, by enumeration, from snapshots taken before the call.
// Implemented in support.cpp, which never sees the code under test.
#pragma once
#include "oracle.hpp"
#include <Eigen/Core>

namespace T {
using V4d = Eigen::Vector4d;
using M4d = Eigen::Matrix4d;
using V2d = Eigen::Vector2d;
using M2d = Eigen::Matrix2d;

struct Comp { V4d x; M4d P; double w; };
struct Box { std::array<double, 2> min{}, max{}; };
inline bool meets(const Box& a, const Box& b) {
    return a.min[0] <= b.max[0] && b.min[0] <= a.max[0] && a.min[1] <= b.max[1] && b.min[1] <= a.max[1];
}
struct Snap {
    unsigned id = 0, cid = 0;
    double r = 0;
    std::vector<Comp> c;
    Box aabb;
    std::array<double, 8> bb{};      // oriented box: lat,lon of the four corners
    char la = 0;
    V4d mean() const { V4d m = V4d::Zero(); for (auto& k : c) { m += k.w * k.x; } return m; }
};
using Snaps = std::vector<Snap>;

V2d ne2ll(const V2d& ne, const V2d& o);
V2d ll2ne(const V2d& ll, const V2d& o);
bool bitsame(double a, double b);
bool same(const Snap& a, const Snap& b, bool cid = true);
std::string str(const Snap& s);
std::string str(const Snaps& v);
// Random symmetric positive definite 2x2 with eigenvalues log-uniform in [lo, hi]
M2d spd2(H::Rng& g, double lo, double hi);
// Position/velocity covariance with separate scales and some cross-correlation
M4d covpv(H::Rng& g, double plo, double phi, double vlo, double vhi);
inline V2d origin(H::Rng& g, double latmax = 72) { V2d o; o << g.u(-latmax, latmax), g.u(-165, 165); return o; }

struct Lim { double w_lim = 0.01, r_lim = 0.05, nhyp_max = 100, rB_max = 0.8, nstd = 1.9, cw_lim = 0.01, cov_lim = 150, tscale = 1; };
struct Rep { V2d x; M2d P; double kappa; Box box; };
struct Prior { Snaps t; std::vector<Rep> z; std::vector<char> inview; };

struct Expect {
    struct Tgt { bool in_cluster = false; ptrdiff_t cluster = -1; double r = 0; std::vector<Comp> c; bool fuzzy_r = false, fuzzy_c = false; bool removed = false; };
    struct Clu { std::vector<int> t, r; long nhyp = 0; bool fuzzy = false; };
    std::vector<Tgt> t;
    std::vector<double> rB;
    std::vector<int> rcluster;
    std::vector<Clu> clusters;
    bool fuzzy = false;        // some decision is within rounding of its threshold
    long hyps = 0;
    bool contradictory = false;
    bool too_big = false;
};
// pD(i, k): detection probability of component k of target i
using PDfn = std::function<O::ld(int, int)>;
Expect expect(const Prior& pr, const Lim& par, const PDfn& pd, long maxhyp = 60000);
// Norm of the position covariance of a mixture, in metres
double poscovnorm(const std::vector<Comp>& c, const V2d& ll);
// Compares mixtures; positions in metres, global coordinates. Components below wmin are ignored on both sides.
bool mix_match(const std::vector<Comp>& exp, const std::vector<Comp>& act, double wtol, double ptol, double ctol, std::string& why, double wmin = 1e-7);
}  // namespace T

// G01/G02 coordinate conversions, B01/B02 boxes: the real functions against long-double definitions.
#include "oracle.hpp"
#include <Eigen/Core>
#include "bbox.hpp"
#include "cf.hpp"
#include "gaussian.hpp"
#include "statistics.hpp"
using H::cat;
using O::ld;
using lmb::AABBox;
using lmb::BBox;
using V2 = Eigen::Vector2d;
using V3 = Eigen::Vector3d;
using M2 = Eigen::Matrix2d;

static double lat_(H::Rng& g) {
    switch (g.i(0, 9)) {
        case 0: return g.pick<double>({0, 90, -90, 45, -45, 89.999999, -89.999999, 1e-9, 56.79, 60});
        case 1: return (g.p(0.5) ? 1 : -1) * (90 - g.logu(1e-10, 1));
        case 2: return g.logu(1e-12, 1) * (g.p(0.5) ? 1 : -1);
        case 3: return (g.p(0.5) ? 1 : -1) * g.u(55, 59);      // around the branch of the inverse
        default: return g.u(-90, 90);
    }
}
static double lon_(H::Rng& g) {
    switch (g.i(0, 7)) {
        case 0: return g.pick<double>({0, 180, -180, 90, -90, 179.9999999, -179.9999999, 1e-9});
        case 1: return (g.p(0.5) ? 1 : -1) * (180 - g.logu(1e-10, 1));
        default: return g.u(-180, 180);
    }
}
static ld dist(const O::V3& a, const O::V3& b) { return std::sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])); }
static O::V3 o3(const V3& v) { return {v[0], v[1], v[2]}; }
static double lonwrap(double d) { while (d > 180) { d -= 360; } while (d < -180) { d += 360; } return d; }

static void g01(H::Ctx& c) {
    auto& g = c.rng;
    for (int k = 0; k < 200; ++k) {
        double lat = lat_(g), lon = lon_(g);
        double alt = g.pick<double>({0, 0, g.u(-500, 9000), g.u(0, 4e5), g.logu(1e-3, 4e5), -g.logu(1e-3, 5000)});
        V3 lla(lat, lon, alt);
        O::V3 e = O::lla2ecef({lat, lon, alt});
        V3 x = cf::lla2ecef(lla);
        ld d = dist(o3(x), e);
        c.maxi("forward_error_m", d);
        auto at = [&] { return cat(" at lat ", lat, " lon ", lon, " alt ", alt); };
        if (!(d < 1e-7L)) { c.fail("forward", cat("lla2ecef is ", static_cast<double>(d), " m from WGS-84", at())); return; }
        V3 b = cf::ecef2lla(x);
        ld back = dist(O::lla2ecef({b[0], b[1], b[2]}), e);
        c.maxi("inverse_error_m", back);
        if (!(back < 1e-4L) || std::fabs(b[0]) > 90.0000001 || std::fabs(b[1]) > 180.0000001) { c.fail("inverse", cat("ecef2lla(lla2ecef) is ", static_cast<double>(back), " m off: ", b[0], " ", b[1], " ", b[2], at())); return; }
        if (!(std::fabs(b[2] - alt) < 1e-4)) { c.fail("inverse-alt", cat("altitude comes back as ", b[2], at())); return; }
        if (std::fabs(lat) < 89.99 && !(std::fabs(lonwrap(b[1] - lon)) < 1e-8)) { c.fail("inverse-lon", cat("longitude comes back as ", b[1], at())); return; }
        if (!(std::fabs(b[0] - lat) < 1e-9)) { c.fail("inverse-lat", cat("latitude comes back as ", b[0], at())); return; }
        V2 ll(lat, lon);
        V3 x2 = cf::ll2ecef(ll), x0 = cf::lla2ecef(V3(lat, lon, 0));
        if (!((x2 - x0).norm() < 1e-8)) { c.fail("forward-2d", cat("ll2ecef differs from lla2ecef at zero altitude by ", (x2 - x0).norm(), at())); return; }
        V2 b2 = cf::ecef2ll(x2); V3 b3 = cf::ecef2lla(x2);
        if (!(std::fabs(b2[0] - b3[0]) < 1e-12 && std::fabs(lonwrap(b2[1] - b3[1])) < 1e-12)) { c.fail("inverse-2d", cat("ecef2ll ", b2[0], " ", b2[1], " vs ecef2lla ", b3[0], " ", b3[1], at())); return; }
        // points off the surface too
        b2 = cf::ecef2ll(x);
        if (!(std::fabs(b2[0] - b[0]) < 1e-12 && std::fabs(lonwrap(b2[1] - b[1])) < 1e-12)) { c.fail("inverse-2d", cat("ecef2ll ", b2[0], " ", b2[1], " vs ecef2lla ", b[0], " ", b[1], at())); return; }
        c.mark(lat); c.mark(alt);
        c.count("points");
        if (k == 0) { c.sample(cat("lat ", lat, " lon ", lon, " alt ", alt, " -> [", x[0], " ", x[1], " ", x[2], "] -> ", b[0], " ", b[1], " ", b[2])); }
    }
}

static void g02(H::Ctx& c) {
    auto& g = c.rng;
    for (int k = 0; k < 100; ++k) {
        double lat = lat_(g), lon = lon_(g), alt = g.pick<double>({0, g.u(-100, 5000), g.u(0, 3e5)});
        if (std::fabs(lat) > 89.9) { lat *= 0.99; }
        V2 o(lat, lon); V3 oa(lat, lon, alt);
        double R = g.pick<double>({g.logu(0.01, 1e3), g.u(0, 5e4), g.u(0, 2e4)}), th = g.u(0, 2 * M_PI);
        V2 ne(R * std::cos(th), R * std::sin(th));
        auto at = [&] { return cat(" origin ", lat, " ", lon, " ", alt, " offset ", ne[0], " ", ne[1]); };
        auto N = O::nedrot(lat, lon);
        Eigen::Matrix3d M = cf::nedrot(oa);
        for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) { if (!(std::fabs(M(i, j) - static_cast<double>(N[i][j])) < 1e-14)) { c.fail("axes", cat("frame axis ", i, " component ", j, " is ", M(i, j), " not ", static_cast<double>(N[i][j]), at())); return; } } }
        if (!((M * M.transpose() - Eigen::Matrix3d::Identity()).norm() < 1e-14)) { c.fail("orthonormal", cat("frame not orthonormal", at())); return; }
        Eigen::Matrix<double, 2, 3> M2d = cf::nerot(o);
        if (!((M2d - M.topRows<2>()).norm() < 1e-15)) { c.fail("axes-2d", cat("nerot differs from nedrot", at())); return; }
        // full frame: rigid motion and its inverse
        V3 p(lat + g.u(-0.4, 0.4), lon + g.u(-0.4, 0.4), alt + g.u(-1000, 1000));
        V3 ned = cf::lla2ned(p, oa);
        O::V3 e = O::lla2ecef({p[0], p[1], p[2]}), e0 = O::lla2ecef({lat, lon, alt});
        ld err = 0;
        for (int i = 0; i < 3; ++i) { ld v = 0; for (int j = 0; j < 3; ++j) { v += N[i][j] * (e[j] - e0[j]); } err = std::max(err, std::fabs(v - ned[i])); }
        c.maxi("frame_error_m", err);
        if (!(err < 1e-7L)) { c.fail("rigid", cat("lla2ned is ", static_cast<double>(err), " m from the rigid motion", at())); return; }
        V3 e2 = cf::ned2ecef(ned, oa);
        if (!(dist(o3(e2), e) < 1e-7L)) { c.fail("rigid-inverse", cat("ned2ecef(lla2ned) is ", static_cast<double>(dist(o3(e2), e)), " m off", at())); return; }
        V3 pb = cf::ned2lla(ned, oa);
        if (!(dist(O::lla2ecef({pb[0], pb[1], pb[2]}), e) < 1e-4L)) { c.fail("rigid-inverse", cat("ned2lla(lla2ned) is off: ", pb[0], " ", pb[1], " ", pb[2], " from ", p[0], " ", p[1], " ", p[2], at())); return; }
        V3 en = cf::ecef2ned(cf::lla2ecef(p), oa);
        if (!((en - ned).norm() < 1e-7)) { c.fail("rigid", cat("ecef2ned differs from lla2ned", at())); return; }
        // horizontal variants
        V2 q(p[0], p[1]);
        V2 h = cf::ll2ne(q, o); O::V2 ho = O::ll2ne({p[0], p[1]}, {lat, lon});
        V3 h3 = cf::lla2ned(V3(p[0], p[1], 0), V3(lat, lon, 0));
        V2 he = cf::ecef2ne(cf::ll2ecef(q), o);
        if (!(std::hypot(h[0] - static_cast<double>(ho[0]), h[1] - static_cast<double>(ho[1])) < 1e-7)) { c.fail("ll2ne", cat("ll2ne gives ", h[0], " ", h[1], " expected ", static_cast<double>(ho[0]), " ", static_cast<double>(ho[1]), at())); return; }
        if (!((h - h3.head<2>()).norm() < 1e-7) || !((h - he).norm() < 1e-7)) { c.fail("ll2ne", cat("ll2ne disagrees with the full conversion", at())); return; }
        V2 b = cf::ne2ll(ne, o); O::V2 bo = O::ne2ll({ne[0], ne[1]}, {lat, lon});
        ld be = dist(O::lla2ecef({b[0], b[1], 0}), O::lla2ecef({bo[0], bo[1], 0}));
        c.maxi("ne2ll_error_m", be);
        if (!(be < 1e-6L)) { c.fail("ne2ll", cat("ne2ll is ", static_cast<double>(be), " m from the projection of the tangent-plane point", at())); return; }
        V3 es = cf::ne2ecef(ne, o);
        if (!(dist(o3(es), O::lla2ecef({bo[0], bo[1], 0})) < 1e-6L)) { c.fail("surface", cat("ne2ecef does not lie on the surface point below", at())); return; }
        V2 rt = cf::ll2ne(b, o);
        double lim = R * R * R / (6.3e6 * 6.3e6) * 1.2 + 1e-6;
        c.maxi("round_trip_m", (rt - ne).norm());
        if (!((rt - ne).norm() < lim)) { c.fail("round-trip", cat("horizontal round trip loses ", (rt - ne).norm(), " m", at())); return; }
        // in place on a state
        Eigen::Vector4d s; s << q, g.u(-50, 50), g.u(-50, 50);
        Eigen::Vector4d s0 = s;
        cf::ll2ne_i(s.head<2>(), o);
        if (!((s.head<2>() - h).norm() == 0) || memcmp(s.data() + 2, s0.data() + 2, 16)) { c.fail("in-place", cat("ll2ne_i changed the state differently", at())); return; }
        cf::ne2ll_i(s.head<2>(), o);
        V2 hb = cf::ne2ll(h, o);
        if (!((s.head<2>() - hb).norm() == 0) || memcmp(s.data() + 2, s0.data() + 2, 16)) { c.fail("in-place", cat("ne2ll_i changed the state differently", at())); return; }
        s = s0; cf::ll2ne_i(s, o);
        if (!((s.head<2>() - h).norm() == 0) || memcmp(s.data() + 2, s0.data() + 2, 16)) { c.fail("in-place", cat("ll2ne_i on a whole state", at())); return; }
        cf::ne2ll_i(s, o);
        if (!((s.head<2>() - hb).norm() == 0) || memcmp(s.data() + 2, s0.data() + 2, 16)) { c.fail("in-place", cat("ne2ll_i on a whole state", at())); return; }
        c.count("frames"); c.mark(lat); c.mark(R);
        if (k == 0) { c.sample(cat("origin ", lat, " ", lon, " ne ", ne[0], " ", ne[1], " -> ", b[0], " ", b[1])); }
    }
}

static M2 pd(H::Rng& g, double& l1, double& l0) {
    double sc = g.logu(1e-6, 1e8), cond = g.pick<double>({1, g.logu(1, 10), g.logu(1, 1e6), g.logu(1, 1e3)});
    double th = g.pick<double>({0, M_PI / 2, M_PI / 4, g.u(0, 2 * M_PI), g.u(0, 2 * M_PI), g.u(0, 2 * M_PI)});
    l1 = sc; l0 = g.p(0.1) ? 0 : sc / cond;      // singular ones too
    double s = std::sin(th), co = std::cos(th);
    if (th == M_PI / 2) { co = 0; s = 1; }
    M2 P; P << l1 * co * co + l0 * s * s, (l1 - l0) * co * s, (l1 - l0) * co * s, l1 * s * s + l0 * co * co;
    return P;
}

static void b01(H::Ctx& c) {
    auto& g = c.rng;
    for (int k = 0; k < 100; ++k) {
        double l1, l0; M2 P = pd(g, l1, l0);
        double n = g.pick<double>({1, 2, 1.9, 3, g.u(0.1, 10)});
        double sc = g.pick<double>({0, 1, 180, 1e5});
        V2 m(g.u(-sc, sc), g.u(-sc, sc));
        auto at = [&] { return cat(" for P=[", P(0, 0), " ", P(0, 1), " ", P(1, 1), "] nstd=", n, " mean ", m[0], " ", m[1]); };
        auto axis = [&](const AABBox& b, const V2& mm, const char* who, double nn) {
            for (int q = 0; q < 2; ++q) {
                double lo = mm[q] - b.min[q], hi = b.max[q] - mm[q], e2 = nn * nn * P(q, q);
                double slack = 1e-9 * nn * nn * l1 + 1e-12 * sc * nn * std::sqrt(l1) + 1e-24 * sc * sc;
                if (!(std::fabs(lo * lo - e2) <= slack && std::fabs(hi * hi - e2) <= slack && lo >= 0 && hi >= 0)) {
                    c.fail("aabb-extent", cat(who, " extends ", lo, " below and ", hi, " above the mean along axis ", q, ", the ellipse ", std::sqrt(e2), at())); return false;
                }
            }
            return true;
        };
        auto orient = [&](const BBox& b, const V2& mm, const char* who, double nn) {
            V2 cc = b.corners.rowwise().mean();
            double tol = 1e-9 * nn * std::sqrt(l1) + 1e-11 * sc;
            if (!((cc - mm).norm() <= tol)) { c.fail("bbox-centre", cat(who, " is centred at ", cc[0], " ", cc[1], at())); return false; }
            V2 e1 = (b.corners.col(1) - b.corners.col(0)) / 2, e2 = (b.corners.col(2) - b.corners.col(1)) / 2, e3 = (b.corners.col(3) - b.corners.col(2)) / 2;
            if (!((e1 + e3).norm() <= tol)) { c.fail("bbox-shape", cat(who, " is not a parallelogram in corner order", at())); return false; }
            double t2 = 1e-9 * nn * nn * l1 + 1e-11 * sc * nn * std::sqrt(l1);
            M2 S = e1 * e1.transpose() + e2 * e2.transpose() - nn * nn * P;
            if (!(S.norm() <= t2 * 4)) { c.fail("bbox-sides", cat(who, " half-sides [", e1[0], " ", e1[1], "] [", e2[0], " ", e2[1], "] are not n standard deviations along the principal axes", at())); return false; }
            if (!(std::fabs(e1.dot(e2)) <= t2)) { c.fail("bbox-angles", cat(who, " is not rectangular", at())); return false; }
            // it contains the ellipse: support function in a few directions
            return true;
        };
        if (!axis(AABBox(m, P, n), m, "axis-aligned box", n)) { return; }
        if (!axis(AABBox(P, n), V2(0, 0), "centred axis-aligned box", n)) { return; }
        if (!axis(AABBox(P), V2(0, 0), "default axis-aligned box", 2)) { return; }
        AABBox r; r.from_gaussian(m, P, n); if (!axis(r, m, "refilled axis-aligned box", n)) { return; }
        if (!orient(BBox(m, P, n), m, "oriented box", n)) { return; }
        if (!orient(BBox(P, n), V2(0, 0), "centred oriented box", n)) { return; }
        BBox rb; rb.from_gaussian(m, P, n); if (!orient(rb, m, "refilled oriented box", n)) { return; }
        Eigen::Vector4d x; x << m, g.u(-9, 9), g.u(-9, 9);
        Eigen::Matrix4d P4 = Eigen::Matrix4d::Identity(); P4.topLeftCorner<2, 2>() = P; P4(2, 2) = g.u(0.1, 1e5);
        lmb::Gaussian_<4> G(x, P4);
        if (!axis(G.aabbox(n), m, "Gaussian's axis-aligned box", n) || !orient(G.bbox(n), m, "Gaussian's oriented box", n)) { return; }
        if (sc <= 1) {
            V2 o(g.u(-60, 60), g.u(-170, 170)), p = o + V2(g.u(-0.05, 0.05), g.u(-0.05, 0.05));
            G.x.head<2>() = p;
            O::V2 l = O::ll2ne({p[0], p[1]}, {o[0], o[1]});
            double keep = sc; sc = 1e4;
            bool ok = orient(G.nebbox(o, n), V2(l[0], l[1]), "Gaussian's local oriented box", n);
            sc = keep;
            if (!ok) { return; }
        }
        c.count("covariances"); c.mark(P(0, 1)); c.mark(n);
        if (k == 0) { AABBox b(m, P, n); c.sample(cat("P=[", P(0, 0), " ", P(0, 1), " ", P(1, 1), "] n=", n, " -> box [", b.min[0], " ", b.min[1], " ", b.max[0], " ", b.max[1], "]")); }
    }
}

// ---- B02
using Poly = std::vector<O::V2>;
static Poly poly(const BBox& b) { Poly p; for (int i = 0; i < 4; ++i) { p.push_back({b.corners(0, i), b.corners(1, i)}); } return p; }
static ld cross(const O::V2& a, const O::V2& b, const O::V2& p) { return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]); }
// signed distance of p to a convex polygon: negative inside
static ld sdist(const Poly& P, const O::V2& p) {
    ld area = 0; for (int i = 0; i < 4; ++i) { const auto &a = P[i], &b = P[(i + 1) % 4]; area += a[0] * b[1] - a[1] * b[0]; }
    ld s = area > 0 ? 1 : -1, best = -1e300L;
    for (int i = 0; i < 4; ++i) { const auto &a = P[i], &b = P[(i + 1) % 4]; ld l = std::hypot(b[0] - a[0], b[1] - a[1]); if (l == 0) { continue; } best = std::max(best, -s * cross(a, b, p) / l); }
    return best;
}
// independent of the separating-axis idea: what remains of A after clipping it to B
static bool overlap(const Poly& A, const Poly& B) {
    ld ar = 0; for (int i = 0; i < 4; ++i) { const auto &a = B[i], &b = B[(i + 1) % 4]; ar += a[0] * b[1] - a[1] * b[0]; }
    ld sg = ar > 0 ? 1 : -1;
    Poly P = A;
    for (int i = 0; i < 4 && !P.empty(); ++i) {
        Poly Q;
        for (size_t k = 0; k < P.size(); ++k) {
            const auto &p = P[k], &q = P[(k + 1) % P.size()];
            ld dp = sg * cross(B[i], B[(i + 1) % 4], p), dq = sg * cross(B[i], B[(i + 1) % 4], q);
            if (dp >= 0) { Q.push_back(p); }
            if ((dp >= 0) != (dq >= 0)) { ld f = dp / (dp - dq); Q.push_back({p[0] + f * (q[0] - p[0]), p[1] + f * (q[1] - p[1])}); }
        }
        P = Q;
    }
    return P.size() >= 3;
}
// how close the pair is to mere contact: grow and shrink must agree
static Poly scale(const Poly& A, ld f) { O::V2 c{0, 0}; for (auto& p : A) { c[0] += p[0] / 4; c[1] += p[1] / 4; } Poly r = A; for (auto& p : r) { p[0] = c[0] + (p[0] - c[0]) * f; p[1] = c[1] + (p[1] - c[1]) * f; } return r; }

static BBox rbox(H::Rng& g, double span, bool& axis) {
    double th = g.pick<double>({0, M_PI / 4, g.u(0, 2 * M_PI), g.u(0, 2 * M_PI), g.u(0, 2 * M_PI)});
    axis = th == 0;
    double a = g.logu(0.01, 1) * span, b = g.pick<double>({a, a * g.logu(0.01, 1), a * g.u(0.3, 1)});
    V2 m(g.u(-span, span), g.u(-span, span)), u(std::cos(th), std::sin(th)), v(-u[1], u[0]);
    // occasionally a sheared quadrilateral, as a global field of view seen from a local frame
    if (g.p(0.2)) { v += u * g.u(-0.3, 0.3); axis = false; }
    std::vector<V2> p = {m + a * u + b * v, m + a * u - b * v, m - a * u - b * v, m - a * u + b * v};
    if (g.p(0.5)) { std::reverse(p.begin(), p.end()); }
    int sft = g.i(0, 3);
    BBox::Corners c; for (int i = 0; i < 4; ++i) { c(0, i) = p[(i + sft) % 4][0]; c(1, i) = p[(i + sft) % 4][1]; }
    return BBox(c);
}
static std::string s(const BBox& b) { std::string o = "["; for (int i = 0; i < 4; ++i) { o += cat("(", b.corners(0, i), " ", b.corners(1, i), ")"); } return o + "]"; }
static AABBox hull(const Poly& p) { AABBox a(1e300, 1e300, 1e300, 1e300); for (int q = 0; q < 2; ++q) { a.min[q] = 1e300; a.max[q] = -1e300; for (auto& v : p) { a.min[q] = std::min<double>(a.min[q], v[q]); a.max[q] = std::max<double>(a.max[q], v[q]); } } return a; }

static void b02(H::Ctx& c) {
    auto& g = c.rng;
    double span = g.pick<double>({1e-3, 1, 100, 1e5});
    V2 off = g.p(0.3) ? V2(g.u(-80, 80), g.u(-170, 170)) : V2(0, 0);
    // axis-aligned boxes are closed: contact counts, also for boxes of no extent (exact on a grid of whole numbers)
    for (int k = 0; k < 60; ++k) {
        int q[8]; for (int& v : q) { v = g.i(-3, 3); }
        AABBox a(q[0], q[1], q[2], q[3]), b(q[4], q[5], q[6], q[7]);
        int lo[2][2], hi[2][2]; for (int x = 0; x < 2; ++x) { for (int d = 0; d < 2; ++d) { lo[x][d] = std::min(q[4 * x + d], q[4 * x + 2 + d]); hi[x][d] = std::max(q[4 * x + d], q[4 * x + 2 + d]); } }
        bool m = true, in = true; V2 pt(g.i(-3, 3), g.i(-3, 3));
        for (int d = 0; d < 2; ++d) { m = m && lo[0][d] <= hi[1][d] && lo[1][d] <= hi[0][d]; in = in && lo[0][d] <= pt[d] && pt[d] <= hi[0][d]; }
        auto tell = [&] { return cat("[", lo[0][0], " ", lo[0][1], " ", hi[0][0], " ", hi[0][1], "]"); };
        if (a.intersects(b) != m || b.intersects(a) != m) { c.fail("aabb-closed", cat("axis-aligned boxes ", tell(), " and [", lo[1][0], " ", lo[1][1], " ", hi[1][0], " ", hi[1][1], "] meet: ", m)); return; }
        if (a.within(pt) != in) { c.fail("aabb-closed", cat("point ", pt[0], " ", pt[1], " inside ", tell(), ": ", in)); return; }
        if (m && (lo[0][0] == hi[1][0] || lo[1][0] == hi[0][0] || lo[0][1] == hi[1][1] || lo[1][1] == hi[0][1])) { c.count("aabb_contacts"); }
    }
    for (int k = 0; k < 200; ++k) {
        bool ax, bx;
        BBox a = rbox(g, span, ax), b = rbox(g, span, bx);
        if (g.p(0.1)) { b = a; }
        if (g.p(0.15)) {    // thin cross
            V2 m(g.u(-span, span), g.u(-span, span)); double th = g.u(0, 3), l = span * g.u(0.2, 1), w = l * g.u(0.001, 0.2);
            auto mk = [&](double t) { V2 u(std::cos(t), std::sin(t)), v(-u[1], u[0]); BBox::Corners q; V2 cs[4] = {m + l * u + w * v, m + l * u - w * v, m - l * u - w * v, m - l * u + w * v}; for (int i = 0; i < 4; ++i) { q.col(i) = cs[i]; } return BBox(q); };
            a = mk(th); b = mk(th + g.u(0.5, 2.5));
        }
        if (g.p(0.1)) { V2 m = a.corners.rowwise().mean(); double f = g.u(0.01, 0.9); BBox::Corners q = a.corners; for (int i = 0; i < 4; ++i) { q.col(i) = m + (q.col(i) - m) * f; } b = BBox(q); }
        for (int i = 0; i < 4; ++i) { a.corners.col(i) += off; b.corners.col(i) += off; }
        Poly A = poly(a), B = poly(b);
        ld eps = 1e-6L + 1e-9L * (off.norm() / span);
        bool small = overlap(scale(A, 1 - eps), scale(B, 1 - eps)), big = overlap(scale(A, 1 + eps), scale(B, 1 + eps));
        if (small == big) {
            bool r1 = a.intersects(b), r2 = b.intersects(a);
            c.count(big ? "meeting_pairs" : "disjoint_pairs");
            if (r1 != r2) { c.fail("asymmetric", cat("intersects() depends on the order: ", r1, " / ", r2, " for ", s(a), " and ", s(b))); return; }
            if (r1 != big) { c.fail(big ? "missed-overlap" : "false-overlap", cat("intersects() is ", r1, " for ", s(a), " and ", s(b))); return; }
        } else { c.count("contact"); }
        // hull
        AABBox h = a.aabbox(), e = hull(A);
        if (h.min != e.min || h.max != e.max) { c.fail("hull", cat("hull of ", s(a), " is [", h.min[0], " ", h.min[1], " ", h.max[0], " ", h.max[1], "]")); return; }
        Eigen::Matrix<double, 2, Eigen::Dynamic> pts(2, 4); pts = a.corners; AABBox fp; fp.from_points(pts);
        if (fp.min != e.min || fp.max != e.max) { c.fail("hull", cat("from_points of ", s(a))); return; }
        // axis-aligned boxes
        AABBox f = hull(B);
        bool m = !(e.max[0] < f.min[0] || f.max[0] < e.min[0] || e.max[1] < f.min[1] || f.max[1] < e.min[1]);
        if (h.intersects(f) != m || f.intersects(h) != m) { c.fail("aabb-intersects", cat("axis-aligned hulls of ", s(a), " and ", s(b), " meet: ", m)); return; }
        Poly F{{f.max[0], f.max[1]}, {f.max[0], f.min[1]}, {f.min[0], f.min[1]}, {f.min[0], f.max[1]}};
        small = overlap(scale(A, 1 - eps), scale(F, 1 - eps)); big = overlap(scale(A, 1 + eps), scale(F, 1 + eps));
        if (small == big) {
            if (a.intersects(f) != big) { c.fail("mixed-intersects", cat("rotated box ", s(a), " meets axis-aligned [", f.min[0], " ", f.min[1], " ", f.max[0], " ", f.max[1], "]: ", big)); return; }
        }
        BBox fb(f);
        if (poly(fb) != F) { bool same = true; Poly q = poly(fb); for (auto& v : F) { if (std::find(q.begin(), q.end(), v) == q.end()) { same = false; } } if (!same) { c.fail("from-aabb", cat("box made from an axis-aligned box has corners ", s(fb))); return; } }
        // containment
        for (int t = 0; t < 6; ++t) {
            V2 p;
            if (g.p(0.5)) { p = V2(g.u(-span, span), g.u(-span, span)) * 1.3 + off; }
            else { V2 mm = a.corners.rowwise().mean(); p = mm + (V2(a.corners.col(g.i(0, 3))) - mm) * g.u(0, 1.6) + (V2(a.corners.col(g.i(0, 3))) - mm) * g.u(-0.5, 0.5); }
            ld d = sdist(A, {p[0], p[1]});
            ld tol = 1e-9L * (span + off.norm());
            if (std::fabs(d) > tol) {
                Eigen::Vector4d st; st << p, 7, 8;
                if (a.within(p) != (d < 0) || a.within(st) != (d < 0)) { c.fail("within", cat("point ", p[0], " ", p[1], " inside ", s(a), ": ", d < 0)); return; }
                c.count(d < 0 ? "points_inside" : "points_outside");
            }
            bool in = p[0] >= e.min[0] && p[0] <= e.max[0] && p[1] >= e.min[1] && p[1] <= e.max[1];
            if (h.within(p) != in) { c.fail("aabb-within", cat("point ", p[0], " ", p[1], " inside hull of ", s(a), ": ", in)); return; }
        }
        AABBox un(e.max[0], e.min[1], e.min[0], e.max[1]);
        if (un.min != e.min || un.max != e.max) { c.fail("aabb-order", "box from unordered corners"); return; }
        AABBox cp(h); AABBox as; as = h;
        if (cp.min != h.min || cp.max != h.max || as.min != h.min || as.max != h.max) { c.fail("aabb-copy", "copied box differs"); return; }
        c.mark(a.corners(0, 0)); 
        if (k == 0) { c.sample(cat(s(a), " vs ", s(b), " meet: ", a.intersects(b))); }
    }
}

int main(int argc, char** argv) {
    return H::run(argc, argv, "geo", [](H::Ctx& c) {
        if (c.mode == "G01") { g01(c); } else if (c.mode == "G02") { g02(c); } else if (c.mode == "B01") { b01(c); } else { b02(c); }
    });
}

// Everything the harnesses share that does not touch the code under test: run loop, result file, oracles.
#include "post.hpp"
#include <algorithm>
#include <limits>

namespace H {
static void write_result(const std::string& path, bool complete) {
    auto& r = result();
    std::ostringstream o;
    o.precision(17);
    o << "{\"complete\":" << (complete ? "true" : "false") << ",\"evaluations\":" << r.evaluations << ",\"sigs\":[";
    bool f = true;
    for (auto s : r.sigs) { o << (f ? "" : ",") << "\"" << std::hex << s << std::dec << "\""; f = false; }
    o << "],\"counters\":{"; f = true;
    for (auto& c : r.counters) { if (std::isfinite(c.second)) { o << (f ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; f = false; } }
    o << "},\"samples\":["; f = true;
    for (auto& s : r.samples) { o << (f ? "" : ",") << "\"" << jesc(s) << "\""; f = false; }
    o << "],\"violations\":["; f = true;
    for (auto& v : r.violations) { o << (f ? "" : ",") << "{\"key\":\"" << jesc(v.key) << "\",\"msg\":\"" << jesc(v.msg.substr(0, 4000)) << "\",\"case\":" << v.cas << "}"; f = false; }
    o << "]}\n";
    std::ofstream(path) << o.str();
}

// fn is called once per case; replaying = the same shard re-run up to and including one case.
int run(int argc, char** argv, const std::string& name, const std::function<void(Ctx&)>& fn) {
    auto& o = opts();
    for (int k = 1; k + 1 < argc; k += 2) {
        std::string a = argv[k], v = argv[k + 1];
        if (a == "--seed") { o.seed = strtoull(v.c_str(), nullptr, 10); }
        else if (a == "--cases") { o.cases = atol(v.c_str()); }
        else if (a == "--shard") { o.shard = atol(v.c_str()); }
        else if (a == "--shards") { o.shards = atol(v.c_str()); }
        else if (a == "--until") { o.until = atol(v.c_str()); }
        else if (a == "--tier") { o.thorough = v == "thorough"; }
        else if (a == "--out") { o.out = v; }
        else if (a == "--mode") { o.mode = v; }
        else if (a == "--hang") { o.hang = atoi(v.c_str()); }
    }
    snprintf(cur_path(), 4096, "%s.cur", o.out.c_str());
    signal(SIGPROF, on_hang);
    rd_state() = mix(o.seed * 1000003 + o.shard);
    for (long c = o.shard; c < o.cases; c += o.shards) {
        if (o.until >= 0 && c > o.until) { break; }
        cur_case() = c;
        write_cur("running");
        arm(o.hang);
        Ctx ctx(mix(mix(o.seed) ^ hashs(name + "/" + o.mode) ^ mix(c + 77)), c, o.thorough);
        ctx.mode = o.mode;
        ctx.replay = o.until == c;
        fn(ctx);
        ++result().evaluations;
        if (ctx.nontrivial) { result().sigs.insert(ctx.sig); }
        if (result().violations.size() >= 40) { break; }
    }
    arm(0);
    cur_case() = -1;
    write_cur("done");
    write_result(o.out, true);
    return 0;
}

}  // namespace H

// The library's generators seed themselves from std::random_device; make that a function of the seed.
unsigned std::random_device::_M_getval() {
    return static_cast<unsigned>(H::mix(H::rd_state().fetch_add(1)) >> 16);
}

namespace O {
static const ld WA = 6378137.0L;
static const ld WF = 1.0L / 298.257223563L;
static const ld WE2 = WF * (2 - WF);

Mat operator*(const Mat& a, const Mat& b) { Mat m(a.r, b.c); for (int i = 0; i < a.r; ++i) { for (int k = 0; k < a.c; ++k) { ld v = a(i, k); for (int j = 0; j < b.c; ++j) { m(i, j) += v * b(k, j); } } } return m; }
Mat operator+(const Mat& a, const Mat& b) { Mat m = a; for (size_t k = 0; k < m.a.size(); ++k) { m.a[k] += b.a[k]; } return m; }
Mat operator-(const Mat& a, const Mat& b) { Mat m = a; for (size_t k = 0; k < m.a.size(); ++k) { m.a[k] -= b.a[k]; } return m; }
Mat operator*(ld s, const Mat& a) { Mat m = a; for (auto& v : m.a) { v *= s; } return m; }
Mat tr(const Mat& a) { Mat m(a.c, a.r); for (int i = 0; i < a.r; ++i) { for (int j = 0; j < a.c; ++j) { m(j, i) = a(i, j); } } return m; }
Mat inv(const Mat& a, ld* det) {
    int n = a.r; Mat w = a, v = Mat::eye(n); ld d = 1;
    for (int k = 0; k < n; ++k) {
        int p = k; for (int i = k + 1; i < n; ++i) { if (std::fabs(w(i, k)) > std::fabs(w(p, k))) { p = i; } }
        if (p != k) { d = -d; for (int j = 0; j < n; ++j) { std::swap(w(k, j), w(p, j)); std::swap(v(k, j), v(p, j)); } }
        ld q = w(k, k); d *= q;
        for (int j = 0; j < n; ++j) { w(k, j) /= q; v(k, j) /= q; }
        for (int i = 0; i < n; ++i) { if (i == k) { continue; } ld f = w(i, k); if (f == 0) { continue; } for (int j = 0; j < n; ++j) { w(i, j) -= f * w(k, j); v(i, j) -= f * v(k, j); } }
    }
    if (det) { *det = d; }
    return v;
}
std::vector<ld> eig(const Mat& a0, Mat* V) {
    int n = a0.r; Mat a = 0.5L * (a0 + tr(a0)), v = Mat::eye(n);
    for (int sweep = 0; sweep < 100; ++sweep) {
        ld off = 0, dg = 0;
        for (int i = 0; i < n; ++i) { dg += a(i, i) * a(i, i); for (int j = 0; j < n; ++j) { if (i != j) { off += a(i, j) * a(i, j); } } }
        if (off <= 1e-40L * dg) { break; }
        for (int p = 0; p < n; ++p) { for (int q = p + 1; q < n; ++q) {
            if (a(p, q) == 0) { continue; }
            ld th = (a(q, q) - a(p, p)) / (2 * a(p, q)), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
            for (int k = 0; k < n; ++k) { ld x = a(k, p), y = a(k, q); a(k, p) = c * x - s * y; a(k, q) = s * x + c * y; }
            for (int k = 0; k < n; ++k) { ld x = a(p, k), y = a(q, k); a(p, k) = c * x - s * y; a(q, k) = s * x + c * y; }
            for (int k = 0; k < n; ++k) { ld x = v(k, p), y = v(k, q); v(k, p) = c * x - s * y; v(k, q) = s * x + c * y; }
        } }
    }
    std::vector<int> o(n); for (int i = 0; i < n; ++i) { o[i] = i; }
    std::sort(o.begin(), o.end(), [&](int x, int y) { return a(x, x) < a(y, y); });
    std::vector<ld> l; if (V) { *V = Mat(n, n); }
    for (int k = 0; k < n; ++k) { l.push_back(a(o[k], o[k])); if (V) { for (int i = 0; i < n; ++i) { (*V)(i, k) = v(i, o[k]); } } }
    return l;
}

V3 lla2ecef(const V3& p) {
    ld la = p[0] * PI / 180, lo = p[1] * PI / 180, s = std::sin(la), c = std::cos(la);
    ld n = WA / std::sqrt(1 - WE2 * s * s);
    return V3{(n + p[2]) * c * std::cos(lo), (n + p[2]) * c * std::sin(lo), (n * (1 - WE2) + p[2]) * s};
}
std::array<V3, 3> nedrot(ld lat, ld lon) {
    ld la = lat * PI / 180, lo = lon * PI / 180, sl = std::sin(la), cl = std::cos(la), so = std::sin(lo), co = std::cos(lo);
    return {V3{-sl * co, -sl * so, cl}, V3{-so, co, 0}, V3{-cl * co, -cl * so, -sl}};
}
V2 ll2ne(const V2& ll, const V2& o) {
    V3 a = lla2ecef({ll[0], ll[1], 0}), b = lla2ecef({o[0], o[1], 0});
    auto R = nedrot(o[0], o[1]);
    V2 r{0, 0};
    for (int k = 0; k < 3; ++k) { r[0] += R[0][k] * (a[k] - b[k]); r[1] += R[1][k] * (a[k] - b[k]); }
    return r;
}
// Fixed-point on the geodetic latitude
V3 ecef2lla(const V3& e) {
    ld p = std::hypot(e[0], e[1]);
    ld lon = std::atan2(e[1], e[0]);
    ld lat = std::atan2(e[2], p * (1 - WE2));
    for (int k = 0; k < 60; ++k) {
        ld s = std::sin(lat), n = WA / std::sqrt(1 - WE2 * s * s);
        ld nlat = std::atan2(e[2] + WE2 * n * s, p);
        bool done = std::fabs(nlat - lat) < 1e-19L;
        lat = nlat;
        if (done) { break; }
    }
    ld s = std::sin(lat), c = std::cos(lat), n = WA / std::sqrt(1 - WE2 * s * s);
    ld alt = p * c + e[2] * s - WA * WA / n;
    return V3{lat * 180 / PI, lon * 180 / PI, alt};
}
V2 ne2ll(const V2& ne, const V2& o) {
    V3 e = lla2ecef({o[0], o[1], 0});
    auto R = nedrot(o[0], o[1]);
    for (int k = 0; k < 3; ++k) { e[k] += R[0][k] * ne[0] + R[1][k] * ne[1]; }
    V3 l = ecef2lla(e);
    return {l[0], l[1]};
}

ld logn(const Mat& d, const Mat& S) {
    ld det = 1; Mat Si = inv(S, &det);
    ld q = (tr(d) * Si * d)(0, 0);
    return -0.5L * (q + std::log(det) + d.r * std::log(2 * PI));
}
KU kalman(const Mat& x, const Mat& P, const Mat& Hm, const Mat& z, const Mat& R) {
    Mat S = Hm * P * tr(Hm) + R;
    Mat K = P * tr(Hm) * inv(S);
    Mat A = Mat::eye(P.r) - K * Hm, d = z - Hm * x;
    KU u; u.x = x + K * d; u.P = A * P * tr(A) + K * R * tr(K); u.loglik = logn(d, S);
    return u;
}

ld ncdf(ld x) { return 0.5L * std::erfc(-x / std::sqrt(2.0L)); }
// Integrate the conditional over x with Gauss-Legendre panels
static ld strip(const V2& m, const Mat& P, ld a, ld b, const std::function<void(ld, ld&, ld&)>& yrange) {
    static const ld gx[5] = {0.1488743389816312108848260011L, 0.4333953941292471907992659432L, 0.6794095682990244062343273651L, 0.8650633666889845107320966884L, 0.9739065285171717200779640121L};
    static const ld gw[5] = {0.2955242247147528701738929946L, 0.2692667193099963550912269216L, 0.2190863625159820439955349342L, 0.1494513491505805931457763397L, 0.0666713443086881375935688098L};
    ld sx = std::sqrt(P(0, 0)), rho = P(0, 1) / P(0, 0), sy = std::sqrt(std::max<ld>(P(1, 1) - P(0, 1) * rho, 1e-30L));
    ld lo = std::max(a, m[0] - 9 * sx), hi = std::min(b, m[0] + 9 * sx);
    if (hi <= lo) { return 0; }
    int n = std::max(4, std::min(400, static_cast<int>((hi - lo) / sx * 6 * std::max<ld>(1, std::min<ld>(20, std::fabs(rho) * sx / sy))) + 1));
    ld s = 0, h = (hi - lo) / n;
    for (int k = 0; k < n; ++k) { for (int q = 0; q < 10; ++q) {
        ld t = (q < 5 ? gx[q] : -gx[q - 5]), w = gw[q % 5];
        ld x = lo + h * (k + 0.5L + 0.5L * t), y0, y1;
        yrange(x, y0, y1);
        if (y1 <= y0) { continue; }
        ld u = (x - m[0]) / sx, my = m[1] + rho * (x - m[0]);
        s += w * 0.5L * h * std::exp(-0.5L * u * u) / (sx * std::sqrt(2 * PI)) * (ncdf((y1 - my) / sy) - ncdf((y0 - my) / sy));
    } }
    return s;
}
ld boxprob(const V2& m, const Mat& P, ld a, ld b, ld c, ld d) { return strip(m, P, a, b, [&](ld, ld& y0, ld& y1) { y0 = c; y1 = d; }); }
ld polyprob(const V2& m, const Mat& P, const std::vector<V2>& poly) {
    // convex polygon: split at the vertices' x
    std::vector<ld> xs; for (auto& p : poly) { xs.push_back(p[0]); }
    std::sort(xs.begin(), xs.end());
    ld s = 0; int n = poly.size();
    for (size_t k = 0; k + 1 < xs.size(); ++k) {
        if (xs[k + 1] <= xs[k]) { continue; }
        s += strip(m, P, xs[k], xs[k + 1], [&](ld x, ld& y0, ld& y1) {
            y0 = std::numeric_limits<ld>::infinity(); y1 = -y0;
            for (int i = 0; i < n; ++i) {
                const V2 &p = poly[i], &q = poly[(i + 1) % n];
                if ((p[0] <= x) == (q[0] <= x)) { continue; }
                ld y = p[1] + (q[1] - p[1]) * (x - p[0]) / (q[0] - p[0]);
                y0 = std::min(y0, y); y1 = std::max(y1, y);
            }
        });
    }
    return s;
}

// Minimum-cost assignment of all rows (rows <= cols), successive shortest paths with Bellman-Ford,
// forbidden entries are infinite. Returns false if infeasible.
// Hungarian method by shortest augmenting paths with potentials: terminates whatever the rounding, O(n^2 m).
bool assign(const Table& C, std::vector<int>& row2col, ld& cost) {
    int n = C.size(), m = n ? C[0].size() : 0;
    const ld INF = std::numeric_limits<ld>::infinity();
    std::vector<ld> u(n + 1, 0), v(m + 1, 0);
    std::vector<int> p(m + 1, 0), way(m + 1, 0);
    row2col.assign(n, -1);
    for (int i = 1; i <= n; ++i) {
        p[0] = i;
        int j0 = 0;
        std::vector<ld> minv(m + 1, INF);
        std::vector<char> used(m + 1, 0);
        do {
            used[j0] = 1;
            int i0 = p[j0], j1 = -1;
            ld delta = INF;
            for (int j = 1; j <= m; ++j) {
                if (used[j]) { continue; }
                if (std::isfinite(C[i0 - 1][j - 1])) {
                    ld cur = C[i0 - 1][j - 1] - u[i0] - v[j];
                    if (cur < minv[j]) { minv[j] = cur; way[j] = j0; }
                }
                if (minv[j] < delta) { delta = minv[j]; j1 = j; }
            }
            if (j1 < 0) { return false; }
            for (int j = 0; j <= m; ++j) { if (used[j]) { u[p[j]] += delta; v[j] -= delta; } else { minv[j] -= delta; } }
            j0 = j1;
        } while (p[j0] != 0);
        do { int j1 = way[j0]; p[j0] = p[j1]; j0 = j1; } while (j0);
    }
    cost = 0;
    for (int j = 1; j <= m; ++j) { if (p[j]) { row2col[p[j] - 1] = j - 1; } }
    for (int i = 0; i < n; ++i) { cost += C[i][row2col[i]]; }
    return true;
}

bool matchable(const Table& C) {
    int n = C.size(), m = n ? C[0].size() : 0;
    std::vector<int> c2r(m, -1);
    std::function<bool(int, std::vector<char>&)> go = [&](int i, std::vector<char>& seen) {
        for (int j = 0; j < m; ++j) {
            if (!std::isfinite(C[i][j]) || seen[j]) { continue; }
            seen[j] = 1;
            if (c2r[j] < 0 || go(c2r[j], seen)) { c2r[j] = i; return true; }
        }
        return false;
    };
    for (int i = 0; i < n; ++i) { std::vector<char> seen(m, 0); if (!go(i, seen)) { return false; } }
    return true;
}

// Visit every complete assignment without forbidden entries
void all_assignments(const Table& C, const std::function<void(const std::vector<int>&, ld)>& f) {
    int n = C.size(), m = n ? C[0].size() : 0;
    std::vector<int> a(n, -1);
    std::vector<char> used(m, 0);
    std::function<void(int, ld)> go = [&](int i, ld c) {
        if (i == n) { f(a, c); return; }
        for (int j = 0; j < m; ++j) {
            if (used[j] || !std::isfinite(C[i][j])) { continue; }
            used[j] = 1; a[i] = j;
            go(i + 1, c + C[i][j]);
            used[j] = 0;
        }
    };
    go(0, 0);
}

}  // namespace O

namespace T {
V2d ne2ll(const V2d& ne, const V2d& o) { auto r = O::ne2ll({ne[0], ne[1]}, {o[0], o[1]}); return V2d(r[0], r[1]); }
V2d ll2ne(const V2d& ll, const V2d& o) { auto r = O::ll2ne({ll[0], ll[1]}, {o[0], o[1]}); return V2d(r[0], r[1]); }
bool bitsame(double a, double b) { return memcmp(&a, &b, 8) == 0; }
bool same(const Snap& a, const Snap& b, bool cid) {
    if (a.id != b.id || (cid && a.cid != b.cid) || !bitsame(a.r, b.r) || a.c.size() != b.c.size()) { return false; }
    for (size_t k = 0; k < a.c.size(); ++k) {
        if (memcmp(a.c[k].x.data(), b.c[k].x.data(), 32) || memcmp(a.c[k].P.data(), b.c[k].P.data(), 128) || !bitsame(a.c[k].w, b.c[k].w)) { return false; }
    }
    return !memcmp(a.aabb.min.data(), b.aabb.min.data(), 16) && !memcmp(a.aabb.max.data(), b.aabb.max.data(), 16) && !memcmp(a.bb.data(), b.bb.data(), 64);
}
static std::string row(const double* p, int n) { std::string s; for (int k = 0; k < n; ++k) { s += H::cat(k ? " " : "", p[k]); } return s; }
static double fro(const M4d& a, const M4d* b = nullptr) { double s = 0; for (int k = 0; k < 16; ++k) { double d = a.data()[k] - (b ? b->data()[k] : 0); s += d * d; } return std::sqrt(s); }
std::string str(const Snap& s) {
    std::string o = H::cat("T", s.id, " cid=", s.cid, " r=", s.r);
    for (auto& k : s.c) { o += H::cat(" {w=", k.w, " x=[", row(k.x.data(), 4), "] P=[", row(k.P.data(), 16), "]}"); }
    return o;
}
std::string str(const Snaps& v) { std::string o; for (auto& s : v) { o += str(s) + "\n"; } return o; }
M2d spd2(H::Rng& g, double lo, double hi) {
    double t = g.u(0, 2 * M_PI), a = g.logu(lo, hi), b = g.logu(lo, hi), c = std::cos(t), s = std::sin(t);
    M2d P; P << a * c * c + b * s * s, (a - b) * c * s, (a - b) * c * s, a * s * s + b * c * c;
    return P;
}
M4d covpv(H::Rng& g, double plo, double phi, double vlo, double vhi) {
    M2d A = spd2(g, plo, phi), B = spd2(g, vlo, vhi), L1, L2, C;
    auto chol = [](const M2d& P, M2d& L) { L(0, 0) = std::sqrt(P(0, 0)); L(0, 1) = 0; L(1, 0) = P(1, 0) / L(0, 0); L(1, 1) = std::sqrt(P(1, 1) - L(1, 0) * L(1, 0)); };
    chol(A, L1); chol(B, L2);
    // correlate through a random contraction: P = L [I C; C' I] L'
    double k = g.u(-0.4, 0.4);
    C(0, 0) = k; C(0, 1) = g.u(-0.3, 0.3); C(1, 0) = g.u(-0.3, 0.3); C(1, 1) = -k;
    M4d P;
    for (int i = 0; i < 2; ++i) { for (int j = 0; j < 2; ++j) {
        P(i, j) = A(i, j); P(i + 2, j + 2) = B(i, j);
        double v = 0; for (int a = 0; a < 2; ++a) { for (int b = 0; b < 2; ++b) { v += L1(i, a) * C(a, b) * L2(j, b); } }
        P(i, j + 2) = v; P(j + 2, i) = v;
    } }
    return P;
}
double poscovnorm(const std::vector<Comp>& c, const V2d& ll) {
    std::vector<V2d> p; V2d m(0, 0);
    for (auto& k : c) { p.push_back(ll2ne(V2d(k.x[0], k.x[1]), ll)); for (int q = 0; q < 2; ++q) { m[q] += k.w * p.back()[q]; } }
    double s = 0;
    for (int i = 0; i < 2; ++i) { for (int j = 0; j < 2; ++j) { double v = 0; for (size_t k = 0; k < c.size(); ++k) { v += c[k].w * (c[k].P(i, j) + (p[k][i] - m[i]) * (p[k][j] - m[j])); } s += v * v; } }
    return std::sqrt(s);
}
Expect expect(const Prior& pr, const Lim& par, const PDfn& pd, long maxhyp) {
    using O::ld;
    Expect e;
    int M = pr.t.size(), N = pr.z.size();
    e.t.resize(M); e.rB.assign(N, 1.0); e.rcluster.assign(N, -1);
    // Gating partition
    O::DSU d(M + N);
    std::vector<char> touched(M, 0);
    for (int j = 0; j < N; ++j) {
        for (int i = 0; i < M; ++i) {
            if (meets(pr.z[j].box, pr.t[i].aabb)) { d.unite(i, M + j); touched[i] = 1; }
        }
    }
    std::map<int, int> cl;
    for (int a = 0; a < M + N; ++a) {
        if (a < M && !touched[a] && !pr.inview[a]) { continue; }
        int root = d.find(a);
        if (!cl.count(root)) { cl[root] = e.clusters.size(); e.clusters.emplace_back(); }
        int c = cl[root];
        if (a < M) { e.clusters[c].t.push_back(a); e.t[a].in_cluster = true; e.t[a].cluster = c; }
        else { e.clusters[c].r.push_back(a - M); e.rcluster[a - M] = c; }
    }
    for (int i = 0; i < M; ++i) {
        e.t[i].r = pr.t[i].r; e.t[i].c = pr.t[i].c;
    }
    for (auto& c : e.clusters) {
        int m = c.t.size(), n = c.r.size();
        if (m == 0) { continue; }
        // local frame: mean of report and target positions
        O::V2 o{0, 0};
        for (int q = 0; q < 2; ++q) {
            for (int j : c.r) { o[q] += pr.z[j].x[q]; }
            for (int i : c.t) { for (auto& k : pr.t[i].c) { o[q] += static_cast<ld>(k.w) * k.x[q]; } }
            o[q] /= (m + n);
        }
        const ld INF = std::numeric_limits<ld>::infinity();
        O::Mat H(2, 4); H(0, 0) = H(1, 1) = 1;
        std::vector<std::vector<ld>> cost(m, std::vector<ld>(n, INF));   // detection
        std::vector<ld> miss(m, INF), dead(m, INF);
        std::vector<std::vector<std::vector<Comp>>> cand(m, std::vector<std::vector<Comp>>(n + 1));
        std::vector<std::vector<std::vector<ld>>> candw(m, std::vector<std::vector<ld>>(n + 1));
        std::vector<O::V2> zl(n);
        bool amb = false;    // a missed-detection weight that is zero only up to rounding
        for (int j = 0; j < n; ++j) { zl[j] = O::ll2ne({pr.z[c.r[j]].x[0], pr.z[c.r[j]].x[1]}, o); }
        for (int a = 0; a < m; ++a) {
            const Snap& s = pr.t[c.t[a]];
            ld det = 0;
            for (size_t k = 0; k < s.c.size(); ++k) {
                O::V2 xl = O::ll2ne({s.c[k].x[0], s.c[k].x[1]}, o);
                det += static_cast<ld>(s.c[k].w) * pd(c.t[a], k);
                // missed candidate: position passes through the frame unchanged up to curvature
                Comp mc = s.c[k];
                O::V2 back = O::ne2ll(xl, o);
                mc.x[0] = back[0]; mc.x[1] = back[1];
                cand[a][n].push_back(mc); candw[a][n].push_back(s.c[k].w);
            }
            for (int j = 0; j < n; ++j) {
                const Rep& z = pr.z[c.r[j]];
                ld ev = 0;
                std::vector<ld> w;
                for (size_t k = 0; k < s.c.size(); ++k) {
                    O::Mat x = O::Mat::of(s.c[k].x), zz(2, 1);
                    O::V2 xl = O::ll2ne({s.c[k].x[0], s.c[k].x[1]}, o);
                    x(0, 0) = xl[0]; x(1, 0) = xl[1]; zz(0, 0) = zl[j][0]; zz(1, 0) = zl[j][1];
                    auto u = O::kalman(x, O::Mat::of(s.c[k].P), H, zz, O::Mat::of(z.P));
                    ld wk = static_cast<ld>(s.c[k].w) * pd(c.t[a], k) * std::exp(u.loglik) / static_cast<ld>(z.kappa);
                    Comp g; g.w = 0;
                    for (int a1 = 0; a1 < 4; ++a1) { g.x[a1] = u.x(a1, 0); for (int b1 = 0; b1 < 4; ++b1) { g.P(a1, b1) = u.P(a1, b1); } }
                    O::V2 gl = O::ne2ll({u.x(0, 0), u.x(1, 0)}, o);
                    g.x[0] = gl[0]; g.x[1] = gl[1];
                    cand[a][j].push_back(g);
                    w.push_back(wk); ev += wk;
                }
                if (std::fabs(static_cast<double>(ev / 1e-8L) - 1) < 1e-3) { e.fuzzy = true; }
                if (ev > 1e-8L) {
                    cost[a][j] = -std::log(static_cast<ld>(s.r) * ev);
                    for (auto& q : w) { q /= ev; }
                } else { cand[a][j].clear(); w.clear(); }
                candw[a][j] = w;
            }
            ld um = 1 - det;
            if (std::fabs(static_cast<double>(um)) < 1e-12) { um = 0; if (s.c.size() > 1) { amb = true; } }
            if (um > 0) { miss[a] = -std::log(static_cast<ld>(s.r) * um); }
            dead[a] = s.r < 1 ? -std::log(1 - static_cast<ld>(s.r)) : static_cast<ld>(30000);
        }
        // Enumerate hypotheses
        struct Hyp { ld c; std::vector<int> a; };
        std::vector<Hyp> hyps;
        std::vector<int> a(m);
        std::vector<char> used(n, 0);
        bool big = false;
        std::function<void(int, ld)> go = [&](int i, ld cc) {
            if (big) { return; }
            if (i == m) { hyps.push_back({cc, a}); if (static_cast<long>(hyps.size()) > maxhyp) { big = true; } return; }
            for (int j = 0; j < n; ++j) {
                if (used[j] || !std::isfinite(cost[i][j])) { continue; }
                used[j] = 1; a[i] = j; go(i + 1, cc + cost[i][j]); used[j] = 0;
            }
            if (std::isfinite(miss[i])) { a[i] = n; go(i + 1, cc + miss[i]); }
            if (std::isfinite(dead[i])) { a[i] = n + 1; go(i + 1, cc + dead[i]); }
        };
        go(0, 0);
        if (big) { e.too_big = true; return e; }
        std::stable_sort(hyps.begin(), hyps.end(), [](const Hyp& x, const Hyp& y) { return x.c < y.c; });
        if (!hyps.empty() && hyps[0].c > 25000) { e.contradictory = true; }
        O::Mat R(m, n + 2);
        ld ws = 0; long cnt = 0;
        for (size_t h = 0; h < hyps.size(); ++h) {
            ld w = std::exp(hyps[0].c - hyps[h].c);
            ws += w;
            for (int i = 0; i < m; ++i) { R(i, hyps[h].a[i]) += w; }
            ++cnt;
            ld ratio = w / ws;
            if (par.w_lim > 0 && std::fabs(static_cast<double>(ratio / par.w_lim) - 1) < 1e-6) { c.fuzzy = true; }
            if (ratio < par.w_lim || cnt >= par.nhyp_max) {
                if (h + 1 < hyps.size() && hyps[h + 1].c - hyps[h].c < 1e-7L) { c.fuzzy = true; }
                break;
            }
        }
        if (amb && (par.w_lim > 0 || cnt >= par.nhyp_max || hyps.empty() || hyps[0].c > 10)) { c.fuzzy = true; }
        c.nhyp = cnt; e.hyps += cnt;
        if (ws > 0) { R = (1 / ws) * R; }
        for (int i = 0; i < m; ++i) {
            auto& t = e.t[c.t[i]];
            ld rs = 0; for (int j = 0; j <= n; ++j) { rs += R(i, j); }
            if (std::fabs(static_cast<double>(rs) - 1e-6) < 1e-9) { t.fuzzy_r = true; }
            t.fuzzy_r = t.fuzzy_r || c.fuzzy;
            if (rs < 1e-6L) { t.r = 0; t.removed = true; continue; }
            t.r = static_cast<double>(rs);
            // weighted join: heaviest components first, relative threshold and cap
            std::vector<std::pair<ld, std::pair<int, int>>> q;
            for (int j = 0; j <= n; ++j) { for (size_t k = 0; k < cand[i][j].size(); ++k) { q.push_back({R(i, j) * candw[i][j][k], {j, static_cast<int>(k)}}); } }
            std::stable_sort(q.begin(), q.end(), [](auto& x, auto& y) { return x.first > y.first; });
            t.c.clear();
            ld wsum = 0;
            size_t h = 0;
            for (; h < q.size() && h < 200; ++h) {
                wsum += q[h].first;
                if (par.cw_lim > 0 && std::fabs(static_cast<double>(q[h].first / wsum / par.cw_lim) - 1) < 1e-5) { t.fuzzy_c = true; }
                if (q[h].first / wsum < par.cw_lim) { break; }
                Comp g = cand[i][q[h].second.first][q[h].second.second];
                g.w = static_cast<double>(q[h].first);
                t.c.push_back(g);
            }
            if (h > 0 && h < q.size() && q[h - 1].first - q[h].first < 1e-7L * q[h].first + 1e-12L) { t.fuzzy_c = true; }
            double tot = 0; for (auto& g : t.c) { tot += g.w; }
            for (auto& g : t.c) { g.w /= tot; }
        }
        for (int j = 0; j < n; ++j) { e.rB[c.r[j]] = [&] { ld q = 1; for (int i = 0; i < m; ++i) { q -= R(i, j); } return static_cast<double>(q); }(); }
    }
    return e;
}

bool mix_match(const std::vector<Comp>& exp, const std::vector<Comp>& act, double wtol, double ptol, double ctol, std::string& why, double wmin) {
    std::vector<char> used(act.size(), 0);
    for (auto& x : exp) {
        if (x.w < wmin) { continue; }
        int best = -1; double bd = 1e300;
        for (size_t k = 0; k < act.size(); ++k) {
            if (used[k]) { continue; }
            V2d d(act[k].x[0] - x.x[0], act[k].x[1] - x.x[1]);
            d[0] *= 111000; d[1] *= 111000 * std::cos(x.x[0] * M_PI / 180);
            double dv = std::hypot(act[k].x[2] - x.x[2], act[k].x[3] - x.x[3]), v = std::hypot(x.x[2], x.x[3]);
            double s = std::hypot(d[0], d[1]) / ptol + dv / (ptol * 10 * (1 + v)) + fro(act[k].P, &x.P) / (ctol * (1 + fro(x.P))) + std::fabs(act[k].w - x.w) / wtol;
            if (s < bd) { bd = s; best = k; }
        }
        if (best < 0 || bd > 4) {
            why = H::cat("no component matches expected w=", x.w, " x=[", row(x.x.data(), 4), "] P=[", row(x.P.data(), 16), "] (best score ", bd, ")");
            return false;
        }
        used[best] = 1;
    }
    for (size_t k = 0; k < act.size(); ++k) {
        if (!used[k] && act[k].w > wmin * 2 + wtol) { why = H::cat("unexpected component w=", act[k].w, " x=[", row(act[k].x.data(), 4), "]"); return false; }
    }
    return true;
}
}  // namespace T

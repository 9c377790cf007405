// R01: the real particle density, every weight and particle recomputed in long double after each operation.
#include "track.hpp"
#include <omp.h>
#include "pf.hpp"
using H::cat;
using O::ld;

template<unsigned N> struct Drive {
    using PF = lmb::PF<4, N>;
    using PTarget = lmb::Target_<PF>;
    using PSensor = lmb::PositionSensor<PTarget>;
    H::Ctx& c; H::Rng& g; lmb::Params par; std::string hist;
    explicit Drive(H::Ctx& c_) : c(c_), g(c_.rng) { par.nstd = g.u(0.5, 4); }
    void bad(const char* key, const std::string& m) { c.fail(key, cat(m, "; ", N, " particles, ", omp_get_max_threads(), " threads, operations:", hist)); }
    struct State { std::vector<ld> w; std::vector<std::array<double, 4>> x; };
    static State state(const PF& p) { State s; for (unsigned i = 0; i < N; ++i) { s.w.push_back(p.w[i]); s.x.push_back({p.x(0, i), p.x(1, i), p.x(2, i), p.x(3, i)}); } return s; }
    static bool samex(const State& a, const PF& p) { for (unsigned i = 0; i < N; ++i) { for (int k = 0; k < 4; ++k) { if (a.x[i][k] != p.x(k, i)) { return false; } } } return true; }
    static bool samew(const State& a, const PF& p) { for (unsigned i = 0; i < N; ++i) { if (a.w[i] != p.w[i]) { return false; } } return true; }

    bool moments(PF& p) {
        State s = state(p); ld tot = 0, m[4] = {}, P[4][4] = {}, q = 0, mag[4] = {};
        for (unsigned i = 0; i < N; ++i) { tot += s.w[i]; q += s.w[i] * s.w[i]; for (int k = 0; k < 4; ++k) { m[k] += s.w[i] * s.x[i][k]; mag[k] += s.w[i] * fabsl(s.x[i][k]); } }
        for (unsigned i = 0; i < N; ++i) { for (int a = 0; a < 4; ++a) { for (int b = 0; b < 4; ++b) { P[a][b] += s.w[i] * (s.x[i][a] - m[a]) * (s.x[i][b] - m[b]); } } }
        auto mean = p.mean(); auto cov = p.cov(); auto pc = p.poscov(); auto pos = p.pos();
        c.count("moments");
        if (!H::close(static_cast<double>(tot), 1, 0, 1e-9)) { bad("normalisation", cat("the weights sum to ", static_cast<double>(tot))); return false; }
        for (int a = 0; a < 4; ++a) {
            if (!H::close(mean[a], m[a], 1e-10, 1e-12 * static_cast<double>(mag[a] + 1e-30L)) || (a < 2 && pos[a] != mean[a])) { bad("mean", cat("mean[", a, "] is ", mean[a], ", expected ", static_cast<double>(m[a]))); return false; }
            for (int b = 0; b < 4; ++b) {
                // the mean is subtracted before squaring, so only its rounding remains
                const ld er = 1e-14L + N * 2.3e-16L;
                ld sc = 1e-9L * sqrtl(P[a][a] * P[b][b]) + er * (mag[a] * sqrtl(P[b][b]) + mag[b] * sqrtl(P[a][a])) + er * er * mag[a] * mag[b];
                if (!(fabsl(cov(a, b) - P[a][b]) <= sc + 1e-300L)) { bad("covariance", cat("cov(", a, ",", b, ") is ", cov(a, b), ", expected ", static_cast<double>(P[a][b]))); return false; }
                if (a < 2 && b < 2 && pc(a, b) != cov(a, b)) { bad("covariance", "the position block differs from the covariance"); return false; }
            }
        }
        if (!H::close(p.neff(), static_cast<double>(1 / q), 1e-9, 0)) { bad("effective-number", cat("neff is ", p.neff(), ", expected ", static_cast<double>(1 / q))); return false; }
        if (g.p(0.2)) {
            p.prepare_sort(); std::vector<ld> ws; for (unsigned i = 0; i < N; ++i) { ws.push_back(p.wsorted(i)); }
            auto ref = s.w; std::sort(ref.rbegin(), ref.rend());
            if (ws != ref) { bad("sorting", "the sorted weights are not the weights in descending order"); return false; }
        }
        return true;
    }
    // view polygon in the local frame; -1 when too close to its edge to call
    static int inside(const std::array<O::V2, 4>& v, double n, double e, ld size) {
        int pos = 0, neg = 0;
        for (int k = 0; k < 4; ++k) {
            auto &a = v[k], &b = v[(k + 1) % 4]; ld dx = b[0] - a[0], dy = b[1] - a[1], l = sqrtl(dx * dx + dy * dy);
            ld s = (dx * (e - a[1]) - dy * (n - a[0])) / (l + 1e-30L);
            if (fabsl(s) < 1e-7L * size) { return -1; }
            (s > 0 ? pos : neg)++;
        }
        return pos == 4 || neg == 4;
    }
    void go() {
        omp_set_num_threads(g.pick<int>({1, 1, 2, 4, 8}));
        cf::LL o; o << g.u(-75, 75), g.u(-170, 170);
        double sd = g.logu(1e-6, 1e-2);        // degrees
        typename PF::State m0; m0 << o[0], o[1], g.n() * 3, g.n() * 3;
        typename PF::Covariance P0 = PF::Covariance::Zero();
        P0.template topLeftCorner<2, 2>() = T::spd2(g, sd * sd / 10, sd * sd); P0.template bottomRightCorner<2, 2>() = T::spd2(g, 0.01, 4);
        std::unique_ptr<PF> pp(new PF(&par, m0, P0)); PF& p = *pp;
        for (unsigned i = 0; i < N; ++i) { if (p.w[i] != 1.0 / N) { bad("initial-weights", "a new density's weights are not equal"); return; } }
        if (!p.valid) { bad("initial-weights", "a new density is not valid"); return; }
        { auto mm = p.mean(); for (int k = 0; k < 4; ++k) { double z = (mm[k] - m0[k]) / std::sqrt(P0(k, k) / N); c.maxi("initial_z", std::fabs(z)); if (!(std::fabs(z) < 8)) { bad("initial-mean", cat("the initial mean is off by ", z, " standard errors")); return; } } }
        State gl = state(p);
        o = p.transform_to_local();
        { auto mm = [&] { ld a = 0, b = 0; for (unsigned i = 0; i < N; ++i) { a += gl.w[i] * gl.x[i][0]; b += gl.w[i] * gl.x[i][1]; } return std::make_pair(a, b); }();
          if (!H::close(o[0], mm.first, 0, 1e-9) || !H::close(o[1], mm.second, 0, 1e-9)) { bad("origin", "the local origin is not the mean position"); return; } }
        for (unsigned i = 0; i < N; ++i) {
            O::V2 l = O::ll2ne({gl.x[i][0], gl.x[i][1]}, {o[0], o[1]});
            if (!H::close(p.x(0, i), l[0], 1e-9, 1e-6) || !H::close(p.x(1, i), l[1], 1e-9, 1e-6) || p.x(2, i) != gl.x[i][2] || p.x(3, i) != gl.x[i][3]) { bad("local-frame", cat("particle ", i, " is at ", p.x(0, i), ",", p.x(1, i), " in the local frame, expected ", static_cast<double>(l[0]), ",", static_cast<double>(l[1]))); return; }
        }
        double L = sd * 111000;
        int steps = g.i(1, 8); uint64_t sig = 0;
        for (int s = 0; s < steps; ++s) {
            if (!moments(p)) { return; }
            State a = state(p); int what = g.i(0, 9); ld tot = 0;
            if (what <= 5) {      // detection or missed detection
                PSensor z; z.pD_ = g.pick<double>({1.0, 0.9, 0.5, 0.99, g.p(0.3) ? 0.0 : 0.7});
                bool full = g.p(0.4);
                double cn = full ? 0 : g.n() * L, ce = full ? 0 : g.n() * L, hn = full ? 100 * L + 1000 : g.logu(0.1, 3) * L, he = full ? 100 * L + 1000 : g.logu(0.1, 3) * L, th = full ? 0 : g.u(0, 1.5);
                lmb::BBox::Corners cc; std::array<O::V2, 4> v; const double sg[4][2] = {{1, 1}, {1, -1}, {-1, -1}, {-1, 1}};
                for (int k = 0; k < 4; ++k) { double n = sg[k][0] * hn, e = sg[k][1] * he; O::V2 ll = O::ne2ll({cn + n * std::cos(th) - e * std::sin(th), ce + n * std::sin(th) + e * std::cos(th)}, {o[0], o[1]}); cc(0, k) = ll[0]; cc(1, k) = ll[1]; v[k] = O::ll2ne({cc(0, k), cc(1, k)}, {o[0], o[1]}); }
                z.fov = lmb::BBox(cc);
                bool miss = what >= 4;
                T::V2d zp(g.n() * L, g.n() * L); T::M2d R = T::spd2(g, L * L * g.logu(1e-3, 1), L * L); double kappa = g.p(0.9) ? g.logu(1e-4, 1e4) / (L * L) : g.logu(1e-9, 1e2);
                if (!miss && g.p(0.1)) { zp *= g.logu(1, 100); }
                T::Report rep(zp, R, kappa);
                hist += cat(miss ? " missed" : " correct", "(pD ", z.pD_, full ? " full view" : " partial view", ")");
                std::vector<ld> f(N); bool ambiguous = false;
                ld det = static_cast<ld>(R(0, 0)) * R(1, 1) - static_cast<ld>(R(0, 1)) * R(1, 0);
                for (unsigned i = 0; i < N; ++i) {
                    int in = inside(v, a.x[i][0], a.x[i][1], hn + he);
                    if (in < 0) { ambiguous = true; in = 0; }
                    ld pd = in ? z.pD_ : 0;
                    if (miss) { f[i] = 1 - pd; }
                    else { ld dx = zp[0] - a.x[i][0], dy = zp[1] - a.x[i][1]; ld q = (R(1, 1) * dx * dx - (static_cast<ld>(R(0, 1)) + R(1, 0)) * dx * dy + R(0, 0) * dy * dy) / det; f[i] = pd * expl(-q / 2) / (2 * M_PIl * sqrtl(det)) / kappa; }
                    f[i] *= a.w[i]; tot += f[i];
                }
                double got = miss ? p.missed(z) : p.correct(rep, z);
                c.count(miss ? "missed" : "corrections"); c.count("weights", N);
                if (ambiguous) { c.count("edge"); return; }
                if (!samex(a, p)) { bad("moved", "a weight update moved particles"); return; }
                if (std::fabs(static_cast<double>(tot / 1e-8L) - 1) < 1e-3) { return; }
                if (tot < 1e-8L) {
                    c.count("below_floor");
                    if (p.valid || got != 0) { bad("floor", cat("a total of ", static_cast<double>(tot), " left a valid density, returned ", got)); }
                    return;
                }
                if (!p.valid) { bad("floor", cat("a total of ", static_cast<double>(tot), " invalidated the density")); return; }
                if (!H::close(got, static_cast<double>(tot), 1e-9, 0) || !H::close(p.eta, got, 0, 0)) { bad("total", cat("the update returned ", got, ", expected ", static_cast<double>(tot))); return; }
                for (unsigned i = 0; i < N; ++i) {
                    ld e = f[i] / tot;
                    if (!(fabsl(p.w[i] - e) <= 1e-8L * e + 1e-250L)) { bad("weight", cat("particle ", i, " at ", a.x[i][0], ",", a.x[i][1], " has weight ", p.w[i], ", expected ", static_cast<double>(e), " from ", static_cast<double>(a.w[i]))); return; }
                }
                sig = H::mix(sig ^ static_cast<uint64_t>(got * 1e12));
            } else if (what <= 6) {
                double dt = g.u(0.05, 5); lmb::CV<PTarget> cv;
                T::M4d F; F << 1, 0, dt, 0, 0, 1, 0, dt, 0, 0, 1, 0, 0, 0, 0, 1;
                if (g.p(0.5)) { for (int k = 0; k < 16; ++k) { F.data()[k] += 0.2 * g.n(); } }
                hist += " move"; c.count("motions");
                p.linear_update(F, T::M4d::Zero());
                if (!samew(a, p)) { bad("motion", "motion changed weights"); return; }
                for (unsigned i = 0; i < N; ++i) { for (int k = 0; k < 4; ++k) {
                    ld e = 0, mag = 0; for (int q = 0; q < 4; ++q) { e += static_cast<ld>(F(k, q)) * a.x[i][q]; mag += fabsl(static_cast<ld>(F(k, q)) * a.x[i][q]); }
                    if (!(fabsl(p.x(k, i) - e) <= 1e-13L * mag)) { bad("motion", cat("particle ", i, " moved to ", p.x(k, i), " in state ", k, ", expected ", static_cast<double>(e))); return; } } }
            } else if (what <= 8) {
                // every particle distinct, so that copies can be counted
                for (unsigned i = 0; i < N; ++i) { p.x(3, i) += 1e-6 * (i + 1) / N; }
                if (g.p(0.2)) { double t = 0; for (unsigned i = 0; i < N; ++i) { p.w[i] = g.p(0.7) ? 0 : g.logu(1e-12, 1); t += p.w[i]; } if (t > 0) { p.w /= t; } else { p.w.setConstant(1.0 / N); } hist += " (sparse)"; }
                if (g.p(0.05)) { p.w.setZero(); p.w[g.p(0.5) ? N - 1 : g.i(0, N - 1)] = 1; hist += " (single)"; }
                if (N <= 100 && g.p(0.2)) {     // over many draws, every particle is copied its expected number of times
                    const int R = N <= 7 ? 2000 : 400; std::map<double, std::pair<ld, long>> av; c.count("averaged_resamplings");
                    for (unsigned i = 0; i < N; ++i) { av[p.x(3, i)].first += static_cast<ld>(p.w[i]) * N; }
                    for (int r = 0; r < R; ++r) { PF q = p; q.resample(); for (unsigned i = 0; i < N; ++i) { av[q.x(3, i)].second++; } }
                    for (auto& e : av) {
                        // each draw's count is one of two neighbouring numbers; Hoeffding with probability 1e-14
                        double d = static_cast<double>(e.second.second / static_cast<ld>(R) - e.second.first); c.maxi("average_copy_deviation", std::fabs(d));
                        if (!(std::fabs(d) <= std::sqrt(33.0 / (2 * R)))) { bad("average-copies", cat("a particle of weight for ", static_cast<double>(e.second.first), " copies was copied ", static_cast<double>(e.second.second) / R, " times on average over ", R, " draws")); return; }
                    }
                }
                a = state(p); hist += " resample"; c.count("resamplings");
                p.resample();
                for (unsigned i = 0; i < N; ++i) { if (p.w[i] != 1.0 / N) { bad("resampled-weights", cat("after resampling, particle ", i, " has weight ", p.w[i])); return; } }
                std::map<std::array<double, 4>, std::pair<ld, std::pair<int, int>>> cnt;   // weight, originals, copies
                for (unsigned i = 0; i < N; ++i) { auto& e = cnt[a.x[i]]; e.first += a.w[i]; e.second.first++; }
                for (unsigned i = 0; i < N; ++i) {
                    std::array<double, 4> k{p.x(0, i), p.x(1, i), p.x(2, i), p.x(3, i)}; auto it = cnt.find(k);
                    if (it == cnt.end()) { bad("resampled-state", cat("after resampling, particle ", i, " is not a copy of any")); return; }
                    it->second.second.second++;
                }
                for (auto& e : cnt) {
                    ld d = fabsl(e.second.second.second - e.second.first * N); c.maxi("copy_deviation", static_cast<double>(d) / e.second.second.first); c.count("copies");
                    if (!(d <= e.second.second.first + 1e-9L * N)) { bad("copies", cat("a particle of weight ", static_cast<double>(e.second.first), " (", static_cast<double>(e.second.first * N), " expected copies) was copied ", e.second.second.second, " times")); return; }
                }
            } else {
                // what a join of densities keeps: the heaviest weighted particles of all, resampled
                int K = g.i(1, 4); std::vector<PF> v; Eigen::Array<double, 1, Eigen::Dynamic> W(1, K);
                std::vector<std::pair<ld, std::array<double, 4>>> all;
                for (int k = 0; k < K; ++k) {
                    v.push_back(p); W[k] = k && g.p(0.1) ? 0 : g.p(0.1) ? 1e-6 * g.u(0.5, 1) : g.u(0.05, 1); auto& q = v.back(); double t = 0;
                    double none = g.p(0.6) ? g.u(0.5, 1) : 0;       // share of particles ruled out
                    for (unsigned i = 0; i < N; ++i) { q.x(2, i) = g.n(); q.w[i] = i && g.p(none) ? 0 : g.logu(1e-4, 1); t += q.w[i]; } q.w /= t;
                    for (unsigned i = 0; i < N; ++i) { all.push_back({static_cast<ld>(W[k]) * q.w[i], {q.x(0, i), q.x(1, i), q.x(2, i), q.x(3, i)}}); }
                }
                std::sort(all.rbegin(), all.rend()); ld sum = 0; for (unsigned i = 0; i < N; ++i) { sum += all[i].first; }
                hist += " join"; c.count("joins");
                PF::join(p, W, v);
                std::map<std::array<double, 4>, std::pair<ld, int>> cnt; for (unsigned i = 0; i < N; ++i) { cnt[all[i].second].first += all[i].first / sum; }
                if (all[N - 1].first == 0) { c.count("sparse_joins"); for (auto& e : all) { if (e.first == 0) { cnt[e.second].first += 0; } } }
                for (unsigned i = 0; i < N; ++i) { std::array<double, 4> k{p.x(0, i), p.x(1, i), p.x(2, i), p.x(3, i)}; auto it = cnt.find(k); if (it == cnt.end() || p.w[i] != 1.0 / N) { bad("join", "a join holds a particle that is not among the heaviest (or a wrong weight)"); return; } it->second.second++; }
                for (auto& e : cnt) { if (!(fabsl(e.second.second - e.second.first * N) <= 1 + 1e-9L * N)) { bad("join", cat("a join copied a particle of share ", static_cast<double>(e.second.first * N), " ", e.second.second, " times")); return; } }
            }
            c.mark(sig ^ H::hashs(hist));
        }
        if (!moments(p)) { return; }
        State a = state(p); auto m = p.mean(); auto P = p.poscov();
        p.transform_to_global();
        ld dd = static_cast<ld>(P(0, 0)) * P(1, 1) - static_cast<ld>(P(0, 1)) * P(1, 0);
        for (unsigned i = 0; i < N; ++i) {
            O::V2 ll = O::ne2ll({a.x[i][0], a.x[i][1]}, {o[0], o[1]});
            if (!H::close(p.x(0, i), ll[0], 0, 1e-9) || !H::close(p.x(1, i), ll[1], 0, 1e-9) || p.x(2, i) != a.x[i][2]) { bad("global-frame", cat("particle ", i, " at ", a.x[i][0], ",", a.x[i][1], " is placed at ", p.x(0, i), ",", p.x(1, i), ", expected ", static_cast<double>(ll[0]), ",", static_cast<double>(ll[1]))); return; }
        }
        if (dd > 1e-6L * P.trace() * P.trace() && std::hypot(m[0], m[1]) + par.nstd * std::sqrt(P.trace()) < 50000) {     // its box: centre and area of the confidence ellipse's
            std::array<O::V2, 4> v; ld cx = 0, cy = 0; for (int k = 0; k < 4; ++k) { v[k] = O::ll2ne({p.bbox.corners(0, k), p.bbox.corners(1, k)}, {o[0], o[1]}); cx += v[k][0] / 4; cy += v[k][1] / 4; }
            ld ar = 0; for (int k = 0; k < 4; ++k) { auto &q = v[k], &r = v[(k + 1) % 4]; ar += (q[0] - cx) * (r[1] - cy) - (r[0] - cx) * (q[1] - cy); } ar = fabsl(ar) / 2;
            ld want = 4 * static_cast<ld>(par.nstd) * par.nstd * sqrtl(dd), sz = sqrtl(P.trace());
            c.count("boxes");
            if (!(fabsl(cx - m[0]) < 1e-3L * sz + 1e-3L) || !(fabsl(cy - m[1]) < 1e-3L * sz + 1e-3L) || !(fabsl(ar - want) < 1e-2L * want + 1e-3L * sz)) { bad("box", cat("the box has centre ", static_cast<double>(cx), ",", static_cast<double>(cy), " and area ", static_cast<double>(ar), ", expected ", m[0], ",", m[1], " and ", static_cast<double>(want))); return; }
        }
        if (c.cas < 16) { c.sample(cat(N, " particles, ", omp_get_max_threads(), " threads:", hist)); }
    }
};

int main(int argc, char** argv) {
    return H::run(argc, argv, "pfm", [](H::Ctx& c) {
        switch (c.rng.i(0, 6)) {
            case 0: Drive<1>(c).go(); break;
            case 1: case 2: Drive<7>(c).go(); break;
            case 3: case 4: Drive<100>(c).go(); break;
            case 5: Drive<1024>(c).go(); break;
            default: Drive<5000>(c).go();
        }
    });
}

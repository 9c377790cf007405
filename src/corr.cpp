// F02 (posterior), F05 (births), F07 (clusters), F09 (field of view): before/after snapshots of real corrections
// judged by the enumeration in post.hpp. --mode selects the property whose disagreements are violations.
#include "track.hpp"
using namespace T;
using H::cat;

static const double LATM = 111000;

struct Scen {
    cf::LL o;
    Params par;
    std::vector<std::pair<double, std::vector<Comp>>> tg;
    std::vector<V2d> gpos;       // group centres (NE)
    std::vector<char> gin;       // in view
    std::vector<int> tgroup;
    struct R { V2d z; M2d P; double kappa; };
    std::vector<R> rep;
    double pD = 0.9, lambdaB = 1, spread;
    M2d pv;
    lmb::BBox fov;
    double fovhalf;
};

static Scen gen(H::Ctx& c) {
    auto& g = c.rng;
    Scen s;
    const std::string& m = c.mode;
    s.o = origin(g);
    int ng = g.i(1, 3);
    bool far = g.p(0.3);
    double gd = far ? g.u(2000, 20000) : g.u(60, 400);
    for (int k = 0; k < ng; ++k) { s.gpos.push_back(V2d(g.u(-gd, gd), g.u(-gd, gd))); }
    s.spread = g.pick<double>({0, 3, 10, 25});
    if (m == "F07") { s.spread = g.pick<double>({5, 15, 40, 100}); }
    double psc = g.pick<double>({0.3, 1, 4});
    int M = g.i(0, m == "F07" ? 9 : 4);
    int N = g.i(0, m == "F07" ? 9 : (m == "F05" ? 7 : 4));
    if (m == "F02" && g.p(0.15)) { M = 5; N = 4; }
    s.par.w_lim = 0; s.par.nhyp_max = 1e9; s.par.cw_lim = 0; s.par.r_lim = g.pick<double>({1e-4, 0.01, 0.05, 2e-6});
    s.par.cov_lim = g.p(0.2) ? g.u(5, 60) : 1e5;
    s.par.rB_max = g.pick<double>({0.8, 0.3, 1.0, 0.95});
    s.par.nstd = g.u(1, 3);
    bool defaults = g.p(0.2);
    int trunc = g.i(0, 3);
    if (m == "F07") { trunc = g.i(1, 3); }
    if (trunc >= 2) { s.par.w_lim = g.pick<double>({0.01, 0.05, 0.2, 0.001}); }
    if (trunc == 3 || trunc == 1) { s.par.nhyp_max = g.i(1, 12); }
    if (g.p(0.4)) { s.par.cw_lim = g.pick<double>({0.01, 0.05, 0.2}); }
    if (defaults) { s.par = Params(); }
    for (int i = 0; i < M; ++i) {
        int gr = g.i(0, ng - 1);
        V2d base = s.gpos[gr] + V2d(g.n(), g.n()) * s.spread;
        int K = g.p(0.5) ? 1 : g.i(2, 4);
        std::vector<Comp> cs;
        double ws = 0;
        for (int k = 0; k < K; ++k) {
            Comp x;
            x.x << base + V2d(g.n(), g.n()) * 3, g.u(-3, 3), g.u(-3, 3);
            x.P = covpv(g, 0.2 * psc, 3 * psc, 0.1, 2);
            x.w = g.u(0.05, 1); ws += x.w;
            cs.push_back(x);
        }
        for (auto& x : cs) { x.w /= ws; }
        double r = g.pick<double>({-1, -1, -1, 0.07, 0.5, 0.999, 1.0});
        if (r < 0) { r = g.u(0.06, 0.99); }
        s.tg.push_back({r, cs}); s.tgroup.push_back(gr);
    }
    double kap = g.logu(1e-3, 1);
    if (g.p(0.1)) { kap = g.logu(1e-12, 1e3); }
    for (int j = 0; j < N; ++j) {
        Scen::R r;
        if (M > 0 && g.p(0.7)) { auto& t = s.tg[g.i(0, M - 1)].second[0]; r.z = t.x.head<2>() + V2d(g.n(), g.n()) * g.u(0, 3); }
        else { r.z = s.gpos[g.i(0, ng - 1)] + V2d(g.n(), g.n()) * (s.spread + 2) * 2; }
        r.P = spd2(g, 0.2, 3);
        if (g.p(0.1)) { r.P = spd2(g, 5, 60); }
        r.kappa = kap * g.u(0.5, 2);
        s.rep.push_back(r);
    }
    s.pD = g.pick<double>({0.9, 0.5, 1.0, 0.99, 0.1});
    s.lambdaB = g.pick<double>({0.1, 0.5, 1, 3, 10});
    s.pv = spd2(g, 0.1, 5);
    // Field of view: covers everything, nothing, or exactly one distant group
    int f = g.i(0, 9);
    double all = gd * 1.5 + 4000;
    s.gin.assign(ng, 1);
    s.fovhalf = all;
    cf::LL fo = s.o;
    if (f == 0 || (m == "F09" && f <= 2)) { s.gin.assign(ng, 0); fo[0] += (s.o[0] > 0 ? -1 : 1) * (4 * all / LATM); s.fovhalf = all; }
    else if (f <= 2 || (m == "F09" && f <= 7)) {
        // separate the groups by many kilometres so that each is wholly in or out
        for (int k = 0; k < ng; ++k) {
            V2d ng_(12000.0 * (k - 1), 9000.0 * ((k * 7) % 3 - 1));
            V2d shift = ng_ - s.gpos[k];
            for (int i = 0; i < M; ++i) { if (s.tgroup[i] == k) { for (auto& x : s.tg[i].second) { x.x.head<2>() += shift; } } }
            for (auto& r : s.rep) { if ((r.z - s.gpos[k]).norm() < 1500) { bool mine = true; for (int q = 0; q < k; ++q) { if ((r.z - s.gpos[q]).norm() < 1500) { mine = false; } } if (mine) { r.z += shift; } } }
            s.gpos[k] = ng_;
        }
        int keep = g.i(0, ng - 1);
        for (int k = 0; k < ng; ++k) { s.gin[k] = k == keep; }
        fo = ne2ll(s.gpos[keep], s.o);
        s.fovhalf = 3000;
    }
    if (g.p(0.5)) { s.fov = fovbox(fo, s.fovhalf, s.fovhalf); }
    else {
        // rotated square with the same inner radius
        double th = g.u(0, 2 * M_PI);
        lmb::BBox::Corners cc;
        for (int k = 0; k < 4; ++k) { double a = th + M_PI / 4 + k * M_PI / 2; V2d p = ne2ll(V2d(std::cos(a), std::sin(a)) * s.fovhalf * std::sqrt(2.0), fo); cc.col(k) = p; }
        s.fov = lmb::BBox(cc);
    }
    return s;
}

static void one(H::Ctx& c) {
    const std::string mode = c.mode;
    Scen s = gen(c);
    auto& g = c.rng;
    Tracker t(s.par);
    Sensor sen; sen.fov = s.fov; sen.pD_ = s.pD; sen.lambdaB = s.lambdaB; sen.pv = s.pv; sen.kappa_ = 7.3;
    std::vector<int> grp;
    for (size_t i = 0; i < s.tg.size(); ++i) { add(t, &t.params, s.tg[i].first, s.tg[i].second, s.o); }
    int steps = g.p(0.3) ? 2 : 1;
    std::map<unsigned, char> inview;     // by identity
    for (size_t i = 0; i < s.tg.size(); ++i) { inview[t.targettree.targets[i]->id] = s.gin[s.tgroup[i]]; }
    std::map<unsigned, int> dummy;
    for (int step = 0; step < steps; ++step) {
        Prior pr;
        Scan zs;
        for (auto& r : s.rep) {
            zs.push_back(report(r.z + (step ? V2d(g.n(), g.n()) * 0.5 : V2d(0, 0)), r.P, r.kappa, s.o));
        }
        if (g.p(0.2)) { Sensor k2; k2.kappa_ = 0.37; for (auto& z : zs) { z = Report(k2, z.x, z.P); if (!(z.kappa == 0.37) && mode == "F02") { c.fail("report-kappa", cat("report built from a sensor has clutter intensity ", z.kappa, " instead of the sensor's 0.37")); } } }
        prior(pr, t, zs);
        for (auto& q : pr.t) {
            // targets born in step 0 lie in whichever group they are near
            if (!inview.count(q.id)) {
                V2d p = T::ll2ne(q.mean().head<2>(), s.o); int best = 0;
                for (size_t k = 0; k < s.gpos.size(); ++k) { if ((p - s.gpos[k]).norm() < (p - s.gpos[best]).norm()) { best = k; } }
                inview[q.id] = s.gin[best];
            }
            pr.inview.push_back(inview[q.id]);
        }
        // Everything must be clearly inside or outside: otherwise the sampled overlap is not 0 or 1
        cf::LL fo; fo << s.fov.corners.row(0).mean(), s.fov.corners.row(1).mean();
        for (size_t i = 0; i < pr.t.size(); ++i) {
            for (auto& k : pr.t[i].c) {
                double dist = T::ll2ne(k.x.head<2>(), fo).norm();
                double sig = std::sqrt(k.P.topLeftCorner<2, 2>().trace());
                if (pr.inview[i] ? (dist + 12 * sig > s.fovhalf * 0.9) : (dist - 12 * sig < s.fovhalf * 1.6)) { c.count("skipped_fov_margin"); return; }
            }
        }
        Expect e = expect(pr, lim(s.par), [&](int i, int) -> O::ld { return pr.inview[i] ? static_cast<O::ld>(s.pD) : 0; });
        if (e.too_big) { c.count("skipped_big"); return; }
        unsigned idc = t.targettree.id_counter;
        t.correct(sen, zs, step);
        Snaps post = snap(t);
        c.count("corrections");
        auto ctx = [&]() { return cat("\nparams r_lim=", s.par.r_lim, " w_lim=", s.par.w_lim, " nhyp_max=", s.par.nhyp_max, " cw_lim=", s.par.cw_lim, " cov_lim=", s.par.cov_lim, " rB_max=", s.par.rB_max, " nstd=", s.par.nstd, " pD=", s.pD, " lambdaB=", s.lambdaB, "\nbefore:\n", str(pr.t), "scan:\n", str(zs), "after:\n", str(post)); };
        bool cmp = !e.fuzzy;
        if (!cmp) { c.count("fuzzy_gate"); }
        c.count("hypotheses", e.hyps);
        int multi = 0; for (auto& k : e.clusters) { if (k.t.size() > 1 && k.r.size() > 1) { ++multi; } }
        if (multi) { c.count("joint_clusters", multi); }
        if (e.contradictory) { c.count("contradictory"); }
        std::map<unsigned, const Snap*> after;
        for (auto& q : post) { after[q.id] = &q; }
        // ---- clusters (F07)
        if (mode == "F07") {
            size_t nc = e.clusters.size();
            if (t.nof_clusters != nc) { c.fail("cluster-count", cat("published ", t.nof_clusters, " clusters, gating partition has ", nc, ctx())); return; }
            if (t.cluster_ntargets.size() != nc || t.cluster_nreports.size() != nc || t.cluster_nhyps.size() != nc) { c.fail("diag-size", cat("diagnostic vectors have sizes ", t.cluster_ntargets.size(), ",", t.cluster_nreports.size(), ",", t.cluster_nhyps.size(), " for ", nc, " clusters", ctx())); return; }
            std::map<long, ptrdiff_t> byid;    // cluster number -> oracle cluster
            std::map<ptrdiff_t, long> rev;
            auto bind = [&](long cid, ptrdiff_t k, const std::string& who) {
                if (cid < 0 || cid >= static_cast<long>(nc)) { c.fail("cluster-number", cat(who, " has cluster number ", cid, " outside 0..", nc, ctx())); return; }
                if (byid.count(cid) && byid[cid] != k) { c.fail("cluster-merged", cat(who, " shares cluster number ", cid, " with something not linked to it", ctx())); }
                if (rev.count(k) && rev[k] != cid) { c.fail("cluster-split", cat(who, " has cluster number ", cid, " but is linked to cluster ", rev[k], ctx())); }
                byid[cid] = k; rev[k] = cid;
            };
            for (size_t j = 0; j < zs.size(); ++j) { bind(zs[j].cid, e.rcluster[j], cat("report ", j)); }
            for (size_t i = 0; i < pr.t.size(); ++i) {
                if (e.t[i].in_cluster && after.count(pr.t[i].id)) { bind(after[pr.t[i].id]->cid, e.t[i].cluster, cat("target ", pr.t[i].id)); }
                if (!e.t[i].in_cluster) {
                    if (!after.count(pr.t[i].id)) { c.fail("outside-removed", cat("target ", pr.t[i].id, " is in no cluster but disappeared", ctx())); }
                }
            }
            for (auto& q : post) { if (q.id >= idc) { if (q.cid >= nc) { c.fail("birth-cluster", cat("new target ", q.id, " has cluster ", q.cid, ctx())); } } }
            // diagnostics, as a multiset when numbers could not be bound (all of a cluster's targets removed)
            std::multiset<std::array<long, 3>> want, got;
            bool fz = e.fuzzy; for (auto& k : e.clusters) { fz = fz || k.fuzzy; }
            for (auto& k : e.clusters) { want.insert({static_cast<long>(k.t.size()), static_cast<long>(k.r.size()), 0}); }
            for (size_t k = 0; k < nc; ++k) { got.insert({t.cluster_ntargets[k], t.cluster_nreports[k], 0}); }
            if (want != got) {
                std::string d; for (auto& x : want) { d += cat("(", x[0], ",", x[1], ")"); } d += " vs published "; for (auto& x : got) { d += cat("(", x[0], ",", x[1], ")"); }
                c.fail("diag-counts", cat("per-cluster (targets,reports): expected ", d, ctx()));
            }
            for (auto& b : byid) {
                if (b.first < 0 || b.first >= static_cast<long>(nc)) { continue; }
                auto& k = e.clusters[b.second];
                if (t.cluster_ntargets[b.first] != static_cast<int>(k.t.size()) || t.cluster_nreports[b.first] != static_cast<int>(k.r.size())) { c.fail("diag-index", cat("cluster ", b.first, " published as ", t.cluster_ntargets[b.first], " targets ", t.cluster_nreports[b.first], " reports, has ", k.t.size(), " and ", k.r.size(), ctx())); }
            }
            for (size_t k = 0; k < nc; ++k) {
                int h = t.cluster_nhyps[k];
                if ((h == 0) != (t.cluster_ntargets[k] == 0)) { c.fail("diag-nhyps-zero", cat("cluster ", k, ": ", h, " hypotheses for ", t.cluster_ntargets[k], " targets", ctx())); }
                if (h > std::max(1.0, std::ceil(s.par.nhyp_max))) { c.fail("diag-nhyps-limit", cat("cluster ", k, ": ", h, " hypotheses, limit ", s.par.nhyp_max, ctx())); }
            }
            size_t big = 0; for (auto& k : e.clusters) { big = std::max(big, k.t.size() + k.r.size()); }
            c.maxi("cluster_size", big);
            if (pr.t.size() + zs.size() >= 2) { for (auto& k : e.clusters) { c.mark(k.t.size() * 100 + k.r.size()); } c.mark(s.spread); }
        }
        // ---- posterior (F02)
        if ((mode == "F02" || mode == "F06") && cmp) {
            for (auto& k : e.clusters) {
                if (k.t.empty() || k.fuzzy) { continue; }
                // the cluster's number is carried by any of its members still visible
                long cid = -1;
                for (int j : k.r) { cid = zs[j].cid; }
                for (int i : k.t) { if (after.count(pr.t[i].id)) { cid = after[pr.t[i].id]->cid; } }
                if (cid >= 0 && cid < static_cast<long>(t.cluster_nhyps.size()) && s.par.w_lim > 0 && k.nhyp < 50 && mode == "F02" && t.cluster_nhyps[cid] != k.nhyp) {
                    c.fail("hypothesis-count", cat("cluster ", cid, " used ", t.cluster_nhyps[cid], " hypotheses, limits admit ", k.nhyp, ctx()));
                }
            }
            for (size_t i = 0; i < pr.t.size(); ++i) {
                auto& x = e.t[i];
                if (!x.in_cluster) { continue; }
                auto it = after.find(pr.t[i].id);
                if (x.fuzzy_r) { c.count("fuzzy_hyps"); continue; }
                double er = x.r;
                double pcn = x.removed ? 0 : poscovnorm(x.c, pr.t[i].mean().head<2>());
                bool dead = er < s.par.r_lim || pcn > s.par.cov_lim;
                bool edge = std::fabs(er - s.par.r_lim) < 1e-3 * s.par.r_lim || std::fabs(er - 1e-6) < 1e-8 || std::fabs(pcn / s.par.cov_lim - 1) < 1e-5 || (x.fuzzy_c && pcn > 0.3 * s.par.cov_lim);
                if (edge) { c.count("edge_viability"); continue; }
                if (dead != (it == after.end())) {
                    if (mode == "F06" && dead) { continue; }
                    c.fail(dead ? "kept-nonviable" : "dropped-viable", cat("target ", pr.t[i].id, " expected r=", er, " position covariance norm ", pcn, it == after.end() ? " is gone" : " is kept", ctx()));
                    continue;
                }
                if (dead) { c.count("removals"); continue; }
                c.count("targets_compared");
                if (mode == "F06") { c.mark(er); continue; }
                c.maxi("r_deviation", std::fabs(it->second->r - er));
                c.maxi("r_relative", std::fabs(it->second->r - er) / (er * std::max(0.0, 1 - er) + 1e-9));
                if (!(std::fabs(it->second->r - er) < 1e-7 + 1e-4 * er * std::max(0.0, 1 - er))) { c.fail("existence", cat("target ", pr.t[i].id, " existence ", it->second->r, ", exact posterior ", er, ctx())); continue; }
                if (x.fuzzy_c) { c.count("fuzzy_components"); continue; }
                std::string why;
                double wt = std::max(1e-5, 1e-5 / er);
                if (!mix_match(x.c, it->second->c, wt, 2e-4, 1e-6, why, wt)) { c.fail("density", cat("target ", pr.t[i].id, ": ", why, ctx())); continue; }
            }
            for (size_t j = 0; j < zs.size(); ++j) {
                bool fz = e.clusters[e.rcluster[j]].fuzzy;
                if (fz) { continue; }
                c.maxi("rB_deviation", std::fabs(zs[j].rB - e.rB[j]));
                if (mode == "F02" && !(std::fabs(zs[j].rB - e.rB[j]) < 1e-6)) { c.fail("unexplained", cat("report ", j, " birth weight ", static_cast<double>(zs[j].rB), ", exact ", e.rB[j], ctx())); }
            }
            if (pr.t.size() && zs.size()) { for (auto& k : e.clusters) { c.mark(k.t.size() * 1000 + k.r.size() * 100 + k.nhyp); } c.mark(s.pD); }
        }
        // ---- births (F05)
        if (mode == "F05") {
            bool anyfz = e.fuzzy; for (auto& k : e.clusters) { anyfz = anyfz || k.fuzzy; }
            double sum = 0; bool rbok = true;
            for (size_t j = 0; j < zs.size(); ++j) {
                double b = zs[j].rB; sum += b;
                if (!anyfz && !(std::fabs(b - e.rB[j]) < 1e-5)) { c.fail("birth-weight", cat("report ", j, " birth weight ", b, ", probability of being unexplained ", e.rB[j], ctx())); rbok = false; }
                if (e.clusters[e.rcluster[j]].t.empty() && !(std::fabs(b - 1) < 1e-12)) { c.fail("birth-weight-free", cat("report ", j, " has no gated target but birth weight ", b, ctx())); rbok = false; }
            }
            if (!rbok) { return; }
            std::vector<const Snap*> born;
            for (auto& q : post) { if (q.id >= idc) { born.push_back(&q); } }
            std::vector<char> used(born.size(), 0);
            bool edge = std::fabs(sum - s.par.r_lim) < 1e-9;
            int expected = 0;
            for (size_t j = 0; j < zs.size() && !edge; ++j) {
                double nr = zs[j].rB * s.lambdaB / sum;
                if (std::fabs(nr - s.par.r_lim) < 1e-9) { edge = true; break; }
                if (sum < s.par.r_lim || nr < s.par.r_lim) { continue; }
                ++expected;
                double er = std::min(nr, s.par.rB_max);
                bool found = false;
                for (size_t k = 0; k < born.size(); ++k) {
                    if (used[k] || born[k]->c.size() != 1) { continue; }
                    auto& b = *born[k];
                    V2d d = b.c[0].x.head<2>() - pr.z[j].x.head<2>(); d[0] *= LATM; d[1] *= LATM * std::cos(pr.z[j].x[0] * M_PI / 180);
                    M4d P = M4d::Zero(); P.topLeftCorner<2, 2>() = pr.z[j].P; P.bottomRightCorner<2, 2>() = s.pv;
                    if (d.norm() < 0.05 && std::fabs(b.r - er) < 1e-9 && b.c[0].x.tail<2>().norm() == 0 && (b.c[0].P - P).norm() < 1e-9 * P.norm() && b.cid == zs[j].cid && std::fabs(b.c[0].w - 1) < 1e-12) { used[k] = 1; found = true; break; }
                }
                if (!found) { c.fail("birth-missing", cat("report ", j, " (share ", nr, ") should start a target with existence ", er, " at its position, none did", ctx())); return; }
            }
            if (edge) { c.count("edge_birth"); }
            else {
                for (size_t k = 0; k < born.size(); ++k) { if (!used[k]) { c.fail("birth-unexpected", cat("new target ", str(*born[k]), " is not called for by any report (total birth weight ", sum, ")", ctx())); return; } }
                c.count("births", expected); c.count("reports_without_birth", zs.size() - expected);
                if (zs.size()) { c.mark(sum); c.mark(static_cast<double>(expected)); }
            }
        }
        // ---- field of view (F09)
        if (mode == "F09") {
            for (size_t i = 0; i < pr.t.size(); ++i) {
                auto it = after.find(pr.t[i].id);
                if (!e.t[i].in_cluster) {
                    c.count("unaffected_targets");
                    if (it == after.end() || !same(pr.t[i], *it->second)) { c.fail("outside-touched", cat("target ", pr.t[i].id, " lies outside the field of view and no report gates with it, but changed", ctx())); }
                    c.mark(pr.t[i].r);
                } else if (e.clusters[e.t[i].cluster].r.empty()) {
                    // in view, undetected: missed-detection rule
                    c.count("missed_targets");
                    double r = pr.t[i].r, er = r * (1 - s.pD) / (1 - r * s.pD);
                    if (r == 1 && s.pD == 1) { er = 0; }
                    bool limits = s.par.nhyp_max < 2 || s.par.w_lim > 0;   // hypothesis cut-offs may drop one of the two
                    if (e.clusters[e.t[i].cluster].fuzzy) { c.count("fuzzy_missed"); continue; }
                    if (limits) { er = e.t[i].r; }
                    if (std::fabs(er - s.par.r_lim) < 1e-6 || s.par.cov_lim < 1000) { continue; }
                    if (er < s.par.r_lim) { if (it != after.end()) { c.fail("missed-kept", cat("target ", pr.t[i].id, " should drop to ", er, " and be removed", ctx())); } continue; }
                    if (it == after.end()) { c.fail("missed-dropped", cat("target ", pr.t[i].id, " should keep existence ", er, " but is gone", ctx())); continue; }
                    if (std::fabs(it->second->r - er) > 1e-6) { c.fail("missed-rate", cat("target ", pr.t[i].id, " undetected in full view: existence ", it->second->r, " expected ", er, ctx())); }
                    std::string why;
                    auto exp = pr.t[i].c;
                    if (s.par.cw_lim == 0 && !mix_match(exp, it->second->c, 1e-6, 1e-3, 1e-9, why, 1e-6)) { c.fail("missed-density", cat("target ", pr.t[i].id, " undetected, density changed: ", why, ctx())); }
                    c.mark(er);
                } else if (!pr.inview[i]) {
                    // gated by a report although outside: it cannot have been detected
                    c.count("outside_but_gated");
                    double er = pr.t[i].r;
                    if (it != after.end() && !e.fuzzy && !e.clusters[e.t[i].cluster].fuzzy && std::fabs(it->second->r - e.t[i].r) > 1e-5) { c.fail("outside-detected", cat("target ", pr.t[i].id, " lies outside the field of view; existence ", er, " became ", it->second->r, " expected ", e.t[i].r, ctx())); }
                    c.mark(er);
                }
            }
        }
        if (step == 0) { c.sample(cat(pr.t.size(), " targets, ", zs.size(), " reports, ", e.clusters.size(), " clusters, ", e.hyps, " hypotheses; pD=", s.pD, " w_lim=", s.par.w_lim, " nhyp_max=", s.par.nhyp_max, "; first: ", pr.t.empty() ? "-" : str(pr.t[0]), " -> ", post.empty() ? "-" : str(post[0]))); }
        for (auto& q : post) { if (q.id >= idc && inview.count(q.id) == 0) { /* assigned next step */ } }
    }
}

int main(int argc, char** argv) { return H::run(argc, argv, "corr", one); }

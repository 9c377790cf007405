// Two runs of one scenario compared after every operation, up to rounding and the numbering of simultaneous births.
#pragma once
#include "world.hpp"

namespace T {
using H::cat;
// A stored box is spanned by two of its corners, so mirroring it swaps corners whose longitudes differ by the curvature over the box
inline double curve(const Box& b, bool mirror) {
    double n = (b.max[0] - b.min[0]) * M_PI / 180, t = 1 + std::fabs(std::tan(b.max[0] * M_PI / 180));
    return 1e-7 + (mirror ? n * t * ((b.max[1] - b.min[1]) + (b.max[0] - b.min[0])) : 0);
}
inline bool touching(const Box& a, const Box& b, bool mirror) {
    double gap = -1e300; for (int d = 0; d < 2; ++d) { gap = std::max(gap, std::max(a.min[d] - b.max[d], b.min[d] - a.max[d])); }
    return std::fabs(gap) < 2 * (curve(a, mirror) + curve(b, mirror));
}
inline bool unclear(const Prior& pr, const Op& op, const Lim& l, const cf::LL& o, bool mirror) {
    Box view = box(sensor<DetSensor>(op, o).fov.aabbox());
    for (auto& t : pr.t) { for (auto& z : pr.z) { if (touching(z.box, t.aabb, mirror)) { return true; } } if (touching(view, t.aabb, mirror)) { return true; } }
    V2d c(std::cos(op.fth), std::sin(op.fth));
    Expect e = expect(pr, l, [&](int i, int k) -> O::ld {
        auto& x = pr.t[i].c[k].x; V2d p = T::ll2ne(V2d(x[0], x[1]), o) - op.fc;
        double a = p[0] * c[0] + p[1] * c[1], b = -p[0] * c[1] + p[1] * c[0];
        return std::fabs(a) <= op.fn && std::fabs(b) <= op.fe ? op.pD : 0; });
    if (e.fuzzy || e.contradictory || e.too_big) { return true; }
    for (auto& q : e.clusters) { if (q.fuzzy) { return true; } }
    for (auto& q : e.t) { if (q.fuzzy_r || q.fuzzy_c) { return true; } }
    return false;
}


// What is compared of one run after an operation, targets and boxes already moved into the frame of the first run
struct View { Snaps t; std::vector<double> rB; std::vector<unsigned> cid; unsigned nclusters = 0; std::vector<int> diag[3]; };
inline View view(const Tracker& t, const Scan& z) {
    View v; v.t = snap(t); for (auto& r : z) { v.rB.push_back(static_cast<double>(r.rB)); v.cid.push_back(r.cid); }
    v.nclusters = t.nof_clusters; v.diag[0] = t.cluster_ntargets; v.diag[1] = t.cluster_nreports; v.diag[2] = t.cluster_nhyps;
    return v;
}
struct Pairing {
    std::map<unsigned, unsigned> ids;       // identities of the second run -> of the first
    struct Past { Prior pr; size_t k; }; std::vector<Past> past;
    double maxdiff = 0; long births = 0, targets = 0, reports = 0; bool mirror = false;
    // before the operation, on the first run's tracker
    void before(const Tracker& t, const Op& op, size_t k, const cf::LL& o) {
        if (op.k != Op::COR) { return; }
        Past p; p.k = k; Scan z = scan(op, o); prior(p.pr, t, z);
        auto in = sensor<DetSensor>(op, o).get_targets(t.targettree);
        for (auto* x : t.targettree.targets) { p.pr.inview.push_back(std::count(in.begin(), in.end(), x) > 0); }
        past.push_back(p);
    }
    // perm[j]: which report of the first run is report j of the second
    std::string compare(const View& a, const View& b, const Op& op, const std::vector<int>& perm, std::string& key) {
        auto &va = a.t, &vc = b.t;
        bool cor = op.k == Op::COR;
        key = "number"; if (va.size() != vc.size()) { return cat(va.size(), " and ", vc.size(), " targets"); }
        key = "birth-share";
        for (size_t j = 0; j < b.rB.size(); ++j) { if (!(std::fabs(a.rB[perm[j]] - b.rB[j]) < 1e-6)) { return cat("report ", perm[j], " has rB ", a.rB[perm[j]], " and ", b.rB[j]); } }
        // pair the targets: those known by identity, births by the closest state
        std::vector<int> mate(va.size(), -1); std::vector<char> used(vc.size(), 0);
        key = "survivors";
        for (size_t j = 0; j < vc.size(); ++j) {
            if (!ids.count(vc[j].id)) { continue; }
            for (size_t i = 0; i < va.size(); ++i) { if (va[i].id == ids[vc[j].id]) { mate[i] = j; used[j] = 1; } }
            if (!used[j]) { return cat("target ", vc[j].id, " of the second run has lost its counterpart ", ids[vc[j].id]); }
        }
        key = "births";
        for (size_t i = 0; i < va.size(); ++i) {
            if (mate[i] >= 0) { continue; }
            double best = 1e300; int bj = -1; V4d x = va[i].mean();
            for (size_t j = 0; j < vc.size(); ++j) { if (!used[j] && !ids.count(vc[j].id)) { V4d d = vc[j].mean() - x; double q = d.head<2>().norm() * 1e5 + d.tail<2>().norm() + std::fabs(vc[j].r - va[i].r) + (vc[j].c.empty() || va[i].c.empty() ? 0 : (vc[j].c[0].P - va[i].c[0].P).norm() / (1 + va[i].c[0].P.norm())); if (q < best) { best = q; bj = j; } } }
            if (bj < 0) { return "a target has no counterpart"; }
            mate[i] = bj; used[bj] = 1; ids[vc[bj].id] = va[i].id; ++births;
        }
        std::map<unsigned, unsigned> cm, cmr;
        std::set<unsigned> processed;       // cluster numbers of others are from an earlier scan
        if (cor) { auto& pr = past.back().pr; for (size_t i = 0; i < pr.t.size(); ++i) { bool in = pr.inview[i]; for (auto& z : pr.z) { in = in || meets(z.box, pr.t[i].aabb); } if (in) { processed.insert(pr.t[i].id); } } }
        auto link = [&](unsigned x, unsigned y) { if ((cm.count(x) && cm[x] != y) || (cmr.count(y) && cmr[y] != x)) { return false; } cm[x] = y; cmr[y] = x; return true; };
        for (size_t i = 0; i < va.size(); ++i) {
            auto& p = va[i]; auto& q = vc[mate[i]]; std::string why;
            ++targets;
            key = "existence"; if (!(std::fabs(p.r - q.r) < 1e-6)) { return cat("existence of target ", p.id, ": ", p.r, " and ", q.r); }
            key = "density"; if (!mix_match(p.c, q.c, 1e-6, 1e-3, 1e-6, why, 1e-5)) { return cat("target ", p.id, ": ", why, "\n", T::str(p), T::str(q)); }
            maxdiff = std::max(maxdiff, std::fabs(p.r - q.r));
            double tol = curve(p.aabb, mirror);
            key = "box";
            for (int d = 0; d < 2; ++d) { if (!(std::fabs(p.aabb.min[d] - q.aabb.min[d]) < tol) || !(std::fabs(p.aabb.max[d] - q.aabb.max[d]) < tol)) { return cat("box of target ", p.id, ": [", p.aabb.min[d], ",", p.aabb.max[d], "] and [", q.aabb.min[d], ",", q.aabb.max[d], "]"); } }
            key = "clusters"; if (cor && processed.count(p.id) && !link(p.cid, q.cid)) { return cat("target ", p.id, " is grouped differently"); }
            key = "identity"; if (p.la != q.la) { return cat("target ", p.id, ": last action ", p.la, " and ", q.la); }
        }
        if (cor) {
            key = "clusters"; if (a.nclusters != b.nclusters) { return cat(a.nclusters, " and ", b.nclusters, " clusters"); }
            for (size_t j = 0; j < b.cid.size(); ++j) { ++reports; if (!link(a.cid[perm[j]], b.cid[j])) { return cat("report ", perm[j], " is grouped differently"); } }
            key = "diagnostics";
            // at certain detection, hypotheses of rounding-level weight may or may not be counted
            for (int d = 0; d < (op.pD < 1 - 1e-9 ? 3 : 2); ++d) {
                if (a.diag[d].size() != b.diag[d].size()) { return "diagnostics of different length"; }
                for (auto& e : cm) { if (e.first < a.diag[d].size() && e.second < b.diag[d].size() && a.diag[d][e.first] != b.diag[d][e.second]) { return cat("cluster ", e.first, ": ", (d == 0 ? "targets " : d == 1 ? "reports " : "hypotheses "), a.diag[d][e.first], " and ", b.diag[d][e.second]); } }
            }
        }
        return "";
    }
    // whether an earlier decision was within rounding of its threshold, so that the runs may rightly differ
    bool tied(const Script& s, const cf::LL& o, const Snaps& a, const Snaps& b) const {
        for (auto* v : {&a, &b}) { for (auto& q : *v) { if (std::fabs(q.r - s.par.r_lim) < 1e-6) { return true; } } }
        for (auto& p : past) { if (unclear(p.pr, s.ops[p.k], lim(s.par), o, mirror)) { return true; } }
        return false;
    }
};
}  // namespace T

// Random tracker histories watched by monitors after every operation:
// F01 sanity and viability, F04 prediction, F06 identities, F10 queries, B03 boxes, S02 index.
#include "world.hpp"
using namespace T;
using H::cat;

static std::string where(const Script& s, size_t k) {
    std::string o = cat("\nafter operation ", k, " of:");
    for (size_t q = 0; q <= k && q < s.ops.size(); ++q) { if (k - q < 12) { o += cat("\n  ", q, ": ", str(s.ops[q])); } }
    auto& p = s.par;
    return o + cat("\nparams r_lim=", p.r_lim, " w_lim=", p.w_lim, " nhyp_max=", p.nhyp_max, " cw_lim=", p.cw_lim, " cov_lim=", p.cov_lim, " rB_max=", p.rB_max, " nstd=", p.nstd, " tscale=", p.tscale);
}

// ---- F01
static bool sane(H::Ctx& c, const Tracker& t, const Snaps& v, const std::set<unsigned>& fresh, const std::set<unsigned>& untouched, const std::function<std::string()>& at) {
    for (auto& s : v) {
        auto tell = [&] { return cat("\ntarget ", str(s), at()); };
        if (!(std::isfinite(s.r) && s.r >= 0 && s.r <= 1 + 1e-9)) { c.fail("existence-range", cat("existence probability ", s.r, tell())); return false; }
        double w = 0;
        if (s.c.empty()) { c.fail("empty-density", cat("tracked target has no component", tell())); return false; }
        for (auto& k : s.c) {
            if (!(std::isfinite(k.w) && k.w >= 0)) { c.fail("weight", cat("component weight ", k.w, tell())); return false; }
            w += k.w;
            for (int i = 0; i < 4; ++i) { if (!std::isfinite(k.x[i])) { c.fail("mean-finite", cat("component mean not finite", tell())); return false; } for (int j = 0; j < 4; ++j) { if (!std::isfinite(k.P(i, j))) { c.fail("cov-finite", cat("component covariance not finite", tell())); return false; } } }
            double tr = k.P.trace();
            if (!((k.P - k.P.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * tr + 1e-12)) { c.fail("cov-symmetry", cat("component covariance not symmetric by ", (k.P - k.P.transpose()).cwiseAbs().maxCoeff(), tell())); return false; }
            auto ev = O::eig(0.5L * (O::Mat::of(k.P) + O::tr(O::Mat::of(k.P))));
            c.maxi("negative_eigenvalue_share", static_cast<double>(-ev[0] / ev[3]));
            if (!(ev[0] >= -1e-9L * ev[3] - 1e-13L && ev[3] > 0)) { c.fail("cov-psd", cat("component covariance has eigenvalue ", static_cast<double>(ev[0]), " (largest ", static_cast<double>(ev[3]), ")", tell())); return false; }
        }
        if (!(std::fabs(w - 1) < 1e-9)) { c.fail("weight-sum", cat("component weights sum to ", w, tell())); return false; }
        if (!fresh.count(s.id) && !untouched.count(s.id)) {
            if (s.r < t.params.r_lim - 1e-12) { c.fail("nonviable-r", cat("existence ", s.r, " below the limit ", t.params.r_lim, tell())); return false; }
            double pn = poscovnorm(s.c, s.mean().head<2>());
            if (pn > t.params.cov_lim * (1 + 1e-6) + 1e-6) { c.fail("nonviable-cov", cat("position covariance norm ", pn, " above the limit ", t.params.cov_lim, tell())); return false; }
        }
    }
    return true;
}
static void f01(H::Ctx& c) {
    auto& g = c.rng;
    GenOpt o; o.hostile = g.p(0.7); o.swarm = !o.hostile && g.p(0.05); o.maxops = c.thorough ? 30 : 16;
    Script s = script(g, o);
    cf::LL org = origin(g);
    Tracker t(s.par);
    std::set<unsigned> known, touched;
    double surprising = 0;
    for (size_t k = 0; k < s.ops.size(); ++k) {
        auto& op = s.ops[k];
        auto at = [&] { return where(s, k); };
        Snaps before = snap(t); Scan z;
        unsigned idc = t.targettree.id_counter;
        play_any(t, op, org, z);
        Snaps v = snap(t);
        std::set<unsigned> fresh, un;
        for (auto& q : v) { if (q.id >= idc) { fresh.insert(q.id); } }
        if (op.k == Op::COR) { for (auto& q : v) { for (auto& b : before) { if (b.id == q.id && same(b, q)) { un.insert(q.id); } } } }
        else if (op.k == Op::ADD) { for (auto& q : v) { un.insert(q.id); } }
        if (!sane(c, t, v, fresh, un, at)) { return; }
        // published counts
        double e = 0; unsigned n = 0; for (auto& q : v) { e += q.r; n += q.r >= 0.7; }
        double pe = t.enof_targets();
        if (!(std::isfinite(pe) && std::fabs(pe - e) <= 1e-9 * (1 + e)) || pe < 0) { c.fail("expected-count", cat("expected count ", pe, ", existence probabilities sum to ", e, at())); return; }
        if (t.nof_targets() != n || t.nof_targets() > v.size()) { c.fail("count", cat("confirmed count ", t.nof_targets(), " of ", n, at())); return; }
        if (op.k == Op::COR) {
            double sum = 0; bool ok = true;
            for (auto& r : z) {
                double b = r.rB;
                if (!(std::isfinite(b) && b >= -1e-9 && b <= 1 + 1e-9)) { c.fail("birth-weight", cat("report has birth weight ", b, "\nscan:\n", T::str(z), at())); return; }
                if (!(std::isfinite(r.x[0]) && std::isfinite(r.x[1]))) { c.fail("report-finite", cat("report position became ", r.x[0], " ", r.x[1], at())); return; }
                sum += b;
            }
            size_t births = 0; bool edge = std::fabs(sum - s.par.r_lim) < 1e-9;
            if (sum >= s.par.r_lim) { for (auto& r : z) { double nr = r.rB * op.lambdaB / sum; edge = edge || std::fabs(nr - s.par.r_lim) < 1e-9; births += nr >= s.par.r_lim; } }
            if (!edge && births != fresh.size()) { c.fail("births-silenced", cat(fresh.size(), " births, the scan calls for ", births, "\nscan:\n", T::str(z), at())); return; }
            c.count("births", births);
            for (auto& b : before) { if (b.r > 0.999) { bool alive = false; for (auto& q : v) { alive = alive || (q.id == b.id && q.r > 0.5); } if (!alive) { ++surprising; } } }
            size_t mx = 0; for (int x : t.cluster_ntargets) { mx = std::max<size_t>(mx, x); }
            c.maxi("joint_targets", mx);
            for (auto& b : before) { for (auto& k2 : b.c) { c.maxi("components", b.c.size()); (void)k2; break; } }
        }
        c.count("operations"); c.count("targets_checked", v.size());
        for (auto& q : v) { c.mark(q.r); }
    }
    if (surprising) { c.count("certain_targets_refuted", surprising); }
    c.sample(cat(s.ops.size(), " operations, ended with ", t.targettree.targets.size(), " targets of ", t.targettree.id_counter, where(s, s.ops.size() - 1)));
}

// ---- F04
struct Counting {
    std::map<Target*, int>* n; double want_t, want_l; bool* bad;
    void operator()(Target* const t, const double time, const double last) {
        #pragma omp critical(counting)
        { ++(*n)[t]; if (time != want_t || last != want_l) { *bad = true; } }
    }
};
static void f04(H::Ctx& c) {
    auto& g = c.rng;
    GenOpt o; o.swarm = g.p(0.1); o.minops = 3; o.maxops = 12; o.partial = false;
    Script s = script(g, o);
    if (g.p(0.5)) {
        s.par.cov_lim = 1e6; s.par.r_lim = 1e-4;
        if (g.p(0.4)) {     // very uncertain targets and very strong noise
            s.par.cov_lim = 1e10;
            for (auto& op : s.ops) { double f = g.logu(1, 1e5); op.Q *= f; if (op.k == Op::ADD) { for (auto& x : op.c) { x.P *= f; } } if (g.p(0.3)) { op.q *= g.logu(1, 1e4); } }
        }
    }
    cf::LL org = origin(g);
    Tracker t(s.par);
    for (size_t k = 0; k < s.ops.size(); ++k) {
        auto& op = s.ops[k];
        auto at = [&] { return where(s, k); };
        Scan z;
        Snaps b = snap(t);
        if (op.k == Op::CV && g.p(0.4)) {
            // the same interval in pieces, on an identical tracker
            Tracker t1(s.par), t2(s.par);
            for (auto* tt : {&t1, &t2}) { for (auto& q : b) { std::vector<Comp> cs = q.c; PDF pdf(&tt->params); for (auto& x : cs) { pdf.c.emplace_back(x.x, x.P, x.w); } pdf.eta = 1; pdf.transform_to_local(pdf.pos()); pdf.transform_to_global(); tt->targettree.new_target(q.r, std::move(pdf), 0); } }
            Snaps b1 = snap(t1);
            lmb::CV<Target> m(op.pS, op.q);
            t1.predict(m, op.t1, op.t0);
            int parts = g.i(2, 4); double at_ = op.t0;
            for (int p = 1; p <= parts; ++p) { double to = p == parts ? op.t1 : at_ + (op.t1 - at_) * g.u(0, 1); t2.predict(m, to, at_); at_ = to; }
            Snaps v1 = snap(t1), v2 = snap(t2);
            std::map<unsigned, Snap> i2; for (auto& q : v2) { i2[q.id] = q; }
            for (auto& q : v1) {
                if (!i2.count(q.id)) { continue; }      // dropped half-way by a limit
                auto& p = i2[q.id];
                if (!(std::fabs(p.r - q.r) <= 1e-12 + 1e-9 * q.r)) { c.fail("split-existence", cat("existence ", q.r, " in one prediction, ", p.r, " in ", parts, " parts", at())); return; }
                if (p.c.size() != q.c.size()) { c.fail("split-components", cat("different components", at())); return; }
                for (size_t n = 0; n < p.c.size(); ++n) { if (!((p.c[n].P - q.c[n].P).norm() <= 1e-9 * q.c[n].P.norm())) { c.fail("split-covariance", cat("covariance differs by ", (p.c[n].P - q.c[n].P).norm(), " of ", q.c[n].P.norm(), at(), "\nonce ", str(q), "\nsplit ", str(p))); return; } }
                V2d d = T::ll2ne(p.mean().head<2>(), q.mean().head<2>());
                double travel = q.mean().tail<2>().norm() * (op.t1 - op.t0) / s.par.tscale + 100;
                if (!(d.norm() < 1e-6 * travel * travel + 1e-3)) { c.fail("split-mean", cat("mean moved ", d.norm(), " m apart", at())); return; }
                c.count("splits_compared");
            }
        }
        if (op.k != Op::ADD && op.k != Op::COR && g.p(0.3)) {
            // every target visited once, with the given times, whatever the model
            Tracker& tt = t; std::map<Target*, int> n; bool bad = false;
            Counting m{&n, op.t1, op.t0, &bad};
            std::vector<double> rs; for (auto& q : b) { rs.push_back(q.r); }
            tt.predict(m, op.t1, op.t0);
            Snaps a = snap(tt);
            if (n.size() != b.size() || bad) { c.fail("visited", cat("model called for ", n.size(), " of ", b.size(), " targets", bad ? " with other times" : "", at())); return; }
            for (auto& q : n) { if (q.second != 1) { c.fail("visited", cat("model called ", q.second, " times for a target", at())); return; } }
            b = a;
        }
        play_any(t, op, org, z);
        if (op.k != Op::CV && op.k != Op::NM) { continue; }
        Snaps v = snap(t);
        std::map<unsigned, const Snap*> after; for (auto& q : v) { after[q.id] = &q; }
        if (after.size() != v.size()) { c.fail("identity", cat("identities not unique after prediction", at())); return; }
        for (auto& q : v) { bool known = false; for (auto& p : b) { known = known || p.id == q.id; } if (!known) { c.fail("identity", cat("target ", q.id, " appeared in a prediction", at())); return; } }
        O::ld dt = (static_cast<O::ld>(op.t1) - op.t0) / s.par.tscale;
        O::Mat F = O::Mat::eye(4), Q(4, 4);
        if (op.k == Op::CV) {
            F(0, 2) = F(1, 3) = dt;
            for (int i = 0; i < 2; ++i) { Q(i, i) = op.q * dt * dt * dt / 3; Q(i, i + 2) = Q(i + 2, i) = op.q * dt * dt / 2; Q(i + 2, i + 2) = op.q * dt; }
        } else { Q = O::Mat::of(op.Q); }
        for (auto& p : b) {
            O::ld er = static_cast<O::ld>(p.r) * (op.k == Op::CV ? std::pow(static_cast<O::ld>(op.pS), dt) : static_cast<O::ld>(op.pS));
            V4d mm = p.mean(); O::V2 og{mm[0], mm[1]};
            std::vector<Comp> exp;
            for (auto& k2 : p.c) {
                O::Mat x = O::Mat::of(k2.x); O::V2 l = O::ll2ne({k2.x[0], k2.x[1]}, og); x(0, 0) = l[0]; x(1, 0) = l[1];
                x = F * x; O::Mat P = F * O::Mat::of(k2.P) * O::tr(F) + Q;
                Comp e; O::V2 gl = O::ne2ll({x(0, 0), x(1, 0)}, og);
                e.x << gl[0], gl[1], x(2, 0), x(3, 0); for (int i = 0; i < 4; ++i) { for (int j = 0; j < 4; ++j) { e.P(i, j) = P(i, j); } } e.w = k2.w; exp.push_back(e);
            }
            double pn = poscovnorm(exp, mm.head<2>());
            bool edge = std::fabs(static_cast<double>(er) / s.par.r_lim - 1) < 1e-7 || std::fabs(pn / s.par.cov_lim - 1) < 1e-5;
            bool dead = er < s.par.r_lim || pn > s.par.cov_lim;
            auto it = after.find(p.id);
            if (!edge && dead != (it == after.end())) { c.fail(dead ? "kept-nonviable" : "dropped-viable", cat("target ", str(p), " should have existence ", static_cast<double>(er), " and position covariance norm ", pn, it == after.end() ? " but is gone" : " but is kept", at())); return; }
            if (it == after.end()) { c.count("dropped"); continue; }
            auto& a = *it->second;
            if (!(std::fabs(a.r - static_cast<double>(er)) <= 1e-9 * p.r)) { c.fail("existence", cat("target ", p.id, " existence ", p.r, " became ", a.r, ", model says ", static_cast<double>(er), at())); return; }
            if (a.c.size() != exp.size()) { c.fail("components", cat("target ", p.id, " has ", a.c.size(), " components after prediction, had ", exp.size(), at())); return; }
            for (size_t n = 0; n < exp.size(); ++n) {
                V2d d = T::ll2ne(a.c[n].x.head<2>(), exp[n].x.head<2>());
                double reach = (exp[n].x.tail<2>()).norm() * std::fabs(static_cast<double>(dt)) + 1;
                if (!(d.norm() <= 1e-6 + 1e-9 * reach)) { c.fail("mean", cat("target ", p.id, " component ", n, " is ", d.norm(), " m from where the model puts it", at(), "\nbefore ", str(p), "\nafter ", str(a))); return; }
                if (!((a.c[n].x - exp[n].x).tail<2>().norm() <= 1e-9 * (1 + exp[n].x.tail<2>().norm()))) { c.fail("velocity", cat("target ", p.id, " velocity changed", at())); return; }
                if (!((a.c[n].P - exp[n].P).norm() <= 1e-9 * exp[n].P.norm())) { c.fail("covariance", cat("target ", p.id, " covariance differs by ", (a.c[n].P - exp[n].P).norm(), " of ", exp[n].P.norm(), at(), "\nbefore ", str(p), "\nafter ", str(a))); return; }
                if (!(std::fabs(a.c[n].w - exp[n].w) <= 1e-9)) { c.fail("weight", cat("target ", p.id, " component weight ", exp[n].w, " became ", a.c[n].w, at())); return; }
            }
            c.count("targets_compared"); c.mark(a.r);
        }
        c.count("predictions");
        c.sample(cat(str(op), " on ", b.size(), " targets: ", b.empty() ? "" : str(b[0]), " -> ", v.empty() ? "" : str(v[0])));
    }
}

// ---- F06
// a tracker that lives through tens of thousands of identities
static void f06_long(H::Ctx& c) {
    auto& g = c.rng; Params par; par.r_lim = 0.3; par.rB_max = 0.9; par.cov_lim = 1e9; Tracker t(par); cf::LL org = origin(g);
    const unsigned want = c.thorough ? 300000 : 70000; std::vector<bool> used; long maxid = -1; unsigned scans = 0; size_t most = 0;
    lmb::NM<Target> gone(0, M4d::Zero());
    while (maxid < static_cast<long>(want)) {
        Op op; op.k = Op::COR; op.t0 = op.t1 = scans; op.fn = op.fe = 1; op.fc = V2d(-4e4, -4e4); op.lambdaB = 1e9; op.pv = M2d::Identity();
        int n = g.i(300, 900); for (int i = 0; i < n; ++i) { Op::R r; r.z = V2d(100.0 * (i % 30), 100.0 * (i / 30)) + V2d(g.n(), g.n()); r.P = M2d::Identity(); r.kappa = 1e-6; op.rep.push_back(r); }
        std::set<Target*> prev(t.targettree.targets.begin(), t.targettree.targets.end()); std::set<unsigned> keep; for (auto* p : prev) { keep.insert(p->id); }
        Scan z; play<DetSensor>(t, op, org, z); ++scans; std::vector<unsigned> fresh; std::set<unsigned> now;
        for (auto* p : t.targettree.targets) { if (!now.insert(p->id).second) { c.fail("duplicate", cat("identity ", p->id, " is listed twice after ", maxid + 1, " identities")); return; } if (!keep.count(p->id)) { fresh.push_back(p->id); } }
        for (unsigned f : fresh) { if (static_cast<long>(f) <= maxid) { c.fail("order", cat("new identity ", f, " is not larger than ", maxid, " handed out before, in a long history")); return; } }
        for (unsigned f : fresh) { maxid = std::max<long>(maxid, f); }
        if (fresh.size() < 200) { c.count("long_stalled"); return; }
        most = std::max(most, now.size()); c.count("births", fresh.size()); c.count("operations");
        if (t.targettree.targets.size() > 1200 || g.p(0.6)) { t.predict(gone, scans + 0.5, scans); if (!t.targettree.targets.empty()) { c.fail("kept", cat(t.targettree.targets.size(), " targets left after a prediction with survival probability 0")); return; } }
    }
    c.maxi("identities", maxid + 1); c.count("long_histories"); c.mark(static_cast<uint64_t>(maxid)); c.sample(cat(maxid + 1, " identities in ", scans, " scans, ", most, " alive at most"));
}
static void f06(H::Ctx& c) {
    auto& g = c.rng;
    if (c.cas / 8 == 3) { f06_long(c); return; }
    GenOpt o; o.hostile = g.p(0.3); o.swarm = !o.hostile && g.p(0.1); o.maxops = 24;
    Script s = script(g, o);
    cf::LL org = origin(g);
    Tracker t(s.par);
    std::set<unsigned> alive, dead; long maxid = -1;
    std::map<unsigned, Target*> ptr;
    for (size_t k = 0; k < s.ops.size(); ++k) {
        auto& op = s.ops[k];
        auto at = [&] { return where(s, k); };
        Snaps before = snap(t); Scan z;
        play_any(t, op, org, z);
        std::set<unsigned> now; std::vector<unsigned> fresh;
        for (auto* p : t.targettree.targets) {
            if (!now.insert(p->id).second) { c.fail("duplicate", cat("identity ", p->id, " is listed twice", at())); return; }
            if (dead.count(p->id)) { c.fail("reused", cat("identity ", p->id, " of a removed target is back", at())); return; }
            if (!alive.count(p->id)) { fresh.push_back(p->id); }
            else if (ptr[p->id] != p) { c.fail("moved", cat("identity ", p->id, " now belongs to another target", at())); return; }
        }
        for (unsigned f : fresh) { if (static_cast<long>(f) <= maxid) { c.fail("order", cat("new identity ", f, " is not larger than ", maxid, " handed out before", at())); return; } }
        for (unsigned f : fresh) { maxid = std::max<long>(maxid, f); }
        if (op.k == Op::ADD && fresh.size() != 1) { c.fail("insert", cat("inserting a target made ", fresh.size(), " identities", at())); return; }
        // target lists agree
        std::multiset<unsigned> lst; for (auto& q : t.get_targets()) { lst.insert(q.id); }
        if (lst.size() != now.size() || !std::equal(lst.begin(), lst.end(), now.begin())) { c.fail("list", cat("target list has ", lst.size(), " entries for ", now.size(), " identities", at())); return; }
        // identity follows the density: in an operation that touches no target, every identity keeps its own
        std::map<unsigned, const Snap*> bm; for (auto& q : before) { bm[q.id] = &q; }
        Snaps v = snap(t);
        if (op.k != Op::ADD) {
            for (auto& q : v) {
                if (!bm.count(q.id)) { continue; }
                // it can only have moved as far as its own spread allows
                auto& b = *bm[q.id];
                double lim_ = 0, dt = op.k == Op::CV ? (op.t1 - op.t0) / s.par.tscale : 0;
                double tr = 0, vel = 0, ext = 0; V2d m = b.mean().head<2>();
                for (auto& x : b.c) { tr = std::max(tr, std::sqrt(x.P.topLeftCorner<2, 2>().trace())); vel = std::max(vel, x.x.tail<2>().norm()); ext = std::max(ext, T::ll2ne(x.x.head<2>(), m).norm()); }
                lim_ = (op.k == Op::COR ? 60 * tr + 2 * ext : 0) + vel * dt * 1.01 + 1e-3;
                double d = T::ll2ne(q.mean().head<2>(), m).norm();
                if (op.k == Op::COR) { for (auto& r : op.rep) { lim_ = std::max(lim_, 4 * std::sqrt(r.P.trace()) + 60 * tr + 2 * ext); } }
                if (!(d <= lim_)) { c.fail("swapped", cat("identity ", q.id, " jumped ", d, " m in one operation (own spread ", tr, " m)", at(), "\nbefore ", str(b), "\nafter ", str(q))); return; }
            }
        }
        // a prediction drops nothing that stays within the limits (and keeps the rest): the correction's removals are judged against the exact posterior by corr.cpp
        if (op.k == Op::CV || op.k == Op::NM) {
            for (auto& b : before) {
                if (now.count(b.id)) { continue; }
                double dt = (op.t1 - op.t0) / s.par.tscale, er = b.r * (op.k == Op::CV ? std::pow(op.pS, dt) : op.pS);
                auto cs = b.c; V2d m = b.mean().head<2>();
                for (auto& x : cs) {
                    V2d l = T::ll2ne(x.x.head<2>(), m);
                    M4d F = M4d::Identity(), Q = op.Q; 
                    if (op.k == Op::CV) { F(0, 2) = F(1, 3) = dt; Q.setZero(); for (int i = 0; i < 2; ++i) { Q(i, i) = op.q * dt * dt * dt / 3; Q(i, i + 2) = Q(i + 2, i) = op.q * dt * dt / 2; Q(i + 2, i + 2) = op.q * dt; } }
                    V4d y; y << l, x.x.tail<2>(); y = F * y; x.P = F * x.P * F.transpose() + Q; x.x.tail<2>() = y.tail<2>(); x.x.head<2>() = T::ne2ll(y.head<2>(), m);
                }
                double pn = poscovnorm(cs, m);
                if (er > s.par.r_lim * (1 + 1e-7) && pn < s.par.cov_lim * (1 - 1e-5)) { c.fail("dropped", cat("target ", str(b), " with existence ", er, " and position covariance norm ", pn, " was dropped by a prediction", at())); return; }
                c.count("removed");
            }
        }
        if (op.k == Op::ADD) { for (unsigned a : alive) { if (!now.count(a)) { c.fail("dropped", cat("target ", a, " vanished when another was inserted", at())); return; } } }
        for (unsigned a : alive) { if (!now.count(a)) { dead.insert(a); c.count("removed_total"); } }
        alive = now; ptr.clear(); for (auto* p : t.targettree.targets) { ptr[p->id] = p; }
        c.count("operations"); c.count("births", fresh.size());
        c.mark(static_cast<uint64_t>(maxid * 131 + now.size()));
    }
    c.maxi("identities", maxid + 1);
    c.sample(cat(maxid + 1, " identities, ", dead.size(), " removed", where(s, s.ops.size() - 1)));
}

// ---- F10
static lmb::AABBox region(H::Rng& g, const Snaps& v, const cf::LL& org, double L) {
    if (!v.empty() && g.p(0.4)) {
        // touching or just missing a target's box
        auto& b = v[g.i(0, v.size() - 1)].aabb;
        double x0 = b.min[0], x1 = b.max[0], y0 = b.min[1], y1 = b.max[1], e = 1e-4;
        switch (g.i(0, 5)) {
            case 0: return lmb::AABBox(x1, y0, x1 + e, y1);
            case 1: return lmb::AABBox(std::nextafter(x1, 1e9), y0, x1 + e, y1);
            case 2: return lmb::AABBox(x0 - e, y0, x0, y1);
            case 3: return lmb::AABBox(x0, y1, x1, y1 + e);
            case 4: return lmb::AABBox(x0, y0 - e, x1, std::nextafter(y0, -1e9));
            default: return lmb::AABBox((x0 + x1) / 2, (y0 + y1) / 2, (x0 + x1) / 2, (y0 + y1) / 2);
        }
    }
    if (g.p(0.1)) { return lmb::AABBox(-90, -180, 90, 180); }
    V2d a = T::ne2ll(V2d(g.u(-1.2, 1.2), g.u(-1.2, 1.2)) * L, org), b = T::ne2ll(V2d(g.u(-1.2, 1.2), g.u(-1.2, 1.2)) * L, org);
    return lmb::AABBox(a[0], a[1], b[0], b[1]);
}
static Box tobox(const lmb::AABBox& a) { return box(a); }
static std::vector<unsigned> ids(const std::vector<Target*>& v) { std::vector<unsigned> r; for (auto* p : v) { r.push_back(p->id); } return r; }
static bool bits(const Snaps& a, const Snaps& b) { if (a.size() != b.size()) { return false; } for (size_t k = 0; k < a.size(); ++k) { if (!same(a[k], b[k])) { return false; } } return true; }

// Same states up to rounding: targets of a cluster are ordered by address, so sums differ in the last bits
static bool alike(const Snaps& a, const Snaps& b, std::string& why) {
    if (a.size() != b.size()) { why = cat(a.size(), " and ", b.size(), " targets"); return false; }
    std::map<unsigned, const Snap*> m; for (auto& q : b) { m[q.id] = &q; }
    for (auto& q : a) {
        if (!m.count(q.id)) { why = cat("target ", q.id, " exists in one only"); return false; }
        if (!(std::fabs(q.r - m[q.id]->r) < 1e-7)) { why = cat("existence of ", q.id, ": ", q.r, " and ", m[q.id]->r); return false; }
        if (!mix_match(q.c, m[q.id]->c, 1e-6, 1e-4, 1e-7, why, 1e-6)) { why = cat("target ", q.id, ": ", why); return false; }
    }
    return true;
}
static void f10(H::Ctx& c) {
    auto& g = c.rng;
    GenOpt o; o.swarm = g.p(0.08); o.maxops = 12;
    // an undisturbed twin is followed where no hypothesis is cut off: equal-cost hypotheses are cut in address order
    bool tw = g.p(0.4);
    if (tw) { o.swarm = false; o.maxtruth = 3; o.maxops = 8; }
    Script s = script(g, o);
    if (tw) { s.par.w_lim = 0; s.par.nhyp_max = 1e9; s.par.r_lim = std::max(s.par.r_lim, 0.05); for (auto& op : s.ops) { if (op.rep.size() > 4) { op.rep.resize(4); } } }
    cf::LL org = origin(g);
    Tracker t(s.par), twin(s.par);
    const lmb::AABBox everything(-90, -180, 90, 180);
    for (size_t k = 0; k < s.ops.size(); ++k) {
        auto& op = s.ops[k];
        auto at = [&] { return where(s, k); };
        Scan z, z2;
        if (tw && t.targettree.targets.size() > 6) { tw = false; }
        play<DetSensor>(t, op, org, z); if (tw) { play<DetSensor>(twin, op, org, z2); }
        Snaps v = snap(t), w = snap(twin);
        std::string why;
        if (!tw && s.par.nhyp_max == 1e9) { break; }
        if (tw) { c.count("twin_steps"); c.count("twin_targets", v.size()); }
        if (tw && !alike(v, w, why)) { c.fail("history", cat("the same history gives another result when queries are made in between: ", why, at(), "\nqueried:\n", str(v), "undisturbed:\n", str(w))); return; }
        for (size_t j = 0; tw && j < z.size(); ++j) { if (z[j].cid != z2[j].cid || !(std::fabs(z[j].rB - z2[j].rB) < 1e-7)) { c.fail("history", cat("scan results differ when queries are made in between", at())); return; } }
        int nq = g.p(0.5) ? g.i(2, 8) : 1;
        Params par0 = t.params; unsigned idc0 = t.targettree.id_counter, nc0 = t.nof_clusters; std::vector<int> cl0[3] = {t.cluster_ntargets, t.cluster_nreports, t.cluster_nhyps};
        std::vector<unsigned> tree0 = ids(t.targettree.query(everything));
        for (int q = 0; q < nq; ++q) {
            lmb::AABBox rg = region(g, v, org, s.radius);
            std::vector<const Snap*> in; for (auto& x : v) { if (meets(x.aabb, tobox(rg))) { in.push_back(&x); } }
            double rl = g.pick<double>({0.7, 0.5, 0, 1, v.empty() ? 0.3 : v[g.i(0, v.size() - 1)].r});
            int what = g.i(0, 9);
            auto bx = [&] { return cat(" region [", rg.min[0], ",", rg.min[1], " - ", rg.max[0], ",", rg.max[1], "]", at(), "\n", str(v)); };
            const char* nm = "";
            auto chk = [&](lmb::TargetSummaries_<4> lst, const std::vector<const Snap*>& exp, const char* key) {
                if (lst.size() != exp.size()) { c.fail(key, cat("list has ", lst.size(), " targets, expected ", exp.size(), bx())); return false; }
                std::map<unsigned, const Snap*> m; for (auto* e : exp) { m[e->id] = e; }
                for (auto& x : lst) {
                    if (!m.count(x.id)) { c.fail(key, cat("target ", x.id, " should not be listed (or is listed twice)", bx())); return false; }
                    auto& e = *m[x.id];
                    V4d mean = e.mean();
                    if (!bitsame(x.r, e.r) || !bitsame(x.w, e.r) || x.cid != e.cid || !((x.x - mean).norm() < 1e-12 * (1 + mean.norm()))) { c.fail(key, cat("summary of target ", x.id, " differs: r=", x.r, " cid=", x.cid, " x=[", x.x.transpose(), "] for ", str(e), at())); return false; }
                    // moments in the local frame
                    O::Mat P(4, 4), mu(4, 1); O::V2 og{mean[0], mean[1]};
                    std::vector<O::Mat> xs; for (auto& k2 : e.c) { O::Mat y = O::Mat::of(k2.x); O::V2 l = O::ll2ne({k2.x[0], k2.x[1]}, og); y(0, 0) = l[0]; y(1, 0) = l[1]; xs.push_back(y); mu = mu + static_cast<O::ld>(k2.w) * y; }
                    for (size_t n = 0; n < xs.size(); ++n) { auto d = xs[n] - mu; P = P + static_cast<O::ld>(e.c[n].w) * (O::Mat::of(e.c[n].P) + d * O::tr(d)); }
                    for (int i = 0; i < 4; ++i) { for (int j = 0; j < 4; ++j) { if (!(std::fabs(x.P(i, j) - static_cast<double>(P(i, j))) < 1e-7 * (1 + std::sqrt(static_cast<double>(P(i, i) * P(j, j)))))) { c.fail(key, cat("summary covariance of target ", x.id, " entry ", i, ",", j, " is ", x.P(i, j), " not ", static_cast<double>(P(i, j)), at(), "\n", str(e))); return false; } } }
                    m.erase(x.id);
                }
                return true;
            };
            std::vector<const Snap*> all; for (auto& x : v) { all.push_back(&x); }
            if (what == 0) { nm = "get_targets"; if (!chk(t.get_targets(), all, "list")) { return; } }
            else if (what == 1) { nm = "get_targets(region)"; if (!chk(t.get_targets(rg), in, "region-list")) { return; } }
            else if (what == 2) { nm = "enof_targets"; double e = 0; for (auto* x : all) { e += x->r; } double a = t.enof_targets(); if (!(std::fabs(a - e) <= 1e-9 * (1 + e))) { c.fail("expected-count", cat("expected count ", a, " not ", e, bx())); return; } }
            else if (what == 3) { nm = "enof_targets(region)"; double e = 0; for (auto* x : in) { e += x->r; } double a = t.enof_targets(rg); if (!(std::fabs(a - e) <= 1e-9 * (1 + e))) { c.fail("region-expected-count", cat("expected count in region ", a, " not ", e, bx())); return; } }
            else if (what == 4) { nm = "nof_targets"; unsigned e = 0; for (auto* x : all) { e += x->r >= rl; } unsigned a = rl == 0.7 && g.p(0.5) ? t.nof_targets() : t.nof_targets(rl); if (a != e) { c.fail("count", cat("count at ", rl, ": ", a, " not ", e, bx())); return; } }
            else if (what == 5) { nm = "nof_targets(region)"; unsigned e = 0; for (auto* x : in) { e += x->r >= rl; } unsigned a = rl == 0.7 && g.p(0.5) ? t.nof_targets(rg) : t.nof_targets(rg, rl); if (a != e) { c.fail("region-count", cat("count in region at ", rl, ": ", a, " not ", e, bx())); return; } }
            else if (what == 6) {
                nm = "pos_phd"; Eigen::Array2i sz(g.i(1, 12), g.i(1, 12)); auto m = t.pos_phd(rg, sz); double e = 0; for (auto* x : in) { e += x->r; }
                if (m.rows() != sz[0] || m.cols() != sz[1]) { c.fail("grid-shape", cat("grid is ", m.rows(), "x", m.cols(), " not ", sz[0], "x", sz[1], bx())); return; }
                if (m.size() && (!(m.minCoeff() >= 0) || !(m.sum() <= e + 1e-9))) { c.fail("grid", cat("grid sums to ", m.sum(), " with minimum ", m.minCoeff(), "; targets meeting the region carry ", e, bx())); return; }
            }
            else if (what == 7 || what == 8) {
                nm = what == 7 ? "ospa" : "gospa";
                Tracker::TargetStates tr; for (int n = g.i(0, 5); n--;) { V4d x; x << T::ne2ll(V2d(g.u(-1, 1), g.u(-1, 1)) * s.radius, org), g.n(), g.n(); tr.push_back(x); }
                double cc = g.pick<double>({10, 100, 1000}), p = g.pick<double>({1, 2, 1.5}), d;
                if (tr.empty() && v.empty()) { tr.push_back((V4d() << org, 0, 0).finished()); }
                bool withorg = g.p(0.5);
                d = what == 7 ? (withorg ? t.ospa(tr, org, cc, p) : t.ospa(tr, cc, p)) : (withorg ? t.gospa(tr, org, cc, p) : t.gospa(tr, cc, p));
                if (!std::isfinite(d) || d < 0) { c.fail("score", cat(nm, " is ", d, bx())); return; }
            }
            else {
                nm = "text"; std::string a = lmb::print(t), b = lmb::print(t);
                if (a != b) { c.fail("text", cat("text form changes when repeated", at())); return; }
                std::multiset<unsigned> got, want; for (size_t p = 0; (p = a.find("\"id\":", p)) != std::string::npos; p += 5) { got.insert(strtoul(a.c_str() + p + 5, nullptr, 10)); }
                for (auto* x : all) { want.insert(x->id); }
                if (got != want) { c.fail("text", cat("text form names ", got.size(), " targets, tracked are ", want.size(), at(), "\n", a.substr(0, 600))); return; }
            }
            c.count("queries"); c.mark(H::hashs(nm)); c.mark(static_cast<uint64_t>(in.size()));
            if (!in.empty() && in.size() < v.size()) { c.count("proper_regions"); }
            Snaps v2 = snap(t);
            if (!bits(v, v2)) { c.fail("changed", cat(nm, " changed the tracker", at(), "\nbefore:\n", str(v), "after:\n", str(v2))); return; }
            if (memcmp(&par0, &t.params, sizeof par0) || idc0 != t.targettree.id_counter || nc0 != t.nof_clusters || cl0[0] != t.cluster_ntargets || cl0[1] != t.cluster_nreports || cl0[2] != t.cluster_nhyps) { c.fail("settings-changed", cat(nm, " changed parameters, the identity counter or the diagnostics", at())); return; }
            if (ids(t.targettree.query(everything)) != tree0) { c.fail("index-changed", cat(nm, " changed the spatial index", at())); return; }
        }
    }
    c.sample(cat("ended with ", t.targettree.targets.size(), " targets", where(s, s.ops.size() - 1)));
}

// ---- B03
static bool boxes(H::Ctx& c, const Tracker& t, const Snap& s, double reach, const std::function<std::string()>& at) {
    if (s.c.empty()) { return true; }
    double n = t.params.nstd;
    V2d m = s.mean().head<2>();
    double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300}, ext = 0;
    M2d S = M2d::Zero(); V2d mu = V2d::Zero();
    std::vector<V2d> ls; for (auto& k : s.c) { ls.push_back(T::ll2ne(k.x.head<2>(), m)); mu += k.w * ls.back(); }
    for (size_t i = 0; i < s.c.size(); ++i) {
        for (int q = 0; q < 2; ++q) { double e = n * std::sqrt(std::max(0.0, s.c[i].P(q, q))); lo[q] = std::min(lo[q], ls[i][q] - e); hi[q] = std::max(hi[q], ls[i][q] + e); }
        V2d d = ls[i] - mu; S += s.c[i].w * (M2d(s.c[i].P.topLeftCorner<2, 2>()) + d * d.transpose());
    }
    for (int q = 0; q < 2; ++q) { ext = std::max({ext, std::fabs(lo[q]), std::fabs(hi[q])}); }
    double tol = 0.4 * (reach + ext) * ext / 6.3e6 * (1 + std::fabs(std::tan(m[0] * M_PI / 180))) + 1e-4 + 1e-7 * ext;
    c.maxi("tolerance_share", tol / std::max(ext, 1e-9));
    // stored edges, in metres at the mean
    V2d a = T::ll2ne(V2d(s.aabb.min[0], s.aabb.min[1]), m), b = T::ll2ne(V2d(s.aabb.max[0], s.aabb.max[1]), m);
    const char* nm[2] = {"north", "east"};
    for (int q = 0; q < 2; ++q) {
        c.maxi("edge_deviation", std::max(std::fabs(a[q] - lo[q]), std::fabs(b[q] - hi[q])) / tol);
        if (!(std::fabs(a[q] - lo[q]) <= tol && std::fabs(b[q] - hi[q]) <= tol)) { c.fail("target-box", cat("stored box spans ", a[q], "..", b[q], " m ", nm[q], " of the mean, ", n, "-sigma extent is ", lo[q], "..", hi[q], " (tolerance ", tol, ")", at(), "\n", str(s))); return false; }
    }
    auto ev = O::eig(O::Mat::of(S)); double l0 = std::max<double>(0, ev[0]), l1 = ev[1];
    double e2 = n * std::sqrt(l1), tol2 = 0.4 * (reach + ext + e2) * (ext + e2) / 6.3e6 * (1 + std::fabs(std::tan(m[0] * M_PI / 180))) + 1e-4 + 1e-7 * e2;
    std::vector<V2d> cn; V2d ce = V2d::Zero(); for (int k = 0; k < 4; ++k) { cn.push_back(T::ll2ne(V2d(s.bb[2 * k], s.bb[2 * k + 1]), m)); ce += cn.back() / 4; }
    if (!((ce - mu).norm() <= tol2)) { c.fail("target-oriented-box", cat("stored oriented box is centred ", (ce - mu).norm(), " m from the mean", at(), "\n", str(s))); return false; }
    for (auto& p : cn) { if (!(std::fabs((p - ce).norm() - n * std::sqrt(l0 + l1)) <= tol2)) { c.fail("target-oriented-box", cat("a corner of the stored oriented box is ", (p - ce).norm(), " m from its centre, expected ", n * std::sqrt(l0 + l1), at(), "\n", str(s))); return false; } }
    for (int k = 0; k < 24; ++k) {
        V2d u(std::cos(k * M_PI / 12), std::sin(k * M_PI / 12));
        double need = n * std::sqrt(std::max(0.0, u.dot(S * u))), have = -1e300; for (auto& p : cn) { have = std::max(have, u.dot(p - ce)); }
        if (!(have >= need - tol2)) { c.fail("target-oriented-box", cat("stored oriented box reaches ", have, " m in a direction where the density extends ", need, at(), "\n", str(s))); return false; }
    }
    if (l1 > 1.05 * l0) {   // half-sides along the principal axes
        double s1 = (cn[1] - cn[0]).norm() / 2, s2 = (cn[2] - cn[1]).norm() / 2; if (s1 > s2) { std::swap(s1, s2); }
        if (!(std::fabs(s1 - n * std::sqrt(l0)) <= 3 * tol2 && std::fabs(s2 - n * std::sqrt(l1)) <= 3 * tol2)) { c.fail("target-oriented-box", cat("stored oriented box has half-sides ", s1, " ", s2, ", principal extents are ", n * std::sqrt(l0), " ", n * std::sqrt(l1), at(), "\n", str(s))); return false; }
    }
    c.count("boxes"); c.mark(ext);
    return true;
}
static void b03(H::Ctx& c) {
    auto& g = c.rng;
    GenOpt o; o.swarm = g.p(0.05); o.lmax = 2500;
    Script s = script(g, o);
    cf::LL org = origin(g);
    Tracker t(s.par);
    for (size_t k = 0; k < s.ops.size(); ++k) {
        auto& op = s.ops[k];
        auto at = [&] { return where(s, k); };
        Scan z; Snaps before = snap(t);
        // report boxes
        if (op.k == Op::COR) {
            Scan zz = scan(op, org);
            for (auto& r : zz) {
                auto b = r.llaabbox(); V2d a = T::ll2ne(V2d(b.min[0], b.min[1]), r.x), d = T::ll2ne(V2d(b.max[0], b.max[1]), r.x);
                for (int q = 0; q < 2; ++q) { double e = 2 * std::sqrt(r.P(q, q)), E = 2 * std::sqrt(r.P.trace()), tol = 2 * E * E / 6.3e6 * (1 + std::fabs(std::tan(r.x[0] * M_PI / 180))) + 1e-4; if (!(std::fabs(a[q] + e) <= tol && std::fabs(d[q] - e) <= tol)) { c.fail("report-box", cat("report box spans ", a[q], "..", d[q], " m for a standard deviation of ", e / 2, at())); return; } }
                c.count("report_boxes");
            }
        }
        play_any(t, op, org, z);
        // scan comes back where it was
        for (size_t j = 0; j < z.size(); ++j) { V2d p = T::ne2ll(op.rep[j].z, org); V2d d = T::ll2ne(z[j].x, p); if (!(d.norm() < 1e-2 + 1e-12 * s.radius * s.radius) || !((z[j].P - op.rep[j].P).norm() == 0)) { c.fail("report-moved", cat("report moved ", d.norm(), " m or changed by a correction", at())); return; } }
        for (auto& q : snap(t)) { if (!boxes(c, t, q, 3 * s.radius + 300, at)) { return; } }
        // conversions of boxes and densities there and back
        if (g.p(0.3)) {
            V2d no = T::ne2ll(V2d(g.u(-1, 1), g.u(-1, 1)) * s.radius, org);
            for (auto* p : t.targettree.targets) {
                lmb::AABBox a = p->pdf.aabbox; cf::LL o2 = no;
                lmb::AABBox l = a.neaabbox(o2), b2 = l.llaabbox(o2);
                V2d l0 = T::ll2ne(V2d(a.min[0], a.min[1]), no), l1 = T::ll2ne(V2d(a.max[0], a.max[1]), no);
                if (!(std::hypot(l.min[0] - std::min(l0[0], l1[0]), l.min[1] - std::min(l0[1], l1[1])) < 1e-6 && std::hypot(l.max[0] - std::max(l0[0], l1[0]), l.max[1] - std::max(l0[1], l1[1])) < 1e-6)) { c.fail("box-to-local", cat("axis-aligned box converts to [", l.min[0], ",", l.min[1], " - ", l.max[0], ",", l.max[1], "]", at())); return; }
                double d = 0; for (int q = 0; q < 2; ++q) { d = std::max({d, std::fabs(b2.min[q] - a.min[q]), std::fabs(b2.max[q] - a.max[q])}); }
                double dist = 3 * s.radius + 500;
                if (!(d * 111000 < dist * dist * dist / 4e13 * 3 + 1e-3)) { c.fail("box-round-trip", cat("axis-aligned box comes back ", d * 111000, " m off", at())); return; }
                lmb::BBox ob = p->pdf.bbox, nb = ob.nebbox(o2), back = nb.llbbox(o2);
                for (int i = 0; i < 4; ++i) {
                    V2d e = T::ll2ne(ob.corners.col(i), no);
                    if (!((V2d(nb.corners.col(i)) - e).norm() < 1e-6)) { c.fail("corners-to-local", cat("corner ", i, " converts ", (V2d(nb.corners.col(i)) - e).norm(), " m off", at())); return; }
                    V2d q = T::ll2ne(back.corners.col(i), ob.corners.col(i)); if (!(q.norm() < dist * dist * dist / 4e13 * 3 + 1e-3)) { c.fail("corners-round-trip", cat("corner comes back ", q.norm(), " m off", at())); return; }
                }
                c.count("conversions");
            }
        }
    }
    c.sample(cat(t.targettree.targets.size(), " targets", where(s, s.ops.size() - 1)));
}

// ---- S02
static void s02(H::Ctx& c) {
    auto& g = c.rng;
    GenOpt o; o.hostile = g.p(0.15); o.swarm = !o.hostile && g.p(0.35); o.maxops = 14;
    Script s = script(g, o);
    cf::LL org = origin(g);
    Tracker t(s.par);
    for (size_t k = 0; k < s.ops.size(); ++k) {
        auto& op = s.ops[k];
        auto at = [&] { return where(s, k); };
        Scan z;
        play_any(t, op, org, z);
        Snaps v = snap(t);
        if (static_cast<size_t>(t.targettree.tree.Count()) != v.size()) { c.fail("entries", cat("index has ", t.targettree.tree.Count(), " entries for ", v.size(), " targets", at())); return; }
        for (int q = 0; q < 12; ++q) {
            bool pt = g.p(0.4);
            Box b; std::vector<Target*> res;
            if (pt) {
                V2d p = v.empty() || g.p(0.3) ? T::ne2ll(V2d(g.u(-1, 1), g.u(-1, 1)) * s.radius, org) : V2d(v[g.i(0, v.size() - 1)].mean().head<2>());
                if (!v.empty() && g.p(0.3)) { auto& a = v[g.i(0, v.size() - 1)].aabb; p = V2d(g.p(0.5) ? a.min[0] : a.max[0], g.p(0.5) ? a.min[1] : a.max[1]); }
                b.min = b.max = {p[0], p[1]}; cf::LL l = p; res = t.targettree.query(l);
            } else { lmb::AABBox r = region(g, v, org, s.radius); b = tobox(r); res = t.targettree.query(r); }
            std::multiset<Target*> got(res.begin(), res.end()), want;
            for (size_t i = 0; i < v.size(); ++i) { if (meets(v[i].aabb, b)) { want.insert(t.targettree.targets[i]); } }
            if (got != want) {
                std::string d; for (auto* x : want) { if (!got.count(x)) { d += cat(" missing ", x->id); } } for (auto* x : std::set<Target*>(got.begin(), got.end())) { if (!want.count(x)) { d += std::find(t.targettree.targets.begin(), t.targettree.targets.end(), x) == t.targettree.targets.end() ? " a removed target" : cat(" wrongly ", x->id); } else if (got.count(x) > 1) { d += cat(" ", x->id, " twice"); } }
                c.fail("index", cat(pt ? "point" : "region", " query [", b.min[0], ",", b.min[1], " - ", b.max[0], ",", b.max[1], "] returned", d, at(), v.size() < 12 ? "\n" + str(v) : "")); return;
            }
            c.count("queries"); c.count("hits", got.size());
        }
        c.maxi("targets", v.size()); c.mark(static_cast<uint64_t>(v.size())); if (!v.empty()) { c.mark(v.back().r); }
    }
    c.sample(cat(t.targettree.targets.size(), " targets in the index", where(s, s.ops.size() - 1)));
}

int main(int argc, char** argv) {
    return H::run(argc, argv, "hist", [](H::Ctx& c) {
        if (c.mode == "F01") { f01(c); } else if (c.mode == "F04") { f04(c); } else if (c.mode == "F06") { f06(c); }
        else if (c.mode == "F10") { f10(c); } else if (c.mode == "B03") { b03(c); } else { s02(c); }
    });
}

// C01 data races (built with ThreadSanitizer), C02 thread-count independence, C03 concurrent queries.
#include "pair.hpp"
#include <omp.h>
#include <atomic>
#include <dlfcn.h>
#include <mutex>
#include <sched.h>
#include <sstream>
#include <thread>
#include <time.h>
#include "pf.hpp"
using namespace T;
using H::cat;

// ---- delays injected where the filter calls the sensor, so that threads meet in many orders
static std::atomic<uint64_t> g_delay{0};       // 0: none; otherwise a seed
static std::atomic<long> g_injected{0};
static void stall() {
    uint64_t d = g_delay.load(std::memory_order_relaxed);
    if (!d) { return; }
    thread_local uint64_t s = H::mix(d ^ reinterpret_cast<uintptr_t>(&s));
    s = H::mix(s + d);
    if (s % 8 == 0) { g_injected.fetch_add(1, std::memory_order_relaxed); if (s % 64 == 0) { timespec t{0, static_cast<long>(s >> 32) % 60000}; nanosleep(&t, nullptr); } else { sched_yield(); } }
}
struct SlowSensor : DetSensor { template<typename P> double pD(const P& pdf, const cf::LL& o) const { stall(); return DetSensor::pD(pdf, o); } };
struct SlowRealSensor : Sensor { template<typename P> double pD(const P& pdf, const cf::LL& o) const { stall(); return Sensor::pD(pdf, o); } };


// the filter compiled without threading, in a translation unit of its own
struct Plain {
    virtual ~Plain() {}
    virtual View step(const Op& op, const cf::LL& o) = 0;
};
static std::unique_ptr<Plain> make_plain(const void* params, size_t size) {
    static auto* f = [] {
        const char* d = getenv("HARNESS_SCRATCH"); void* h = dlopen((std::string(d ? d : ".") + "/plain.so").c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
        return reinterpret_cast<Plain* (*)(const void*, size_t)>(dlsym(h, "make_plain"));
    }();
    return std::unique_ptr<Plain>(f(params, size));
}

// ---- C02
// many targets through many predictions of differing length with one model object, by several threads and by one
static void c02_crowd(H::Ctx& c) {
    auto& g = c.rng; Params par; par.cov_lim = 1e12; par.r_lim = 1e-9; par.cw_lim = 0; Tracker ta(par), tb(par); cf::LL org = origin(g);
    int n = g.i(40, 400), nb = g.i(2, 8); std::map<unsigned, Target*> A, B;
    for (int i = 0; i < n; ++i) { auto cs = rmix(g, V2d(g.u(-2e3, 2e3), g.u(-2e3, 2e3)), V2d(g.n(), g.n()), g.p(0.7) ? 1 : 2, 5, 0.5, 3); double r = g.u(0.5, 1); add(ta, &ta.params, r, cs, org); add(tb, &tb.params, r, cs, org); }
    lmb::CV<Target> shared(1, 0.1); bool nm = g.p(0.3); lmb::NM<Target> snm(1, M4d::Identity()); double t = 0;
    for (int k = 0; k < 60; ++k) {
        double dt = g.u(0.01, 1), pS = g.u(0.99, 1), q = g.u(0, 0.2); M4d Q = covpv(g, 0.001, 0.01, 0.001, 0.01);
        shared.pS = snm.pS = pS; shared.q = q; snm.Q = Q;
        omp_set_num_threads(1);
        if (nm) { lmb::NM<Target> m(pS, Q); ta.predict(m, t + dt, t); } else { lmb::CV<Target> m(pS, q); ta.predict(m, t + dt, t); }
        omp_set_num_threads(nb);
        if (nm) { tb.predict(snm, t + dt, t); } else { tb.predict(shared, t + dt, t); }
        t += dt;
        A.clear(); B.clear(); for (auto* p : ta.targettree.targets) { A[p->id] = p; } for (auto* p : tb.targettree.targets) { B[p->id] = p; }
        if (A.size() != B.size()) { c.fail("crowd", cat(A.size(), " targets predicted by one thread, ", B.size(), " by ", nb)); return; }
        for (auto& e : A) {
            if (!B.count(e.first)) { c.fail("crowd", cat("target ", e.first, " is missing with ", nb, " threads")); return; }
            auto &a = *e.second, &b = *B[e.first]; bool same = std::fabs(a.r - b.r) < 1e-12 && a.pdf.c.size() == b.pdf.c.size();
            for (size_t i = 0; same && i < a.pdf.c.size(); ++i) { auto &x = a.pdf.c[i], &y = b.pdf.c[i]; same = std::fabs(x.w - y.w) < 1e-12 && (x.x - y.x).norm() < 1e-7 * (1 + x.x.norm()) && (x.P - y.P).norm() < 1e-9 * x.P.norm(); }
            if (!same) { c.fail("crowd", cat("after prediction ", k, " of ", dt, " s, target ", e.first, " of ", n, " differs between one thread and ", nb, ":\n", str(snap(a)), "\n", str(snap(b)))); return; }
        }
    }
    c.count("steps", 60); c.count("crowds"); c.count("targets", n * 60L); c.mark(t);
}
// few targets of many components, all of them near dozens of reports
static void dense(H::Rng& g, Script& s) {
    s.ops.clear(); s.par.cov_lim = 1e6; s.par.nhyp_max = g.pick<double>({5, 20, 100}); double t = 0; int n = g.i(1, 3);
    for (int i = 0; i < n; ++i) { Op a; a.k = Op::ADD; a.r = g.u(0.2, 0.99); a.c = rmix(g, V2d(g.n(), g.n()) * 10, V2d(g.n(), g.n()), g.pick<int>({1, 2, 40, 120}), 15, 10, 25); s.ops.push_back(a); }
    int m = g.i(1, 3);
    for (int k = 0; k < m; ++k) {
        Op z; z.k = Op::COR; z.t0 = t; z.t1 = t += g.u(0.5, 3); z.pD = g.u(0.5, 1); z.lambdaB = g.pick<double>({0, 0.5, 2}); double kap = g.logu(1e-5, 1e-2); int q = g.i(10, 70);
        for (int i = 0; i < q; ++i) { z.rep.push_back({V2d(g.n(), g.n()) * 12, M2d(covpv(g, 0.5, 4, 1, 2).topLeftCorner<2, 2>()), kap}); }
        s.ops.push_back(z);
        if (k + 1 < m) { Op p; p.k = Op::CV; p.t0 = t; p.t1 = t += g.u(0.1, 1); p.pS = 0.99; p.q = 0.1; s.ops.push_back(p); }
    }
}
static void c02(H::Ctx& c) {
    auto& g = c.rng;
    if (c.cas / 8 % 30 == 5) { c02_crowd(c); return; }
    GenOpt o; o.maxops = 12; o.maxtruth = g.pick<int>({3, 8, 20}); o.lmax = g.pick<double>({300, 3000, 20000}); o.swarm = g.p(0.1);
    Script s = script(g, o);
    if (g.p(0.08)) { dense(g, s); c.count("dense_scans"); }
    else if (g.p(0.3)) { s.par.w_lim = 0; s.par.nhyp_max = g.pick<double>({1e9, 20}); for (auto& op : s.ops) { if (op.rep.size() > 4 && s.par.nhyp_max > 100) { op.rep.resize(4); } } }
    else if (s.par.nhyp_max > 20 && o.maxtruth > 8) { s.par.nhyp_max = 20; }
    bool exact = s.par.nhyp_max > 1000;
    cf::LL org = origin(g);
    int na = g.i(1, 2) == 1 ? 1 : g.i(2, 8), nb = g.i(2, 8); bool plain = g.p(0.35);
    std::string what = plain ? cat("no threading against ", na, " threads") : cat(nb, " threads against ", na);
    Tracker ta(s.par), tb(s.par); auto tp = plain ? make_plain(&s.par, sizeof s.par) : nullptr;
    Pairing pr; long cl = 0;
    for (size_t k = 0; k < s.ops.size(); ++k) {
        if (ta.targettree.targets.size() > (exact ? 6u : 400u)) { break; }
        const Op& op = s.ops[k];
        std::vector<int> perm(op.rep.size()); for (size_t j = 0; j < perm.size(); ++j) { perm[j] = j; }
        Scan za, zb;
        pr.before(ta, op, k, org);
        auto threads = [](int n) { omp_set_num_threads(n); omp_set_max_active_levels(n % 3 ? 1 : 2); };
        threads(na); g_delay = g.p(0.5) ? g.next() | 1 : 0; if (g_delay) { play<SlowSensor>(ta, op, org, za); } else { play<DetSensor>(ta, op, org, za); }
        View va = view(ta, za), vb;
        if (plain) { vb = tp->step(op, org); } else { threads(nb); g_delay = g.p(0.5) ? g.next() | 1 : 0; if (g_delay) { play<SlowSensor>(tb, op, org, zb); } else { play<DetSensor>(tb, op, org, zb); } vb = view(tb, zb); }
        g_delay = 0;
        c.count("steps"); if (op.k == Op::COR) { c.count("corrections"); c.count("clusters", va.nclusters); cl += va.nclusters; }
        std::string key, why = pr.compare(va, vb, op, perm, key);
        if (!why.empty()) {
            if (pr.tied(s, org, va.t, vb.t)) { c.count("tied"); return; }
            c.fail(key, cat(what, ": ", why, "; operation ", k, " ", str(op), "\nfirst:\n", str(va.t), "second:\n", str(vb.t)));
            return;
        }
        for (auto& q : va.t) { c.mark(q.r); }
    }
    c.count(plain ? "without_threading" : "thread_pairs"); c.maxi("threads", std::max(na, nb)); c.count("targets", pr.targets); c.count("births", pr.births); c.maxi("existence_difference", pr.maxdiff);
    c.count("delays", g_injected.exchange(0)); c.mark(static_cast<uint64_t>(cl));
    if (c.cas < 16) { c.sample(cat(what, ", ", s.ops.size(), " operations, ", cl, " clusters")); }
}

// ---- C03: one thread predicts and corrects, others query; every answer recorded with the operations it overlapped
struct Query { int kind = 0; lmb::AABBox box; double rl = 0; };
struct Answer {
    std::vector<std::array<double, 9>> t; double v = 0;
    bool operator==(const Answer& o) const { return t == o.t && (v == o.v || (v != v && o.v != o.v)); }
};
static std::string str(const Answer& a) { std::string s = cat("value ", a.v, ", ", a.t.size(), " targets:"); for (auto& q : a.t) { s += cat(" #", q[0], "@", q[3], ",", q[4]); if (s.size() > 1200) { break; } } return s; }
static Answer ask(Tracker& t, const Query& q) {
    Answer a;
    auto list = [&](const lmb::TargetSummaries_<4>& l) { for (auto& s : l) { a.t.push_back({static_cast<double>(s.id), s.r, static_cast<double>(s.cid), s.x[0], s.x[1], s.x[2], s.x[3], s.P.trace(), s.P(0, 1)}); } std::sort(a.t.begin(), a.t.end()); };
    switch (q.kind) {
        case 0: list(t.get_targets()); break;
        case 1: list(t.get_targets(q.box)); break;
        case 2: a.v = t.nof_targets(q.rl); break;
        case 3: a.v = t.nof_targets(q.box, q.rl); break;
        case 4: a.v = t.enof_targets(); break;
        default: a.v = t.enof_targets(q.box);
    }
    return a;
}
static const char* qname[] = {"target list", "region list", "count", "region count", "expected number", "regional expected number"};

// identities per scenario run under one seed; nothing else depends on them
static lmb::AABBox qbox(H::Rng& g, const cf::LL& o, double L) {
    V2d a(g.u(-1.3, 1.3) * L, g.u(-1.3, 1.3) * L), h(g.u(0.05, 1.5) * L, g.u(0.05, 1.5) * L);
    V2d lo = ne2ll(a - h, o), hi = ne2ll(a + h, o);
    return lmb::AABBox(std::min(lo[0], hi[0]), std::min(lo[1], hi[1]), std::max(lo[0], hi[0]), std::max(lo[1], hi[1]));
}
static void c03(H::Ctx& c) {
    auto& g = c.rng;
    GenOpt o; o.kit = false; o.minops = 8; o.maxops = c.mode == "C01" ? 14 : 40; o.maxtruth = g.pick<int>({2, 8, 25}); o.lmax = 3000; o.swarm = g.p(0.15);
    Script s = script(g, o); if (s.par.nhyp_max > 20) { s.par.nhyp_max = 20; }
    bool race = c.mode == "C01";
    if (race) { for (auto& op : s.ops) { if (op.rep.size() > 12) { op.rep.resize(12); } } if (s.ops.size() > 40) { s.ops.resize(40); } }
    cf::LL org = origin(g);
    Tracker t(s.par);
    std::vector<Query> qs(6);
    for (int k = 0; k < 6; ++k) { qs[k].kind = k; qs[k].box = qbox(g, org, s.radius); qs[k].rl = g.pick<double>({0.7, 0.3, 0, s.par.r_lim}); }
    for (int k = 0; k < 4; ++k) { Query q; q.kind = g.i(0, 5); q.box = qbox(g, org, s.radius); q.rl = g.u(); qs.push_back(q); }
    std::vector<std::vector<Answer>> states;        // [state][query], asked by the writer between operations
    std::vector<int> ops_of;                          // operation after which each state was taken
    int readers = g.i(1, 3), nthr = g.pick<int>({1, 2, 4, 8});
    // adding targets is not an operation of the tracker's interface that locks: do it before the readers start
    std::vector<const Op*> pre, ops; for (auto& op : s.ops) { (op.k == Op::ADD ? pre : ops).push_back(&op); }
    for (auto* op : pre) { Scan z; play<DetSensor>(t, *op, org, z); }
    std::atomic<int> begun{0}, done{0}; std::atomic<bool> stop{false};
    struct Rec { int q, lo, hi; Answer a; };
    std::vector<std::vector<Rec>> recs(readers);
    auto record = [&] { std::vector<Answer> v; for (auto& q : qs) { v.push_back(ask(t, q)); } states.push_back(std::move(v)); };
    if (!race) { record(); }
    std::vector<std::thread> th; std::vector<uint64_t> seeds; for (int r = 0; r < readers; ++r) { seeds.push_back(g.next()); }
    std::vector<PDF::State> truth; for (int k = 0; k < 3; ++k) { PDF::State x; V2d p = ne2ll(V2d(g.u(-1, 1) * s.radius, g.u(-1, 1) * s.radius), org); x << p[0], p[1], 0, 0; truth.push_back(x); }
    std::atomic<long> extra{0}; std::atomic<int> wrongphd{0};
    for (int r = 0; r < readers; ++r) {
        th.emplace_back([&, r] {
            H::Rng h(seeds[r]); omp_set_num_threads(h.i(1, 2));
            while (!stop.load(std::memory_order_acquire)) {
                if (h.p(race ? 0.35 : 0.08)) {
                    // other readers that also work on the targets
                    switch (h.i(0, race ? 3 : 2)) {
                        case 0: t.ospa(truth, 100, 2); break;
                        case 1: t.gospa(truth, org, 50, 1); break;
                        case 2: { auto m = t.pos_phd(qs[1].box, Eigen::Array2i(3, 4)); if (!(m.sum() >= 0)) { wrongphd = 1; } break; }
                        default: { std::ostringstream os; t.repr(os); extra += os.str().size() > 0; }
                    }
                    ++extra;
                }
                int q = h.i(0, qs.size() - 1); Rec e; e.q = q;
                e.lo = done.load(std::memory_order_seq_cst);
                e.a = ask(t, qs[q]);
                e.hi = begun.load(std::memory_order_seq_cst);
                if (recs[r].size() < 20000) { recs[r].push_back(std::move(e)); }
                if (h.p(0.3)) { sched_yield(); }
            }
        });
    }
    omp_set_num_threads(nthr);
    H::Rng w(g.next()); Scan z;
    for (auto* op : ops) {
        if (t.targettree.targets.size() > 300) { break; }
        if (w.p(0.5)) { timespec ts{0, static_cast<long>(w.next() % (race ? 20000 : 100000))}; nanosleep(&ts, nullptr); }
        g_delay = w.p(0.8) ? w.next() | 1 : 0;
        begun.fetch_add(1);
        size_t n = t.targettree.targets.size() * (op->rep.size() + 1);
        if (race && n < 150 && w.p(0.6)) { if (g_delay) { play<SlowRealSensor>(t, *op, org, z); } else { play<Sensor>(t, *op, org, z); } c.count("sampled_corrections", op->k == Op::COR); }
        else { play<SlowSensor>(t, *op, org, z); }
        done.fetch_add(1);
        if (!race) { record(); }
        c.count("operations");
    }
    stop.store(true, std::memory_order_release);
    for (auto& x : th) { x.join(); }
    g_delay = 0;
    c.count("delays", g_injected.exchange(0)); c.count("other_queries", extra);
    if (wrongphd) { c.fail("density-grid", "a density grid with a negative or undefined total was returned during an update"); return; }
    uint64_t inter = 0; long overl = 0, nq = 0;
    for (int r = 0; r < readers; ++r) {
        int floor = 0;
        for (auto& e : recs[r]) {
            ++nq; inter = H::mix(inter ^ (e.q * 1000003 + e.lo * 1009 + e.hi)); overl += e.hi > e.lo;
            if (race) { continue; }
            int hit = -1;
            for (int k = std::max(e.lo, floor); k <= e.hi && k < static_cast<int>(states.size()); ++k) { if (states[k][e.q] == e.a) { hit = k; break; } }
            if (hit < 0) {
                bool older = false, any = false; for (size_t k = 0; k < states.size(); ++k) { if (states[k][e.q] == e.a) { any = true; older = older || (static_cast<int>(k) >= e.lo && static_cast<int>(k) <= e.hi); } }
                std::string st; for (int k = e.lo; k <= e.hi && k < static_cast<int>(states.size()); ++k) { st += cat("\nstate ", k, ": ", str(states[k][e.q])); }
                c.fail(older ? "backwards" : any ? "stale" : "half-updated", cat("a ", qname[qs[e.q].kind], " made while operations ", e.lo, "..", e.hi, " ran (last ", (e.hi > 0 ? str(*ops[e.hi - 1]) : ""), ") returned ", str(e.a), older ? cat(", older than the state ", floor, " seen before by the same caller") : any ? ", a state of another time" : ", which no complete state gives", st));
                return;
            }
            floor = hit; c.count("answers");
        }
    }
    c.count("queries", nq); c.count("overlapping", overl); c.mark(inter); c.maxi("readers", readers);
    if (c.cas < 16) { c.sample(cat(readers, " readers made ", nq, " queries (", overl, " while an operation ran) over ", ops.size(), " operations in ", nthr, " threads")); }
}

// ---- C01: threads within operations, queries beside them, and the parallel loops of densities on their own
static void c01(H::Ctx& c) {
    auto& g = c.rng; int k = g.i(0, 9);
    if (k < 7) { c03(c); return; }
    omp_set_num_threads(g.pick<int>({2, 4, 8}));
    if (k == 7) {       // particles
        using PF = lmb::PF<4, 600>; using PT = lmb::Target_<PF>; lmb::Params par;
        lmb::PositionSensor<PT> s; s.fov = fovbox(cf::LL(10, 10), 2000, 2000); PF::State m; m << 10, 10, 1, 1; PF::Covariance P = PF::Covariance::Identity() * 1e-6;
        std::unique_ptr<PF> p(new PF(&par, m, P)); p->transform_to_local();
        for (int q = 0; q < 4; ++q) { Report z(V2d(g.n() * 50, g.n() * 50), spd2(g, 1000, 5000), 1e-6); p->correct(z, s); p->linear_update(M4d::Identity(), M4d::Zero()); p->missed(s); p->resample(); c.count("particle_updates", 600); }
        c.mark(static_cast<double>(p->mean()[0])); return;
    }
    // mixtures large enough to be worth sharing, and several trackers at once
    int n = g.i(2, 3); std::vector<std::thread> th; std::vector<uint64_t> seeds; for (int q = 0; q < n; ++q) { seeds.push_back(g.next()); }
    std::atomic<long> ops{0};
    for (int q = 0; q < n; ++q) {
        th.emplace_back([&, q] {
            H::Rng h(seeds[q]); omp_set_num_threads(h.i(1, 4)); GenOpt o; o.maxops = 8; o.maxtruth = 6; Script s = script(h, o); if (s.par.nhyp_max > 20) { s.par.nhyp_max = 20; }
            cf::LL org = origin(h); Tracker t(s.par); Scan z;
            for (auto& op : s.ops) { if (t.targettree.targets.size() > 60) { break; } if (t.targettree.targets.size() < 8 && op.rep.size() < 6) { play<Sensor>(t, op, org, z); } else { play<DetSensor>(t, op, org, z); } ++ops; }
            lmb::AABBox all(-90, -180, 90, 180); t.get_targets(all); auto ph = t.pos_phd(qbox(h, org, s.radius), Eigen::Array2i(4, 4));
        });
    }
    for (auto& x : th) { x.join(); }
    c.count("operations", ops); c.count("separate_trackers", n); c.mark(H::mix(seeds[0]));
}

int main(int argc, char** argv) {
    omp_set_num_threads(1);     // the main thread becomes the runtime's thread 0 and stays (libomp 18 assumes that of critical sections under a tool)
    return H::run(argc, argv, "thr", [](H::Ctx& c) { if (c.mode == "C01") { c01(c); } else if (c.mode == "C02") { c02(c); } else { c03(c); } });
}

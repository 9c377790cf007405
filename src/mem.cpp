// M01: lifetimes of everything the tracker hands out (run under AddressSanitizer and UBSan).
// M02: the same run repeated with differently filled fresh memory must be bit-identical; also run under valgrind.
#include "world.hpp"
#include <malloc.h>
#include <sys/mman.h>
#include <omp.h>
#include <sys/wait.h>
#include <thread>
#include "pf.hpp"
#include "rlapjv.h"
#include "murty.hpp"
#include "RTree.h"
#include "connectedcomponents.hpp"
using namespace T;
using H::cat;

// ---- fresh memory with a chosen content
static int g_fill = -1;        // -1: as it comes; otherwise a byte, 256: random bytes
static uint64_t g_fs = 1;
static std::atomic<long> g_filled{0};
static void paint(void* p, size_t n) {
    if (g_fill < 0 || !p) { return; }
    if (g_fill < 256) { memset(p, g_fill, n); return; }
    auto* c = static_cast<unsigned char*>(p);
    if (g_fill == 256) { for (size_t k = 0; k < n; ++k) { g_fs = g_fs * 6364136223846793005ull + 1442695040888963407ull; c[k] = g_fs >> 56; } }
    else { double v = g_fill == 257 ? 0.37 : -41.5; for (size_t k = 0; k < n; ++k) { c[k] = reinterpret_cast<unsigned char*>(&v)[k % 8]; } }
}
#ifdef FILL
// While filling is on, memory comes from an arena of its own, so that addresses (by which the filter orders objects)
// depend on nothing but the sequence of requests.
extern "C" { void* __libc_malloc(size_t); void* __libc_memalign(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t); void __libc_free(void*); }
static char *g_arena = nullptr, *g_next, *g_end; static void* g_free[64];
struct Head { size_t size, cls; };
static bool mine(void* p) { return p >= g_arena && p < g_end; }
static void* take(size_t n, size_t al) {
    size_t cls = 5; while ((size_t(1) << cls) < n) { ++cls; }
    void* p;
    if (g_free[cls] && al <= 16) { p = g_free[cls]; memcpy(&g_free[cls], p, 8); }
    else { char* q = g_next + sizeof(Head); q += (al - reinterpret_cast<uintptr_t>(q) % al) % al; if (q + (size_t(1) << cls) > g_end) { abort(); } g_next = q + (size_t(1) << cls); p = q; }
    auto* h = static_cast<Head*>(p) - 1; h->size = n; h->cls = cls;
    paint(p, n); g_filled.fetch_add(1, std::memory_order_relaxed);
    return p;
}
static void give(void* p) { auto* h = static_cast<Head*>(p) - 1; paint(p, h->size); memcpy(p, &g_free[h->cls], 8); g_free[h->cls] = p; }
extern "C" {
void* malloc(size_t n) { return g_fill >= 0 ? take(n, 16) : __libc_malloc(n); }
void* calloc(size_t a, size_t b) { if (g_fill < 0) { return __libc_calloc(a, b); } void* p = take(a * b, 16); memset(p, 0, a * b); return p; }
void* memalign(size_t a, size_t n) { return g_fill >= 0 ? take(n, std::max<size_t>(a, 16)) : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : 12; }
void free(void* p) { if (!p) { return; } if (mine(p)) { give(p); } else { __libc_free(p); } }
void* realloc(void* q, size_t n) {
    if (!q) { return malloc(n); }
    if (!mine(q)) { if (g_fill < 0) { return __libc_realloc(q, n); } void* p = take(n, 16); memcpy(p, q, std::min(n, malloc_usable_size(q))); __libc_free(q); return p; }
    void* p = malloc(n); memcpy(p, q, std::min(n, (static_cast<Head*>(q) - 1)->size)); give(q); return p;
}
}
static void arena() { if (!g_arena) { g_arena = g_next = static_cast<char*>(mmap(nullptr, 4ul << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (g_arena == MAP_FAILED) { abort(); } g_end = g_arena + (4ul << 30); } }
#else
static void arena() {}
#endif
static void __attribute__((noinline)) paint_stack() {
    if (g_fill < 0) { return; }
    char b[200000]; paint(b, sizeof b); asm volatile("" : : "r"(b) : "memory");
}

// ---- everything observable, as bits
struct Log {
    std::vector<uint64_t> v; std::vector<std::pair<size_t, std::string>> at;
    void label(const std::string& s) { at.emplace_back(v.size(), s); }
    void put(double d) { uint64_t b; memcpy(&b, &d, 8); v.push_back(std::isnan(d) ? 0x7ff8000000000000ull : b); }
    template<typename D> void put(const Eigen::DenseBase<D>& m) { for (int i = 0; i < m.rows(); ++i) { for (int j = 0; j < m.cols(); ++j) { put(static_cast<double>(m.derived().coeff(i, j))); } } }
    void put(const std::string& s) { v.push_back(H::hashs(s)); }
    void put(const Snap& s) { for (double d : {static_cast<double>(s.id), static_cast<double>(s.cid), s.r, static_cast<double>(s.la), s.aabb.min[0], s.aabb.min[1], s.aabb.max[0], s.aabb.max[1]}) { put(d); } for (double d : s.bb) { put(d); } for (auto& k : s.c) { put(k.x); put(k.P); put(k.w); } }
    template<int S> void put(const lmb::TargetSummary_<S>& s) { put(s.r); put(s.w); put(s.id + 1e6 * s.cid); put(s.x); put(s.P); }
    std::string where(size_t k) const { std::string w = "start"; size_t f = 0; for (auto& a : at) { if (a.first <= k) { w = a.second; f = a.first; } } return cat(w, ", value ", k - f); }
};

static lmb::AABBox region(H::Rng& g, const cf::LL& o, double L) {
    V2d a(g.u(-1.2, 1.2) * L, g.u(-1.2, 1.2) * L), h(g.u(0.05, 1.2) * L, g.u(0.05, 1.2) * L), lo = ne2ll(a - h, o), hi = ne2ll(a + h, o);
    return lmb::AABBox(lo[0], lo[1], hi[0], hi[1]);
}
static void tracker_run(H::Rng g, const Script& s, const cf::LL& org, size_t lim, Log& l) {
    // objects on the heap, so that every field lies in freshly filled memory
    auto t = std::make_unique<Tracker>(s.par);
    auto all = [&](const std::string& what) {
        l.label(what); paint_stack();
        for (auto& q : snap(*t)) { l.put(q); }
        for (auto* p : t->targettree.targets) { l.put(static_cast<double>(p->is_new)); l.put(p->t0); }
        l.put(t->nof_clusters); for (auto* d : {&t->cluster_ntargets, &t->cluster_nreports, &t->cluster_nhyps}) { l.put(d->size()); for (auto x : *d) { l.put(x); } }
        l.put(static_cast<double>(t->targettree.id_counter));
    };
    all("a new tracker");
    for (size_t k = 0; k < s.ops.size(); ++k) {
        if (t->targettree.targets.size() > lim) { break; }
        auto& op = s.ops[k]; auto z = std::make_unique<Scan>();
        paint_stack();
        play_any(*t, op, org, *z);
        all(cat("operation ", k, " ", str(op)));
        l.label(cat("scan after operation ", k)); for (auto& r : *z) { l.put(r.x); l.put(r.P); l.put(r.kappa); l.put(r.cid); l.put(static_cast<double>(r.rB)); }
        for (int q = g.i(0, 4); q--;) {
            int what = g.i(0, 9); auto rg = region(g, org, s.radius); double rl = g.u(); l.label(cat("query ", what, " after operation ", k)); paint_stack();
            Tracker::TargetStates tr; for (int n = g.i(1, 4); n--;) { V4d x; x << T::ne2ll(V2d(g.u(-1, 1), g.u(-1, 1)) * s.radius, org), 0, 0; tr.push_back(x); }
            if (what == 0) { for (auto& x : t->get_targets()) { l.put(x); } }
            else if (what == 1) { for (auto& x : t->get_targets(rg)) { l.put(x); } }
            else if (what == 2) { l.put(t->enof_targets()); l.put(t->enof_targets(rg)); }
            else if (what == 3) { l.put(t->nof_targets(rl)); l.put(t->nof_targets(rg, rl)); }
            else if (what == 4 && t->targettree.targets.size() < 20) { l.put(t->pos_phd(rg, Eigen::Array2i(g.i(1, 5), g.i(1, 5)))); }
            else if (what == 5) { l.put(t->ospa(tr, 50, 1)); }
            else if (what == 6) { l.put(t->gospa(tr, org, 50, 2)); }
            else if (what == 7) { l.put(lmb::print(*t)); std::ostringstream os; os << *z; l.put(os.str()); }
            else if (what == 8 && !t->targettree.targets.empty()) {
                auto& p = t->targettree.targets[g.i(0, t->targettree.targets.size() - 1)]->pdf;
                if (!p.c.empty()) { Eigen::Array<double, 2, Eigen::Dynamic> pts(2, 20); p.sample_pos(pts); l.put(pts); PDF::State mn = p.mean(); l.put(mn); l.put(p.cov()); l.put(p.c[0].overlap(fovbox(p.pos(), 100, 100))); }
            } else if (what == 9) { for (auto& p : t->targettree.query(rg)) { l.put(p->id); } }
        }
    }
    l.label("text"); l.put(lmb::print(*t));
}
static void solver_run(H::Rng g, Log& l) {
    for (int rep = 0; rep < 6; ++rep) {
        int n = g.i(1, 9), m = n + g.i(0, 8); l.label(cat("assignment ", n, "x", m)); paint_stack();
        Eigen::MatrixXd C(n, m); for (int i = 0; i < n; ++i) { for (int j = 0; j < m; ++j) { C(i, j) = g.p(0.3) ? std::numeric_limits<double>::infinity() : g.p(0.5) ? g.i(0, 5) : g.u(-5, 5); } C(i, m - 1 - i) = g.u(0, 5); }
        lap::Murty mu(C); lap::Assignment r; double c; for (int k = 0; k < 30 && mu.draw(r, c); ++k) { l.put(c); for (int i = 0; i < n; ++i) { l.put(r[i]); } }
        Eigen::MatrixXd D(m, m); for (int i = 0; i < m; ++i) { for (int j = 0; j < m; ++j) { D(i, j) = g.u(); } }
        auto q = lap::lap(D); l.put(lap::cost(D, q)); for (int i = 0; i < m; ++i) { l.put(q[i]); }
    }
}
static void index_run(H::Rng g, Log& l) {
    using Tree = RTree<int, double, 2>;
    auto t = std::make_unique<Tree>(); std::vector<std::array<double, 4>> bx; std::vector<int> live;
    for (int k = 0, n = g.i(5, 120); k < n; ++k) {
        if (!live.empty() && g.p(0.35)) { int j = g.i(0, live.size() - 1), id = live[j]; live.erase(live.begin() + j); t->Remove(bx[id].data(), bx[id].data() + 2, id); }
        else { double x = g.u(), y = g.u(), s = g.p(0.3) ? 1e150 : 0.2; bx.push_back({x, y, x + g.u() * s, y + g.u() * s}); live.push_back(bx.size() - 1); t->Insert(bx.back().data(), bx.back().data() + 2, bx.size() - 1); }
        if (g.p(0.2)) { paint_stack(); double a[2] = {g.u(), g.u()}, b[2] = {a[0] + g.u(), a[1] + g.u()}; std::vector<int> r; l.label("index search"); t->Search(a, b, [](int id, void* v) { static_cast<std::vector<int>*>(v)->push_back(id); return true; }, &r); for (int id : r) { l.put(id); } l.put(t->Count()); }
    }
    RTree<int, double, 2>::Iterator it; int n = 0; l.label("index iteration");
    for (t->GetFirst(it); !t->IsNull(it) && n < 1000; t->GetNext(it), ++n) { double a[2], b[2]; it.GetBounds(a, b); l.put(*it); l.put(a[0]); l.put(b[1]); }
}
template<typename PF> static void particle_run(H::Rng g, Log& l, bool join) {
    using PTarget = lmb::Target_<PF>;
    lmb::Params par; cf::LL o(g.u(-60, 60), g.u(-170, 170));
    lmb::PositionSensor<PTarget> s; s.fov = fovbox(o, 2000, 2000); s.pD_ = 0.9;
    typename PF::State m; m << o[0], o[1], 1, -1; typename PF::Covariance P = PF::Covariance::Identity() * 1e-7;
    auto mk = [&] { return std::make_unique<PF>(&par, m, P); };
    auto p = mk(); l.label("particles"); auto put = [&] { paint_stack(); l.put(p->w); l.put(p->x); l.put(p->mean()); l.put(p->cov()); l.put(p->neff()); };
    put(); p->transform_to_local(); put();
    for (int k = g.i(1, 4); k--;) { l.label("particle update"); Report z(V2d(g.n() * 20, g.n() * 20), spd2(g, 100, 4000), 1e-6); p->correct(z, s); put(); p->linear_update(M4d::Identity(), M4d::Zero()); p->missed(s); put(); p->resample(); put(); }
    p->transform_to_global(); l.label("particle boxes"); put(); for (int q = 0; q < 2; ++q) { l.put(p->aabbox.min[q]); l.put(p->aabbox.max[q]); } l.put(p->bbox.corners);
    if (join) { l.label("particle join"); std::vector<PF> v; for (int k = 0; k < 3; ++k) { v.push_back(*mk()); } Eigen::Array<double, 1, 3> w; w << 0.2, 0.5, 0.3; PF::join(*p, w, v); put(); }
}

static void m02(H::Ctx& c) {
    auto& g = c.rng;
    bool vg = c.mode == "M02V";
    GenOpt o; o.hostile = g.p(0.25); o.swarm = !vg && g.p(0.08); o.maxops = vg ? 7 : 14; o.maxtruth = g.pick<int>({2, 5, 10}); o.lmax = 3000;
    Script s = script(g, o); if (s.par.nhyp_max > 50) { s.par.nhyp_max = 50; }
    cf::LL org = origin(g); uint64_t sub = g.next(), rd = g.next();
    int kind = g.i(0, 9);
    auto body = [&](Log& l) {
        H::Rng h(sub);
        if (kind < 6) { tracker_run(h, s, org, vg ? 25 : 200, l); }
        else if (kind == 6) { solver_run(h, l); }
        else if (kind == 7) { index_run(h, l); }
        else { particle_run<lmb::PF<4, 300>>(h, l, kind == 8); }
    };
    std::vector<int> fills = vg ? std::vector<int>{-1} : std::vector<int>{0, 0xff, 0x7f, 256, 257, 258};
    Log first;
    auto run = [&](Log& l, int fill) {
        omp_set_num_threads(1); int used = 0; arena();
#pragma omp parallel for
        for (int k = 0; k < 2; ++k) { used += k; }      // the runtime has set itself up before memory is tampered with
        H::rd_state() = rd; g_fs = 1; g_fill = fill; paint_stack(); body(l); g_fill = -1; };
    arena();
    // a child process for each: the same addresses and fresh random generators every time
    int fds[8]; pid_t pids[8];
    for (size_t f = 0; f < fills.size() && !vg; ++f) {
        int fd[2]; if (pipe(fd)) { fprintf(stderr, "pipe failed\n"); exit(3); }
        pid_t pid = fork(); if (pid < 0) { fprintf(stderr, "fork failed\n"); exit(3); }
        if (!pid) {
            H::arm(H::opts().hang); close(fd[0]); Log l; l.v.reserve(1 << 18); run(l, fills[f]); l.v.push_back(g_filled);
            auto out = [&](const void* p, size_t n) { auto* b = static_cast<const char*>(p); while (n) { ssize_t w = write(fd[1], b, n); if (w <= 0) { _exit(4); } b += w; n -= w; } };
            uint64_t n = l.v.size(), m = l.at.size(); out(&n, 8); out(l.v.data(), 8 * n); out(&m, 8);
            for (auto& a : l.at) { uint64_t h[2] = {a.first, a.second.size()}; out(h, 16); out(a.second.data(), h[1]); }
            _exit(0);
        }
        close(fd[1]); fds[f] = fd[0]; pids[f] = pid;
    }
    std::string bad;
    for (size_t f = 0; f < fills.size(); ++f) {
        Log l;
        if (vg) { std::thread th([&] { run(l, fills[f]); }); th.join(); }       // a fresh thread has fresh random generators
        else {
            bool ok = true; int fd = fds[f];
            auto in = [&](void* p, size_t n) { auto* b = static_cast<char*>(p); while (n && ok) { ssize_t r = read(fd, b, n); if (r <= 0) { ok = false; } else { b += r; n -= r; } } };
            uint64_t n = 0, m = 0; in(&n, 8); if (ok) { l.v.resize(n); in(l.v.data(), 8 * n); in(&m, 8); for (uint64_t k = 0; k < m && ok; ++k) { uint64_t h[2] = {0, 0}; in(h, 16); std::string w(ok ? h[1] : 0, ' '); in(&w[0], w.size()); l.at.emplace_back(h[0], w); } }
            close(fd); int st = 0; waitpid(pids[f], &st, 0);
            if (!ok || st) { if (bad.empty()) { bad = cat("with fresh memory filled by pattern ", fills[f], " the run ended ", WIFSIGNALED(st) ? cat("by signal ", WTERMSIG(st)) : cat("with status ", WEXITSTATUS(st))); } continue; }
            c.count("allocations_filled", l.v.back()); l.v.pop_back();
        }
        c.count("runs"); c.count("values", l.v.size());
        if (f == 0) { first = std::move(l); continue; }
        size_t n = std::min(first.v.size(), l.v.size()), k = 0; while (k < n && first.v[k] == l.v[k]) { ++k; }
        if (k < n || first.v.size() != l.v.size()) {
            auto d = [](uint64_t b) { double x; memcpy(&x, &b, 8); return x; };
            c.fail("memory-content", cat("with fresh memory filled by pattern ", fills[f], " instead of ", fills[0], " the run differs at: ", k < n ? first.where(k) : "its length", k < n ? cat(" (", d(first.v[k]), " and ", d(l.v[k]), ")") : "")); bad = " "; for (size_t r = f + 1; r < fills.size(); ++r) { kill(pids[r], SIGKILL); close(fds[r]); waitpid(pids[r], nullptr, 0); } break;
        }
    }
    if (!bad.empty()) { if (bad != " ") { c.fail("memory-content-crash", bad); } return; }
    c.count(kind < 6 ? "histories" : kind == 6 ? "solvers" : kind == 7 ? "indexes" : "particles");
    if (!first.v.empty()) { for (size_t k = 0; k < first.v.size(); k += 1 + first.v.size() / 50) { c.mark(first.v[k]); } }
    if (c.cas < 16) { c.sample(cat(first.v.size(), " values identical under ", fills.size(), " memory contents")); }
}

// ---- M01: copies of what the tracker hands out outlive it
static void m01(H::Ctx& c) {
    auto& g = c.rng;
    GenOpt o; o.hostile = g.p(0.3); o.maxops = 10; o.maxtruth = g.pick<int>({2, 6, 12}); o.lmax = 3000;
    Script s = script(g, o); if (s.par.nhyp_max > 50) { s.par.nhyp_max = 50; }
    cf::LL org = origin(g);
    auto t = std::make_unique<Tracker>(s.par);
    std::vector<Tracker::TargetSummaries> lists; std::vector<std::vector<Snap>> snaps; std::vector<Scan> scans; std::vector<PDF> pdfs; std::vector<std::vector<Comp>> pcomps; std::vector<std::string> texts;
    std::vector<Target*> owned;
    Log l0; auto logl = [](Log& l, const Tracker::TargetSummaries& v) { for (auto& x : v) { l.put(x); } };
    for (auto& op : s.ops) {
        if (t->targettree.targets.size() > 40) { break; }
        Scan z; play_any(*t, op, org, z);
        lists.push_back(g.p(0.5) ? t->get_targets() : t->get_targets(region(g, org, s.radius))); logl(l0, lists.back());
        if (!lists.back().empty()) {
            // copies of summaries and of single objects, rearranged as containers do
            Tracker::TargetSummaries a = lists.back(); auto b = std::make_unique<Tracker::TargetSummaries>(a); a.clear(); a.shrink_to_fit(); for (auto& x : *b) { a.push_back(x); } b.reset();
            lists.push_back(a); logl(l0, a);
            auto one = std::make_unique<lmb::TargetSummary_<4>>(a[g.i(0, a.size() - 1)]); auto two = std::make_unique<lmb::TargetSummary_<4>>(*one);
            double r = one->r; one->w = -1; one.reset(); if (!(two->r == r && two->w == r)) { c.fail("summary-copy", cat("a copied summary reports r=", two->r, " w=", two->w, ", was ", r)); return; }
            two->r = 0.25; if (two->w != 0.25) { c.fail("summary-copy", "writing the probability of a copied summary went elsewhere"); return; }
            c.count("summaries_copied", a.size());
        }
        scans.push_back(z); Scan moved = std::move(z); scans.push_back(moved); for (auto& r : moved) { l0.put(r.x); l0.put(r.P); l0.put(r.cid); }
        if (!t->targettree.targets.empty()) {
            auto* x = t->targettree.targets[g.i(0, t->targettree.targets.size() - 1)];
            pdfs.push_back(x->pdf); PDF q(x->pdf); q.normalize(); pdfs.push_back(std::move(q)); PDF e; e = pdfs[g.i(0, pdfs.size() - 1)]; pdfs.push_back(e); if (g.p(0.3)) { pdfs.erase(pdfs.begin() + g.i(0, pdfs.size() - 1)); }
            auto sum = x->summary(); c.mark(static_cast<double>(sum.w)); c.count("densities_copied", 3);
        }
        texts.push_back(lmb::print(*t));
        if (g.p(0.1)) { for (auto& p : pdfs) { pcomps.emplace_back(); comps(p, pcomps.back()); } }
        c.count("operations");
    }
    std::vector<std::vector<Comp>> before; for (auto& p : pdfs) { before.emplace_back(); comps(p, before.back()); }
    c.count("targets_freed", t->targettree.targets.size());
    t.reset();
    Log l1; size_t q = 0; for (auto& v : lists) { logl(l1, v); q += v.size(); }
    Log l2; logl(l2, Tracker::TargetSummaries()); for (size_t k = 0; k < pdfs.size(); ++k) { std::vector<Comp> now; comps(pdfs[k], now); if (now.size() != before[k].size()) { c.fail("density-copy", "a copied density changed with the tracker"); return; } for (size_t i = 0; i < now.size(); ++i) { if (memcmp(now[i].x.data(), before[k][i].x.data(), 32) || memcmp(now[i].P.data(), before[k][i].P.data(), 128) || memcmp(&now[i].w, &before[k][i].w, 8)) { c.fail("density-copy", "a copied density changed with the tracker"); return; } } if (!pdfs[k].c.empty()) { pdfs[k].mean(); pdfs[k].cov(); } }
    c.count("kept_summaries", q);
    // particle densities, trees and solvers built, copied, moved and dropped in odd orders
    Log x; if (g.p(0.1)) { particle_run<lmb::PF<4, 200>>(H::Rng(g.next()), x, true); c.count("particles"); } index_run(H::Rng(g.next()), x); if (g.p(0.3)) { solver_run(H::Rng(g.next()), x); }
}
int main(int argc, char** argv) { return H::run(argc, argv, "mem", [](H::Ctx& c) { if (c.mode == "M01") { m01(c); } else { m02(c); } }); }

// Sees the C++ objects behind the Python ones: fields read directly, methods called directly, twins driven with plain numbers.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <thread>
#include "pair.hpp"
#include "pf.hpp"

namespace py = pybind11;
using lmb::BBox; using lmb::AABBox;
using Summary = lmb::TargetSummary_<4>;
using V = std::vector<double>;
template<typename M> V vec(const M& m) { return V(m.data(), m.data() + m.size()); }
template<typename M> M mat(const V& v) { M m; if (v.size() != static_cast<size_t>(m.size())) { throw std::runtime_error("size"); } std::copy(v.begin(), v.end(), m.data()); return m; }
// in a thread of its own, whose random generator is freshly seeded
template<typename F> auto fresh(F f) { decltype(f()) r; std::thread([&] { r = f(); }).join(); return r; }
template<typename T> std::string text(const T& o) { std::ostringstream s; s << o; return s.str(); }

static py::tuple gauss(const T::Gaussian& g) { return py::make_tuple(vec(g.x), vec(g.P), g.w); }
static py::list components(const T::PDF& p) { py::list l; for (auto& g : p.c) { l.append(gauss(g)); } return l; }
static py::tuple target(const T::Target& t) { return py::make_tuple(t.id, t.cid, t.r, std::string(1, static_cast<char>(t.last_action)), components(t.pdf)); }

struct Twin {
    T::Tracker t; T::Script s; cf::LL o; T::Scan z; T::Pairing pair; T::Op last; size_t k = 0;
    explicit Twin(const T::Script& s_, const cf::LL& o_) : t(s_.par), s(s_), o(o_) {}
};
struct Story {
    T::Script s; cf::LL o;
    Story(uint64_t seed, double la, double lo, int maxops, bool far) {
        H::Rng g(seed); o << la, lo;
        T::GenOpt q; q.partial = false; q.maxops = maxops; q.minops = std::min(q.minops, maxops); s = T::script(g, q);
        // some corrections look elsewhere altogether
        if (far) { for (auto& op : s.ops) { if (op.k == T::Op::COR && g.p(0.2)) { op.fn = op.fe = s.radius; op.fc << 40 * s.radius, 0; if (g.p(0.5)) { op.rep.clear(); } } } }
    }
};
using PF = lmb::PF<4, 24>;
static lmb::Params pfpar;

PYBIND11_MODULE(observer, m) {
    m.def("raw", [](const lmb::Params& p) { return V{p.w_lim, p.r_lim, p.nhyp_max, p.rB_max, p.nstd, p.cw_lim, p.cov_lim, p.tscale}; });
    m.def("raw", [](const T::Sensor& s) { V v = vec(s.fov.corners), w = vec(s.pv); v.insert(v.end(), w.begin(), w.end()); v.push_back(s.lambdaB); v.push_back(s.pD_); v.push_back(s.kappa_); return v; });
    m.def("raw", [](const lmb::NM<T::Target>& s) { V v = vec(s.Q); v.push_back(s.pS); return v; });
    m.def("raw", [](const lmb::CV<T::Target>& s) { return V{s.pS, s.q}; });
    m.def("raw", [](const BBox& b) { return vec(b.corners); });
    m.def("raw", [](const AABBox& b) { return V{b.min[0], b.min[1], b.max[0], b.max[1]}; });
    m.def("raw", [](const Summary& s) { V v = vec(s.x), w = vec(s.P); v.insert(v.end(), w.begin(), w.end()); v.push_back(s.w); v.push_back(s.r); v.push_back(s.id); v.push_back(s.cid); return v; });
    m.def("raw", [](const T::Report& s) { V v = vec(s.x), w = vec(s.P); v.insert(v.end(), w.begin(), w.end()); v.push_back(s.kappa); v.push_back(s.cid); return v; });
    m.def("raw", [](const T::Gaussian& s) { V v = vec(s.x), w = vec(s.P); v.insert(v.end(), w.begin(), w.end()); v.push_back(s.w); return v; });
    m.def("params", [](const T::Tracker& t) { auto& p = t.params; return V{p.w_lim, p.r_lim, p.nhyp_max, p.rB_max, p.nstd, p.cw_lim, p.cov_lim, p.tscale}; });
    m.def("text", [](const BBox& b) { return text(b); }); m.def("text", [](const AABBox& b) { return text(b); });
    m.def("text", [](const Summary& b) { return text(b); }); m.def("text", [](const T::Report& b) { return text(b); });
    m.def("text", [](const T::Gaussian& b) { return text(b); }); m.def("text", [](const T::Tracker& t) { return text(t); });
    m.def("text", [](const std::vector<T::Report>& b) { return text(b); });
    m.def("summary", [](const V& x, const V& P, double w, unsigned id, unsigned cid) { return Summary(mat<T::V4d>(x), mat<T::M4d>(P), w, id, cid); });
    m.def("set_report", [](T::Report& r, double rB, unsigned cid) { r.rB = rB; r.cid = cid; });
    // geometry, called directly
    m.def("nebbox", [](const Summary& s, const cf::LL& o, double n) { return vec(s.nebbox(o, n).corners); });
    m.def("nebbox", [](const T::Report& s, const cf::LL& o, double n) { return vec(s.nebbox(o, n).corners); });
    m.def("nebbox", [](const BBox& b, const cf::LL& o) { return vec(b.nebbox(o).corners); });
    auto aa = [](const AABBox& b) { return V{b.min[0], b.min[1], b.max[0], b.max[1]}; };
    m.def("llaabbox", [=](const AABBox& b, const cf::LL& o) { return aa(b.llaabbox(o)); });
    m.def("neaabbox", [=](const AABBox& b, const cf::LL& o) { return aa(b.neaabbox(o)); });
    m.def("aabbox", [=](const BBox& b) { return aa(b.aabbox()); });
    m.def("from_gaussian", [](const V& x, const V& P, double n) { BBox b; b.from_gaussian(mat<T::V2d>(x), mat<T::M2d>(P), n); return vec(b.corners); });
    m.def("cf", [](const std::string& f, const V& a, const V& b) -> V {
        cf::LL la, lb; cf::LLA wa, wb; auto as = [](auto& x, const V& v) { for (int i = 0; i < x.size(); ++i) { x[i] = i < static_cast<int>(v.size()) ? v[i] : 0; } };
        as(la, a); as(lb, b); as(wa, a); as(wb, b); cf::ECEF ea; as(ea, a); cf::NED na; as(na, a); cf::NE ne; as(ne, a);
        if (f == "nedrot") { return vec(cf::nedrot(wa)); } if (f == "lla2ecef") { return vec(cf::lla2ecef(wa)); }
        if (f == "ecef2ned") { return vec(cf::ecef2ned(ea, wb)); } if (f == "lla2ned") { return vec(cf::lla2ned(wa, wb)); }
        if (f == "ecef2lla") { return vec(cf::ecef2lla(ea)); } if (f == "ned2ecef") { return vec(cf::ned2ecef(na, wb)); }
        if (f == "ned2lla") { return vec(cf::ned2lla(na, wb)); } if (f == "nerot") { return vec(cf::nerot(la)); }
        if (f == "ll2ecef") { return vec(cf::ll2ecef(la)); } if (f == "ecef2ne") { return vec(cf::ecef2ne(ea, lb)); }
        if (f == "ll2ne") { return vec(cf::ll2ne(la, lb)); } if (f == "ecef2ll") { return vec(cf::ecef2ll(ea)); }
        if (f == "ne2ecef") { return vec(cf::ne2ecef(ne, lb)); } if (f == "ne2ll") { return vec(cf::ne2ll(ne, lb)); }
        throw std::runtime_error(f);
    });
    // the tracker's own answers
    m.def("targets", [](const T::Tracker& t) { py::list l; for (auto* p : t.targettree.targets) { l.append(target(*p)); } return l; });
    auto sums = [](const lmb::TargetSummaries_<4>& v) { py::list l; for (auto& s : v) { l.append(py::make_tuple(vec(s.x), vec(s.P), s.w, s.id, s.cid)); } return l; };
    m.def("get_targets", [=](T::Tracker& t) { return sums(t.get_targets()); });
    m.def("get_targets", [=](T::Tracker& t, const V& b) { return sums(t.get_targets(AABBox(b[0], b[1], b[2], b[3]))); });
    m.def("enof", [](T::Tracker& t) { return t.enof_targets(); });
    m.def("enof", [](T::Tracker& t, const V& b) { return t.enof_targets(AABBox(b[0], b[1], b[2], b[3])); });
    m.def("nof", [](T::Tracker& t, double r) { return t.nof_targets(r); });
    m.def("nof", [](T::Tracker& t, const V& b, double r) { return t.nof_targets(AABBox(b[0], b[1], b[2], b[3]), r); });
    m.def("pos_phd", [](T::Tracker& t, const V& b, int n, int e) { return fresh([&] { auto r = t.pos_phd(AABBox(b[0], b[1], b[2], b[3]), Eigen::Array2i(n, e)); std::vector<V> o(n, V(e)); if (r.rows() != n || r.cols() != e) { throw std::runtime_error("shape"); } for (int i = 0; i < n; ++i) { for (int j = 0; j < e; ++j) { o[i][j] = r(i, j); } } return o; }); });
    m.def("score", [](T::Tracker& t, const std::vector<V>& truth, double c, double p, bool g) { T::Tracker::TargetStates s; for (auto& v : truth) { s.push_back(mat<T::V4d>(v)); } return g ? t.gospa(s, c, p) : t.ospa(s, c, p); });
    m.def("diag", [](const T::Tracker& t) { return py::make_tuple(t.cluster_ntargets, t.cluster_nreports, t.cluster_nhyps, t.nof_clusters); });
    // histories
    py::class_<Story>(m, "Story").def(py::init<uint64_t, double, double, int, bool>())
        .def("params", [](Story& s) { auto& p = s.s.par; return V{p.w_lim, p.r_lim, p.nhyp_max, p.rB_max, p.nstd, p.cw_lim, p.cov_lim, p.tscale}; })
        .def("__len__", [](Story& s) { return s.s.ops.size(); })
        .def("radius", [](Story& s) { return s.s.radius; })
        .def("add", [](Story& s, size_t k, T::Tracker& t) { auto& op = s.s.ops[k]; if (op.k != T::Op::ADD) { return false; } T::add(t, &t.params, op.r, op.c, s.o); return true; })
        .def("op", [](Story& s, size_t k) -> py::tuple {
            auto& op = s.s.ops[k];
            if (op.k == T::Op::CV) { return py::make_tuple("cv", op.pS, op.q, op.t1, op.t0); }
            if (op.k == T::Op::NM) { return py::make_tuple("nm", op.pS, vec(op.Q), op.t1, op.t0); }
            if (op.k != T::Op::COR) { return py::make_tuple("add"); }
            auto x = T::sensor<T::Sensor>(op, s.o); py::list z;
            for (auto& r : T::scan(op, s.o)) { z.append(py::make_tuple(vec(r.x), vec(r.P), r.kappa)); }
            return py::make_tuple("cor", vec(x.fov.corners), x.lambdaB, x.pD_, vec(x.pv), z, op.t1);
        });
    py::class_<Twin>(m, "Twin").def(py::init([](const Story& s) { return new Twin(s.s, s.o); }))
        .def("step", [](Twin& w, T::Tracker& other) {
            auto& op = w.last = w.s.ops[w.k]; w.pair.before(other, op, w.k, w.o); ++w.k;
            fresh([&] { T::play<T::Sensor>(w.t, op, w.o, w.z); return 0; }); })
        // after both have made the step: '' or what differs
        .def("compare", [](Twin& w, const T::Tracker& other, const std::vector<T::Report>& scan) -> py::tuple {
            std::vector<int> perm(scan.size()); std::iota(perm.begin(), perm.end(), 0);
            T::View a = T::view(other, scan), b = T::view(w.t, w.z);
            std::string key, why;
            if (scan.size() != w.z.size()) { key = "scan"; why = "the scan returned has another length"; } else { why = w.pair.compare(a, b, w.last, perm, key); }
            if (!why.empty() && w.pair.tied(w.s, w.o, a.t, b.t)) { return py::make_tuple("tied", why); }
            return py::make_tuple(why.empty() ? "" : key, why); })
        .def("compared", [](Twin& w) { return py::make_tuple(w.pair.targets, w.pair.reports, w.pair.births); });
    // text forms
    m.def("local_text", [](T::Tracker& t, const cf::LL& o) {
        // as the example program prints it: positions in metres around o; the tracker is put back afterwards
        std::vector<T::PDF> keep; for (auto* p : t.targettree.targets) { keep.push_back(p->pdf); p->transform_to_local(o); }
        py::list l; for (auto* p : t.targettree.targets) { l.append(target(*p)); }
        std::string s = text(t); size_t k = 0;
        for (auto* p : t.targettree.targets) { p->pdf = keep[k++]; }
        return py::make_tuple(s, l); });
    m.def("target_text", [](const V& rs, unsigned id, unsigned cid, char la, const std::vector<std::tuple<V, V, double>>& c) {
        lmb::Params par; T::PDF pdf(&par); for (auto& q : c) { pdf.c.emplace_back(mat<T::V4d>(std::get<0>(q)), mat<T::M4d>(std::get<1>(q)), std::get<2>(q)); }
        T::Target t(rs[0], std::move(pdf), &par, 0); t.id = id; t.cid = cid; t.last_action = static_cast<lmb::Action>(la);
        return py::make_tuple(text(t), text(t.pdf)); });
    m.def("cluster_text", [](std::vector<T::Report> z, const std::vector<std::tuple<double, unsigned, V, V>>& c, const cf::LL& o) {
        lmb::Params par; std::vector<std::unique_ptr<T::Target>> own; std::vector<T::Target*> ts; std::vector<T::Report*> rs;
        for (auto& r : z) { rs.push_back(&r); }
        for (auto& q : c) { own.emplace_back(new T::Target(std::get<0>(q), T::PDF(&par, mat<T::V4d>(std::get<2>(q)), mat<T::M4d>(std::get<3>(q))), &par, 0)); own.back()->id = std::get<1>(q); ts.push_back(own.back().get()); }
        lmb::Cluster_<T::Report, T::Target> cl(0, rs, ts, &par);
        py::list l, r; for (auto* p : ts) { l.append(target(*p)); } for (auto* p : rs) { r.append(py::make_tuple(vec(p->x), vec(p->P))); }
        return py::make_tuple(text(cl), r, l); });
    m.def("pf_text", [](const V& w, const std::vector<V>& x, unsigned id, double r) {
        auto p = std::make_unique<PF>(); p->params = &pfpar; p->w.setZero(); p->x.setZero();
        for (size_t i = 0; i < w.size(); ++i) { p->w[i] = w[i]; for (int d = 0; d < 4; ++d) { p->x(d, i) = x[i][d]; } }
        lmb::Target_<PF> t; t.pdf = *p; t.id = id; t.r = r; t.cid = 3;
        return py::make_tuple(text(*p), text(t), static_cast<int>(PF::PARTICLES)); });
    m.def("stream_state", [](const T::Tracker& t, const BBox& b, const Summary& s) {
        // printing must leave the stream as it was
        std::ostringstream o; o.precision(4); o << std::fixed; auto f = o.flags(); auto p = o.precision();
        o << t << b << s; return o.flags() == f && o.precision() == p; });
}

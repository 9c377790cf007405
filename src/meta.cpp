// F13: paired runs of one scenario, the second moved in longitude, mirrored north-south, or with its reports reordered.
#include "pair.hpp"
using namespace T;
using H::cat;

struct Move { double dlon = 0; bool mirror = false, permute = false; };
static Op moved(const Op& a, const Move& m) {
    Op b = a;
    if (!m.mirror) { return b; }
    const V4d d(-1, 1, -1, 1);
    for (auto& k : b.c) { k.x = k.x.cwiseProduct(d); k.P = (d.asDiagonal() * k.P * d.asDiagonal()).eval(); }
    b.Q = (d.asDiagonal() * a.Q * d.asDiagonal()).eval();
    for (auto& r : b.rep) { r.z[0] = -r.z[0]; r.P(0, 1) = -r.P(0, 1); r.P(1, 0) = -r.P(1, 0); }
    b.pv(0, 1) = -b.pv(0, 1); b.pv(1, 0) = -b.pv(1, 0);
    b.fc[0] = -b.fc[0]; b.fth = -b.fth;
    return b;
}
// back into the frame of the first run
static Snap back(Snap s, const Move& m) {
    const V4d d(-1, 1, -1, 1);
    for (auto& k : s.c) {
        if (m.mirror) { k.x[0] = -k.x[0]; k.x[2] = -k.x[2]; k.P = (d.asDiagonal() * k.P * d.asDiagonal()).eval(); }
        k.x[1] -= m.dlon;
    }
    Box b = s.aabb;
    if (m.mirror) { s.aabb.min[0] = -b.max[0]; s.aabb.max[0] = -b.min[0]; }
    s.aabb.min[1] -= m.dlon; s.aabb.max[1] -= m.dlon;
    return s;
}
static void f13(H::Ctx& c) {
    auto& g = c.rng;
    GenOpt o; o.maxops = g.p(0.2) ? 20 : 10; o.maxtruth = g.pick<int>({2, 4, 7}); o.lmax = g.p(0.1) ? 60000 : 3000;
    bool exact = g.p(0.5);
    Script s = script(g, o);
    if (exact) { s.par.w_lim = 0; s.par.nhyp_max = 1e9; }
    for (auto& op : s.ops) { if (op.rep.size() > (exact ? 4u : 8u)) { op.rep.resize(exact ? 4 : 8); } }
    Move m;
    int kind = g.i(1, 7);
    cf::LL oa, ob; oa << g.u(-72, 72), g.u(-160, 160); ob = oa;
    if (g.p(0.1)) { oa[0] = ob[0] = g.u(-0.02, 0.02); }       // across the equator
    if (kind & 1) { ob[1] = g.p(0.3) ? g.u(-0.02, 0.02) : g.u(-160, 160); m.dlon = ob[1] - oa[1]; }
    if (kind & 2) { m.mirror = true; ob[0] = -oa[0]; }
    if (kind & 4) { m.permute = true; }
    const char* names[] = {"", "shift", "mirror", "shift+mirror", "order", "shift+order", "mirror+order", "all"};
    Tracker ta(s.par), tb(s.par);
    Pairing pr; pr.mirror = m.mirror;
    for (size_t k = 0; k < s.ops.size(); ++k) {
        if (ta.targettree.targets.size() > (exact ? 6u : 40u)) { break; }
        Op a = s.ops[k], b = moved(a, m);
        std::vector<int> perm(a.rep.size()); for (size_t j = 0; j < perm.size(); ++j) { perm[j] = j; }
        if (m.permute) { g.shuffle(perm); }
        for (size_t j = 0; j < perm.size(); ++j) { b.rep[j] = moved(a, m).rep[perm[j]]; }
        Scan za, zb;
        pr.before(ta, a, k, oa);
        play<DetSensor>(ta, a, oa, za); play<DetSensor>(tb, b, ob, zb);
        View va = view(ta, za), vb = view(tb, zb);
        for (auto& q : vb.t) { q = back(q, m); }
        c.count("steps"); if (a.k == Op::COR) { c.count("corrections"); }
        std::string key, why = pr.compare(va, vb, a, perm, key);
        if (!why.empty()) {
            if (pr.tied(s, oa, va.t, vb.t)) { c.count("tied"); return; }
            c.fail(key, cat(names[kind], ": ", why, "; operation ", k, " ", str(s.ops[k]), "; origin ", oa[0], ",", oa[1], " moved to ", ob[0], ",", ob[1], " cw_lim=", s.par.cw_lim, " r_lim=", s.par.r_lim, " cov_lim=", s.par.cov_lim, "\nfirst:\n", str(snap(ta)), "second:\n", str(snap(tb))));
            return;
        }
        for (auto& q : va.t) { c.mark(q.r); }
    }
    c.count("births", pr.births); c.count("targets", pr.targets); c.count("reports", pr.reports); c.maxi("existence_difference", pr.maxdiff);
    c.mark(H::hashs(names[kind])); c.count(names[kind]);
    if (c.cas < 16) { c.sample(cat(names[kind], " of a history of ", s.ops.size(), " operations at ", oa[0], ",", oa[1], ": ", ta.targettree.targets.size(), " targets at the end")); }
}

int main(int argc, char** argv) { return H::run(argc, argv, "meta", f13); }

// S01: the spatial index against a multiset model, after every operation.
#include "common.hpp"
#include <algorithm>
#include <cassert>
#include <limits>
#include "RTree.h"
using H::cat;

struct Ent { double lo[2], hi[2]; long id; };
static bool meet(const Ent& a, const Ent& b) { for (int k = 0; k < 2; ++k) { if (a.hi[k] < b.lo[k] || b.hi[k] < a.lo[k]) { return false; } } return true; }
static std::string str(const Ent& e) { return cat("#", e.id, " [", e.lo[0], ",", e.hi[0], "]x[", e.lo[1], ",", e.hi[1], "]"); }
struct Key { long id; double v[4]; bool operator<(const Key& o) const { return id != o.id ? id < o.id : std::lexicographical_compare(v, v + 4, o.v, o.v + 4); } bool operator==(const Key& o) const { return id == o.id && std::equal(v, v + 4, o.v); } };
static Key key(const Ent& e) { return {e.id, {e.lo[0], e.lo[1], e.hi[0], e.hi[1]}}; }

struct Col { std::vector<long> ids; size_t stop; };
// identities are stored as pointers, as the tracker does
// (the index also takes plain numbers smaller than a pointer, and coarser coordinates)
template<typename Id> static Id toid(long v) { return (Id)v; }
template<typename Id> static long fromid(Id v) { return (long)v; }

template<typename Id, typename EL, int MAX, int MIN> struct Drive {
    using Tree = RTree<Id, EL, 2, double, MAX, MIN>;
    struct Edge { EL v[2]; explicit Edge(const double* d) : v{static_cast<EL>(d[0]), static_cast<EL>(d[1])} {} operator const EL*() const { return v; } };
    static bool cb(Id d, void* c) { auto* k = static_cast<Col*>(c); k->ids.push_back(fromid(d)); return k->ids.size() < k->stop; }
    H::Ctx& c; H::Rng& g; std::vector<Ent> model; std::string hist; double scale; int shape;
    long next = 1;
    explicit Drive(H::Ctx& c_) : c(c_), g(c_.rng) {
        scale = g.pick<double>({1, 90, 180, 1e-4, 1e-9, 1e4}); shape = g.i(0, 6);
        if (g.p(0.06) && sizeof(EL) == 8) { scale = g.pick<double>({1e9, 1e12, 1e-200, 1e160}); }
    }
    double grid() { return scale * g.i(-8, 8) / 8.0; }
    Ent rect() {
        Ent e; int s = shape == 6 ? g.i(0, 5) : shape;
        for (int k = 0; k < 2; ++k) {
            double a, b;
            switch (s) {
                case 0: a = g.u(-scale, scale); b = a + g.u(0, 0.05) * scale; break;      // small boxes
                case 1: a = b = grid(); break;                                           // points on a grid
                case 2: a = grid(); b = grid(); break;                                   // grid boxes sharing edges
                case 3: a = g.u(-scale, scale); b = k ? a : a + g.u(0, 1) * scale; break;    // segments
                case 4: a = -scale; b = scale; break;                                    // all identical
                default: a = g.u(-scale, scale); b = g.u(-scale, scale);                 // large overlapping boxes
            }
            if (g.p(shape == 6 ? 0.01 : 0)) { a = -std::numeric_limits<double>::infinity(); }
            if (g.p(shape == 6 ? 0.01 : 0)) { b = std::numeric_limits<double>::infinity(); }
            e.lo[k] = static_cast<EL>(std::min(a, b)); e.hi[k] = static_cast<EL>(std::max(a, b));
        }
        e.id = next++;
        return e;
    }
    void bad(const char* k, const std::string& m) { c.fail(k, cat(m, "; ", model.size(), " entries of ", sizeof(Id), " bytes, nodes of ", MAX, "/", MIN, ", scale ", scale, ", shape ", shape, "; last operations: ", hist.size() > 600 ? hist.substr(hist.size() - 600) : hist)); }
    bool query(Tree& t, const Ent& q, size_t stop) {
        Col k{{}, stop}; int n = t.Search(Edge(q.lo), Edge(q.hi), cb, &k);
        std::vector<long> want; for (auto& e : model) { if (meet(e, q)) { want.push_back(e.id); } }
        std::sort(want.begin(), want.end());
        c.count("searches"); c.count("visits", k.ids.size());
        if (n != static_cast<int>(k.ids.size())) { bad("visit-count", cat("Search reported ", n, " entries but visited ", k.ids.size())); return false; }
        auto got = k.ids; std::sort(got.begin(), got.end());
        if (want.size() < stop) {
            if (got != want) { bad("search", cat("a search of ", str(q), " visited ", got.size(), " entries, expected ", want.size())); return false; }
        } else {
            c.count("early_stops");
            if (got.size() != stop) { bad("early-stop", cat("asked to stop after ", stop, " of ", want.size(), ", visited ", got.size())); return false; }
            if (!std::includes(want.begin(), want.end(), got.begin(), got.end())) { bad("early-stop", "an interrupted search visited a wrong or repeated entry"); return false; }
        }
        return true;
    }
    bool whole(Tree& t, const char* what) {
        int n = t.Count();
        if (n != static_cast<int>(model.size())) { bad("count", cat(what, "Count is ", n, ", expected ", model.size())); return false; }
        std::vector<Key> want, got;
        for (auto& e : model) { want.push_back(key(e)); }
        typename Tree::Iterator it; t.GetFirst(it);
        int style = g.i(0, 1);
        while (!(style ? t.IsNull(it) : it.IsNull())) {
            Ent e; e.id = fromid<Id>(style ? t.GetAt(it) : *it); EL lo[2], hi[2]; it.GetBounds(lo, hi); for (int k = 0; k < 2; ++k) { e.lo[k] = lo[k]; e.hi[k] = hi[k]; } got.push_back(key(e));
            if (got.size() > model.size() + 5) { break; }
            if (style) { t.GetNext(it); } else { ++it; }
        }
        std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
        c.count("iterations"); c.count("iterated", got.size());
        if (!(got == want)) { bad("iteration", cat(what, "iteration gave ", got.size(), " entries (or other boxes), expected ", want.size())); return false; }
        return true;
    }
    void go() {
        Tree* t = new Tree;
        int target = g.pick<int>({0, 3, MAX, MAX + 1, 40, 150, c.thorough ? 3000 : 500});
        int steps = g.i(20, 120) + target * 2;
        double every = std::min(1.0, 60.0 / (target + 1));
        bool ok = true; size_t biggest = 0;
        for (int s = 0; s < steps && ok; ++s) {
            double r = g.u();
            bool grow = static_cast<int>(model.size()) < target ? g.p(0.8) : g.p(0.3);
            if (r < 0.72) {
                if (grow || model.empty()) {
                    Ent e = rect();
                    // the same entry (identity and box) may be inserted more than once
                    if (!model.empty() && g.p(0.08)) { e = g.pick(model); c.count("repeated"); } else if (!model.empty() && g.p(0.05)) { long id = e.id; e = g.pick(model); e.id = id; }
                    t->Insert(Edge(e.lo), Edge(e.hi), toid<Id>(e.id)); model.push_back(e); hist += cat(" +", e.id); c.count("insertions");
                } else {
                    size_t k = g.p(0.2) ? model.size() - 1 : g.i(0, model.size() - 1); Ent e = model[k];
                    t->Remove(Edge(e.lo), Edge(e.hi), toid<Id>(e.id)); model.erase(model.begin() + k); hist += cat(" -", e.id); c.count("removals");
                }
            } else if (r < 0.80) {
                // not (or no longer) present, under the box of something that is
                Ent e = model.empty() || g.p(0.3) ? rect() : g.pick(model); e.id = 1000000 + g.i(0, 1000);
                t->Remove(Edge(e.lo), Edge(e.hi), toid<Id>(e.id)); hist += " -absent"; c.count("absent_removals");
                ok = whole(*t, "after the removal of an absent entry, ");
            } else if (r < 0.81) {
                if (target > 60 && !g.p(0.1)) { continue; }
                t->RemoveAll(); model.clear(); hist += " clear"; c.count("clears");
                ok = whole(*t, "after a clear, ");
            } else if (r < 0.83) {
                // drain to (nearly) nothing, one by one, in random order
                if (model.size() > 60 && !g.p(0.1)) { continue; }
                g.shuffle(model); size_t left = g.p(0.5) ? 0 : g.i(0, model.size());
                while (model.size() > left) { Ent e = model.back(); model.pop_back(); t->Remove(Edge(e.lo), Edge(e.hi), toid<Id>(e.id)); c.count("removals"); }
                hist += cat(" drain to ", left); ok = whole(*t, "after draining, ");
            } else if (r < 0.86) {
                std::string f = cat(getenv("HARNESS_SCRATCH") ? getenv("HARNESS_SCRATCH") : "/tmp", "/rt-", getpid(), ".bin");
                if (!t->Save(f.c_str())) { bad("save", "saving failed"); break; }
                hist += " save"; c.count("reloads");
                ok = whole(*t, "after saving, ");
                Tree* u = new Tree; 
                if (g.p(0.5)) { for (int q = g.i(1, 30); q--;) { Ent e = rect(); u->Insert(Edge(e.lo), Edge(e.hi), toid<Id>(e.id)); } }    // loading replaces what was there
                if (!u->Load(f.c_str())) { bad("load", "loading failed"); ok = false; }
                unlink(f.c_str());
                if (ok) { ok = whole(*u, "after reloading, "); }
                if (g.p(0.5)) { std::swap(t, u); }
                delete u;
            }
            biggest = std::max(biggest, model.size());
            if (ok && g.p(every)) {
                ok = whole(*t, "");
                Ent q = g.p(0.2) && !model.empty() ? g.pick(model) : rect();
                if (g.p(0.05)) { q.lo[0] = q.lo[1] = -std::numeric_limits<double>::infinity(); q.hi[0] = q.hi[1] = std::numeric_limits<double>::infinity(); }
                if (g.p(0.1) && !model.empty()) { auto& e = g.pick(model); q.lo[0] = e.hi[0]; q.hi[0] = std::max(q.lo[0], static_cast<double>(static_cast<EL>(e.hi[0] + scale * g.u()))); q.lo[1] = e.lo[1]; q.hi[1] = e.hi[1]; }   // touching edges
                ok = ok && query(*t, q, g.p(0.15) ? g.i(1, 5) : 1u << 30);
            }
        }
        delete t;
        c.maxi("entries", biggest); c.mark(H::mix(biggest) ^ H::hashs(hist));
        if (c.cas < 16) { c.sample(cat("nodes ", MAX, "/", MIN, " scale ", scale, " shape ", shape, ": ", hist.substr(0, 200))); }
    }
};

int main(int argc, char** argv) {
    return H::run(argc, argv, "rtree", [](H::Ctx& c) {
        switch (c.rng.i(0, 7)) {
            case 0: Drive<char*, double, 4, 2>(c).go(); break;
            case 1: Drive<char*, double, 6, 2>(c).go(); break;
            case 2: Drive<char*, double, 16, 4>(c).go(); break;
            case 3: Drive<int, double, 8, 4>(c).go(); break;
            case 4: Drive<long, float, 8, 4>(c).go(); break;
            default: Drive<char*, double, 8, 4>(c).go();
        }
    });
}

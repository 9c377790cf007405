// Shared by every C++ harness: seeding, case loop, violation recording, watchdog, result file.
#pragma once
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace H {
inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hashs(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix(h);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double u(double a, double b) { return a + (b - a) * u(); }
    // inclusive range
    int i(int a, int b) { return a + static_cast<int>(next() % static_cast<uint64_t>(b - a + 1)); }
    bool p(double q) { return u() < q; }
    double n() { double a = u(), b = u(); if (a < 1e-300) { a = 1e-300; } return std::sqrt(-2 * std::log(a)) * std::cos(2 * M_PI * b); }
    double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
    template<typename T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    template<typename T> void shuffle(std::vector<T>& v) { for (size_t k = v.size(); k > 1; --k) { std::swap(v[k - 1], v[next() % k]); } }
};

inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') { o += "\\n"; }
        else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else { o += c; }
    }
    return o;
}

struct Violation { std::string key, msg; long cas; };

struct Result {
    long evaluations = 0;
    std::set<uint64_t> sigs;       // signatures of distinct non-trivial cases
    std::map<std::string, double> counters;
    std::vector<std::string> samples;
    std::vector<Violation> violations;
};
inline Result& result() { static Result r; return r; }

// Deterministic std::random_device: seeds whatever generators the code under test creates.
inline std::atomic<uint64_t>& rd_state() { static std::atomic<uint64_t> s{12345}; return s; }

struct Ctx {
    Rng rng;
    long cas;
    uint64_t seed;
    bool thorough;
    bool replay = false;
    std::string mode;
    bool nontrivial = false;
    uint64_t sig = 0;
    Ctx(uint64_t s, long c, bool t) : rng(s), cas(c), seed(s), thorough(t) {}
    void fail(const std::string& key, const std::string& msg) {
        auto& v = result().violations;
        int same = 0; for (auto& x : v) { same += x.key == key; }
        if (v.size() < 40 && same < 3) { v.push_back({key, msg, cas}); }
        if (replay) { std::cerr << "[" << key << "] " << msg << "\n"; }
    }
    void count(const std::string& k, double d = 1) { result().counters[k] += d; }
    void maxi(const std::string& k, double d) { auto& x = result().counters["max_" + k]; if (d > x) { x = d; } }
    void mark(uint64_t h) { nontrivial = true; sig = mix(sig ^ h); }
    void mark(double d) { uint64_t b; memcpy(&b, &d, 8); mark(b); }
    void mark(const std::string& s) { mark(hashs(s)); }
    void sample(const std::string& s) { auto& v = result().samples; if (v.size() < 3) { v.push_back(s.size() > 900 ? s.substr(0, 900) + "..." : s); } }
};

inline char* cur_path() { static char b[4096]; return b; }
inline volatile long& cur_case() { static volatile long c = -1; return c; }
inline void write_cur(const char* what) {
    char b[128];
    int n = snprintf(b, sizeof b, "%ld %s\n", static_cast<long>(cur_case()), what);
    FILE* f = fopen(cur_path(), "w");
    if (f) { fwrite(b, 1, n, f); fclose(f); }
}
inline void on_hang(int) {
    const char m[] = "HARNESS-HANG\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(97);
}
inline void arm(int cpu_s) {
    struct itimerval t{}; t.it_value.tv_sec = cpu_s;
    setitimer(ITIMER_PROF, &t, nullptr);
}

struct Opts {
    uint64_t seed = 1; long cases = 1, shard = 0, shards = 1, until = -1; bool thorough = false; std::string out, mode; int hang = 100;
};
inline Opts& opts() { static Opts o; return o; }

// fn is called once per case; replaying = the same shard re-run up to and including one case.
int run(int argc, char** argv, const std::string& name, const std::function<void(Ctx&)>& fn);

template<typename... A> std::string cat(const A&... a) { std::ostringstream s; s.precision(17); (void)std::initializer_list<int>{((s << a), 0)...}; return s.str(); }

inline bool close(double a, double b, double rel, double abs_) {
    if (!std::isfinite(a) || !std::isfinite(b)) { return a == b; }
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}
}  // namespace H


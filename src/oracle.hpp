// Reference computations, written from the definitions in long double, independent of the code under test.
// Implemented in support.cpp, which never sees the code under test.
#pragma once
#include "common.hpp"
#include <array>

namespace O {
using ld = long double;
using V2 = std::array<ld, 2>;
using V3 = std::array<ld, 3>;
static const ld PI = 3.14159265358979323846264338327950288L;

struct Mat {
    int r = 0, c = 0;
    std::vector<ld> a;
    Mat() {}
    Mat(int r_, int c_) : r(r_), c(c_), a(r_ * c_, 0) {}
    ld& operator()(int i, int j) { return a[i * c + j]; }
    ld operator()(int i, int j) const { return a[i * c + j]; }
    static Mat eye(int n) { Mat m(n, n); for (int i = 0; i < n; ++i) { m(i, i) = 1; } return m; }
    // any Eigen-like object
    template<typename E> static Mat of(const E& e) { Mat m(e.rows(), e.cols()); for (int i = 0; i < m.r; ++i) { for (int j = 0; j < m.c; ++j) { m(i, j) = static_cast<ld>(e(i, j)); } } return m; }
};
Mat operator*(const Mat& a, const Mat& b);
Mat operator+(const Mat& a, const Mat& b);
Mat operator-(const Mat& a, const Mat& b);
Mat operator*(ld k, const Mat& a);
Mat tr(const Mat& a);
Mat inv(const Mat& a, ld* det = nullptr);
// eigenvalues of a symmetric matrix (Jacobi), ascending; columns of V are the vectors
std::vector<ld> eig(const Mat& a, Mat* V = nullptr);

// WGS-84
V3 lla2ecef(const V3& p);
std::array<V3, 3> nedrot(ld lat, ld lon);      // rows: north, east, down
V3 ecef2lla(const V3& e);
V2 ll2ne(const V2& ll, const V2& o);
V2 ne2ll(const V2& ne, const V2& o);

ld logn(const Mat& d, const Mat& S);           // log N(d; 0, S)
struct KU { Mat x, P; ld loglik = 0; };
KU kalman(const Mat& x, const Mat& P, const Mat& H, const Mat& z, const Mat& R);   // Joseph form

ld ncdf(ld x);
// P(a<X<b, c<Y<d) for a 2-D Gaussian
ld boxprob(const V2& m, const Mat& P, ld a, ld b, ld c, ld d);
// Probability of the interior of a simple polygon under a 2-D Gaussian
ld polyprob(const V2& m, const Mat& P, const std::vector<V2>& poly);

using Table = std::vector<std::vector<ld>>;    // infinite = forbidden
bool assign(const Table& C, std::vector<int>& row2col, ld& cost);
bool matchable(const Table& C);
void all_assignments(const Table& C, const std::function<void(const std::vector<int>&, ld)>& f);

struct DSU {
    std::vector<int> p;
    explicit DSU(int n) : p(n) { for (int i = 0; i < n; ++i) { p[i] = i; } }
    int find(int a) { while (p[a] != a) { p[a] = p[p[a]]; a = p[a]; } return a; }
    void unite(int a, int b) { p[find(a)] = find(b); }
};
}  // namespace O

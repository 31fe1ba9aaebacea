/* Boring dense reference arithmetic: a complex matrix with a plain vector, used as oracle. */
#ifndef REF_H
#define REF_H
#include "mc.h"
#include <complex>
#include <algorithm>
#include "Manifolds/Element.h"
using namespace ROPTLIB;
typedef std::complex<double> cd;

struct CM {
    int r = 0, c = 0;
    std::vector<cd> a;
    CM() {}
    CM(int R, int C) : r(R), c(C), a((size_t)R * C) {}
    cd &operator()(int i, int j) { return a[(size_t)i + (size_t)j * r]; }
    const cd &operator()(int i, int j) const { return a[(size_t)i + (size_t)j * r]; }
};
inline CM mul(const CM &A, const CM &B)
{
    CM R(A.r, B.c);
    for (int i = 0; i < A.r; i++) for (int j = 0; j < B.c; j++) { cd s = 0; for (int k = 0; k < A.c; k++) s += A(i, k) * B(k, j); R(i, j) = s; }
    return R;
}
inline CM adj(const CM &A) { CM R(A.c, A.r); for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) R(j, i) = std::conj(A(i, j)); return R; }
inline CM tr(const CM &A) { CM R(A.c, A.r); for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) R(j, i) = A(i, j); return R; }
inline CM conjm(const CM &A) { CM R = A; for (auto &x : R.a) x = std::conj(x); return R; }
inline CM add(const CM &A, const CM &B, cd b = 1.0) { CM R = A; for (size_t i = 0; i < R.a.size(); i++) R.a[i] += b * B.a[i]; return R; }
inline CM scl(const CM &A, cd s) { CM R = A; for (auto &x : R.a) x *= s; return R; }
inline CM eye(int n) { CM R(n, n); for (int i = 0; i < n; i++) R(i, i) = 1; return R; }
inline double nrm(const CM &A) { double s = 0; for (auto &x : A.a) s += std::norm(x); return std::sqrt(s); }
inline bool finite(const CM &A) { for (auto &x : A.a) if (!std::isfinite(x.real()) || !std::isfinite(x.imag())) return false; return true; }
inline double dist(const CM &A, const CM &B)
{
    if (A.r != B.r || A.c != B.c) return 1e300;
    double s = 0;
    for (size_t i = 0; i < A.a.size(); i++) s += std::norm(A.a[i] - B.a[i]);
    s = std::sqrt(s);
    return std::isfinite(s) ? s : 1e300;
}
inline double rdist(const CM &A, const CM &B) { double d = dist(A, B); return d >= 1e300 ? d : d / (1 + std::max(nrm(A), nrm(B))); }
/* entries of an element (first two dimensions; the third is appended as columns) */
inline CM toCM(const Element &E)
{
    int r = E.Getrow(), c = (int)(E.Getcol() * E.Getnum());
    CM R(r, c);
    const double *p = E.ObtainReadData();
    if (!p) { for (auto &x : R.a) x = cd(NAN, NAN); return R; }
    if (E.Getiscomplex()) for (size_t i = 0; i < R.a.size(); i++) R.a[i] = cd(p[2 * i], p[2 * i + 1]);
    else for (size_t i = 0; i < R.a.size(); i++) R.a[i] = p[i];
    return R;
}
inline void fill(Element &E, const CM &A)
{
    double *p = E.ObtainWriteEntireData();
    if (E.Getiscomplex()) for (size_t i = 0; i < A.a.size(); i++) { p[2 * i] = A.a[i].real(); p[2 * i + 1] = A.a[i].imag(); }
    else for (size_t i = 0; i < A.a.size(); i++) p[i] = A.a[i].real();
}
inline Element mk(const CM &A, bool cplx)
{
    Element E(A.r, A.c, 1, cplx);
    fill(E, A);
    return E;
}
/* a fixed family of generic data: index k gives reproducible, well spread values */
inline double gval(unsigned k)
{
    uint64_t h = (k + 1) * 0x9e3779b97f4a7c15ULL;
    h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 29; h *= 0x94d049bb133111ebULL; h ^= h >> 32;
    return (double)(h >> 11) / 9007199254740992.0 * 4 - 2;
}
inline CM gmat(int r, int c, unsigned seed, bool cplx)
{
    CM R(r, c);
    for (int i = 0; i < r * c; i++) R.a[i] = cd(gval(seed * 1000 + 2 * i), cplx ? gval(seed * 1000 + 2 * i + 1) : 0);
    return R;
}
/* solve A X = B by Gaussian elimination with partial pivoting */
inline CM lsolve(CM A, CM B)
{
    int n = A.r;
    for (int k = 0; k < n; k++) {
        int p = k;
        for (int i = k; i < n; i++) if (std::abs(A(i, k)) > std::abs(A(p, k))) p = i;
        for (int j = 0; j < n; j++) std::swap(A(k, j), A(p, j));
        for (int j = 0; j < B.c; j++) std::swap(B(k, j), B(p, j));
        for (int i = 0; i < n; i++) if (i != k) {
            cd f = A(i, k) / A(k, k);
            for (int j = k; j < n; j++) A(i, j) -= f * A(k, j);
            for (int j = 0; j < B.c; j++) B(i, j) -= f * B(k, j);
        }
    }
    for (int i = 0; i < n; i++) for (int j = 0; j < B.c; j++) B(i, j) /= A(i, i);
    return B;
}
inline CM expm(const CM &A)
{
    CM S = scl(A, 1.0 / 1024), R = eye(A.r), T = eye(A.r);
    for (int k = 1; k < 20; k++) { T = scl(mul(T, S), 1.0 / k); R = add(R, T); }
    for (int i = 0; i < 10; i++) R = mul(R, R);
    return R;
}
inline std::string show(const CM &A)
{
    std::string s = mc::fmt("%dx%d[", A.r, A.c);
    for (size_t i = 0; i < A.a.size() && i < 12; i++) s += mc::fmt("%.6g%s ", A.a[i].real(), A.a[i].imag() ? mc::fmt("%+.6gi", A.a[i].imag()).c_str() : "");
    return s + "]";
}
#endif

/* BLAS and LAPACK are not compiled with AddressSanitizer.  The linker redirects the library's calls here (--wrap), where
 * every array that a call is entitled to read or write is touched under AddressSanitizer before the call is passed on. */
#include "f2c.h"
#undef max
#undef min
#undef abs
extern "C" void *__asan_region_is_poisoned(void *, unsigned long);
typedef integer I;
typedef doublereal D;
typedef doublecomplex Z;
static void touch(const void *p, long bytes)
{
    if (bytes <= 0) return;
    if (!p) { static volatile char sink; sink = *(volatile const char *)p; return; }
    void *bad = __asan_region_is_poisoned(const_cast<void *>(p), (unsigned long)bytes);
    if (bad) { static volatile char sink; sink = *(volatile const char *)bad; }
}
template <class T> static void vec(const T *p, long n, long inc)
{
    if (n <= 0) return;
    if (inc == 1) { touch(p, n * (long)sizeof(T)); return; }
    if (inc < 0) inc = -inc;
    for (long i = 0; i < n; i++) touch(p + i * inc, sizeof(T));
}
template <class T> static void mat(const T *p, long r, long c, long ld)
{
    if (r <= 0 || c <= 0) return;
    if (ld == r) { touch(p, r * c * (long)sizeof(T)); return; }
    for (long j = 0; j < c; j++) touch(p + j * ld, r * (long)sizeof(T));
}
static bool is(const char *a, char c) { return *a == c || *a == c + 32; }
#define W(ret, name, par, chk, arg) extern "C" ret __real_##name par; extern "C" ret __wrap_##name par { chk; return __real_##name arg; }
#define DZ(M) M(d, D) M(z, Z)
W(D, ddot_, (I *n, D *x, I *ix, D *y, I *iy), vec(x, *n, *ix); vec(y, *n, *iy), (n, x, ix, y, iy))
W(D, dnrm2_, (I *n, D *x, I *ix), vec(x, *n, *ix), (n, x, ix))
#define L1(q, T) \
W(int, q##axpy_, (I *n, T *a, T *x, I *ix, T *y, I *iy), vec(x, *n, *ix); vec(y, *n, *iy), (n, a, x, ix, y, iy)) \
W(int, q##copy_, (I *n, T *x, I *ix, T *y, I *iy), vec(x, *n, *ix); vec(y, *n, *iy), (n, x, ix, y, iy)) \
W(int, q##scal_, (I *n, T *a, T *x, I *ix), vec(x, *n, *ix), (n, a, x, ix))
DZ(L1)
#define L2(q, T) \
W(int, q##gemv_, (char *t, I *m, I *n, T *al, T *a, I *lda, T *x, I *ix, T *be, T *y, I *iy), mat(a, *m, *n, *lda); vec(x, is(t, 'N') ? *n : *m, *ix); vec(y, is(t, 'N') ? *m : *n, *iy), (t, m, n, al, a, lda, x, ix, be, y, iy)) \
W(int, q##gemm_, (char *ta, char *tb, I *m, I *n, I *k, T *al, T *a, I *lda, T *b, I *ldb, T *be, T *c, I *ldc), is(ta, 'N') ? mat(a, *m, *k, *lda) : mat(a, *k, *m, *lda); is(tb, 'N') ? mat(b, *k, *n, *ldb) : mat(b, *n, *k, *ldb); mat(c, *m, *n, *ldc), (ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc)) \
W(int, q##symv_, (char *u, I *n, T *al, T *a, I *lda, T *x, I *ix, T *be, T *y, I *iy), mat(a, *n, *n, *lda); vec(x, *n, *ix); vec(y, *n, *iy), (u, n, al, a, lda, x, ix, be, y, iy)) \
W(int, q##trsm_, (char *s, char *u, char *t, char *d, I *m, I *n, T *al, T *a, I *lda, T *b, I *ldb), mat(a, is(s, 'L') ? *m : *n, is(s, 'L') ? *m : *n, *lda); mat(b, *m, *n, *ldb), (s, u, t, d, m, n, al, a, lda, b, ldb)) \
W(int, q##larfx_, (char *s, I *m, I *n, T *v, T *tau, T *c, I *ldc, T *w), vec(v, is(s, 'L') ? *m : *n, 1); mat(c, *m, *n, *ldc); vec(tau, 1, 1); if ((is(s, 'L') ? *m : *n) > 10) vec(w, is(s, 'L') ? *n : *m, 1), (s, m, n, v, tau, c, ldc, w)) \
W(int, q##potrf_, (char *u, I *n, T *a, I *lda, I *info), mat(a, *n, *n, *lda), (u, n, a, lda, info)) \
W(int, q##potri_, (char *u, I *n, T *a, I *lda, I *info), mat(a, *n, *n, *lda), (u, n, a, lda, info)) \
W(int, q##potrs_, (char *u, I *n, I *r, T *a, I *lda, T *b, I *ldb, I *info), mat(a, *n, *n, *lda); mat(b, *n, *r, *ldb), (u, n, r, a, lda, b, ldb, info)) \
W(int, q##getrf_, (I *m, I *n, T *a, I *lda, I *p, I *info), mat(a, *m, *n, *lda); vec(p, *m < *n ? *m : *n, 1), (m, n, a, lda, p, info)) \
W(int, q##getri_, (I *n, T *a, I *lda, I *p, T *w, I *lw, I *info), if (*lw != -1) { mat(a, *n, *n, *lda); vec(p, *n, 1); vec(w, *lw, 1); }, (n, a, lda, p, w, lw, info)) \
W(int, q##getrs_, (char *t, I *n, I *r, T *a, I *lda, I *p, T *b, I *ldb, I *info), mat(a, *n, *n, *lda); mat(b, *n, *r, *ldb); vec(p, *n, 1), (t, n, r, a, lda, p, b, ldb, info)) \
W(int, q##gesv_, (I *n, I *r, T *a, I *lda, I *p, T *b, I *ldb, I *info), mat(a, *n, *n, *lda); mat(b, *n, *r, *ldb); vec(p, *n, 1), (n, r, a, lda, p, b, ldb, info)) \
W(int, q##trtrs_, (char *u, char *t, char *d, I *n, I *r, T *a, I *lda, T *b, I *ldb, I *info), mat(a, *n, *n, *lda); mat(b, *n, *r, *ldb), (u, t, d, n, r, a, lda, b, ldb, info)) \
W(int, q##lapmt_, (logical *f, I *m, I *n, T *x, I *ldx, I *k), mat(x, *m, *n, *ldx); vec(k, *n, 1), (f, m, n, x, ldx, k)) \
W(int, q##tgsyl_, (char *t, I *ij, I *m, I *n, T *a, I *lda, T *b, I *ldb, T *c, I *ldc, T *d, I *ldd, T *e, I *lde, T *f, I *ldf, D *sc, D *di, T *w, I *lw, I *iw, I *info), if (*lw != -1) { mat(a, *m, *m, *lda); mat(b, *n, *n, *ldb); mat(c, *m, *n, *ldc); mat(d, *m, *m, *ldd); mat(e, *n, *n, *lde); mat(f, *m, *n, *ldf); vec(w, *lw, 1); vec(iw, *m + *n + (sizeof(T) == 8 ? 6 : 2), 1); }, (t, ij, m, n, a, lda, b, ldb, c, ldc, d, ldd, e, lde, f, ldf, sc, di, w, lw, iw, info))
DZ(L2)
W(int, dger_, (I *m, I *n, D *al, D *x, I *ix, D *y, I *iy, D *a, I *lda), vec(x, *m, *ix); vec(y, *n, *iy); mat(a, *m, *n, *lda), (m, n, al, x, ix, y, iy, a, lda))
W(int, zgerc_, (I *m, I *n, Z *al, Z *x, I *ix, Z *y, I *iy, Z *a, I *lda), vec(x, *m, *ix); vec(y, *n, *iy); mat(a, *m, *n, *lda), (m, n, al, x, ix, y, iy, a, lda))
W(int, zgeru_, (I *m, I *n, Z *al, Z *x, I *ix, Z *y, I *iy, Z *a, I *lda), vec(x, *m, *ix); vec(y, *n, *iy); mat(a, *m, *n, *lda), (m, n, al, x, ix, y, iy, a, lda))
W(int, zdscal_, (I *n, D *a, Z *x, I *ix), vec(x, *n, *ix), (n, a, x, ix))
#define MINL(m, n) (*(m) < *(n) ? *(m) : *(n))
W(int, dgeqp3_, (I *m, I *n, D *a, I *lda, I *j, D *tau, D *w, I *lw, I *info), if (*lw != -1) { mat(a, *m, *n, *lda); vec(j, *n, 1); vec(tau, MINL(m, n), 1); vec(w, *lw, 1); }, (m, n, a, lda, j, tau, w, lw, info))
W(int, zgeqp3_, (I *m, I *n, Z *a, I *lda, I *j, Z *tau, Z *w, I *lw, D *rw, I *info), if (*lw != -1) { mat(a, *m, *n, *lda); vec(j, *n, 1); vec(tau, MINL(m, n), 1); vec(w, *lw, 1); vec(rw, 2 * *n, 1); }, (m, n, a, lda, j, tau, w, lw, rw, info))
W(int, dorgqr_, (I *m, I *n, I *k, D *a, I *lda, D *tau, D *w, I *lw, I *info), if (*lw != -1) { mat(a, *m, *n, *lda); vec(tau, *k, 1); vec(w, *lw, 1); }, (m, n, k, a, lda, tau, w, lw, info))
W(int, zungqr_, (I *m, I *n, I *k, Z *a, I *lda, Z *tau, Z *w, I *lw, I *info), if (*lw != -1) { mat(a, *m, *n, *lda); vec(tau, *k, 1); vec(w, *lw, 1); }, (m, n, k, a, lda, tau, w, lw, info))
W(int, dormqr_, (char *s, char *t, I *m, I *n, I *k, D *a, I *lda, D *tau, D *c, I *ldc, D *w, I *lw, I *info), if (*lw != -1) { mat(a, is(s, 'L') ? *m : *n, *k, *lda); vec(tau, *k, 1); mat(c, *m, *n, *ldc); vec(w, *lw, 1); }, (s, t, m, n, k, a, lda, tau, c, ldc, w, lw, info))
W(int, zunmqr_, (char *s, char *t, I *m, I *n, I *k, Z *a, I *lda, Z *tau, Z *c, I *ldc, Z *w, I *lw, I *info), if (*lw != -1) { mat(a, is(s, 'L') ? *m : *n, *k, *lda); vec(tau, *k, 1); mat(c, *m, *n, *ldc); vec(w, *lw, 1); }, (s, t, m, n, k, a, lda, tau, c, ldc, w, lw, info))
#define SV(q, T, ju, jv) { long mn = MINL(m, n); mat(a, *m, *n, *lda); vec(s, mn, 1); vec(w, *lw, 1); if (is(ju, 'A')) mat(u, *m, *m, *ldu); if (is(ju, 'S')) mat(u, *m, mn, *ldu); if (is(jv, 'A')) mat(vt, *n, *n, *ldvt); if (is(jv, 'S')) mat(vt, mn, *n, *ldvt); }
W(int, dgesvd_, (char *ju, char *jv, I *m, I *n, D *a, I *lda, D *s, D *u, I *ldu, D *vt, I *ldvt, D *w, I *lw, I *info), if (*lw != -1) SV(d, D, ju, jv), (ju, jv, m, n, a, lda, s, u, ldu, vt, ldvt, w, lw, info))
W(int, zgesvd_, (char *ju, char *jv, I *m, I *n, Z *a, I *lda, D *s, Z *u, I *ldu, Z *vt, I *ldvt, Z *w, I *lw, D *rw, I *info), if (*lw != -1) { SV(z, Z, ju, jv) vec(rw, 5 * MINL(m, n), 1); }, (ju, jv, m, n, a, lda, s, u, ldu, vt, ldvt, w, lw, rw, info))
W(int, dgesdd_, (char *j, I *m, I *n, D *a, I *lda, D *s, D *u, I *ldu, D *vt, I *ldvt, D *w, I *lw, I *iw, I *info), if (*lw != -1) { SV(d, D, j, j) vec(iw, 8 * MINL(m, n), 1); }, (j, m, n, a, lda, s, u, ldu, vt, ldvt, w, lw, iw, info))
W(int, zgesdd_, (char *j, I *m, I *n, Z *a, I *lda, D *s, Z *u, I *ldu, Z *vt, I *ldvt, Z *w, I *lw, D *rw, I *iw, I *info), if (*lw != -1) { SV(z, Z, j, j) vec(iw, 8 * MINL(m, n), 1); }, (j, m, n, a, lda, s, u, ldu, vt, ldvt, w, lw, rw, iw, info))
W(int, dsyev_, (char *j, char *u, I *n, D *a, I *lda, D *e, D *w, I *lw, I *info), if (*lw != -1) { mat(a, *n, *n, *lda); vec(e, *n, 1); vec(w, *lw, 1); }, (j, u, n, a, lda, e, w, lw, info))
W(int, dsyevd_, (char *j, char *u, I *n, D *a, I *lda, D *e, D *w, I *lw, I *iw, I *liw, I *info), if (*lw != -1 && *liw != -1) { mat(a, *n, *n, *lda); vec(e, *n, 1); vec(w, *lw, 1); vec(iw, *liw, 1); }, (j, u, n, a, lda, e, w, lw, iw, liw, info))
W(int, zheev_, (char *j, char *u, I *n, Z *a, I *lda, D *e, Z *w, I *lw, D *rw, I *info), if (*lw != -1) { mat(a, *n, *n, *lda); vec(e, *n, 1); vec(w, *lw, 1); vec(rw, 3 * *n - 2, 1); }, (j, u, n, a, lda, e, w, lw, rw, info))

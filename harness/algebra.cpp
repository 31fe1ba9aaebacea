/* C03 dense algebra and decompositions against naive references, C05 sparse times dense and the sparse handle table,
 * C06 discrete Fourier and Haar transforms.  All shapes / types / option strings / sharing patterns up to the bound. */
#include "ref.h"
#include "Others/wavelet/wavelet.h"
using namespace mc;

static const double TOL = 1e-9;
static int NMAX() { return thorough() ? 5 : 3; }

/* an operand in one of the sharing situations a caller can create */
struct Opnd {
    Element e, other;
    CM v;
    bool cx;
    int mode;
};
static int NMODES = 3;
static Opnd mkop(const CM &A, bool cx, int mode)
{
    Opnd o;
    o.v = A; o.cx = cx; o.mode = mode;
    o.e = Element(A.r, A.c, 1, cx);
    fill(o.e, A);
    if (mode == 1) o.other = o.e;                      /* data shared with another variable */
    if (mode == 2) { o.other = o.e; o.other.AddToFields("F", Element(o.e)); o.e.AddToFields("F", o.other); } /* with attached data */
    return o;
}
static void intact(const Opnd &o, const char *what)
{
    if (dist(toCM(o.e), o.v) != 0) violation(fmt("operand-changed:%s", what), "an operation that returns a new value changed its operand");
    if (o.mode && dist(toCM(o.other), o.v) != 0) violation(fmt("bystander-changed:%s", what), "an operation changed a variable that only shared data with its operand");
}
static void expect(const char *what, const CM &got, const CM &want, double tol = TOL)
{
    eval();
    trans();
    double d = rdist(got, want);
    uint64_t h = hstr(what);
    for (auto &x : want.a) h = hdbl(x.real(), hdbl(x.imag(), h));
    outcome(hmix(h, got.r * 100 + got.c));
    if (!(d <= tol)) violation(fmt("value:%s", what), fmt("got %s want %s", show(got).c_str(), show(want).c_str()));
}
static void expectE(const char *what, const Element &E, const CM &want, bool cx, double tol = TOL)
{
    if (E.Getiscomplex() != cx) violation(fmt("type:%s", what), "the result has the wrong number type");
    else if (E.Getrow() != want.r || E.Getcol() * E.Getnum() != want.c) violation(fmt("shape:%s", what), fmt("got %dx%d want %dx%d", (int)E.Getrow(), (int)E.Getcol(), want.r, want.c));
    else expect(what, toCM(E), want, tol);
}
static CM had(const CM &A, const CM &B) { CM R = A; for (size_t i = 0; i < R.a.size(); i++) R.a[i] *= B.a[i]; return R; }
static CM hdiv(const CM &A, const CM &B) { CM R = A; for (size_t i = 0; i < R.a.size(); i++) R.a[i] /= B.a[i]; return R; }
static CM map(const CM &A, std::function<cd(cd)> f) { CM R = A; for (auto &x : R.a) x = f(x); return R; }
static CM map2(const CM &A, const CM &B, std::function<double(double, double)> f) { CM R = A; for (size_t i = 0; i < R.a.size(); i++) R.a[i] = f(A.a[i].real(), B.a[i].real()); return R; }
static CM herm(int n, unsigned seed, bool cx) { CM A = gmat(n, n, seed, cx); return scl(add(A, adj(A)), 0.5); }
static CM hpd(int n, unsigned seed, bool cx) { CM A = gmat(n, n, seed, cx); return add(mul(A, adj(A)), eye(n), 0.7); }
static realdpcomplex rc(cd z) { realdpcomplex r; r.r = z.real(); r.i = z.imag(); return r; }
static CM tri(const CM &A, bool lower) { CM R = A; for (int i = 0; i < R.r; i++) for (int j = 0; j < R.c; j++) if (lower ? j > i : i > j) R(i, j) = 0; return R; }

static void C03()
{
    for (int cx = 0; cx < 2; cx++)
        for (int r = 1; r <= NMAX(); r++) for (int c = 1; c <= NMAX(); c++)
            group(fmt("ew%s/%dx%d", cx ? "C" : "R", r, c), [&] {
                unsigned nseed = thorough() ? 12 : 4;
                for (unsigned sd = 0; sd < nseed; sd++) for (int ma = 0; ma < NMODES; ma++) for (int mb = 0; mb < NMODES; mb++) for (int same = 0; same < 2; same++) {
                    setcase(fmt("seed %u operand states %d %d %s", sd, ma, mb, same ? "same object" : "two objects"));
                    state(); trace();
                    Opnd a = mkop(gmat(r, c, 10 + sd, cx), cx, ma), b0 = mkop(gmat(r, c, 20 + sd, cx), cx, mb);
                    Opnd &b = same ? a : b0;
                    expectE("add", a.e + b.e, add(a.v, b.v), cx);
                    expectE("sub", a.e - b.e, add(a.v, b.v, -1.0), cx);
                    expectE("hadamard", a.e.GetHadamardProduct(b.e), had(a.v, b.v), cx);
                    expectE("hadamardDiv", a.e.GetHadamardDivision(b.e), hdiv(a.v, b.v), cx, 1e-7);
                    { CM w(1, c); for (int j = 0; j < c; j++) { double s = 0; for (int i = 0; i < r; i++) s += (std::conj(a.v(i, j)) * b.v(i, j)).real(); w(0, j) = s; } expectE("colDot", a.e.GetColDotProducts(b.e), w, false); }
                    { CM w(1, c); for (int j = 0; j < c; j++) { double s = 0; for (int i = 0; i < r; i++) s += std::norm(a.v(i, j)); w(0, j) = s; } expectE("colNorms", a.e.GetColNormsSquare(), w, false); }
                    { double s = 0; for (size_t i = 0; i < a.v.a.size(); i++) s += (std::conj(a.v.a[i]) * b.v.a[i]).real(); CM w(1, 1), g(1, 1); w(0, 0) = s; g(0, 0) = a.e.DotProduct(b.e); expect("dot", g, w); }
                    { CM w(1, 1), g(1, 1); w(0, 0) = nrm(a.v); g(0, 0) = a.e.Fnorm(); expect("norm", g, w); }
                    { Element t = a.e; t += b.e; expectE("plusEq", t, add(a.v, b.v), cx); }
                    { Element t = a.e; t -= b.e; expectE("minusEq", t, add(a.v, b.v, -1.0), cx); }
                    { Element t = a.e; t.AlphaXaddThis(-1.5, b.e); expectE("axpy", t, add(a.v, b.v, -1.5), cx); }
                    expectE("scalarL", 2.5 * a.e, scl(a.v, 2.5), cx);
                    expectE("scalarR", a.e * 2.5, scl(a.v, 2.5), cx);
                    expectE("scalarDiv", a.e / 2.5, scl(a.v, 1 / 2.5), cx);
                    { Element t = a.e; t.ScalarTimesThis(-3.0); expectE("scaleThis", t, scl(a.v, -3), cx); }
                    expectE("transpose", a.e.GetTranspose(), adj(a.v), cx);
                    { Element t = a.e; t.Transpose(); expectE("transposeThis", t, adj(a.v), cx); }
                    { Element t = a.e; t.SetToIdentity(); CM w(r, c); for (int i = 0; i < std::min(r, c); i++) w(i, i) = 1; expectE("identity", t, w, cx); }
                    for (int k = 1; k <= r * c; k++) if (r * c % k == 0) { CM w = a.v; w.r = k; w.c = r * c / k; expectE("reshape", a.e.GetReshape(k, r * c / k), w, cx); }
                    for (int r0 = 0; r0 < r; r0++) for (int r1 = r0; r1 < r; r1++) for (int c0 = 0; c0 < c; c0++) for (int c1 = c0; c1 < c; c1++) {
                        CM w(r1 - r0 + 1, c1 - c0 + 1);
                        for (int i = r0; i <= r1; i++) for (int j = c0; j <= c1; j++) w(i - r0, j - c0) = a.v(i, j);
                        expectE("submatrix", a.e.GetSubmatrix(r0, r1, c0, c1), w, cx);
                        Element t = a.e;
                        CM v = a.v;
                        CM m2 = gmat(w.r, w.c, 30 + sd, cx);
                        t.SubmatrixAssignment(r0, r1, c0, c1, mk(m2, cx));
                        for (int i = r0; i <= r1; i++) for (int j = c0; j <= c1; j++) v(i, j) = m2(i - r0, j - c0);
                        expectE("subassign", t, v, cx);
                    }
                    CM dl = gmat(r, 1, 40 + sd, cx), dr = gmat(c, 1, 41 + sd, cx);
                    { CM w = a.v; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) w(i, j) *= dl(i, 0); expectE("diagL", mk(dl, cx).GetDiagTimesM(a.e), w, cx); Element t = a.e; mk(dl, cx).DiagTimesM(t); expectE("diagLthis", t, w, cx); }
                    { CM w = a.v; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) w(i, j) *= dr(j, 0); expectE("diagR", mk(dr, cx).GetDiagTimesM(a.e, GLOBAL::R), w, cx); Element t = a.e; mk(dr, cx).DiagTimesM(t, GLOBAL::R); expectE("diagRthis", t, w, cx); }
                    if (!cx) { CM w = add(a.v, mul(dl, tr(dr)), -0.5); expectE("rankone", a.e.GetHaddRankone(-0.5, mk(dl, false), mk(dr, false)), w, cx); Element t = a.e; t.HaddRankone(-0.5, mk(dl, false), mk(dr, false)); expectE("rankoneThis", t, w, cx); }
                    if (cx) {
                        cd z(0.5, -1.5);
                        expectE("zrankone", a.e.GetHaddRankone(rc(z), mk(dl, true), mk(dr, true)), add(a.v, mul(dl, tr(dr)), z), cx);
                        { Element t = a.e; t.HaddRankone(rc(z), mk(dl, true), mk(dr, true)); expectE("zrankoneThis", t, add(a.v, mul(dl, tr(dr)), z), cx); }
                        expectE("zscalarL", rc(z) * a.e, scl(a.v, z), cx);
                        expectE("zscalarR", a.e * rc(z), scl(a.v, z), cx);
                        expectE("zdiv", a.e / rc(z), scl(a.v, 1.0 / z), cx);
                        expectE("zrdiv", rc(z) / a.e, map(a.v, [&](cd x) { return z / x; }), cx, 1e-8);
                        expectE("zaddR", a.e + rc(z), map(a.v, [&](cd x) { return z + x; }), cx);
                        expectE("zaddL", rc(z) + a.e, map(a.v, [&](cd x) { return z + x; }), cx);
                        expectE("zsubR", a.e - rc(z), map(a.v, [&](cd x) { return x - z; }), cx);
                        expectE("zsubL", rc(z) - a.e, map(a.v, [&](cd x) { return z - x; }), cx);
                        expectE("conj", a.e.GetConj(), conjm(a.v), cx);
                        { Element t = a.e; t.Conj(); expectE("conjThis", t, conjm(a.v), cx); }
                        { Element t = a.e; t.AlphaXaddThis(rc(z), b.e); expectE("zaxpy", t, add(a.v, b.v, z), cx); }
                        { Element t = a.e; t.ScalarTimesThis(rc(z)); expectE("zscaleThis", t, scl(a.v, z), cx); }
                        expectE("realPart", a.e.GetRealInComplex(), map(a.v, [&](cd x) { return cd(x.real()); }), false);
                        expectE("imagPart", a.e.GetImagInComplex(), map(a.v, [&](cd x) { return cd(x.imag()); }), false);
                    } else {
                        expectE("addR", a.e + 0.75, map(a.v, [&](cd x) { return x + 0.75; }), cx);
                        expectE("addL", 0.75 + a.e, map(a.v, [&](cd x) { return x + 0.75; }), cx);
                        expectE("subR", a.e - 0.75, map(a.v, [&](cd x) { return x - 0.75; }), cx);
                        expectE("subL", 0.75 - a.e, map(a.v, [&](cd x) { return 0.75 - x; }), cx);
                        expectE("rdiv", 0.75 / a.e, map(a.v, [&](cd x) { return 0.75 / x; }), cx, 1e-8);
                        expectE("toComplex", a.e.GetRealToComplex(), a.v, true);
                        expectE("abs", a.e.GetAbs(), map(a.v, [&](cd x) { return cd(std::fabs(x.real())); }), cx);
                        expectE("sqrt", a.e.GetAbs().GetSqrt(), map(a.v, [&](cd x) { return cd(std::sqrt(std::fabs(x.real()))); }), cx);
                        expectE("max", a.e.GetMax(b.e), map2(a.v, b.v, [](double x, double y) { return std::max(x, y); }), cx);
                        expectE("min", a.e.GetMin(b.e), map2(a.v, b.v, [](double x, double y) { return std::min(x, y); }), cx);
                        double t0 = a.v.a[0].real();
                        for (double t : {t0, 0.1}) {
                            auto M = [&](std::function<bool(double)> f) { return map(a.v, [&](cd x) { return cd(f(x.real()) ? 1 : 0); }); };
                            expectE("maxS", a.e.GetMax(t), map(a.v, [&](cd x) { return cd(std::max(x.real(), t)); }), cx);
                            expectE("minS", a.e.GetMin(t), map(a.v, [&](cd x) { return cd(std::min(x.real(), t)); }), cx);
                            expectE("eqL", t == a.e, M([&](double x) { return t == x; }), cx);
                            expectE("eqR", a.e == t, M([&](double x) { return t == x; }), cx);
                            expectE("gtL", t > a.e, M([&](double x) { return t > x; }), cx);
                            expectE("gtR", a.e > t, M([&](double x) { return x > t; }), cx);
                            expectE("geL", t >= a.e, M([&](double x) { return t >= x; }), cx);
                            expectE("geR", a.e >= t, M([&](double x) { return x >= t; }), cx);
                            expectE("ltL", t < a.e, M([&](double x) { return t < x; }), cx);
                            expectE("ltR", a.e < t, M([&](double x) { return x < t; }), cx);
                            expectE("leL", t <= a.e, M([&](double x) { return t <= x; }), cx);
                            expectE("leR", a.e <= t, M([&](double x) { return x <= t; }), cx);
                        }
                        expectE("eq", a.e == b.e, map2(a.v, b.v, [](double x, double y) { return x == y; }), cx);
                        expectE("gt", a.e > b.e, map2(a.v, b.v, [](double x, double y) { return x > y; }), cx);
                        expectE("ge", a.e >= b.e, map2(a.v, b.v, [](double x, double y) { return x >= y; }), cx);
                        expectE("lt", a.e < b.e, map2(a.v, b.v, [](double x, double y) { return x < y; }), cx);
                        expectE("le", a.e <= b.e, map2(a.v, b.v, [](double x, double y) { return x <= y; }), cx);
                    }
                    /* elementary reflector I - s v v' from both sides */
                    for (int side = 0; side < 2; side++) {
                        CM v = gmat(side ? c : r, 1, 50 + sd, cx);
                        cd s = cx ? cd(0.4, 0.3) : cd(0.4, 0);
                        CM H = add(eye(v.r), mul(v, adj(v)), -s);
                        CM w = side ? mul(a.v, H) : mul(H, a.v);
                        char *sd2 = side ? GLOBAL::R : GLOBAL::L;
                        if (cx) expectE("reflector", a.e.GetHtimesRankone(rc(s), mk(v, cx), sd2), w, cx);
                        else expectE("reflector", a.e.GetHtimesRankone(s.real(), mk(v, cx), sd2), w, cx);
                    }
                    /* decompositions, computed twice (fresh, then from the cache) */
                    for (int rep = 0; rep < 2; rep++) {
                        int mn = std::min(r, c);
                        Element &E = a.e;
                        E.HHRDecom();
                        E.QRDecom();
                        E.SVDDecom();
                        CM Q = toCM(E.Field("_Q")), R = toCM(E.Field("_R"));
                        expect("QR", mul(Q, R), a.v);
                        expect("QR-orth", mul(adj(Q), Q), eye(mn));
                        expect("QR-upper", R, tri(R, false));
                        CM U = toCM(E.Field("_U")), Vt = toCM(E.Field("_Vt")), s = toCM(E.Field("_S")), D(mn, mn);
                        for (int i = 0; i < mn; i++) { D(i, i) = s.a[i]; if (std::fabs(s.a[i].imag()) > 1e-12 || s.a[i].real() < -1e-12 || (i && s.a[i].real() > s.a[i - 1].real() + 1e-12)) violation("value:SVD-order", "singular values are not real, nonnegative and descending"); }
                        expect("SVD", mul(U, mul(D, Vt)), a.v);
                        expect("SVD-U", mul(adj(U), U), eye(mn));
                        expect("SVD-V", mul(Vt, adj(Vt)), eye(mn));
                        expectE("orth", E.GetOrth(), mul(U, Vt), cx, 1e-8);
                        /* the Householder factors as an operator on both sides */
                        Element hh = E.Field("_HHR"), tau = E.Field("_tau");
                        Element I = mk(eye(r), cx);
                        CM FQ = toCM(I.HHRMtp(hh, tau, GLOBAL::N, GLOBAL::L));
                        expect("HHR-orth", mul(adj(FQ), FQ), eye(r));
                        CM RR = tri(toCM(hh), false);
                        expect("HHR", mul(FQ, RR), a.v);
                        char *T = cx ? GLOBAL::C : GLOBAL::T;
                        CM B = gmat(r, 2, 60 + sd, cx), B2 = gmat(2, r, 61 + sd, cx);
                        expectE("HHRMtp-LN", mk(B, cx).HHRMtp(hh, tau, GLOBAL::N, GLOBAL::L), mul(FQ, B), cx);
                        expectE("HHRMtp-LT", mk(B, cx).HHRMtp(hh, tau, T, GLOBAL::L), mul(adj(FQ), B), cx);
                        expectE("HHRMtp-RN", mk(B2, cx).HHRMtp(hh, tau, GLOBAL::N, GLOBAL::R), mul(B2, FQ), cx);
                        expectE("HHRMtp-RT", mk(B2, cx).HHRMtp(hh, tau, T, GLOBAL::R), mul(B2, adj(FQ)), cx);
                    }
                    intact(a, "elementwise");
                    if (!same) intact(b, "elementwise");
                }
            });
    /* products: every shape triple, transposition and sharing state, also through the accumulating form */
    for (int cx = 0; cx < 2; cx++)
        for (int m = 1; m <= NMAX(); m++) for (int k = 1; k <= NMAX(); k++) for (int n = 1; n <= NMAX(); n++)
            group(fmt("prod%s/%dx%dx%d", cx ? "C" : "R", m, k, n), [&] {
                for (int ma = 0; ma < NMODES; ma++) for (int mb = 0; mb < NMODES; mb++) for (unsigned sd = 0; sd < (thorough() ? 6u : 2u); sd++) {
                    setcase(fmt("seed %u operand states %d %d", sd, ma, mb));
                    state(); trace();
                    Opnd a = mkop(gmat(m, k, 70 + sd, cx), cx, ma), b = mkop(gmat(k, n, 80 + sd, cx), cx, mb);
                    expectE("matmul", a.e * b.e, mul(a.v, b.v), cx);
                    const char *tn[] = {"N", "T", "C"};
                    for (int ta = 0; ta < 3; ta++) for (int tb = 0; tb < 3; tb++) {
                        CM A0 = ta == 0 ? a.v : ta == 1 ? tr(a.v) : adj(a.v), B0 = tb == 0 ? b.v : tb == 1 ? tr(b.v) : adj(b.v);
                        Opnd A = mkop(A0, cx, ma), B = mkop(B0, cx, mb);
                        CM want = mul(a.v, b.v);
                        for (double al : {1.0, -0.5}) for (double be : {0.0, 1.0, 2.0}) for (int shape = 0; shape < 2; shape++) {
                            CM c0 = gmat(m, n, 90 + sd, cx);
                            Opnd C = mkop(c0, cx, (ma + mb) % 3);
                            if (shape) { C.e.Reshape(n, m); }
                            if (be == 0 && shape == 0) { Element fresh(m, n, 1, (bool)cx); C.e = fresh; C.mode = 0; }
                            C.e.AlphaABaddBetaThis(al, A.e, (char *)tn[ta], B.e, (char *)tn[tb], be);
                            CM w = add(scl(want, al), c0, be);
                            if (shape) { w.r = n; w.c = m; }
                            expectE("gemm", C.e, w, cx);
                            if (C.mode && dist(toCM(C.other), c0) != 0) violation("bystander-changed:gemm", "accumulating into a variable changed another one that shared its data");
                            if (cx) {
                                cd z1(al, 0.25), z2(be, -0.5);
                                Element C2 = mk(c0, cx);
                                C2.AlphaABaddBetaThis(rc(z1), A.e, (char *)tn[ta], B.e, (char *)tn[tb], rc(z2));
                                expectE("zgemm", C2, add(scl(want, z1), scl(c0, z2)), cx);
                            }
                        }
                        intact(A, "gemm"); intact(B, "gemm");
                    }
                    intact(a, "matmul"); intact(b, "matmul");
                }
            });
    /* square matrices: solves, factorizations, matrix functions, Sylvester equations */
    for (int cx = 0; cx < 2; cx++)
        for (int n = 1; n <= NMAX(); n++) for (int k = 1; k <= NMAX(); k++)
            group(fmt("solve%s/%dx%d", cx ? "C" : "R", n, k), [&] {
                for (int ma = 0; ma < NMODES; ma++) for (int mb = 0; mb < NMODES; mb++) for (unsigned sd = 0; sd < (thorough() ? 8u : 3u); sd++) {
                    setcase(fmt("seed %u operand states %d %d", sd, ma, mb));
                    state(); trace();
                    CM A0 = add(gmat(n, n, 100 + sd, cx), eye(n), 3.0);
                    Opnd a = mkop(A0, cx, ma), b = mkop(gmat(n, k, 110 + sd, cx), cx, mb), bt = mkop(gmat(k, n, 120 + sd, cx), cx, mb);
                    for (int rep = 0; rep < 2; rep++) {
                        expectE("solveL", a.e % b.e, lsolve(a.v, b.v), cx, 1e-8);
                        expectE("solveR", bt.e / a.e, adj(lsolve(adj(a.v), adj(bt.v))), cx, 1e-8);
                    }
                    CM L = tri(A0, true);
                    Opnd l = mkop(L, cx, ma);
                    expectE("triN", b.e.TriangleLinSol(l.e, GLOBAL::N), lsolve(L, b.v), cx, 1e-8);
                    expectE("triT", b.e.TriangleLinSol(l.e, GLOBAL::T), lsolve(tr(L), b.v), cx, 1e-8);
                    expectE("triC", b.e.TriangleLinSol(l.e, GLOBAL::C), lsolve(adj(L), b.v), cx, 1e-8);
                    Opnd h = mkop(herm(n, 130 + sd, cx), cx, ma), p = mkop(hpd(n, 140 + sd, cx), cx, ma);
                    for (int up = 0; up < 2; up++) {
                        Element E = h.e;
                        E.EigenDecomSym(GLOBAL::V, up ? GLOBAL::U : GLOBAL::L);
                        CM V = toCM(E.Field("_EigVec")), s = toCM(E.Field("_EigVal")), D(n, n);
                        for (int i = 0; i < n; i++) { D(i, i) = s.a[i]; if (std::fabs(s.a[i].imag()) > 1e-12 || (i && s.a[i].real() < s.a[i - 1].real() - 1e-12)) violation("value:eig-order", "eigenvalues are not real and ascending"); }
                        expect("eig", mul(V, mul(D, adj(V))), h.v);
                        expect("eig-orth", mul(adj(V), V), eye(n));
                        Element E2 = h.e;
                        E2.EigenDecomSym(GLOBAL::N, up ? GLOBAL::U : GLOBAL::L);
                        expect("eig-N", toCM(E2.Field("_EigVal")), s);
                        expectE("exp", E2.ExpSym(up ? GLOBAL::U : GLOBAL::L), expm(h.v), cx, 1e-8);
                        Element P = p.e;
                        Element lg = P.LogSym(up ? GLOBAL::U : GLOBAL::L);
                        expect("log", expm(toCM(lg)), p.v, 1e-7);
                        expect("log-herm", adj(toCM(lg)), toCM(lg));
                        /* only the named triangle may be read */
                        Element G = mk(tri(h.v, !up), cx), G2 = G;
                        expectE("exp-tri", G.ExpSym(up ? GLOBAL::U : GLOBAL::L), expm(h.v), cx, 1e-8);
                    }
                    Element P = p.e;
                    for (int rep = 0; rep < 2; rep++) {
                        P.CholDecom();
                        CM Lc = toCM(P.Field("_L"));
                        expect("chol", mul(Lc, adj(Lc)), p.v);
                        expect("chol-lower", Lc, tri(Lc, true));
                    }
                    {
                        Element S = a.e;
                        S.SchurForm();
                        CM Q = toCM(S.Field("_SchurVec")), T = toCM(S.Field("_SchurForm"));
                        expect("schur", mul(Q, mul(T, adj(Q))), a.v);
                        expect("schur-orth", mul(adj(Q), Q), eye(n));
                        for (int i = 0; i < n; i++) for (int j = 0; j < i - (cx ? 0 : 1); j++) if (std::abs(T(i, j)) > 1e-10) violation("value:schur-shape", "the Schur form is not (quasi) triangular");
                        Element S2 = a.e;
                        S2.SchurForm(GLOBAL::N);
                        Element S3 = S2;
                        S3.SchurForm();
                        CM Q3 = toCM(S3.Field("_SchurVec")), T3 = toCM(S3.Field("_SchurForm"));
                        expect("schur-NV", mul(Q3, mul(T3, adj(Q3))), a.v);
                    }
                    {
                        CM Bv = add(gmat(k, k, 150 + sd, cx), eye(k), 4.0);
                        Opnd B = mkop(Bv, cx, mb), C = mkop(gmat(n, k, 160 + sd, cx), cx, ma);
                        Element X = C.e.SYL(a.e, B.e);
                        CM x = toCM(X);
                        expectE("sylvester", X, x, cx);
                        expect("sylvester", add(mul(a.v, x), mul(x, B.v)), C.v, 1e-8);
                        if (k == n) { Element X2 = C.e.SYL(a.e, a.e); CM x2 = toCM(X2); expect("sylvester-same", add(mul(a.v, x2), mul(x2, a.v)), C.v, 1e-8); }
                        intact(B, "sylvester"); intact(C, "sylvester");
                    }
                    intact(a, "solve"); intact(b, "solve"); intact(bt, "solve"); intact(l, "solve"); intact(h, "solve"); intact(p, "solve");
                }
            });
}

/* ---- sparse ---- */
static CM dense(int m, int n, unsigned mask, bool cx, std::vector<integer> &ir, std::vector<integer> &jc, std::vector<double> &v, std::vector<realdpcomplex> &zv, bool dup, bool rev)
{
    CM D(m, n);
    std::vector<int> pos;
    for (int k = 0; k < m * n; k++) if (mask >> k & 1) pos.push_back(k);
    if (rev) std::reverse(pos.begin(), pos.end());
    if (dup && !pos.empty()) pos.push_back(pos[0]);
    unsigned t = 0;
    for (int k : pos) {
        int i = k % m, j = k / m;
        cd x(gval(mask * 7 + t), cx ? gval(mask * 7 + t + 500) : 0);
        t++;
        D(i, j) += x;
        ir.push_back(i); jc.push_back(j); v.push_back(x.real()); zv.push_back(rc(x));
    }
    if (ir.empty()) { ir.push_back(0); jc.push_back(0); v.push_back(0); zv.push_back(rc(0)); }
    return D;
}
struct Sp { SparseMatrix *s; CM d; bool cx; };
static Sp mksp(int m, int n, unsigned mask, bool cx, bool dup, bool rev)
{
    std::vector<integer> ir, jc; std::vector<double> v; std::vector<realdpcomplex> zv;
    Sp r;
    r.cx = cx;
    r.d = dense(m, n, mask, cx, ir, jc, v, zv, dup, rev);
    int nz = (int)ir.size();
    r.s = cx ? new SparseMatrix(m, n, ir.data(), jc.data(), zv.data(), nz) : new SparseMatrix(m, n, ir.data(), jc.data(), v.data(), nz);
    return r;
}
static void C05()
{
    int mx = thorough() ? 12 : 9;
    for (int cx = 0; cx < 2; cx++)
        for (int m = 1; m <= 4; m++) for (int n = 1; n <= 4; n++) {
            if (m * n > mx) continue;
            group(fmt("mul%s/%dx%d", cx ? "C" : "R", m, n), [&] {
                for (unsigned mask = 0; mask < (1u << (m * n)); mask++) for (int dup = 0; dup < 2; dup++) for (int rev = 0; rev < 2; rev++) {
                    setcase(fmt("pattern %x duplicate %d reversed %d", mask, dup, rev));
                    state();
                    Sp s = mksp(m, n, mask, cx, dup, rev);
                    if (s.s->Getrow() != m || s.s->Getcol() != n || s.s->Getiscomplex() != (bool)cx) violation("shape:sparse", "the sparse matrix reports another shape or type");
                    for (int k = 1; k <= 3; k++) {
                        Opnd b = mkop(gmat(n, k, 5, cx), cx, k % 3), c = mkop(gmat(k, m, 6, cx), cx, k % 3);
                        expectE("sparse*dense", (*s.s) * b.e, mul(s.d, b.v), cx);
                        expectE("dense*sparse", c.e * (*s.s), mul(c.v, s.d), cx);
                        intact(b, "sparse"); intact(c, "sparse");
                        trace();
                    }
                    delete s.s;
                }
            });
        }
    /* histories of creating, using and destroying several sparse matrices: the handle of one never serves another */
    int depth = thorough() ? 8 : 6;
    for (int f = 0; f < 6; f++)
        group(fmt("handles/%d", f), [&] {
            /* slots 0..2; action 2*s: create or destroy slot s, 2*s+1: multiply with slot s */
            std::vector<int> idx(depth, 0);
            idx[0] = f;
            while (true) {
                std::string cs;
                for (int a : idx) cs += fmt("%s%d ", a % 2 ? "use" : "toggle", a / 2);
                setcase(cs);
                Sp sl[3] = {{nullptr, CM(), false}, {nullptr, CM(), false}, {nullptr, CM(), false}};
                unsigned gen = 1;
                bool ok = true;
                for (int a : idx) {
                    Sp &s = sl[a / 2];
                    if (a % 2 == 0) {
                        if (s.s) { delete s.s; s.s = nullptr; }
                        else { gen++; bool cx = (a / 2 == 1); s = mksp(2 + a / 2, 2, (gen * 5 + a) & 15, cx, gen & 1, false); }
                    } else if (!s.s) { ok = false; break; }
                    else {
                        CM B = gmat(s.d.c, 2, 7, s.cx);
                        expectE("handle", (*s.s) * mk(B, s.cx), mul(s.d, B), s.cx);
                    }
                    trans();
                }
                if (ok) {
                    for (auto &s : sl) if (s.s) { CM B = gmat(s.d.c, 2, 8, s.cx); expectE("handle-end", (*s.s) * mk(B, s.cx), mul(s.d, B), s.cx); }
                    state(); trace();
                }
                for (auto &s : sl) if (s.s) delete s.s;
                int p = depth - 1;
                while (p > 0 && idx[p] == 5) { idx[p] = 0; p--; }
                if (p == 0) break;
                idx[p]++;
            }
        });
}

/* ---- transforms: linear maps are decided on a complete basis, plus linearity on generic pairs ---- */
static CM dft(const CM &A, int sign)
{
    CM R(A.r, A.c);
    for (int p = 0; p < A.r; p++) for (int q = 0; q < A.c; q++) {
        cd s = 0;
        for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) s += A(i, j) * std::polar(1.0, sign * 2 * M_PI * ((double)p * i / A.r + (double)q * j / A.c));
        R(p, q) = s;
    }
    return R;
}
static CM haar(CM A)
{
    auto one = [](std::vector<cd> v) {
        int n = (int)v.size(), k = 1;
        while (2 * k <= n) k *= 2;
        while (k > 1) {
            std::vector<cd> t = v;
            for (int i = 0; i < k / 2; i++) { t[i] = (v[2 * i] + v[2 * i + 1]) / std::sqrt(2.0); t[k / 2 + i] = (v[2 * i] - v[2 * i + 1]) / std::sqrt(2.0); }
            v = t;
            k /= 2;
        }
        return v;
    };
    for (int j = 0; j < A.c; j++) { std::vector<cd> v; for (int i = 0; i < A.r; i++) v.push_back(A(i, j)); v = one(v); for (int i = 0; i < A.r; i++) A(i, j) = v[i]; }
    for (int i = 0; i < A.r; i++) { std::vector<cd> v; for (int j = 0; j < A.c; j++) v.push_back(A(i, j)); v = one(v); for (int j = 0; j < A.c; j++) A(i, j) = v[j]; }
    return A;
}
static void C06()
{
    int N = thorough() ? 12 : 8;
    for (int r = 1; r <= N; r++) for (int c = 1; c <= N; c++)
        group(fmt("transform/%dx%d", r, c), [&] {
            std::vector<CM> in;
            for (int k = 0; k < r * c; k++) for (int im = 0; im < 2; im++) { CM e(r, c); e.a[k] = im ? cd(0, 1) : cd(1, 0); in.push_back(e); }
            in.push_back(gmat(r, c, 3, true));
            in.push_back(CM(r, c));
            in.push_back(add(gmat(r, c, 4, true), gmat(r, c, 3, true), cd(-2, 0.5)));
            for (size_t q = 0; q < in.size(); q++) {
                setcase(fmt("input %zu", q));
                state(); trace();
                Opnd a = mkop(in[q], true, q % 3);
                Element F = a.e.GetFFT2D(FFTW_FORWARD), B = a.e.GetFFT2D(FFTW_BACKWARD);
                expectE("fft", F, dft(a.v, -1), true);
                expectE("ifft", B, dft(a.v, 1), true);
                expectE("fft-inverse", F.GetFFT2D(FFTW_BACKWARD) / (double)(r * c), a.v, true);
                { Element R(r, c, "complex"); Element Rs; a.e.FFT2D(FFTW_FORWARD, &R); expectE("fft-into", R, dft(a.v, -1), true); Rs = R; a.e.FFT2D(FFTW_BACKWARD, &R); expectE("fft-into2", R, dft(a.v, 1), true); expectE("fft-bystander", Rs, dft(a.v, -1), true); }
                Element H = a.e.GetHaarFWT();
                expectE("haar", H, haar(a.v), true);
                expectE("haar-inverse", H.GetInvHaarFWT(), a.v, true);
                CM n1(1, 1), n2(1, 1);
                n1(0, 0) = H.Fnorm(); n2(0, 0) = nrm(a.v);
                expect("haar-isometry", n1, n2);
                intact(a, "transform");
                std::vector<realdpcomplex> buf(r * c);
                for (int k = 0; k < r * c; k++) buf[k] = rc(a.v.a[k]);
                auto back = [&] { CM R(r, c); for (int k = 0; k < r * c; k++) R.a[k] = cd(buf[k].r, buf[k].i); return R; };
                haarFWT_2d(r, c, buf.data());
                expect("haar2d", back(), haar(a.v));
                haarFWT_2d_inverse(r, c, buf.data());
                expect("haar2d-inverse", back(), a.v);
                if (c == 1) {
                    CM one = a.v;
                    std::vector<realdpcomplex> b1(r);
                    for (int k = 0; k < r; k++) b1[k] = rc(one.a[k]);
                    haarFWT_1d(r, b1.data());
                    CM R(r, 1);
                    for (int k = 0; k < r; k++) R.a[k] = cd(b1[k].r, b1[k].i);
                    expect("haar1d", R, haar(one));
                    haarFWT_1d_inverse(r, b1.data());
                    for (int k = 0; k < r; k++) R.a[k] = cd(b1[k].r, b1[k].i);
                    expect("haar1d-inverse", R, one);
                }
            }
        });
}

int main(int argc, char **argv) { return run(argc, argv, {{"C03", C03}, {"C05", C05}, {"C06", C06}}); }

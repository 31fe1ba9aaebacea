/* The manifolds of the library as a finite zoo: for every manifold, parameter set and representation a finite family of
 * points and, at each point, a complete basis of the tangent space.  Everything a check needs to know about a manifold
 * independently of the library is given here by its definition on plain numbers: membership, the represented abstract
 * point (for quotients), and the Riemannian metric. */
#ifndef MAN_H
#define MAN_H
#include "ref.h"
#include "Manifolds/Manifold.h"
#include "Manifolds/Euclidean.h"
#include "Manifolds/Stiefel.h"
#include "Manifolds/CStiefel.h"
#include "Manifolds/Sphere.h"
#include "Manifolds/SphereTx.h"
#include "Manifolds/Grassmann.h"
#include "Manifolds/SPDManifold.h"
#include "Manifolds/SymFixedRankQ.h"
#include "Manifolds/CSymFixedRankQ.h"
#include "Manifolds/FixedRankE.h"
#include "Manifolds/FixedRankQ2F.h"
#include "Manifolds/CFixedRankQ2F.h"
#include "Manifolds/MultiManifolds.h"
#include "Problems/Problem.h"
#include <memory>
typedef std::vector<double> V;

inline double vdot(const V &a, const V &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
inline double vnrm(const V &a) { return std::sqrt(vdot(a, a)); }
inline V vadd(const V &a, const V &b, double s = 1) { V r = a; for (size_t i = 0; i < r.size(); i++) r[i] += s * b[i]; return r; }
inline V vscl(const V &a, double s) { V r = a; for (auto &x : r) x *= s; return r; }
inline bool vfin(const V &a) { for (double x : a) if (!std::isfinite(x)) return false; return true; }
inline double vdist(const V &a, const V &b) { if (a.size() != b.size()) return 1e300; V d = vadd(a, b, -1); double s = vnrm(d); return std::isfinite(s) ? s : 1e300; }
inline double vrel(const V &a, const V &b) { double d = vdist(a, b); return d >= 1e300 ? d : d / (1 + std::max(vnrm(a), vnrm(b))); }
inline std::string vshow(const V &a) { std::string s = "["; for (size_t i = 0; i < a.size() && i < 12; i++) s += mc::fmt("%.8g ", a[i]); return s + "]"; }

inline V flat(const Element &E) { int n = E.Getlength(); const double *p = E.ObtainReadData(); if (!p) return V(n, NAN); return V(p, p + n); }
inline void setflat(Element &E, const V &v) { double *p = E.ObtainWriteEntireData(); for (size_t i = 0; i < v.size(); i++) p[i] = v[i]; }
inline CM matof(const double *p, int r, int c, bool cx) { CM R(r, c); for (int i = 0; i < r * c; i++) R.a[i] = cx ? cd(p[2 * i], p[2 * i + 1]) : cd(p[i], 0); return R; }
inline V vecof(const CM &A, bool cx) { V r; for (auto &z : A.a) { r.push_back(z.real()); if (cx) r.push_back(z.imag()); } return r; }
inline double rip(const CM &A, const CM &B) { double s = 0; for (size_t i = 0; i < A.a.size(); i++) s += (std::conj(A.a[i]) * B.a[i]).real(); return s; }

/* orthonormal columns (Gram-Schmidt twice) of a generic matrix */
inline CM orth(CM A)
{
    for (int j = 0; j < A.c; j++) {
        for (int rep = 0; rep < 2; rep++)
            for (int k = 0; k < j; k++) {
                cd s = 0;
                for (int i = 0; i < A.r; i++) s += std::conj(A(i, k)) * A(i, j);
                for (int i = 0; i < A.r; i++) A(i, j) -= s * A(i, k);
            }
        double n = 0;
        for (int i = 0; i < A.r; i++) n += std::norm(A(i, j));
        for (int i = 0; i < A.r; i++) A(i, j) /= std::sqrt(n);
    }
    return A;
}
/* eigenvalues of a Hermitian matrix by cyclic Jacobi rotations on its real embedding */
inline V heig(const CM &A)
{
    int n = A.r, N = 2 * n;
    std::vector<double> M((size_t)N * N);
    auto at = [&](int i, int j) -> double & { return M[(size_t)i * N + j]; };
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        at(i, j) = A(i, j).real(); at(i + n, j + n) = A(i, j).real(); at(i, j + n) = -A(i, j).imag(); at(i + n, j) = A(i, j).imag();
    }
    for (int sweep = 0; sweep < 60; sweep++) {
        double off = 0;
        for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) off += at(i, j) * at(i, j);
        if (off < 1e-28) break;
        for (int p = 0; p < N; p++) for (int q = p + 1; q < N; q++) {
            if (std::fabs(at(p, q)) < 1e-300) continue;
            double th = (at(q, q) - at(p, p)) / (2 * at(p, q)), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
            for (int k = 0; k < N; k++) { double a = at(k, p), b = at(k, q); at(k, p) = c * a - s * b; at(k, q) = s * a + c * b; }
            for (int k = 0; k < N; k++) { double a = at(p, k), b = at(q, k); at(p, k) = c * a - s * b; at(q, k) = s * a + c * b; }
        }
    }
    V e;
    for (int i = 0; i < N; i++) e.push_back(at(i, i));
    std::sort(e.begin(), e.end());
    V r;
    for (int i = 0; i < n; i++) r.push_back(e[2 * i]);
    return r;
}
inline V singv(const CM &A) { V e = heig(mul(adj(A), A)); for (double &x : e) x = std::sqrt(std::max(0.0, x)); return e; } /* ascending */

struct Man {
    std::string name, kind;
    Manifold *M = nullptr;
    bool intr = false;       /* tangent vectors in intrinsic representation */
    bool quotient = false;
    bool hasinv = false;     /* offers an inverse retraction */
    bool exp = false;        /* retraction is the exponential map */
    bool isodeclared = false;/* vector transport documented as isometric */
    bool parallelization = false;
    bool hasIE = false;      /* implements intrinsic <-> extrinsic conversion */
    bool flatmetric = false; /* metric does not depend on the point and is the Euclidean one of the ambient space */
    bool diffsame = true;    /* differentiated retraction implemented along the retracted direction */
    bool rdist = false;      /* Dist is the (embedded or geodesic) distance of the metric in use */
    bool levicivita = true;  /* the converted Hessian is that of the Levi-Civita connection */
    bool opetransport = false;
    bool isoextr = false;    /* isometric also in the extrinsic representation */
    bool normal = false;     /* coordinates of normal vectors */
    bool opentotal = false;  /* total space of the quotient is open in the ambient space */
    int dim = -1;            /* dimension of the manifold */
    bool diffother = false;  /* differentiated retraction implemented for directions other than the retracted one */
    bool cotangent = false;
    int npts = 4;
    int extlen = 0;
    std::function<Variable(int)> pt;
    std::function<Variable(const V &)> at; /* the point with these numbers, with what the library wants attached to it */
    std::function<double(const V &)> defect;
    std::function<V(const V &)> inv;
    std::function<double(const V &, const V &, const V &)> metric;   /* extrinsic representation */
    std::function<double(const V &x, const V &e)> tangdefect;        /* distance from the tangent (horizontal) space */
    std::function<V(int)> ptflat;
    std::function<Variable(const V &)> mkpoint;
    std::vector<std::shared_ptr<Man>> parts;
    std::function<Vector(const V &)> ambvec; /* ambient vector as the problem would supply it */
    std::function<V(const V &)> riesz;   /* ambient gradient in the inner product of the ambient space, if not the dot product */
    std::function<double(const V &)> minsing;
    std::function<double(const V &, const V &)> margin; /* distance of the retraction from leaving its domain */
    V dinv(const V &x, const V &e) const
    {
        double h = 1e-3 / (1 + vnrm(e));
        return vscl(vadd(inv(vadd(x, e, h)), inv(vadd(x, e, -h)), -1), 1 / (2 * h));
    }
    Variable plain(const V &x) const { Variable v(M->GetEMPTYEXTR()); setflat(v, x); v.RemoveAllFromFields(); return v; }
};

/* tangent vectors of the representation in use */
inline Vector extof(const Man &m, const Variable &x, const Vector &v)
{
    if (!m.intr) return v;
    Vector r(m.M->GetEMPTYEXTR());
    m.M->ObtainExtr(x, v, &r);
    return r;
}
inline Vector amb(const Man &m, const V &e) { Vector v(m.M->GetEMPTYEXTR()); setflat(v, e); v.RemoveAllFromFields(); return v; }
inline Vector fromext(const Man &m, const Variable &x, const V &e)
{
    Vector v = amb(m, e);
    Vector p(m.M->GetEMPTYEXTR());
    if (m.kind == "SphereTx") { m.M->Projection(x, v, &p); return p; }
    m.M->ExtrProjection(x, v, &p);
    if (!m.intr) return p;
    Vector r(m.M->GetEMPTYINTR());
    m.M->ObtainIntr(x, p, &r);
    return r;
}
/* A complete basis of the tangent space: the vectors in the representation in use, their numbers in it (rep) and in the
 * extrinsic representation (ext). */
struct Basis {
    std::vector<Vector> e;
    std::vector<V> ext, rep;
    int n = 0;
    CM G; /* Gram matrix of rep, to read off coordinates */
    void finish()
    {
        n = (int)e.size();
        G = CM(n, n);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) G(i, j) = vdot(rep[i], rep[j]);
    }
    V coords(const V &v) const
    {
        CM b(n, 1);
        for (int i = 0; i < n; i++) b(i, 0) = vdot(rep[i], v);
        CM c = lsolve(G, b);
        V r(n);
        for (int i = 0; i < n; i++) r[i] = c(i, 0).real();
        return r;
    }
    V comb(const V &c, const std::vector<V> &f) const { V s(f.empty() ? 0 : f[0].size(), 0.0); for (int i = 0; i < n; i++) s = vadd(s, f[i], c[i]); return s; }
    double residual(const V &v) const { return vdist(v, comb(coords(v), rep)); }
};
inline Basis basis(const Man &m, const Variable &x)
{
    Basis b;
    V xf = flat(x);
    if (m.intr && m.kind == "Product") {
        int d = m.M->GetEMPTYINTR().Getlength(), o = 0;
        for (size_t j = 0; j < m.parts.size(); j++) {
            Variable xj(x.GetElement((integer)j));
            xj.CopyOnWrite();
            Basis q = basis(*m.parts[j], xj);
            for (int i = 0; i < q.n; i++) {
                V c(d, 0.0);
                for (size_t k = 0; k < q.rep[i].size(); k++) c[o + k] = q.rep[i][k];
                Vector v(m.M->GetEMPTYINTR());
                setflat(v, c);
                b.e.push_back(v);
                b.rep.push_back(c);
                b.ext.push_back(flat(extof(m, x, v)));
            }
            o += m.parts[j]->intr ? m.parts[j]->M->GetEMPTYINTR().Getlength() : m.parts[j]->extlen;
        }
        b.finish();
        return b;
    }
    if (m.intr) {
        int d = m.M->GetEMPTYINTR().Getlength();
        for (int i = 0; i < d; i++) {
            Vector v(m.M->GetEMPTYINTR());
            V c(d, 0.0); c[i] = 1;
            setflat(v, c);
            b.e.push_back(v);
            b.rep.push_back(c);
            b.ext.push_back(flat(extof(m, x, v)));
        }
        b.finish();
        return b;
    }
    std::vector<V> cand;
    for (int i = 0; i < m.extlen; i++) {
        V a(m.extlen, 0.0); a[i] = 1;
        cand.push_back(flat(fromext(m, x, a)));
    }
    /* pivoted Gram-Schmidt in the metric */
    std::vector<V> Q;
    double first = 0;
    while (true) {
        int best = -1; double bn = 0;
        for (size_t i = 0; i < cand.size(); i++) { double q = std::sqrt(std::max(0.0, m.metric(xf, cand[i], cand[i]))); if (q > bn) { bn = q; best = (int)i; } }
        if (first == 0) first = bn;
        if (best < 0 || !(bn > 1e-7 * first)) break;
        V q = vscl(cand[best], 1 / bn);
        for (auto &o : Q) q = vadd(q, o, -m.metric(xf, o, q));
        q = vscl(q, 1 / std::sqrt(m.metric(xf, q, q)));
        Q.push_back(q);
        for (auto &c : cand) for (int rep = 0; rep < 2; rep++) c = vadd(c, q, -m.metric(xf, q, c));
    }
    for (auto &q : Q) { Vector v = fromext(m, x, q); b.e.push_back(v); b.ext.push_back(flat(v)); b.rep.push_back(flat(v)); }
    b.finish();
    return b;
}
/* tangent vector with given coordinates in the basis */
inline Vector tvec(const Man &m, const Variable &x, const Basis &b, const V &c)
{
    if (m.intr) { Vector v(m.M->GetEMPTYINTR()); setflat(v, b.comb(c, b.rep)); return v; }
    return fromext(m, x, b.comb(c, b.ext));
}
inline Vector fromextx(const Man &m, const Variable &x, const Basis &b, const V &c)
{
    Vector p(m.M->GetEMPTYEXTR());
    Vector v = amb(m, b.comb(c, b.ext));
    if (m.kind == "SphereTx") { m.M->Projection(x, v, &p); return p; }
    m.M->ExtrProjection(x, v, &p);
    return p;
}
inline V gcoef(int n, int k, double s = 1) { V c(n); for (int i = 0; i < n; i++) c[i] = s * gval(777 * (k + 1) + i); return c; }
inline V ecoef(int n, int i, double s = 1) { V c(n, 0.0); c[i] = s; return c; }

/* ---- families of points ---- */
inline CM idcols(int n, int p) { CM A(n, p); for (int i = 0; i < p; i++) A(i, i) = 1; return A; }
inline CM stpoint(int n, int p, bool cx, int k)
{
    if (k == 0) return idcols(n, p);
    if (k == 1) { CM A(n, p); for (int i = 0; i < p; i++) A(n - 1 - i, i) = cx && i == 0 ? cd(0, 1) : cd(i % 2 ? 1 : -1, 0); return A; }
    return orth(gmat(n, p, 40 + k, cx));
}
inline double stdefect(const CM &X) { return dist(mul(adj(X), X), eye(X.c)); }
inline CM lrpoint(int n, int p, bool cx, int k)
{
    if (k == 0) return idcols(n, p);
    if (k == 1) { CM A(n, p); for (int i = 0; i < p; i++) A(n - 1 - i, i) = (i % 2 ? 0.5 : -3); return A; }
    return gmat(n, p, 60 + k, cx);
}
inline double rankdefect(const CM &X) { V s = singv(X); for (double d : s) if (!std::isfinite(d)) return 1e300; return s[0] > 1e-10 * s.back() && s.back() > 0 ? 0 : 1; }

typedef std::shared_ptr<Man> MP;
inline MP mkeuc(int r, int c, int n, bool cx)
{
    MP m(new Man);
    m->name = mc::fmt("Euclidean(%d,%d,%d,%s)", r, c, n, cx ? "complex" : "real"); m->kind = "Euclidean";
    m->M = new Euclidean(r, c, n, cx ? "complex" : "real");
    m->extlen = r * c * n * (cx ? 2 : 1);
    m->defect = [](const V &x) { return vfin(x) ? 0.0 : 1e300; };
    m->ptflat = [=](int k) { V x(r * c * n * (cx ? 2 : 1)); for (size_t i = 0; i < x.size(); i++) x[i] = k == 0 ? 0 : gval(100 * k + i); return x; };
    m->tangdefect = [](const V &, const V &) { return 0.0; };
    m->flatmetric = m->exp = m->isoextr = m->isodeclared = m->diffother = m->cotangent = m->hasinv = m->rdist = true;
    m->dim = m->extlen;
    return m;
}
inline MP mkst(int n, int p, int set, const char *what = "Stiefel", bool hhr = false, bool canonical = false)
{
    MP m(new Man);
    std::string w = what;
    bool cx = w == "CStiefel", sph = w == "Sphere";
    m->name = mc::fmt("%s(%d,%d)set%d%s%s", what, n, p, set, hhr ? "+HHR" : "", canonical ? "+canonical" : ""); m->kind = w;
    if (cx) {
        CStiefel *s = new CStiefel(n, p); m->M = s;
        if (set == 1) s->ChooseParamsSet1(); if (set == 2) s->ChooseParamsSet2(); if (set == 3) s->ChooseParamsSet3(); if (set == 4) s->ChooseParamsSet4();
    } else if (sph) {
        Sphere *s = new Sphere(n); m->M = s;
        if (set == 1) s->ChooseParamsSet1(); if (set == 2) s->ChooseParamsSet2(); if (set == 3) s->ChooseParamsSet3(); if (set == 4) s->ChooseParamsSet4();
    } else {
        Stiefel *s = new Stiefel(n, p); m->M = s;
        if (set == 1) s->ChooseParamsSet1(); if (set == 2) s->ChooseParamsSet2(); if (set == 3) s->ChooseParamsSet3(); if (set == 4) s->ChooseParamsSet4(); if (set == 5) s->ChooseParamsSet5();
    }
    m->intr = m->M->GetIsIntrinsic();
    if (hhr) m->M->SetHasHHR(true);
    bool qf = sph ? set != 2 : set == 1 || set == 2, polar = !sph && (set == 3 || set == 4);
    m->diffother = qf || (sph && set == 2);
    m->cotangent = (qf && !cx) || (sph && set == 2); /* not implemented for the complex qf retraction */
    m->hasinv = polar;
    m->exp = sph && set == 2;
    m->parallelization = m->intr;
    m->isodeclared = m->intr || (sph && set >= 2) || (!sph && !cx && set == 5) || hhr;
    m->isoextr = (sph && set >= 2) || (!sph && !cx && set == 5) || hhr;
    m->hasIE = set != 5;
    m->rdist = true;
    m->dim = sph ? n - 1 : cx ? 2 * n * p - p * p : n * p - p * (p + 1) / 2;
    m->opetransport = m->intr || (sph && set >= 2) || hhr;
    m->normal = !sph;
    m->extlen = n * p * (cx ? 2 : 1);
    m->flatmetric = true;
    m->defect = [=](const V &x) { return vfin(x) ? stdefect(matof(x.data(), n, p, cx)) : 1e300; };
    m->ptflat = [=](int k) { return vecof(stpoint(n, p, cx, k), cx); };
    m->tangdefect = [=](const V &x, const V &e) { CM X = matof(x.data(), n, p, cx), E = matof(e.data(), n, p, cx), S = mul(adj(X), E); return nrm(add(S, adj(S))); };
    return m;
}
inline MP mkgr(int n, int p, bool hhr = false, bool extr = false)
{
    MP m(new Man);
    m->name = mc::fmt("Grassmann(%d,%d)%s%s", n, p, hhr ? "+HHR" : "", extr ? "extr" : ""); m->kind = "Grassmann";
    Grassmann *g = new Grassmann(n, p);
    m->M = g;
    if (extr) g->SetIsIntrApproach(false);
    if (hhr) g->SetHasHHR(true);
    m->intr = g->GetIsIntrinsic();
    m->quotient = true;
    m->parallelization = m->intr; m->isodeclared = m->intr || hhr; m->hasIE = true;
    m->isoextr = hhr;
    m->diffother = m->cotangent = true;
    m->opetransport = m->intr || hhr;
    m->dim = p * (n - p);
    m->extlen = n * p;
    m->flatmetric = true;
    m->defect = [=](const V &x) { return vfin(x) ? stdefect(matof(x.data(), n, p, false)) : 1e300; };
    m->ptflat = [=](int k) { return vecof(stpoint(n, p, false, k), false); };
    m->inv = [=](const V &x) { CM X = matof(x.data(), n, p, false); return vecof(mul(X, adj(X)), false); };
    m->tangdefect = [=](const V &x, const V &e) { CM X = matof(x.data(), n, p, false), E = matof(e.data(), n, p, false); return nrm(mul(adj(X), E)); };
    return m;
}
inline CM spdpoint(int n, int k)
{
    if (k == 0) return eye(n);
    if (k == 1) { CM A(n, n); for (int i = 0; i < n; i++) A(i, i) = std::pow(4.0, i) / 2; return A; }
    CM G = gmat(n, n, 80 + k, false), A = add(mul(G, adj(G)), eye(n), 0.3);
    return scl(add(A, adj(A)), 0.5);
}
inline MP mkspd(int n, int set, bool hhr = false)
{
    MP m(new Man);
    m->name = mc::fmt("SPD(%d)set%d%s", n, set, hhr ? "+HHR" : ""); m->kind = "SPD";
    SPDManifold *s = new SPDManifold(n); m->M = s;
    if (set == 1) s->ChooseParamsSet1(); if (set == 2) s->ChooseParamsSet2(); if (set == 3) s->ChooseParamsSet3(); if (set == 4) s->ChooseParamsSet4();
    if (hhr) s->SetHasHHR(true);
    bool af = s->metric == SPDAFFINEINVARIANCE;
    m->intr = s->GetIsIntrinsic();
    m->parallelization = m->intr; m->isodeclared = m->intr || hhr; m->isoextr = hhr; m->hasIE = true;
    m->rdist = true;
    m->diffother = m->diffsame = s->retr == SPDSECONDORDER; /* not implemented for the exponential map */
    m->opetransport = m->intr || hhr;
    m->dim = n * (n + 1) / 2;
    m->inv = [=](const V &x) { CM X = matof(x.data(), n, n, false); return vecof(scl(::add(X, adj(X)), 0.5), false); };
    m->extlen = n * n;
    m->flatmetric = !af;
    m->defect = [=](const V &x) { if (!vfin(x)) return 1e300; CM X = matof(x.data(), n, n, false); double a = dist(X, adj(X)); V e = heig(X); return a + (e[0] > 0 ? 0 : 1); };
    m->ptflat = [=](int k) { return vecof(spdpoint(n, k), false); };
    m->tangdefect = [=](const V &x, const V &e) { CM E = matof(e.data(), n, n, false); return dist(E, adj(E)); };
    if (af) m->metric = [=](const V &x, const V &a, const V &b) { CM X = matof(x.data(), n, n, false), A = lsolve(X, matof(a.data(), n, n, false)), B = lsolve(X, matof(b.data(), n, n, false)); return rip(tr(A), B); };
    return m;
}
inline MP mksym(int n, int p, int set, bool intr, bool cx, bool hhr = false)
{
    MP m(new Man);
    m->name = mc::fmt("%sSymFixedRankQ(%d,%d)set%d%s%s", cx ? "C" : "", n, p, set, intr ? "intr" : "extr", hhr ? "+HHR" : ""); m->kind = cx ? "CSymFixedRankQ" : "SymFixedRankQ";
    int met;
    if (cx) {
        CSymFixedRankQ *s = new CSymFixedRankQ(n, p); m->M = s;
        if (set == 1) s->ChooseParamsSet1(); if (set == 2) s->ChooseParamsSet2(); if (set == 3) s->ChooseParamsSet3(); if (set == 4) s->ChooseParamsSet4();
        met = (set == 1 || set == 3) ? 0 : 1;
        m->parallelization = set <= 2;
    } else {
        SymFixedRankQ *s = new SymFixedRankQ(n, p); m->M = s;
        if (set == 1) s->ChooseParamsSet1(); if (set == 2) s->ChooseParamsSet2(); if (set == 3) s->ChooseParamsSet3(); if (set == 4) s->ChooseParamsSet4(); if (set == 5) s->ChooseParamsSet5(); if (set == 6) s->ChooseParamsSet6();
        met = (set - 1) % 3;
        m->parallelization = set <= 3;
    }
    m->M->SetIsIntrApproach(intr);
    if (hhr) m->M->SetHasHHR(true);
    m->intr = intr;
    m->parallelization = m->parallelization && intr;
    m->isodeclared = m->parallelization || hhr;
    m->isoextr = hhr;
    m->hasIE = true;
    m->quotient = true;
    m->extlen = n * p * (cx ? 2 : 1);
    m->dim = cx ? 2 * n * p - p * p : n * p - p * (p - 1) / 2;
    m->opetransport = m->isodeclared;
    m->opentotal = true;
    m->minsing = [=](const V &x) { return singv(matof(x.data(), n, p, cx))[0]; };
    /* in intrinsic representation the retraction is the projection of X X^H + E X^H + X E^H: needs p positive eigenvalues */
    if (intr) m->margin = [=](const V &x, const V &e) {
        CM X = matof(x.data(), n, p, cx), E = matof(e.data(), n, p, cx), EX = mul(E, adj(X));
        V w = heig(::add(mul(X, adj(X)), ::add(EX, adj(EX))));
        return std::sqrt(std::max(0.0, w[n - p]));
    };
    m->defect = [=](const V &x) { return vfin(x) ? rankdefect(matof(x.data(), n, p, cx)) : 1e300; };
    m->ptflat = [=](int k) { return vecof(lrpoint(n, p, cx, k), cx); };
    m->inv = [=](const V &x) { CM X = matof(x.data(), n, p, cx); return vecof(mul(X, adj(X)), cx); };
    m->metric = [=](const V &x, const V &a, const V &b) {
        CM X = matof(x.data(), n, p, cx), A = matof(a.data(), n, p, cx), B = matof(b.data(), n, p, cx);
        if (met == 2) return rip(A, B);
        CM XX = mul(adj(X), X), AB = mul(adj(A), B);
        double h = rip(XX, AB);
        if (met == 1) return h;
        CM P = mul(mul(adj(X), A), mul(adj(X), B));
        double t = 0;
        for (int i = 0; i < p; i++) t += P(i, i).real();
        return 2 * (t + h);
    };
    m->flatmetric = met == 2;
    /* horizontal: EUC, HGZ: (X^H X)^-1 X^H E Hermitian;  QEUC: X^H E Hermitian */
    m->tangdefect = [=](const V &x, const V &e) { CM X = matof(x.data(), n, p, cx), E = matof(e.data(), n, p, cx), S = mul(adj(X), E); if (met != 2) S = lsolve(mul(adj(X), X), S); return dist(S, adj(S)); };
    m->diffother = !intr;   /* documented as that of x + eta, which is not the retraction in intrinsic representation */
    m->diffsame = !intr;
    return m;
}
inline MP mkfre(int mm, int n, int r)
{
    MP m(new Man);
    m->name = mc::fmt("FixedRankE(%d,%d,%d)", mm, n, r); m->kind = "FixedRankE";
    m->M = new FixedRankE(mm, n, r);
    m->intr = false;
    m->extlen = mm * n;
    m->flatmetric = m->rdist = m->normal = true;
    m->dim = r * (mm + n - r);
    m->minsing = [=](const V &x) { V s = singv(matof(x.data(), mm, n, false)); return s[s.size() - r]; };
    auto fac = [=](int k, CM &U, CM &D, CM &W) {
        U = k == 0 ? idcols(mm, r) : orth(gmat(mm, r, 20 + k, false));
        W = k == 0 ? idcols(n, r) : orth(gmat(n, r, 30 + k, false));
        D = k == 0 ? eye(r) : add(gmat(r, r, 35 + k, false), eye(r), k == 1 ? 5 : 3);
    };
    m->pt = [=](int k) {
        CM U, D, W; fac(k, U, D, W);
        Variable x = mk(mul(mul(U, D), adj(W)), false);
        x.AddToFields("U", mk(U, false)); x.AddToFields("D", mk(D, false)); x.AddToFields("V", mk(W, false));
        return x;
    };
    m->at = [=](const V &x) {
        CM X = matof(x.data(), mm, n, false), U = orth(mul(X, gmat(n, r, 91, false))), W = orth(mul(adj(X), gmat(mm, r, 92, false))), D = mul(mul(adj(U), X), W);
        Variable y = mk(X, false);
        y.AddToFields("U", mk(U, false)); y.AddToFields("D", mk(D, false)); y.AddToFields("V", mk(W, false));
        return y;
    };
    m->ptflat = [=](int k) { CM U, D, W; fac(k, U, D, W); return vecof(mul(mul(U, D), adj(W)), false); };
    m->defect = [=](const V &x) { if (!vfin(x)) return 1e300; V s = singv(matof(x.data(), mm, n, false)); int N = (int)s.size(); double d = 0; for (int i = 0; i < N - r; i++) d += s[i]; return d < 1e-7 * (1 + s.back()) && s[N - r] > 1e-9 * s.back() ? 0.0 : d + 1e-3; };
    m->tangdefect = [=](const V &x, const V &e) {
        /* the part of E outside the column space and outside the row space of X */
        CM X = matof(x.data(), mm, n, false), E = matof(e.data(), mm, n, false);
        CM U = orth(mul(X, gmat(n, r, 91, false))), W = orth(mul(adj(X), gmat(mm, r, 92, false)));
        CM A = add(E, mul(U, mul(adj(U), E)), -1.0);
        return nrm(add(A, mul(mul(A, W), adj(W)), -1.0));
    };
    return m;
}
inline MP mkq2f(int mm, int n, int r, bool intr, bool cx, bool hhr = false)
{
    MP m(new Man);
    m->name = mc::fmt("%sFixedRankQ2F(%d,%d,%d)%s%s", cx ? "C" : "", mm, n, r, intr ? "intr" : "extr", hhr ? "+HHR" : ""); m->kind = cx ? "CFixedRankQ2F" : "FixedRankQ2F";
    if (cx) m->M = new CFixedRankQ2F(mm, n, r); else m->M = new FixedRankQ2F(mm, n, r);
    m->M->SetIsIntrApproach(intr);
    if (hhr) m->M->SetHasHHR(true);
    m->intr = intr; m->quotient = true; m->parallelization = intr; m->isodeclared = intr || hhr; m->hasIE = true;
    int w = cx ? 2 : 1;
    m->extlen = (mm + n) * r * w;
    m->dim = (mm + n - r) * r * w;
    m->diffother = m->opentotal = true;
    m->opetransport = m->isodeclared;
    m->minsing = [=](const V &x) { return std::min(singv(matof(x.data(), mm, r, cx))[0], singv(matof(x.data() + mm * r * w, n, r, cx))[0]); };
    m->defect = [=](const V &x) { return vfin(x) ? rankdefect(matof(x.data(), mm, r, cx)) + rankdefect(matof(x.data() + mm * r * w, n, r, cx)) : 1e300; };
    m->ptflat = [=](int k) { V a = vecof(lrpoint(mm, r, cx, k), cx), b = vecof(lrpoint(n, r, cx, k == 0 ? 0 : k + 7), cx); a.insert(a.end(), b.begin(), b.end()); return a; };
    m->inv = [=](const V &x) { CM G = matof(x.data(), mm, r, cx), H = matof(x.data() + mm * r * w, n, r, cx); return vecof(mul(G, adj(H)), cx); };
    m->metric = [=](const V &x, const V &a, const V &b) {
        /* inner product of the images in the space of m x n matrices */
        CM G = matof(x.data(), mm, r, cx), H = matof(x.data() + mm * r * w, n, r, cx);
        CM A = add(mul(matof(a.data(), mm, r, cx), adj(H)), mul(G, adj(matof(a.data() + mm * r * w, n, r, cx))));
        CM B = add(mul(matof(b.data(), mm, r, cx), adj(H)), mul(G, adj(matof(b.data() + mm * r * w, n, r, cx))));
        return rip(A, B);
    };
    /* horizontal space of the library: (G^H G)^-1 G^H dG = ((H^H H)^-1 H^H dH)^H */
    m->tangdefect = [=](const V &x, const V &e) {
        CM G = matof(x.data(), mm, r, cx), H = matof(x.data() + mm * r * w, n, r, cx);
        CM a = lsolve(mul(adj(G), G), mul(adj(G), matof(e.data(), mm, r, cx))), b = lsolve(mul(adj(H), H), mul(adj(H), matof(e.data() + mm * r * w, n, r, cx)));
        return dist(a, adj(b));
    };
    return m;
}
inline MP mkstx(MP base)
{
    MP m(new Man);
    m->name = "SphereTx[" + base->name + "]"; m->kind = "SphereTx";
    Variable root = base->pt(2);
    Basis *b = new Basis(basis(*base, root));
    m->M = new SphereTx(base->M, new Variable(root));
    m->intr = false;
    m->exp = m->isodeclared = true;
    m->dim = b->n - 1;
    m->extlen = base->intr ? base->M->GetEMPTYINTR().Getlength() : base->extlen;
    V rf = flat(root);
    MP bb = base;
    auto met = [=](const V &a, const V &c) { if (bb->intr) return vdot(a, c); return bb->metric(rf, a, c); };
    m->metric = [=](const V &, const V &a, const V &c) { return met(a, c); };
    m->defect = [=](const V &x) { return vfin(x) ? std::fabs(met(x, x) - 1) + (bb->intr ? 0 : bb->tangdefect(rf, x)) : 1e300; };
    m->ptflat = [=](int k) { V c = k == 0 ? ecoef(b->n, 0) : gcoef(b->n, k); V f = flat(tvec(*bb, root, *b, c)); return vscl(f, 1 / std::sqrt(met(f, f))); };
    m->pt = [=](int k) { V c = k == 0 ? ecoef(b->n, 0) : gcoef(b->n, k); Vector v = tvec(*bb, root, *b, c); V f = flat(v); bb->M->ScalarTimesVector(root, 1 / std::sqrt(met(f, f)), v, &v); return v; };
    m->tangdefect = [=](const V &x, const V &e) { return std::fabs(met(x, e)) + (bb->intr ? 0 : bb->tangdefect(rf, e)); };
    m->riesz = [=](const V &g) { V r(g.size(), 0.0); for (int i = 0; i < b->n; i++) { V e = bb->intr ? b->rep[i] : b->ext[i]; r = vadd(r, e, vdot(g, e) / met(e, e)); } return r; };
    m->ambvec = [=](const V &g) { if (bb->intr) { Vector v(bb->M->GetEMPTYINTR()); setflat(v, g); return v; } return fromext(*bb, root, g); };
    m->at = m->ambvec;
    m->parts.push_back(base);
    return m;
}
/* product: the factors must have been created for it (their representation is set here to that of the product) */
inline MP mkprod(std::vector<MP> f, std::vector<int> pw, bool intr)
{
    MP m(new Man);
    m->kind = "Product";
    std::string s = "Product[";
    Manifold **mm = new Manifold *[f.size()];
    integer *iv = new integer[f.size() + 1];
    iv[0] = 0;
    std::vector<MP> all;
    for (size_t i = 0; i < f.size(); i++) {
        s += f[i]->name + mc::fmt("^%d ", pw[i]);
        mm[i] = f[i]->M;
        iv[i + 1] = iv[i] + pw[i];
        for (int k = 0; k < pw[i]; k++) all.push_back(f[i]);
    }
    m->M = new MultiManifolds(mm, (integer)f.size(), iv);
    m->M->SetIsIntrApproach(intr);
    m->name = s + (intr ? "]intr" : "]extr") + [&] { std::string q; for (auto &p : f) q += p->intr ? "i" : "e"; return q; }();
    m->intr = intr;
    m->parts = all;
    m->extlen = 0;
    m->hasIE = m->isodeclared = m->parallelization = m->diffother = m->cotangent = m->flatmetric = m->exp = m->rdist = m->diffsame = m->levicivita = true;
    m->dim = 0;
    for (auto &p : all) {
        m->extlen += p->extlen; m->quotient |= p->quotient;
        m->hasIE &= p->hasIE; m->isodeclared &= intr ? p->isodeclared : p->isoextr; m->parallelization &= intr && p->parallelization; m->diffother &= p->diffother; m->cotangent &= p->cotangent; m->flatmetric &= p->flatmetric; m->exp &= p->exp; m->rdist &= p->rdist; m->diffsame &= p->diffsame; m->levicivita &= p->levicivita; m->dim += p->dim;
    }
    m->opetransport = m->isodeclared && intr;
    auto cut = [all](const V &x, size_t i) { size_t o = 0; for (size_t j = 0; j < i; j++) o += all[j]->extlen; return V(x.begin() + o, x.begin() + o + all[i]->extlen); };
    m->defect = [=](const V &x) { double d = 0; for (size_t i = 0; i < all.size(); i++) d += all[i]->defect(cut(x, i)); return d; };
    m->ptflat = [=](int k) { V r; for (size_t i = 0; i < all.size(); i++) { V a = all[i]->ptflat(k < 2 ? k : k + (int)i); r.insert(r.end(), a.begin(), a.end()); } return r; };
    m->inv = [=](const V &x) { V r; for (size_t i = 0; i < all.size(); i++) { V a = all[i]->inv(cut(x, i)); r.insert(r.end(), a.begin(), a.end()); } return r; };
    m->metric = [=](const V &x, const V &a, const V &b) { double s2 = 0; for (size_t i = 0; i < all.size(); i++) s2 += all[i]->metric(cut(x, i), cut(a, i), cut(b, i)); return s2; };
    m->tangdefect = [=](const V &x, const V &e) { double d = 0; for (size_t i = 0; i < all.size(); i++) d += all[i]->tangdefect(cut(x, i), cut(e, i)); return d; };
    return m;
}
inline MP fin(MP m)
{
    Man *p = m.get();
    if (!m->inv) m->inv = [](const V &x) { return x; };
    if (!m->metric) m->metric = [](const V &, const V &a, const V &b) { return vdot(a, b); };
    if (!m->at) m->at = [p](const V &x) { return p->plain(x); };
    if (!m->pt) m->pt = [p](int k) { return p->plain(p->ptflat(k)); };
    return m;
}
/* factor of a product with its own choice of representation */
inline MP part(MP m, bool intr) { m->M->SetIsIntrApproach(intr); m->intr = intr; if (!intr) { m->parallelization = false; m->isodeclared = m->opetransport = m->isoextr; } return fin(m); }

/* level: 0 small sizes, 1 and 2 larger ones */
inline std::vector<MP> zoo(int level)
{
    std::vector<MP> z;
    bool big = level > 0, huge = level > 1;
    auto add = [&](MP m) { z.push_back(fin(m)); };
    add(mkeuc(3, 1, 1, false)); add(mkeuc(2, 2, 1, false)); add(mkeuc(2, 1, 2, false)); add(mkeuc(2, 2, 1, true));
    if (big) { add(mkeuc(2, 1, 2, true)); add(mkeuc(1, 1, 1, false)); }
    std::vector<std::pair<int, int>> st = {{3, 1}, {3, 2}, {4, 2}, {2, 2}, {5, 3}};
    if (big) { st.push_back({2, 1}); st.push_back({4, 3}); st.push_back({6, 2}); }
    if (huge) { st.push_back({4, 1}); st.push_back({3, 3}); st.push_back({5, 2}); st.push_back({4, 4}); st.push_back({6, 4}); st.push_back({7, 3}); }
    for (auto &q : st) for (int s = 1; s <= 5; s++) { if (q.first == q.second && q.first == 1) continue; add(mkst(q.first, q.second, s)); }
    for (auto &q : st) for (int s = 1; s <= 3; s += 2) add(mkst(q.first, q.second, s, "Stiefel", true));
    std::vector<std::pair<int, int>> cst = {{2, 1}, {3, 2}, {2, 2}};
    if (big) { cst.push_back({4, 2}); cst.push_back({1, 1}); }
    if (huge) { cst.push_back({3, 1}); cst.push_back({4, 3}); cst.push_back({3, 3}); cst.push_back({5, 2}); }
    for (auto &q : cst) for (int s = 1; s <= 4; s++) { add(mkst(q.first, q.second, s, "CStiefel")); if (s % 2) add(mkst(q.first, q.second, s, "CStiefel", true)); }
    for (int n : {2, 3, 4}) for (int s = 1; s <= 4; s++) { add(mkst(n, 1, s, "Sphere")); if (s == 1) add(mkst(n, 1, s, "Sphere", true)); }
    std::vector<std::pair<int, int>> gr = {{3, 1}, {3, 2}, {4, 2}};
    if (big) { gr.push_back({2, 1}); gr.push_back({5, 2}); gr.push_back({5, 3}); }
    if (huge) { gr.push_back({4, 1}); gr.push_back({4, 3}); gr.push_back({6, 3}); }
    for (auto &q : gr) { add(mkgr(q.first, q.second)); add(mkgr(q.first, q.second, true)); add(mkgr(q.first, q.second, false, true)); }
    for (int n : huge ? std::vector<int>{1, 2, 3, 4, 5} : big ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{1, 2, 3}) for (int s = 1; s <= 4; s++) { add(mkspd(n, s)); if (s <= 2) add(mkspd(n, s, true)); }
    std::vector<std::pair<int, int>> sy = {{3, 1}, {3, 2}, {4, 2}, {2, 2}};
    if (big) { sy.push_back({2, 1}); sy.push_back({5, 2}); sy.push_back({3, 3}); }
    if (huge) { sy.push_back({4, 1}); sy.push_back({5, 3}); sy.push_back({6, 2}); }
    for (auto &q : sy) for (int s = 1; s <= 6; s++) for (int in = 0; in < 2; in++) add(mksym(q.first, q.second, s, in, false));
    for (auto &q : sy) for (int s = 1; s <= 3; s++) add(mksym(q.first, q.second, s, true, false, true));
    std::vector<std::pair<int, int>> csy = {{2, 1}, {3, 2}, {2, 2}};
    if (big) csy.push_back({4, 2});
    if (huge) { csy.push_back({3, 1}); csy.push_back({3, 3}); csy.push_back({5, 2}); }
    for (auto &q : csy) for (int s = 1; s <= 4; s++) for (int in = 0; in < 2; in++) add(mksym(q.first, q.second, s, in, true));
    for (auto &q : csy) for (int s = 1; s <= 2; s++) add(mksym(q.first, q.second, s, true, true, true));
    add(mkfre(3, 3, 1)); add(mkfre(4, 3, 2)); add(mkfre(3, 4, 2));
    if (big) { add(mkfre(3, 2, 2)); add(mkfre(2, 2, 1)); add(mkfre(5, 4, 3)); }
    std::vector<std::vector<int>> q2 = {{3, 2, 1}, {3, 4, 2}, {2, 2, 2}};
    if (big) { q2.push_back({4, 4, 2}); q2.push_back({2, 3, 2}); }
    if (huge) { q2.push_back({5, 3, 1}); q2.push_back({3, 3, 3}); q2.push_back({5, 4, 2}); }
    for (auto &q : q2) for (int in = 0; in < 2; in++) { add(mkq2f(q[0], q[1], q[2], in, false)); add(mkq2f(q[0], q[1], q[2], in, true)); }
    for (auto &q : q2) { add(mkq2f(q[0], q[1], q[2], true, false, true)); add(mkq2f(q[0], q[1], q[2], true, true, true)); }
    add(mkstx(fin(mkst(3, 2, 1)))); add(mkstx(fin(mkst(3, 2, 2)))); add(mkstx(fin(mksym(3, 2, 2, false, false)))); add(mkstx(fin(mkspd(2, 3)))); add(mkstx(fin(mkfre(3, 3, 1)))); add(mkstx(fin(mkeuc(3, 1, 1, false))));
    add(mkstx(fin(mkgr(4, 2)))); add(mkstx(fin(mkst(3, 2, 2, "CStiefel"))));
    /* products: the product intrinsic (every factor in its own representation) or extrinsic (all factors extrinsic) */
    for (int in = 0; in < 2; in++) for (int pi = 0; pi < 2; pi++) {
        bool I = in, P = pi;
        add(mkprod({part(mkst(3, 2, 1), P), part(mkeuc(2, 1, 1, false), false)}, {1, 1}, I));
        add(mkprod({part(mkst(3, 1, 1), P), part(mkspd(2, 1), true)}, {2, 1}, I));
        add(mkprod({part(mkst(2, 1, 1, "CStiefel"), P), part(mkeuc(2, 1, 1, false), false), part(mkgr(3, 1), true)}, {1, 2, 1}, I));
        add(mkprod({part(mksym(3, 1, 1, P, false), P), part(mkst(3, 1, 2, "Sphere"), false)}, {1, 2}, I));
        add(mkprod({part(mkst(3, 2, 3), P), part(mksym(3, 2, 2, true, true), true)}, {2, 1}, I));
    }
    add(mkprod({part(mkst(3, 1, 2, "Sphere"), false), part(mkst(4, 2, 4), false)}, {2, 1}, false));
    add(mkprod({part(mkst(3, 1, 2, "Sphere"), false), part(mkst(4, 2, 4), false)}, {2, 1}, true));
    {
        MP q = mkprod({part(mkst(3, 2, 1), true), part(mkst(2, 1, 1), true)}, {1, 2}, true);
        q->M->SetHasHHR(true); q->name += "+HHR";
        add(q);
    }
    return z;
}
struct NullProb : public Problem { double f(const Variable &) const { return 0; } };
#endif

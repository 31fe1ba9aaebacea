/* Helpers on top of the zoo (man.h) and a smooth test function that is defined on every manifold of it. */
#ifndef QF_H
#define QF_H
#include "man.h"
using namespace mc;

inline bool lowrank(const Man &m) { return m.kind.find("FixedRank") != std::string::npos; }
/* is x + e well inside the manifold (only a restriction for the fixed rank manifolds) */
inline bool indomain(const Man &m, const V &x, const V &e)
{
    if (m.kind == "Product") {
        size_t o = 0;
        for (auto &p : m.parts) {
            V a(x.begin() + o, x.begin() + o + p->extlen), b(e.begin() + o, e.begin() + o + p->extlen);
            if (!indomain(*p, a, b)) return false;
            o += p->extlen;
        }
        return true;
    }
    if (!lowrank(m)) return true;
    if (m.margin) return m.margin(x, e) > 0.3 * m.minsing(x) && m.margin(x, vscl(e, 0.5)) > 0.3 * m.minsing(x);
    return m.minsing(vadd(x, e)) > 0.3 * m.minsing(x) && m.minsing(vadd(x, e, 0.5)) > 0.3 * m.minsing(x);
}
inline Vector scaled(const Man &m, const Variable &x, const Vector &e, double s) { Vector r(e); m.M->ScalarTimesVector(x, s, e, &r); return r; }
inline Variable retr(const Man &m, const Variable &x, const Vector &e) { Variable y(x); m.M->Retraction(x, e, &y); return y; }
inline Vector zerov(const Man &m) { Vector v(m.M->GetEMPTY()); v.SetToZeros(); return v; }
/* result containers: never aliased, filled with NaN */
inline Vector fresh(const Man &m) { Vector v(m.M->GetEMPTY()); double *p = v.ObtainWriteEntireData(); for (int i = 0; i < v.Getlength(); i++) p[i] = NAN; return v; }
inline Vector freshx(const Man &m) { Vector v(m.M->GetEMPTYEXTR()); double *p = v.ObtainWriteEntireData(); for (int i = 0; i < v.Getlength(); i++) p[i] = NAN; return v; }


/* f(x) = c.q + q.A q / 2 + sum of cubes of q / 6, q the represented point (a polynomial of degree <= 2 in the data) */
struct QF : public Problem {
    const Man *m;
    V c, a3;
    std::vector<V> A;
    mutable int nf = 0, ng = 0, nh = 0;
    bool fonly = false, gonly = false, attach = true;
    /* cache: keep the represented point attached to x, use it whenever it is there, and count derivatives asked for without it */
    bool cache = false;
    mutable int missing = 0;
    V cached(const Variable &x, bool store) const
    {
        if (!cache) return m->inv(flat(x));
        if (!x.FieldsExist("QFq")) {
            if (!store) { missing++; return m->inv(flat(x)); }
            V q = m->inv(flat(x));
            Vector v((integer)q.size());
            double *p = v.ObtainWriteEntireData();
            for (size_t i = 0; i < q.size(); i++) p[i] = q[i];
            x.AddToFields("QFq", v);
            return q;
        }
        return flat(x.Field("QFq"));
    }
    double val(const V &x) const { return valq(m->inv(x)); }
    double valq(const V &q) const
    {
        V Aq = mulA(q);
        double s = vdot(c, q) + 0.5 * vdot(q, Aq);
        for (size_t i = 0; i < q.size(); i++) s += a3[i] * q[i] * q[i] * q[i] / 6;
        return s;
    }
    V mulA(const V &q) const { V r(q.size()); for (size_t i = 0; i < q.size(); i++) r[i] = vdot(A[i], q); return r; }
    V gq(const V &q) const { V g = vadd(c, mulA(q)); for (size_t i = 0; i < q.size(); i++) g[i] += a3[i] * q[i] * q[i] / 2; return g; }
    V d1(const V &x, const V &e) const { return vscl(vadd(m->inv(vadd(x, e)), m->inv(vadd(x, e, -1)), -1), 0.5); }
    V d2(const V &x, const V &e, const V &g) const { return vadd(vadd(m->inv(vadd(vadd(x, e), g)), m->inv(vadd(x, e)), -1), vadd(m->inv(vadd(x, g)), m->inv(x), -1), -1); }
    V egrad(const V &x) const { return egrad(x, m->inv(x)); }
    V egrad(const V &x, const V &q) const
    {
        V g = gq(q), r(x.size());
        for (size_t i = 0; i < x.size(); i++) r[i] = vdot(g, d1(x, ecoef((int)x.size(), (int)i)));
        return m->riesz ? m->riesz(r) : r;
    }
    V ehess(const V &x, const V &e) const { return ehess(x, e, m->inv(x)); }
    V ehess(const V &x, const V &e, const V &q) const
    {
        V g = gq(q), de = d1(x, e), h = mulA(de), r(x.size());
        for (size_t i = 0; i < q.size(); i++) h[i] += a3[i] * q[i] * de[i];
        for (size_t i = 0; i < x.size(); i++) { V u = ecoef((int)x.size(), (int)i); r[i] = vdot(h, d1(x, u)) + vdot(g, d2(x, e, u)); }
        return m->riesz ? m->riesz(r) : r;
    }
    Vector from(const V &v) const { return m->ambvec ? m->ambvec(v) : amb(*m, v); }
    double f(const Variable &x) const { nf++; return valq(cached(x, true)); }
    Vector &EucGrad(const Variable &x, Vector *r) const { if (fonly) return Problem::EucGrad(x, r); ng++; *r = from(egrad(flat(x), cached(x, false))); return *r; }
    Vector &EucHessianEta(const Variable &x, const Vector &e, Vector *r) const { if (fonly || gonly) return Problem::EucHessianEta(x, e, r); nh++; *r = from(ehess(flat(x), flat(e), cached(x, false))); return *r; }
};
inline void setup(QF &p, const Man &m, int k, double cub)
{
    p.m = &m;
    int nq = (int)m.inv(m.ptflat(0)).size();
    p.c = gcoef(nq, 300 + k);
    p.a3 = vscl(gcoef(nq, 310 + k), cub);
    p.A.assign(nq, V(nq));
    for (int i = 0; i < nq; i++) for (int j = 0; j < nq; j++) p.A[i][j] = 0.5 * (gval(1000 * k + 31 * std::min(i, j) + std::max(i, j)) + (i == j ? 2.0 : 0));
    p.SetDomain(m.M);
    p.SetUseGrad(true);
    p.SetUseHess(true);
}
#endif

/* C25 subgradient solvers: every step of every run of a configuration space is judged against the definition (least norm
 * vector, descent condition, secant equation), and the line search against an adversarial environment.
 * C27 proximal gradient solvers: optimality certificates of the subproblem, and whole runs. */
#include "runs.h"
#include "Solvers/RGS.h"
#include "Solvers/RBFGSSub.h"
#include "Solvers/LRBFGSSub.h"
#include "Solvers/ManPG.h"
#include "Solvers/AManPG.h"
#include "Others/randgen.h"
#include "Problems/StieSPCA.h"
#include "Problems/FRankESparseApprox.h"

struct Endless {};

/* ------------------------------------------------------------------ least norm point by enumeration of faces */
static bool gauss(std::vector<V> A, V b, V &x)
{
    int n = (int)b.size();
    for (int i = 0; i < n; i++) {
        int p = i;
        for (int k = i + 1; k < n; k++) if (std::fabs(A[k][i]) > std::fabs(A[p][i])) p = k;
        if (std::fabs(A[p][i]) < 1e-11) return false;
        std::swap(A[p], A[i]); std::swap(b[p], b[i]);
        for (int k = i + 1; k < n; k++) { double f = A[k][i] / A[i][i]; for (int j = i; j < n; j++) A[k][j] -= f * A[i][j]; b[k] -= f * b[i]; }
    }
    x.assign(n, 0);
    for (int i = n - 1; i >= 0; i--) { double s = b[i]; for (int j = i + 1; j < n; j++) s -= A[i][j] * x[j]; x[i] = s / A[i][i]; }
    return true;
}
static double minnorm(std::vector<V> W)
{
    std::vector<V> U;
    double scale = 0;
    for (auto &w : W) scale = std::max(scale, vnrm(w));
    if (!(scale > 0)) return scale;
    for (auto &w : W) for (auto &d : w) d /= scale;
    for (auto &w : W) { bool dup = false; for (auto &u : U) if (vdist(u, w) < 1e-12) dup = true; if (!dup) U.push_back(w); }
    int m = (int)U.size(), d = (int)U[0].size();
    if (m > 12) return NAN;
    double best = 1e300;
    for (int S = 1; S < (1 << m); S++) {
        if (__builtin_popcount(S) > d + 1) continue;
        std::vector<int> id;
        for (int i = 0; i < m; i++) if (S >> i & 1) id.push_back(i);
        int k = (int)id.size();
        std::vector<V> A(k + 1, V(k + 1, 0));
        V b(k + 1, 0), x;
        for (int i = 0; i < k; i++) { for (int j = 0; j < k; j++) A[i][j] = vdot(U[id[i]], U[id[j]]); A[i][k] = A[k][i] = 1; }
        b[k] = 1;
        if (!gauss(A, b, x)) continue;
        bool ok = true;
        for (int i = 0; i < k; i++) if (x[i] < -1e-12) ok = false;
        if (!ok) continue;
        V p(d, 0);
        for (int i = 0; i < k; i++) p = vadd(p, U[id[i]], x[i]);
        best = std::min(best, vdot(p, p));
    }
    return std::sqrt(best) * scale;
}

/* ------------------------------------------------------------------ f(x) = max_i (a_i.x + b_i) + q |x - c|^2 / 2 on the numbers of the point */
struct Poly : Problem {
    const Man *m = nullptr;
    std::vector<V> a;
    V b, c;
    double q = 0;
    mutable long nfc = 0, ngc = 0;
    long cap = 200000;
    mutable std::vector<V> gx;
    double piece(int i, const V &x) const { return vdot(a[i], x) + b[i]; }
    double val(const V &x) const
    {
        double v = -1e300;
        for (size_t i = 0; i < a.size(); i++) v = std::max(v, piece((int)i, x));
        if (q > 0) { V d = vadd(x, c, -1); v += q * vdot(d, d) / 2; }
        return v;
    }
    int active(const V &x) const { int k = 0; double v = -1e300; for (size_t i = 0; i < a.size(); i++) { double p = piece((int)i, x); if (p > v) { v = p; k = (int)i; } } return k; }
    V grad(const V &x, int i) const { V g = a[i]; if (q > 0) g = vadd(g, vadd(x, c, -1), q); return g; }
    double lip() const { double l = 0; for (auto &v : a) l = std::max(l, vnrm(v)); return l; }
    double f(const Variable &x) const override { if (++nfc > cap) throw Endless(); g_now += 10; return val(flat(x)); }
    Vector &EucGrad(const Variable &x, Vector *r) const override { V xf = flat(x); *r = amb(*m, grad(xf, active(xf))); return *r; }
    Vector &Grad(const Variable &x, Vector *r) const override { if (++ngc > cap) throw Endless(); return Problem::Grad(x, r); }
};
/* tangential part of an ambient vector in the extrinsic representation */
static V riem(const Man &m, const V &x, const V &g)
{
    Variable xv = m.at(x);
    Vector r(m.M->GetEMPTYEXTR());
    m.M->ExtrProjection(xv, amb(m, g), &r);
    return flat(r);
}

struct NOpt {
    int kind; /* 0 RGS, 1 RBFGSSub, 2 LRBFGSSub */
    int lensy = 4, crit = NSM_DIR_F, max = 500, min = 0, verbose = ITERRESULT, extra = -1;
    double tol = 1e-6, eps = 1, mineps = 1e-6, te = 0.01, td = 0.01, del = 1, timebound = 1e8;
    int stopk = -1;
    std::string str() const
    {
        static const char *k[] = {"RGS", "RBFGSSub", "LRBFGSSub"};
        static const char *c[] = {"FUN_REL", "DIR_F", "DIR_F_0"};
        return fmt("%s%s %s tol%g max%d min%d verbose%d extra%d eps%g-%g theta%g,%g del%g time%g stop%d", k[kind], kind == 2 ? fmt("-%d", lensy).c_str() : "", c[crit], tol, max, min, verbose, extra, eps, mineps, te, td, del, timebound, stopk);
    }
    std::string kn() const { static const char *k[] = {"RGS", "RBFGSSub", "LRBFGSSub"}; return k[kind]; }
};

static int g_scalls = 0, g_sbadx = 0, g_sbadlen = 0, g_sbadn = 0, g_sk = -1;
static bool nsmstop(const Variable &x, const Vector &fs, integer len, realdp nd, realdp, const Problem *prob, const Solvers *S)
{
    const Poly *P = (const Poly *)prob;
    const SolversNSM *N = (const SolversNSM *)S;
    g_scalls++;
    /* values so far, the last one that of the point */
    if (fs.Getlength() > 0) {
        if (len < 1 || fs.Getlength() < len) g_sbadlen++;
        else if (!(std::fabs(fs.ObtainReadData()[len - 1] - P->val(flat(x))) <= 1e-12 * (1 + std::fabs(P->val(flat(x)))))) g_sbadx++;
    }
    if (!(nd == N->ndir1)) g_sbadn++;
    return g_sk >= 0 && g_scalls > g_sk;
}

template <class S> struct Pr : S {
    const Man *m;
    Poly *P;
    NOpt o;
    int steps = 0;
    Pr(const Man *mm, Poly *p, const Variable *x, const NOpt &oo) : S(p, x), m(mm), P(p), o(oo) {}
    V extv(const Variable &x, const Vector &v) { return flat(extof(*m, x, v)); }
    void setc(const char *w) { mc::setcase(base + fmt(" iteration %d %s", (int)this->iter, w)); }
    std::string base;
    double roundoff() const { return err; }
    double met(const Vector &u, const Vector &v) { return this->Mani->Metric(this->x1, u, v); }
    int dirs = 0;
    void GetSearchDir() override
    {
        if (++dirs > 20 * (o.max + 50)) throw Endless();
        setc("direction");
        V x1f = flat(this->x1);
        double f1 = this->f1;
        this->ndir1 = NAN;
        S::GetSearchDir();
        eval(4);
        std::string k = o.kn();
        if (!(flat(this->x1) == x1f) || !(this->f1 == f1)) violation(k + ":direction:moved", "the search direction changed the current point");
        int n = o.kind == 0 ? (int)this->Lengthgfs : (int)this->Currentlengthgfs;
        double nm = std::sqrt(std::max(0.0, met(this->minPv, this->minPv))), ne = std::sqrt(std::max(0.0, met(this->eta1, this->eta1)));
        double sc = 1;
        for (int i = 0; i < n; i++) sc = std::max(sc, std::sqrt(met(this->gfs[i], this->gfs[i])));
        outcome(hdbl(nm, hdbl(this->ndir1)));
        /* least norm element: <g_i, w> >= |w|^2 (in the norm in use) */
        double nd = this->ndir1;
        if (!(std::fabs(nd - nm) <= 1e-6 * (1 + nm) || (o.kind != 0 && std::fabs(nd - ne) <= 1e-6 * (1 + ne))))
            violation(k + ":direction:ndir", fmt("reports the length %g; least norm vector has %g, direction %g", nd, nm, ne));
        bool plain = o.kind == 0 || nm <= this->Del;
        Vector Pw(this->minPv);
        if (o.kind != 0) Pw = this->HvSub(Vector(this->minPv), &Pw);
        double ww = plain && o.kind == 0 ? nm * nm : met(this->minPv, Pw);
        Vector &dual = plain && o.kind == 0 ? this->minPv : Pw;
        if (o.kind == 0 || nm > this->Del) {
            double s = 1e300;
            for (int i = 0; i < n; i++) s = std::min(s, met(this->gfs[i], dual));
            double pn = 0;
            for (int i = 0; i < n; i++) {
                Vector q(this->gfs[i]);
                if (o.kind != 0) q = this->HvSub(Vector(this->gfs[i]), &q);
                pn = std::max(pn, std::fabs(met(this->gfs[i], q)));
            }
            /* the quartic the hull is parameterised with leaves an error of the square root of rounding */
            if (!(s >= ww - 2e-3 * pn - 1e-10 - 100 * err * sc * sc)) violation(k + ":direction:leastnorm", fmt("%d vectors, squared norm %g, a vector of the hull is shorter: %g", n, ww, s));
            if (ne == 0 && !(nm <= 1e-5 * sc)) violation(k + ":direction:none", fmt("no direction, although the least norm is %g", nm));
            if (nm > 1e-7 && ne > 0 && ww > 100 * roundoff() * nm * nm) {
                double sl = met(this->minPv, this->eta1);
                if (!(sl < 0)) violation(k + ":direction:ascent", fmt("slope %g along the search direction", sl));
                /* the direction is a negative multiple of the dual vector */
                V e = flat(this->eta1), d = flat(dual);
                double c = vnrm(d) > 0 ? vnrm(e) / vnrm(d) : 0;
                if (!(vnrm(vadd(e, d, c)) <= 1e-6 * (vnrm(e) + 1e-300))) violation(k + ":direction:parallel", "the search direction is not the negative of the least norm vector (times the approximation)");
                if (o.kind == 0 && !(std::fabs(ne - 1) < 1e-6)) violation(k + ":direction:unit", fmt("direction of length %g", ne));
            }
        }
        /* the vectors are gradients at points within Eps */
        if (m->kind == "Euclidean") for (int i = 0; i < n; i++) {
            V g = flat(this->gfs[i]);
            bool found = false;
            double e = this->Eps * (1 + 1e-9) + 1e-12;
            for (size_t j = 0; j < P->a.size() && !found; j++) {
                V d = vadd(g, P->grad(x1f, (int)j), -1);
                if (vnrm(d) > P->q * e + 1e-9 * (1 + vnrm(g))) continue;
                bool reach = true;
                for (size_t l = 0; l < P->a.size(); l++) if (P->piece((int)j, x1f) - P->piece((int)l, x1f) < -e * vdist(P->a[j], P->a[l]) - 1e-12) reach = false;
                found |= reach;
            }
            if (!found) { violation(k + ":direction:subgradient", fmt("vector %d is no gradient at a point within %g", i, (double)this->Eps)); break; }
        }
        /* why the collection ended */
        if (o.kind != 0 && nm > this->Del && n < this->Lengthgfs && ne > 0) {
            Vector st(this->eta1);
            this->Mani->ScalarTimesVector(this->x1, this->Eps / ne, this->eta1, &st);
            Variable y(this->x1);
            this->Mani->Retraction(this->x1, st, &y);
            double v = P->val(flat(y)), lim = this->f1 + this->LS_alpha * this->Eps / ne * met(this->minPv, this->eta1);
            if (!(v <= lim + 1e-10 * (1 + std::fabs(v)))) violation(k + ":direction:incomplete", fmt("collection ended with %d vectors without sufficient decrease at distance Eps: %g above %g", n, v, lim));
        }
    }
    void LinesearchWolfeLipschitz() override
    {
        setc("line search");
        V x1f = flat(this->x1);
        double f1 = this->f1;
        S::LinesearchWolfeLipschitz();
        steps++;
        eval(4);
        std::string k = o.kn();
        int st = (int)this->LSstatus;
        fam("status", fmt("%d", st));
        if (!(flat(this->x1) == x1f)) violation(k + ":search:moved", "the line search changed the current point");
        V x2f = flat(this->x2);
        double v = P->val(x2f);
        if (!(std::fabs(v - this->f2) <= 1e-13 * (1 + std::fabs(v)))) violation(k + ":search:value", fmt("value %.12g kept for a point of value %.12g (status %d)", (double)this->f2, v, st));
        if (!(this->initialslope < 0)) { fam("status", "direction of ascent after rounding"); ascent = true; }
        if (!ascent && !(this->f2 <= f1 + 1e-12 * (1 + std::fabs(f1)))) violation(k + ":search:worse", fmt("value %.12g after %.12g (status %d)", (double)this->f2, f1, st));
        Variable xv = m->at(x2f);
        Vector g(m->M->GetEMPTY());
        P->Problem::Grad(xv, &g);
        /* bases of the tangent space are only fixed up to sign, compared outside */
        V ge = flat(extof(*m, xv, g));
        if (!(vdist(ge, extv(this->x2, this->gf2)) <= 1e-9 * (1 + vnrm(ge)))) violation(k + ":search:gradient", fmt("the gradient kept is not the one at the new point (status %d)", st));
        if (m->kind == "Euclidean" && !(vdist(x2f, vadd(x1f, flat(this->eta1), this->stepsize)) <= 1e-9 * (1 + vnrm(x2f)))) violation(k + ":search:step", fmt("the recorded step %g does not lead to the new point (status %d)", (double)this->stepsize, st));
        if (st == LSNSM_SUCCESS) {
            if (!(this->f2 <= f1 + this->LS_alpha * this->stepsize * this->initialslope + 1e-12 * (1 + std::fabs(f1)))) violation(k + ":search:decrease", fmt("step %g, slope %g, value %.12g after %.12g", (double)this->stepsize, (double)this->initialslope, (double)this->f2, f1));
            Vector d(this->eta1);
            this->Mani->DiffRetraction(this->x1, this->eta2, this->x2, this->eta1, &d, true);
            double sl = this->Mani->Metric(this->x2, this->gf2, d);
            if (!(sl >= this->LS_beta * this->initialslope - 1e-9 * (1 + std::fabs(sl)))) violation(k + ":search:curvature", fmt("slope %g at the accepted step, %g at the start", sl, (double)this->initialslope));
        }
    }
    void UpdateData() override
    {
        setc("update");
        Vector e2(this->eta2), g1(this->gf1), g2(this->gf2);
        V x1f = flat(this->x1), x2f = flat(this->x2);
        pre();
        S::UpdateData();
        if (!(flat(this->x1) == x1f && flat(this->x2) == x2f && flat(this->gf1) == flat(g1) && flat(this->gf2) == flat(g2))) violation(o.kn() + ":update:moved", "the update changed the points or gradients");
        post();
    }
    bool ascent = false; /* the approximation has lost definiteness by rounding; losing it otherwise is judged where it is updated */
    Vector H0;
    double err = 0; /* bound on the rounding errors in the approximation: an update divides by <s, y>, which may be tiny */
    void pre();
    void post();
};
template <> void Pr<RGS>::pre() {}
template <> void Pr<LRBFGSSub>::pre() {}
template <> void Pr<RBFGSSub>::pre() { H0 = H; }
template <> void Pr<RGS>::post() {}
template <> void Pr<RBFGSSub>::post()
{
    eval(3);
    std::string k = o.kn();
    double ys = Mani->Metric(x2, y, s), ss = Mani->Metric(x2, s, s), yy = Mani->Metric(x2, y, y), kappa = std::pow(1 + std::sqrt(ss * yy) / ys, 2);
    double h0 = 0;
    if (isupdated) {
        if (!(ys / ss > lambdaLower * (1 - 1e-6))) violation(k + ":update:lower", fmt("<s, y> / <s, s> is %g", ys / ss));
        LinearOPE Ht(H0.Getrow()), Hp(H0.Getrow());
        Hp = H0;
        if (iter == 1 && ys > 0) Hp.ScaledIdOPE(ys / yy);
        Ht = Hp;
        Mani->TranHInvTran(x1, eta2, x2, Hp, &Ht);
        for (double d : flat(Ht)) h0 = std::max(h0, std::fabs(d));
        err = (err + 1e-14 * h0) * kappa + 1e-14 * ss / ys;
        Basis b = basis(*m, m->at(flat(x2)));
        double as = 0; /* what is left of symmetry: the update uses it */
        {
            std::vector<Vector> hb;
            for (int i = 0; i < b.n; i++) { Vector r(b.e[i]); Mani->LinearOPEEta(x2, Ht, b.e[i], &r); hb.push_back(r); }
            for (int i = 0; i < b.n; i++) for (int j = 0; j < i; j++) as = std::max(as, std::fabs(Mani->Metric(x2, b.e[i], hb[j]) - Mani->Metric(x2, b.e[j], hb[i])));
        }
        for (int i = 0; i <= b.n; i++) {
            Vector v = i < b.n ? Vector(b.e[i]) : Vector(y), r(v), a(v), w(v);
            Mani->LinearOPEEta(x2, H, v, &a);
            /* (I - s y' / sy) H (I - y s' / sy) v + s s' v / sy */
            double c = Mani->Metric(x2, s, v) / ys;
            Mani->ScalarVectorAddVector(x2, -c, y, v, &w);
            Mani->LinearOPEEta(x2, Ht, w, &r);
            double e = Mani->Metric(x2, y, r) / ys;
            Mani->ScalarVectorAddVector(x2, c - e, s, r, &r);
            double tol = (1e-11 * h0 + 10 * as) * kappa * vnrm(flat(v)) + 1e-7 * (i < b.n ? vnrm(flat(a)) : vnrm(flat(s)));
            if (!(vdist(flat(r), flat(a)) <= tol)) { violation(k + ":update:formula", fmt("the update of the approximation differs from the formula by %g (tolerance %g, case %d)", vdist(flat(r), flat(a)), tol, i)); break; }
        }
    } else err = 0;
    int n = H.Getrow();
    const double *h = H.ObtainReadData();
    double mx = 0;
    for (int i = 0; i < n * n; i++) { mx = std::max(mx, std::fabs(h[i])); if (!std::isfinite(h[i])) mx = NAN; }
    if (!(mx < 1e300)) { violation(k + ":update:finite", "the approximation is not finite"); return; }
    /* symmetric and positive definite on the tangent space */
    Variable xb = m->at(flat(x2));
    Basis b = basis(*m, xb);
    CM A(b.n, b.n);
    double asym = 0;
    std::vector<Vector> hb;
    for (int i = 0; i < b.n; i++) { Vector r(b.e[i]); Mani->LinearOPEEta(x2, H, b.e[i], &r); hb.push_back(r); }
    for (int i = 0; i < b.n; i++) for (int j = 0; j < b.n; j++) A(i, j) = Mani->Metric(x2, b.e[i], hb[j]);
    for (int i = 0; i < b.n; i++) for (int j = 0; j < i; j++) { asym = std::max(asym, std::abs(A(i, j) - A(j, i))); A(i, j) = A(j, i) = 0.5 * (A(i, j) + A(j, i)); }
    if (!(asym <= 1e-5 * mx + 100 * err)) violation(k + ":update:symmetry", fmt("asymmetry %g of %g", asym, mx));
    V ev = heig(A);
    if (!(ev[0] > -1e-5 * mx - 100 * err)) violation(k + ":update:definite", fmt("eigenvalue %g of %g", ev[0], mx));
    if (!isupdated) { double d = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) d = std::max(d, std::fabs(h[i + j * n] - (i == j))); if (!(d == 0)) violation(k + ":update:reset", "neither updated nor reset to the identity"); }
}
template <> void Pr<LRBFGSSub>::post()
{
    eval(3);
    std::string k = o.kn();
    if (Currentlength > LengthSY || (Currentlength > 0 && (beginidx < 0 || beginidx >= LengthSY))) { violation(k + ":update:memory", fmt("%d pairs of %d", (int)Currentlength, (int)LengthSY)); return; }
    if (!isupdated && Currentlength != 0) violation(k + ":update:reset", "neither updated nor reset");
    err = 1e-15 * std::fabs(gamma);
    for (int i = 0; i < Currentlength; i++) err *= std::pow(1 + std::fabs(RHO[i]) * std::sqrt(Mani->Metric(x2, S[i], S[i]) * Mani->Metric(x2, Y[i], Y[i])), 2);
    if (isupdated && LengthSY > 0) {
        int last = Currentlength < LengthSY ? Currentlength - 1 : (beginidx + LengthSY - 1) % LengthSY;
        if (Currentlength == 0) { violation(k + ":update:memory", "the new pair is not kept"); return; }
        if (!(flat(S[last]) == flat(s) && flat(Y[last]) == flat(y))) violation(k + ":update:memory", "the newest pair is not the one of this step");
        /* all kept vectors live at the new point now: the approximation is applied there */
        Variable keep(x1);
        x1 = x2;
        Vector r(y);
        r = HvSub(Vector(y), &r);
        x1 = keep;
        if (!(vdist(flat(r), flat(s)) <= 1e-6 * (vnrm(flat(s)) + vnrm(flat(y))) + 100 * err * vnrm(flat(y)))) violation(k + ":update:secant", fmt("H y differs from s by %g", vdist(flat(r), flat(s))));
        double ys = Mani->Metric(x2, y, s), ss = Mani->Metric(x2, s, s);
        if (!(ys / ss >= lambdaLower * (1 - 1e-6))) violation(k + ":update:lower", fmt("<s, y> / <s, s> is %g", ys / ss));
        /* independent: dense inverse BFGS recursion from gamma I over the kept pairs */
        if (euclid(*m)) {
            int n = (int)flat(y).size();
            std::vector<V> B(n, V(n, 0));
            for (int i = 0; i < n; i++) B[i][i] = gamma;
            for (int i = 0; i < Currentlength; i++) {
                V sv = flat(S[(beginidx + i) % LengthSY]), yv = flat(Y[(beginidx + i) % LengthSY]), By(n, 0);
                double sy = vdot(sv, yv);
                for (int p = 0; p < n; p++) By[p] = vdot(B[p], yv);
                double yBy = vdot(yv, By);
                for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) B[p][q] += (1 + yBy / sy) * sv[p] * sv[q] / sy - (By[p] * sv[q] + sv[p] * By[q]) / sy;
            }
            for (int j = 0; j < n; j++) {
                Vector e(y), re(y);
                double *p = e.ObtainWriteEntireData();
                for (int i = 0; i < n; i++) p[i] = i == j;
                Variable kp(x1);
                x1 = x2;
                re = HvSub(e, &re);
                x1 = kp;
                V rv = flat(re), col(n);
                for (int i = 0; i < n; i++) col[i] = B[i][j];
                double bs = 0;
                for (auto &row : B) bs = std::max(bs, vnrm(row));
                if (Currentlength == 1 || m->kind == "Euclidean") if (!(vdist(rv, col) <= 1e-5 * (1e-300 + bs) + 100 * err)) violation(k + ":update:recursion", fmt("column %d of the approximation differs by %g of %g (%d pairs)", j, vdist(rv, col), bs, (int)Currentlength));
            }
        }
    }
}

template <class S> static void nrun(const Man &m, Poly &P, const V &x0, const NOpt &o, double fstar, const std::string &cs)
{
    Variable x = m.at(x0);
    P.m = &m; P.nfc = P.ngc = 0;
    setcase(cs);
    Pr<S> s(&m, &P, &x, o);
    s.base = cs;
    s.Stop_Criterion = (StopCritNSM)o.crit; s.Tolerance = o.tol; s.Max_Iteration = o.max; s.Min_Iteration = o.min;
    s.Verbose = (VERBOSEINFO)o.verbose; s.OutputGap = 1000000; s.TimeBound = o.timebound;
    s.Eps = o.eps; s.Min_Eps = o.mineps; s.Theta_eps = o.te; s.Theta_del = o.td; s.Del = o.del;
    if (o.extra >= 0) s.NumExtraGF = o.extra;
    if (o.kind == 2) ((LRBFGSSub *)(void *)(SolversNSMSubLS *)&s)->LengthSY = o.lensy;
    g_scalls = g_sbadx = g_sbadlen = g_sbadn = 0; g_sk = o.stopk == 99 ? -1 : o.stopk;
    if (o.stopk >= 0) s.StopPtr = nsmstop;
    genrandseed(1);
    g_fake = true; g_now = 1000000;
    bool ended = true;
    try { s.Run(); } catch (Endless &) { ended = false; }
    g_fake = false;
    setcase(cs);
    trace(); state(s.steps + 1); trans(P.nfc + P.ngc);
    std::string k = o.kn();
    eval(6);
    if (!ended) { violation(k + ":endless", fmt("no end after %ld evaluations (iteration %d)", P.cap, (int)s.iter)); return; }
    V xf = flat(s.GetXopt());
    double f0 = P.val(x0), f = s.Getfinalfun();
    outcome(hdbl(f, hdbl(s.GetIter())));
    if (!(m.defect(xf) < 1e-8)) violation(k + ":manifold", fmt("the returned point is off the manifold by %g", m.defect(xf)));
    if (!(std::fabs(P.val(xf) - f) <= 1e-12 * (1 + std::fabs(f)))) violation(k + ":value", fmt("returned value %.12g, value of the returned point %.12g", f, P.val(xf)));
    if (!s.ascent && !(f <= f0 + 1e-10 * (1 + std::fabs(f0)))) violation(k + ":worse than start", fmt("%.12g after %.12g", f, f0));
    int it = s.GetIter(), nfcap = (int)P.nfc;
    if (it > o.max) violation(k + ":iterations", fmt("%d iterations of at most %d", it, o.max));
    if (s.steps != it) violation(k + ":iterations", fmt("reports %d iterations, made %d", it, s.steps));
    if (s.Getnf() != nfcap || s.Getng() != (int)P.ngc) violation(k + ":counters", fmt("reports %d values and %d gradients, evaluated %d and %ld", (int)s.Getnf(), (int)s.Getng(), nfcap, P.ngc));
    if (o.verbose >= ITERRESULT) {
        if (s.GetlengthSeries() != it + 1) violation(k + ":series", fmt("%d entries after %d iterations", (int)s.GetlengthSeries(), it));
        else {
            V fs = ser(s.GetfunSeries(), it + 1), ds = ser(s.GetdirSeries(), it + 1), ts = ser(s.GettimeSeries(), it + 1);
            bool mono = true, tm = true;
            for (int i = 1; i <= it; i++) { mono &= fs[i] <= fs[i - 1] + 1e-12 * (1 + std::fabs(fs[i])); tm &= ts[i] >= ts[i - 1]; }
            if (!mono && !s.ascent) violation(k + ":monotone", "the recorded values increase");
            if (!tm) violation(k + ":time series", "the recorded times decrease");
            if (fs.size() && !(fs[0] == f0 || std::fabs(fs[0] - f0) < 1e-13 * (1 + std::fabs(f0)))) violation(k + ":series", fmt("first recorded value %.12g, start has %.12g", fs[0], f0));
            if (fs.size() && !(fs[it] == f)) violation(k + ":series", fmt("last recorded value %.12g, returned %.12g", fs[it], f));
            if (o.max > 0) for (double d : ds) if (!std::isfinite(d) || d < 0) { violation(k + ":direction series", fmt("recorded length %g", d)); break; }
        }
    }
    if (o.stopk >= 0) {
        if (g_sbadlen || g_sbadx) violation(k + ":stop function", fmt("was given values that do not end with that of the point (%d, %d of %d calls)", g_sbadlen, g_sbadx, g_scalls));
    }
    int st = (int)s.LSstatus;
    bool timeout = o.timebound < 1e7;
    if (timeout && s.GetComTime() > o.timebound + 2) violation(k + ":time", fmt("ran %g s with a bound of %g s", (double)s.GetComTime(), o.timebound));
    bool limit = it >= o.max || timeout || o.stopk >= 0;
    fam("end", fmt("%s status %d%s", k.c_str(), st, limit ? " limit" : ""));
    if (limit || !(st == LSNSM_SUCCESS || st == LSNSM_MAXSTEPSIZE)) return;
    /* reported convergence */
    if (it < o.min && !(s.ndir1 <= o.tol)) violation(k + ":min iterations", fmt("%d iterations of at least %d", it, o.min));
    if (!(s.Eps <= o.mineps)) violation(k + ":ended early", fmt("ended with neighbourhood %g", (double)s.Eps));
    if (o.crit == NSM_FUN_REL) return;
    double bound = o.crit == NSM_DIR_F ? o.tol : std::max(o.tol, o.tol * s.ndir0);
    if (!(s.ndir1 <= bound)) violation(k + ":criterion", fmt("ended with %g, tolerance %g", (double)s.ndir1, bound));
    /* independent: least norm over the gradients of all pieces that are active nearby */
    double L = P.lip() + P.q * (1 + vnrm(xf)), r = 4 * std::max((double)s.Eps, 1e-9);
    std::vector<V> W;
    for (size_t i = 0; i < P.a.size(); i++) if (P.piece((int)i, xf) >= P.piece(P.active(xf), xf) - 2 * L * r) W.push_back(riem(m, xf, P.grad(xf, (int)i)));
    double mn = minnorm(W);
    if (std::isnan(mn)) { fam("end", "stationarity not judged (too many pieces)"); return; }
    double slack = bound * (1 + 1e-6) + 20 * L * r * (m.kind == "Euclidean" && P.q == 0 ? 0 : 1) + 1e-9 * L;
    if (o.kind != 0 && !(mn <= slack)) {
        /* the documented measure of the quasi-Newton variants is the length of the direction, the approximation times the vector */
        if (m.kind != "Euclidean") { fam("end", "stationarity not judged (scaled)"); return; }
        double hs = 0;
        for (auto &w : W) { Vector v = amb(m, w), r(v); r = s.HvSub(v, &r); w = flat(r); hs = std::max(hs, vnrm(w)); }
        mn = minnorm(W);
        slack = bound * (1 + 1e-6) + hs * (20 * r * (P.q == 0 ? 0 : 1) + 1e-9);
        if (std::isnan(mn)) return;
        fstar = -1e300;
    }
    if (!(mn <= slack) && framejump(m, xf)) { fam("end", "at a jump of the frames"); return; }
    if (!(mn <= slack)) violation(k + ":not stationary", fmt("reported convergence (%g), but the least norm over the neighbourhood is %g", (double)s.ndir1, mn));
    if (fstar > -1e299 && m.kind == "Euclidean") {
        double R = 10;
        if (!(f - fstar <= 1e-9 + 4 * L * r + 10 * bound * R)) violation(k + ":not optimal", fmt("reported convergence at %.10g, the minimum is %.10g", f, fstar));
    }
}
static void nrunk(const Man &m, Poly &P, const V &x0, const NOpt &o, double fstar, const std::string &cs)
{
    if (o.kind == 0) nrun<RGS>(m, P, x0, o, fstar, cs);
    else if (o.kind == 1) nrun<RBFGSSub>(m, P, x0, o, fstar, cs);
    else nrun<LRBFGSSub>(m, P, x0, o, fstar, cs);
}

struct PF { std::string name; std::vector<V> a; V b, c; double q; double fs; };
static std::vector<PF> polys(int n)
{
    std::vector<PF> r;
    auto centred = [&](std::string nm, std::vector<V> a, V c, double q, double top) {
        V b;
        for (auto &v : a) b.push_back(top - vdot(v, c));
        r.push_back({nm, a, b, c, q, top});
    };
    auto cross = [&](V w) { std::vector<V> a; for (int S = 0; S < (1 << n); S++) { V v(n); for (int i = 0; i < n; i++) v[i] = (S >> i & 1) ? -w[i] : w[i]; a.push_back(v); } return a; };
    auto axes = [&](V w) { std::vector<V> a; for (int i = 0; i < n; i++) for (int s : {1, -1}) { V v(n, 0.0); v[i] = s * w[i]; a.push_back(v); } return a; };
    V one(n, 1.0), inc(n), ill(n), z(n, 0.0), c(n);
    for (int i = 0; i < n; i++) { inc[i] = i + 1; ill[i] = i == 0 ? 10 : 0.1; c[i] = i == 0 ? 0.7 : -0.2 * i; }
    centred("l1", cross(one), z, 0, 0);
    centred("l1 weighted", cross(inc), c, 0, 2);
    centred("l1 ill-conditioned", cross(ill), z, 0, 0);
    centred("linf", axes(one), z, 0, 0);
    centred("linf weighted", axes(inc), c, 0, -3);
    { std::vector<V> a; for (int i = 0; i <= n; i++) { V v(n, -0.5); if (i < n) v[i] = 1; a.push_back(v); } if (n == 1) a = {{1}, {-0.5}}; centred("simplex", a, c, 0, 1); }
    { std::vector<V> a = {V(n, 0.0)}; a[0][0] = 1; V b = a[0]; b[0] = -1; a.push_back(b); centred("kink and bowl", a, z, 1, 0); }
    centred("linf and bowl", axes(one), c, 0.5, 0);
    return r;
}
static std::vector<V> grid(int n, const V &c)
{
    V t = n == 1 ? V{-2, -0.3, 0, 1e-3, 0.7, 1, 5} : n == 2 ? V{-1, -0.5, 0, 0.7, 2} : V{-1, 0, 0.7};
    std::vector<V> r;
    std::vector<int> i(n, 0);
    while (true) {
        V x(n);
        for (int k = 0; k < n; k++) x[k] = c[k] + t[i[k]];
        r.push_back(x);
        int k = 0;
        while (k < n && ++i[k] == (int)t.size()) i[k++] = 0;
        if (k == n) break;
    }
    return r;
}

/* ------------------------------------------------------------------ adversarial environment for the line search, cf. C16 */
struct NLS : RGS {
    NLS(const Problem *p, const Variable *x) : RGS(p, x) {}
    void GetSearchDir() override { minPv = gf1; eta1 = gf1; eta1.ScalarTimesThis(-1); ndir1 = 1; }
};
struct LProb : Problem {
    std::function<double(double)> F, G;
    mutable long nfc = 0, ngc = 0;
    double f(const Variable &x) const override { if (++nfc > 3000) throw Endless(); return F(x.ObtainReadData()[0]); }
    Vector &EucGrad(const Variable &x, Vector *r) const override { if (++ngc > 3000) throw Endless(); r->ObtainWriteEntireData()[0] = G(x.ObtainReadData()[0]); return *r; }
};
static void lsgroups()
{
    for (double a : {1e-4, 0.1, 0.4}) for (double bt : {0.999, 0.5, 0.45}) for (double mn : {2e-16, 1e-6, 0.3}) for (double mx : {1000.0, 4.0, 3.0, 1.0})
        group(fmt("search/alpha%g beta%g min%g max%g", a, bt, mn, mx), [&] {
            int depth = thorough() ? 5 : 4;
            for (int tail = 0; tail < 5; tail++) {
                Explorer ex;
                ex.explore([&] {
                    std::map<double, double> fv, gv;
                    std::vector<double> order;
                    fv[0] = 0; gv[0] = -1;
                    auto val = [&](double t) {
                        auto it = fv.find(t);
                        if (it != fv.end()) return it->second;
                        order.push_back(t);
                        double line = -a * t;
                        int k = (int)order.size() <= depth ? ex.choose(5) : tail == 0 ? 4 : tail == 1 ? 0 : tail == 2 ? 2 : tail == 3 ? ((order.size() & 1) ? 4 : 0) : 1;
                        double v = k == 0 ? -0.9 * t : k == 1 ? line * (1 + 1e-6) : k == 2 ? line * (1 - 1e-3) : k == 3 ? 0.0 : std::fabs(t);
                        return fv[t] = v;
                    };
                    auto grad = [&](double t) {
                        auto it = gv.find(t);
                        if (it != gv.end()) return it->second;
                        val(t);
                        size_t pos = std::find(order.begin(), order.end(), t) - order.begin();
                        int k = (int)pos < depth ? ex.choose(4) : tail == 0 ? 3 : tail == 1 ? 0 : tail == 2 ? 2 : tail == 3 ? ((pos & 2) ? 2 : 0) : 1;
                        return gv[t] = k == 0 ? -2.0 : k == 1 ? -bt * (1 + 1e-6) : k == 2 ? -bt * (1 - 1e-6) : 3.0;
                    };
                    Euclidean M(1);
                    LProb P;
                    P.SetDomain(&M);
                    P.F = val; P.G = grad;
                    Vector x0(1);
                    x0.SetToZeros();
                    NLS S(&P, &x0);
                    S.Verbose = NOOUTPUT; S.Max_Iteration = 1; S.Stop_Criterion = NSM_DIR_F; S.Tolerance = 1e-300; S.Eps = S.Min_Eps = 1e-6; S.Del = 1e-9;
                    S.LS_alpha = a; S.LS_beta = bt; S.Minstepsize = mn; S.Maxstepsize = mx;
                    bool ended = true;
                    try { S.Run(); } catch (Endless &) { ended = false; }
                    trace(); state(order.size() + 1); trans(P.nfc + P.ngc);
                    std::string h;
                    for (double t : order) { h += fmt("f(%.6g)=%.6g%s ", t, fv[t], gv.count(t) ? fmt(" slope %.6g", gv[t]).c_str() : ""); if (h.size() > 600) break; }
                    setcase(fmt("tail %d answers %s: %s", tail, ex.str().c_str(), h.c_str()));
                    eval(6);
                    if (!ended) { violation("search:endless", fmt("no end after %ld evaluations in one search", P.nfc)); return; }
                    double X = S.x1.ObtainReadData()[0], f = S.f1, t = S.stepsize, g1 = S.gf1.ObtainReadData()[0];
                    int st = (int)S.LSstatus;
                    outcome(hmix(hdbl(t, hdbl(f)), st));
                    fam("search", fmt("%d", st));
                    double fx = fv.count(X) ? fv[X] : NAN, gx = gv.count(X) ? gv[X] : NAN;
                    if (!(fx == f)) violation(fmt("search:%d:value", st), fmt("value %.10g kept for %.10g, where the cost is %.10g", f, X, fx));
                    if (!(gx == g1)) violation(fmt("search:%d:gradient", st), fmt("slope %.10g kept for %.10g, where it is %.10g", g1, X, gx));
                    if (!(X == t)) violation(fmt("search:%d:step", st), fmt("step %.10g recorded, moved by %.10g", t, X));
                    if (S.Getnf() != P.nfc || S.Getng() != P.ngc) violation("search:counters", fmt("reports %d and %d evaluations, made %ld and %ld", (int)S.Getnf(), (int)S.Getng(), P.nfc, P.ngc));
                    if (f > 0) violation(fmt("search:%d:worse", st), fmt("ends at a point of larger cost %.10g", f));
                    if (st == LSNSM_SUCCESS || st == LSNSM_MAXSTEPSIZE || st == LSNSM_NOCURVATURE)
                        if (!(f <= -a * t * (1 - 1e-12))) violation(fmt("search:%d:decrease", st), fmt("step %.10g has cost %.10g", t, f));
                    if (st == LSNSM_SUCCESS && !(gx >= -bt)) violation("search:curvature", fmt("accepted step %.10g has slope %.10g", t, gx));
                    if (st == LSNSM_SUCCESS && !(t >= mn && t <= mx)) violation("search:interval", fmt("step %.10g", t));
                    if (t > mx * (1 + 1e-12) && mx > 1) violation("search:interval", fmt("step %.10g above the limit %g", t, mx));
                });
            }
        });
}

static void C25()
{
    lsgroups();
    /* Euclidean spaces, all functions, starts and solvers */
    std::vector<NOpt> os;
    for (int k = 0; k < 3; k++) {
        auto push = [&](std::function<void(NOpt &)> f) { NOpt o; o.kind = k; f(o); os.push_back(o); };
        push([](NOpt &) {});
        push([](NOpt &o) { o.crit = NSM_DIR_F_0; o.tol = 1e-5; });
        push([](NOpt &o) { o.crit = NSM_FUN_REL; o.tol = 1e-8; });
        push([](NOpt &o) { o.crit = NSM_FUN_REL; o.tol = 1e-8; o.te = 0.1; o.verbose = FINALRESULT; });
        push([](NOpt &o) { o.te = 0.5; o.td = 0.5; });
        push([](NOpt &o) { o.eps = 1e-3; o.mineps = 1e-5; o.te = 0.1; });
        push([](NOpt &o) { o.verbose = NOOUTPUT; o.del = 1e-3; });
        push([](NOpt &o) { o.max = 3; });
        push([](NOpt &o) { o.max = 0; });
        push([](NOpt &o) { o.min = 20; o.tol = 1e-4; });
        push([](NOpt &o) { o.extra = 1; });
        push([](NOpt &o) { o.extra = 5; o.verbose = DETAILED; });
        push([](NOpt &o) { o.stopk = 99; });
        push([](NOpt &o) { o.stopk = 4; });
        push([](NOpt &o) { o.timebound = 0.002; o.eps = 1e-1; o.del = 1e-9; o.tol = 1e-12; });
        push([](NOpt &o) { o.tol = 1e-3; o.mineps = 1e-4; });
        if (k == 2) for (int l : {0, 1, 2, 8}) push([l](NOpt &o) { o.lensy = l; });
    }
    auto group = [](const std::string &n, const std::function<void()> &b) { return mc::group(n, b, thorough() ? 400 : 100); };
    for (int n = 1; n <= 3; n++) {
        auto fs = polys(n);
        for (size_t fi = 0; fi < fs.size(); fi++) for (auto &o : os) group(fmt("euclid%d/%s/%s", n, fs[fi].name.c_str(), o.str().c_str()), [&, fi] {
            MP m = fin(mkeuc(n, 1, 1, false));
            Poly P;
            P.SetDomain(m->M);
            P.a = fs[fi].a; P.b = fs[fi].b; P.c = fs[fi].c; P.q = fs[fi].q;
            auto g = grid(n, fs[fi].c);
            for (size_t i = 0; i < g.size(); i++) {
                if (!thorough() && (n == 3 ? i % 3 : n == 2 ? i % 2 : 0)) continue;
                nrunk(*m, P, g[i], o, fs[fi].fs, vshow(g[i]));
            }
        });
    }
    /* manifolds */
    auto zoo = [](int i) {
        switch (i) {
        case 0: return fin(mkst(3, 1, 2, "Sphere"));
        case 1: return fin(mkst(3, 1, 1));
        case 2: return fin(mkst(3, 2, 1));
        case 3: return fin(mkst(4, 2, 3));
        case 4: return fin(mkst(2, 1, 1, "Sphere"));
        case 5: return fin(mkst(3, 1, 4, "Sphere"));
        case 6: return fin(mkprod({part(mkst(2, 1, 1), true), part(mkeuc(2, 1, 1, false), false)}, {1, 1}, true));
        default: return fin(mkst(3, 1, 1, "Sphere"));
        }
    };
    for (int mi = 0; mi < 8; mi++) for (auto &o : os) if (thorough() || (mi + (&o - &os[0])) % 2 == 0) group(fmt("manifold%d/%s", mi, o.str().c_str()), [&, mi] {
        MP m = zoo(mi);
        if (o.kind == 1 && !m->opetransport) { fam("skipped", "no operator transport"); return; }
        int n = m->extlen;
        std::vector<PF> fs;
        if (n <= 4) fs = polys(n);
        { PF p; p.name = "few pieces"; for (int i = 0; i < 5; i++) { p.a.push_back(gcoef(n, 70 + i, 1)); p.b.push_back(0.1 * i); } p.c = V(n, 0.3); p.q = 0; fs.push_back(p); p.q = 1; p.name = "few pieces and bowl"; fs.push_back(p); }
        for (auto &f : fs) for (int k = 0; k < (thorough() ? 6 : 2); k++) {
            Poly P;
            P.SetDomain(m->M);
            P.a = f.a; P.b = f.b; P.c = f.c; P.q = f.q;
            NOpt oo = o;
            if (mi == 6) oo.max = std::min(o.max, 40); /* products are slow */
            nrunk(*m, P, m->ptflat(k), oo, -1e300, fmt("%s, start %d", f.name.c_str(), k));
        }
    });
    /* a second run of the same solver object */
    for (int k = 0; k < 3; k++) for (int l : {4, 1}) for (auto &f : polys(2)) group(fmt("again/%d-%d/%s", k, l, f.name.c_str()), [k, l, f] {
        MP m = fin(mkeuc(2, 1, 1, false));
        int gi = 0;
        for (auto &x0 : grid(2, f.c)) {
            if (!thorough() && gi++ % 2) continue;
            setcase(f.name + " " + vshow(x0));
            Poly P;
            P.m = m.get(); P.SetDomain(m->M); P.a = f.a; P.b = f.b; P.c = f.c; P.q = f.q;
            Variable x = m->at(x0);
            SolversNSMSubLS *s = k == 0 ? (SolversNSMSubLS *)new RGS(&P, &x) : k == 1 ? (SolversNSMSubLS *)new RBFGSSub(&P, &x) : (SolversNSMSubLS *)new LRBFGSSub(&P, &x);
            if (k == 2) ((LRBFGSSub *)s)->LengthSY = l;
            s->Verbose = NOOUTPUT;
            s->Max_Iteration = 30;
            s->Stop_Criterion = NSM_DIR_F;
            bool ok = true;
            genrandseed(1);
            try {
                s->Run();
                double f1 = s->Getfinalfun();
                if (k == 2) ((LRBFGSSub *)s)->LengthSY = 5 - l;
                s->Eps = 1; s->Del = 1;
                s->Run();
                eval(2); trace(); state(2); trans(P.nfc + P.ngc);
                double f2 = s->Getfinalfun();
                outcome(hdbl(f2));
                if (!(f2 <= f1 + 1e-10 * (1 + std::fabs(f1)))) violation("again:worse", fmt("second run of %s ends at %.10g after %.10g", s->SolverName.c_str(), f2, f1));
                if (!(std::fabs(P.val(flat(s->GetXopt())) - f2) < 1e-12 * (1 + std::fabs(f2)))) violation("again:value", "value and point of the second run do not belong together");
            } catch (Endless &) { ok = false; }
            if (!ok) violation("again:endless", "no end");
            delete s;
        }
    });
}

int main(int argc, char **argv)
{
    if (!freopen("/dev/null", "w", stdout)) return 1;
    return mc::run(argc, argv, {{"C25", C25}});
}

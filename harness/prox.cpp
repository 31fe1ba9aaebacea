/* C27 proximal gradient solvers: every subproblem they solve, in a family of configurations and inside whole runs, is judged by
 * an optimality certificate computed here (weak duality), and every run by an independent account of its evaluations. */
#include "runs.h"
#include "Solvers/ManPG.h"
#include "Solvers/AManPG.h"
#include "Problems/StieSPCA.h"
#include "Problems/FRankESparseApprox.h"

struct Endless {};

/* ------------------------------------------------------------------ f(x) = <x, Q x> / 2 + <c, x> + lambda |x|_1 on the numbers of the point */
struct Comp : Problem {
    double lambda = 0, lip = 1;
    mutable long nfc = 0, ngc = 0, cap = 100000;
    mutable std::map<std::string, int> dummy;
    virtual V weights(const V &x) const = 0;
    virtual double val(const V &x) const = 0;
};
struct Quad : Comp {
    std::vector<V> Q;
    V c, w;
    V qx(const V &x) const { V r(x.size(), 0.0); for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < x.size(); j++) r[i] += Q[i][j] * x[j]; return r; }
    double val(const V &x) const override { double s = vdot(x, qx(x)) / 2 + vdot(c, x); for (double d : x) s += lambda * std::fabs(d); return s; }
    V weights(const V &) const override { return w; }
    double f(const Variable &x) const override { if (++nfc > cap) throw Endless(); g_now += 10; return val(flat(x)); }
    Vector &EucGrad(const Variable &x, Vector *r) const override { V g = vadd(qx(flat(x)), c); setflat(*r, g); return *r; }
    Vector &Grad(const Variable &x, Vector *r) const override { if (++ngc > cap) throw Endless(); return Problem::Grad(x, r); }
    Vector &PreConditioner(const Variable &, const Vector &, Vector *r) const override { Vector e((integer)w.size()); setflat(e, w); *r = e; return *r; }
    Vector &ProxW(const Vector &x, const Vector &W, Vector *r) const override
    {
        V xf = flat(x), wf = flat(W), o(xf.size());
        size_t bl = xf.size() / wf.size();
        for (size_t i = 0; i < xf.size(); i++) { double t = lambda / wf[i / bl]; o[i] = xf[i] > t ? xf[i] - t : xf[i] < -t ? xf[i] + t : 0; }
        setflat(*r, o);
        return *r;
    }
    Vector &CalJW(const Vector &x, const Vector &eta, const Vector &W, Vector *r) const override
    {
        V xf = flat(x), ef = flat(eta), wf = flat(W), o(xf.size());
        size_t bl = xf.size() / wf.size();
        for (size_t i = 0; i < xf.size(); i++) o[i] = std::fabs(xf[i]) * wf[i / bl] > lambda ? ef[i] : 0;
        setflat(*r, o);
        return *r;
    }
};
/* the shipped composite problems, evaluations counted */
template <class P> struct Shipped : P {
    mutable long nfc = 0, ngc = 0;
    using P::P;
    double f(const Variable &x) const override { if (++nfc > 100000) throw Endless(); g_now += 10; return P::f(x); }
    Vector &Grad(const Variable &x, Vector *r) const override { if (++ngc > 100000) throw Endless(); return P::Grad(x, r); }
};

/* ------------------------------------------------------------------ optimality certificate */
struct Cert { double gap, res, scale, prim, off, kink; bool normal, tangent, finite; };
/* min <g, e> + |e|_W^2 / 2 + lambda |x + e|_1 over tangent e; nu a normal vector */
static Cert certify(const Man &m, const V &x, const V &g, const V &W, double lambda, const V &nu, const V &eta)
{
    Cert c;
    size_t N = x.size(), bl = N / W.size();
    c.finite = vfin(eta) && vfin(nu);
    if (!c.finite) { c.gap = c.res = 1e300; c.scale = 1; c.prim = NAN; c.normal = c.tangent = false; return c; }
    Variable xv = m.at(x);
    Basis b = basis(m, xv);
    double pr = 0, du = 0;
    c.kink = 1e300;
    V d(N);
    for (size_t i = 0; i < N; i++) {
        double w = W[i / bl], z = x[i] - (g[i] - nu[i]) / w, t = lambda / w;
        c.kink = std::min(c.kink, std::fabs(std::fabs(z) - t));
        double s = z > t ? z - t : z < -t ? z + t : 0;
        d[i] = s - x[i];
        du += (g[i] - nu[i]) * d[i] + w * d[i] * d[i] / 2 + lambda * std::fabs(s);
        pr += g[i] * eta[i] + w * eta[i] * eta[i] / 2 + lambda * std::fabs(x[i] + eta[i]);
    }
    double nn = 0, tn = 0;
    V ta(N, 0.0), te(N, 0.0);
    /* the basis is orthonormal in the flat metric */
    for (int i = 0; i < b.n; i++) { V e = flat(extof(m, xv, b.e[i])); nn = std::max(nn, std::fabs(vdot(e, nu))); ta = vadd(ta, e, vdot(e, d)); te = vadd(te, e, vdot(e, eta)); }
    c.normal = nn <= 1e-9 * (1 + vnrm(nu));
    c.tangent = vdist(te, eta) <= 1e-9 * (1 + vnrm(eta));
    c.res = vdist(ta, d);
    c.off = vdist(ta, eta); /* the step is the tangential part of what the multipliers give */
    double wm = 0;
    for (double w : W) wm = std::max(wm, w);
    c.scale = vnrm(g) + vnrm(nu) + lambda * std::sqrt((double)N) + wm * (vnrm(d) + vnrm(eta)) + 1e-3;
    c.gap = pr - du;
    c.prim = pr;
    return c;
}
struct Call { V x, g, lam, nu, eta; double ada, tol, lambda; int it; bool fromzero; };
template <class M> struct Spy : M {
    mutable std::vector<Call> calls;
    using M::M;
    void sys(const Variable &x, const Vector &D, const Vector &W, const Vector &g, const Vector &dir, const Problem *p, V &val, V &der) const
    {
        Vector B(x), F((integer)D.Getlength()), J((integer)D.Getlength());
        this->ComputeBLambda(x, D, W, g, p, &B);
        this->EW(x, B, W, p, &F);
        this->GLdW(x, dir, W, B, p, &J);
        val = flat(F); der = flat(J);
    }
    Vector &TangentSpaceProximalMap(Variable &x, const Vector &etax, realdp ada, realdp tol, realdp la, const Problem *prob, Vector *D, integer *it, integer *cg, Vector *result) const override
    {
        Call c;
        c.x = flat(x); c.g = flat(etax); c.ada = ada; c.tol = tol; c.lambda = la; c.fromzero = D->GetSpace() == nullptr;
        M::TangentSpaceProximalMap(x, etax, ada, tol, la, prob, D, it, cg, result);
        c.lam = flat(*D);
        Vector nv(this->GetEMPTYEXTR());
        this->ObtainNorVerExtr(x, *D, &nv);
        c.nu = flat(nv); c.eta = flat(*result); c.it = *it;
        calls.push_back(c);
        return *result;
    }
};
/* the system of equations of the subproblem and its derivative */
typedef std::function<void(const Variable &, const Vector &D, const Vector &W, const Vector &g, const Vector &dir, const Problem *, V &val, V &der)> Sys;
struct Dom { MP m; std::vector<Call> *calls; bool inv; int p; Sys sys; };
template <class M> static Dom wrap(MP m, Spy<M> *s, int p)
{
    Dom d;
    delete m->M; m->M = s;
    m->intr = false;
    m->M->SetIsIntrApproach(false);
    m->parallelization = false;
    d.m = fin(m); d.calls = &s->calls; d.inv = m->hasinv; d.p = p;
    d.sys = [s](const Variable &x, const Vector &D, const Vector &W, const Vector &g, const Vector &dir, const Problem *pr, V &val, V &der) { s->sys(x, D, W, g, dir, pr, val, der); };
    return d;
}
static Dom domst(int n, int p, int set)
{
    MP m = mkst(n, p, set);
    Spy<Stiefel> *s = new Spy<Stiefel>(n, p);
    if (set == 1) s->ChooseParamsSet1(); if (set == 3) s->ChooseParamsSet3(); if (set == 4) s->ChooseParamsSet4();
    return wrap(m, s, p);
}
static Dom domcst(int n, int p) { MP m = mkst(n, p, 1, "CStiefel"); Spy<CStiefel> *s = new Spy<CStiefel>(n, p); s->ChooseParamsSet1(); return wrap(m, s, p); }
static Dom domfr(int a, int b, int r) { return wrap(mkfre(a, b, r), new Spy<FixedRankE>(a, b, r), b); }
static Dom dom(int i)
{
    switch (i) {
    case 0: return domst(4, 2, 3);
    case 1: return domst(3, 1, 3);
    case 2: return domst(3, 2, 4);
    case 3: return domst(4, 2, 1);
    case 4: return domfr(3, 3, 1);
    case 5: return domfr(4, 3, 2);
    case 6: return domcst(3, 2);
    case 7: return domst(3, 3, 3);
    case 8: return domst(5, 3, 4);
    default: return domfr(2, 4, 1);
    }
}
static const int NDOM = 10;
static V sym(int n, int k, std::vector<V> &Q, double spread, bool definite)
{
    Q.assign(n, V(n, 0.0));
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) Q[i][j] = Q[j][i] = gval(1000 * k + i * n + j) * (i == j ? spread : 1);
    if (definite) for (int i = 0; i < n; i++) { double r = 1; for (int j = 0; j < n; j++) if (j != i) r += std::fabs(Q[i][j]); Q[i][i] = std::max(Q[i][i], r); }
    V row(n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) row[i] += std::fabs(Q[i][j]);
    return row;
}

/* judge one recorded subproblem */
static Cert judge(const std::string &key, const Dom &d, const V &W0, double lambda, const Call &c)
{
    V W = W0;
    for (double &w : W) w *= c.ada;
    Cert r = certify(*d.m, c.x, c.g, W, lambda, c.nu, c.eta);
    eval(5);
    outcome(hdbl(r.prim));
    if (!r.finite) { violation(key + ":finite", "step or multipliers are not finite"); return r; }
    if (!r.normal) violation(key + ":normal", "the multipliers do not give a normal vector");
    if (!r.tangent) violation(key + ":tangent", "the step is not tangent");
    if (!(r.gap >= -1e-8 * r.scale * (1 + r.scale))) violation(key + ":below bound", fmt("value %g of the step is below a lower bound by %g", r.prim, r.gap));
    /* residual the tolerance asks for; what it leaves of the optimum */
    double rt = std::sqrt(c.tol) * (1 + 1e-6) + 1e-12 * r.scale;
    if (!(r.off <= 1e-10 * r.scale)) violation(key + ":step", fmt("the step differs by %g from the one that belongs to the multipliers", r.off));
    if (!(r.res <= rt)) {
        /* the semismooth Newton method may stagnate, by its line search or after 100 iterations */
        fam("subproblem", fmt("stagnated after %d iterations", c.it < 1 ? 0 : c.it < 100 ? 99 : 100));
        if (c.it == 0) violation(key + ":unsolved", fmt("residual %g with tolerance %g without an iteration", r.res, rt));
        if (lambda == 0 && r.res > 1e-9 * r.scale) violation(key + ":linear", fmt("residual %g of a linear system with tolerance %g", r.res, rt));
        return r;
    }
    fam("subproblem", fmt("solved in %d", c.it < 5 ? c.it : c.it < 10 ? 9 : c.it < 30 ? 29 : 100));
    if (!(r.gap <= 4 * r.scale * rt)) violation(key + ":not optimal", fmt("value %.10g of the step exceeds the optimum by up to %g (tolerance %g)", r.prim, r.gap, 4 * r.scale * rt));
    return r;
}

static std::vector<V> weightsets(int N, int p, double L)
{
    std::vector<V> r;
    r.push_back(V(1, L));
    V a(p), b(N);
    for (int i = 0; i < p; i++) a[i] = L * (1 + 0.5 * i);
    for (int i = 0; i < N; i++) b[i] = L * (1 + 0.3 * (i % 4));
    if (p > 1) r.push_back(a);
    r.push_back(b);
    return r;
}

static void subgroups()
{
    for (int di = 0; di < NDOM; di++) for (int k = 0; k < 4; k++) for (int wk = 0; wk < 3; wk++) group(fmt("subproblem/domain%d/point%d/weights%d", di, k, wk), [=] {
        Dom d = dom(di);
        const Man &m = *d.m;
        int N = m.extlen;
        auto ws = weightsets(N, d.p, 2);
        if (wk >= (int)ws.size() || k >= m.npts) { fam("skipped", "no such point or weights"); return; }
        V x = m.ptflat(k);
        Variable xv = m.at(x);
        Basis b = basis(m, xv);
        std::vector<V> gs;
        gs.push_back(V(b.n, 0.0));
        for (int i = 0; i < b.n; i++) for (double s : {0.3, -3.0}) gs.push_back(ecoef(b.n, i, s));
        for (int i = 0; i < (thorough() ? 12 : 4); i++) gs.push_back(gcoef(b.n, i, i % 3 == 0 ? 0.1 : i % 3 == 1 ? 1 : 10));
        for (size_t gi = 0; gi < gs.size(); gi++) for (double la : {0.0, 0.05, 0.5, 3.0}) for (double ada : {1.0, 0.5, 3.0}) for (double tol : {1e-10, 1e-20}) for (double sl : {0.2, 1e-4}) {
            if (!thorough() && (ada != 1) + (tol != 1e-10) + (sl != 0.2) > 1) continue;
            setcase(fmt("gradient %d lambda %g ada %g tol %g smlambda %g", (int)gi, la, ada, tol, sl));
            Quad P;
            P.lambda = la; P.w = ws[wk]; P.c = V(N, 0.0); P.Q.assign(N, V(N, 0.0));
            P.SetDomain(m.M);
            Vector g = tvec(m, xv, b, gs[gi]), D, r(m.M->GetEMPTY());
            integer it = 0, cg = 0;
            V x0 = flat(xv), g0 = flat(g);
            bool before = false;
            for (int warm = 0; warm < 2; warm++) {
                d.calls->clear();
                m.M->TangentSpaceProximalMap(xv, g, ada, tol, sl, &P, &D, &it, &cg, &r);
                trace(); state();
                if (!(flat(xv) == x0 && flat(g) == g0)) violation("map:input", "the point or the gradient changed");
                Cert c = judge("map", d, ws[wk], la, d.calls->back());
                bool solved = c.res <= std::sqrt(tol) * (1 + 1e-6);
                /* started at the solution it has nothing to do */
                if (warm && before && it != 0 && tol == 1e-10) violation("map:restart", fmt("%d iterations from its own solution", (int)it));
                before = solved;
                if (warm || !c.finite) continue;
                /* the derivative of the system, away from its kinks */
                Vector W((integer)ws[wk].size());
                V wf = ws[wk];
                for (double &w : wf) w *= ada;
                setflat(W, wf);
                V D0 = flat(D);
                int nd = (int)D0.size();
                double wmin = 1e300;
                for (double w : wf) wmin = std::min(wmin, w);
                double h = std::min(1e-3, 0.3 * c.kink * wmin);
                if (h > 1e-7) for (int k = 0; k < nd; k++) {
                    Vector dir((integer)nd), Dp(dir);
                    V e(nd, 0.0), v0, v1, der, dummy;
                    e[k] = 1;
                    setflat(dir, e);
                    d.sys(xv, D, W, g, dir, &P, v0, der);
                    setflat(Dp, vadd(D0, e, h));
                    d.sys(xv, Dp, W, g, dir, &P, v1, dummy);
                    eval();
                    /* the system is piecewise linear; its sign convention is that of the solver: F(D + d) = F(D) + G d */
                    if (!(vdist(vadd(v1, v0, -1), vadd(V(nd, 0.0), der, h)) <= 1e-9 * h * (1 + vnrm(der)) + 1e-13 * (1 + c.scale))) violation("map:jacobian", fmt("multiplier %d: difference %g, derivative %g", k, vdist(v1, v0), h * vnrm(der)));
                    /* converges from close by */
                    if (!(c.res <= 1e-9) || nd == 0) continue;
                    Vector Dq((integer)nd), r2(m.M->GetEMPTY());
                    setflat(Dq, vadd(D0, e, k % 2 ? h : -h));
                    d.calls->clear();
                    m.M->TangentSpaceProximalMap(xv, g, ada, tol, sl, &P, &Dq, &it, &cg, &r2);
                    Cert c2 = judge("map", d, ws[wk], la, d.calls->back());
                    if (!(c2.res <= std::sqrt(tol) * (1 + 1e-6))) violation("map:local convergence", fmt("started %g from a solution, %g from the nearest kink, it ends with residual %g", h, c.kink, c2.res));
                }
            }
        }
    });
}

/* ------------------------------------------------------------------ runs */
struct PO {
    int kind = 0; /* 0 ManPG, 1 AManPG */
    int var = 1, crit = NSM_DIR_F, max = 500, min = 0, verbose = ITERRESULT, gap = 5;
    double tol = 1e-4, alpha = 1e-4, ratio = 0.5, minstep = 2e-2, timebound = 1e8;
    std::string str() const { static const char *c[] = {"FUN_REL", "DIR_F", "DIR_F_0"}; return fmt("%s %s %s tol%g max%d min%d verbose%d gap%d alpha%g ratio%g minstep%g time%g", kind ? "AManPG" : "ManPG", var ? "ADALIPSCHITZ" : "REGULAR", c[crit], tol, max, min, verbose, gap, alpha, ratio, minstep, timebound); }
};
struct VarFn { std::function<double(const V &)> val; std::function<V(const Variable &)> weights; double lambda; long *nf, *ng; };

template <class S> struct Open : S {
    using S::S;
    int updates = 0;
    int status() const { return (int)this->LSstatus; }
    double smtol() const { return this->SMtol; }
    double ada() const { return this->adavalue; }
    Variable &cur() { return this->x1; }
};
template <class S> static void prun(const Dom &d, Problem &P, const VarFn &F, const V &x0, const PO &o, const std::string &cs)
{
    const Man &m = *d.m;
    Variable x = m.at(x0);
    setcase(cs);
    Open<S> s(&P, &x);
    s.Variant = (RPGLSVariant)o.var; s.Stop_Criterion = (StopCritNSM)o.crit; s.Tolerance = o.tol; s.Max_Iteration = o.max; s.Min_Iteration = o.min;
    s.Verbose = (VERBOSEINFO)o.verbose; s.OutputGap = 1000000; s.LS_alpha = o.alpha; s.LS_ratio = o.ratio; s.Minstepsize = o.minstep; s.TimeBound = o.timebound;
    if constexpr (std::is_same<S, AManPG>::value) s.SGIterGap = o.gap;
    *F.nf = *F.ng = 0;
    d.calls->clear();
    g_fake = true; g_now = 1000000;
    bool ended = true;
    try { s.Run(); } catch (Endless &) { ended = false; }
    g_fake = false;
    long nf = *F.nf, ng = *F.ng;
    std::string k = o.kind ? "AManPG" : "ManPG";
    trace(); state(d.calls->size() + 1); trans(nf + ng);
    eval(6);
    if (!ended) { violation(k + ":endless", "no end after 100000 evaluations"); return; }
    V xf = flat(s.GetXopt());
    if (m.minsing) {
        double low = m.minsing(xf);
        for (auto &c : *d.calls) low = std::min(low, m.minsing(c.x));
        if (!(low > 1e-3)) { fam("end", "close to points of smaller rank"); return; }
    }
    double f0 = F.val(x0), f = s.Getfinalfun();
    outcome(hdbl(f, hdbl(s.GetIter())));
    double sc = 1 + std::fabs(f0) + std::fabs(f);
    if (!(m.defect(xf) < 1e-8)) violation(k + ":manifold", fmt("the returned point is off the manifold by %g", m.defect(xf)));
    if (!(std::fabs(F.val(xf) - f) <= 1e-12 * sc)) violation(k + ":value", fmt("returned value %.12g, value of the returned point %.12g", f, F.val(xf)));
    if (!(f <= f0 + 1e-12 * sc)) violation(k + ":worse than start", fmt("%.15g after %.15g", f, f0));
    int it = s.GetIter();
    if (it > o.max) violation(k + ":iterations", fmt("%d iterations of at most %d", it, o.max));
    if (s.Getnf() != nf || s.Getng() != ng) violation(k + ":counters", fmt("reports %d values and %d gradients, evaluated %ld and %ld", (int)s.Getnf(), (int)s.Getng(), nf, ng));
    int st = s.status();
    if (o.verbose >= ITERRESULT) {
        if (s.GetlengthSeries() != it + 1) violation(k + ":series", fmt("%d entries after %d iterations", (int)s.GetlengthSeries(), it));
        else {
            V fs = ser(s.GetfunSeries(), it + 1), ds = ser(s.GetdirSeries(), it + 1), ts = ser(s.GettimeSeries(), it + 1);
            bool mono = true, tm = true;
            double up = 0;
            for (int i = 1; i <= it; i++) { up = std::max(up, fs[i] - fs[i - 1]); mono &= fs[i] <= fs[i - 1] + 1e-12 * sc; tm &= ts[i] >= ts[i - 1]; }
            if (!mono && !o.kind) violation(k + ":monotone", fmt("the recorded values increase by %g", up));
            if (!tm) violation(k + ":time series", "the recorded times decrease");
            if (!(std::fabs(fs[0] - f0) <= 1e-13 * sc)) violation(k + ":series", fmt("first recorded value %.12g, start has %.12g", fs[0], f0));
            if (!o.kind && !(fs[it] == f)) violation(k + ":series", fmt("last recorded value %.12g, returned %.12g", fs[it], f));
            for (double v : ds) if (!std::isfinite(v) || v < 0) { violation(k + ":direction series", fmt("recorded length %g", v)); break; }
        }
    }
    /* every subproblem of the run */
    for (size_t i = 0; i < d.calls->size(); i++) {
        const Call &c = (*d.calls)[i];
        if (i > 60 && i % 7) continue;
        setcase(cs + fmt(" subproblem %d", (int)i));
        Variable xv = m.at(c.x);
        P.f(xv);
        Vector g(m.M->GetEMPTY());
        P.Grad(xv, &g);
        eval();
        if (!(vdist(flat(g), c.g) <= 1e-8 * (1 + vnrm(c.g)))) violation(k + ":gradient", "a subproblem was set up with a gradient that is not that of its point");
        judge(k, d, F.weights(xv), F.lambda, c);
    }
    setcase(cs);
    bool limit = it >= o.max;
    fam("end", fmt("%s status %d%s", k.c_str(), st, limit ? " limit" : ""));
    if (limit || st != LSPG_SUCCESS || o.timebound < 1e7 || d.calls->empty()) return;
    if (it < o.min) violation(k + ":min iterations", fmt("%d iterations of at least %d", it, o.min));
    /* reported convergence: the step of the subproblem at the returned point is short */
    Variable xv = m.at(xf);
    P.f(xv);
    Vector g(m.M->GetEMPTY()), D, r(m.M->GetEMPTY());
    P.Grad(xv, &g);
    integer i1, i2;
    m.M->TangentSpaceProximalMap(xv, g, s.ada(), 1e-20, 1e-3, &P, &D, &i1, &i2, &r);
    Cert fc = judge(k + ":final", d, F.weights(xv), F.lambda, d.calls->back());
    if (!(fc.res <= 1e-6)) { fam("end", "no accurate step at the end"); return; }
    double nd = vnrm(flat(r)), first = vnrm((*d.calls)[0].eta);
    double bound = o.crit == NSM_DIR_F ? o.tol : o.crit == NSM_DIR_F_0 ? o.tol * first : NAN;
    if (o.crit == NSM_FUN_REL) {
        /* a value that changes little; the next step decreases little as well */
        Variable y(xv);
        m.M->Retraction(xv, r, &y);
        double fy = F.val(flat(y));
        if (!(f - fy <= 100 * o.tol * sc)) violation(k + ":stopped early", fmt("stopped at %.10g for lack of change, the next step leads to %.10g", f, fy));
    } else {
        if (!(s.Getnormnd() < bound * (1 + 1e-9))) violation(k + ":criterion", fmt("ended with %g, bound %g", (double)s.Getnormnd(), bound));
        if (!(nd <= 20 * bound + 2e-5)) violation(k + ":not stationary", fmt("reported convergence (%g), but the step at the returned point has length %g", (double)s.Getnormnd(), nd));
    }
}

static void rungroups()
{
    std::vector<PO> os;
    for (int k = 0; k < 2; k++) {
        auto push = [&](std::function<void(PO &)> f) { PO o; o.kind = k; o.var = !k; f(o); os.push_back(o); };
        push([](PO &) {});
        push([](PO &o) { o.var = !o.var; });
        push([](PO &o) { o.crit = NSM_DIR_F_0; o.tol = 1e-3; });
        push([](PO &o) { o.crit = NSM_FUN_REL; o.tol = 1e-7; });
        push([](PO &o) { o.crit = NSM_FUN_REL; o.tol = 1e-7; o.verbose = FINALRESULT; o.var = !o.var; });
        push([](PO &o) { o.max = 1; });
        push([](PO &o) { o.max = 7; o.verbose = DETAILED; });
        push([](PO &o) { o.min = 40; });
        push([](PO &o) { o.alpha = 0.3; o.ratio = 0.1; o.minstep = 1e-4; });
        push([](PO &o) { o.minstep = 0.6; });
        push([](PO &o) { o.timebound = 0.0005; o.tol = 1e-12; o.min = 0; });
        push([](PO &o) { o.verbose = NOOUTPUT; o.tol = 1e-3; });
        if (k) for (int g : {1, 2, 3, 50}) push([g](PO &o) { o.gap = g; });
    }
    for (int di = 0; di < NDOM; di++) for (auto &o : os) for (int wk = 0; wk < 3; wk++) group(fmt("run/domain%d/weights%d/%s", di, wk, o.str().c_str()), [=] {
        Dom d = dom(di);
        if (o.kind && !d.inv) { fam("skipped", "no inverse retraction"); return; }
        const Man &m = *d.m;
        int N = m.extlen;
        for (int q = 0; q < (thorough() ? 4 : 2); q++) for (double la : {0.0, 0.2, 1.0}) for (int k = 0; k < (thorough() ? 4 : 2); k++) {
            Quad P;
            P.lambda = la;
            V row = sym(N, q, P.Q, q == 1 ? 3 : 1, d.m->kind == "FixedRankE");
            P.c = q == 2 ? V(N, 0.0) : gcoef(N, 40 + q, 1);
            double L = 0;
            for (double r : row) L = std::max(L, r);
            auto ws = weightsets(N, d.p, 1.5 * L + vnrm(P.c));
            if (wk >= (int)ws.size()) return;
            P.w = ws[wk];
            P.SetDomain(m.M);
            VarFn F;
            F.val = [&](const V &x) { return P.val(x); };
            F.weights = [&](const Variable &) { return P.w; };
            F.lambda = la; F.nf = &P.nfc; F.ng = &P.ngc;
            std::string cs = fmt("problem %d lambda %g start %d", q, la, k);
            if (o.kind) prun<AManPG>(d, P, F, m.ptflat(k), o, cs); else prun<ManPG>(d, P, F, m.ptflat(k), o, cs);
        }
    });
    /* the shipped problems */
    for (auto &o : os) for (int c = 0; c < 8; c++) group(fmt("shipped/%d/%s", c, o.str().c_str()), [=] {
        for (int k = 0; k < (thorough() ? 4 : 2); k++) for (double la : {0.1, 1.0}) {
            auto go = [&](const Dom &d, Problem &P, const VarFn &F) {
                std::string cs = fmt("lambda %g start %d", la, k);
                P.SetDomain(d.m->M);
                if (o.kind) prun<AManPG>(d, P, F, d.m->ptflat(k), o, cs); else prun<ManPG>(d, P, F, d.m->ptflat(k), o, cs);
            };
            auto wf = [](Problem &P) { return [&P](const Variable &x) { Vector w; P.PreConditioner(x, w, &w); return flat(w); }; };
            if (c < 6) {
                int n = c < 3 ? 4 : 5, mm = c < 3 ? 3 : 6, p = 2, lw = c % 3 == 0 ? 1 : c % 3 == 1 ? p : n * p;
                Dom d = domst(n, p, c < 3 ? 3 : 4);
                Vector B(mm, n);
                V bf(mm * n);
                for (int j = 0; j < n; j++) { double s = 0, mean = 0; for (int i = 0; i < mm; i++) mean += gval(300 + c + i + j * mm) / mm; for (int i = 0; i < mm; i++) { bf[i + j * mm] = gval(300 + c + i + j * mm) - mean; s += bf[i + j * mm] * bf[i + j * mm]; } for (int i = 0; i < mm; i++) bf[i + j * mm] /= std::sqrt(s); }
                setflat(B, bf);
                Shipped<StieSPCA> P(B, la, n, mm, p, lw);
                VarFn F;
                F.val = [&](const V &x) { double s = 0; for (int i = 0; i < mm; i++) for (int j = 0; j < p; j++) { double t = 0; for (int l = 0; l < n; l++) t += bf[i + l * mm] * x[l + j * n]; s -= t * t; } for (double v : x) s += la * std::fabs(v); return s; };
                F.weights = wf(P); F.lambda = la; F.nf = &P.nfc; F.ng = &P.ngc;
                go(d, P, F);
            } else {
                Dom d = c == 6 ? domfr(4, 3, 2) : domfr(3, 3, 1);
                int a = c == 6 ? 4 : 3, b = 3, r = c == 6 ? 2 : 1;
                Vector A(a, b);
                V af = gcoef(a * b, 17, 3);
                setflat(A, af);
                Shipped<FRankESparseApprox> P(A, la, a, b, r, 1);
                VarFn F;
                F.val = [&](const V &x) { V e = vadd(x, af, -1); double s = vdot(e, e); for (double v : x) s += la * std::fabs(v); return s; };
                F.weights = wf(P); F.lambda = la; F.nf = &P.nfc; F.ng = &P.ngc;
                if (o.kind && !d.inv) { fam("skipped", "no inverse retraction"); return; }
                go(d, P, F);
            }
        }
    });
}
static void C27() { subgroups(); rungroups(); }

int main(int argc, char **argv)
{
    if (!freopen("/dev/null", "w", stdout)) return 1;
    return mc::run(argc, argv, {{"C27", C27}});
}

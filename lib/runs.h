/* Whole runs of the smooth solvers: recorded problem, clock, list of solvers, options. */
#ifndef RUNS_H
#define RUNS_H
#include "qf.h"
#include "Solvers/RSD.h"
#include "Solvers/RNewton.h"
#include "Solvers/RCG.h"
#include "Solvers/RBFGS.h"
#include "Solvers/RWRBFGS.h"
#include "Solvers/RBroydenFamily.h"
#include "Solvers/LRBFGS.h"
#include "Solvers/RTRSD.h"
#include "Solvers/RTRNewton.h"
#include "Solvers/RTRSR1.h"
#include "Solvers/LRTRSR1.h"
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

/* ------------------------------------------------------------------ clock under control of the harness */
static bool g_fake = false;
static long g_now = 1000000;
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
    if (g_fake) { tv->tv_sec = g_now / 1000000; tv->tv_usec = g_now % 1000000; return 0; }
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
    if (g_fake) { ts->tv_sec = g_now / 1000000; ts->tv_nsec = g_now % 1000000 * 1000; return 0; }
    return (int)syscall(SYS_clock_gettime, id, ts);
}

/* ------------------------------------------------------------------ recorded problem */
struct Rec : QF {
    mutable std::vector<V> fx, gx;
    mutable std::vector<double> fv;
    mutable int nhe = 0;
    int fk = -1, tk = -1;
    double fbad = 0;
    double cons = 0;
    long cap = 20000;
    struct TooLong {};
    double exact(const V &x) const { return val(x) + cons; }
    double f(const Variable &x) const override
    {
        int k = (int)fx.size();
        if (k > cap) throw TooLong();
        V xf = flat(x);
        double v = exact(xf);
        if (k == fk) v = fbad;
        g_now += k == tk ? 100000000L : 1000;
        fx.push_back(xf); fv.push_back(v);
        return v;
    }
    Vector &Grad(const Variable &x, Vector *r) const override { gx.push_back(flat(x)); return Problem::Grad(x, r); }
    Vector &HessianEta(const Variable &x, const Vector &e, Vector *r) const override { nhe++; return Problem::HessianEta(x, e, r); }
    void clear() { fx.clear(); fv.clear(); gx.clear(); nhe = 0; }
};
/* f = |q - q*|^2_A / 2 (+ cubic), q* the point number k */
static void target(Rec &p, const Man &m, int k, double cond)
{
    setup(p, m, k, 0);
    V q = m.inv(m.ptflat(k));
    int nq = (int)q.size();
    for (int i = 0; i < nq; i++) for (int j = 0; j < nq; j++) p.A[i][j] = i == j ? 1 + cond * (i % 3) : 0.1 * cond * gval(31 * std::min(i, j) + std::max(i, j)) / nq;
    V Aq = p.mulA(q);
    p.c = vscl(Aq, -1);
    p.cons = 0.5 * vdot(q, Aq);
}
static Variable start(const Man &m, int k, double s)
{
    Variable ps = m.pt(k);
    if (s == 0) return m.at(flat(ps));
    Basis b = basis(m, ps);
    V c = gcoef(b.n, 40 + k, s);
    Variable y = retr(m, ps, tvec(m, ps, b, c));
    return m.at(flat(y));
}

/* ------------------------------------------------------------------ solvers */
enum { K_RSD, K_RN, K_RCG, K_RW, K_RBF, K_RB, K_LRB, K_TSD, K_TN, K_TSR, K_LTSR };
struct SK { std::string name; int kind, opt; bool tr, matrix, hess; };
static std::vector<SK> solvers()
{
    static const char *cg[] = {"FR", "PRP", "HS", "FRPR", "DY", "HZ"};
    std::vector<SK> s;
    s.push_back({"RSD", K_RSD, 0, false, false, false});
    s.push_back({"RNewton", K_RN, 0, false, false, true});
    for (int i = 0; i < 6; i++) s.push_back({std::string("RCG-") + cg[i], K_RCG, i, false, false, false});
    s.push_back({"RWRBFGS", K_RW, 0, false, true, false});
    s.push_back({"RBroydenFamily", K_RBF, 0, false, true, false});
    s.push_back({"RBFGS", K_RB, 0, false, true, false});
    for (int m : {4, 0, 1, 2}) s.push_back({fmt("LRBFGS-%d", m), K_LRB, m, false, false, false});
    s.push_back({"RTRSD", K_TSD, 0, true, false, false});
    s.push_back({"RTRNewton", K_TN, 0, true, false, true});
    s.push_back({"RTRSR1", K_TSR, 0, true, true, false});
    for (int m : {4, 0, 1, 2}) s.push_back({fmt("LRTRSR1-%d", m), K_LTSR, m, true, false, false});
    return s;
}
static SolversSM *mk(const SK &k, const Problem *P, const Variable *x0)
{
    switch (k.kind) {
    case K_RSD: return new RSD(P, x0);
    case K_RN: return new RNewton(P, x0);
    case K_RCG: { RCG *s = new RCG(P, x0); s->RCGmethod = (RCGmethods)k.opt; return s; }
    case K_RW: return new RWRBFGS(P, x0);
    case K_RBF: return new RBroydenFamily(P, x0);
    case K_RB: return new RBFGS(P, x0);
    case K_LRB: { LRBFGS *s = new LRBFGS(P, x0); s->LengthSY = k.opt; return s; }
    case K_TSD: return new RTRSD(P, x0);
    case K_TN: return new RTRNewton(P, x0);
    case K_TSR: return new RTRSR1(P, x0);
    default: { LRTRSR1 *s = new LRTRSR1(P, x0); s->LengthSY = k.opt; return s; }
    }
}
/* inner products of representations are plain sums of products */
static bool euclid(const Man &m)
{
    if (m.kind == "SphereTx") return euclid(*m.parts[0]);
    if (m.kind == "Product" && !m.intr) { for (auto &p : m.parts) if (!p->flatmetric) return false; return true; }
    return m.intr || m.flatmetric;
}
static bool usable(const Man &m, const SK &k)
{
    if (k.kind == K_LTSR && !euclid(m)) return false; /* documented in LRTRSR1::tCG_TR */
    if (k.matrix && !m.opetransport) return false;
    if (k.kind == K_RW && !m.cotangent) return false;
    if ((k.kind == K_TSR || k.kind == K_LTSR) && !m.isodeclared) return false;
    return true;
}
struct Opt {
    int nbb = 0; int ls = LSSM_ARMIJO, init = -1, crit = SM_GRAD_F_0, max = 500, min = 0, verbose = ITERRESULT, gap = 1000000, npre = 1, stopk = -1;
    double tol = 1e-6, timebound = 1e8, acc = 1e-6;
    std::string str() const
    {
        static const char *l[] = {"Armijo", "Wolfe", "StrongWolfe", "Exact", "Input"};
        static const char *c[] = {"FUN_REL", "GRAD_F", "GRAD_F_0"};
        return fmt("%s init%d %s tol%g max%d min%d verbose%d gap%d pre%d/%d stop%d time%g accuracy%g", l[ls], init, c[crit], tol, max, min, verbose, gap, npre, nbb, stopk, timebound, acc);
    }
};
static int g_stopk = -1, g_stopcalls = 0, g_stoplenbad = 0, g_stoppt = 0, g_stoplen = 0, g_stoplast = 0;
static bool g_stopneed = false;
static bool stopfn(const Variable &x, const Vector &fs, integer len, realdp n2, realdp n0, const Problem *prob, const Solvers *)
{
    int k = g_stopcalls++;
    const Rec *r = (const Rec *)prob;
    if (fs.Getlength() > 0) for (int i = 0; i < len; i++) {
        double v = fs.ObtainReadData()[i];
        if (i >= fs.Getlength() || std::find(r->fv.begin(), r->fv.end(), v) == r->fv.end()) g_stoplenbad++;
    }
    /* the values so far, that of x last */
    if (len < 1 || fs.Getlength() < len || (g_stopneed && len < k + 1)) g_stoplen++;
    else if (!r->gx.empty() && !(fs.ObtainReadData()[len - 1] == r->exact(flat(x)))) g_stoplast++;
    if (!r->gx.empty() && !(flat(x) == r->gx.back())) g_stoppt++;
    return g_stopk >= 0 && k >= g_stopk;
}
static void apply(SolversSM *S, const SK &k, const Opt &o)
{
    S->Stop_Criterion = (StopCritSM)o.crit; S->Tolerance = o.tol; S->Max_Iteration = o.max; S->Min_Iteration = o.min; S->Verbose = getenv("MC_DETAILED") ? DETAILED : (VERBOSEINFO)o.verbose; S->OutputGap = getenv("MC_DETAILED") ? 1 : o.gap;
    S->TimeBound = o.timebound; S->Accuracy = o.acc;
    if (!k.tr) {
        SolversSMLS *L = (SolversSMLS *)S;
        L->LineSearch_LS = (LSAlgoSM)o.ls;
        if (o.init >= 0) L->InitSteptype = (InitStepsizeSetSM)o.init;
        L->Num_pre_funs = o.npre;
        L->Num_pre_BB = o.nbb; L->BBratio = o.nbb ? 0.5 : 1;
    }
    if (o.stopk >= 0) { S->StopPtr = stopfn; g_stopk = o.stopk == 99 ? -1 : o.stopk; g_stopcalls = g_stoplenbad = g_stoppt = g_stoplen = g_stoplast = 0; g_stopneed = true; }
}
static bool crit(const Opt &o, const V &fs, const V &gs, int i, int last, double slack)
{
    double t = o.tol * (1 + slack);
    if (o.crit == SM_FUN_REL) return i > 0 && std::fabs(fs[i] - fs[last]) < t * (1 + std::fabs(fs[last]));
    if (o.crit == SM_GRAD_F) return gs[i] < t;
    return gs[i] < t * gs[0] || (gs[0] == 0 && gs[i] == 0);
}
struct Result { V x; double f, ng; int iter, nf, ngr, nR, nV, nVp, nH, len; V fs, gs, ts; };
static V ser(const Vector &v, int n) { if (v.Getlength() < n || n <= 0) return V(); const double *p = v.ObtainReadData(); return V(p, p + n); }
static Result collect(SolversSM *S)
{
    Result r;
    r.x = flat(S->GetXopt()); r.f = S->Getfinalfun(); r.ng = S->Getnormgf(); r.iter = S->GetIter(); r.nf = S->Getnf(); r.ngr = S->Getng(); r.nR = S->GetnR(); r.nV = S->GetnV(); r.nVp = S->GetnVp(); r.nH = S->GetnH();
    r.len = S->GetlengthSeries();
    r.fs = ser(S->GetfunSeries(), r.len); r.gs = ser(S->GetgradSeries(), r.len); r.ts = ser(S->GettimeSeries(), r.len);
    return r;
}
static double gnorm(const Man &m, const Rec &P, const V &x)
{
    Rec Q(P);
    Q.clear();
    Variable xv = m.at(x);
    Vector g(m.M->GetEMPTY());
    ((Problem &)Q).Problem::Grad(xv, &g);
    return std::sqrt(std::max(0.0, (double)m.M->Metric(xv, g, g)));
}

static bool runit(const Man &m, const SK &k, const Opt &o, Rec &P, SolversSM *S)
{
    g_fake = true; g_now = 1000000;
    bool ok = true;
    try { S->Run(); } catch (Rec::TooLong &) { ok = false; }
    g_fake = false;
    trace(); state(P.fx.size()); trans(P.fx.size() + P.gx.size());
    if (!ok) violation(k.name + ":endless", "no end after 20000 evaluations");
    return ok;
}
static MP named(int i)
{
    MP m;
    switch (i) {
    case 0: m = mkeuc(2, 1, 1, false); break;
    case 1: m = mkst(3, 1, 2, "Sphere"); break;
    case 2: m = mkst(3, 2, 1); break;
    case 3: m = mkspd(2, 1); break;
    default: m = mkprod({part(mkst(3, 1, 1), true), part(mkeuc(2, 1, 1, false), false)}, {1, 1}, true); break;
    }
    return fin(m);
}
/* intrinsic coordinates refer to frames from Householder reflections, and no frame is continuous everywhere (the sign rule of
 * the reflections jumps where a leading entry vanishes): a vector transported across such a place is not close to itself */
static bool framejump(const Man &m, const V &x)
{
    if (!m.intr) return false;
    Variable xv = m.at(x);
    Basis b = basis(m, xv);
    for (double h : {1e-5, 1e-4, 1e-3, -1e-5, -1e-4, -1e-3}) for (int i = 0; i < b.n; i++) {
        Vector e = tvec(m, xv, b, ecoef(b.n, i, h));
        Variable y = retr(m, xv, e);
        for (int j = 0; j < b.n; j++) {
            Vector v = tvec(m, xv, b, ecoef(b.n, j)), t = zerov(m);
            m.M->VectorTransport(xv, e, y, v, &t);
            V a = flat(extof(m, xv, v)), c = flat(extof(m, y, t));
            if (vnrm(vadd(a, c, -1)) > 0.3 * vnrm(a)) return true;
        }
    }
    return false;
}
#endif

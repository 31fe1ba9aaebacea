/* C16 line searches and C17 trust region framework against an adversarial environment: every answer the cost function, its
 * derivative and its Hessian give along the run is a choice of the explorer; the real solver code runs unmodified on it. */
#include "ref.h"
#include "Manifolds/Euclidean.h"
#include "Solvers/RSD.h"
#include "Solvers/RTRNewton.h"
#include "Solvers/RTRSD.h"
#include "Solvers/RTRSR1.h"
#include "Solvers/LRTRSR1.h"
using namespace mc;

struct Endless {};

/* ------------------------------------------------------------------ C16 */
struct LSProb : Problem {
    std::function<double(double)> F, G;
    mutable long nfc = 0, ngc = 0;
    long cap = 600;
    double f(const Variable &x) const override
    {
        if (++nfc > cap) throw Endless();
        return F(x.ObtainReadData()[0]);
    }
    Vector &EucGrad(const Variable &x, Vector *r) const override
    {
        if (++ngc > cap) throw Endless();
        r->ObtainWriteEntireData()[0] = G(x.ObtainReadData()[0]);
        return *r;
    }
};
struct Probe : RSD {
    Probe(const Problem *p, const Variable *x) : RSD(p, x) {}
    double step() const { return stepsize; }
    int status() const { return (int)LSstatus; }
    double slope0() const { return initialslope; }
    double X1() const { return x1.ObtainReadData()[0]; }
    double F1() const { return f1; }
    double G1() const { return gf1.ObtainReadData()[0]; }
    double init() const { return initiallength; }
    bool interp = true;
};
static const char *lsname[] = {"ARMIJO", "WOLFE", "STRONGWOLFE", "EXACT", "INPUTFUN"};
static const char *stname[] = {"NOCURVATURE", "MINSTEPSIZE", "MAXSTEPSIZE", "NONEXACT", "LSERROR", "SUCCESS"};
static double g_input = 1;
static realdp inputfun(integer, const Variable &, const Vector &, realdp, realdp, const Problem *, const Solvers *) { return g_input; }

struct LSConf { int ls; double a, b, mn, mx, r1, r2, s; int pure; double in; };
static std::string cname(const LSConf &c)
{
    return fmt("%s%s alpha%g beta%g min%g max%g ratio%g-%g init%g%s", lsname[c.ls], c.ls == 4 ? (c.pure ? "-pure" : "-armijo") : "", c.a, c.b, c.mn, c.mx, c.r1, c.r2, c.s,
               c.ls == 4 ? fmt(" input%g", c.in).c_str() : "");
}

/* environment along the ray x = t, f(0) = 0, f'(0) = -1 (so the search direction is +1 and slope -1) */
struct Env {
    Explorer &ex;
    const LSConf &c;
    int depth, tail, extra = 0; /* extra: further trials answered from a smaller alphabet */
    int trials = 0;
    std::map<double, double> fv, gv;
    std::vector<double> order;
    Env(Explorer &e, const LSConf &cc, int d) : ex(e), c(cc), depth(d), tail(0) { fv[0] = 0; gv[0] = -1; }
    double val(double t)
    {
        auto it = fv.find(t);
        if (it != fv.end()) return it->second;
        order.push_back(t);
        double line = -c.a * t; /* Armijo line */
        int k;
        static const int fewv[] = {0, 1, 2, 4};
        if ((int)order.size() <= depth) k = ex.choose(t > 0 ? 8 : 2);
        else if ((int)order.size() <= depth + extra) k = fewv[ex.choose(t > 0 ? 5 : 2)];
        else k = tail == 0 ? 4 : tail == 1 ? 0 : tail == 2 ? 2 : tail == 3 ? ((order.size() & 1) ? 4 : 0) : 1;
        double v;
        switch (k) {
        case 0: v = -0.9 * t; break;                         /* clearly sufficient */
        case 1: v = line * (1 + 1e-6); break;                /* just sufficient */
        case 2: v = line * (1 - 1e-3); break;                /* decrease, but just not sufficient */
        case 3: v = 0; break;                                /* the same value */
        case 4: v = std::fabs(t); break;                     /* increase */
        case 5: v = 1e8; break;                              /* huge increase */
        case 7: v = line * 0.5; break;                       /* decrease, clearly not sufficient */
        default: v = -30 * t - 1; break;                     /* enormous decrease */
        }
        return fv[t] = v;
    }
    double grad(double t)
    {
        auto it = gv.find(t);
        if (it != gv.end()) return it->second;
        val(t);
        int k;
        size_t pos = std::find(order.begin(), order.end(), t) - order.begin();
        static const int fewg[] = {0, 3, 6};
        if ((int)pos < depth) k = ex.choose(7);
        else if ((int)pos < depth + extra) k = fewg[ex.choose(3)];
        else k = tail == 0 ? 3 : tail == 1 ? 0 : tail == 2 ? 6 : tail == 3 ? ((pos & 2) ? 6 : 0) : 1;
        double v;
        switch (k) {
        case 0: v = -2; break;
        case 1: v = -c.b * (1 + 1e-6); break;                /* just too steep */
        case 2: v = -c.b * (1 - 1e-6); break;
        case 3: v = 0; break;
        case 4: v = c.b * (1 - 1e-6); break;
        case 5: v = c.b * (1 + 1e-6); break;                 /* curvature holds, strong form does not */
        default: v = 3; break;
        }
        return gv[t] = v;
    }
};

static void lsgroup(const LSConf &c, int depth, int extra = 0)
{
    group(fmt("linesearch%s/", extra ? "-deep" : "") + cname(c), [&] {
        for (int tail = 0; tail < 5; tail++) {
            Explorer ex;
            ex.explore([&] {
                Env env(ex, c, depth);
                env.tail = tail; env.extra = extra;
                Euclidean M(1);
                LSProb P;
                P.SetDomain(&M);
                P.F = [&](double t) { return env.val(t); };
                P.G = [&](double t) { return env.grad(t); };
                Vector x0(1);
                x0.SetToZeros();
                Probe S(&P, &x0);
                S.Verbose = NOOUTPUT;
                S.Max_Iteration = 1;
                S.Stop_Criterion = SM_GRAD_F;
                S.Tolerance = 1e-300;
                S.LineSearch_LS = (LSAlgoSM)c.ls;
                S.LS_alpha = c.a; S.LS_beta = c.b; S.Minstepsize = c.mn; S.Maxstepsize = c.mx;
                S.LS_ratio1 = c.r1; S.LS_ratio2 = c.r2; S.Initstepsize = c.s;
                S.InitSteptype = LSSM_ONESTEP;
                if (c.ls == 4) { S.LinesearchInput = inputfun; S.IsPureLSInput = c.pure; g_input = c.in; }
                bool ended = true;
                try { S.Run(); } catch (Endless &) { ended = false; }
                trace(); state(env.order.size() + 1); trans(P.nfc + P.ngc);
                std::string h;
                for (double t : env.order) h += fmt("f(%.6g)=%.6g%s ", t, env.fv[t], env.gv.count(t) ? fmt(" slope %.6g", env.gv[t]).c_str() : "");
                setcase(fmt("tail %d answers %s: %s", tail, ex.str().c_str(), h.substr(0, 600).c_str()));
                const char *nm = lsname[c.ls];
                eval();
                if (!ended) { violation(fmt("%s:endless", nm), fmt("no end after %ld evaluations in one search", P.nfc)); return; }
                double X = S.X1(), f = S.F1(), t = S.step();
                int st = S.status();
                outcome(hmix(hdbl(t, hdbl(f)), st));
                fam(nm, stname[st]);
                bool ok = st == LSSM_SUCCESS;
                double fx = env.fv.count(X) ? env.fv[X] : NAN;
                eval(4);
                if (!(fx == f)) violation(fmt("%s:%s:value", nm, stname[st]), fmt("reports value %.10g at %.10g, where the cost is %.10g", f, X, fx));
                double gx = env.gv.count(X) ? env.gv[X] : NAN;
                if (!(gx == S.G1())) violation(fmt("%s:%s:gradient", nm, stname[st]), fmt("the gradient kept for the reported point %.10g is %.10g, the true one is %.10g", X, S.G1(), gx));
                if (X != 0 && !(X == t)) violation(fmt("%s:%s:step", nm, stname[st]), fmt("reports step size %.10g but moved by %.10g", t, X));
                if (S.Getnf() != P.nfc || S.Getng() != P.ngc) violation(fmt("%s:%s:counters", nm, stname[st]), fmt("reports %d and %d evaluations, made %ld and %ld", (int)S.Getnf(), (int)S.Getng(), P.nfc, P.ngc));
                if (!ok && f > 0) violation(fmt("%s:%s:worse", nm, stname[st]), fmt("the failed search leaves the solver at a point of larger cost %.10g", f));
                if (!ok) return;
                bool ar = f <= -c.a * t * (1 - 1e-12), wo = gx >= -c.b, sw = std::fabs(gx) <= c.b;
                bool pure = c.ls == 4 && c.pure;
                if (c.ls != LSSM_EXACT && !pure && !ar) violation(fmt("%s:armijo", nm), fmt("accepted step %.10g has cost %.10g, above the sufficient decrease line %.10g", t, f, -c.a * t));
                if (c.ls == LSSM_WOLFE && !wo) violation(fmt("%s:curvature", nm), fmt("accepted step %.10g has slope %.10g, steeper than %.10g", t, gx, -c.b));
                if (c.ls == LSSM_STRONGWOLFE && !sw) violation(fmt("%s:curvature", nm), fmt("accepted step %.10g has slope %.10g, larger than %.10g", t, gx, c.b));
                /* near rounding level an exact search may end at a stationary point of the ray without a measurable decrease */
                if (c.ls == LSSM_EXACT && !(f <= 0) && !(std::fabs(gx) <= 0.1)) violation(fmt("%s:decrease", nm), fmt("accepted step %.10g has a larger cost %.10g and slope %.10g", t, f, gx));
                double lo = std::min(c.mn, S.init()), hi = std::max(c.mx, S.init());
                if (!pure && !(t >= lo && t <= hi)) violation(fmt("%s:interval", nm), fmt("accepted step %.10g is outside [%g, %g]", t, lo, hi));
            });
        }
    });
}

/* on a strictly convex quadratic every search must succeed */
static void quadgroup(int ls, double a, double b, double r1, double r2)
{
    group(fmt("quadratic/%s alpha%g beta%g ratio%g-%g", lsname[ls], a, b, r1, r2), [&] {
        for (double cv : {1e-3, 1e-2, 0.1, 0.3, 0.5, 0.7, 0.9, 1.0, 1.2, 1.5, 1.9, 2.0, 2.5, 4.0, 7.0, 10.0, 33.0, 1e2, 1e3, 1e4}) for (double s0 : {0.01, 0.1, 0.25, 0.9, 1.0, 1.7, 4.0, 20.0}) {
            if (cv * s0 > (ls == LSSM_STRONGWOLFE ? 50 : 1e4)) continue; /* the searches have a limited number of reductions */
            setcase(fmt("-t + %g t^2 / 2, first trial %g", cv, s0));
            Euclidean M(1);
            LSProb P;
            P.SetDomain(&M);
            P.F = [&](double t) { return -t + cv * t * t / 2; };
            P.G = [&](double t) { return -1 + cv * t; };
            Vector x0(1);
            x0.SetToZeros();
            Probe S(&P, &x0);
            S.Verbose = NOOUTPUT; S.Max_Iteration = 1; S.Stop_Criterion = SM_GRAD_F; S.Tolerance = 1e-300;
            S.LineSearch_LS = (LSAlgoSM)ls; S.LS_alpha = a; S.LS_beta = b; S.LS_ratio1 = r1; S.LS_ratio2 = r2; S.Initstepsize = s0;
            trace(); state(1);
            try { S.Run(); } catch (Endless &) { violation(fmt("%s:quadratic:endless", lsname[ls]), "no end"); continue; }
            trans(P.nfc + P.ngc);
            eval(2);
            outcome(hdbl(S.step(), hdbl(cv)));
            if (S.status() != LSSM_SUCCESS) { violation(fmt("%s:quadratic:%s", lsname[ls], stname[S.status()]), fmt("the search fails on a convex quadratic, ends at %.8g after %ld evaluations", S.X1(), P.nfc)); continue; }
            if (!(S.F1() < 0)) violation(fmt("%s:quadratic:no decrease", lsname[ls]), fmt("step %.8g, value %.8g", S.step(), S.F1()));
            if (ls == LSSM_EXACT && !(std::fabs(S.G1()) <= 1e-5)) violation(fmt("%s:quadratic:inexact", lsname[ls]), fmt("step %.8g, slope %.8g", S.step(), S.G1()));
        }
    });
}

static void C16()
{
    for (int ls = 0; ls < 4; ls++) for (auto ab : std::vector<std::pair<double, double>>{{1e-4, 0.999}, {1e-4, 0.9}, {0.1, 0.4}, {0.1, 0.15}, {0.3, 0.9}, {1e-4, 0.1}})
        for (auto r : std::vector<std::pair<double, double>>{{0.1, 0.9}, {0.5, 0.5}, {0.25, 0.6}}) quadgroup(ls, ab.first, ab.second, r.first, r.second);

    bool th = thorough();
    std::vector<std::pair<double, double>> ab = {{1e-4, 0.999}, {0.1, 0.4}, {0.3, 0.9}};
    std::vector<std::pair<double, double>> lim = {{2.3e-16, 1e10}, {1e-2, 8}, {0.3, 1}};
    std::vector<std::pair<double, double>> rat = {{0.1, 0.9}, {0.5, 0.5}, {0.25, 0.6}};
    for (auto &x : ab) for (auto &l : lim) for (auto &r : rat) for (double s : {1.0, 0.25}) {
        for (int ls = 0; ls < 4; ls++) {
            if ((ls == 1) && r.first != 0.1) continue; /* the ratios are not used there */
            lsgroup({ls, x.first, x.second, l.first, l.second, r.first, r.second, s, 0, 0}, (ls == 0 ? 5 : 2) + (th ? 1 : 0));
        }
        for (int ls = 1; ls < 4; ls++) if (r.first == 0.5 || (th && ls != 1)) lsgroup({ls, x.first, x.second, l.first, l.second, r.first, r.second, s, 0, 0}, 2, th ? 2 : 1);
        if (x.first == 1e-4) for (int pure = 0; pure < 2; pure++) for (double in : {2.0, 0.0}) lsgroup({4, x.first, x.second, l.first, l.second, r.first, r.second, s, pure, in}, pure ? 1 : 4);
    }
}

/* ------------------------------------------------------------------ C17 */
enum { TR_NEWTON, TR_SD, TR_SR1, TR_LSR1 };
static const char *trname[] = {"RTRNewton", "RTRSD", "RTRSR1", "LRTRSR1"};
struct TRConf { int alg, n, depth, full; double d0, dmax, dmin, tau1, tau2, acc, accuracy, kappa, theta; int inner, prec, userand, m, restart; int nrm, nl, hl; };
static std::string trn(const TRConf &c)
{
    return fmt("%s n%d depth%d alphabet%d D0=%g max=%g min=%g shrink%g grow%g accept%g accuracy%g kappa%g theta%g inner%d prec%d rand%d m%d restart%d ng%d.%d.%d", trname[c.alg], c.n, c.depth, c.full, c.d0, c.dmax,
               c.dmin, c.tau1, c.tau2, c.acc, c.accuracy, c.kappa, c.theta, c.inner, c.prec, c.userand, c.m, c.restart, c.nrm, c.nl, c.hl);
}
struct TRWorld : Problem {
    Explorer &ex;
    const TRConf &c;
    SolversSMTR *S = nullptr;
    mutable int nfc = 0, ngc = 0, nhc = 0, ncand = 0;
    mutable bool dead = false;           /* a NaN or the end was reached */
    /* reference state */
    mutable std::vector<double> x, g, H, xc, gc, Hc;
    mutable double fcur = 0, D = 0, fc = 0, ng0 = 0;
    mutable bool pending = false, stop = false, breakmin = false, accepted = false, ambiguous = false, nanstop = false;
    mutable double newD = 0;
    mutable std::string hist;
    mutable std::vector<double> fs, gs;
    TRWorld(Explorer &e, const TRConf &cc) : ex(e), c(cc) {}
    double P(int i) const { return c.prec ? (i == 0 ? 4.0 : 1.0) : 1.0; } /* the norm is <v, P v>, the preconditioner its inverse */
    std::vector<double> askg(bool cand) const
    {
        static const double A[9][3] = {{1, 0, 0}, {0.3, -0.7, 0.2}, {0, 2, 0}, {1, 1, 1}, {0, 0, 1}, {1e-7, 0, 0}, {0, 0, 0}, {-5, 1, 0}, {1e-4, 1e-4, 0}};
        int k = ex.choose(cand ? c.nl : c.nrm);
        std::vector<double> r(A[k], A[k] + c.n);
        /* the limited memory method solves its subproblem in the compact form: changes of the gradient by 1e7 over a step of
         * 1e-7 are beyond what that form resolves in double precision and are left out for it */
        if (c.alg == TR_LSR1) for (double &v : r) if (std::fabs(v) < 1e-2 && v != 0) v = 1e-2;
        return r;
    }
    std::vector<double> askH(bool cand) const
    {
        int n = c.n;
        std::vector<double> r(n * n, 0);
        int k = ex.choose(cand ? c.hl : c.full ? 6 : 3);
        static const double Dg[6][3] = {{1, 1, 1}, {2, -1, 0.5}, {0, 0, 0}, {-1, -2, -0.5}, {1e3, 1, 1e-3}, {0, 1, 1}};
        for (int i = 0; i < n; i++) r[i + n * i] = Dg[k][i];
        if (k == 1 || k == 4) { r[1] += 0.3; r[n] += 0.3; }
        return r;
    }
    /* what the solver shows right after it formed the candidate */
    void atCandidate(const Variable &xx) const
    {
        int n = c.n;
        const double *xp = xx.ObtainReadData();
        Vector e(S->eta2);
        std::vector<double> ev(e.ObtainReadData(), e.ObtainReadData() + n);
        std::vector<double> x1v(S->x1.ObtainReadData(), S->x1.ObtainReadData() + n), g1v(S->gf1.ObtainReadData(), S->gf1.ObtainReadData() + n);
        const char *nm = trname[c.alg];
        eval(5);
        for (int i = 0; i < n; i++) if (!(x1v[i] == x[i])) { violation(fmt("%s:base", nm), fmt("candidate %d is built at (%.10g, %.10g), the last accepted point is (%.10g, %.10g)", ncand, x1v[0], x1v[1], x[0], x[1])); break; }
        for (int i = 0; i < n; i++) if (!(g1v[i] == g[i])) { violation(fmt("%s:gradient", nm), fmt("candidate %d uses gradient (%.6g, %.6g) instead of (%.6g, %.6g)", ncand, g1v[0], g1v[1], g[0], g[1])); break; }
        if (!(std::fabs(S->Delta - D) <= 1e-13 * D)) violation(fmt("%s:radius", nm), fmt("candidate %d uses radius %.10g, the update rule gives %.10g", ncand, (double)S->Delta, D));
        double en = 0;
        bool fin = true;
        for (int i = 0; i < n; i++) { en += P(i) * ev[i] * ev[i]; fin = fin && std::isfinite(ev[i]); }
        en = std::sqrt(en);
        if (!fin) { violation(fmt("%s:step not finite", nm), fmt("candidate %d: step (%g, %g)", ncand, ev[0], ev[1])); throw Endless(); }
        double tolD = c.alg == TR_LSR1 ? 1e-4 : 1e-8;
        if (!(en <= D * (1 + tolD))) violation(fmt("%s:outside", nm), fmt("candidate %d: step of length %.10g, radius %.10g, status %s", ncand, en, D, S->tCGstatusSetSMnames[S->tCGstatusSM].c_str()));
        for (int i = 0; i < n; i++) if (!(std::fabs(xp[i] - x[i] - ev[i]) <= 1e-14 * (1 + std::fabs(x[i]) + en))) { violation(fmt("%s:candidate", nm), "the candidate is not the retraction of the step"); break; }
        Vector He(e);
        std::vector<double> hv;
        auto happly = [&](const std::vector<double> &v) {
            Vector vv(e), r(e);
            for (int i = 0; i < n; i++) vv.ObtainWritePartialData()[i] = v[i];
            if (c.alg == TR_NEWTON) {
                std::vector<double> o(n, 0);
                for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) o[i] += H[i + n * j] * v[j];
                return o;
            }
            S->HessianEta(vv, &r);
            return std::vector<double>(r.ObtainReadData(), r.ObtainReadData() + n);
        };
        auto dot = [&](const std::vector<double> &a, const std::vector<double> &b) { double s = 0; for (int i = 0; i < n; i++) s += a[i] * b[i]; return s; };
        hv = happly(ev);
        double m = dot(g, ev) + 0.5 * dot(ev, hv), gn = std::sqrt(dot(g, g));
        /* Cauchy point along the preconditioned gradient */
        std::vector<double> z(n);
        for (int i = 0; i < n; i++) z[i] = g[i] / P(i);
        double gz = dot(g, z), zn = 0;
        for (int i = 0; i < n; i++) zn += P(i) * z[i] * z[i];
        zn = std::sqrt(zn);
        double zHz = dot(z, happly(z));
        double t = D / zn;
        if (zHz > 0 && gz / zHz < t) t = gz / zHz;
        double mc = -t * gz + 0.5 * t * t * zHz;
        curm = m;
        if (!(m <= mc * (1 - 1e-6) + 1e-13 * std::fabs(mc))) violation(fmt("%s:%s:less than Cauchy", nm, S->tCGstatusSetSMnames[S->tCGstatusSM].c_str()), fmt("candidate %d: model changes by %.8g, the Cauchy step gives %.8g", ncand, m, mc));
        int st = S->tCGstatusSM;
        fam(nm, S->tCGstatusSetSMnames[st]);
        if ((st == TRSM_NEGCURVTURE || st == TRSM_EXCREGION) && !(std::fabs(en - D) <= (c.alg == TR_LSR1 ? 1e-4 : 1e-7) * D))
            violation(fmt("%s:%s:not on boundary", nm, S->tCGstatusSetSMnames[st].c_str()), fmt("candidate %d: length %.10g, radius %.10g", ncand, en, D));
        if (st == TRSM_LCON || st == TRSM_SCON || st == TRSM_MIN) {
            double rn = 0;
            for (int i = 0; i < n; i++) rn += (g[i] + hv[i]) * (g[i] + hv[i]);
            rn = std::sqrt(rn);
            double lim = st == TRSM_MIN ? 1e-6 * gn : gn * std::min(c.kappa, std::pow(gn, c.theta));
            if (!(rn <= lim * (1 + 1e-6) + 1e-12 * gn)) violation(fmt("%s:%s:residual", nm, S->tCGstatusSetSMnames[st].c_str()), fmt("candidate %d: residual %.6g, promised %.6g", ncand, rn, lim));
        }
        outcome(hmix(hdbl(m, hdbl(D)), st));
    }
    mutable double curm = 0;
    double fval(const Variable &xx) const
    {
        int n = c.n;
        if (nfc++ == 0) {
            x.assign(xx.ObtainReadData(), xx.ObtainReadData() + n);
            fcur = ex.choose(c.full == 2 ? 2 : 1) ? 100.0 : 0.5;
            D = c.d0;
            return fcur;
        }
        if (dead) { violation(fmt("%s:continues", trname[c.alg]), "the run goes on after it had to end"); throw Endless(); }
        ncand++;
        atCandidate(xx);
        xc.assign(xx.ObtainReadData(), xx.ObtainReadData() + n);
        static const double R[14] = {1, 0.05, 3, -1, 0.75 + 1e-5, 0.25 - 1e-5, 0.1 - 1e-5, NAN, 0.75 - 1e-5, 0.25 + 1e-5, 0.1 + 1e-5, 0, -1e5, INFINITY};
        int k = ex.choose(c.full ? 14 : 6);
        double r = R[k];
        if (k == 7 || k == 13) { dead = nanstop = true; hist += "value not finite; "; return k == 7 ? NAN : INFINITY; }
        fc = fcur + r * curm;
        double rho = (fcur - fc) / -curm;
        hist += fmt("gain %.6g (radius %.6g, status %s); ", rho, D, S->tCGstatusSetSMnames[S->tCGstatusSM].c_str());
        double gn = 0;
        for (double v : g) gn += v * v;
        gn = std::sqrt(gn);
        double acc = gn / (ng0 + S->Tolerance);
        int st = S->tCGstatusSM;
        /* too close to a threshold after rounding of the values: not judged, the run is abandoned */
        for (double th : {0.75, 0.25, c.acc}) if (std::fabs(rho - th) < 1e-7 && curm != 0) { ambiguous = true; throw Endless(); }
        double dec = std::fabs(fcur - fc) / (std::fabs(fcur) + 1);
        newD = D;
        if (rho > 0.75) {
            if (st == TRSM_EXCREGION || st == TRSM_NEGCURVTURE || st == TRSM_MAXITER) newD = std::min(D * c.tau2, c.dmax);
        } else if (rho < 0.25 && acc >= c.accuracy) {
            newD = D * c.tau1;
            if (newD < c.dmin) { dead = breakmin = true; }
        }
        accepted = rho > c.acc || (dec < 1.4901161193847656e-8 && fc < fcur) || (acc < c.accuracy && (fc < fcur || st == TRSM_MIN || st == TRSM_LCON || st == TRSM_SCON));
        /* the gradient of quasi-Newton methods is asked for every candidate, the others' for the accepted ones */
        gc.clear();
        if (!dead) {
            if (accepted || c.alg >= TR_SR1) gc = askg(true);
            D = newD;
            if (accepted) {
                x = xc; fcur = fc; g = gc;
                double q = 0;
                for (double v : g) q += v * v;
                if (std::sqrt(q) < S->Tolerance) dead = stop = true;
                hist += fmt("accepted, gradient (%g, %g); ", g[0], g[1]);
            } else hist += "rejected; ";
            fs.push_back(fcur);
            double q = 0;
            for (double v : g) q += v * v;
            gs.push_back(std::sqrt(q));
        } else if (c.alg >= TR_SR1) gc = askg(true);
        setcase(fmt("answers %s: %s", ex.str().c_str(), hist.c_str()));
        return fc;
    }
};
struct TRProb : TRWorld {
    TRProb(Explorer &e, const TRConf &cc) : TRWorld(e, cc) {}
    double f(const Variable &xx) const override { return fval(xx); }
    Vector &EucGrad(const Variable &xx, Vector *r) const override
    {
        const TRWorld &w = *this;
        if (ngc++ == 0) {
            w.g = askg(false);
            double q = 0;
            for (double v : w.g) q += v * v;
            w.ng0 = std::sqrt(q);
            if (c.alg == TR_NEWTON) w.H = askH(false);
            w.gc = w.g;
            if (w.ng0 < S->Tolerance) dead = stop = true;
            w.hist += fmt("start gradient (%g, %g); ", w.g[0], w.g[1]);
            w.fs.push_back(w.fcur); w.gs.push_back(w.ng0);
        } else {
            const double *p = xx.ObtainReadData();
            eval();
            if (accepted && c.alg == TR_NEWTON && !dead) w.H = askH(true);
            for (int i = 0; i < c.n; i++) if (!(p[i] == w.xc[i])) { violation(fmt("%s:gradient point", trname[c.alg]), "the gradient is evaluated at another point than the candidate"); break; }
        }
        if (w.gc.empty()) { violation(fmt("%s:gradient of rejected", trname[c.alg]), "a gradient is evaluated although the candidate had to be rejected"); w.gc.assign(c.n, 0); }
        for (int i = 0; i < c.n; i++) r->ObtainWritePartialData()[i] = w.gc[i];
        return *r;
    }
    Vector &EucHessianEta(const Variable &xx, const Vector &e, Vector *r) const override
    {
        const double *p = xx.ObtainReadData(), *q = e.ObtainReadData();
        std::vector<double> o(c.n, 0);
        for (int i = 0; i < c.n; i++) for (int j = 0; j < c.n; j++) o[i] += H[i + c.n * j] * q[j];
        nhc++;
        for (int i = 0; i < c.n; i++) r->ObtainWritePartialData()[i] = o[i];
        return *r;
    }
    Vector &PreConditioner(const Variable &xx, const Vector &in, Vector *r) const override
    {
        *r = in;
        if (c.prec) for (int i = 0; i < c.n; i++) r->ObtainWritePartialData()[i] = in.ObtainReadData()[i] / P(i);
        return *r;
    }
};

static SolversSMTR *trnew(const TRConf &c, TRProb &P, Vector &x0)
{
    SolversSMTR *S;
    switch (c.alg) {
    case TR_NEWTON: S = new RTRNewton(&P, &x0); break;
    case TR_SD: S = new RTRSD(&P, &x0); break;
    case TR_SR1: S = new RTRSR1(&P, &x0); break;
    default: S = new LRTRSR1(&P, &x0); ((LRTRSR1 *)S)->LengthSY = c.m; ((LRTRSR1 *)S)->LMrestart = c.restart; break;
    }
    S->Verbose = ITERRESULT; S->OutputGap = 1000000;
    S->Max_Iteration = c.depth; S->Stop_Criterion = SM_GRAD_F; S->Tolerance = 1e-12;
    S->initial_Delta = c.d0; S->maximum_Delta = c.dmax; S->minimum_Delta = c.dmin; S->Shrinked_tau = c.tau1; S->Magnified_tau = c.tau2; S->Acceptence_Rho = c.acc;
    S->Accuracy = c.accuracy; S->kappa = c.kappa; S->theta = c.theta; S->Max_Inner_Iter = c.inner; S->useRand = c.userand;
    return S;
}
static void trgroup(const TRConf &c)
{
    group("trustregion/" + trn(c), [&] {
        Explorer ex;
        ex.explore([&] {
            TRProb P(ex, c);
            Euclidean M(c.n);
            P.SetDomain(&M);
            Vector x0(c.n);
            x0.SetToZeros();
            SolversSMTR *S = trnew(c, P, x0);
            P.S = S;
            bool ended = true;
            setcase("answers " + ex.str());
            try { S->Run(); } catch (Endless &) { ended = false; }
            trace(); state(P.ncand + 1); trans(P.nfc + P.ngc + P.nhc);
            setcase(fmt("answers %s: %s", ex.str().c_str(), P.hist.c_str()));
            const char *nm = trname[c.alg];
            if (ended) {
                eval(6);
                int n = c.n, it = S->GetIter();
                const double *xp = S->x1.ObtainReadData();
                for (int i = 0; i < n; i++) if (!(xp[i] == P.x[i])) { violation(fmt("%s:final point", nm), fmt("reports (%.10g, %.10g), the last accepted point is (%.10g, %.10g)", xp[0], xp[1], P.x[0], P.x[1])); break; }
                if (!(S->f1 == P.fcur)) violation(fmt("%s:final value", nm), fmt("reports %.12g, the value of the last accepted point is %.12g", (double)S->f1, P.fcur));
                double q = P.gs.empty() ? 0 : P.gs.back();
                if (!(std::fabs(S->ngf1 - q) <= 1e-12 * q)) violation(fmt("%s:final gradient norm", nm), fmt("reports %.12g, it is %.12g", (double)S->ngf1, q));
                if (S->nf != P.nfc || S->ng != P.ngc) violation(fmt("%s:counters", nm), fmt("reports %d and %d evaluations, made %d and %d", (int)S->nf, (int)S->ng, P.nfc, P.ngc));
                if (c.alg == TR_NEWTON && S->nH != P.nhc) violation(fmt("%s:hessian counter", nm), fmt("reports %d Hessian evaluations, made %d", (int)S->nH, P.nhc));
                int exp = P.ncand - (P.nanstop || P.breakmin ? 1 : 0);
                if (it != exp) violation(fmt("%s:iterations", nm), fmt("reports %d iterations for %d candidates", it, P.ncand));
                if (!P.dead && it != c.depth) violation(fmt("%s:early end", nm), fmt("ends after %d of %d iterations without a reason", it, c.depth));
                if (S->lengthSeries != it + 1) violation(fmt("%s:series length", nm), fmt("%d entries for %d iterations", (int)S->lengthSeries, it));
                else for (int i = 0; i <= it && i < (int)P.fs.size(); i++) {
                    double a = S->funSeries.ObtainReadData()[i], b = S->gradSeries.ObtainReadData()[i];
                    if (!(a == P.fs[i])) { violation(fmt("%s:value series", nm), fmt("entry %d is %.12g, the value of that iterate is %.12g", i, a, P.fs[i])); break; }
                    if (!(std::fabs(b - P.gs[i]) <= 1e-12 * P.gs[i])) { violation(fmt("%s:gradient series", nm), fmt("entry %d is %.12g, the gradient norm of that iterate is %.12g", i, b, P.gs[i])); break; }
                }
            }
            delete S;
        });
    });
}

static void C17()
{
    bool th = thorough();
    TRConf base = {0, 2, 2, 1, 1, 1e4, 2.2e-16, 0.25, 2, 0.1, 1e-6, 0.1, 1, 1000, 0, 0, 2, 1, 9, 3, 2};
    auto add = [&](TRConf c) { trgroup(c); };
    for (int alg = 0; alg < 4; alg++) {
        TRConf c = base;
        c.alg = alg;
        if (alg != TR_NEWTON) { c.theta = 0.1; c.kappa = alg == TR_SD ? 0.9 : 0.1; c.nl = th ? 9 : 5; }
        else if (th) { c.nl = 5; c.hl = 3; }
        c.full = th ? 2 : 1;
        for (int n : {2, 3}) for (double d0 : {1.0, 0.05, 100.0}) {
            c.n = n; c.d0 = d0;
            TRConf a = c;
            bool some = th || (n == 2 && d0 == 1);   /* quick: the variants at one size and radius */
            if (!th && alg == TR_NEWTON && !some) { c.nl = 2; a = c; }
            add(a);
            a.dmax = d0 * 1.5; a.dmin = d0 * 0.2; a.tau1 = 0.5; a.tau2 = 3; a.acc = 0.2; if (some || d0 == 0.05) add(a);
            a = c; a.accuracy = 0.5; if (some) add(a);
            if (alg < TR_LSR1 && (some || (n == 3 && d0 == 1))) { a = c; a.inner = 1; add(a); a = c; a.prec = 1; add(a); a.inner = 2; if (n == 3) add(a); }
            if (some && n == 2 && alg < TR_LSR1) { a = c; a.userand = 1; add(a); }
            if (alg == TR_LSR1) { a = c; a.m = 1; add(a); a.m = n; a.restart = 0; add(a); a.m = 0; add(a); a.m = 4; a.restart = 1; add(a); }
            a = c; a.full = 0; a.nrm = 3; a.nl = alg == TR_NEWTON ? 2 : 3; a.hl = 2;
            a.depth = alg == TR_SD ? 4 : 3 + (th ? 1 : 0);
            if (th || d0 != 0.05 || n == 2) add(a);
            if (alg >= TR_SR1) { a.depth = 4; a.nl = 2; if (th || d0 == 1) add(a); }
            if (alg == TR_LSR1 && (th || d0 != 100)) { a.m = n; a.restart = 0; add(a); a.m = 1; add(a); a.restart = 1; add(a); a.m = 4; add(a); }
        }
    }
}

int main(int argc, char **argv) { return run(argc, argv, {{"C16", C16}, {"C17", C17}}); }

/* C21: the search directions and quadratic models of the smooth solvers against dense references.
 * The environment of a line search method is the step size it is answered with: every sequence of answers from a finite
 * alphabet, up to a depth, is run on the real solver; at each iterate the direction it offers is compared with the one
 * the definition of the method gives, computed densely in coordinates of the tangent space.  For the trust region
 * quasi-Newton methods the environment is the function value at the trial point (accepted or rejected), and the model
 * Hessian is compared as a matrix. */
#include "runs.h"

typedef std::vector<V> MM;
static MM mzero(int n) { return MM(n, V(n, 0.0)); }
static MM meye(int n, double s = 1) { MM r = mzero(n); for (int i = 0; i < n; i++) r[i][i] = s; return r; }
static V mv(const MM &A, const V &x) { V r(A.size(), 0.0); for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < x.size(); j++) r[i] += A[i][j] * x[j]; return r; }
static MM mm(const MM &A, const MM &B) { int n = (int)A.size(); MM r = mzero(n); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) for (int j = 0; j < n; j++) r[i][j] += A[i][k] * B[k][j]; return r; }
static double mnorm(const MM &A) { double s = 0; for (auto &r : A) s += vdot(r, r); return std::sqrt(s); }
static MM minv(const MM &A)
{
    int n = (int)A.size();
    CM a(n, n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) = A[i][j];
    CM x = lsolve(a, eye(n));
    MM r = mzero(n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = x(i, j).real();
    return r;
}
/* is A positive definite (Cholesky) */
static bool posdef(MM A)
{
    int n = (int)A.size();
    for (int k = 0; k < n; k++) {
        if (!(A[k][k] > 0)) return false;
        double d = std::sqrt(A[k][k]);
        for (int i = k; i < n; i++) A[i][k] /= d;
        for (int j = k + 1; j < n; j++) for (int i = j; i < n; i++) A[i][j] -= A[i][k] * A[j][k];
    }
    return true;
}

/* problem with a preconditioner P v = v + <u, v> u */
struct Pre : Rec {
    bool prec = false;
    bool answers = false; /* the value at a trial point is chosen by the environment */
    mutable double answer = 0;
    Vector uvec(const Variable &x) const { return fromext(*m, x, gcoef(m->extlen, 777, 0.6)); }
    Vector &PreConditioner(const Variable &x, const Vector &v, Vector *r) const override
    {
        if (!prec) { *r = v; return *r; }
        Vector vc(v), u = uvec(x), w(v);
        m->M->ScalarVectorAddVector(x, m->M->Metric(x, u, vc), u, vc, &w);
        *r = w;
        return *r;
    }
    mutable std::function<double(const V &)> env;
    double f(const Variable &x) const override
    {
        double v = Rec::f(x);
        return env ? env(flat(x)) : v;
    }
};

/* a point with coordinates of its tangent space */
struct At {
    Variable x;
    Basis b;
    MM G, P, Hs;
    V g, u;
    Vector gv;
    double f = 0;
    double ip(const V &a, const V &c) const { return vdot(a, mv(G, c)); }
    double nm(const V &a) const { return std::sqrt(std::max(0.0, ip(a, a))); }
    V c(const Vector &v) const { return b.coords(flat(v)); }
    V pc(const V &a) const { return P.empty() ? a : mv(P, a); }
};
static Pre *g_ref = nullptr; /* evaluates for the reference */
static At at(const Man &m, const Variable &x, bool hess)
{
    At a;
    a.x = x;
    a.b = basis(m, a.x);
    int n = a.b.n;
    a.G = mzero(n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a.G[i][j] = m.M->Metric(a.x, a.b.e[i], a.b.e[j]);
    a.f = g_ref->exact(flat(x));
    g_ref->SetUseGrad(true); g_ref->SetUseHess(true);
    a.gv = Vector(m.M->GetEMPTY());
    g_ref->Problem::Grad(a.x, &a.gv);
    a.g = a.c(a.gv);
    if (g_ref->prec) {
        a.u = a.c(g_ref->uvec(a.x));
        V gu = mv(a.G, a.u);
        a.P = meye(n);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a.P[i][j] += a.u[i] * gu[j];
    }
    if (hess) {
        a.Hs = mzero(n);
        for (int j = 0; j < n; j++) {
            Vector h(m.M->GetEMPTY());
            g_ref->Problem::HessianEta(a.x, a.b.e[j], &h);
            V c = a.c(h);
            for (int i = 0; i < n; i++) a.Hs[i][j] = c[i];
        }
    }
    return a;
}
static MM transport(const Man &m, const At &a, const Vector &eta, const At &b)
{
    int n = a.b.n;
    MM T = mzero(n);
    Vector s(m.M->GetEMPTY());
    m.M->VectorTransport(a.x, eta, b.x, eta, &s);
    for (int j = 0; j < n; j++) {
        Vector r(m.M->GetEMPTY());
        m.M->VectorTransport(a.x, eta, b.x, a.b.e[j], &r);
        V c = b.c(r);
        for (int i = 0; i < n; i++) T[i][j] = c[i];
    }
    return T;
}
static void rank1(MM &H, double s, const V &u, const V &v, const MM &G) { V gv = mv(G, v); for (size_t i = 0; i < H.size(); i++) for (size_t j = 0; j < H.size(); j++) H[i][j] += s * u[i] * gv[j]; }

/* ------------------------------------------------------------------ line search methods */
struct Cfg {
    SK k;
    std::string name;
    bool prec = false, convex = false, restart = false;
    int maxin = 1000, minin = 0, init = -1, nbb = 0;
    double ratio = 1, kappa = 0.1;
};
struct Stop {};
struct Dir {
    const Man *m;
    const Cfg *c;
    Pre *P;
    Explorer *ex;
    int depth, nans;
    double cub;
    /* state of the reference */
    bool first = true;
    At a;
    Vector eta; /* the step taken from a */
    V d;        /* direction at a, coordinates */
    double t = 0, slope = 0, g0 = 0;
    Variable y;
    MM H;
    std::vector<std::pair<V, V>> pairs;
    std::vector<double> rho;
    double gamma = 1;
    int updates = 0;
    std::list<double> bbs;
    std::string path;
    int hecount = 0;
    double init0 = 1, maxstep = 1000;

    void bad(const char *w, const std::string &s) { violation(c->k.name + ":" + w, s + " [" + c->name + " on " + m->name + " answers " + path + "]"); }

    void stepsize(const At &b, const MM &T, double given)
    {
        double quad = 2 * (b.f - a.f) / slope, st;
        int type = c->init >= 0 ? c->init : c->k.kind == K_RSD || c->k.kind == K_RCG ? LSSM_BBSTEP : LSSM_QUADINTMOD;
        V s, yv;
        double bb1 = 0, bb2 = 0;
        double ng = b.nm(b.g);
        if (type == LSSM_QUADINTMOD) st = std::min(1.0, 1.01 * quad);
        else if (type == LSSM_QUADINT) st = quad;
        else if (type == LSSM_ONESTEP) st = 1;
        else {
            if (type == LSSM_BBSTEP) {
                s = mv(T, vscl(d, t)); yv = vadd(b.g, mv(T, a.g), -1);
                bb1 = b.ip(s, s) / b.ip(s, yv); bb2 = b.ip(s, yv) / b.ip(yv, yv);
            } else {
                s = vadd(flat(b.x), flat(a.x), -1); yv = vadd(flat(extof(*m, b.x, b.gv)), flat(extof(*m, a.x, a.gv)), -1);
                bb1 = vdot(s, s) / vdot(s, yv); bb2 = vdot(s, yv) / vdot(yv, yv);
            }
            if (std::fabs(bb2) < 1e-10 || !std::isfinite(bb1)) throw Stop();
            bbs.push_front(bb2 < 2.3e-16 ? 1 / ng : bb2);
            if ((int)bbs.size() > c->nbb) bbs.pop_back();
            if (c->ratio == 0) st = bb1;
            else if (c->ratio == 1 && c->nbb == 0) st = bb2;
            else {
                double mn = bb2;
                int i = 0;
                for (double q : bbs) if (i++ < c->nbb) mn = std::min(mn, q);
                if (std::fabs(mn / bb1 - c->ratio) < 1e-6) throw Stop();
                st = mn / bb1 < c->ratio ? mn : bb1;
            }
        }
        if (std::fabs(st - quad / 100) < 1e-6 * (std::fabs(st) + std::fabs(quad))) return;
        if (st < quad / 100) st = quad;
        if (std::fabs(st) < 1e-10) return;
        if (st < 2.3e-16) st = 1 / ng;
        st = std::min(st, maxstep);
        evalc();
        if (!(std::fabs(given - st) <= 1e-5 * std::fabs(st))) bad("initialstep", fmt("the initial step size is %g, its definition gives %g", given, st));
    }
    void evalc() { eval(); }

    /* what the method does when it has moved from a to b */
    void update(const At &b, const MM &T)
    {
        int n = b.b.n, kind = c->k.kind;
        bool mat = kind == K_RBF || kind == K_RB || kind == K_RW;
        if (!mat && kind != K_LRB) return;
        double beta = m->M->Beta(a.x, eta);
        double gpre = a.nm(a.g);
        V s, yv;
        const At *w = &b;
        if (kind == K_RW) {
            Vector ct(m->M->GetEMPTY());
            m->M->coTangentVector(a.x, eta, b.x, b.gv, &ct);
            s = vscl(d, t); yv = vadd(a.c(ct), a.g, -1);
            w = &a;
        } else { s = mv(T, vscl(d, t)); yv = vadd(vscl(b.g, 1 / beta), mv(T, a.g), -1); }
        double sy = w->ip(s, yv), ss = w->ip(s, s), yy = w->ip(yv, w->pc(yv));
        double lhs = sy / ss, rhs = 1e-4 * gpre;
        if (std::fabs(lhs - rhs) < 1e-6 * (std::fabs(lhs) + rhs) + 1e-12 || ss < 1e-12 || std::fabs(sy) < 1e-12) throw Stop();
        bool upd = lhs >= rhs;
        MM Ti = mat ? minv(T) : MM();
        if (H.empty()) H = meye(n);
        if (mat && c->convex && updates == 0 && sy > 0) H = meye(n, sy / w->ip(yv, yv));
        if (kind == K_RBF || kind == K_RB) H = mm(T, mm(H, Ti));
        if (upd && mat) {
            MM Vm = meye(n), Vt = meye(n);
            rank1(Vm, -1 / sy, s, yv, w->G); /* I - s y^ / <s, y> */
            rank1(Vt, -1 / sy, yv, s, w->G);
            H = mm(Vm, mm(H, Vt));
            rank1(H, 1 / sy, s, s, w->G);
        }
        if (kind == K_RW) H = mm(T, mm(H, Ti));
        if (kind == K_LRB) {
            for (auto &p : pairs) { p.first = mv(T, p.first); p.second = mv(T, p.second); }
            if (upd) {
                gamma = sy / yy;
                int L = c->k.opt;
                if (c->restart && (int)pairs.size() >= L) { pairs.clear(); rho.clear(); }
                if (L > 0) {
                    if ((int)pairs.size() == L) { pairs.erase(pairs.begin()); rho.erase(rho.begin()); }
                    pairs.push_back({s, yv}); rho.push_back(1 / sy);
                }
            }
            H = meye(n, gamma);
            if (!b.P.empty()) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) H[i][j] = gamma * b.P[i][j];
            for (size_t i = 0; i < pairs.size(); i++) {
                MM Vm = meye(n), Vt = meye(n);
                rank1(Vm, -rho[i], pairs[i].first, pairs[i].second, b.G);
                rank1(Vt, -rho[i], pairs[i].second, pairs[i].first, b.G);
                H = mm(Vm, mm(H, Vt));
                rank1(H, rho[i], pairs[i].first, pairs[i].first, b.G);
            }
        }
        updates++;
    }
    bool close(const At &b, const V &x, const V &r, double extra = 0) const
    {
        return b.nm(vadd(x, r, -1)) <= 1e-6 * (b.nm(r) + b.nm(b.g) * extra);
    }
    /* the direction at b, reached from a */
    void direction(const At &b, const MM &T, const V &dd)
    {
        int kind = c->k.kind;
        double ng = b.nm(b.g);
        evalc();
        for (double v : dd) if (!std::isfinite(v)) { bad("directionnan", "the direction is not a number"); throw Stop(); }
        V sd = vscl(b.pc(b.g), -1);
        if (kind == K_RSD || (first && kind == K_RCG)) {
            if (!close(b, dd, sd)) bad("direction", fmt("the direction is not the preconditioned steepest descent direction: %s instead of %s", vshow(dd).c_str(), vshow(sd).c_str()));
            return;
        }
        if (kind == K_RCG) {
            V Tg = mv(T, a.g), p = mv(T, d), y = vadd(b.g, Tg, -1), Pg = b.pc(b.g), Py = b.pc(y);
            double gg1 = a.ip(a.g, a.pc(a.g)), gg2 = b.ip(b.g, Pg), yp = b.ip(y, p);
            double fr = gg2 / gg1, pr = b.ip(Pg, y) / gg1, sg = 0;
            bool degenerate = false;
            switch (c->k.opt) {
            case FLETCHER_REEVES: sg = fr; break;
            case POLAK_RIBIERE_MOD: sg = std::max(0.0, pr); break;
            case HESTENES_STIEFEL: sg = b.ip(Pg, y) / yp; degenerate = true; break;
            case FR_PR: sg = pr < -fr ? -fr : pr > fr ? fr : pr; break;
            case DAI_YUAN: sg = gg2 / yp; degenerate = true; break;
            default: sg = (b.ip(y, Pg) - 2 * b.ip(y, Py) / yp * b.ip(p, b.g)) / yp; degenerate = true; break;
            }
            if (degenerate && std::fabs(yp) < 1e-7 * b.nm(y) * b.nm(p)) throw Stop();
            V f = vadd(vscl(Pg, -1), p, sg);
            bool okf = close(b, dd, f, 1), oksd = close(b, dd, sd);
            /* restarts: lack of orthogonality of consecutive gradients, or no descent */
            double o1 = std::fabs(b.ip(b.g, Tg)), o2 = std::fabs(b.ip(Pg, Tg)), r = 0;
            r = std::max(r, o1 / a.ip(a.g, a.g)); r = std::max(r, o1 / b.ip(b.g, b.g)); r = std::max(r, o2 / gg1); r = std::max(r, o2 / gg2);
            double sl = b.ip(f, b.g);
            bool maysd = r > 0.1 - 1e-6 || sl > -1e-5 * ng * ng;
            bool mustsd = sl > 1e-7 * ng * ng;
            outcome(hmix(70 + c->k.opt, (oksd && !okf) * 4 + maysd * 2 + mustsd));
            if (okf && !mustsd) return;
            if (oksd && maysd) return;
            bad("direction", fmt("the direction is %s; the formula gives %s (coefficient %g) and steepest descent %s (ratio for restarts %g)", vshow(dd).c_str(), vshow(f).c_str(), sg, vshow(sd).c_str(), r));
            return;
        }
        if (kind == K_RN) { newton(b, dd); return; }
        /* quasi-Newton */
        V ref = vscl(first ? (kind == K_LRB ? b.pc(b.g) : b.g) : mv(H, b.g), -1);
        double hn = first ? 1 : mnorm(H);
        outcome(hmix(80 + kind, updates * 32 + pairs.size()));
        if (!close(b, dd, ref, hn)) bad("direction", fmt("the direction is %s, the inverse Hessian approximation of the method gives %s", vshow(dd).c_str(), vshow(ref).c_str()));
    }
    void newton(const At &b, const V &dd)
    {
        int n = b.b.n;
        double ng = b.nm(b.g), sl = b.ip(dd, b.g);
        int inner = P->nhe - hecount;
        if (!(sl < -1e-9 * ng * b.nm(dd))) bad("descent", fmt("no direction of descent, slope %g, gradient norm %g", sl, ng));
        MM GH = mm(b.G, b.Hs), S = GH;
        double as = 0;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { S[i][j] = 0.5 * (GH[i][j] + GH[j][i]); as = std::max(as, std::fabs(GH[i][j] - GH[j][i])); }
        if (as > 1e-6 * mnorm(GH)) return;
        MM Q = S;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) Q[i][j] -= 1e-3 * b.G[i][j] * mnorm(b.Hs);
        V sd = vscl(b.pc(b.g), -1);
        double cur = b.ip(sd, mv(b.Hs, sd));
        if (c->maxin == 0) { if (!close(b, dd, sd)) bad("direction", "without inner iterations the direction is not steepest descent"); return; }
        if (!posdef(Q)) {
            if (cur < -1e-9 * b.ip(sd, sd) && !close(b, dd, sd)) bad("direction", "negative curvature along the preconditioned gradient, yet the direction is another one");
            outcome(hmix(91, inner));
            return;
        }
        /* the inner iterates minimise the model over the Krylov spaces */
        V r = vadd(mv(b.Hs, dd), b.g);
        double nr = b.nm(r), target = ng * std::min(std::pow(ng, 1.0), c->kappa);
        outcome(hmix(90, inner));
        if (inner > n + 3) return; /* rounding */
        if (c->maxin > n + 2 && nr > target * (1 + 1e-6) + 1e-9 * ng) bad("residual", fmt("the residual of the Newton equation is %g, the inner iteration should reach %g (%d steps in dimension %d)", nr, target, inner, n));
        if (inner < c->maxin && nr > target * (1 + 1e-6) + 1e-9 * ng) bad("early", fmt("stopped after %d of %d inner iterations with residual %g > %g", inner, c->maxin, nr, target));
        std::vector<V> K;
        V q = vscl(sd, 1 / b.nm(sd));
        for (int i = 0; i < inner && i < n; i++) {
            for (int rep = 0; rep < 2; rep++) for (auto &k : K) q = vadd(q, k, -b.ip(q, k));
            double nq = b.nm(q);
            if (nq < 1e-5) break;
            q = vscl(q, 1 / nq);
            K.push_back(q);
            q = b.pc(mv(b.Hs, q));
        }
        V rest = dd;
        for (auto &k : K) {
            double v = std::fabs(b.ip(r, k));
            if (v > 1e-6 * ng) bad("krylov", fmt("the inner iterate does not minimise the model over the directions tried (derivative %g, gradient %g)", v, ng));
            rest = vadd(rest, k, -b.ip(dd, k));
        }
        if (b.nm(rest) > 1e-5 * b.nm(dd)) bad("krylovspace", fmt("the direction leaves the Krylov space of %d inner iterations by %g", inner, b.nm(rest) / b.nm(dd)));
    }

    double step(int iter, const Variable &x1, const Vector &ext, double init, double sl)
    {
        At b = at(*m, x1, c->k.kind == K_RN);
        double ng = b.nm(b.g);
        if (first) g0 = ng;
        if (!(ng > 1e-5) || ng < 1e-5 * g0) throw Stop();
        Vector dv = m->intr ? fromext(*m, x1, flat(ext)) : ext;
        V dd = b.c(dv);
        state();
        if (b.b.residual(flat(dv)) > 1e-7 * (1 + vnrm(flat(dv)))) { bad("tangent", "the direction is not a tangent vector"); throw Stop(); }
        if (!(std::fabs(sl - b.ip(dd, b.g)) <= 1e-6 * ng * b.nm(dd))) bad("slope", fmt("the slope handed to the line search is %g, that of the direction is %g", sl, b.ip(dd, b.g)));
        MM T;
        if (!first) {
            trans();
            if (vrel(flat(x1), flat(y)) > 1e-9) { bad("iterate", "the new iterate is not the retraction of the step"); throw Stop(); }
            T = transport(*m, a, eta, b);
            update(b, T);
            stepsize(b, T, init);
        } else { evalc(); if (std::fabs(init - init0) > 1e-12) bad("initialstep", fmt("first step size %g", init)); }
        direction(b, T, dd);
        if ((int)ex->path.size() >= depth) throw Stop();
        int ans = ex->choose(nans);
        static const double fac[] = {1, 0.3, 2.3};
        path += fmt("%d", ans);
        Vector he(m->M->GetEMPTY());
        g_ref->Problem::HessianEta(b.x, dv, &he);
        double cur = b.ip(dd, b.c(he)), nd = b.nm(dd);
        double tt = cur > 1e-8 * nd * nd ? -sl / cur : 0.5 / nd;
        if (tt * nd > 0.6) tt = 0.6 / nd;
        tt *= fac[ans];
        V xf = flat(x1), ef = flat(extof(*m, x1, dv));
        for (int i = 0; i < 20 && !indomain(*m, xf, vscl(ef, tt)); i++) tt *= 0.5;
        if (!(tt > 1e-12)) throw Stop();
        t = tt;
        eta = scaled(*m, x1, dv, t);
        y = retr(*m, x1, eta);
        a = b; d = dd; slope = sl;
        first = false;
        hecount = P->nhe;
        return t;
    }
};
static Dir *g_dir = nullptr;
static realdp stepcb(integer iter, const Variable &x1, const Vector &ext, realdp init, realdp slope, const Problem *, const Solvers *)
{
    return g_dir->step((int)iter, x1, ext, init, slope);
}

static void newproblem(Pre &P, const Man &m, int tg)
{
    if (tg == 0) target(P, m, 1, 2.0);
    else if (tg == 1) { target(P, m, 1, 0); P.cons = 0; setup(P, m, 3, 0.4); }
    else { target(P, m, 2, 8.0); }
}
static void lsgroup(const Man &m, const Cfg &c, int tg, int depth, int nans)
{
    Pre P, R;
    newproblem(P, m, tg); newproblem(R, m, tg);
    P.prec = R.prec = c.prec;
    g_ref = &R;
    Variable x0 = start(m, 0, 0);
    Explorer ex;
    ex.explore([&] {
        P.clear();
        Dir D;
        D.m = &m; D.c = &c; D.P = &P; D.ex = &ex; D.depth = depth; D.nans = nans;
        g_dir = &D;
        SolversSM *S = mk(c.k, &P, &x0);
        SolversSMLS *L = (SolversSMLS *)S;
        if (c.k.kind == K_RN) { ((RNewton *)S)->Max_Inner_Iter = c.maxin; ((RNewton *)S)->Min_Inner_Iter = c.minin; ((RNewton *)S)->kappa = c.kappa; }
        if (c.k.kind == K_LRB) { ((LRBFGS *)S)->LMrestart = c.restart; }
        if (c.k.kind == K_RB) ((RBFGS *)S)->isconvex = c.convex;
        if (c.k.kind == K_RBF) ((RBroydenFamily *)S)->isconvex = c.convex;
        if (c.k.kind == K_RW) ((RWRBFGS *)S)->isconvex = c.convex;
        if (c.init >= 0) L->InitSteptype = (InitStepsizeSetSM)c.init;
        L->Num_pre_BB = c.nbb; L->BBratio = c.ratio;
        L->Verbose = NOOUTPUT; L->Max_Iteration = depth + 2; L->Accuracy = 0; L->Stop_Criterion = SM_GRAD_F; L->Tolerance = 1e-12;
        L->LineSearch_LS = LSSM_INPUTFUN; L->IsPureLSInput = true; L->LinesearchInput = stepcb;
        L->Maxstepsize = D.maxstep;
        trace();
        try { S->Run(); } catch (Stop &) {}
        delete S;
    });
}

/* ------------------------------------------------------------------ trust region quasi-Newton methods */
struct TRRef {
    const Man *m = nullptr;
    std::string name;
    int L = 0;
    bool limited = false, restart = true;
    Explorer *ex = nullptr;
    int depth = 0;
    std::string path;
    /* reference */
    bool have = false;
    At a;
    int n = 0, iters = 0;
    MM B;
    double gamma = 1, g0 = 0;
    bool lastupd = false;
    std::vector<std::pair<V, V>> pairs;
    double curf = 0;
    bool unsure = false;
    void bad(const char *w, const std::string &s) { violation(name + ":" + w, s + " [" + m->name + " answers " + path + "]"); }
    void build()
    {
        unsure = false;
        if (!limited) return;
        B = meye(n, gamma);
        for (auto &p : pairs) {
            V r = vadd(p.second, mv(B, p.first), -1);
            double den = a.ip(r, p.first), sc = a.nm(r) * a.nm(p.first);
            if (std::fabs(den) < 1e-3 * sc || sc < 1e-7) { unsure = true; return; }
            rank1(B, 1 / den, r, r, a.G);
        }
    }
    void begin(const Variable &x)
    {
        a = at(*m, x, false);
        n = a.b.n;
        g0 = a.nm(a.g);
        B = meye(n);
        have = true;
    }
    template <class F> void model(F hess, const Variable &x)
    {
        if (!have) begin(x);
        if (vrel(flat(x), flat(a.x)) > 1e-9) { bad("iterate", "the iterate is not the accepted trial point"); throw Stop(); }
        build();
        if (unsure) return;
        double err = 0, sc = 1 + mnorm(B);
        for (int j = 0; j < n; j++) {
            Vector r(m->M->GetEMPTY());
            hess(a.b.e[j], &r);
            V cc = a.c(r);
            for (int i = 0; i < n; i++) err = std::max(err, std::fabs(cc[i] - B[i][j]));
        }
        eval();
        outcome(hmix(100 + limited, pairs.size() * 64 + iters));
        if (!(err <= 1e-6 * sc)) bad("model", fmt("the Hessian of the model differs by %g from its definition (norm %g) with %d pairs", err, sc, (int)pairs.size()));
    }
    void step(const Variable &x2, const Vector &eta)
    {
        At b = at(*m, x2, false);
        double ng = b.nm(b.g);
        if (!(ng > 1e-4 * g0)) throw Stop();
        Vector yv(m->M->GetEMPTY());
        m->M->InverseVectorTransport(a.x, eta, b.x, b.gv, &yv);
        V s = a.c(eta), y = vadd(a.c(yv), a.g, -1);
        double sy = a.ip(s, y), yy = a.ip(y, y), ss = a.ip(s, s);
        if (std::fabs(sy) < 1e-6 * std::sqrt(ss * yy)) throw Stop();
        if (iters == 0) { gamma = yy / sy; if (!limited) B = meye(n, gamma); }
        build();
        if (unsure) throw Stop();
        V z = vadd(y, mv(B, s), -1);
        double den = a.ip(s, z), nz = a.ip(z, z);
        bool near0 = std::fabs(den) < 1e-6 * std::sqrt(ss * nz) || nz < 1e-12;
        if (near0) throw Stop();
        if (iters == 0 && limited && std::fabs(gamma - sy / ss) < 1e-6) throw Stop();
        if (limited) {
            double par = (ss * yy - sy * sy) / (ss * yy); /* gamma is kept when y is a multiple of s, y - gamma s would vanish */
            if (L > 0 && par > 1e-11 && par < 1e-5) throw Stop();
            if (lastupd && (L == 0 || par >= 1e-5)) gamma = yy / sy;
            if (restart && (int)pairs.size() >= L) pairs.clear();
            if (L > 0) {
                if ((int)pairs.size() == L) pairs.erase(pairs.begin());
                pairs.push_back({s, y});
            }
        } else rank1(B, 1 / den, z, z, a.G);
        lastupd = true;
        iters++;
    }
    void accept(const Variable &x2, const Vector &eta)
    {
        At b = at(*m, x2, false);
        MM T = transport(*m, a, eta, b);
        if (limited) for (auto &p : pairs) { p.first = mv(T, p.first); p.second = mv(T, p.second); }
        else B = mm(T, mm(B, minv(T)));
        a = b;
    }
};
static TRRef *g_tr = nullptr;
template <class S> struct SpyTR : S {
    SpyTR(const Problem *p, const Variable *x) : S(p, x) {}
    void UpdateData() override
    {
        g_tr->model([&](const Vector &e, Vector *r) { this->S::HessianEta(e, r); }, this->x1);
        /* the predicted decrease uses the action of the model on the step */
        if (!g_tr->unsure) {
            V s = g_tr->a.c(this->eta2), h = g_tr->a.c(this->Heta2);
            eval();
            if (g_tr->a.nm(vadd(h, mv(g_tr->B, s), -1)) > 1e-6 * (1 + mnorm(g_tr->B)) * g_tr->a.nm(s)) g_tr->bad("action", "the action of the model on the step is not that of its Hessian");
        }
        Vector eta(this->eta2);
        trans();
        g_tr->step(this->x2, eta);
        S::UpdateData();
    }
    void Acceptence() override
    {
        Vector eta(this->eta2);
        g_tr->accept(this->x2, eta);
        S::Acceptence();
    }
};
static void trgroup(const Man &m, bool limited, int L, bool restart, int tg, int depth, int nans)
{
    Pre P, R;
    newproblem(P, m, tg); newproblem(R, m, tg);
    g_ref = &R;
    Variable x0 = start(m, 0, 0);
    Explorer ex;
    ex.explore([&] {
        TRRef t;
        t.m = &m; t.limited = limited; t.restart = restart; t.ex = &ex; t.depth = depth;
        t.name = limited ? fmt("LRTRSR1-%d%s", L, restart ? "r" : "") : "RTRSR1";
        P.clear();
        double cur = 0;
        int calls = 0;
        bool first = true;
        P.env = [&](const V &) -> double {
            if (first) { first = false; cur = 100; return cur; }
            calls++;
            if ((int)ex.path.size() >= depth) throw Stop();
            int ans = ex.choose(nans);
            t.path += fmt("%d", ans);
            static const double add[] = {-10, 10, -1e-3};
            double v = cur + add[ans];
            if (ans != 1) cur = v;
            return v;
        };
        g_tr = &t;
        SolversSMTR *S;
        if (limited) { auto *s = new SpyTR<LRTRSR1>(&P, &x0); s->LengthSY = L; s->LMrestart = restart; S = s; }
        else S = new SpyTR<RTRSR1>(&P, &x0);
        t.L = std::min(L, (int)m.M->GetEMPTY().Getlength());
        S->Verbose = NOOUTPUT; S->Max_Iteration = depth + 2; S->initial_Delta = 0.3; S->maximum_Delta = 0.5; S->Stop_Criterion = SM_GRAD_F; S->Tolerance = 1e-12; S->Accuracy = 0;
        trace();
        try { S->Run(); } catch (Stop &) {}
        delete S;
        P.env = nullptr;
    });
}

/* ------------------------------------------------------------------ finite termination on quadratics */
struct Fin {
    int n = 0, calls = 0;
    const Man *m = nullptr;
    V norms;
    Pre *R = nullptr;
};
static Fin g_fin;
static realdp exactcb(integer, const Variable &x1, const Vector &ext, realdp, realdp slope, const Problem *, const Solvers *)
{
    g_fin.calls++;
    Vector he(g_fin.m->M->GetEMPTY()), g(g_fin.m->M->GetEMPTY());
    g_fin.R->SetUseGrad(true); g_fin.R->SetUseHess(true);
    g_fin.R->Problem::HessianEta(x1, ext, &he);
    g_fin.R->Problem::Grad(x1, &g);
    g_fin.norms.push_back(std::sqrt(g_fin.m->M->Metric(x1, g, g)));
    double c = g_fin.m->M->Metric(x1, ext, he);
    if (!(c > 0)) throw Stop();
    return -slope / c;
}
static void finite(const Man &m, const Cfg &c, int tg)
{
    for (int st = 0; st < 3; st++) {
        Pre P, R;
        target(P, m, tg, tg == 0 ? 2.0 : 5.0); target(R, m, tg, tg == 0 ? 2.0 : 5.0);
        P.prec = R.prec = c.prec;
        Variable x0 = start(m, st, 1.0);
        setcase(fmt("start%d", st));
        SolversSM *S = mk(c.k, &P, &x0);
        SolversSMLS *L = (SolversSMLS *)S;
        int n = m.dim;
        g_fin = Fin();
        g_fin.m = &m; g_fin.R = &R; g_fin.n = n;
        L->Verbose = NOOUTPUT; L->Max_Iteration = c.k.kind == K_RN ? 1 : n + 1; L->Accuracy = 0; L->Stop_Criterion = SM_GRAD_F_0; L->Tolerance = 1e-5;
        L->LineSearch_LS = LSSM_INPUTFUN; L->IsPureLSInput = true; L->LinesearchInput = exactcb;
        bool one = c.k.kind == K_RN;
        if (one) { ((RNewton *)S)->kappa = 1e-10; }
        trace();
        try { S->Run(); } catch (Stop &) {}
        eval(); state(g_fin.calls); trans(g_fin.calls);
        int want = n;
        double ng = S->Getnormgf(), g0 = g_fin.norms.empty() ? 1 : g_fin.norms[0];
        outcome(hmix(110 + c.k.kind, S->GetIter()));
        if (S->GetIter() > want || ng > 1e-4 * g0)
            violation(c.k.name + ":termination", fmt("%d iterations with exact steps on a quadratic function of %d variables, gradient norm %g of %g [%s on %s]", (int)S->GetIter(), n, ng, g0, c.name.c_str(), m.name.c_str()));
        delete S;
    }
}

static std::vector<Cfg> configs()
{
    std::vector<Cfg> r;
    auto add = [&](SK k, const std::string &extra, const std::function<void(Cfg &)> &f) { Cfg c; c.k = k; f(c); c.name = k.name + extra; r.push_back(c); };
    for (auto &k : solvers()) {
        if (k.tr) continue;
        for (int p = 0; p < 2; p++) {
            bool usesP = k.kind == K_RSD || k.kind == K_RCG || k.kind == K_LRB || k.kind == K_RN;
            if (p && !usesP) continue;
            add(k, p ? " P" : "", [&](Cfg &c) { c.prec = p; });
        }
        if (k.kind == K_RB || k.kind == K_RBF || k.kind == K_RW) add(k, " convex", [&](Cfg &c) { c.convex = true; });
        if (k.kind == K_LRB && k.opt > 0) add(k, " restart", [&](Cfg &c) { c.restart = true; });
        if (k.kind == K_RN) {
            for (int mi : {0, 1, 2}) add(k, fmt(" inner%d", mi), [&](Cfg &c) { c.maxin = mi; });
            add(k, " min2", [&](Cfg &c) { c.minin = 2; });
            add(k, " P kappa", [&](Cfg &c) { c.prec = true; c.kappa = 1e-6; });
        }
        if (k.kind == K_RSD || (k.kind == K_LRB && k.opt == 2)) {
            for (int it : {(int)LSSM_ONESTEP, (int)LSSM_BBSTEP, (int)LSSM_QUADINT, (int)LSSM_QUADINTMOD, (int)LSSM_EXTRBBSTEP}) add(k, fmt(" init%d", it), [&](Cfg &c) { c.init = it; });
            if (k.kind == K_RSD) for (int it : {(int)LSSM_BBSTEP, (int)LSSM_EXTRBBSTEP}) {
                add(k, fmt(" init%d ss/sy", it), [&](Cfg &c) { c.init = it; c.ratio = 0; });
                add(k, fmt(" init%d pre2", it), [&](Cfg &c) { c.init = it; c.ratio = 0.5; c.nbb = 2; });
                add(k, fmt(" init%d pre1", it), [&](Cfg &c) { c.init = it; c.ratio = 1; c.nbb = 1; });
            }
        }
    }
    return r;
}
static void c21()
{
    bool th = thorough();
    std::vector<MP> Z = zoo(th ? 1 : 0), N;
    for (int i = 0; i < 5; i++) N.push_back(named(i));
    for (auto &m : zoo(0)) for (const char *s : {"SPD(2)set3", "Grassmann(3,2)", "Grassmann(3,1)extr", "CStiefel(2,1)set1+HHR", "SymFixedRankQ(3,2)set2intr", "FixedRankE(3,2,1)"}) if (m->name == s) N.push_back(m);
    std::vector<Cfg> C = configs();
    std::set<std::string> basic = {"RSD", "RNewton", "RNewton P", "RCG-PRP P", "RCG-HS", "RCG-HZ P", "RCG-DY", "RWRBFGS", "RBroydenFamily", "RBFGS", "LRBFGS-2", "LRBFGS-1 P"};
    SK ts{"RTRSR1", K_TSR, 0, true, true, false}, lt{"LRTRSR1", K_LTSR, 0, true, false, false};
    auto on = [&](const Man &m, bool full, const std::string &pre) {
        int depth = full ? 5 : th ? 4 : 3, nans = full && th ? 3 : 2;
        for (auto &c : C) {
            if (!usable(m, c.k) || (!full && !th && !basic.count(c.name))) continue;
            if (c.init == LSSM_EXTRBBSTEP && (!m.flatmetric || m.kind == "SphereTx" || m.quotient)) continue;
            for (int tg = 0; tg < (full ? 2 : 1); tg++)
                group(pre + m.name + " " + c.name + fmt(" target%d", tg), [&] { fam("method", c.k.name); fam("manifold", m.kind); lsgroup(m, c, tg, depth, nans); });
        }
        for (int tg = 0; tg < (full ? 2 : 1); tg++) {
            if (usable(m, ts)) group(pre + m.name + fmt(" RTRSR1 target%d", tg), [&] { fam("method", "RTRSR1"); fam("manifold", m.kind); trgroup(m, false, 0, false, tg, depth, nans); });
            if (usable(m, lt)) for (int L : {0, 1, 2, 3}) for (int re = 0; re < 2; re++) {
                if (!full && !th && L != 2) continue;
                group(pre + m.name + fmt(" LRTRSR1-%d restart%d target%d", L, re, tg), [&] { fam("method", "LRTRSR1"); fam("manifold", m.kind); trgroup(m, true, L, re, tg, full && th ? 7 : depth + 1, 2); });
            }
        }
    };
    for (auto &m : N) on(*m, true, "full ");
    for (auto &m : Z) on(*m, false, "");
    for (int i = 1; i <= 4; i++) for (int j = 1; j <= 3; j++) {
        MP m = fin(mkeuc(i, j, 1, false));
        for (auto &c : C) {
            if (c.k.kind == K_RSD || (c.k.kind == K_LRB && c.k.opt < 4) || c.restart || c.maxin < 1000 || c.init >= 0 || c.k.kind == K_RW) continue;
            if (c.k.kind == K_LRB && m->dim > 4) continue;
            if (c.prec && (c.k.kind != K_RCG && c.k.kind != K_RN && c.k.kind != K_LRB)) continue;
            for (int tg = 0; tg < 3; tg++) group(m->name + " finite " + c.name + fmt(" target%d", tg), [&] { fam("finite termination", c.k.name); finite(*m, c, tg); });
        }
    }
}

int main(int argc, char **argv)
{
    return run(argc, argv, {{"C21", c21}});
}

/* C12: the problems shipped with the library.  Every problem is compared with its cost function written down a second time
 * on plain numbers: values, Euclidean gradients and Hessians on complete bases of the ambient space, the Riemannian ones on
 * complete bases of the tangent space, proximal maps and their derivative, and every short order of evaluations at two points. */
#include "qf.h"
#include "Problems/EucQuadratic.h"
#include "Problems/StieBrockett.h"
#include "Problems/CStieBrockett.h"
#include "Problems/GrassRQ.h"
#include "Problems/ProdStieSumBrockett.h"
#include "Problems/SPDKarcherMean.h"
#include "Problems/SphereConvexHull.h"
#include "Problems/SphereSparsestVector.h"
#include "Problems/SphereTxRQ.h"
#include "Problems/StieSPCA.h"
#include "Problems/FRankESparseApprox.h"
#include "Problems/FRankEWeightApprox.h"
#include "Problems/FRankQ2FMatCompletion.h"
#include "Problems/SFRQLyapunov.h"
#include "Problems/CSFRQPhaseRetrieval.h"
#include "Problems/CFRankQ2FBlindDecon2D.h"
#include "Solvers/RGS.h"
#include <unistd.h>
typedef std::shared_ptr<Problem> PP;

struct PC {
    std::string name;
    MP m;
    PP P;
    std::vector<std::shared_ptr<void>> keep; /* data the problem refers to */
    std::function<double(const V &)> smooth; /* the part the gradient belongs to */
    std::function<double(const V &)> rest;   /* what the cost has beyond it */
    std::function<bool(const V &)> differentiable; /* in a neighbourhood */
    std::function<bool(const V &)> twice;
    bool sym = false;                         /* ambient space: symmetric matrices */
    int npts = 4;
    std::vector<V> extra;                     /* further points */
};
static Vector vec(const CM &A, bool cx = false) { return mk(A, cx); }
static CM symm(int n, unsigned s) { CM G = gmat(n, n, s, false); return scl(add(G, tr(G)), 0.5); }
static CM herm(int n, unsigned s) { CM G = gmat(n, n, s, true); return scl(add(G, adj(G)), 0.5); }
static CM spd(int n, unsigned s) { CM G = gmat(n, n, s, false); return add(mul(G, tr(G)), eye(n)); }
static CM chol(const CM &A) { CM L(A.r, A.r); for (int j = 0; j < A.r; j++) for (int i = j; i < A.r; i++) { cd s = A(i, j); for (int k = 0; k < j; k++) s -= L(i, k) * L(j, k); L(i, j) = i == j ? std::sqrt(s.real()) : s / L(j, j).real(); } return L; }
static CM matv(const V &x, int r, int c, bool cx = false, size_t off = 0) { return matof(x.data() + off, r, c, cx); }
static double trre(const CM &A) { double s = 0; for (int i = 0; i < std::min(A.r, A.c); i++) s += A(i, i).real(); return s; }
static CM diagm(const std::vector<double> &d) { CM D((int)d.size(), (int)d.size()); for (size_t i = 0; i < d.size(); i++) D((int)i, (int)i) = d[i]; return D; }
static CM dft2(const CM &X, int sign)
{
    CM R(X.r, X.c);
    const double pi2 = 2 * std::acos(-1.0);
    for (int a = 0; a < X.r; a++) for (int b = 0; b < X.c; b++) {
        cd s = 0;
        for (int i = 0; i < X.r; i++) for (int j = 0; j < X.c; j++) s += X(i, j) * std::polar(1.0, sign * pi2 * ((double)a * i / X.r + (double)b * j / X.c));
        R(a, b) = s;
    }
    return R;
}
static CM resh(const CM &A, int r, int c) { CM R = A; R.r = r; R.c = c; return R; }

/* fourth order central differences of a function along a direction */
static double dder(const std::function<double(const V &)> &f, const V &x, const V &d)
{
    double h = 2e-3 / (1 + vnrm(d));
    double a = f(vadd(x, d, h)), b = f(vadd(x, d, -h)), c = f(vadd(x, d, 2 * h)), e = f(vadd(x, d, -2 * h)), p = f(vadd(x, d, 3 * h)), q = f(vadd(x, d, -3 * h));
    return (45 * (a - b) - 9 * (c - e) + (p - q)) / (60 * h);
}
static V dvec(const std::function<V(const V &)> &f, const V &x, const V &d)
{
    double h = 2e-3 / (1 + vnrm(d));
    V r = vadd(f(vadd(x, d, h)), f(vadd(x, d, -h)), -1);
    r = vscl(r, 45);
    r = vadd(r, vadd(f(vadd(x, d, 2 * h)), f(vadd(x, d, -2 * h)), -1), -9);
    r = vadd(r, vadd(f(vadd(x, d, 3 * h)), f(vadd(x, d, -3 * h)), -1), 1);
    return vscl(r, 1 / (60 * h));
}
static std::vector<V> ambient(const PC &c)
{
    std::vector<V> b;
    int n = c.m->extlen;
    if (!c.sym) { for (int i = 0; i < n; i++) b.push_back(ecoef(n, i)); return b; }
    int k = (int)std::lround(std::sqrt((double)n));
    for (int i = 0; i < k; i++) for (int j = i; j < k; j++) { V e(n, 0.0); e[i + j * k] = 1; e[j + i * k] = 1; b.push_back(e); }
    return b;
}
static std::vector<Variable> points(const PC &c)
{
    std::vector<Variable> r;
    for (int k = 0; k < c.npts; k++) r.push_back(c.m->pt(k));
    for (auto &e : c.extra) r.push_back(c.m->at(e));
    return r;
}
static V egrad(const PC &c, const Variable &x) { Vector g(c.m->M->GetEMPTYEXTR()); double *p = g.ObtainWriteEntireData(); for (int i = 0; i < g.Getlength(); i++) p[i] = NAN; c.P->EucGrad(x, &g); return flat(g); }
static V ehess(const PC &c, const Variable &x, const Vector &e) { Vector g(c.m->M->GetEMPTYEXTR()); double *p = g.ObtainWriteEntireData(); for (int i = 0; i < g.Getlength(); i++) p[i] = NAN; c.P->EucHessianEta(x, e, &g); return flat(g); }
static V rgrad(const PC &c, const Variable &x) { Vector g = fresh(*c.m); c.P->Grad(x, &g); return flat(g); }
static V rhess(const PC &c, const Variable &x, const Vector &e) { Vector g = fresh(*c.m); c.P->HessianEta(x, e, &g); return flat(g); }

static void values(const PC &c)
{
    const Man &m = *c.m;
    int k = -1;
    for (Variable x : points(c)) {
        k++;
        V xf = flat(x);
        setcase(fmt("%s point %d", c.name.c_str(), k));
        Variable x0(x);
        x0.CopyOnWrite();
        double f = c.P->f(x), r = c.smooth(xf) + (c.rest ? c.rest(xf) : 0.0);
        state(); eval();
        if (!(std::fabs(f - r) <= 1e-9 * (1 + std::fabs(r)))) violation(c.name.substr(0, c.name.find('(')) + ":value", fmt("point %d: %.12g instead of %.12g", k, f, r));
        bool d1 = !c.differentiable || c.differentiable(xf), d2 = d1 && (!c.twice || c.twice(xf));
        fam("smoothness", d2 ? "twice" : d1 ? "once" : "kink");
        Vector G = fresh(m);
        c.P->Grad(x, &G);
        V eg = egrad(c, x), rg = flat(G);
        outcome(hdbl(f, hdbl(vnrm(eg))));
        if (!(vnrm(vadd(flat(x), xf, -1)) == 0)) violation(c.name.substr(0, c.name.find('(')) + ":point changed", fmt("point %d", k));
        if (d1) {
            for (auto &d : ambient(c)) {
                double a = vdot(eg, d), b = dder(c.smooth, xf, d);
                trans();
                if (!(std::fabs(a - b) <= 1e-6 * (1 + std::fabs(b) + vnrm(eg)))) violation(c.name.substr(0, c.name.find('(')) + ":Euclidean gradient", fmt("point %d: derivative along %s is %.10g, the gradient says %.10g", k, vshow(d).c_str(), b, a));
            }
        }
        if (c.sym) { int n = (int)std::lround(std::sqrt((double)m.extlen)); CM E = matv(eg, n, n); if (dist(E, tr(E)) > 1e-8 * (1 + nrm(E))) violation(c.name.substr(0, c.name.find('(')) + ":gradient not symmetric", fmt("point %d", k)); }
        if (d2) {
            for (auto &d : ambient(c)) {
                Vector e = amb(m, d);
                V h = ehess(c, x, e);
                /* derivative of the reference's own gradient, obtained from its values along the complete basis */
                for (auto &g : ambient(c)) {
                    double a = vdot(h, g), b = dder([&](const V &y) { return dder(c.smooth, y, g); }, xf, d);
                    trans();
                    if (!(std::fabs(a - b) <= 3e-5 * (1 + std::fabs(b) + vnrm(h) + std::fabs(f)))) violation(c.name.substr(0, c.name.find('(')) + ":Euclidean Hessian", fmt("point %d: second derivative along %s and %s is %.10g, the action says %.10g", k, vshow(d).c_str(), vshow(g).c_str(), b, a));
                }
            }
        }
        /* the Riemannian derivatives, through the manifold */
        if (d1 && m.metric) {
            Basis b = basis(m, x);
            for (int i = 0; i < b.n; i++) {
                double a = m.M->Metric(x, G, b.e[i]), s = dder(c.smooth, xf, b.ext[i]);
                trans();
                if (!(std::fabs(a - s) <= 1e-6 * (1 + std::fabs(s) + vnrm(eg)))) violation(c.name.substr(0, c.name.find('(')) + ":Riemannian gradient", fmt("point %d vector %d: %.10g instead of %.10g", k, i, a, s));
            }
            if (d2) {
                std::vector<Vector> H;
                for (int i = 0; i < b.n; i++) { Vector h = fresh(m); c.P->HessianEta(x, b.e[i], &h); H.push_back(h); }
                for (int i = 0; i < b.n; i++) for (int j = 0; j < i; j++) {
                    double a = m.M->Metric(x, H[i], b.e[j]), s = m.M->Metric(x, b.e[i], H[j]);
                    trans();
                    if (!(std::fabs(a - s) <= 1e-7 * (1 + std::fabs(s) + vnrm(flat(H[i])) + vnrm(flat(H[j]))))) violation(c.name.substr(0, c.name.find('(')) + ":Hessian not symmetric", fmt("point %d vectors %d %d: %.10g and %.10g", k, i, j, a, s));
                }
            }
        }
    }
}

/* every order of evaluations at two points up to a depth: whatever was evaluated, copied or assigned before, an evaluation
 * gives what it gives on fresh objects */
static void histories(const PC &c, int depth)
{
    const Man &m = *c.m;
    std::vector<Variable> pts = points(c);
    int np = std::min<int>(2, (int)pts.size());
    struct Res { double f; V g, h[2], eg; };
    std::vector<Res> R;
    std::vector<std::vector<Vector>> dirs;
    for (int k = 0; k < np; k++) {
        Variable x = m.pt(k + (int)pts.size() - np < c.npts ? k + std::max(0, c.npts - np) : k);
        pts[k] = x;
        Basis b = basis(m, x);
        std::vector<Vector> d = {b.e[0], tvec(m, x, b, gcoef(b.n, 5))};
        dirs.push_back(d);
        Res r;
        Variable y = m.at(flat(x));
        r.f = c.P->f(y);
        r.g = rgrad(c, y);
        r.h[0] = rhess(c, y, d[0]); r.h[1] = rhess(c, y, d[1]);
        r.eg = egrad(c, y);
        R.push_back(r);
    }
    const char *opn[] = {"f", "Grad", "Hess0", "Hess1", "EucGrad", "copy", "assign", "rewrite"};
    uint64_t nh = 0;
    std::function<void(const std::vector<std::pair<int, int>> &)> rec = [&](const std::vector<std::pair<int, int>> &h) {
        /* replay on fresh objects; a: which of the two points each object holds, lev: what was evaluated at it */
        std::string s;
        for (auto &o : h) s += fmt("%s%d ", opn[o.first], o.second);
        setcase(c.name + " history " + s);
        std::vector<Variable> X;
        for (int k = 0; k < np; k++) X.push_back(m.at(flat(pts[k])));
        std::vector<Variable> kept;
        int holds[2] = {0, 1}, lev[2] = {0, 0};
        std::string key = c.name.substr(0, c.name.find('(')) + ":history";
        for (size_t i = 0; i < h.size(); i++) {
            int o = h[i].first, k = h[i].second;
            bool last = i + 1 == h.size();
            const Res &r = R[holds[k]];
            double bad = 0;
            switch (o) {
            case 0: { double f = c.P->f(X[k]); bad = std::fabs(f - r.f) / (1 + std::fabs(r.f)); if (!(bad == bad)) bad = 1e300; lev[k] = std::max(lev[k], 1); break; }
            case 1: bad = vrel(rgrad(c, X[k]), r.g); lev[k] = 2; break;
            case 2: case 3: bad = vrel(rhess(c, X[k], dirs[holds[k]][o - 2]), r.h[o - 2]); break;
            case 4: bad = vrel(egrad(c, X[k]), r.eg); break;
            case 5: { kept.push_back(X[k]); Variable y(X[k]); X[k] = y; break; }
            case 6: X[1 - k] = X[k]; holds[1 - k] = holds[k]; lev[1 - k] = lev[k]; break;
            case 7: { int w = 1 - holds[k]; if (np < 2) w = 0; setflat(X[k], flat(pts[w])); X[k].RemoveAllFromFields(); X[k] = m.at(flat(pts[w])); holds[k] = w; lev[k] = 0; break; }
            }
            if (last && bad > 1e-11) violation(key, fmt("%s after %s: relative difference %.3g", opn[o], s.c_str(), bad));
            if (last) for (int q = 0; q < np; q++) if (vdist(flat(X[q]), flat(pts[holds[q]])) != 0) violation(key + ":point", fmt("object %d after %s", q, s.c_str()));
        }
        nh++;
        trans();
        if ((int)h.size() >= depth) return;
        for (int k = 0; k < np; k++) for (int o = 0; o < 8; o++) {
            if (o == 6 && np < 2) continue;
            if (o == 1 && lev[k] < 1) continue;
            if (o == 4 && lev[k] < 1) continue;
            if ((o == 2 || o == 3) && lev[k] < 2) continue;
            auto g = h;
            g.push_back({o, k});
            rec(g);
        }
    };
    rec({});
    trace(nh);
    fam("histories", c.name.substr(0, c.name.find('(')), nh);
}

/* proximal map against a search for the minimiser of each scalar problem, its derivative against differences */
static void prox(const PC &c, double lambda, const std::vector<Vector> &Ws)
{
    const Man &m = *c.m;
    std::string nm = c.name.substr(0, c.name.find('('));
    int n = m.extlen;
    for (size_t wi = 0; wi < Ws.size(); wi++) for (int k = 0; k < 6; k++) {
        V xf(n), W = flat(Ws[wi]);
        int nb = (int)W.size(), bs = n / nb;
        /* every entry below, at, above the thresholds in turn */
        for (int i = 0; i < n; i++) { double t = lambda / W[i / bs]; const double f[] = {0, 0.5, -0.5, 2, -2, 1.0001}; xf[i] = t * f[(i + k) % 6]; if (k == 5) xf[i] = gval(9000 + i); }
        Vector x = amb(m, xf), y = freshx(m);
        setcase(fmt("%s weights %zu family %d", c.name.c_str(), wi, k));
        c.P->ProxW(x, Ws[wi], &y);
        V yf = flat(y);
        for (int i = 0; i < n; i++) {
            double w = W[i / bs], a = xf[i], t = lambda / w, want = std::fabs(a) <= t ? 0 : a - (a > 0 ? t : -t);
            /* the candidates of the piecewise quadratic: its value must not be beaten */
            auto val = [&](double z) { return 0.5 * w * (z - a) * (z - a) + lambda * std::fabs(z); };
            eval();
            if (!(val(yf[i]) <= std::min({val(want), val(0.0), val(a - t), val(a + t), val(a)}) + 1e-12 * (1 + val(0.0)))) violation(nm + ":ProxW", fmt("entry %d: x %.8g weight %.8g gives %.8g, minimiser %.8g", i, a, w, yf[i], want));
            if (!(std::fabs(yf[i] - want) <= 1e-12 * (1 + std::fabs(want)))) violation(nm + ":ProxW", fmt("entry %d: x %.8g weight %.8g gives %.8g, minimiser %.8g", i, a, w, yf[i], want));
        }
        if (vdist(flat(x), xf) != 0 || vdist(flat(Ws[wi]), W) != 0) violation(nm + ":ProxW arguments", "changed");
        for (int d = 0; d < n; d++) {
            Vector e = amb(m, ecoef(n, d, 1.5)), j = freshx(m);
            c.P->CalJW(x, e, Ws[wi], &j);
            V jf = flat(j);
            trans();
            for (int i = 0; i < n; i++) {
                double w = W[i / bs], t = lambda / w, want = i == d && std::fabs(xf[i]) > t ? 1.5 : 0;
                if (std::fabs(std::fabs(xf[i]) - t) < 1e-9 * t) continue;
                if (!(std::fabs(jf[i] - want) <= 1e-13)) violation(nm + ":CalJW", fmt("entry %d direction %d: %.8g instead of %.8g", i, d, jf[i], want));
            }
        }
        outcome(hdbl(vnrm(yf)));
    }
}

static std::vector<PC> all(int size)
{
    std::vector<PC> r;
    bool big = size > 0;
    auto put = [&](const std::string &n, MP m, Problem *P, std::function<double(const V &)> f) -> PC & {
        PC c; c.name = n; c.m = fin(m); c.P.reset(P); c.smooth = f; P->SetDomain(c.m->M); P->SetUseGrad(true); P->SetUseHess(true);
        r.push_back(c);
        return r.back();
    };
    for (int n : big ? std::vector<int>{1, 2, 3, 5} : std::vector<int>{1, 3}) {
        CM A = symm(n, 11);
        put(fmt("EucQuadratic(%d)", n), mkeuc(n, 1, 1, false), new EucQuadratic(vec(A)), [=](const V &x) { CM X = matv(x, n, 1); return 0.5 * trre(mul(tr(X), mul(A, X))); });
    }
    std::vector<std::pair<int, int>> np = {{3, 1}, {3, 2}, {4, 3}};
    if (big) { np.push_back({2, 2}); np.push_back({5, 2}); np.push_back({2, 1}); }
    for (auto &q : np) {
        int n = q.first, p = q.second;
        CM B = symm(n, 21);
        std::vector<double> d;
        for (int i = 0; i < p; i++) d.push_back(p - i + 0.25);
        CM D = diagm(d), Dv(p, 1);
        for (int i = 0; i < p; i++) Dv(i, 0) = d[i];
        auto f = [=](const V &x) { CM X = matv(x, n, p); return trre(mul(tr(X), mul(B, mul(X, D)))); };
        for (int s = 1; s <= 5; s++) for (int hhr = 0; hhr <= (s == 1 || s == 3); hhr++) put(fmt("StieBrockett(%d,%d,set%d,%d)", n, p, s, hhr), mkst(n, p, s, "Stiefel", hhr), new StieBrockett(vec(B), vec(Dv)), f);
        CM C = herm(n, 22);
        auto g = [=](const V &x) { CM X = matv(x, n, p, true); return trre(mul(adj(X), mul(C, mul(X, D)))); };
        for (int s = 1; s <= 4; s++) put(fmt("CStieBrockett(%d,%d,set%d)", n, p, s), mkst(n, p, s, "CStiefel"), new CStieBrockett(vec(C, true), vec(Dv, true)), g);
        auto h = [=](const V &x) { CM X = matv(x, n, p); return 0.5 * trre(mul(tr(X), mul(B, X))); };
        if (n > p) for (int v = 0; v < 3; v++) put(fmt("GrassRQ(%d,%d,%d)", n, p, v), mkgr(n, p, v == 1, v == 2), new GrassRQ(vec(B), n, p), h);
        for (int lw : {1, p, n * p}) {
            int mm = n + 1;
            CM Bs = gmat(mm, n, 23, false);
            for (double la : {0.0, 0.7}) {
                PC &c = put(fmt("StieSPCA(%d,%d,%d,%g)", n, p, lw, la), mkst(n, p, 1), new StieSPCA(vec(Bs), la, n, mm, p, lw), [=](const V &x) { CM Y = mul(Bs, matv(x, n, p)); return -rip(Y, Y); });
                c.rest = [=](const V &x) { double s = 0; for (double a : x) s += la * std::fabs(a); return s; };
            }
        }
    }
    for (int intr = 0; intr < 2; intr++) {
        int n = 3, p = 2, m = 4, q = 1;
        CM B1 = symm(n, 31), B2 = symm(n, 32), B3 = symm(m, 33), D1(p, 1), D2(p, 1), D3(q, 1);
        D1(0, 0) = 2; D1(1, 0) = 1; D2(0, 0) = 3; D2(1, 0) = 0.5; D3(0, 0) = 1.5;
        MP a = part(mkst(n, p, 1), intr), b = part(mkst(m, q, 1), intr);
        put(fmt("ProdStieSumBrockett(%d)", intr), mkprod({a, b}, {2, 1}, intr), new ProdStieSumBrockett(vec(B1), vec(D1), vec(B2), vec(D2), vec(B3), vec(D3)), [=](const V &x) {
            double s = 0;
            CM X1 = matv(x, n, p), X2 = matv(x, n, p, false, n * p), X3 = matv(x, m, q, false, 2 * n * p);
            for (int i = 0; i < p; i++) for (int a2 = 0; a2 < n; a2++) for (int b2 = 0; b2 < n; b2++) s += (X1(a2, i) * B1(a2, b2) * X1(b2, i) * D1(i, 0) + X2(a2, i) * B2(a2, b2) * X2(b2, i) * D2(i, 0)).real();
            for (int a2 = 0; a2 < m; a2++) for (int b2 = 0; b2 < m; b2++) s += (X3(a2, 0) * B3(a2, b2) * X3(b2, 0) * D3(0, 0)).real();
            return s;
        });
    }
    for (int n : big ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{1, 2, 3}) for (int num : big ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2}) for (int set = 1; set <= 4; set++) {
        std::vector<CM> Ai, Li;
        Vector E0(n, n), Ls(1, &E0, num);
        Ls.NewMemoryOnWrite();
        for (int i = 0; i < num; i++) { Ai.push_back(i == 1 ? scl(eye(n), 2.0) : spd(n, 41 + i)); Li.push_back(chol(Ai.back())); Ls.GetElement(i) = vec(Li.back()); }
        PC &c = put(fmt("SPDKarcherMean(%d,%d,set%d)", n, num, set), mkspd(n, set), new SPDKarcherMean(Ls, n, num), [=](const V &x) {
            CM X = matv(x, n, n);
            X = scl(add(X, tr(X)), 0.5);
            double s = 0;
            for (auto &L : Li) { CM T = lsolve(L, X); T = lsolve(L, tr(T)); for (double e : heig(T)) s += std::log(e) * std::log(e); }
            return s / (2 * num);
        });
        c.sym = true;
        for (auto &A : Ai) c.extra.push_back(vecof(A, false)); /* at a data point: equal eigenvalues */
    }
    for (int kk : {1, 2, 4}) for (int set = 1; set <= 4; set++) for (int hv = 0; hv < 2; hv++) {
        int d = 3, k = kk + 1;
        Vector *W = new Vector[k];
        CM WW(d, k), Pm = spd(d, 51);
        for (int i = 0; i < k; i++) { CM w = gmat(d, 1, 52 + i, false); if (i == 2) w = CM(d, 1); W[i] = vec(w); for (int j = 0; j < d; j++) WW(j, i) = w(j, 0); }
        struct Hv : public RGS { CM P; Hv(const Problem *p, const Variable *x) : RGS(p, x) {} Vector &act(const Vector &v, Vector *res) { *res = mk(mul(P, toCM(v)), false); return *res; } };
        Hv *hs = nullptr;
        if (hv) {
            static NullProb *np0 = [] { auto p = new NullProb; p->SetDomain(new Euclidean(2)); return p; }();
            static Variable *x0 = [] { auto v = new Variable(2); v->SetToZeros(); return v; }();
            hs = new Hv(np0, x0);
            hs->P = Pm;
        }
        typedef Vector &(SolversNSMSub::*HM)(const Vector &, Vector *);
        PC &c = put(fmt("SphereConvexHull(%d,set%d,%d)", k, set, hv), mkst(k, 1, set, "Sphere"), new SphereConvexHull(nullptr, W, k, hs, hv ? static_cast<HM>(&Hv::act) : nullptr), [=](const V &x) {
            CM z(k, 1);
            for (int i = 0; i < k; i++) z(i, 0) = x[i] * x[i];
            CM y = mul(WW, z);
            return rip(y, hv ? mul(Pm, y) : y);
        });
        c.keep.push_back(std::shared_ptr<void>(W, [](void *p) { delete[] (Vector *)p; }));
        if (hs) c.keep.push_back(std::shared_ptr<void>(hs, [](void *p) { delete (Hv *)p; }));
    }
    for (int n : {2, 3}) for (int set : {1, 2}) {
        int mm = n + 2;
        CM Q = gmat(mm, n, 61, false);
        PC &c = put(fmt("SphereSparsestVector(%d,set%d)", n, set), mkst(n, 1, set, "Sphere"), new SphereSparsestVector(vec(Q)), [=](const V &x) { CM y = mul(Q, matv(x, n, 1)); double s = 0; for (auto &z : y.a) s += std::fabs(z.real()); return s; });
        c.differentiable = [=](const V &x) { CM y = mul(Q, matv(x, n, 1)); for (auto &z : y.a) if (std::fabs(z.real()) < 0.05) return false; return true; };
    }
    std::vector<std::vector<int>> mn = {{3, 3, 1}, {4, 3, 2}};
    if (big) { mn.push_back({3, 4, 2}); mn.push_back({2, 2, 1}); }
    for (auto &q : mn) {
        int a = q[0], b = q[1], k = q[2];
        CM A = gmat(a, b, 71, false), W = spd(a * b, 72);
        PC &c = put(fmt("FRankESparseApprox(%d,%d,%d)", a, b, k), mkfre(a, b, k), new FRankESparseApprox(vec(A), 0.6, a, b, k, 1), [=](const V &x) { CM X = add(matv(x, a, b), A, -1); return rip(X, X); });
        c.rest = [](const V &x) { double s = 0; for (double z : x) s += 0.6 * std::fabs(z); return s; };
        put(fmt("FRankEWeightApprox(%d,%d,%d)", a, b, k), mkfre(a, b, k), new FRankEWeightApprox(vec(A), vec(W), a, b, k), [=](const V &x) { CM v = add(matv(x, a * b, 1), resh(A, a * b, 1), -1); return rip(v, mul(W, v)); });
        /* completion: patterns full, diagonal like, a row, with a position given twice */
        for (int pat = 0; pat < 4; pat++) for (int in = 0; in < 2; in++) {
            std::vector<std::pair<int, int>> e;
            for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) if (pat == 0 || (pat == 1 && i == j) || (pat == 2 && i == 0) || (pat == 3 && (i + 2 * j) % 3 != 1)) e.push_back({i, j});
            if (pat == 2) e.push_back({a - 1, b - 1});
            int nz = (int)e.size();
            integer *ir = new integer[2 * nz], *jc = ir + nz;
            double *v = new double[nz];
            V vals;
            for (int i = 0; i < nz; i++) { ir[i] = e[i].first; jc[i] = e[i].second; v[i] = gval(730 + i); vals.push_back(v[i]); }
            PC &d = put(fmt("FRankQ2FMatCompletion(%d,%d,%d,%d,%d)", a, b, k, pat, in), mkq2f(a, b, k, in, false), new FRankQ2FMatCompletion(ir, jc, v, nz, a, b, k), [=](const V &x) {
                CM X = mul(matv(x, a, k), tr(matv(x, b, k, false, (size_t)a * k)));
                double s = 0;
                for (int i = 0; i < nz; i++) { double t = X(e[i].first, e[i].second).real() - vals[i]; s += 0.5 * t * t; }
                return s;
            });
            d.keep.push_back(std::shared_ptr<void>(ir, [](void *p) { delete[] (integer *)p; }));
            d.keep.push_back(std::shared_ptr<void>(v, [](void *p) { delete[] (double *)p; }));
        }
    }
    auto sparse = [](const CM &A, bool cx, PC *c, std::vector<std::shared_ptr<void>> &keep) {
        std::vector<integer> *ij = new std::vector<integer>;
        std::vector<integer> jj;
        std::vector<double> *v = new std::vector<double>;
        for (int j = 0; j < A.c; j++) for (int i = 0; i < A.r; i++) if (A(i, j) != cd(0)) { ij->push_back(i); jj.push_back(j); v->push_back(A(i, j).real()); if (cx) v->push_back(A(i, j).imag()); }
        integer nz = (integer)jj.size();
        ij->insert(ij->end(), jj.begin(), jj.end());
        SparseMatrix *S = cx ? new SparseMatrix(A.r, A.c, ij->data(), ij->data() + nz, (realdpcomplex *)v->data(), nz) : new SparseMatrix(A.r, A.c, ij->data(), ij->data() + nz, v->data(), nz);
        keep.push_back(std::shared_ptr<std::vector<integer>>(ij)); keep.push_back(std::shared_ptr<std::vector<double>>(v)); keep.push_back(std::shared_ptr<SparseMatrix>(S));
        (void)c;
        return S;
    };
    for (auto &q : big ? std::vector<std::pair<int, int>>{{3, 1}, {3, 2}, {4, 2}, {2, 2}} : std::vector<std::pair<int, int>>{{3, 1}, {3, 2}}) for (int set = 1; set <= 6; set++) for (int in = 0; in < 2; in++) {
        int n = q.first, p = q.second, cp = set % 2 ? 1 : 2;
        CM A(n, n), M(n, n), C = gmat(n, cp, 83, false);
        for (int i = 0; i < n; i++) { A(i, i) = 2 + i; M(i, i) = 1 + 0.5 * i; if (i) { A(i, i - 1) = A(i - 1, i) = -0.7; M(i, i - 1) = M(i - 1, i) = 0.2; } }
        std::vector<std::shared_ptr<void>> keep;
        SparseMatrix *SA = sparse(A, false, nullptr, keep), *SM = sparse(M, false, nullptr, keep);
        PC &c = put(fmt("SFRQLyapunov(%d,%d,set%d,%d)", n, p, set, in), mksym(n, p, set, in, false), new SFRQLyapunov(*SA, *SM, vec(C), p), [=](const V &x) {
            CM Y = matv(x, n, p), X = mul(Y, tr(Y));
            return trre(mul(X, mul(A, mul(X, M)))) - trre(mul(X, mul(C, tr(C))));
        });
        c.keep = keep;
    }
    for (auto &q : std::vector<std::vector<int>>{{2, 1, 1, 1}, {2, 2, 2, 1}, {1, 3, 2, 2}, {2, 2, 3, 2}}) for (double kap : {0.0, 0.3}) for (int set : {1, 2, 3, 4}) for (int in = 0; in < 2; in++) {
        int n1 = q[0], n2 = q[1], l = q[2], k = q[3], n = n1 * n2, mm = n * l;
        if (!big && set > 2) continue;
        CM mask = gmat(n, l, 91, true), b = gmat(mm, 1, 92, false);
        for (auto &z : b.a) z = std::fabs(z.real());
        PC &c = put(fmt("CSFRQPhaseRetrieval(%d,%d,%d,%d,%g,set%d,%d)", n1, n2, l, k, kap, set, in), mksym(n, k, set, in, true), new CSFRQPhaseRetrieval(vec(b), vec(mask, true), kap, n1, n2, l, k), [=](const V &x) {
            CM U = matv(x, n, k, true);
            double s = 0;
            for (int i = 0; i < l; i++) {
                std::vector<double> a(n, 0.0);
                for (int j = 0; j < k; j++) {
                    CM t(n1, n2);
                    for (int z = 0; z < n; z++) t.a[z] = mask(z, i) * U(z, j) / std::sqrt((double)n);
                    CM F = dft2(t, -1);
                    for (int z = 0; z < n; z++) a[z] += std::norm(F.a[z]);
                }
                for (int z = 0; z < n; z++) { double e = a[z] - b(i * n + z, 0).real(); s += e * e; }
            }
            return s / rip(b, b) + kap * rip(U, U);
        });
        c.npts = 3;
    }
    for (auto &q : std::vector<std::vector<int>>{{2, 1, 2, 2}, {2, 2, 4, 4}, {2, 2, 2, 3}, {4, 2, 2, 1}}) for (double rho : {0.0, 0.5, 1e-3}) for (int in = 0; in < 2; in++) {
        int n1 = q[0], n2 = q[1], L = n1 * n2, K = q[2], N = q[3];
        if (!big && L > 4 && rho == 0) continue;
        double d = rho == 1e-3 ? 100 : 1, mu = rho == 0.5 ? 0.8 : 1; /* weak: the penalty is not active */
        CM B = gmat(L, K, 101, true), C = gmat(L, N, 102, true), y = gmat(L, 1, 103, true), Hi(L, L);
        for (auto &z : B.a) if (std::abs(z) < 0.5) z = 0;
        for (int i = 0; i < L; i++) { CM e(L, 1); e(i, 0) = 1; CM h = toCM(mk(e, true).GetInvHaarFWT()); for (int j = 0; j < L; j++) Hi(j, i) = h.a[j]; }
        std::vector<std::shared_ptr<void>> keep;
        SparseMatrix *SB = sparse(B, true, nullptr, keep), *SC = sparse(C, true, nullptr, keep);
        auto FB = [=](const V &x) { return resh(dft2(resh(mul(B, matv(x, K, 1, true)), n1, n2), -1), L, 1); };
        auto pen = [=](const V &x, int i) { CM F = FB(x); double nm = 0; for (int j = 0; j < 2 * N; j++) nm += x[2 * K + j] * x[2 * K + j]; return L * std::norm(F(i, 0)) * nm / (8 * d * d * mu * mu) - 1; };
        PC &c = put(fmt("CFRankQ2FBlindDecon2D(%d,%d,%d,%d,%g,%d)", n1, n2, K, N, rho, in), mkq2f(K, N, 1, in, true), new CFRankQ2FBlindDecon2D(vec(y, true), *SB, *SC, n1, n2, 1, rho, d, mu), [=](const V &x) {
            CM F = FB(x), G = resh(dft2(resh(mul(Hi, mul(C, matv(x, N, 1, true, 2 * K))), n1, n2), 1), L, 1);
            double s = 0;
            for (int i = 0; i < L; i++) { s += std::norm(y(i, 0) - F(i, 0) * std::conj(G(i, 0))); if (rho != 0) { double t = std::max(0.0, pen(x, i)); s += rho * t * t; } }
            return s;
        });
        c.keep = keep;
        c.npts = 3;
        if (rho != 0) c.twice = [=](const V &x) { for (int i = 0; i < L; i++) if (pen(x, i) > -0.3) return false; return true; };
        if (rho != 0) c.differentiable = [=](const V &x) { for (int i = 0; i < L; i++) if (std::fabs(pen(x, i)) < 0.05) return false; return true; };
    }
    return r;
}

/* Rayleigh quotients of the Hessian on the sphere in the tangent space, and its extreme eigenvalues */
static void rayleigh(MP base, int k)
{
    group(fmt("SphereTxRQ over %s function %d", base->name.c_str(), k), [=] {
        const Man &m = *base;
        QF Q;
        setup(Q, m, k, 0.3);
        for (int p = 1; p < 3; p++) {
            Variable x = m.pt(p);
            setcase(fmt("%s point %d", m.name.c_str(), p));
            Basis b = basis(m, x);
            Q.f(x);
            Vector g = fresh(m);
            Q.Grad(x, &g);
            CM G(b.n, b.n), H(b.n, b.n);
            for (int i = 0; i < b.n; i++) { Vector h = fresh(m); Q.HessianEta(x, b.e[i], &h); for (int j = 0; j < b.n; j++) { H(j, i) = m.M->Metric(x, b.e[j], h); G(j, i) = m.M->Metric(x, b.e[j], b.e[i]); } }
            CM L = chol(G), T = lsolve(L, tr(lsolve(L, H)));
            V ev = heig(scl(add(T, tr(T)), 0.5));
            for (int mn = 0; mn < 2; mn++) {
                Variable root = x;
                SphereTx D(m.M, &root);
                SphereTxRQ R(m.M, &root, &Q, mn == 0);
                R.SetDomain(&D);
                for (int q = 0; q < 3; q++) {
                    V co = q == 0 ? ecoef(b.n, 0) : gcoef(b.n, 60 + q);
                    Vector e = tvec(m, x, b, co);
                    double nn = std::sqrt(m.M->Metric(x, e, e));
                    m.M->ScalarTimesVector(x, 1 / nn, e, &e);
                    CM c(b.n, 1);
                    for (int i = 0; i < b.n; i++) c(i, 0) = co[i] / nn;
                    double want = (mn ? -1 : 1) * trre(mul(tr(c), mul(H, c))), f = R.f(e);
                    state(); eval();
                    if (!(std::fabs(f - want) <= 1e-8 * (1 + std::fabs(want)))) violation("SphereTxRQ:value", fmt("%.10g instead of %.10g", f, want));
                    Vector gr(D.GetEMPTYEXTR());
                    R.Grad(e, &gr);
                    for (int i = 0; i < b.n; i++) { /* gradient along directions orthogonal to e */
                        CM d(b.n, 1);
                        for (int j = 0; j < b.n; j++) d(j, 0) = (i == j);
                        double ip = trre(mul(tr(d), mul(G, c)));
                        d = add(d, c, -ip);
                        double s = 2 * (mn ? -1 : 1) * trre(mul(tr(d), mul(H, c)));
                        Vector dv = tvec(m, x, b, [&] { V w; for (auto &z : d.a) w.push_back(z.real()); return w; }());
                        double a = D.Metric(e, gr, dv);
                        trans();
                        if (!(std::fabs(a - s) <= 1e-7 * (1 + std::fabs(s) + nrm(H)))) violation("SphereTxRQ:gradient", fmt("direction %d: %.10g instead of %.10g", i, a, s));
                        Vector hv(D.GetEMPTYEXTR());
                        R.HessianEta(e, dv, &hv);
                        /* Hess[d] = 2 P(H d) - 2 f d for the quotient on the unit sphere */
                        double hh = 2 * (mn ? -1 : 1) * trre(mul(tr(d), mul(H, d))) - 2 * want * trre(mul(tr(d), mul(G, d))), ha = D.Metric(e, hv, dv);
                        if (!(std::fabs(ha - hh) <= 1e-7 * (1 + std::fabs(hh) + nrm(H)))) violation("SphereTxRQ:Hessian", fmt("direction %d: %.10g instead of %.10g", i, ha, hh));
                    }
                }
            }
            if (b.n > 1) {
                Vector mm = Q.MinMaxEigValHess(x);
                V v = flat(mm);
                trans();
                outcome(hdbl(v[0], hdbl(v[1])));
                if (!(std::fabs(v[0] - ev.front()) <= 1e-5 * (1 + std::fabs(ev.front()) + std::fabs(ev.back())) && std::fabs(v[1] - ev.back()) <= 1e-5 * (1 + std::fabs(ev.front()) + std::fabs(ev.back()))))
                    violation("MinMaxEigValHess", fmt("%.10g %.10g instead of %.10g %.10g", v[0], v[1], ev.front(), ev.back()));
            }
        }
    });
}

static void C12()
{
    bool th = thorough();
    for (auto &c : all(th ? 1 : 0)) {
        group("values " + c.name, [&] { values(c); });
        group("histories " + c.name, [&] { histories(c, th ? 6 : 4); });
    }
    for (auto &c : all(th ? 1 : 0)) {
        bool sp = c.name.find("StieSPCA") == 0, fr = c.name.find("FRankESparse") == 0;
        if (!sp && !fr) continue;
        group("prox " + c.name, [&] {
            int n = c.m->extlen;
            std::vector<Vector> W;
            std::vector<int> len = sp ? std::vector<int>{1, (int)flat(((StieSPCA *)c.P.get())->B).size() / ((StieSPCA *)c.P.get())->m, n} : std::vector<int>{1, n};
            if (sp) len[1] = ((StieSPCA *)c.P.get())->p;
            for (int l : len) { CM w = gmat(l, 1, 110 + l, false); for (auto &z : w.a) z = 0.3 + std::fabs(z.real()); W.push_back(vec(w)); }
            double la = sp ? ((StieSPCA *)c.P.get())->lambda : 0.6;
            prox(c, la, W);
            /* the weights a problem proposes are positive and have the announced length */
            for (Variable x : points(c)) {
                c.P->f(x);
                Vector w;
                Vector eta(x);
                c.P->PreConditioner(x, eta, &w);
                int want = sp ? ((StieSPCA *)c.P.get())->lengthW : 1;
                bool ok = w.Getlength() == want;
                for (double z : flat(w)) ok &= z > 0;
                eval();
                if (!ok) violation(c.name.substr(0, c.name.find('(')) + ":weights", fmt("%d numbers, %d announced: %s", (int)w.Getlength(), want, vshow(flat(w)).c_str()));
            }
        });
    }
    std::vector<MP> bases = {fin(mkst(3, 2, 1)), fin(mkst(3, 2, 2)), fin(mkeuc(3, 1, 1, false)), fin(mkgr(4, 2)), fin(mkspd(2, 3)), fin(mkst(3, 1, 1, "Sphere")), fin(mkst(3, 2, 1, "CStiefel")), fin(mksym(3, 2, 2, true, false))};
    if (th) { bases.push_back(fin(mkst(4, 2, 1))); bases.push_back(fin(mkspd(3, 1))); bases.push_back(fin(mkst(2, 1, 2, "CStiefel"))); bases.push_back(fin(mkgr(3, 1))); bases.push_back(fin(mkst(5, 2, 3))); }
    for (auto &b : bases) for (int k = 0; k < (th ? 4 : 2); k++) rayleigh(b, k);
}
int main(int argc, char **argv) { return run(argc, argv, {{"C12", C12}}); }

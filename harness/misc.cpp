/* C22 parameters by name, C23 least norm point of a convex hull, C24 splines, C26 random numbers. */
#include "qf.h"
#include "Others/MinPNormConHull.h"
#include "Others/Spline.h"
#include "Others/randgen.h"
#include "Solvers/RSD.h"
#include "Solvers/RCG.h"
#include "Solvers/RBFGS.h"
#include "Solvers/LRBFGS.h"
#include "Solvers/RWRBFGS.h"
#include "Solvers/RBroydenFamily.h"
#include "Solvers/RNewton.h"
#include "Solvers/RTRSD.h"
#include "Solvers/RTRNewton.h"
#include "Solvers/RTRSR1.h"
#include "Solvers/LRTRSR1.h"
#include "Solvers/RGS.h"
#include "Solvers/RBFGSSub.h"
#include "Solvers/LRBFGSSub.h"
#include "Solvers/ManPG.h"
#include "Solvers/AManPG.h"
#include <unistd.h>
#include <dlfcn.h>

/* ------------------------------------------------------------------ random numbers: the environment of C26.
 * These definitions take the place of the C library's; in scripted mode the answers are chosen by the checker. */
static bool g_scripted = false;
static std::vector<int> g_script;
static size_t g_pos = 0;
static long g_calls = 0;
static int g_seeded = 0;
extern "C" int rand(void) noexcept
{
    static int (*real)(void) = (int (*)(void))dlsym(RTLD_NEXT, "rand");
    g_calls++;
    if (g_scripted) return g_script.empty() ? 0 : g_script[g_pos++ % g_script.size()];
    return real();
}
extern "C" void srand(unsigned int s) noexcept
{
    static void (*real)(unsigned) = (void (*)(unsigned))dlsym(RTLD_NEXT, "srand");
    g_seeded++;
    real(s);
}

/* what the library prints while body runs */
static std::string captured(const std::function<void()> &body)
{
    fflush(stdout);
    static int mem = memfd_create("out", 0);
    static int keep = dup(1);
    if (ftruncate(mem, 0)) {}
    lseek(mem, 0, SEEK_SET);
    dup2(mem, 1);
    body();
    fflush(stdout);
    dup2(keep, 1);
    off_t n = lseek(mem, 0, SEEK_END);
    std::string s((size_t)n, 0);
    if (pread(mem, &s[0], n, 0) != n) return "";
    return s;
}

struct MQ : Problem { /* sum of i (x_i - 1)^2 */
    realdp f(const Variable &x) const override { double s = 0; for (int i = 0; i < x.Getlength(); i++) { double d = x.ObtainReadData()[i] - 1; s += (i + 1) * d * d; } return s; }
    Vector &EucGrad(const Variable &x, Vector *r) const override { *r = x; realdp *p = r->ObtainWriteEntireData(); for (int i = 0; i < x.Getlength(); i++) p[i] = 2 * (i + 1) * (x.ObtainReadData()[i] - 1); return *r; }
    Vector &EucHessianEta(const Variable &x, const Vector &e, Vector *r) const override { Vector t(e); realdp *p = t.ObtainWritePartialData(); for (int i = 0; i < x.Getlength(); i++) p[i] *= 2 * (i + 1); *r = t; return *r; }
};
/* ------------------------------------------------------------------ C22 */
enum Kind { R, I, B, E };
struct Par {
    std::string name;
    std::function<void *(Solvers *)> at;
    Kind k;
    std::vector<std::string> en; /* names of the values of an enumeration */
    std::string label;
};
typedef std::vector<Par> Pars;
#define PR(C, f) Par{#f, [](Solvers *s) -> void * { return &((C *)s)->f; }, R, {}, #f}
#define PI(C, f) Par{#f, [](Solvers *s) -> void * { return &((C *)s)->f; }, I, {}, #f}
#define PB(C, f) Par{#f, [](Solvers *s) -> void * { return &((C *)s)->f; }, B, {}, #f}
#define PE(C, f, ...) Par{#f, [](Solvers *s) -> void * { return &((C *)s)->f; }, E, __VA_ARGS__, #f}
static Pars operator+(Pars a, const Pars &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static Pars general() { return {PR(Solvers, Tolerance), PR(Solvers, TimeBound), PI(Solvers, Max_Iteration), PI(Solvers, Min_Iteration), PI(Solvers, OutputGap), PE(Solvers, Verbose, {"NOOUTPUT", "FINALRESULT", "ITERRESULT", "DETAILED"})}; }
static Pars sm() { return general() + Pars{PE(SolversSM, Stop_Criterion, {"SM_FUN_REL", "SM_GRAD_F", "SM_GRAD_F_0"}), PR(SolversSM, Accuracy)}; }
static Pars smls()
{
    return sm() + Pars{PE(SolversSMLS, LineSearch_LS, {"LSSM_ARMIJO", "LSSM_WOLFE", "LSSM_STRONGWOLFE", "LSSM_EXACT", "LSSM_INPUTFUN"}), PR(SolversSMLS, LS_alpha), PR(SolversSMLS, LS_beta),
        PR(SolversSMLS, Minstepsize), PR(SolversSMLS, Maxstepsize), PR(SolversSMLS, LS_ratio1), PR(SolversSMLS, LS_ratio2), PR(SolversSMLS, Initstepsize), PR(SolversSMLS, Finalstepsize),
        PI(SolversSMLS, Num_pre_funs), PE(SolversSMLS, InitSteptype, {"LSSM_ONESTEP", "LSSM_BBSTEP", "LSSM_QUADINT", "LSSM_QUADINTMOD", "LSSM_EXTRBBSTEP"}), PB(SolversSMLS, IsPureLSInput),
        PR(SolversSMLS, PreFunsAccuracy), PI(SolversSMLS, Num_pre_BB), PR(SolversSMLS, BBratio)};
}
static Pars smtr()
{
    return sm() + Pars{PR(SolversSMTR, Acceptence_Rho), PR(SolversSMTR, Shrinked_tau), PR(SolversSMTR, Magnified_tau), PR(SolversSMTR, minimum_Delta), PR(SolversSMTR, maximum_Delta),
        PB(SolversSMTR, useRand), PI(SolversSMTR, Max_Inner_Iter), PI(SolversSMTR, Min_Inner_Iter), PR(SolversSMTR, theta), PR(SolversSMTR, kappa), PR(SolversSMTR, initial_Delta)};
}
static Pars nsm() { return general() + Pars{PE(SolversNSM, Stop_Criterion, {"NSM_FUN_REL", "NSM_DIR_F", "NSM_DIR_F_0"})}; }
static Pars nsmsub()
{
    return nsm() + Pars{PR(SolversNSMSub, Diffx), PI(SolversNSMSub, NumExtraGF), PR(SolversNSMSubLS, Eps), PR(SolversNSMSubLS, Theta_eps), PR(SolversNSMSubLS, Min_Eps), PR(SolversNSMSubLS, Del),
        PR(SolversNSMSubLS, Theta_del), PR(SolversNSMSubLS, LS_alpha), PR(SolversNSMSubLS, LS_beta), PR(SolversNSMSubLS, Minstepsize), PR(SolversNSMSubLS, Maxstepsize),
        PR(SolversNSMSubLS, lambdaLower), PR(SolversNSMSubLS, lambdaUpper)};
}
static Pars pg()
{
    return nsm() + Pars{Par{"RPGLSVariant", [](Solvers *s) -> void * { return &((SolversNSMPGLS *)s)->Variant; }, E, {"REGULAR", "ADALIPSCHITZ"}, "RPGVariant"},
        PR(SolversNSMPGLS, LS_ratio), PR(SolversNSMPGLS, LS_alpha), PR(SolversNSMPGLS, Minstepsize)};
}
struct SolverKind { std::string name; size_t size; std::function<Solvers *(const Problem *, const Variable *)> make; Pars pars; bool smooth; };
#define SK(C, p, sm) SolverKind{#C, sizeof(C), [](const Problem *P, const Variable *x) -> Solvers * { return new C(P, x); }, p, sm}
static std::vector<SolverKind> kinds()
{
    auto bfgs = [](auto *t) { (void)t; return 0; };
    (void)bfgs;
    Pars rb = Pars{PB(RBFGS, isconvex), PR(RBFGS, nu), PR(RBFGS, mu)};
    Pars rw = Pars{PB(RWRBFGS, isconvex), PR(RWRBFGS, nu), PR(RWRBFGS, mu)};
    Pars br = Pars{PB(RBroydenFamily, isconvex), PR(RBroydenFamily, nu), PR(RBroydenFamily, mu)};
    Pars lr = Pars{PB(LRBFGS, isconvex), PR(LRBFGS, nu), PR(LRBFGS, mu), PI(LRBFGS, LengthSY), PI(LRBFGS, LMrestart)};
    lr.back().k = lr.back().k; /* LMrestart may be declared as a truth value */
    Pars rc = Pars{PE(RCG, RCGmethod, {"FLETCHER_REEVES", "POLAK_RIBIERE_MOD", "HESTENES_STIEFEL", "FR_PR", "DAI_YUAN", "HAGER_ZHANG"})};
    Pars nw = Pars{PB(RNewton, useRand), PI(RNewton, Max_Inner_Iter), PI(RNewton, Min_Inner_Iter), PR(RNewton, theta), PR(RNewton, kappa)};
    Pars lt = Pars{PI(LRTRSR1, LengthSY), PI(LRTRSR1, LMrestart)};
    if (sizeof(((LRBFGS *)0)->LMrestart) == sizeof(bool)) lr.back().k = B;
    if (sizeof(((LRTRSR1 *)0)->LMrestart) == sizeof(bool)) lt.back().k = B;
    return {SK(RSD, smls(), true), SK(RCG, smls() + rc, true), SK(RBFGS, smls() + rb, true), SK(RWRBFGS, smls() + rw, true), SK(RBroydenFamily, smls() + br, true), SK(LRBFGS, smls() + lr, true),
        SK(RNewton, smls() + nw, true), SK(RTRSD, smtr(), true), SK(RTRNewton, smtr(), true), SK(RTRSR1, smtr(), true), SK(LRTRSR1, smtr() + lt, true),
        SK(RGS, nsmsub(), false), SK(RBFGSSub, nsmsub(), false), SK(LRBFGSSub, nsmsub() + Pars{PI(LRBFGSSub, LengthSY)}, false), SK(ManPG, pg(), false), SK(AManPG, pg() + Pars{PI(AManPG, SGIterGap)}, false)};
}
static size_t psize(const Par &p) { return p.k == R ? sizeof(realdp) : p.k == B ? sizeof(bool) : 4; }
static double pget(const Par &p, Solvers *s)
{
    void *a = p.at(s);
    switch (p.k) { case R: return *(realdp *)a; case B: return *(bool *)a; case I: return *(integer *)a; default: return *(int *)a; }
}
static std::vector<double> pvals(const Par &p)
{
    if (p.k == B) return {0, 1};
    if (p.k == I) return {0, 1, 3, 7};
    if (p.k == E) { std::vector<double> v; for (size_t i = 0; i < p.en.size(); i++) v.push_back((double)i); return v; }
    return {0.5, 0.25, 1e-7, 7, 0, -1};
}
static std::string trim(std::string s)
{
    while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back();
    size_t i = 0;
    while (i < s.size() && isspace((unsigned char)s[i])) i++;
    return s.substr(i);
}
static bool isid(char c) { return isalnum((unsigned char)c) || c == '_'; }
/* "label  :   value[" or "label : value," in a parameter listing */
static bool printed(const std::string &out, const std::string &label, std::string &val)
{
    size_t p = 0;
    while ((p = out.find(label, p)) != std::string::npos) {
        size_t q = p + label.size();
        bool start = p == 0 || !isid(out[p - 1]);
        while (q < out.size() && out[q] == ' ') q++;
        if (start && q < out.size() && out[q] == ':') {
            size_t e = q + 1;
            while (e < out.size() && out[e] != '[' && out[e] != ',' && out[e] != '\n' && out[e] != '\t') e++;
            val = trim(out.substr(q + 1, e - q - 1));
            return true;
        }
        p += label.size();
    }
    return false;
}
static void c22()
{
    auto ks = kinds();
    std::set<std::string> all;
    for (auto &k : ks) for (auto &p : k.pars) all.insert(p.name);
    std::vector<std::string> unknown = {"", "tolerance", "Tolerance ", "TOLERANCE", "foo", "HasHHR", "ParamSet", "Tol", "LS_ratio", "NumExtraGF", "Max_Iteration2"};
    for (auto &sk : ks) {
        struct W { Euclidean dom{8}; MQ prob; Variable x{8}; };
        auto mkw = [] { auto w = std::make_shared<W>(); for (int i = 0; i < 8; i++) w->x.ObtainWriteEntireData()[i] = i % 3 - 2; w->prob.SetDomain(&w->dom); return w; };
        size_t lo = 1u << 30, hi = 0;
        std::vector<std::string> foreign = unknown;
        {
            std::set<std::string> own;
            for (auto &p : sk.pars) own.insert(p.name);
            for (auto &n : all) if (!own.count(n)) foreign.push_back(n);
            std::vector<std::string> f2;
            for (auto &n : foreign) if (!own.count(n)) f2.push_back(n);
            foreign = f2;
        }
        (void)lo; (void)hi;
        /* one call or two calls or one map with two names, compared with the object after direct assignments, byte by byte */
        auto check = [&](Solvers *s, const std::vector<unsigned char> &def, const std::vector<std::vector<std::pair<int, double>>> &calls, const std::vector<std::string> &extra) {
            memcpy((void *)s, def.data(), def.size());
            std::vector<unsigned char> want = def;
            std::string cs;
            for (auto &call : calls) {
                PARAMSMAP m;
                for (auto &n : extra) m[n] = 0.75;
                cs += "SetParams(";
                for (auto &e : call) {
                    auto &p = sk.pars[e.first];
                    m[p.name] = e.second;
                    cs += fmt("%s=%g ", p.name.c_str(), e.second);
                    unsigned char *a = want.data() + ((unsigned char *)p.at(s) - (unsigned char *)s);
                    if (p.k == R) { realdp v = e.second; memcpy(a, &v, sizeof v); }
                    else if (p.k == B) { bool v = e.second != 0; memcpy(a, &v, sizeof v); }
                    else { int v = (int)e.second; memcpy(a, &v, 4); }
                }
                for (auto &n : extra) cs += n + "=0.75 ";
                cs += ") ";
                s->SetParams(m);
                trans();
            }
            setcase(cs);
            eval();
            trace();
            state();
            if (memcmp((void *)s, want.data(), want.size())) {
                std::string which;
                for (auto &p : sk.pars) {
                    size_t off = (unsigned char *)p.at(s) - (unsigned char *)s;
                    if (memcmp((unsigned char *)s + off, want.data() + off, psize(p))) which += (which.empty() ? "" : ",") + p.name;
                }
                violation(sk.name + ":parameters:" + (which.empty() ? "other state" : which), "after SetParams the solver differs from one whose named members were assigned directly: " + which);
            }
        };
        auto snap = [&](Solvers *s) { std::vector<unsigned char> d(sk.size); memcpy(d.data(), (void *)s, sk.size); return d; };
        group(sk.name + ":single", [&] {
            auto w = mkw();
            std::unique_ptr<Solvers> s(sk.make(&w->prob, &w->x));
            auto def = snap(s.get());
            for (int i = 0; i < (int)sk.pars.size(); i++) for (double v : pvals(sk.pars[i])) {
                check(s.get(), def, {{{i, v}}}, {});
                double got = pget(sk.pars[i], s.get());
                if (got != v) violation(sk.name + ":value:" + sk.pars[i].name, fmt("set to %g, is %g", v, got));
                /* the listing shows what is in effect */
                std::string out = captured([&] { s->CheckParams(); }), val;
                auto &p = sk.pars[i];
                std::string label = p.label == "Magnified_tau" ? "Magnified tau" : p.label;
                if (printed(out, label, val)) {
                    if (p.k == E) { if (val != p.en[(size_t)v]) violation(sk.name + ":listing:" + p.name, fmt("value %s is listed as %s", p.en[(size_t)v].c_str(), val.c_str())); }
                    else if (fabs(atof(val.c_str()) - v) > 1e-5 * fabs(v)) violation(sk.name + ":listing:" + p.name, fmt("value %g is listed as %s", v, val.c_str()));
                    fam("listed", p.name);
                } else if (p.name != "IsPureLSInput" && p.name != "LSstatus") violation(sk.name + ":listing:" + p.name, "the parameter is not listed");
                outcome(hmix(hstr(sk.name + p.name), hdbl(v)));
                check(s.get(), def, {{{i, v}}}, foreign);
            }
            check(s.get(), def, {{}}, foreign);
            for (auto &f : foreign) check(s.get(), def, {{}}, {f});
            /* the listing of the defaults is complete for every other parameter as well */
            memcpy((void *)s.get(), def.data(), def.size());
        });
        group(sk.name + ":pairs", [&] {
            auto w = mkw();
            std::unique_ptr<Solvers> s(sk.make(&w->prob, &w->x));
            auto def = snap(s.get());
            int n = (int)sk.pars.size();
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (double v : pvals(sk.pars[i])) for (double u : pvals(sk.pars[j])) {
                if (i < j) check(s.get(), def, {{{i, v}, {j, u}}}, {});
                check(s.get(), def, {{{i, v}}, {{j, u}}}, {});
            }
            if (thorough()) {
                for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) {
                    double v = pvals(sk.pars[i]).back(), u = pvals(sk.pars[j])[0], t = pvals(sk.pars[k])[1];
                    check(s.get(), def, {{{i, v}}, {{j, u}}, {{k, t}}}, {});
                    if (i < j && j < k) check(s.get(), def, {{{i, v}, {j, u}, {k, t}}}, {});
                }
            }
            std::vector<std::pair<int, double>> every;
            for (int q = 0; q < 2; q++) {
                every.clear();
                for (int i = 0; i < n; i++) every.push_back({i, pvals(sk.pars[i])[q]});
                check(s.get(), def, {every}, {});
                check(s.get(), def, {every}, foreign);
            }
            memcpy((void *)s.get(), def.data(), def.size());
        });
        if (sk.smooth) group(sk.name + ":run", [&] {
            /* a run leaves the parameters as they were set, and set by name or directly it is the same run */
            for (int i = 0; i < (int)sk.pars.size(); i++) for (double v : pvals(sk.pars[i])) {
                auto &p = sk.pars[i];
                if (p.k == R && (v <= 0 || v >= 7)) continue;
                if (p.name == "LineSearch_LS" && v == 4) continue;
                if (p.name == "OutputGap" && v == 0) continue;
                if (p.name == "Num_pre_funs" && v == 0) continue;
                if (p.name == "TimeBound") continue;
                setcase(fmt("%s=%g", p.name.c_str(), v));
                auto one = [&](bool byname) {
                    auto w = mkw();
                    std::unique_ptr<Solvers> s(sk.make(&w->prob, &w->x));
                    s->Verbose = NOOUTPUT;
                    s->Max_Iteration = 6;
                    if (byname) { PARAMSMAP m; m[p.name] = v; s->SetParams(m); }
                    else { void *a = p.at(s.get()); if (p.k == R) *(realdp *)a = v; else if (p.k == B) *(bool *)a = v != 0; else *(int *)a = (int)v; }
                    std::vector<double> before;
                    for (auto &q : sk.pars) before.push_back(pget(q, s.get()));
                    srand(3);
                    captured([&] { s->Run(); });
                    for (size_t k = 0; k < sk.pars.size(); k++) if (pget(sk.pars[k], s.get()) != before[k]) violation(sk.name + ":changed by run:" + sk.pars[k].name, fmt("from %g to %g", before[k], pget(sk.pars[k], s.get())));
                    std::vector<double> r = {(double)s->GetIter(), s->Getfinalfun(), (double)s->Getnf(), (double)s->Getng(), (double)s->GetlengthSeries()};
                    Vector x = s->GetXopt();
                    for (int k = 0; k < 8; k++) r.push_back(x.ObtainReadData()[k]);
                    return r;
                };
                auto a = one(true), b = one(false);
                eval();
                trace();
                state();
                bool same = true;
                for (size_t k = 0; k < a.size(); k++) if (!(a[k] == b[k] || (std::isnan(a[k]) && std::isnan(b[k])))) same = false;
                if (!same) violation(sk.name + ":run:" + p.name, "runs with the parameter set by name and directly differ");
            }
        });
    }
    /* manifolds */
    struct MK { std::string name; size_t size; std::function<Manifold *()> make; std::vector<std::function<void(Manifold *)>> sets; std::vector<std::vector<std::string>> listing; };
    std::vector<MK> ms;
    auto none = std::vector<std::function<void(Manifold *)>>();
    #define CS(C, n) [](Manifold *m) { ((C *)m)->ChooseParamsSet##n(); }
    ms.push_back({"Stiefel", sizeof(Stiefel), [] { return (Manifold *)new Stiefel(4, 2); }, {CS(Stiefel, 1), CS(Stiefel, 2), CS(Stiefel, 3), CS(Stiefel, 4), CS(Stiefel, 5)}, {}});
    ms.push_back({"CStiefel", sizeof(CStiefel), [] { return (Manifold *)new CStiefel(4, 2); }, {CS(CStiefel, 1), CS(CStiefel, 2), CS(CStiefel, 3), CS(CStiefel, 4)}, {}});
    ms.push_back({"Sphere", sizeof(Sphere), [] { return (Manifold *)new Sphere(4); }, {CS(Sphere, 1), CS(Sphere, 2), CS(Sphere, 3), CS(Sphere, 4)}, {}});
    ms.push_back({"SymFixedRankQ", sizeof(SymFixedRankQ), [] { return (Manifold *)new SymFixedRankQ(4, 2); }, {CS(SymFixedRankQ, 1), CS(SymFixedRankQ, 2), CS(SymFixedRankQ, 3), CS(SymFixedRankQ, 4), CS(SymFixedRankQ, 5), CS(SymFixedRankQ, 6)}, {}});
    ms.push_back({"CSymFixedRankQ", sizeof(CSymFixedRankQ), [] { return (Manifold *)new CSymFixedRankQ(4, 2); }, {CS(CSymFixedRankQ, 1), CS(CSymFixedRankQ, 2), CS(CSymFixedRankQ, 3), CS(CSymFixedRankQ, 4)}, {}});
    ms.push_back({"Euclidean", sizeof(Euclidean), [] { return (Manifold *)new Euclidean(4); }, none, {}});
    ms.push_back({"Grassmann", sizeof(Grassmann), [] { return (Manifold *)new Grassmann(4, 2); }, none, {}});
    ms.push_back({"FixedRankE", sizeof(FixedRankE), [] { return (Manifold *)new FixedRankE(4, 3, 2); }, none, {}});
    ms.push_back({"FixedRankQ2F", sizeof(FixedRankQ2F), [] { return (Manifold *)new FixedRankQ2F(4, 3, 2); }, none, {}});
    ms.push_back({"CFixedRankQ2F", sizeof(CFixedRankQ2F), [] { return (Manifold *)new CFixedRankQ2F(4, 3, 2); }, none, {}});
    for (auto &mk : ms) group("manifold:" + mk.name, [&] {
        int n = (int)mk.sets.size();
        /* reference: the sets chosen directly, then the flag */
        struct Op { int set, hhr; };
        std::vector<Op> ops;
        for (int s = 0; s <= n; s++) for (int h = -1; h <= 1; h++) if (s || h >= 0) ops.push_back({s, h});
        for (size_t a = 0; a < ops.size(); a++) for (size_t b = 0; b <= ops.size(); b++) for (int noise = 0; noise < 2; noise++) {
            std::unique_ptr<Manifold> M(mk.make());
            std::vector<unsigned char> def(mk.size), want(mk.size);
            memcpy(def.data(), (void *)M.get(), mk.size);
            std::vector<Op> hist = {ops[a]};
            if (b < ops.size()) hist.push_back(ops[b]);
            std::string cs;
            for (auto &o : hist) { if (o.set) mk.sets[o.set - 1](M.get()); if (o.hhr >= 0) M->SetHasHHR(o.hhr); }
            memcpy(want.data(), (void *)M.get(), mk.size);
            memcpy((void *)M.get(), def.data(), mk.size);
            for (auto &o : hist) {
                PARAMSMAP m;
                cs += "SetParams(";
                if (o.set) { m["ParamSet"] = o.set; cs += fmt("ParamSet=%d ", o.set); }
                if (o.hhr >= 0) { m["HasHHR"] = o.hhr; cs += fmt("HasHHR=%d", o.hhr); }
                if (noise) { m["hasHHR"] = 1 - o.hhr; m["Paramset"] = 2; m["metric"] = 1; m["IsIntrApproach"] = 0; m["HasLockCon"] = 1; }
                cs += ") ";
                captured([&] { M->SetParams(m); });
                trans();
            }
            setcase(cs);
            eval();
            trace();
            state();
            if (memcmp((void *)M.get(), want.data(), mk.size)) violation(mk.name + ":parameters", "the manifold differs from one configured directly");
            memcpy((void *)M.get(), def.data(), mk.size);
        }
        /* the listing */
        for (int s = 0; s <= n; s++) for (int h = 0; h < 2; h++) for (int in = 0; in < 2; in++) {
            std::unique_ptr<Manifold> M(mk.make());
            if (s) mk.sets[s - 1](M.get());
            M->SetHasHHR(h);
            if (!s) M->SetIsIntrApproach(in);
            setcase(fmt("listing of set %d, HasHHR %d", s, h));
            std::string out = captured([&] { M->CheckParams(); }), v;
            eval();
            trace();
            if (!printed(out, "HasHHR", v) || atoi(v.c_str()) != h) violation(mk.name + ":listing:HasHHR", "listed as " + v);
            if (!printed(out, "IsIntrApproach", v) || atoi(v.c_str()) != (M->GetIsIntrinsic() ? 1 : 0)) violation(mk.name + ":listing:IsIntrApproach", "listed as " + v);
            if (!printed(out, "IntrinsicDim", v) || atoi(v.c_str()) != M->GetIntrDim()) violation(mk.name + ":listing:IntrinsicDim", "listed as " + v);
            if (!printed(out, "ExtrinsicDim", v) || atoi(v.c_str()) != M->GetExtrDim()) violation(mk.name + ":listing:ExtrinsicDim", "listed as " + v);
            auto expect = [&](const char *label, int value, std::vector<std::string> names) {
                std::string v2;
                if (!printed(out, label, v2)) { violation(mk.name + ":listing:" + label, "not listed"); return; }
                std::string w = names[value];
                if (v2.find(w) == std::string::npos || (v2.size() > w.size() && v2.substr(v2.size() - w.size()) != w)) violation(mk.name + ":listing:" + label, "value " + w + " is listed as " + v2);
            };
            if (auto q = dynamic_cast<Stiefel *>(M.get())) {
                expect("metric", q->metric, {"EUCLIDEAN", "CANONICAL"});
                expect("retraction", q->retraction, {"QF", "POLAR", "EXP", "CAYLEYR"});
                expect("VecTran", q->VecTran, {"PARALLELIZATION", "RIGGING", "PARALLELTRANSLATION", "PROJECTION", "CAYLEYVT"});
            }
            if (auto q = dynamic_cast<CStiefel *>(M.get())) {
                expect("metric", q->metric, {"EUCLIDEAN", "CANONICAL"});
                expect("retraction", q->retraction, {"QF", "POLAR", "EXP"});
                expect("VecTran", q->VecTran, {"PARALLELIZATION", "PARALLELTRANSLATION", "PROJECTION"});
            }
            if (auto q = dynamic_cast<SymFixedRankQ *>(M.get())) {
                expect("metric", q->metric, {"FRANKQEUC", "FRANKQHGZ", "FRANKQQEUC"});
                expect("VecTran", q->VecTran, {"PARALLELIZATION", "PROJECTION"});
            }
            if (auto q = dynamic_cast<CSymFixedRankQ *>(M.get())) {
                expect("metric", q->metric, {"FRANKQEUC", "FRANKQHGZ"});
                expect("VecTran", q->VecTran, {"PARALLELIZATION", "PROJECTION"});
            }
        }
    });
}

/* ------------------------------------------------------------------ C23 */
/* least norm point of conv(W) in the inner product v'Pv by trying every face: exact up to rounding */
static bool solve(std::vector<V> A, V b, V &x)
{
    int n = (int)b.size();
    for (int i = 0; i < n; i++) {
        int p = i;
        for (int k = i; k < n; k++) if (fabs(A[k][i]) > fabs(A[p][i])) p = k;
        if (fabs(A[p][i]) < 1e-12) return false;
        std::swap(A[p], A[i]); std::swap(b[p], b[i]);
        for (int k = i + 1; k < n; k++) { double f = A[k][i] / A[i][i]; for (int j = i; j < n; j++) A[k][j] -= f * A[i][j]; b[k] -= f * b[i]; }
    }
    x.assign(n, 0);
    for (int i = n - 1; i >= 0; i--) { double s = b[i]; for (int j = i + 1; j < n; j++) s -= A[i][j] * x[j]; x[i] = s / A[i][i]; }
    return true;
}
static double pdot(const V &a, const V &b, const CM &P)
{
    double s = 0;
    for (int i = 0; i < P.r; i++) for (int j = 0; j < P.r; j++) s += a[i] * P(i, j).real() * b[j];
    return s;
}
static V minnorm(const std::vector<V> &W, const CM &P, V *weights = nullptr)
{
    int m = (int)W.size(), d = (int)W[0].size();
    double best = 1e300;
    V bp(d, 0);
    for (int S = 1; S < (1 << m); S++) {
        std::vector<int> id;
        for (int i = 0; i < m; i++) if (S >> i & 1) id.push_back(i);
        int k = (int)id.size();
        std::vector<V> A(k + 1, V(k + 1, 0));
        V b(k + 1, 0), x;
        for (int i = 0; i < k; i++) { for (int j = 0; j < k; j++) A[i][j] = pdot(W[id[i]], W[id[j]], P); A[i][k] = A[k][i] = 1; }
        b[k] = 1;
        if (!solve(A, b, x)) continue; /* degenerate faces: a smaller face contains the point */
        bool ok = true;
        for (int i = 0; i < k; i++) if (x[i] < -1e-12) ok = false;
        if (!ok) continue;
        V p(d, 0);
        for (int i = 0; i < k; i++) for (int j = 0; j < d; j++) p[j] += x[i] * W[id[i]][j];
        double v = pdot(p, p, P);
        if (v < best) { best = v; bp = p; if (weights) { weights->assign(m, 0); for (int i = 0; i < k; i++) (*weights)[id[i]] = x[i]; } }
    }
    return bp;
}
static CM g_P;
struct HullSolver : RGS {
    int shape_r = 0;
    HullSolver(const Problem *p, const Variable *x) : RGS(p, x) {}
    Vector &PH(const Vector &v, Vector *r)
    {
        Vector in(v);
        const realdp *a = in.ObtainReadData();
        int n = g_P.r;
        V out(n, 0);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) out[i] += g_P(i, j).real() * a[j];
        *r = in;
        realdp *b = r->ObtainWriteEntireData();
        for (int i = 0; i < n; i++) b[i] = out[i];
        return *r;
    }
    Vector &HvSub(const Vector &v, Vector *r) override { return PH(v, r); }
};
static void hull(Manifold *M, Variable &x, HullSolver &solver, const std::vector<V> &W, bool useP, int seeds, const Vector &proto, const char *what)
{
    int m = (int)W.size(), d = (int)W[0].size();
    CM P = useP ? g_P : eye(d);
    V best = minnorm(W, P);
    double bn = pdot(best, best, P), sc = 1e-300;
    for (auto &w : W) sc = std::max(sc, pdot(w, w, P));
    for (int sd = 0; sd < seeds; sd++) {
        std::vector<Vector> Y(m, proto);
        for (int i = 0; i < m; i++) { Vector t(proto); realdp *p = t.ObtainWriteEntireData(); for (int j = 0; j < d; j++) p[j] = W[i][j]; Y[i] = t; }
        std::string cs = fmt("%s P=%d start %d:", what, (int)useP, sd);
        for (auto &w : W) { cs += " ("; for (double c : w) cs += fmt("%g,", c); cs += ")"; }
        setcase(cs);
        state();
        eval();
        trace();
        trans(m);
        Vector out(proto);
        srand(sd + 1);
        double f;
        if (useP) f = MinPNormConHull(M, x, Y.data(), m, &solver, &SolversNSMSub::HvSub, out);
        else f = MinPNormConHull(M, x, Y.data(), m, out);
        if (out.Getlength() != d) { violation("hull:size", fmt("a point of %d entries for vectors of %d entries", (int)out.Getlength(), d)); continue; }
        if (out.Getrow() != proto.Getrow() || out.Getcol() != proto.Getcol()) violation("hull:shape", "the returned point has another shape than the vectors");
        V y(d);
        const realdp *o = out.ObtainReadData();
        for (int j = 0; j < d; j++) y[j] = o[j];
        double yn = pdot(y, y, P);
        if (!std::isfinite(f) || !std::isfinite(yn)) { violation("hull:value", "not a number"); continue; }
        if (fabs(f - yn) > 1e-10 * sc) violation("hull:value", fmt("returned %g, squared norm of the returned point %g", f, yn));
        if (yn > bn + 1e-6 * sc) violation("hull:minimum", fmt("squared norm %g, the hull has a point with %g", yn, bn));
        /* the point is in the hull: distance 0 */
        std::vector<V> D = W;
        for (auto &w : D) for (int j = 0; j < d; j++) w[j] -= y[j];
        V z = minnorm(D, eye(d));
        double zn = pdot(z, z, eye(d));
        if (zn > 1e-14 * (1 + sc)) violation("hull:membership", fmt("distance %g from the hull", sqrt(zn)));
        if (yn < bn - 1e-9 * sc) violation("hull:membership", "shorter than every hull point");
        /* the optimal point is unique, and the excess in norm bounds the distance */
        double dd = 0;
        V df(d);
        for (int j = 0; j < d; j++) df[j] = y[j] - best[j];
        dd = pdot(df, df, P);
        if (dd > 2e-6 * sc) violation("hull:point", fmt("squared distance %g from the least norm point", dd));
        for (int i = 0; i < m; i++) {
            const realdp *p = Y[i].ObtainReadData();
            for (int j = 0; j < d; j++) if (p[j] != W[i][j]) { violation("hull:inputs", "an input vector changed"); break; }
        }
        outcome(hdbl(yn));
    }
}
static void c23()
{
    struct Form { const char *name; std::function<Manifold *()> mk; int d; };
    auto grid = [](int d, std::vector<double> vals) {
        std::vector<V> g = {V()};
        for (int i = 0; i < d; i++) { std::vector<V> h; for (auto &v : g) for (double c : vals) { V w = v; w.push_back(c); h.push_back(w); } g = h; }
        return g;
    };
    auto rungrid = [&](const std::string &gname, Manifold *M, const Vector &proto, const std::vector<V> &G, int m, bool repeat, int seeds, size_t part, size_t parts) {
        Variable x = M->RandominManifold();
        MQ prob;
        prob.SetDomain(M);
        HullSolver solver(&prob, &x);
        int d = (int)G[0].size();
        g_P = CM(d, d);
        for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) g_P(i, j) = i == j ? 2.0 + i : 0.7;
        std::vector<int> id(m, 0);
        size_t cnt = 0;
        while (true) {
            bool ok = true;
            for (int i = 1; i < m; i++) if (repeat ? id[i] < id[i - 1] : id[i] <= id[i - 1]) ok = false;
            if (ok && cnt++ % parts == part) {
                std::vector<V> W;
                for (int i : id) W.push_back(G[i]);
                for (int p = 0; p < 2; p++) hull(M, x, solver, W, p, seeds, proto, gname.c_str());
            }
            int k = m - 1;
            while (k >= 0 && ++id[k] == (int)G.size()) id[k--] = 0;
            if (k < 0) break;
        }
    };
    for (int d = 1; d <= 3; d++) for (int m = 1; m <= 4; m++) {
        std::vector<double> vals = d == 1 ? std::vector<double>{-1, -0.5, 0, 0.25, 2} : d == 2 ? (m <= 3 ? std::vector<double>{-1, 0, 0.5, 2} : std::vector<double>{-1, 0, 2}) : (m == 4 ? std::vector<double>{-1, 1} : m == 3 && !thorough() ? std::vector<double>{-1, 2} : std::vector<double>{-1, 0, 2});
        auto G = grid(d, vals);
        size_t parts = 8;
        for (size_t q = 0; q < parts; q++) group(fmt("hull:columns%d:%d:part%d", d, m, (int)q), [&] {
            Euclidean M(d);
            rungrid(fmt("columns%d", d), &M, Vector(d), G, m, true, thorough() ? 6 : 2, q, parts);
        });
    }
    for (int m = 1; m <= 3; m++) for (size_t q = 0; q < 4; q++) group(fmt("hull:matrices:%d:part%d", m, (int)q), [&] {
        Euclidean M(2, 2);
        auto G = grid(4, {-1, 2});
        rungrid("matrices", &M, Vector(2, 2), G, m, false, thorough() ? 4 : 1, q, 4);
    });
    for (int m = 1; m <= 3; m++) for (size_t q = 0; q < 4; q++) group(fmt("hull:product:%d:part%d", m, (int)q), [&] {
        Euclidean A(2), C(1, 2);
        ProductManifold M(2, &A, 1, &C, 1);
        auto G = grid(4, {-1, 2});
        rungrid("product", &M, M.GetEMPTYEXTR(), G, m, false, thorough() ? 4 : 1, q, 4);
    });
    /* scales, many vectors and nearly dependent ones */
    for (int m = 2; m <= (thorough() ? 10 : 7); m++) group(fmt("hull:many%d", m), [&] {
        for (int d = 2; d <= 4; d++) for (double sc : {1e-3, 1.0, 1e3}) for (unsigned s = 0; s < 6; s++) {
            Euclidean M(d);
            Variable x = M.RandominManifold();
            MQ prob;
            prob.SetDomain(&M);
            HullSolver solver(&prob, &x);
            g_P = CM(d, d);
            for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) g_P(i, j) = i == j ? 2.0 + i : 0.7;
            CM G = gmat(d, m, 31 + s, false);
            std::vector<V> W;
            for (int k = 0; k < m; k++) { V w; for (int i = 0; i < d; i++) w.push_back(sc * (G(i, k).real() + (s % 2 ? 1.0 : 0.1))); W.push_back(w); }
            if (s == 4) W[1] = W[0];
            if (s == 5) for (auto &c : W[1]) c = 0;
            for (int p = 0; p < 2; p++) hull(&M, x, solver, W, p, 2, Vector(d), "many");
        }
    });
}

/* ------------------------------------------------------------------ C24 */
static void spline(const V &X, const V &Y, bool uniform, bool periodic, double h)
{
    int n = (int)X.size(), nn = n - 1;
    eval();
    trace();
    state();
    std::string key = std::string(uniform ? "uniform" : "nonuniform") + (periodic ? "-periodic" : "-slopes");
    std::string cs = key + " X:";
    for (double c : X) cs += fmt(" %g", c);
    cs += " Y:";
    for (double c : Y) cs += fmt(" %g", c);
    setcase(cs);
    std::unique_ptr<realdp[]> coefs(new realdp[4 * nn]), d1(new realdp[3 * nn]), d2(new realdp[2 * nn]), x(new realdp[n]), y(new realdp[n]);
    for (int i = 0; i < n; i++) { x[i] = X[i]; y[i] = Y[i]; }
    int ok = uniform ? (periodic ? Spline::SplineUniformPeriodic(y.get(), n, h, coefs.get()) : Spline::SplineUniformSlopes(y.get(), n, h, coefs.get()))
                     : (periodic ? Spline::SplinePeriodic(x.get(), y.get(), n, coefs.get()) : Spline::SplineSlopes(x.get(), y.get(), n, coefs.get()));
    if (ok != 1) { violation(key + ":solve", "no spline was computed"); return; }
    for (int i = 0; i < n; i++) if (x[i] != X[i] || y[i] != Y[i]) violation(key + ":inputs", "the data were changed");
    Spline::FirstDeri(coefs.get(), n, d1.get());
    Spline::SecondDeri(coefs.get(), n, d2.get());
    auto f = [&](double t) { return uniform ? Spline::ValSplineUniform(coefs.get(), n, h, t) : Spline::ValSpline(coefs.get(), x.get(), n, t); };
    auto g = [&](double t) { return uniform ? Spline::ValFirstDeriUniform(d1.get(), n, h, t) : Spline::ValFirstDeri(d1.get(), x.get(), n, t); };
    auto H = [&](double t) { return uniform ? Spline::ValSecondDeriUniform(d2.get(), n, h, t) : Spline::ValSecondDeri(d2.get(), x.get(), n, t); };
    double ys = 1e-12, hm = 1e300;
    for (int i = 0; i < n; i++) ys = std::max(ys, fabs(Y[i]));
    for (int i = 0; i < nn; i++) hm = std::min(hm, X[i + 1] - X[i]);
    double e0 = 1e-9 * ys * (1 + fabs(X[0]) / hm), e1 = 10 * e0 / hm, e2 = 30 * e1 / hm;
    auto bad = [](double a, double b, double e) { return !(fabs(a - b) <= e); };
    /* interpolation at the nodes from both sides, continuity of first and second derivatives */
    std::vector<double> l1(n), r1(n), l2(n), r2(n);
    for (int i = 0; i < nn; i++) {
        double a = X[i], b = X[i + 1], w = b - a;
        /* the piece is the cubic through four interior values: extrapolate it to both ends */
        double t[4], v[4];
        for (int k = 0; k < 4; k++) { t[k] = (0.1 + 0.25 * k); v[k] = f(a + t[k] * w); }
        auto piece = [&](double s, int der) {
            double r = 0;
            for (int k = 0; k < 4; k++) {
                double den = 1;
                std::vector<double> o;
                for (int j = 0; j < 4; j++) if (j != k) { den *= t[k] - t[j]; o.push_back(t[j]); }
                double num = der == 0 ? (s - o[0]) * (s - o[1]) * (s - o[2]) : der == 1 ? (s - o[0]) * (s - o[1]) + (s - o[0]) * (s - o[2]) + (s - o[1]) * (s - o[2]) : 2 * (3 * s - o[0] - o[1] - o[2]);
                r += v[k] * num / den;
            }
            return r;
        };
        if (bad(piece(0, 0), Y[i], e0) || bad(piece(1, 0), Y[i + 1], e0)) violation(key + ":interpolation", fmt("piece %d runs from %g to %g, data %g to %g", i, piece(0, 0), piece(1, 0), Y[i], Y[i + 1]));
        r1[i] = piece(0, 1) / w; l1[i + 1] = piece(1, 1) / w;
        r2[i] = piece(0, 2) / w / w; l2[i + 1] = piece(1, 2) / w / w;
        for (double s : {0.0, 0.03, 0.35, 0.5, 0.8, 0.99}) {
            trans();
            if (bad(f(a + s * w), piece(s, 0), e0)) violation(key + ":one cubic", fmt("piece %d is not one cubic at %g", i, s));
            if (bad(g(a + s * w), piece(s, 1) / w, e1)) violation(key + ":first derivative", fmt("%g instead of %g in piece %d at %g", g(a + s * w), piece(s, 1) / w, i, s));
            if (bad(H(a + s * w), piece(s, 2) / w / w, e2)) violation(key + ":second derivative", fmt("%g instead of %g in piece %d at %g", H(a + s * w), piece(s, 2) / w / w, i, s));
        }
    }
    for (int i = 0; i < n; i++) if (bad(f(X[i]), Y[i], e0)) violation(key + ":interpolation", fmt("%g instead of %g at node %d", f(X[i]), Y[i], i));
    for (int i = 1; i < nn; i++) {
        if (bad(l1[i], r1[i], e1)) violation(key + ":smooth", fmt("the first derivative jumps from %g to %g at node %d", l1[i], r1[i], i));
        if (bad(l2[i], r2[i], e2)) violation(key + ":smooth", fmt("the second derivative jumps from %g to %g at node %d", l2[i], r2[i], i));
    }
    if (periodic) {
        if (bad(l1[nn], r1[0], e1)) violation(key + ":boundary", fmt("first derivatives %g and %g at the ends", r1[0], l1[nn]));
        if (bad(l2[nn], r2[0], e2)) violation(key + ":boundary", fmt("second derivatives %g and %g at the ends", r2[0], l2[nn]));
    } else {
        double a = (Y[1] - Y[0]) / (X[1] - X[0]), b = (Y[nn] - Y[nn - 1]) / (X[nn] - X[nn - 1]);
        if (bad(r1[0], a, e1) || bad(l1[nn], b, e1)) violation(key + ":boundary", fmt("end slopes %g and %g instead of %g and %g", r1[0], l1[nn], a, b));
    }
    /* beyond the ends the end pieces continue */
    for (double s : {-0.5, 0.5}) {
        double t = s < 0 ? X[0] + s * hm : X[nn] + s * hm, e = s < 0 ? X[0] : X[nn], q = t - e;
        double v = (s < 0 ? Y[0] : Y[nn]) + q * (s < 0 ? r1[0] : l1[nn]) + q * q / 2 * (s < 0 ? r2[0] : l2[nn]);
        int p = s < 0 ? 0 : nn - 1;
        double third = (l2[p + 1] - r2[p]) / (X[p + 1] - X[p]);
        v += q * q * q / 6 * third;
        if (bad(f(t), v, 100 * e0 * (1 + fabs(third)))) violation(key + ":outside", fmt("%g instead of %g at %g", f(t), v, t));
    }
    outcome(hdbl(f(X[0] + 0.37 * (X[nn] - X[0]))));
}
static void c24()
{
    int N = thorough() ? 7 : 6;
    for (int n = 2; n <= N; n++) for (int uni = 0; uni < 2; uni++) for (int per = 0; per < 2; per++) {
        group(fmt("spline:%s:%s:%d", uni ? "uniform" : "nonuniform", per ? "periodic" : "slopes", n), [&] {
            std::vector<V> nodes;
            if (uni) { for (double h : {0.25, 1.0, 3.0}) { V x; for (int i = 0; i < n; i++) x.push_back(i * h); nodes.push_back(x); } }
            else {
                std::vector<double> sp = n <= 5 ? std::vector<double>{0.5, 1, 4} : std::vector<double>{0.5, 3};
                std::vector<int> id(n - 1, 0);
                while (true) {
                    for (double o : {0.0, -2.0, 5.5}) { V x = {o}; for (int i : id) x.push_back(x.back() + sp[i]); nodes.push_back(x); }
                    int k = n - 2;
                    while (k >= 0 && ++id[k] == (int)sp.size()) id[k--] = 0;
                    if (k < 0) break;
                }
            }
            std::vector<double> vals = n <= 4 ? std::vector<double>{-1, 0, 2, 0.3} : n == 5 ? std::vector<double>{-1, 0, 2} : std::vector<double>{-1, 2};
            int m = per ? n - 1 : n;
            std::vector<V> data;
            std::vector<int> id(m, 0);
            while (true) {
                V y;
                for (int i : id) y.push_back(vals[i]);
                if (per) y.push_back(y[0]);
                data.push_back(y);
                int k = m - 1;
                while (k >= 0 && ++id[k] == (int)vals.size()) id[k--] = 0;
                if (k < 0) break;
            }
            for (int e = 0; e < m; e++) { V y(n, 0); y[e] = 1; if (per) y[n - 1] = y[0]; data.push_back(y); }
            for (auto &x : nodes) {
                for (auto &y : data) spline(x, y, uni, per, x[1] - x[0]);
                if (!per) { V y; for (double t : x) y.push_back(3 - 2 * t); spline(x, y, uni, per, x[1] - x[0]); } /* a line is its own spline: slopes and curvature follow */
            }
        });
    }
    /* larger sizes on the basis of the data */
    for (int n = N + 1; n <= (thorough() ? 40 : 16); n++) group(fmt("spline:large:%d", n), [&] {
        for (int uni = 0; uni < 2; uni++) for (int per = 0; per < 2; per++) {
            V x = {uni ? 0 : 1.5};
            for (int i = 1; i < n; i++) x.push_back(x.back() + (uni ? 0.5 : 0.3 + (i * 7 % 5) * 0.4));
            for (int e = 0; e <= (per ? n - 2 : n - 1); e++) { V y(n, 0); y[e] = 1; if (per) y[n - 1] = y[0]; spline(x, y, uni, per, 0.5); }
            V y;
            for (int i = 0; i < n; i++) y.push_back(sin(1.3 * i) + 0.2 * (i * 3 % 7));
            if (per) y[n - 1] = y[0];
            spline(x, y, uni, per, 0.5);
        }
    });
    /* the tridiagonal and periodic solvers against their matrices */
    group("spline:systems", [&] {
        for (int n = 1; n <= 6; n++) for (unsigned s = 0; s < 12; s++) for (int per = 0; per < 2; per++) {
            CM G = gmat(n, 4, 100 + s, false);
            V d(n), u(n), l(n), b(n);
            for (int i = 0; i < n; i++) { u[i] = G(i, 0).real(); l[i] = G(i, 1).real(); b[i] = G(i, 3).real(); d[i] = 4 + G(i, 2).real(); }
            setcase(fmt("%s system of %d, set %u", per ? "periodic" : "tridiagonal", n, s));
            eval();
            trace();
            state();
            std::unique_ptr<realdp[]> D(new realdp[n]), U(new realdp[per ? n : std::max(1, n - 1)]), L(new realdp[per ? n : std::max(1, n - 1)]), B(new realdp[n]), S(new realdp[per ? n + 1 : n]);
            for (int i = 0; i < n; i++) { D[i] = d[i]; B[i] = b[i]; if (per || i < n - 1) { U[i] = u[i]; L[i] = l[i]; } }
            int ok = per ? Spline::SolvePeriodicSystem(D.get(), U.get(), L.get(), B.get(), S.get(), n) : Spline::SolveTridiagonalSystem(D.get(), U.get(), L.get(), B.get(), S.get(), n);
            if (ok != 1) { violation("systems:solve", "a diagonally dominant system was not solved"); continue; }
            for (int i = 0; i < n; i++) {
                double r;
                if (per) { /* unknowns s_1..s_n with s_0 = s_n; row i: l s_i + d s_{i+1} + u s_{i+2} */
                    auto at = [&](int k) { return S[k == 0 ? n : k > n ? k - n : k]; };
                    r = l[i] * at(i) + d[i] * at(i + 1) + u[i] * at(i + 2) - b[i];
                } else r = (i ? l[i - 1] * S[i - 1] : 0) + d[i] * S[i] + (i < n - 1 ? u[i] * S[i + 1] : 0) - b[i];
                if (!(fabs(r) < 1e-10)) violation(per ? "systems:periodic" : "systems:tridiagonal", fmt("residual %g in row %d", r, i));
            }
            if (per && S[0] != S[n]) violation("systems:periodic", "the first and last unknown differ");
        }
    });
}

/* ------------------------------------------------------------------ C26 */
static double Phi(double z) { return 0.5 * erfc(-z / sqrt(2.0)); }
static void c26()
{
    /* every history of seeding and drawing */
    group("histories", [&] {
        g_scripted = false;
        std::vector<unsigned> seeds;
        for (unsigned s = 0; s < (thorough() ? 300u : 40u); s++) seeds.push_back(s);
        for (unsigned s : {1000u, 65535u, 65536u, 2147483647u, 2147483648u, 4294967295u}) seeds.push_back(s);
        int depth = thorough() ? 5 : 4;
        /* operations: u uniform, n normal, U array uniform, N array normal (3 entries), M point of a sphere */
        const char *ops = "unUN";
        std::vector<std::string> progs = {""};
        for (size_t i = 0; i < progs.size(); i++) if ((int)progs[i].size() < depth) for (const char *c = ops; *c; c++) progs.push_back(progs[i] + *c);
        auto draw = [&](char c, V &out) {
            trans();
            if (c == 'u') out.push_back(genrandreal());
            else if (c == 'n') out.push_back(genrandnormal());
            else { Vector v(3); if (c == 'U') v.RandUnform(-2, 5); else v.RandGaussian(); for (int i = 0; i < 3; i++) out.push_back(v.ObtainReadData()[i]); }
        };
        std::map<uint64_t, int> seen;
        for (unsigned sd : seeds) {
            bool full = sd < 4 || thorough();
            for (auto &pr : progs) {
                if (!full && (int)pr.size() != depth) continue;
                setcase(fmt("seed %u, draws %s, again after other draws", sd, pr.c_str()));
                eval();
                trace();
                state();
                V a, b, junk;
                genrandseed(sd);
                for (char c : pr) draw(c, a);
                /* restarted after any amount of use, odd and even */
                for (int k = 0; k < 3; k++) {
                    for (int q = 0; q <= k; q++) draw(q % 2 ? 'u' : 'n', junk);
                    if (k == 2) { genrandseed(sd + 17); draw('n', junk); }
                    b.clear();
                    genrandseed(sd);
                    for (char c : pr) draw(c, b);
                    if (a != b) { violation("reproducible", "the same seed gave another stream"); break; }
                }
                for (double z : a) if (!std::isfinite(z)) violation("finite", "a sample is not finite");
                size_t at = 0;
                for (char c : pr) {
                    int n = c == 'u' || c == 'n' ? 1 : 3;
                    for (int q = 0; q < n; q++, at++) {
                        if (c == 'u' && !(a[at] >= 0 && a[at] <= 1)) violation("range:uniform", fmt("%g", a[at]));
                        if (c == 'U' && !(a[at] >= -2 && a[at] <= 5)) violation("range:array", fmt("%g", a[at]));
                    }
                }
                uint64_t h = 7;
                for (double z : a) h = hdbl(z, h);
                outcome(h);
            }
            /* a prefix of the stream is the stream of the prefix */
        }
    });
    /* seeds give distinct streams; 0 and 1 are the same seed for the C library */
    group("seeds", [&] {
        std::map<V, unsigned> seen;
        for (unsigned s = 1; s <= (thorough() ? 20000u : 2000u); s++) {
            setcase(fmt("seed %u", s));
            genrandseed(s);
            V v;
            for (int i = 0; i < 4; i++) v.push_back(genrandreal());
            eval();
            trace();
            state();
            if (seen.count(v)) violation("seeds", fmt("seeds %u and %u give the same stream", seen[v], s));
            seen[v] = s;
            if (v[0] == v[1] && v[1] == v[2]) violation("stream:constant", "the stream repeats one number");
        }
    });
    /* extreme answers of the underlying generator */
    group("extremes", [&] {
        std::vector<int> ext = {0, 1, 2, RAND_MAX / 4, RAND_MAX / 2, RAND_MAX / 2 + 1, RAND_MAX - 2, RAND_MAX - 1, RAND_MAX};
        std::vector<int> id(3, 0);
        while (true) {
            g_script.clear();
            for (int i : id) g_script.push_back(ext[i]);
            g_script.push_back(RAND_MAX / 3);
            for (int op = 0; op < 5; op++) {
                g_scripted = true;
                g_pos = 0;
                setcase(fmt("rand() answers %d %d %d, draw %d", g_script[0], g_script[1], g_script[2], op));
                eval();
                trace();
                state();
                V o;
                if (op == 0) o = {genrandreal(), genrandreal(), genrandreal()};
                else if (op == 1) o = {genrandnormal()};
                else { Vector v(2); if (op == 2) v.RandUnform(); else if (op == 3) v.RandUnform(3, 3.5); else v.RandGaussian(); o = {v.ObtainReadData()[0], v.ObtainReadData()[1]}; }
                g_scripted = false;
                for (double z : o) {
                    if (!std::isfinite(z)) violation("extremes:finite", "not finite");
                    if ((op == 0 || op == 2) && !(z >= 0 && z <= 1)) violation("extremes:range", fmt("%g", z));
                    if (op == 3 && !(z >= 3 && z <= 3.5)) violation("extremes:range", fmt("%g", z));
                    if ((op == 1 || op == 4) && fabs(z) > 7) violation("extremes:normal", fmt("%g", z));
                    outcome(hdbl(z, op));
                }
            }
            int k = 2;
            while (k >= 0 && ++id[k] == (int)ext.size()) id[k--] = 0;
            if (k < 0) break;
        }
    });
    /* distribution: every pair of answers on a lattice that is equidistributed in the square */
    group("distribution", [&] {
        int K = thorough() ? 1200 : 400;
        g_scripted = true;
        g_script = {1};
        g_pos = 0;
        g_calls = 0;
        genrandreal();
        long perreal = g_calls;
        g_calls = 0;
        genrandnormal();
        long pern = g_calls;
        fam("draws per sample", fmt("uniform %ld normal %ld", perreal, pern));
        if (perreal == 1) {
            double prev = -1, mx = 0;
            for (int i = 0; i < K * K; i++) {
                g_script = {(int)((i + 0.5) / (K * (double)K) * RAND_MAX)};
                g_pos = 0;
                double u = genrandreal();
                state();
                mx = std::max(mx, fabs(u - (i + 0.5) / (K * (double)K)));
                if (u < prev) { violation("distribution:uniform", "not monotone in the generator's answer"); break; }
                prev = u;
            }
            eval();
            trace();
            if (mx > 1e-6) violation("distribution:uniform", fmt("quantiles differ by %g", mx));
        }
        if (pern == 1 || pern == 2) for (int form = 0; form < 3; form++) {
            double mean = form == 2 ? 3 : 0, var = form == 0 ? 1 : 4;
            std::vector<double> z;
            setcase(fmt("normal samples over a lattice of %d x %d answers, mean %g variance %g", K, K, mean, var));
            for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) {
                g_script = {(int)((i + 0.5) / K * RAND_MAX), (int)((j + 0.5) / K * RAND_MAX)};
                if (pern == 1) g_script = {(int)((i * (double)K + j + 0.5) / ((double)K * K) * RAND_MAX)};
                g_pos = 0;
                if (form == 0) z.push_back(genrandnormal());
                else { Vector v(1); v.RandGaussian(mean, var); z.push_back(v.ObtainReadData()[0]); }
                state();
            }
            eval();
            trace();
            double m = 0, s = 0;
            for (double c : z) m += c;
            m /= z.size();
            for (double c : z) s += (c - m) * (c - m);
            s /= z.size();
            if (!(fabs(m - mean) < 0.02)) violation("distribution:mean", fmt("mean %g instead of %g", m, mean));
            if (!(fabs(s / var - 1) < 0.02)) violation("distribution:variance", fmt("variance %g instead of %g", s, var));
            std::sort(z.begin(), z.end());
            double worst = 0;
            for (size_t i = 0; i < z.size(); i++) worst = std::max(worst, fabs((i + 0.5) / z.size() - Phi((z[i] - mean) / sqrt(var))));
            if (!(worst < 0.01)) violation("distribution:normal", fmt("the distribution function differs by %g", worst));
        }
        g_scripted = false;
    });
}

int main(int argc, char **argv)
{
    /* libraries resolve lazily */
    srand(1);
    rand();
    return run(argc, argv, {{"C22", c22}, {"C23", c23}, {"C24", c24}, {"C26", c26}});
}

/* C18-C21: whole runs of the smooth solvers.  The real solvers run on a smooth test function of every manifold of the zoo;
 * the harness records every evaluation they make and an independent account of the run is kept from that log alone. */
#include "runs.h"

/* the account of a finished first run */
static void account(const Man &m, const SK &k, const Opt &o, const Rec &P, SolversSM *S)
{
    Result r = collect(S);
    const std::string nm = k.name;
    /* forced to go on from an exactly stationary point there is no direction to take: the step is not a number */
    if (P.fbad == 1e300 && o.min > 0) { bool nan = false; for (auto &x : P.fx) nan = nan || !vfin(x); if (nan) for (size_t i = 0; i + 1 < r.gs.size(); i++) if (r.gs[i] == 0) return; }
    auto bad = [&](const std::string &what, const std::string &d) { violation(nm + ":" + what, d); };
    eval(10);
    int n = (int)P.fv.size();
    bool numgrad = P.fonly || P.gonly;
    if (!numgrad) {
        if (r.nf != n) bad("nf", fmt("reports %d cost evaluations, made %d", r.nf, n));
        if (r.ngr != (int)P.gx.size()) bad("ng", fmt("reports %d gradient evaluations, made %d", r.ngr, (int)P.gx.size()));
        if (r.nR != n - 1) bad("nR", fmt("reports %d retractions for %d trial points", r.nR, n - 1));
        if (k.hess && r.nH != P.nhe) bad("nH", fmt("reports %d actions of the Hessian, made %d", r.nH, P.nhe));
    }
    /* the reported point is one that was evaluated, with the reported value */
    int at = -1;
    for (int i = n - 1; i >= 0; i--) if (P.fx[i] == r.x && (at < 0 || P.fv[i] == r.f)) at = i;
    if (at < 0) bad("point", "the reported point was never evaluated");
    else if (!(P.fv[at] == r.f)) bad("value", fmt("reports the value %.15g, at the reported point it is %.15g", r.f, P.fv[at]));
    double gt = gnorm(m, P, r.x);
    if (!(std::fabs(gt - r.ng) <= 1e-9 * (gt + 1e-8))) bad("gradient norm", fmt("reports the gradient norm %.12g, at the reported point it is %.12g", r.ng, gt));
    double g0 = gnorm(m, P, P.fx[0]);
    if (g0 > 0 && !(std::fabs(S->Getnormgfgf0() - r.ng / g0) <= 1e-9 * (1 + r.ng / g0))) bad("relative gradient norm", fmt("reports %.12g instead of %.12g", (double)S->Getnormgfgf0(), r.ng / g0));
    if (r.iter > o.max) bad("limit", fmt("%d iterations, the limit is %d", r.iter, o.max));
    if (o.verbose < ITERRESULT) { if (r.len != 0) bad("series length", "a series is reported although none is recorded"); return; }
    if (r.len != r.iter + 1) { bad("series length", fmt("%d entries for %d iterations", r.len, r.iter)); return; }
    if ((int)r.fs.size() != r.len || (int)r.gs.size() != r.len || (int)r.ts.size() != r.len) { bad("series", "a series is shorter than its length"); return; }
    if (!(r.fs[0] == P.fv[0])) bad("first value", fmt("the value series starts with %.12g instead of %.12g", r.fs[0], P.fv[0]));
    if (!(r.fs[r.iter] == r.f)) bad("last value", fmt("the value series ends with %.12g, reported is %.12g", r.fs[r.iter], r.f));
    if (!(r.gs[r.iter] == r.ng)) bad("last gradient norm", fmt("the gradient series ends with %.12g, reported is %.12g", r.gs[r.iter], r.ng));
    /* the series are the values and gradient norms of evaluated points, in this order */
    size_t j = 0;
    double slackf = 0;
    int rej = 0, last = 0;
    V ts = r.ts;
    for (int i = 0; i <= r.iter; i++) {
        if (i > 0 && k.tr && r.fs[i] == r.fs[i - 1] && r.gs[i] == r.gs[i - 1]) { rej++; continue; }
        /* (several points may have the same value near the minimiser) */
        double g = NAN;
        size_t j1 = j;
        for (; j1 < P.fv.size(); j1++) if (P.fv[j1] == r.fs[i]) { g = gnorm(m, P, P.fx[j1]); if (std::fabs(g - r.gs[i]) <= 1e-9 * (g + 1e-8)) break; }
        if (std::isnan(g)) { bad("value series", fmt("entry %d, %.15g, is no value of an evaluated point after the one before", i, r.fs[i])); break; }
        if (j1 == P.fv.size()) { bad("gradient series", fmt("entry %d is %.12g, the gradient norm at that iterate is %.12g", i, r.gs[i], g)); break; }
        j = j1;
        /* stopping rule: not before it holds */
        bool isc = o.stopk >= 0 ? (o.stopk != 99 && i - rej >= o.stopk) : crit(o, r.fs, r.gs, i, last, i < r.iter ? -1e-9 : 1e-9);
        bool late = ts[i] > o.timebound;
        if (i < r.iter && i >= o.min && (isc || late) && !(o.crit == SM_FUN_REL && o.stopk < 0 && i == 0)) { bad("goes on", fmt("iteration %d fulfils the stopping rule, the run ends after %d", i, r.iter)); break; }
        if (i == r.iter && r.iter < o.max && !isc && !late) {
            bool why = n > 0 && !std::isfinite(P.fv.back());
            if (!k.tr) why = why || ((SolversSMLS *)S)->LSstatus != LSSM_SUCCESS; else why = why || ((SolversSMTR *)S)->Delta < ((SolversSMTR *)S)->minimum_Delta;
            if (!why) bad("no reason", fmt("the run ends after %d of at most %d iterations, the stopping rule does not hold: value %.10g before %.10g, gradient norm %.10g at start %.10g", r.iter, o.max, r.fs[i], r.fs[last], r.gs[i], r.gs[0]));
        }
        last = i;
        (void)slackf;
    }
    if (k.tr && rej && r.iter < o.max && r.gs[r.iter] == r.gs[r.iter - 1] && r.fs[r.iter] == r.fs[r.iter - 1]) {
        bool why = (n > 0 && !std::isfinite(P.fv.back())) || ((SolversSMTR *)S)->Delta < ((SolversSMTR *)S)->minimum_Delta;
        if (o.stopk >= 0 && g_stopk >= 0 && g_stopcalls > g_stopk) why = true; /* it said so */
        if (o.crit == SM_FUN_REL && o.stopk < 0) why = true; /* an accepted step without any change of value */
        if (r.iter == o.min && o.stopk < 0 && o.crit != SM_FUN_REL) why = why || crit(o, r.fs, r.gs, last, last, 1e-9); /* it held before, at least o.min iterations were requested */
        if (!why) bad("no reason", "the run ends after a rejected step");
    }
    if (r.iter < o.min && r.iter < o.max) {
        bool why = n > 0 && !std::isfinite(P.fv.back());
        if (!k.tr) why = why || ((SolversSMLS *)S)->LSstatus != LSSM_SUCCESS; else why = why || ((SolversSMTR *)S)->Delta < ((SolversSMTR *)S)->minimum_Delta;
        if (!why) bad("too early", fmt("ends after %d iterations, at least %d are requested", r.iter, o.min));
    }
    for (int i = 0; i <= r.iter; i++) if (!(ts[i] >= (i ? ts[i - 1] : 0)) || ts[i] > S->GetComTime()) { bad("time series", fmt("entry %d is %.6g, total %.6g", i, ts[i], (double)S->GetComTime())); break; }
    if (o.stopk >= 0) {
        if (g_stoplenbad) bad("stopping function series", "the stopping function is given a series that holds other numbers than values of iterates");
        if (g_stoplen) bad("stopping function length", "the stopping function is given fewer values than there are iterates");
        if (g_stoplast) bad("stopping function value", "the last value the stopping function is given is not that of the iterate it is given");
        if (g_stoppt) bad("stopping function point", "the stopping function is given another point than the newest iterate");
    }
    outcome(hmix(hdbl(r.f), hmix(hdbl(r.ng), r.iter)));
    fam("end", fmt("%s %s", k.tr ? "tr" : "ls", r.iter == o.max ? "limit" : !std::isfinite(P.fv.back()) ? "not finite" : "stopped"));
}
static void one18(const Man &m, const SK &k, const Opt &o, int tgt, double s, int fk, double fbad, int tk)
{
    setcase(fmt("%s %s target %d start %g%s%s", k.name.c_str(), o.str().c_str(), tgt, s, fk >= 0 ? fmt(" evaluation %d gives %g", fk, fbad).c_str() : "", tk >= 0 ? fmt(" evaluation %d takes 100 s", tk).c_str() : ""));
    Rec P;
    target(P, m, tgt, 1);
    P.fk = fk; P.fbad = fbad; P.tk = tk;
    Variable x0 = start(m, tgt, s);
    SolversSM *S = mk(k, &P, &x0);
    apply(S, k, o);
    if (runit(m, k, o, P, S)) account(m, k, o, P, S);
    delete S;
}
static void c18()
{
    bool th = thorough();
    for (int mi = 0; mi < (th ? 5 : 3); mi++) for (auto &k : solvers()) {
        MP mp = named(mi);
        if (!usable(*mp, k)) continue;
        group("report/" + mp->name + "/" + k.name, [&] {
            const Man &m = *mp;
            int ni = k.tr ? 1 : 5, nl = k.tr ? 1 : 4;
            for (int l = 0; l < nl; l++) for (int in = 0; in < ni; in++) for (int c = 0; c < 3; c++) for (int mx : {0, 1, 2, 5, 200}) for (int mn : {0, 2}) {
                if (mn > mx) continue;
                Opt o;
                o.ls = l; o.init = k.tr ? -1 : in; o.crit = c; o.max = mx; o.min = mn;
                for (double s : {0.4, 0.0}) for (int vb : {0, 1, 2, 3}) for (int gap : {1, 3}) {
                    if (vb != 2 && (gap != 1 || in > 1 || mx == 5)) continue;
                    if (s == 0 && (gap != 1 || in > 1)) continue;
                    if (vb == 3 && mx > 5) continue;
                    o.verbose = vb; o.gap = gap;
                    one18(m, k, o, 1, s, -1, 0, -1);
                    if (s != 0 && vb == 2 && gap == 1 && mn == 0 && th) one18(m, k, o, 2, s, -1, 0, -1);
                }
            }
        });
        group("faults/" + mp->name + "/" + k.name, [&] {
            const Man &m = *mp;
            for (int l = 0; l < (k.tr ? 1 : 4); l++) for (int mn : {0, 3}) {
                Opt o;
                o.ls = l; o.max = 30; o.min = mn; o.timebound = 50; o.init = k.tr ? -1 : LSSM_QUADINTMOD;
                for (int fk = 1; fk < (th ? 40 : 16); fk++) {
                    for (double b : {(double)NAN, (double)INFINITY, -(double)INFINITY, 1e300}) one18(m, k, o, 1, 0.4, fk, b, -1);
                    one18(m, k, o, 1, 0.4, -1, 0, fk);
                }
                one18(m, k, o, 1, 0.4, -1, 0, 0);
                for (int sk : {0, 1, 2, 3, 5, 99}) { o.stopk = sk; o.timebound = 1e8; for (double s : {0.4, 0.0}) one18(m, k, o, 1, s, -1, 0, -1); }
            }
        });
    }
}

/* ------------------------------------------------------------------ C19 */
/* manifolds whose retraction exists on part of the tangent space only */
static bool limited(const Man &m)
{
    for (auto &p : m.parts) if (limited(*p)) return true;
    return m.kind.find("SymFixedRankQ") != std::string::npos && m.intr;
}
static void c19()
{
    bool th = thorough();
    std::vector<MP> z = zoo(th ? 1 : 0);
    for (auto &mp : z) for (auto &k : solvers()) {
        if (!usable(*mp, k)) continue;
        group("descent/" + mp->name + "/" + k.name, [&] {
            const Man &m = *mp;
            for (int l = 0; l < (k.tr ? 1 : 4); l++) for (int tgt = 0; tgt < (th ? 4 : 2); tgt++) for (double s : {0.3, 0.05}) {
                Opt o;
                o.ls = l; o.max = 1000;
                setcase(fmt("%s %s target %d start %g", k.name.c_str(), o.str().c_str(), tgt, s));
                Rec P;
                target(P, m, tgt, 0.5);
                Variable x0 = start(m, tgt, s);
                V x0f = flat(x0);
                if (m.defect(x0f) > 1e-8) continue;
                SolversSM *S = mk(k, &P, &x0);
                apply(S, k, o);
                bool ok = runit(m, k, o, P, S);
                auto bad = [&](const std::string &what, const std::string &d) { violation(m.name + ":" + k.name + ":" + what, d); };
                /* the retraction of intrinsic symmetric fixed rank matrices exists only while x x' + x e' + e x' has p positive
                 * eigenvalues; outside the solver meets a value that is not a number and stops there */
                bool outside = ok && limited(m) && !vfin(P.fx.back());
                if (outside) { P.fx.pop_back(); P.fv.pop_back(); fam("outside the domain of the retraction", m.kind); }
                if (ok) {
                    Result r = collect(S);
                    eval(3);
                    for (int i = 1; i < r.len; i++) if (!(r.fs[i] <= r.fs[i - 1] + 1e-13 * (1 + std::fabs(r.fs[i - 1])))) { bad("increase", fmt("iteration %d goes from %.15g to %.15g", i, r.fs[i - 1], r.fs[i])); break; }
                    for (size_t i = 0; i < P.fx.size(); i++) {
                        if (!vfin(P.fx[i]) && limited(m)) { fam("outside the domain of the retraction", m.kind); continue; }
                        double d = m.defect(P.fx[i]);
                        if (!(d <= 1e-7 * (1 + vdot(P.fx[i], P.fx[i])))) { bad("leaves", fmt("trial point %d is off the manifold by %.3g", (int)i, d)); break; }
                    }
                    if (outside) { }
                    else if (!(r.ng / r.gs[0] <= 1e-4) && vfin(r.x) && framejump(m, r.x)) fam("at a jump of the frames", m.kind);
                    else if (!(r.ng / r.gs[0] <= 1e-4)) bad("not converged", fmt("ends after %d iterations with gradient norm %.6g of %.6g, value %.10g, status %d", r.iter, r.ng, r.gs[0], r.f, k.tr ? 0 : (int)((SolversSMLS *)S)->LSstatus));
                    else if (!(r.ng / r.gs[0] <= 1e-6)) fam("loose", k.name);
                    fam("iterations", fmt("%s <=%d", k.name.c_str(), r.iter < 30 ? 30 : r.iter < 100 ? 100 : r.iter < 300 ? 300 : 1000));
                    outcome(hmix(hdbl(r.f), hmix(hdbl(r.ng), r.iter)));
                }
                delete S;
            }
        });
    }
}

/* ------------------------------------------------------------------ C20 */
struct Log { std::vector<V> fx, gx; V fv; Result r; bool ok; };
static Log take(const Man &m, const SK &k, const Opt &o, Rec &P, SolversSM *S)
{
    Log l;
    P.clear();
    l.ok = runit(m, k, o, P, S);
    l.fx = P.fx; l.gx = P.gx; l.fv = P.fv;
    if (l.ok) l.r = collect(S);
    return l;
}
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static bool same(const V &a, const V &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
/* the first difference of two runs, empty if there is none */
static std::string diff(const Log &a, const Log &b, bool counters, bool series)
{
    eval();
    if (a.ok != b.ok) return "only one of the runs ends";
    for (size_t i = 0; i < std::min(a.fx.size(), b.fx.size()); i++) {
        if (!same(a.fx[i], b.fx[i])) return fmt("evaluation %d is at %s instead of %s", (int)i, vshow(b.fx[i]).c_str(), vshow(a.fx[i]).c_str());
        if (!same(a.fv[i], b.fv[i])) return fmt("evaluation %d gives %.17g instead of %.17g", (int)i, b.fv[i], a.fv[i]);
    }
    if (a.fx.size() != b.fx.size()) return fmt("%d evaluations instead of %d", (int)b.fx.size(), (int)a.fx.size());
    if (a.gx.size() != b.gx.size()) return fmt("%d gradients instead of %d", (int)b.gx.size(), (int)a.gx.size());
    for (size_t i = 0; i < a.gx.size(); i++) if (!same(a.gx[i], b.gx[i])) return fmt("gradient %d is taken at another point", (int)i);
    if (!a.ok) return "";
    if (!same(a.r.x, b.r.x) || !same(a.r.f, b.r.f) || !same(a.r.ng, b.r.ng)) return fmt("reports the value %.17g instead of %.17g", b.r.f, a.r.f);
    if (a.r.iter != b.r.iter) return fmt("%d iterations instead of %d", b.r.iter, a.r.iter);
    if (counters && (a.r.nf != b.r.nf || a.r.ngr != b.r.ngr || a.r.nR != b.r.nR || a.r.nV != b.r.nV || a.r.nVp != b.r.nVp || a.r.nH != b.r.nH))
        return fmt("counters nf %d ng %d nR %d nV %d nVp %d nH %d instead of %d %d %d %d %d %d", b.r.nf, b.r.ngr, b.r.nR, b.r.nV, b.r.nVp, b.r.nH, a.r.nf, a.r.ngr, a.r.nR, a.r.nV, a.r.nVp, a.r.nH);
    if (series && (a.r.len != b.r.len || !same(a.r.fs, b.r.fs) || !same(a.r.gs, b.r.gs))) return "the series differ";
    return "";
}
static MP named20(int i)
{
    switch (i) {
    case 5: return fin(mkfre(3, 3, 1));
    case 6: return fin(mkst(3, 2, 4));
    case 7: return fin(mkst(3, 2, 2, "CStiefel"));
    default: return named(i);
    }
}
static std::vector<Opt> opts20(const SK &k)
{
    std::vector<Opt> r;
    if (k.tr) { Opt o; o.max = 40; r.push_back(o); o.max = 3; r.push_back(o); o.max = 40; o.stopk = 2; r.push_back(o); return r; }
    for (int l = 0; l < 4; l++) for (int in = 0; in < 5; in++) for (int np : {1, 3}) {
        if (np == 3 && in > 1) continue;
        Opt o;
        o.ls = l; o.init = in; o.max = 30; o.npre = np; o.acc = 1e-3;
        r.push_back(o);
        if (in == 1 || in == 4) { o.nbb = 3; r.push_back(o); o.nbb = 0; }
        if (in == 1 && l < 2) { o.max = 2; r.push_back(o); }
    }
    return r;
}
static void c20()
{
    bool th = thorough();
    std::vector<SK> ks = solvers(), base;
    for (auto &k : ks) if (k.name == "RSD" || k.name == "RNewton" || k.name == "RCG-HS" || k.name == "LRBFGS-4" || k.name == "RBFGS" || k.name == "RTRSD" || k.name == "RTRNewton" || k.name == "LRTRSR1-4" || th) base.push_back(k);
    for (int mi = 0; mi < (th ? 8 : 6); mi++) for (auto &k : ks) {
        MP mp = named20(mi);
        if (!usable(*mp, k)) continue;
        const std::string pre = mp->name + "/" + k.name;
        auto bad = [&](const std::string &what, const std::string &d) { violation(k.name + ":" + what, d); };
        auto plain = [&](const Opt &o) {
            Rec P; target(P, *mp, 1, 1);
            Variable x0 = start(*mp, 1, 0.4);
            SolversSM *S = mk(k, &P, &x0);
            apply(S, k, o);
            Log l = take(*mp, k, o, P, S);
            delete S;
            return l;
        };
        group("again/" + pre, [&] {
            for (auto &o : opts20(k)) {
                setcase(o.str());
                Log ref = plain(o);
                outcome(hmix(hdbl(ref.r.f), ref.fx.size()));
                /* the same once more; at every verbosity; the start is left alone */
                { std::string d = diff(ref, plain(o), true, true); if (!d.empty()) bad("again", d); }
                for (int vb = 0; vb < 4; vb++) for (int gap : {1, 4}) {
                    if ((vb == 3 && o.max > 30) || (vb < 2 && gap > 1)) continue;
                    if (o.stopk >= 0 && vb < 2) continue;
                    Opt q = o; q.verbose = vb; q.gap = gap;
                    setcase(q.str());
                    std::string d = diff(ref, plain(q), true, vb >= 2);
                    if (!d.empty()) bad("verbosity", d);
                }
                setcase(o.str() + ", start shared with a copy");
                {
                    Rec P; target(P, *mp, 1, 1);
                    Variable x0 = start(*mp, 1, 0.4), other(x0);
                    V before = flat(x0);
                    SolversSM *S = mk(k, &P, &x0);
                    apply(S, k, o);
                    Log l = take(*mp, k, o, P, S);
                    if (!same(flat(x0), before) || !same(flat(other), before)) bad("start", "the initial iterate given by the user is changed");
                    std::string d = diff(ref, l, true, true);
                    if (!d.empty()) bad("shared start", d);
                    Variable res = S->GetXopt();
                    delete S;
                    if (!same(flat(res), ref.r.x)) bad("result", "the result is changed by the end of the solver");
                }
            }
        });
        group("meanwhile/" + pre, [&] {
            for (auto &o : opts20(k)) {
                if (!k.tr && !(o.init < 2 && o.npre == 1 && (th || (o.ls < 2 && o.nbb == 0)))) continue;
                setcase(o.str());
                Log ref = plain(o);
                for (auto &k2 : base) for (int how = 0; how < 4; how++) {
                    if (!usable(*mp, k2)) continue;
                    static const char *hn[] = {"made before it", "made after it", "run between", "run before, still alive"};
                    setcase(o.str() + ", another solver " + k2.name + " " + hn[how]);
                    Rec P; target(P, *mp, 1, 1);
                    Variable x0 = start(*mp, 1, 0.4);
                    Opt o2; o2.max = 3; o2.verbose = 0;
                    SolversSM *S = nullptr, *T = nullptr;
                    if (how == 0 || how == 3) { T = mk(k2, &P, &x0); apply(T, k2, o2); }
                    if (how == 3) { P.clear(); T->Run(); }
                    S = mk(k, &P, &x0); apply(S, k, o);
                    if (how == 1 || how == 2) { T = mk(k2, &P, &x0); apply(T, k2, o2); }
                    if (how == 2) { P.clear(); T->Run(); }
                    Opt oo = o;
                    apply(S, k, oo);
                    Log l = take(*mp, k, o, P, S);
                    std::string d = diff(ref, l, true, true);
                    if (!d.empty()) bad("meanwhile", d);
                    if (how == 0) { /* and the other one after it */
                        P.clear(); T->Run();
                        Log l2; l2.ok = true; l2.fx = P.fx; l2.gx = P.gx; l2.fv = P.fv; l2.r = collect(T);
                        Rec Q; target(Q, *mp, 1, 1);
                        SolversSM *U = mk(k2, &Q, &x0); apply(U, k2, o2);
                        Log l3 = take(*mp, k2, o2, Q, U);
                        std::string e = diff(l3, l2, true, false);
                        if (!e.empty()) violation(k2.name + ":meanwhile", e);
                        delete U;
                    }
                    delete S; delete T;
                }
            }
        });
        group("rerun/" + pre, [&] {
            if (k.kind == K_RW || k.kind == K_RBF || k.kind == K_RB || k.kind == K_TSR) return; /* they start again from the matrix they have */
            for (auto &o : opts20(k)) for (int mx : {1, 3, 30}) {
                if (!th && mx == 3 && o.ls > 0) continue;
                Opt q = o; q.max = mx;
                setcase(q.str() + ", a second run of the same solver");
                Rec P; target(P, *mp, 1, 1);
                Variable x0 = start(*mp, 1, 0.4);
                SolversSM *S = mk(k, &P, &x0);
                apply(S, k, q);
                Log first = take(*mp, k, q, P, S);
                if (!first.ok) { delete S; continue; }
                Variable x1 = S->GetXopt();
                apply(S, k, o);
                for (int len : {-1, 0, 2, 6}) {
                    if (len >= 0 && (k.kind != K_LRB && k.kind != K_LTSR)) continue;
                    if (len >= 0) { if (k.kind == K_LRB) ((LRBFGS *)S)->LengthSY = len; else ((LRTRSR1 *)S)->LengthSY = len; }
                    setcase(q.str() + fmt(", a second run of the same solver, memory %d", len));
                    x1 = S->GetXopt();
                    apply(S, k, o);
                    Log second = take(*mp, k, o, P, S);
                    Rec Q; target(Q, *mp, 1, 1);
                    SolversSM *T = mk(k, &Q, &x1);
                    if (len >= 0) { if (k.kind == K_LRB) ((LRBFGS *)T)->LengthSY = len; else ((LRTRSR1 *)T)->LengthSY = len; }
                    apply(T, k, o);
                    Log ref = take(*mp, k, o, Q, T);
                    std::string d = diff(ref, second, false, true);
                    if (!d.empty()) bad("rerun", d);
                    delete T;
                }
                delete S;
            }
        });
    }
}

int main(int argc, char **argv) { return run(argc, argv, {{"C18", c18}, {"C19", c19}, {"C20", c20}}); }

/* C01 value semantics of the dense storage object, C02 cached data, by breadth-first search over operation histories.
 * Every history is replayed from scratch on real objects next to a deep-copying reference model; states are
 * deduplicated on (shape, type, data, sharing partition, attached data). */
#include "ref.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
#include <deque>
using namespace mc;

struct MV {
    int r = 0, c = 0, n = 1;
    bool cx = false, has = false;
    std::vector<double> d;
    std::map<std::string, MV> f; /* user attached data */
    long len() const { return (long)r * c * n * (cx ? 2 : 1); }
};

enum Op { ASSIGN, COPYCON, WENT, WPART, ZEROS, SCALE, AXPY, RESHAPE, TRANSP, CONJ, RANK1, SUBM, SCALEDID, SETID, COW, GEMM, DIAG, PLUSEQ, SUMTMP, RENEW,
          ADDF, GETF, RMF, LU, CHOL, EIG, EIGU, EXPU, HHR, QR, SVD, SCHUR, RANDU, NMW, GETTMP, FWRITE };
static const char *opname[] = {"assign", "copyctor", "writeEntire", "writePartial", "setZeros", "scale", "axpy", "reshape", "transpose", "conj", "rankone", "subassign",
                               "scaledId", "setIdentity", "copyOnWrite", "gemm", "diagTimes", "plusEq", "sum", "renew", "addField", "getField", "rmField",
                               "LU", "chol", "eig", "eigU", "expU", "HHR", "QR", "SVD", "schur", "rand", "newMemOnWrite", "getDerived", "fieldWrite"};
struct A { Op o; int i, j; };
static std::string show(const std::vector<A> &h)
{
    std::string s;
    for (auto &a : h) s += fmt("%s(%d,%d) ", opname[a.o], a.i, a.j);
    return s;
}

struct World {
    std::vector<Element *> e;
    std::vector<MV> m;
    ~World() { for (auto p : e) delete p; }
};
struct Init { int r, c, n; bool cx; };

static void mfill(MV &m, double base)
{
    m.d.resize(m.len());
    for (long k = 0; k < m.len(); k++) m.d[k] = base + 1.25 * k + (k % 3) * 0.5;
    m.has = true;
}
static void real_fill(Element &E, double base)
{
    double *p = E.ObtainWriteEntireData();
    for (long k = 0; k < E.Getlength(); k++) p[k] = base + 1.25 * k + (k % 3) * 0.5;
}
static void make(World &w, const std::vector<Init> &in)
{
    for (size_t i = 0; i < in.size(); i++) {
        Element *E = new Element(in[i].r, in[i].c, in[i].n, in[i].cx);
        real_fill(*E, 1 + 10 * i);
        MV m; m.r = in[i].r; m.c = in[i].c; m.n = in[i].n; m.cx = in[i].cx;
        mfill(m, 1 + 10 * i);
        w.e.push_back(E);
        w.m.push_back(m);
    }
}
static CM cmOf(const MV &m)
{
    CM R(m.r, m.c * m.n);
    for (size_t i = 0; i < R.a.size(); i++) R.a[i] = m.cx ? cd(m.d[2 * i], m.d[2 * i + 1]) : cd(m.d[i], 0);
    return R;
}
static void setCM(MV &m, const CM &A)
{
    m.r = A.r; m.c = A.c; m.n = 1;
    m.d.resize(m.len());
    for (size_t i = 0; i < A.a.size(); i++) { if (m.cx) { m.d[2 * i] = A.a[i].real(); m.d[2 * i + 1] = A.a[i].imag(); } else m.d[i] = A.a[i].real(); }
}

static bool enabled(const World &w, const A &a)
{
    const MV &x = w.m[a.i], &y = w.m[a.j];
    bool sq = x.r == x.c && x.n == 1 && x.r > 0;
    switch (a.o) {
    case ASSIGN: case COPYCON: return a.i != a.j;
    case SUMTMP: return y.has && x.has && x.len() == y.len() && x.cx == y.cx;
    case AXPY: case PLUSEQ: return x.has && y.has && x.len() == y.len() && x.cx == y.cx;
    case RESHAPE: return x.has;
    case TRANSP: return x.has && x.n == 1;
    case CONJ: return x.has && x.cx;
    case RANK1: case SUBM: return x.has && x.n == 1;
    case SCALEDID: return sq && !x.cx;
    case GEMM: return x.has && y.has && x.cx == y.cx && x.n == 1 && y.n == 1 && x.r == y.r && x.c == y.c && y.r == y.c;
    case DIAG: return x.has && y.has && !x.cx && !y.cx && y.n == 1 && x.n == 1 && y.c == 1 && y.r == x.r && a.i != a.j;
    case GETF: case RMF: case FWRITE: return x.f.count("F") > 0;
    case ADDF: return y.has && !(a.i == a.j && !x.f.empty());
    case LU: case CHOL: case EIG: case EIGU: case EXPU: case SCHUR: case GETTMP: return x.has && sq;
    case HHR: case QR: case SVD: return x.has && x.n == 1;
    case WPART: case SCALE: return x.has;
    default: return true;
    }
}

/* applies the operation to the real objects and to the model */
static void apply(World &w, const A &a, const std::vector<Init> &in)
{
    Element &X = *w.e[a.i];
    Element &Y = *w.e[a.j];
    MV &x = w.m[a.i];
    const MV y = w.m[a.j];
    switch (a.o) {
    case ASSIGN: X = Y; x = y; break;
    case COPYCON: { Element *n = new Element(Y); delete w.e[a.i]; w.e[a.i] = n; x = y; break; }
    case WENT: real_fill(X, 3 + a.j); mfill(x, 3 + a.j); x.f.clear(); break;
    case WPART: X.ObtainWritePartialData()[0] += 1; x.d[0] += 1; x.f.clear(); break;
    case ZEROS: X.SetToZeros(); x.d.assign(x.len(), 0); x.has = true; x.f.clear(); break;
    case NMW: { X.NewMemoryOnWrite(); double *p = X.ObtainWriteEntireData(); for (long k = 0; k < x.len(); k++) p[k] = 2; x.d.assign(x.len(), 2); x.has = true; x.f.clear(); break; }
    case RANDU: { X.RandUnform(5, 5); x.d.assign(x.len(), 5); x.has = true; x.f.clear(); break; }
    case SCALE: X.ScalarTimesThis(2.0); for (auto &v : x.d) v *= 2; x.f.clear(); break;
    case AXPY: X.AlphaXaddThis(0.5, Y); for (size_t k = 0; k < x.d.size(); k++) x.d[k] += 0.5 * y.d[k]; x.f.clear(); break;
    case RESHAPE: {
        int tot = x.r * x.c * x.n;
        int nr, nc, nn;
        if (x.c * x.n == 1) { nr = tot % 2 == 0 ? 2 : 1; nc = tot / nr; nn = 1; }
        else if (x.r > 1 && x.n == 1) { nr = 1; nc = tot; nn = 1; }
        else { nr = tot; nc = 1; nn = 1; }
        X.Reshape(nr, nc, nn); x.r = nr; x.c = nc; x.n = nn; x.f.clear(); break;
    }
    case TRANSP: { X.Transpose(); CM M = adj(cmOf(x)); setCM(x, M); x.f.clear(); break; }
    case CONJ: X.Conj(); for (size_t k = 1; k < x.d.size(); k += 2) x.d[k] = -x.d[k]; x.f.clear(); break;
    case RANK1: {
        CM u(x.r, 1), v(x.c, 1);
        for (int k = 0; k < x.r; k++) u(k, 0) = cd(k + 1, x.cx ? 1 : 0);
        for (int k = 0; k < x.c; k++) v(k, 0) = cd(2 - k, x.cx ? -1 : 0);
        Element U = mk(u, x.cx), V = mk(v, x.cx);
        if (x.cx) { realdpcomplex s = {0.5, 0}; X.HaddRankone(s, U, V); } else X.HaddRankone(0.5, U, V);
        setCM(x, add(cmOf(x), mul(u, tr(v)), 0.5));
        x.f.clear();
        break;
    }
    case SUBM: {
        CM s(1, 1); s(0, 0) = cd(77, x.cx ? 5 : 0);
        X.SubmatrixAssignment(0, 0, x.c - 1, x.c - 1, mk(s, x.cx));
        CM M = cmOf(x); M(0, x.c - 1) = s(0, 0); setCM(x, M);
        x.f.clear();
        break;
    }
    case SCALEDID: X.ScaledIdOPE(3); { setCM(x, scl(eye(x.r), 3)); x.has = true; x.f.clear(); } break;
    case SETID: X.SetToIdentity(); { x.d.assign(x.len(), 0); int s0 = x.r * (x.cx ? 2 : 1); for (int k = 0; k < std::min(x.r, x.c); k++) x.d[k * (x.cx ? 2 : 1) + (long)k * s0] = 1; x.has = true; x.f.clear(); } break;
    case COW: X.CopyOnWrite(); { bool had = x.has; x.f.clear(); if (!had) { X.SetToZeros(); x.d.assign(x.len(), 0); x.has = true; } } break;
    case GEMM: {
        if (x.cx) { realdpcomplex al = {0.5, 0}, be = {2, 0}; X.AlphaABaddBetaThis(al, Y, GLOBAL::N, Element(Y), GLOBAL::C, be); setCM(x, add(scl(cmOf(x), 2), mul(cmOf(y), adj(cmOf(y))), 0.5)); }
        else { X.AlphaABaddBetaThis(0.5, Y, GLOBAL::N, Element(Y), GLOBAL::T, 2); setCM(x, add(scl(cmOf(x), 2), mul(cmOf(y), adj(cmOf(y))), 0.5)); }
        x.f.clear();
        break;
    }
    case DIAG: { Y.DiagTimesM(X); CM M = cmOf(x); for (int i = 0; i < M.r; i++) for (int j = 0; j < M.c; j++) M(i, j) *= y.d[i]; setCM(x, M); x.f.clear(); break; }
    case PLUSEQ: X += Y; for (size_t k = 0; k < x.d.size(); k++) x.d[k] += y.d[k]; x.f.clear(); break;
    case SUMTMP: { X = Y + X; MV z = y; for (size_t k = 0; k < x.d.size(); k++) z.d[k] = y.d[k] + x.d[k]; z.r = x.r; z.c = x.c; z.n = x.n; z.f.clear(); x = z; break; }
    case RENEW: { Element *n = new Element(in[a.i].r, in[a.i].c, in[a.i].n, in[a.i].cx); delete w.e[a.i]; w.e[a.i] = n; MV z; z.r = in[a.i].r; z.c = in[a.i].c; z.n = in[a.i].n; z.cx = in[a.i].cx; x = z; break; }
    case ADDF: { X.AddToFields("F", Y); MV z = y; x.f["F"] = z; break; }
    case GETF: { X = Element(X.Field("F")); MV z = x.f["F"]; x = z; break; }
    case FWRITE: { X.Field("F").ObtainWriteEntireData()[0] = 9; for (long k = 0; k < X.Field("F").Getlength(); k++) X.Field("F").ObtainWriteEntireData()[k] = 9; MV &z = x.f["F"]; z.d.assign(z.len(), 9); z.has = true; z.f.clear(); break; }
    case RMF: X.RemoveFromFields("F"); x.f.erase("F"); break;
    case LU: X.LUdecom(); break;
    case CHOL: X.CholDecom(); break;
    case EIG: X.EigenDecomSym(); break;
    case EIGU: X.EigenDecomSym(GLOBAL::V, GLOBAL::U); break;
    case EXPU: X.ExpSym(GLOBAL::U); break;
    case HHR: X.HHRDecom(); break;
    case QR: X.QRDecom(); break;
    case SVD: X.SVDDecom(); break;
    case SCHUR: X.SchurForm(); break;
    case GETTMP: break;
    }
}

static std::string cmp(const Element &E, const MV &m, const char *what, int depth = 0)
{
    if (E.Getrow() != m.r || E.Getcol() != m.c || E.Getnum() != m.n) return fmt("%s: shape is %dx%dx%d, should be %dx%dx%d", what, (int)E.Getrow(), (int)E.Getcol(), (int)E.Getnum(), m.r, m.c, m.n);
    if (E.Getiscomplex() != m.cx) return fmt("%s: complex flag is %d, should be %d", what, E.Getiscomplex(), m.cx);
    if (E.Getlength() != m.len()) return fmt("%s: length is %ld, should be %ld", what, (long)E.Getlength(), m.len());
    if (!m.has) return "";
    const double *p = E.ObtainReadData();
    if (!p) return fmt("%s: has no data, should have", what);
    for (long k = 0; k < m.len(); k++)
        if (!(std::fabs(p[k] - m.d[k]) <= 1e-9 * (1 + std::fabs(m.d[k])))) return fmt("%s: entry %ld is %g, should be %g", what, k, p[k], m.d[k]);
    return "";
}

/* the sharing structure and attached data of the real objects, as part of the state */
static uint64_t canon(const World &w)
{
    uint64_t h = 99;
    std::map<const void *, int> ids;
    std::function<void(const Element &, int)> go = [&](const Element &E, int d) {
        h = hmix(h, E.Getrow()); h = hmix(h, E.Getcol()); h = hmix(h, E.Getnum()); h = hmix(h, E.Getiscomplex());
        const void *p = E.GetSpace();
        if (!p) h = hmix(h, 0xdead);
        else {
            auto it = ids.find(p);
            if (it == ids.end()) { int id = (int)ids.size(); ids[p] = id; h = hmix(h, id); } else h = hmix(h, it->second);
            for (long k = 0; k < E.Getlength(); k++) h = hdbl(E.GetSpace()[k], h);
            h = hmix(h, E.GetSharedTimes() ? *E.GetSharedTimes() : 0);
        }
        integer nf = E.GetSizeofFields();
        h = hmix(h, nf);
        if (nf && d < 3) {
            std::vector<std::string> names(nf);
            E.ObtainTempNames(names.data());
            for (auto &s : names) { h = hmix(h, hstr(s)); go(E.Field(s), d + 1); }
        }
    };
    for (size_t i = 0; i < w.e.size(); i++) go(*w.e[i], 0);
    for (auto &m : w.m) { h = hmix(h, m.has); h = hmix(h, m.f.size()); }
    return h;
}

/* every derived quantity the object would hand out must belong to its present data */
static std::string derived(Element &E, const MV &m)
{
    if (!m.has || m.n != 1 || m.r == 0) return "";
    CM M = cmOf(m);
    bool big = false;
    for (auto &v : M.a) if (!(std::abs(v) < 1e6)) big = true;
    if (big) return "";
    double tol = 1e-8 * (1 + nrm(M));
    if (E.FieldsExist("_U") && E.FieldsExist("_S") && E.FieldsExist("_Vt")) {
        Element E2(E); E2.SVDDecom();
        CM R = mul(toCM(E2.Field("_U")), mul([&] { CM s = toCM(E2.Field("_S")); CM D(s.r, s.r); for (int i = 0; i < s.r; i++) D(i, i) = s.a[i]; return D; }(), toCM(E2.Field("_Vt"))));
        if (dist(R, M) > tol) return "the singular value decomposition handed out is not that of the present data";
    }
    if (E.FieldsExist("_Q") && E.FieldsExist("_R")) {
        Element E2(E); E2.QRDecom();
        if (dist(mul(toCM(E2.Field("_Q")), toCM(E2.Field("_R"))), M) > tol) return "the QR decomposition handed out is not that of the present data";
    }
    if (E.FieldsExist("_HHR") && E.FieldsExist("_tau")) {
        Element E2(E); E2.HHRDecom();
        Element h = E2.Field("_HHR"), t = E2.Field("_tau");
        if (h.Getrow() != m.r || h.Getcol() != m.c) return "the Householder factors handed out have another shape than the data";
        CM R = toCM(h);
        for (int i = 0; i < R.r; i++) for (int j = 0; j < R.c; j++) if (i > j) R(i, j) = 0;
        Element Re = mk(R, m.cx);
        if (dist(toCM(Re.HHRMtp(h, t, GLOBAL::N, GLOBAL::L)), M) > tol) return "the Householder factors handed out are not those of the present data";
    }
    if (m.r == m.c) {
        if (E.FieldsExist("_LU")) {
            double det = 1;
            { CM T = M; /* only judge well conditioned ones */ CM S = lsolve(T, eye(m.r)); if (!finite(S) || nrm(S) > 1e4) det = 0; }
            if (det != 0) {
                CM b(m.r, 1); for (int i = 0; i < m.r; i++) b(i, 0) = i + 1;
                Element B = mk(b, m.cx);
                Element E2(E);
                if (rdist(toCM(E2 % B), lsolve(M, b)) > 1e-6) return "a linear solve uses factors that are not those of the present data";
            }
        }
        if (E.FieldsExist("_SchurForm") && E.FieldsExist("_SchurVec")) {
            Element E2(E); E2.SchurForm();
            CM Q = toCM(E2.Field("_SchurVec")), T = toCM(E2.Field("_SchurForm"));
            if (dist(mul(Q, mul(T, adj(Q))), M) > tol) return "the Schur form handed out is not that of the present data";
        }
        for (int up = 0; up < 2; up++) {
            if (!E.FieldsExist("_EigVal")) break;
            CM Hm = M;
            for (int i = 0; i < m.r; i++) { Hm(i, i) = Hm(i, i).real(); for (int j = 0; j < m.r; j++) if (up ? i > j : i < j) Hm(i, j) = std::conj(M(j, i)); }
            if (nrm(Hm) > 30) continue;
            Element E2(E);
            CM X = toCM(E2.ExpSym(up ? GLOBAL::U : GLOBAL::L));
            CM R = expm(Hm);
            if (rdist(X, R) > 1e-6) return fmt("the exponential (%s triangle) is not that of the present data", up ? "upper" : "lower");
        }
        if (E.FieldsExist("_L")) {
            /* lower triangle as a Hermitian matrix, judged only when clearly positive definite */
            CM Hm = M;
            for (int i = 0; i < m.r; i++) { Hm(i, i) = Hm(i, i).real(); for (int j = 0; j < m.r; j++) if (i < j) Hm(i, j) = std::conj(M(j, i)); }
            bool pd = true;
            CM L(m.r, m.r);
            for (int j = 0; j < m.r && pd; j++) {
                double s = Hm(j, j).real();
                for (int k = 0; k < j; k++) s -= std::norm(L(j, k));
                if (s < 1e-6) { pd = false; break; }
                L(j, j) = std::sqrt(s);
                for (int i = j + 1; i < m.r; i++) { cd t = Hm(i, j); for (int k = 0; k < j; k++) t -= L(i, k) * std::conj(L(j, k)); L(i, j) = t / L(j, j); }
            }
            if (pd) { Element E2(E); E2.CholDecom(); if (rdist(toCM(E2.Field("_L")), L) > 1e-7) return "the Cholesky factor handed out is not that of the present data"; }
        }
    }
    return "";
}

/* C01: search over histories, oracle = values of every variable.  C02: oracle = attached / derived data too. */
static void search(const std::string &gname, const std::vector<Init> &in, const std::vector<Op> &ops, int depth, bool fields)
{
    int nv = (int)in.size();
    std::vector<A> alpha;
    for (Op o : ops)
        for (int i = 0; i < nv; i++)
            for (int j = 0; j < nv; j++) {
                bool two = o == ASSIGN || o == COPYCON || o == AXPY || o == GEMM || o == DIAG || o == PLUSEQ || o == SUMTMP || o == ADDF;
                if (!two && j != i && !(o == WENT)) continue;
                if (o == WENT && j > 0) continue;
                alpha.push_back({o, i, j});
            }
    for (size_t first = 0; first < alpha.size(); first++) {
        group(fmt("%s/%s(%d,%d)", gname.c_str(), opname[alpha[first].o], alpha[first].i, alpha[first].j), [&] {
            std::unordered_set<uint64_t> seen;
            std::deque<std::vector<A>> q;
            q.push_back({});
            bool root = true;
            int maxd = 0;
            while (!q.empty()) {
                std::vector<A> h = q.front();
                q.pop_front();
                for (size_t k = 0; k < alpha.size(); k++) {
                    if (root && k != first) continue;
                    std::vector<A> h2 = h;
                    h2.push_back(alpha[k]);
                    setcase(show(h2));
                    size_t before = __sanitizer_get_current_allocated_bytes();
                    bool bad = false, ok = true;
                    uint64_t st = 0;
                    {
                        World w;
                        make(w, in);
                        for (auto &a : h) apply(w, a, in);
                        if (!enabled(w, alpha[k])) ok = false;
                        if (ok) {
                            apply(w, alpha[k], in);
                            trans();
                            for (int v = 0; v < nv && !bad; v++) {
                                std::string e = cmp(*w.e[v], w.m[v], v == alpha[k].i ? "the target" : "another variable");
                                eval();
                                if (e != "") { bad = true; violation(fmt("value:%s:%s", opname[alpha[k].o], v == alpha[k].i ? "target" : "bystander"), e); }
                                if (!bad && fields) {
                                    bool has = w.e[v]->FieldsExist("F"), must = w.m[v].f.count("F") > 0;
                                    if (has && !must) { bad = true; violation(fmt("stale-attached:%s", opname[alpha[k].o]), "data attached to an older value is still attached"); }
                                    else if (!has && must) { bad = true; violation(fmt("lost-attached:%s", opname[alpha[k].o]), "attached data vanished although the value did not change"); }
                                    else if (must) {
                                        std::string e2 = cmp(w.e[v]->Field("F"), w.m[v].f["F"], "attached data");
                                        if (e2 != "") { bad = true; violation(fmt("attached-value:%s", opname[alpha[k].o]), e2); }
                                    }
                                    if (!bad) {
                                        std::string e3 = derived(*w.e[v], w.m[v]);
                                        eval();
                                        if (e3 != "") { bad = true; violation(fmt("stale-derived:%s", opname[alpha[k].o]), e3); }
                                    }
                                }
                            }
                            st = canon(w);
                            outcome(st);
                        }
                    }
                    if (ok && !bad) {
                        trace();
                        size_t after = __sanitizer_get_current_allocated_bytes();
                        (void)before; (void)after;
                    }
                    if (ok && !bad && seen.insert(st).second) {
                        state();
                        maxd = std::max(maxd, (int)h2.size());
                        if ((int)h2.size() < depth) q.push_back(h2);
                        if (h2.size() == 3) sample(S().curgroup + ": " + show(h2));
                    }
                }
                root = false;
            }
            fam(gname, "states", seen.size());
            fam(gname, "maxdepth", maxd);
        }, 600);
    }
}

/* memory: complete histories (no dedup) end with every object destroyed and no byte left */
static void leakcheck(const std::string &gname, const std::vector<Init> &in, const std::vector<Op> &ops, int depth)
{
    int nv = (int)in.size();
    std::vector<A> alpha;
    for (Op o : ops) for (int i = 0; i < nv; i++) for (int j = 0; j < nv; j++) {
        bool two = o == ASSIGN || o == COPYCON || o == AXPY || o == ADDF || o == SUMTMP;
        if (!two && j != i) continue;
        alpha.push_back({o, i, j});
    }
    for (size_t first = 0; first < alpha.size(); first++) {
        group(fmt("%s-mem/%s(%d,%d)", gname.c_str(), opname[alpha[first].o], alpha[first].i, alpha[first].j), [&] {
            std::vector<int> idx(depth, 0);
            idx[0] = (int)first;
            auto once = [&](const std::vector<int> &ix) {
                World w;
                make(w, in);
                for (int k : ix) { if (!enabled(w, alpha[k])) return false; apply(w, alpha[k], in); }
                return true;
            };
            for (int warm = 0; warm < 2; warm++) once({(int)first});
            while (true) {
                std::vector<A> h;
                h.reserve(depth);
                for (int k : idx) h.push_back(alpha[k]);
                std::string cs = show(h);
                setcase(cs);
                std::vector<int> ix = idx;
                size_t before = __sanitizer_get_current_allocated_bytes();
                bool ok = once(ix);
                size_t after = __sanitizer_get_current_allocated_bytes();
                if (ok) {
                    trace(); trans(depth); state(); eval();
                    if (after > before) violation(fmt("leak:%s", opname[alpha[idx[depth - 1]].o]), fmt("%zu bytes are never released after every object of the history is destroyed", after - before));
                    if (after < before) violation(fmt("overfree:%s", opname[alpha[idx[depth - 1]].o]), "more released than allocated");
                }
                int p = depth - 1;
                while (p > 0 && idx[p] + 1 >= (int)alpha.size()) { idx[p] = 0; p--; }
                if (p == 0) break;
                idx[p]++;
            }
        }, 600);
    }
}

/* every pair of shapes and number types x every state of both sides: one assignment or copy construction, then every party
 * and every other holder of the data is compared, written to and compared again */
static void pairs(const std::string &gname, int maxr, int maxc, int maxn)
{
    std::vector<Init> sh;
    for (int cx = 0; cx < 2; cx++) for (int r = 0; r <= maxr; r++) for (int c = 0; c <= maxc; c++) for (int n = 0; n <= maxn; n++) {
        if ((r == 0) + (c == 0) + (n == 0) > 1) continue;
        sh.push_back({r, c, n, cx != 0});
    }
    sh.push_back({0, 0, 0, false});
    for (size_t i = 0; i < sh.size(); i++)
        group(fmt("%s/%dx%dx%d%s", gname.c_str(), sh[i].r, sh[i].c, sh[i].n, sh[i].cx ? "c" : ""), [&] {
            for (size_t j = 0; j < sh.size(); j++)
                for (int st = 0; st < 3; st++)          /* source: without data, sole owner, sharing */
                    for (int tt = 0; tt < 4; tt++)      /* target: without data, sole owner, sharing with a third, sharing with the source */
                        for (int wr = 0; wr < 2; wr++) { /* who is written to afterwards */
                            setcase(fmt("to %dx%dx%d%s source state %d target state %d write %s", sh[j].r, sh[j].c, sh[j].n, sh[j].cx ? "c" : "", st, tt, wr ? "target" : "source"));
                            Element src(sh[i].r, sh[i].c, sh[i].n, sh[i].cx), dst(sh[j].r, sh[j].c, sh[j].n, sh[j].cx), s3, t3;
                            MV ms, md, ms3, mt3;
                            ms.r = sh[i].r; ms.c = sh[i].c; ms.n = sh[i].n; ms.cx = sh[i].cx;
                            md.r = sh[j].r; md.c = sh[j].c; md.n = sh[j].n; md.cx = sh[j].cx;
                            ms3.n = mt3.n = 0;
                            if (st) { real_fill(src, 2); mfill(ms, 2); }
                            if (tt) { real_fill(dst, 50); mfill(md, 50); }
                            if (st == 2) { s3 = src; ms3 = ms; }
                            if (tt == 2) { t3 = dst; mt3 = md; }
                            if (tt == 3) { dst = src; md = ms; }
                            dst = src; md = ms;
                            trans(2); state();
                            for (int phase = 0; phase < 2; phase++) {
                                const Element *E[4] = {&src, &dst, &s3, &t3};
                                const MV *M[4] = {&ms, &md, &ms3, &mt3};
                                static const char *nm[] = {"the source", "the target", "a holder of the source's data", "a holder of the target's former data"};
                                for (int q = 0; q < 4; q++) {
                                    std::string e = cmp(*E[q], *M[q], nm[q]);
                                    eval();
                                    if (e != "") violation(fmt("pair:%s:%s", phase ? "write" : "assign", nm[q]), e);
                                }
                                if (phase) break;
                                Element &W = wr ? dst : src;
                                MV &mw = wr ? md : ms;
                                if (!mw.has || !mw.len()) break;
                                W.ObtainWritePartialData()[mw.len() - 1] += 1;
                                mw.d[mw.len() - 1] += 1;
                            }
                            trace();
                            outcome(hmix(hmix(hmix(i, j), st), tt));
                        }
        });
}

static void C01()
{
    pairs("pairs", 3, thorough() ? 3 : 2, 2);
    std::vector<Op> ops = {ASSIGN, COPYCON, WENT, WPART, ZEROS, SCALE, AXPY, RESHAPE, TRANSP, CONJ, RANK1, SUBM, SCALEDID, SETID, COW, GEMM, DIAG, PLUSEQ, SUMTMP, RENEW, NMW};
    int d = thorough() ? 5 : 4;
    search("real2x2", {{2, 2, 1, false}, {2, 2, 1, false}}, ops, d, false);
    search("real-shapes", {{2, 2, 1, false}, {2, 1, 1, false}}, ops, d, false);
    search("complex2x2", {{2, 2, 1, true}, {2, 2, 1, true}}, ops, d, false);
    search("real-complex", {{2, 2, 1, false}, {1, 2, 1, true}}, ops, d, false);
    search("tensor", {{2, 2, 2, false}, {4, 2, 1, false}}, ops, d, false);
    search("tensor-same-rows", {{2, 2, 2, false}, {2, 2, 1, false}}, {ASSIGN, COPYCON, WENT, WPART, SCALE, RESHAPE, COW, RENEW}, d, false);
    search("three", {{2, 2, 1, false}, {2, 2, 1, false}, {2, 2, 1, false}}, {ASSIGN, COPYCON, WPART, ZEROS, AXPY, RESHAPE, SUBM, RANK1, COW, RENEW}, d, false);
    search("three-complex", {{2, 1, 1, true}, {1, 2, 1, true}, {2, 2, 1, false}}, {ASSIGN, COPYCON, WPART, CONJ, RESHAPE, SUBM, RANK1, RENEW}, d, false);
    std::vector<Op> lops = {ASSIGN, COPYCON, WENT, WPART, ZEROS, AXPY, RESHAPE, TRANSP, SUMTMP, RENEW, ADDF, GETF, LU, SVD};
    leakcheck("real", {{2, 2, 1, false}, {2, 2, 1, false}}, lops, thorough() ? 4 : 3);
    leakcheck("mixed", {{2, 2, 1, false}, {1, 3, 1, true}}, lops, thorough() ? 4 : 3);
}

static void C02()
{
    std::vector<Op> mut = {ASSIGN, COPYCON, WENT, WPART, ZEROS, RANDU, NMW, SCALE, AXPY, RESHAPE, TRANSP, RANK1, SUBM, SCALEDID, SETID, COW, GEMM, DIAG, PLUSEQ, SUMTMP};
    std::vector<Op> mutc = mut;
    mutc.push_back(CONJ);
    auto with = [](std::vector<Op> a, std::vector<Op> b) { a.insert(a.end(), b.begin(), b.end()); return a; };
    int d = thorough() ? 4 : 3;
    search("attached-real", {{2, 2, 1, false}, {2, 2, 1, false}}, with(mut, {ADDF, GETF, RMF, FWRITE}), d, true);
    search("attached-mixed", {{2, 2, 1, false}, {1, 2, 1, true}}, with(mutc, {ADDF, GETF, RMF, FWRITE}), d, true);
    std::vector<Op> dec = {LU, CHOL, EIG, EIGU, EXPU, HHR, QR, SVD, SCHUR};
    search("derived-real", {{2, 2, 1, false}, {2, 2, 1, false}}, with(mut, dec), d, true);
    search("derived-complex", {{2, 2, 1, true}, {2, 2, 1, true}}, with(mutc, dec), d, true);
    search("derived-3x2", {{3, 2, 1, false}, {2, 3, 1, false}}, with(mut, {HHR, QR, SVD}), d, true);
    search("derived-c3x2", {{3, 2, 1, true}, {2, 3, 1, true}}, with(mutc, {HHR, QR, SVD}), d, true);
}

int main(int argc, char **argv) { return run(argc, argv, {{"C01", C01}, {"C02", C02}}); }

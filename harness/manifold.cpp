/* C07-C11, C13-C15: the manifolds.  Every manifold x parameter set x representation of the zoo (man.h), at every point of
 * the finite family; every check that is linear in a tangent vector or operator runs over a complete basis, the others
 * over complete bases times scales and generic combinations.  Oracles: definitions on plain numbers and difference
 * quotients of the retraction. */
#include "qf.h"
using namespace mc;

static const double FDT = 2e-6;  /* tolerance against difference quotients (relative) */
static const double TOL = 1e-8;  /* tolerance for identities (relative) */

static void viol(const Man &m, const std::string &what, const std::string &detail) { violation(m.name + ":" + what, detail); }
#define CHECKD(m, cond, what, ...) do { eval(); if (!(cond)) viol(m, what, fmt(__VA_ARGS__)); } while (0)

struct Dir { V c; std::string n; };
static std::vector<Dir> dirs(int n, bool scales)
{
    std::vector<Dir> d;
    for (int i = 0; i < n; i++) {
        d.push_back({ecoef(n, i), fmt("e%d", i)});
        if (scales) { d.push_back({ecoef(n, i, -0.3), fmt("-0.3e%d", i)}); d.push_back({ecoef(n, i, 1e-3), fmt("1e-3e%d", i)}); }
    }
    for (int k = 0; k < 3; k++) {
        d.push_back({gcoef(n, k, 0.4), fmt("g%d", k)});
        if (scales) { d.push_back({gcoef(n, k, 0.05), fmt("0.05g%d", k)}); d.push_back({gcoef(n, k, 1.5), fmt("1.5g%d", k)}); }
    }
    return d;
}
static void foreach(const std::function<void(Man &)> &body, bool small = false)
{
    std::vector<MP> z = zoo((thorough() ? 1 : 0) + (small ? 0 : 1));
    if (thorough()) for (auto &m : z) m->npts = small ? 5 : 10;
    for (auto &m : z) {
        Man *p = m.get();
        group(p->name, [&] { body(*p); trace(); });
    }
}
static std::string cs(int k, const std::string &d = "") { return fmt("point %d %s", k, d.c_str()); }

/* ------------------------------------------------------------------ C07 */
static void c07()
{
    foreach([](Man &m) {
        bool intr0 = m.M->GetIsIntrinsic();
        for (int k = 0; k < m.npts; k++) {
            setcase(cs(k));
            Variable x = m.pt(k);
            V xf = flat(x);
            if (m.defect(xf) > 1e-9) { viol(m, "harness", fmt("the family point is not on the manifold: %g", m.defect(xf))); return; }
            state();
            Basis b = basis(m, x);
            { /* zero vector */
                Vector z = zerov(m);
                if (!m.intr) z = fromext(m, x, V(m.extlen, 0.0));
                Variable y = retr(m, x, z);
                trans();
                CHECKD(m, vrel(m.inv(flat(y)), m.inv(xf)) < TOL, "zero", "R(0) is %s instead of the point %s", vshow(flat(y)).c_str(), vshow(xf).c_str());
            }
            for (auto &d : dirs(b.n, true)) {
                setcase(cs(k, d.n));
                Vector e = tvec(m, x, b, d.c);
                V ef = flat(e), ex = flat(extof(m, x, e));
                if (!indomain(m, xf, ex)) { fam("skipped", "outside the domain of the retraction"); continue; }
                Variable y = retr(m, x, e);
                trans();
                double df = m.defect(flat(y));
                CHECKD(m, df < 1e-8 * (1 + vnrm(flat(y))), "offmanifold", "R(%s) leaves the manifold by %g", d.n.c_str(), df);
                CHECKD(m, vdist(flat(x), xf) == 0 && vdist(flat(e), ef) == 0, "modified", "the retraction changed the point or the tangent vector");
                CHECKD(m, m.M->GetIsIntrinsic() == intr0, "mode", "the retraction changed the representation flag");
                for (auto &p : m.parts) if (m.kind == "Product") CHECKD(m, p->M->GetIsIntrinsic() == p->intr, "partmode", "the retraction changed the representation of a factor");
                outcome(hdbl(vnrm(flat(y)), hstr(m.name)));
                /* velocity */
                double h = 1e-4 / std::max(1.0, vnrm(ex));
                V yp = flat(retr(m, x, scaled(m, x, e, h))), ym = flat(retr(m, x, scaled(m, x, e, -h)));
                V fd = vscl(vadd(m.inv(yp), m.inv(ym), -1), 1 / (2 * h)), di = m.dinv(xf, ex);
                CHECKD(m, vdist(fd, di) < FDT * (1 + vnrm(di)), "velocity", "d/dt R(t %s) at 0 is %s, the tangent vector is %s", d.n.c_str(), vshow(fd).c_str(), vshow(di).c_str());
                if (m.hasinv && vnrm(ex) < 0.8) {
                    Vector r = fresh(m);
                    m.M->InvRetraction(x, y, &r);
                    CHECKD(m, vrel(flat(r), ef) < 1e-7, "inverse", "the inverse retraction of R(%s) is %s instead of %s", d.n.c_str(), vshow(flat(r)).c_str(), vshow(ef).c_str());
                }
                if (m.rdist && vnrm(ex) > 1e-2) {
                    /* distance: zero at equal points, symmetric, agrees with the length of the tangent vector to first order */
                    double h1 = 1e-4, nr = std::sqrt(m.metric(xf, ex, ex));
                    Variable z = retr(m, x, scaled(m, x, e, h1));
                    double d1 = m.M->Dist(x, z), d2 = m.M->Dist(z, x), d0 = m.M->Dist(x, x);
                    CHECKD(m, std::fabs(d1 / h1 - nr) < 1e-3 * (1 + nr), "dist", "the distance to R(h %s) is %g, the length is %g", d.n.c_str(), d1, h1 * nr);
                    CHECKD(m, std::fabs(d1 - d2) < 1e-7 && d0 < 1e-6, "distsym", "distances %g %g, to itself %g", d1, d2, d0);
                    if (m.exp && nr < 1.5 && m.kind != "Sphere" && m.kind != "SphereTx") { double dd = m.M->Dist(x, y); CHECKD(m, std::fabs(dd - nr) < 1e-6 * (1 + nr), "geodist", "distance %g along a geodesic of length %g", dd, nr); }
                }
            }
        }
        std::set<uint64_t> seen;
        for (int s = 0; s < 6; s++) {
            setcase(fmt("random point, seed %d", s));
            genrandseed(s);
            Variable r = m.kind == "SphereTx" ? m.M->RandominManifold() : m.M->RandominManifold();
            V rf = flat(r);
            trans(); state();
            CHECKD(m, m.defect(rf) < 1e-8 * (1 + vnrm(rf)), "random", "the random point is off the manifold by %g", m.defect(rf));
            genrandseed(s);
            Variable r2 = m.M->RandominManifold();
            CHECKD(m, vdist(flat(r2), rf) == 0, "randomrepeat", "the same seed gives two random points");
            if (m.kind == "FixedRankE" && vfin(rf)) {
                CM X = mul(mul(toCM(r.Field("U")), toCM(r.Field("D"))), adj(toCM(r.Field("V"))));
                CHECKD(m, dist(X, toCM(r)) < 1e-9, "factors", "the factors of the random point are not its factors");
            }
        }
    });
}

/* ------------------------------------------------------------------ C08 */
static void c08()
{
    foreach([](Man &m) {
        for (int k = 0; k < m.npts; k++) {
            setcase(cs(k));
            Variable x = m.pt(k);
            V xf = flat(x);
            state();
            Basis b = basis(m, x);
            int dim = m.dim >= 0 ? m.dim : m.M->GetIntrDim();
            CHECKD(m, b.n == dim, "dimension", "the tangent space found has dimension %d, expected %d", b.n, dim);
            if (m.dim >= 0 && m.kind != "Product") CHECKD(m, m.M->GetIntrDim() == m.dim, "intrdim", "the reported dimension is %d, the dimension %d", (int)m.M->GetIntrDim(), m.dim);
            if (m.kind != "Product" && m.kind != "SphereTx") CHECKD(m, m.M->GetExtrDim() == m.extlen, "extrdim", "the reported extrinsic dimension is %d, the number of real coordinates %d", (int)m.M->GetExtrDim(), m.extlen);
            /* projection of the complete basis of the ambient space and of generic vectors */
            std::vector<V> av;
            for (int i = 0; i < m.extlen; i++) av.push_back(ecoef(m.extlen, i));
            for (int q = 0; q < 3; q++) av.push_back(gcoef(m.extlen, 50 + q));
            std::vector<V> pr;
            bool own = m.kind == "SphereTx";
            for (size_t i = 0; i < av.size(); i++) {
                setcase(cs(k, fmt("ambient vector %d", (int)i)));
                Vector a = amb(m, av[i]);
                Vector p = freshx(m);
                if (own) m.M->Projection(x, a, &p); else m.M->ExtrProjection(x, a, &p);
                trans();
                V pf = flat(p);
                pr.push_back(pf);
                outcome(hdbl(vnrm(pf), hstr(m.name, k)));
                CHECKD(m, vdist(flat(a), av[i]) == 0 && vdist(flat(x), xf) == 0, "modified", "the projection changed its argument");
                double td = m.tangdefect(xf, pf);
                CHECKD(m, td < TOL * (1 + vnrm(pf) * (1 + vnrm(xf))), "nottangent", "the projection of %s is off the tangent space by %g", vshow(av[i]).c_str(), td);
                Vector p2 = freshx(m);
                if (own) m.M->Projection(x, p, &p2); else m.M->ExtrProjection(x, p, &p2);
                CHECKD(m, vrel(flat(p2), pf) < TOL, "idempotent", "projecting a tangent vector changes it from %s to %s", vshow(pf).c_str(), vshow(flat(p2)).c_str());
                if (!m.intr)
                    for (int j = 0; j < b.n; j++) {
                        double ip = m.metric(xf, vadd(av[i], pf, -1), b.ext[j]);
                        CHECKD(m, std::fabs(ip) < 1e-7 * (1 + vnrm(av[i])) * (1 + vnrm(xf)), "orthogonal", "the removed part has inner product %g with tangent vector %d", ip, j);
                    }
                if (m.kind == "FixedRankE") {
                    CM X = add(add(mul(mul(toCM(x.Field("U")), toCM(p.Field("dD"))), adj(toCM(x.Field("V")))), mul(mul(toCM(p.Field("dU")), toCM(x.Field("D"))), adj(toCM(x.Field("V"))))), mul(mul(toCM(x.Field("U")), toCM(x.Field("D"))), adj(toCM(p.Field("dV")))));
                    CHECKD(m, rdist(X, toCM(p)) < TOL && nrm(mul(adj(toCM(x.Field("U"))), toCM(p.Field("dU")))) < TOL * (1 + vnrm(pf)) && nrm(mul(adj(toCM(x.Field("V"))), toCM(p.Field("dV")))) < TOL * (1 + vnrm(pf)), "factors", "the factors of the projection do not represent it");
                }
                if (m.opentotal) { /* the removed part does not move the represented point */
                    V d1 = m.dinv(xf, av[i]), d2 = m.dinv(xf, pf);
                    CHECKD(m, vdist(d1, d2) < 1e-7 * (1 + vnrm(d1)), "vertical", "the removed part is not vertical");
                }
            }
            for (int q = 0; q < 3; q++) { /* linear */
                V s(m.extlen, 0.0);
                for (int i = 0; i < m.extlen; i++) s = vadd(s, pr[i], av[m.extlen + q][i]);
                CHECKD(m, vrel(s, pr[m.extlen + q]) < TOL, "linear", "the projection is not linear");
            }
            { /* Projection in the representation in use keeps tangent vectors */
                for (int i = 0; i < b.n; i++) {
                    Vector r = fresh(m);
                    m.M->Projection(x, b.e[i], &r);
                    CHECKD(m, vrel(flat(r), b.rep[i]) < TOL, "keeps", "Projection changes a tangent vector");
                }
            }
            /* metric of the representation in use against the definition */
            for (int i = 0; i < b.n; i++) for (int j = 0; j < b.n; j++) {
                setcase(cs(k, fmt("metric %d %d", i, j)));
                double g = m.M->Metric(x, b.e[i], b.e[j]), r = m.metric(xf, b.ext[i], b.ext[j]);
                trans();
                CHECKD(m, std::fabs(g - r) < 1e-8 * (1 + std::fabs(r)), "metric", "the inner product is %g, by definition %g", g, r);
            }
            if (m.hasIE && m.intr) {
                for (int i = 0; i < b.n; i++) {
                    setcase(cs(k, fmt("intrinsic basis vector %d", i)));
                    double td = m.tangdefect(xf, b.ext[i]);
                    CHECKD(m, td < TOL * (1 + vnrm(b.ext[i]) * (1 + vnrm(xf))), "extrtangent", "the extrinsic form of an intrinsic vector is off the tangent space by %g", td);
                    Vector ev = extof(m, x, b.e[i]);
                    Vector r = fresh(m);
                    m.M->ObtainIntr(x, ev, &r);
                    trans();
                    CHECKD(m, vrel(flat(r), b.rep[i]) < TOL, "roundtrip", "intrinsic -> extrinsic -> intrinsic gives %s for %s", vshow(flat(r)).c_str(), vshow(b.rep[i]).c_str());
                    CHECKD(m, vdist(flat(ev), b.ext[i]) == 0 && vdist(flat(x), xf) == 0, "convmodified", "a conversion changed its argument");
                }
                for (size_t i = 0; i < av.size(); i++) {
                    setcase(cs(k, fmt("projected ambient vector %d", (int)i)));
                    Vector a = amb(m, av[i]);
                    Vector p = freshx(m);
                    m.M->ExtrProjection(x, a, &p);
                    Vector in = fresh(m);
                    m.M->ObtainIntr(x, p, &in);
                    Vector back = freshx(m);
                    m.M->ObtainExtr(x, in, &back);
                    trans();
                    CHECKD(m, vrel(flat(back), flat(p)) < TOL, "roundtrip2", "extrinsic -> intrinsic -> extrinsic gives %s for %s", vshow(flat(back)).c_str(), vshow(flat(p)).c_str());
                }
                /* a cold point: converting back first */
                Variable x2 = m.pt(k);
                Vector e2 = freshx(m);
                m.M->ObtainExtr(x2, b.e[0], &e2);
                CHECKD(m, vrel(flat(e2), b.ext[0]) < TOL, "cold", "the extrinsic form differs at a fresh copy of the point");
            }
            /* normal vectors */
            if (m.normal) {
                int nd = m.extlen - dim;
                if (nd > 0) for (size_t i = 0; i < av.size(); i++) {
                    setcase(cs(k, fmt("normal vector %d", (int)i)));
                    V nf = vadd(av[i], pr[i], -1);
                    Vector nv = amb(m, nf);
                    Vector in(nd);
                    setflat(in, V(nd, NAN));
                    m.M->ObtainNorVerIntr(x, nv, &in);
                    Vector back = freshx(m);
                    m.M->ObtainNorVerExtr(x, in, &back);
                    trans();
                    CHECKD(m, vrel(flat(back), nf) < TOL, "normalroundtrip", "a normal vector %s comes back as %s", vshow(nf).c_str(), vshow(flat(back)).c_str());
                    CHECKD(m, std::fabs(vnrm(flat(in)) - vnrm(nf)) < TOL * (1 + vnrm(nf)), "normaliso", "the normal coordinates have norm %g instead of %g", vnrm(flat(in)), vnrm(nf));
                }
            }
        }
    });
}

/* ------------------------------------------------------------------ C09 */
static bool byprojection(const Man &m)
{
    if (auto *p = dynamic_cast<SymFixedRankQ *>(m.M)) return p->VecTran == SFRANKQPROJECTION;
    if (auto *p = dynamic_cast<CSymFixedRankQ *>(m.M)) return p->VecTran == CSFRANKQPROJECTION;
    if (m.kind == "Stiefel") return dynamic_cast<Stiefel *>(m.M)->VecTran == STIE_PROJECTION;
    if (auto *p = dynamic_cast<CStiefel *>(m.M)) return p->VecTran == CSTIE_PROJECTION;
    return false;
}
static void c09()
{
    foreach([](Man &m) {
        for (int k = 0; k < m.npts; k++) {
            Variable x0 = m.pt(k);
            V xf = flat(x0);
            Basis b = basis(m, x0);
            std::vector<Dir> ds = {{gcoef(b.n, 0, 0.4), "g0"}, {gcoef(b.n, 1, 0.1), "0.1g1"}, {gcoef(b.n, 2, 1.0), "g2"}};
            for (int i = 0; i < b.n; i++) ds.push_back({ecoef(b.n, i, 0.5), fmt("0.5e%d", i)});
            bool hhr = m.M->GetHasHHR();
            if (!hhr) ds.push_back({V(b.n, 0.0), "zero"});
            if (b.n == 0) continue;
            for (auto &d : ds) {
                setcase(cs(k, d.n));
                Variable x = m.pt(k);
                Vector e = tvec(m, x, b, d.c);
                V ex = flat(extof(m, x, e));
                if (!indomain(m, xf, ex)) continue;
                Variable y = retr(m, x, e);
                V yf = flat(y);
                if (m.defect(yf) > 1e-8 || !vfin(yf)) continue; /* C07 */
                state();
                if (hhr) { Vector dr = fresh(m); m.M->DiffRetraction(x, e, y, e, &dr, true); }
                Basis by = basis(m, y);
                std::vector<V> T;
                std::vector<Vector> TV;
                for (int i = 0; i < b.n; i++) {
                    Vector r = fresh(m);
                    m.M->VectorTransport(x, e, y, b.e[i], &r);
                    trans();
                    T.push_back(flat(r)); TV.push_back(r);
                    double td = by.residual(flat(r));
                    CHECKD(m, td < 1e-7 * (1 + vnrm(flat(r))), "nottangent", "the transported vector %d is off the new tangent space by %g", i, td);
                    CHECKD(m, vdist(flat(b.e[i]), b.rep[i]) == 0, "modified", "the transport changed its argument");
                }
                outcome(hdbl(vnrm(T[0]), hstr(m.name, k)));
                for (int q = 0; q < 3; q++) { /* linear */
                    V c = gcoef(b.n, 20 + q);
                    Vector v = tvec(m, x, b, c), r = fresh(m);
                    m.M->VectorTransport(x, e, y, v, &r);
                    V s(T[0].size(), 0.0);
                    for (int i = 0; i < b.n; i++) s = vadd(s, T[i], c[i]);
                    CHECKD(m, vrel(flat(r), s) < 1e-7, "linear", "the transport of a combination differs from the combination of the transports");
                }
                { /* zero vector */
                    Vector z = m.intr ? zerov(m) : fromext(m, x, V(m.extlen, 0.0)), r = fresh(m);
                    m.M->VectorTransport(x, e, y, z, &r);
                    CHECKD(m, vnrm(flat(r)) < TOL, "zerovector", "the zero vector is transported to %s", vshow(flat(r)).c_str());
                }
                if (d.n == "zero") for (int i = 0; i < b.n; i++) CHECKD(m, vrel(flat(extof(m, y, TV[i])), b.ext[i]) < 1e-7 || m.quotient || m.intr, "identity", "the transport along zero changes a vector");
                /* what the selected transport is: coordinates kept, or the projection onto the new tangent space */
                if (m.parallelization && m.intr && !hhr) for (int i = 0; i < b.n; i++) CHECKD(m, vrel(flat(TV[i]), b.rep[i]) < 1e-12, "parallelization", "transport by parallelization changes the coordinates %s to %s", vshow(b.rep[i]).c_str(), vshow(flat(TV[i])).c_str());
                if (byprojection(m) && !hhr) for (int i = 0; i < b.n; i++) {
                    Vector pr(m.M->GetEMPTYEXTR()), in = amb(m, b.ext[i]);
                    m.M->ExtrProjection(y, in, &pr);
                    V a = flat(extof(m, y, TV[i])), c = flat(pr);
                    CHECKD(m, vdist(a, c) < 1e-7 * (1 + vnrm(c)), "projection", "transport by projection gives %s, the projection is %s", vshow(a).c_str(), vshow(c).c_str());
                }
                if (m.isodeclared) {
                    for (int i = 0; i < b.n; i++) for (int j = i; j < b.n; j++) {
                        double g0 = m.M->Metric(x, b.e[i], b.e[j]), g1 = m.M->Metric(y, TV[i], TV[j]);
                        CHECKD(m, std::fabs(g0 - g1) < 1e-7 * (1 + std::fabs(g0)), "isometric", "inner product %g becomes %g", g0, g1);
                    }
                    for (int i = 0; i < b.n; i++) {
                        Vector r = fresh(m);
                        m.M->InverseVectorTransport(x, e, y, TV[i], &r);
                        trans();
                        CHECKD(m, vrel(flat(r), b.rep[i]) < 1e-7, "inverse", "the inverse transport of the transport of %s is %s", vshow(b.rep[i]).c_str(), vshow(flat(r)).c_str());
                    }
                    for (int i = 0; i < by.n; i++) {
                        Vector r = fresh(m), r2 = fresh(m);
                        m.M->InverseVectorTransport(x, e, y, by.e[i], &r);
                        m.M->VectorTransport(x, e, y, r, &r2);
                        CHECKD(m, vrel(flat(r2), by.rep[i]) < 1e-7, "inverse2", "transporting the inverse transport of a vector gives another vector");
                    }
                }
                if (m.opetransport) { /* transport of linear operators: all matrix units and a generic one */
                    int L = m.M->GetEMPTY().Getlength();
                    int lim = L * L + 1;
                    if (!thorough() && L * L > 40) lim = 41;
                    for (int w = 0; w < lim; w++) {
                        int wi = (w == lim - 1) ? -1 : (L * L <= lim - 1 ? w : (w * 37) % (L * L));
                        setcase(cs(k, d.n + fmt(" operator %d", wi)));
                        LinearOPE H(L, L), H2(L, L), H3(L, L), H4(L, L);
                        double *hp = H.ObtainWriteEntireData();
                        for (int i = 0; i < L * L; i++) hp[i] = wi < 0 ? gval(i + 9) : (i == wi);
                        V hf = flat(H);
                        m.M->TranHInvTran(x, e, y, H, &H2);
                        trans();
                        CHECKD(m, vdist(flat(H), hf) == 0, "opemodified", "transporting an operator changed it");
                        for (int i = 0; i < b.n; i++) {
                            Vector he = fresh(m), the = fresh(m), l = fresh(m);
                            m.M->LinearOPEEta(x, H, b.e[i], &he);
                            m.M->VectorTransport(x, e, y, he, &the);
                            m.M->LinearOPEEta(y, H2, TV[i], &l);
                            CHECKD(m, vrel(flat(l), flat(the)) < 1e-7, "operator", "(transported H) T e%d = %s, T H e%d = %s", i, vshow(flat(l)).c_str(), i, vshow(flat(the)).c_str());
                        }
                        if ((wi < 0 || w % 7 == 0) && (m.kind != "Product" || hhr || m.parallelization)) { /* one-sided transports are not implemented for products */
                            Vector v = TV[0];
                            m.M->HInvTran(x, e, y, H, 0, L, &H3);
                            m.M->TranH(x, e, y, H, 0, L, &H4);
                            for (int i = 0; i < b.n; i++) {
                                Vector he = fresh(m), l = fresh(m), the = fresh(m), l2 = fresh(m);
                                m.M->LinearOPEEta(x, H, b.e[i], &he);
                                m.M->LinearOPEEta(x, H3, TV[i], &l);
                                CHECKD(m, vrel(flat(l), flat(he)) < 1e-7, "hinvtran", "(H o inverse transport) applied to a transported vector differs from H applied to the vector");
                                m.M->VectorTransport(x, e, y, he, &the);
                                m.M->LinearOPEEta(y, H4, b.e[i], &l2);
                                CHECKD(m, vrel(flat(l2), flat(the)) < 1e-7, "tranh", "(transport o H) differs from the transport of H applied to the vector");
                            }
                        }
                    }
                }
                if (hhr && d.n != "zero") { /* locking condition */
                    setcase(cs(k, d.n + " locking"));
                    Vector dr = fresh(m), te = fresh(m);
                    m.M->DiffRetraction(x, e, y, e, &dr, true);
                    double beta = m.M->Beta(x, e);
                    m.M->VectorTransport(x, e, y, e, &te);
                    double n0 = std::sqrt(m.M->Metric(x, e, e)), n1 = std::sqrt(m.M->Metric(y, dr, dr));
                    CHECKD(m, std::fabs(beta - n0 / n1) < 1e-7 * beta, "beta", "beta is %g, the ratio of the lengths %g", beta, n0 / n1);
                    CHECKD(m, vrel(flat(te), vscl(flat(dr), beta)) < 1e-6, "locking", "transport of the direction %s, beta times the differentiated retraction %s", vshow(flat(te)).c_str(), vshow(vscl(flat(dr), beta)).c_str());
                    /* the solvers ask for the differential of a multiple of the direction, held in another object */
                    for (double sc : {2.0, 0.25}) {
                        setcase(cs(k, d.n + fmt(" locking, differential of %g times the direction", sc)));
                        Vector e2 = tvec(m, x, b, d.c), se = tvec(m, x, b, vscl(d.c, sc)), dr2 = fresh(m), te2 = fresh(m);
                        Variable y2 = x;
                        m.M->Retraction(x, e2, &y2);
                        m.M->DiffRetraction(x, e2, y2, se, &dr2, true);
                        CHECKD(m, vrel(flat(dr2), vscl(flat(dr), sc)) < 1e-6, "scaled differential", "differential of %g times the direction %s, of the direction %s", sc, vshow(flat(dr2)).c_str(), vshow(flat(dr)).c_str());
                        double b2 = m.M->Beta(x, e2);
                        CHECKD(m, std::fabs(b2 - beta) < 1e-7 * beta, "scaled beta", "beta is %g, with the direction itself %g", b2, beta);
                        m.M->VectorTransport(x, e2, y2, e2, &te2);
                        CHECKD(m, vrel(flat(te2), flat(te)) < 1e-6, "scaled locking", "transport of the direction %s, with the direction itself %s", vshow(flat(te2)).c_str(), vshow(flat(te)).c_str());
                    }
                }
            }
        }
    });
}

/* ------------------------------------------------------------------ C10 */
static void c10()
{
    foreach([](Man &m) {
        for (int k = 0; k < m.npts; k++) {
            Variable x = m.pt(k);
            V xf = flat(x);
            Basis b = basis(m, x);
            if (b.n == 0) continue;
            std::vector<Dir> ds = dirs(b.n, false);
            ds.push_back({gcoef(b.n, 4, 0.05), "0.05g4"});
            for (auto &d : ds) {
                setcase(cs(k, d.n));
                Vector e = tvec(m, x, b, d.c);
                V ex = flat(extof(m, x, e));
                if (!indomain(m, xf, ex)) continue;
                Variable y = retr(m, x, e);
                V yf = flat(y);
                if (m.defect(yf) > 1e-8 || !vfin(yf)) continue;
                state();
                auto fdiff = [&](const V &c) {
                    double h = 1e-4 / std::max(1.0, vnrm(c));
                    V p = flat(retr(m, x, tvec(m, x, b, vadd(d.c, c, h)))), q = flat(retr(m, x, tvec(m, x, b, vadd(d.c, c, -h))));
                    return vscl(vadd(m.inv(p), m.inv(q), -1), 1 / (2 * h));
                };
                auto cmp = [&](const Vector &r, const V &fd, const char *what) {
                    V di = m.dinv(yf, flat(extof(m, y, r)));
                    CHECKD(m, vdist(di, fd) < 20 * FDT * (1 + vnrm(fd)), what, "differentiated retraction %s, difference quotient %s", vshow(di).c_str(), vshow(fd).c_str());
                    outcome(hdbl(vnrm(di), hstr(m.name, k)));
                };
                if (m.diffsame) {
                    V fde = fdiff(d.c);
                    for (double s : {1.0, 2.0, 0.25}) {
                        Vector xi = scaled(m, x, e, s), r = fresh(m);
                        m.M->DiffRetraction(x, e, y, xi, &r, true);
                        trans();
                        cmp(r, vscl(fde, s), "samedirection");
                    }
                }
                if (m.diffother) {
                    std::vector<Vector> R;
                    for (int i = 0; i <= b.n; i++) {
                        setcase(cs(k, d.n + fmt(" along %d", i)));
                        V c = i < b.n ? ecoef(b.n, i) : gcoef(b.n, 9);
                        Vector xi = tvec(m, x, b, c), r = fresh(m);
                        m.M->DiffRetraction(x, e, y, xi, &r, false);
                        trans();
                        cmp(r, fdiff(c), "otherdirection");
                        if (i < b.n) R.push_back(r);
                    }
                    Vector z = m.intr ? zerov(m) : fromext(m, x, V(m.extlen, 0.0)), r = fresh(m);
                    m.M->DiffRetraction(x, e, y, z, &r, false);
                    CHECKD(m, vnrm(flat(r)) < TOL, "zerodirection", "the differentiated retraction along zero is %s", vshow(flat(r)).c_str());
                    if (m.cotangent) {
                        Basis by = basis(m, y);
                        for (int j = 0; j < by.n; j++) {
                            setcase(cs(k, d.n + fmt(" cotangent %d", j)));
                            Vector ct = fresh(m);
                            m.M->coTangentVector(x, e, y, by.e[j], &ct);
                            trans();
                            CHECKD(m, b.residual(flat(ct)) < 1e-7 * (1 + vnrm(flat(ct))), "cotangenttangent", "the cotangent vector is off the tangent space by %g", b.residual(flat(ct)));
                            for (int i = 0; i < b.n; i++) {
                                double l = m.M->Metric(x, ct, b.e[i]), rr = m.M->Metric(y, by.e[j], R[i]);
                                CHECKD(m, std::fabs(l - rr) < 1e-7 * (1 + std::fabs(rr)), "adjoint", "<T* f%d, e%d> = %g, <f%d, T e%d> = %g", j, i, l, j, i, rr);
                            }
                        }
                    }
                }
            }
            if (m.diffother) { /* at the zero vector: the identity */
                setcase(cs(k, "at zero"));
                Vector z = m.intr ? zerov(m) : fromext(m, x, V(m.extlen, 0.0));
                Variable y = retr(m, x, z);
                if (vfin(flat(y))) for (int i = 0; i < b.n; i++) {
                    Vector r = fresh(m);
                    m.M->DiffRetraction(x, z, y, b.e[i], &r, false);
                    V di = m.dinv(flat(y), flat(extof(m, y, r))), d0 = m.dinv(xf, b.ext[i]);
                    CHECKD(m, vrel(di, d0) < 1e-7, "atzero", "the differentiated retraction at zero is not the identity: %s instead of %s", vshow(di).c_str(), vshow(d0).c_str());
                    if (m.cotangent) {
                        Vector ct = fresh(m);
                        m.M->coTangentVector(x, z, y, b.e[i], &ct);
                        if (m.intr ? false : true) CHECKD(m, vrel(flat(ct), b.rep[i]) < 1e-7, "cotangentatzero", "the cotangent map at zero is not the identity");
                    }
                }
            }
        }
    });
}

/* ------------------------------------------------------------------ C11 */
/* a curve with the given horizontal velocity: a straight line where the total space is open, otherwise the retraction */
static V curve(const Man &m, const Variable &x, const Basis &b, const V &c, double h)
{
    V xf = flat(x), e = b.comb(c, b.ext);
    if (m.opentotal) return vadd(xf, e, h);
    V y = flat(retr(m, x, tvec(m, x, b, vscl(c, h))));
    size_t o = 0;
    if (m.kind == "Product") for (auto &p : m.parts) {
        if (p->opentotal) for (int i = 0; i < p->extlen; i++) y[o + i] = xf[o + i] + h * e[o + i];
        o += p->extlen;
    }
    return y;
}
static void c11()
{
    foreach([](Man &m) {
        for (int k = 0; k < m.npts; k++) for (int fk = 0; fk < (thorough() ? 6 : 3); fk++) {
            setcase(cs(k, fmt("function %d", fk)));
            Variable x = m.pt(k);
            V xf = flat(x);
            Basis b = basis(m, x);
            if (b.n == 0) continue;
            QF p;
            setup(p, m, fk, fk == 1 ? 0.5 : 0);
            bool stat = fk % 3 == 2; /* x made a stationary point: remove the tangential part of the differential */
            if (stat) {
                V q = m.inv(xf), g = p.gq(q);
                std::vector<V> t;
                for (int i = 0; i < b.n; i++) { V w = p.d1(xf, b.ext[i]); for (int rep = 0; rep < 2; rep++) for (auto &o : t) w = vadd(w, o, -vdot(o, w)); double n = vnrm(w); if (n > 1e-9) t.push_back(vscl(w, 1 / n)); }
                for (auto &o : t) p.c = vadd(p.c, o, -vdot(o, g));
            }
            state();
            Vector gr = fresh(m);
            p.f(x);
            p.Grad(x, &gr);
            trans();
            V gx = flat(extof(m, x, gr));
            double gn = std::sqrt(std::max(0.0, m.metric(xf, gx, gx)));
            V gqx = p.gq(m.inv(xf));
            CHECKD(m, b.residual(flat(gr)) < 1e-7 * (1 + vnrm(flat(gr))), "gradtangent", "the gradient is off the tangent space by %g", b.residual(flat(gr)));
            for (int i = 0; i < b.n; i++) {
                double l = m.M->Metric(x, gr, b.e[i]), r = vdot(gqx, p.d1(xf, b.ext[i]));
                CHECKD(m, std::fabs(l - r) < 1e-7 * (1 + std::fabs(r) + gn), "gradient", "<grad f, e%d> = %g, Df[e%d] = %g", i, l, i, r);
            }
            outcome(hdbl(gn, hstr(m.name, k)));
            if (stat) CHECKD(m, gn < 1e-6, "stationary", "the gradient at a stationary point has norm %g", gn);
            /* Hessian */
            std::vector<Vector> H;
            CM HM(b.n, b.n);
            double hs = 0;
            for (int j = 0; j < b.n; j++) {
                Vector h = fresh(m);
                p.HessianEta(x, b.e[j], &h);
                trans();
                H.push_back(h);
                CHECKD(m, b.residual(flat(h)) < 1e-7 * (1 + vnrm(flat(h))), "hesstangent", "the Hessian action is off the tangent space by %g", b.residual(flat(h)));
                for (int i = 0; i < b.n; i++) { HM(i, j) = m.M->Metric(x, b.e[i], h); hs = std::max(hs, std::abs(HM(i, j))); }
            }
            { /* linear */
                V c = gcoef(b.n, 77);
                Vector h = fresh(m);
                p.HessianEta(x, tvec(m, x, b, c), &h);
                V s(flat(h).size(), 0.0);
                for (int i = 0; i < b.n; i++) s = vadd(s, flat(H[i]), c[i]);
                CHECKD(m, vrel(flat(h), s) < 1e-7, "hesslinear", "the Hessian action is not linear");
                Vector z = m.intr ? zerov(m) : fromext(m, x, V(m.extlen, 0.0)), hz = fresh(m);
                p.HessianEta(x, z, &hz);
                CHECKD(m, vnrm(flat(hz)) < TOL, "hesszero", "the Hessian action on zero is %s", vshow(flat(hz)).c_str());
            }
            for (int i = 0; i < b.n; i++) for (int j = 0; j < i; j++)
                CHECKD(m, std::abs(HM(i, j) - HM(j, i)) < 1e-7 * (1 + hs), stat ? "hesssymmetricstationary" : "hesssymmetric", "<e%d, H e%d> = %g, <e%d, H e%d> = %g", i, j, HM(i, j).real(), j, i, HM(j, i).real());
            if (!stat && !m.levicivita) continue;
            /* against the second derivative of f along curves, corrected by the acceleration of the curve */
            auto quad = [&](const V &c) {
                double s = 2e-3 / std::max(1.0, vnrm(b.comb(c, b.ext)));
                auto at = [&](double h) { return curve(m, x, b, c, h); };
                V p1 = at(s), m1 = at(-s), p2 = at(2 * s), m2 = at(-2 * s);
                double f0 = p.val(xf), F2 = (-p.val(p2) + 16 * p.val(p1) - 30 * f0 + 16 * p.val(m1) - p.val(m2)) / (12 * s * s);
                V e = b.comb(c, b.ext);
                V acc = xf;
                for (size_t i = 0; i < acc.size(); i++) acc[i] = (-p2[i] + 16 * p1[i] - 30 * xf[i] + 16 * m1[i] - m2[i]) / (12 * s * s);
                double h0 = 1e-4;
                auto Dg = [&](const V &z, const V &u, const V &w) { double h = h0 / (1 + vnrm(z)); return (m.metric(vadd(xf, z, h), u, w) - m.metric(vadd(xf, z, -h), u, w)) / (2 * h); };
                double C = m.metric(xf, acc, gx) + Dg(e, e, gx) - 0.5 * Dg(gx, e, e);
                return F2 - C;
            };
            for (int i = 0; i < b.n; i++) for (int j = 0; j <= i; j++) {
                setcase(cs(k, fmt("function %d, Hessian entry %d %d", fk, i, j)));
                V c = ecoef(b.n, i);
                if (j < i) c[j] = 1;
                double want = quad(c), got = HM(i, i).real() + (j < i ? 2 * HM(i, j).real() + HM(j, j).real() : 0);
                if (j < i) got = HM(i, i).real() + HM(i, j).real() + HM(j, i).real() + HM(j, j).real();
                eval();
                if (!(std::fabs(want - got) < 3e-5 * (1 + hs + gn))) viol(m, stat ? "hessianstationary" : "hessian", fmt("Hess f(e,e) = %g, by definition %g", got, want));
            }
        }
    });
}

/* ------------------------------------------------------------------ C14 */
static void c14()
{
    foreach([](Man &m) {
        /* difference quotients of the ambient coordinates are the gradient of a sphere in a tangent space only for a flat inner product */
        if (m.kind == "SphereTx" && ((!m.parts[0]->flatmetric && !m.parts[0]->intr) || m.parts[0]->kind == "FixedRankE")) { fam("skipped", m.name); return; }
        for (int k = 0; k < m.npts; k++) for (int cm = 0; cm < 6; cm++) {
            int mode = cm % 3;
            bool cache = cm >= 3; /* the cost keeps what it computed at the point, the derivatives use it */
            if (cache && k > 0) continue;
            setcase(cs(k, fmt("mode %d%s", mode, cache ? " cached" : "")));
            Variable x = m.pt(k);
            V xf = flat(x);
            Basis b = basis(m, x);
            if (b.n == 0) continue;
            QF ex, nu;
            setup(ex, m, 0, 0.5);
            setup(nu, m, 0, 0.5);
            /* 0: everything numerical; 1: only the Hessian; 2: switched on by SetNumGradHess */
            nu.fonly = mode == 0; nu.gonly = mode == 1;
            if (mode == 2) nu.SetNumGradHess(true);
            nu.cache = cache;
            state();
            Vector g = fresh(m), g2 = fresh(m);
            ex.f(x); ex.Grad(x, &g);
            Variable x2 = m.pt(k);
            nu.f(x2); nu.Grad(x2, &g2);
            trans();
            double sc = 1 + vnrm(flat(g));
            CHECKD(m, vdist(flat(g), flat(g2)) < 1e-5 * sc * (1 + vnrm(xf)), "gradient", "numerical gradient %s, true gradient %s", vshow(flat(g2)).c_str(), vshow(flat(g)).c_str());
            CHECKD(m, vdist(flat(x2), xf) == 0, "modified", "the numerical gradient changed the point");
            /* forward differences with step 1e-8 of f resolve the gradient to eps |f| / 1e-8; that is divided by 1e-5 */
            double noise = mode == 1 ? 0 : 2e-3 * (1 + std::fabs(ex.val(xf))), conv = 0;
            for (int i = 0; i < b.n; i++) conv = std::max(conv, vnrm(b.rep[i]) / std::max(1e-300, std::sqrt(m.metric(xf, b.ext[i], b.ext[i]))) * vnrm(b.ext[i]) / std::max(1e-300, std::sqrt(m.metric(xf, b.ext[i], b.ext[i]))));
            double tolH = mode == 1 ? 1e-3 : 2e-2 + noise * (1 + conv) * (1 + conv);
            for (int i = 0; i <= b.n + 1; i++) for (double s : {1.0, 1e-3}) {
                if (cache && s != 1) continue;
                setcase(cs(k, fmt("mode %d%s direction %d scale %g", mode, cache ? " cached" : "", i, s)));
                V c = i < b.n ? ecoef(b.n, i, s) : i == b.n ? gcoef(b.n, 5, s) : V(b.n, 0.0);
                Vector e = tvec(m, x, b, c), h = fresh(m), h2 = fresh(m);
                ex.HessianEta(x, e, &h);
                Vector e2 = tvec(m, x2, b, c);
                nu.HessianEta(x2, e2, &h2);
                trans();
                double n = vnrm(flat(e)), want = vnrm(flat(h));
                CHECKD(m, vdist(flat(h), flat(h2)) <= tolH * (n + want) * (1 + vnrm(xf)), i > b.n ? "hessianzero" : "hessian", "numerical Hessian action %s, true %s", vshow(flat(h2)).c_str(), vshow(flat(h)).c_str());
                outcome(hdbl(want, hstr(m.name, k)));
            }
            CHECKD(m, nu.missing == 0, "order", "a derivative is evaluated at a point where the cost was not (%d times)", nu.missing);
        }
    });
}

/* ------------------------------------------------------------------ C13 */
static void c13()
{
    foreach([](Man &m) {
        if (m.kind != "Product") return;
        for (int k = 0; k < m.npts; k++) {
            setcase(cs(k));
            Variable x = m.pt(k);
            V xf = flat(x);
            Basis b = basis(m, x);
            size_t np = m.parts.size();
            /* representation used for the factors in this product */
            struct Guard { std::vector<MP> &p; bool on; std::vector<bool> old; Guard(Man &m) : p(m.parts), on(!m.intr) { for (auto &q : p) { old.push_back(q->M->GetIsIntrinsic()); } for (auto &q : p) if (on) q->M->SetIsIntrApproach(false); } ~Guard() { for (size_t i = 0; i < p.size(); i++) p[i]->M->SetIsIntrApproach(old[i]); } };
            auto comp = [&](const Element &E, size_t j) { Vector v(E.GetElement((integer)j)); v.CopyOnWrite(); return v; };
            auto flags = [&](const char *what) { for (auto &p : m.parts) CHECKD(m, p->M->GetIsIntrinsic() == p->intr, "mode", "%s changed the representation of a factor", what); };
            auto cmp = [&](const char *what, const Element &whole, const std::vector<V> &parts) {
                trans();
                flags(what);
                for (size_t j = 0; j < np; j++) {
                    V w = flat(comp(whole, j));
                    CHECKD(m, vrel(w, parts[j]) < 1e-10, what, "component %d is %s, the factor gives %s", (int)j, vshow(w).c_str(), vshow(parts[j]).c_str());
                }
            };
            bool hhr = m.M->GetHasHHR();
            std::vector<Dir> ds = {{gcoef(b.n, 0, 0.4), "g0"}, {gcoef(b.n, 1, 0.2), "g1"}};
            for (int i = 0; i < b.n; i++) ds.push_back({ecoef(b.n, i, 0.5), fmt("0.5e%d", i)});
            for (auto &d : ds) {
                setcase(cs(k, d.n));
                state();
                Variable xx = m.pt(k);
                Vector e = tvec(m, xx, b, d.c), v = tvec(m, xx, b, gcoef(b.n, 7));
                if (!indomain(m, xf, flat(extof(m, xx, e)))) continue;
                std::vector<Variable> X;
                std::vector<Vector> E, W;
                for (size_t j = 0; j < np; j++) { X.push_back(comp(xx, j)); X.back().RemoveAllFromFields(); E.push_back(comp(e, j)); E.back().RemoveAllFromFields(); W.push_back(comp(v, j)); }
                auto each = [&](const std::function<Element(size_t)> &f) { Guard g(m); std::vector<V> r; for (size_t j = 0; j < np; j++) r.push_back(flat(f(j))); return r; };
                auto E0 = [&](size_t j) { Vector z(m.parts[j]->M->GetEMPTY()); return z; };
                auto Ex = [&](size_t j) { Vector z(m.parts[j]->M->GetEMPTYEXTR()); return z; };
                Variable y = retr(m, xx, e);
                std::vector<Variable> Y;
                { Guard g(m); for (size_t j = 0; j < np; j++) { Variable q(X[j]); m.parts[j]->M->Retraction(X[j], E[j], &q); Y.push_back(q); } }
                std::vector<V> yv; for (auto &q : Y) yv.push_back(flat(q));
                cmp("retraction", y, yv);
                double mt = m.M->Metric(xx, e, v), ms = 0;
                { Guard g(m); for (size_t j = 0; j < np; j++) ms += m.parts[j]->M->Metric(X[j], E[j], W[j]); }
                CHECKD(m, std::fabs(mt - ms) < 1e-10 * (1 + std::fabs(ms)), "metric", "the inner product is %g, the sum over the factors %g", mt, ms);
                Vector r = fresh(m);
                m.M->Projection(xx, v, &r);
                cmp("projection", r, each([&](size_t j) { Vector q = E0(j); m.parts[j]->M->Projection(X[j], W[j], &q); return q; }));
                {
                    Vector a = amb(m, gcoef(m.extlen, 3)), q = freshx(m);
                    m.M->ExtrProjection(xx, a, &q);
                    cmp("extrprojection", q, each([&](size_t j) { Vector w = Ex(j); m.parts[j]->M->ExtrProjection(X[j], comp(a, j), &w); return w; }));
                }
                bool other = m.diffother;
                if (other) {
                    Vector dr = fresh(m);
                    m.M->DiffRetraction(xx, e, y, v, &dr);
                    cmp("diffretraction", dr, each([&](size_t j) { Vector q = E0(j); m.parts[j]->M->DiffRetraction(X[j], E[j], Y[j], W[j], &q); return q; }));
                }
                if (m.cotangent) {
                    Basis by = basis(m, y);
                    Vector vy = tvec(m, y, by, gcoef(by.n, 8)), ct = fresh(m);
                    m.M->coTangentVector(xx, e, y, vy, &ct);
                    cmp("cotangent", ct, each([&](size_t j) { Vector q = E0(j); m.parts[j]->M->coTangentVector(X[j], E[j], Y[j], comp(vy, j), &q); return q; }));
                }
                if (!hhr) {
                    Vector t = fresh(m), ti = fresh(m);
                    m.M->VectorTransport(xx, e, y, v, &t);
                    cmp("transport", t, each([&](size_t j) { Vector q = E0(j); m.parts[j]->M->VectorTransport(X[j], E[j], Y[j], W[j], &q); return q; }));
                    m.M->InverseVectorTransport(xx, e, y, t, &ti);
                    cmp("inversetransport", ti, each([&](size_t j) { Vector q = E0(j); m.parts[j]->M->InverseVectorTransport(X[j], E[j], Y[j], comp(t, j), &q); return q; }));
                }
                {
                    double D = m.M->Dist(xx, y), S = 0;
                    { Guard g(m); for (size_t j = 0; j < np; j++) { double q = m.parts[j]->M->Dist(X[j], Y[j]); S += q * q; } }
                    CHECKD(m, std::fabs(D - std::sqrt(S)) < 1e-10 * (1 + D), "distance", "the distance is %g, from the factors %g", D, std::sqrt(S));
                }
                if (m.intr) {
                    Vector exv = freshx(m), in = fresh(m);
                    m.M->ObtainExtr(xx, e, &exv);
                    cmp("obtainextr", exv, each([&](size_t j) { if (!m.parts[j]->intr) return E[j]; Vector q = Ex(j); m.parts[j]->M->ObtainExtr(X[j], E[j], &q); return q; }));
                    m.M->ObtainIntr(xx, exv, &in);
                    cmp("obtainintr", in, each([&](size_t j) { return E[j]; }));
                }
                {
                    QF p;
                    setup(p, m, 1, 0.5);
                    Vector eg = p.from(p.egrad(xf)), g = freshx(m), eh = p.from(p.ehess(xf, flat(extof(m, xx, e)))), h = freshx(m), exv = extof(m, xx, e);
                    m.M->EucGradToGrad(xx, eg, &p, &g);
                    cmp("gradient", g, each([&](size_t j) { Vector q = Ex(j); m.parts[j]->M->EucGradToGrad(X[j], comp(eg, j), &p, &q); return q; }));
                    m.M->EucHvToHv(xx, exv, eh, &p, &h);
                    cmp("hessian", h, each([&](size_t j) { Vector q = Ex(j); m.parts[j]->M->EucHvToHv(X[j], comp(exv, j), comp(eh, j), &p, &q); return q; }));
                }
                if (m.parallelization || hhr) {
                    Vector a = fresh(m);
                    int L = e.Getlength();
                    LinearOPE H(L, L), H2(L, L);
                    H.ScaledIdOPE(2.0);
                    V ef = flat(e), vf = flat(v);
                    m.M->HaddScaledRank1OPE(xx, H, 0.5, e, v, &H2);
                    V hf = flat(H2);
                    double worst = 0;
                    for (int i = 0; i < L; i++) for (int j = 0; j < L; j++) worst = std::max(worst, std::fabs(hf[i + j * L] - ((i == j ? 2 : 0) + 0.5 * ef[i] * vf[j])));
                    CHECKD(m, worst < 1e-12, "rankone", "the rank one update is off by %g", worst);
                }
                CHECKD(m, vdist(flat(xx), xf) == 0, "modified", "an operation changed the point");
                outcome(hdbl(vnrm(flat(y)), hstr(m.name, k)));
            }
        }
    });
}

/* ------------------------------------------------------------------ C15 */
struct World15 { Variable x, y1, y2; Vector e1, e2, v, w, eg, eh, ambv, exv, vy; };
struct Op15 { std::string n; std::function<V(World15 &)> f; };
static void c15()
{
    foreach([](Man &m) {
        bool hhr = m.M->GetHasHHR();
        for (int k = 1; k < (thorough() ? m.npts : 3); k++) {
            setcase(cs(k));
            QF p;
            setup(p, m, 1, 0.5);
            Variable x0 = m.pt(k);
            V xf = flat(x0);
            Basis b = basis(m, x0);
            if (b.n == 0) continue;
            V c1 = gcoef(b.n, 0, 0.3), c2 = gcoef(b.n, 1, 0.2), cv = gcoef(b.n, 2), cw = gcoef(b.n, 3);
            auto make = [&](World15 &W) {
                W.x = m.pt(k);
                W.e1 = tvec(m, W.x, b, c1); W.e2 = tvec(m, W.x, b, c2); W.v = tvec(m, W.x, b, cv); W.w = tvec(m, W.x, b, cw);
                Variable xa = m.pt(k);
                Vector ea = tvec(m, xa, b, c1), eb = tvec(m, xa, b, c2);
                W.y1 = m.pt(k); W.y2 = m.pt(k);
                /* y1 and y2 come from retractions at the point itself */
                m.M->Retraction(W.x, W.e2, &W.y2);
                m.M->Retraction(W.x, W.e1, &W.y1);
                W.eg = p.from(p.egrad(xf)); W.eh = p.from(p.ehess(xf, flat(extof(m, xa, ea)))); W.ambv = amb(m, gcoef(m.extlen, 4));
                W.exv = fromextx(m, xa, b, cv);
                Basis by = basis(m, W.y1);
                W.vy = tvec(m, W.y1, by, gcoef(by.n, 6));
            };
            { World15 W; make(W); if (!indomain(m, xf, flat(extof(m, W.x, W.e1))) || !indomain(m, xf, flat(extof(m, W.x, W.e2)))) { c1 = vscl(c1, 0.1); c2 = vscl(c2, 0.1); } }
            std::vector<Op15> ops;
            auto op = [&](const std::string &n, const std::function<V(World15 &)> &f) { ops.push_back({n, f}); };
            Manifold *M = m.M;
            op("retraction1", [&](World15 &W) { Variable y(W.x); M->Retraction(W.x, W.e1, &y); return flat(y); });
            op("retraction2", [&](World15 &W) { Variable y(W.x); M->Retraction(W.x, W.e2, &y); return flat(y); });
            op("metric", [&](World15 &W) { return V(1, M->Metric(W.x, W.v, W.w)); });
            op("projection", [&](World15 &W) { Vector r = freshx(m); if (m.kind == "SphereTx") M->Projection(W.x, W.ambv, &r); else M->ExtrProjection(W.x, W.ambv, &r); return flat(r); });
            op("combine", [&](World15 &W) { Vector r = fresh(m); M->VectorLinearCombination(W.x, 0.5, W.v, -2, W.w, &r); return flat(r); });
            op("transport1", [&](World15 &W) { Vector r = fresh(m); M->VectorTransport(W.x, W.e1, W.y1, W.v, &r); return flat(r); });
            op("transport2", [&](World15 &W) { Vector r = fresh(m); M->VectorTransport(W.x, W.e2, W.y2, W.v, &r); return flat(r); });
            op("invtransport1", [&](World15 &W) { Vector r = fresh(m); M->InverseVectorTransport(W.x, W.e1, W.y1, W.vy, &r); return flat(r); });
            if (m.diffother) op("diff1", [&](World15 &W) { Vector r = fresh(m); M->DiffRetraction(W.x, W.e1, W.y1, W.v, &r); return flat(r); });
            op("diffsame1", [&](World15 &W) { Vector r = fresh(m); Vector s = scaled(m, W.x, W.e1, 2); M->DiffRetraction(W.x, W.e1, W.y1, s, &r, true); return flat(r); });
            op("diffsame2", [&](World15 &W) { Vector r = fresh(m); M->DiffRetraction(W.x, W.e2, W.y2, W.e2, &r, true); return flat(r); });
            if (m.cotangent) op("cotangent1", [&](World15 &W) { Vector r = fresh(m); M->coTangentVector(W.x, W.e1, W.y1, W.vy, &r); return flat(r); });
            op("egrad", [&](World15 &W) { Vector r = freshx(m); M->EucGradToGrad(W.x, W.eg, &p, &r); return flat(r); });
            op("gradhess", [&](World15 &W) { Vector r = freshx(m), s = freshx(m); M->EucGradToGrad(W.x, W.eg, &p, &r); M->EucHvToHv(W.x, W.exv, W.eh, &p, &s); return flat(s); });
            if (m.hasIE && m.intr) {
                op("obtainextr", [&](World15 &W) { Vector r = freshx(m); M->ObtainExtr(W.x, W.v, &r); return flat(r); });
                op("obtainintr", [&](World15 &W) { Vector r = fresh(m); M->ObtainIntr(W.x, W.exv, &r); return flat(r); });
                op("obtainextry", [&](World15 &W) { Vector r = freshx(m); M->ObtainExtr(W.y1, W.vy, &r); return flat(r); });
            }
            op("beta", [&](World15 &W) { if (!hhr) return V(1, 1.0); Vector r = fresh(m); M->DiffRetraction(W.x, W.e1, W.y1, W.e1, &r, true); return V(1, M->Beta(W.x, W.e1)); });
            /* environment steps: change of the object identity without change of its value */
            op("copypoint", [&](World15 &W) { Variable c(W.x); if (m.kind != "FixedRankE" && m.kind != "SphereTx") c.CopyOnWrite(); W.x = c; return V(); });
            if (m.kind != "FixedRankE" && m.kind != "SphereTx") /* whose vectors carry their factors */
                op("copyvectors", [&](World15 &W) { Vector c(W.v); c.CopyOnWrite(); W.v = c; Variable d(W.vy); d.CopyOnWrite(); W.vy = d; return V(); });
            op("sharepoint", [&](World15 &W) { static thread_local Variable keep; keep = W.x; return V(); });
            std::vector<V> want;
            for (auto &o : ops) { World15 W; make(W); setcase(cs(k, o.n + " on fresh objects")); want.push_back(o.f(W)); if (!vfin(want.back())) viol(m, "nonfinite:" + o.n, "the result is not finite"); }
            int n = (int)ops.size(), depth = thorough() ? 3 : 2;
            long total = 1;
            for (int i = 0; i < depth; i++) total *= n;
            bool three = m.extlen <= 4;
            if (!thorough() && three && k == 1) { depth = 3; total *= n; }
            for (long code = 0; code < total; code++) {
                long c = code;
                World15 W;
                make(W);
                V s1 = flat(W.e1), s2 = flat(W.e2), sv = flat(W.v), sy = flat(W.y1), sy2 = flat(W.y2), sw = flat(W.w);
                std::string hist;
                state();
                for (int i = 0; i < depth; i++) {
                    int o = (int)(c % n);
                    c /= n;
                    hist += ops[o].n + " ";
                    if (S().curbuf) setcase(cs(k, hist));
                    V r = ops[o].f(W);
                    trans();
                    eval();
                    if (i > 0 && !(vrel(r, want[o]) < 1e-8) && !r.empty()) { viol(m, "history:" + ops[o].n, fmt("after other operations the result is %s instead of %s", vshow(r).c_str(), vshow(want[o]).c_str())); break; }
                }
                eval();
                if (vdist(flat(W.x), xf) != 0 || vdist(flat(W.e1), s1) != 0 || vdist(flat(W.e2), s2) != 0 || vdist(flat(W.v), sv) != 0 || vdist(flat(W.y1), sy) != 0 || vdist(flat(W.y2), sy2) != 0 || vdist(flat(W.w), sw) != 0)
                    viol(m, "argument", "an operation modified one of its arguments");
            }
            outcome(hstr(m.name, k));
            /* aliasing: every documented combination */
            auto alias = [&](const char *n2, const V &plain, const std::function<V(World15 &)> &f) {
                World15 W; make(W);
                setcase(cs(k, std::string("alias ") + n2));
                V s1 = flat(W.e1);
                V r = f(W);
                trans();
                CHECKD(m, vrel(r, plain) < 1e-10, std::string("alias:") + n2, "writing over an argument gives %s instead of %s", vshow(r).c_str(), vshow(plain).c_str());
                CHECKD(m, vdist(flat(W.x), xf) == 0 && vdist(flat(W.e1), s1) == 0, std::string("aliasarg:") + n2, "another argument changed");
            };
            auto plain = [&](const std::function<V(World15 &)> &f) { World15 W; make(W); return f(W); };
            alias("projection", plain([&](World15 &W) { Vector r = fresh(m); M->Projection(W.x, W.v, &r); return flat(r); }), [&](World15 &W) { M->Projection(W.x, W.v, &W.v); return flat(W.v); });
            if (m.kind != "SphereTx") alias("extrprojection", plain([&](World15 &W) { Vector r = freshx(m); M->ExtrProjection(W.x, W.ambv, &r); return flat(r); }), [&](World15 &W) { M->ExtrProjection(W.x, W.ambv, &W.ambv); return flat(W.ambv); });
            alias("scale", plain([&](World15 &W) { Vector r = fresh(m); M->ScalarTimesVector(W.x, 2.5, W.v, &r); return flat(r); }), [&](World15 &W) { M->ScalarTimesVector(W.x, 2.5, W.v, &W.v); return flat(W.v); });
            alias("axpy", plain([&](World15 &W) { Vector r = fresh(m); M->ScalarVectorAddVector(W.x, 2.5, W.v, W.w, &r); return flat(r); }), [&](World15 &W) { M->ScalarVectorAddVector(W.x, 2.5, W.v, W.w, &W.w); return flat(W.w); });
            alias("lincomb", plain([&](World15 &W) { Vector r = fresh(m); M->VectorLinearCombination(W.x, 2.5, W.v, -1, W.w, &r); return flat(r); }), [&](World15 &W) { M->VectorLinearCombination(W.x, 2.5, W.v, -1, W.w, &W.w); return flat(W.w); });
            alias("transport", plain([&](World15 &W) { Vector r = fresh(m); M->VectorTransport(W.x, W.e1, W.y1, W.v, &r); return flat(r); }), [&](World15 &W) { M->VectorTransport(W.x, W.e1, W.y1, W.v, &W.v); return flat(W.v); });
            alias("invtransport", plain([&](World15 &W) { Vector r = fresh(m); M->InverseVectorTransport(W.x, W.e1, W.y1, W.vy, &r); return flat(r); }), [&](World15 &W) { M->InverseVectorTransport(W.x, W.e1, W.y1, W.vy, &W.vy); return flat(W.vy); });
            if (m.diffother) alias("diff", plain([&](World15 &W) { Vector r = fresh(m); M->DiffRetraction(W.x, W.e1, W.y1, W.v, &r); return flat(r); }), [&](World15 &W) { M->DiffRetraction(W.x, W.e1, W.y1, W.v, &W.v); return flat(W.v); });
            alias("diffsame", plain([&](World15 &W) { Vector r = fresh(m), s = scaled(m, W.x, W.e1, 2); M->DiffRetraction(W.x, W.e1, W.y1, s, &r, true); return flat(r); }), [&](World15 &W) { Vector s = scaled(m, W.x, W.e1, 2); M->DiffRetraction(W.x, W.e1, W.y1, s, &s, true); return flat(s); });
            if (m.cotangent) alias("cotangent", plain([&](World15 &W) { Vector r = fresh(m); M->coTangentVector(W.x, W.e1, W.y1, W.vy, &r); return flat(r); }), [&](World15 &W) { M->coTangentVector(W.x, W.e1, W.y1, W.vy, &W.vy); return flat(W.vy); });
            if (m.opetransport) {
                int L = m.M->GetEMPTY().Getlength();
                auto mkH = [&] { LinearOPE H(L, L); double *hp = H.ObtainWriteEntireData(); for (int i = 0; i < L * L; i++) hp[i] = gval(i + 9); return H; };
                alias("operator", plain([&](World15 &W) { LinearOPE H = mkH(), r(L, L); M->TranHInvTran(W.x, W.e1, W.y1, H, &r); return flat(r); }), [&](World15 &W) { LinearOPE H = mkH(); M->TranHInvTran(W.x, W.e1, W.y1, H, &H); return flat(H); });
                alias("rankone", plain([&](World15 &W) { LinearOPE H = mkH(), r(L, L); M->HaddScaledRank1OPE(W.x, H, 0.5, W.v, W.w, &r); return flat(r); }), [&](World15 &W) { LinearOPE H = mkH(); M->HaddScaledRank1OPE(W.x, H, 0.5, W.v, W.w, &H); return flat(H); });
            }
            alias("gradient", plain([&](World15 &W) { Vector r = freshx(m); M->EucGradToGrad(W.x, W.eg, &p, &r); return flat(r); }), [&](World15 &W) { M->EucGradToGrad(W.x, W.eg, &p, &W.eg); return flat(W.eg); });
            alias("hessian", plain([&](World15 &W) { Vector r = freshx(m), s = freshx(m); M->EucGradToGrad(W.x, W.eg, &p, &r); M->EucHvToHv(W.x, W.exv, W.eh, &p, &s); return flat(s); }), [&](World15 &W) { Vector r = freshx(m); M->EucGradToGrad(W.x, W.eg, &p, &r); M->EucHvToHv(W.x, W.exv, W.eh, &p, &W.eh); return flat(W.eh); });
        }
    }, true);
}

int main(int argc, char **argv)
{
    return run(argc, argv, {{"C07", c07}, {"C08", c08}, {"C09", c09}, {"C10", c10}, {"C11", c11}, {"C13", c13}, {"C14", c14}, {"C15", c15}});
}

/* C04: a product object and its components are one value.  Breadth-first search over histories on two product objects
 * and one plain object, against a reference that stores every leaf separately.  Component writes follow the library's
 * rule (the product is first made the sole owner of its memory). */
#include "ref.h"
#include <deque>
using namespace mc;

struct Leaf { int r, c; bool cx; int len() const { return r * c * (cx ? 2 : 1); } };
struct Node { Leaf l{0, 0, false}; std::vector<Node> kids; std::vector<double> d; bool F = false; double Fv = 0;
    int len() const { if (kids.empty()) return l.len(); int s = 0; for (auto &k : kids) s += k.len(); return s; } };

static Node leaf(int r, int c, bool cx) { Node n; n.l = {r, c, cx}; n.d.assign(n.l.len(), 0); return n; }
static Node prod(std::vector<Node> k) { Node n; n.kids = k; return n; }
enum { K_A, K_B, K_C, K_N, K_ONE };
static Node layout(int k)
{
    switch (k) {
    case K_A: return prod({leaf(2, 1, false), leaf(2, 1, false), leaf(1, 1, true)});
    case K_B: return prod({leaf(1, 2, false), leaf(1, 2, false), leaf(2, 1, false)});
    case K_C: return prod({leaf(2, 1, false), leaf(1, 2, true)});
    case K_N: return prod({prod({leaf(2, 1, false), leaf(1, 2, false)}), prod({leaf(2, 1, false), leaf(1, 2, false)}), leaf(1, 1, true)});
    default: return prod({leaf(2, 2, false)});
    }
}
static Element *mkprod(int k)
{
    switch (k) {
    case K_A: { Element a(2, 1), z(1, "complex"); return new Element(2, &a, 2, &z, 1); }
    case K_B: { Element a(1, 2), z(2, 1); return new Element(2, &a, 2, &z, 1); }
    case K_C: { Element a(2, 1), z(1, 2, "complex"); return new Element(2, &a, 1, &z, 1); }
    case K_N: { Element a(2, 1), b(1, 2); Element in(2, &a, 1, &b, 1); Element z(1, "complex"); integer pw[3] = {0, 2, 3}; Element *ty = new Element[2]; ty[0] = in; ty[1] = z; Element *r = new Element(2, ty, pw); delete[] ty; return r; }
    default: { Element a(2, 2); return new Element(1, &a, 1); }
    }
}
static void flat(const Node &n, std::vector<double> &o) { if (n.kids.empty()) o.insert(o.end(), n.d.begin(), n.d.end()); for (auto &k : n.kids) flat(k, o); }
static void unflat(Node &n, const double *&p) { if (n.kids.empty()) { for (auto &x : n.d) x = *p++; } for (auto &k : n.kids) unflat(k, p); }
static void clearF(Node &n) { n.F = false; for (auto &k : n.kids) clearF(k); }
static void eachleaf(Node &n, std::function<void(Node &)> f) { if (n.kids.empty()) f(n); for (auto &k : n.kids) eachleaf(k, f); }

enum Op { ASSIGN, COPYCON, WENT, WPART, ZEROS, SCALE, AXPY, SUM, CWRITE, CFILL, CCOPY, TAKE, PUT, CW, RENEW, CFIELD, CRESHAPE, INNERW, PFIELD, CSCALE, TAKEREF };
static const char *on[] = {"assign", "copyctor", "writeEntire", "writePartial", "setZeros", "scale", "axpy", "sum", "compWrite", "compFillAll", "compCopy", "takeComp", "putComp",
                           "writeTaken", "renew", "compField", "compReshape", "innerWrite", "productField", "compScale", "takeInit"};
struct A { Op o; int i, j, k; };
static std::string show(const std::vector<A> &h) { std::string s; for (auto &a : h) s += fmt("%s(%d,%d,%d) ", on[a.o], a.i, a.j, a.k); return s; }
struct World {
    Element *e[2] = {nullptr, nullptr}, *c = nullptr;
    Node m[2], mc;
    int kind[2];
    bool hasc = false;
    ~World() { delete e[0]; delete e[1]; delete c; }
};
static void start(World &w, int k0, int k1, int order)
{
    for (int i = 0; i < 2; i++) {
        w.kind[i] = i ? k1 : k0;
        w.e[i] = mkprod(w.kind[i]);
        w.m[i] = layout(w.kind[i]);
        double *p = w.e[i]->ObtainWriteEntireData();
        for (int q = 0; q < w.m[i].len(); q++) p[q] = 1 + 10 * i + q;
        if (order) w.e[i]->CopyOnWrite();
        std::vector<double> v(w.m[i].len());
        for (size_t q = 0; q < v.size(); q++) v[q] = 1 + 10 * i + q;
        const double *pp = v.data();
        unflat(w.m[i], pp);
    }
    w.c = new Element(2, 1);
    w.mc = leaf(2, 1, false);
}
static bool same(const Node &a, const Node &b)
{
    if (a.kids.size() != b.kids.size()) return false;
    if (a.kids.empty()) return a.l.r == b.l.r && a.l.c == b.l.c && a.l.cx == b.l.cx;
    for (size_t i = 0; i < a.kids.size(); i++) if (!same(a.kids[i], b.kids[i])) return false;
    return true;
}
static bool enabled(const World &w, const A &a)
{
    const Node &x = w.m[a.i], &y = w.m[a.j];
    switch (a.o) {
    case ASSIGN: case COPYCON: return a.i != a.j;
    case AXPY: case SUM: return x.len() == y.len() && same(x, y);
    case CWRITE: case TAKE: case TAKEREF: case CSCALE: case CFIELD: case CRESHAPE: return a.k < (int)x.kids.size() && (a.o == TAKE || a.o == TAKEREF || a.o == CSCALE || x.kids[a.k].kids.empty());
    case CCOPY: return a.k < (int)x.kids.size() && a.k < (int)y.kids.size() && same(x.kids[a.k], y.kids[a.k]) && a.i != a.j;
    case PUT: return w.hasc && a.k < (int)x.kids.size() && same(x.kids[a.k], w.mc);
    case CW: return w.hasc;
    case INNERW: return a.k < (int)x.kids.size() && !x.kids[a.k].kids.empty();
    default: return true;
    }
}
static void apply(World &w, const A &a)
{
    Element &X = *w.e[a.i], &Y = *w.e[a.j];
    Node &x = w.m[a.i];
    const Node y = w.m[a.j];
    auto whole = [&](std::function<double(double, int)> f) { int q = 0; clearF(x); eachleaf(x, [&](Node &n) { for (auto &v : n.d) v = f(v, q++); }); };
    switch (a.o) {
    case ASSIGN: X = Y; x = y; break;
    case COPYCON: { Element *n = new Element(Y); delete w.e[a.i]; w.e[a.i] = n; x = y; break; }
    case WENT: { double *p = X.ObtainWriteEntireData(); for (int q = 0; q < x.len(); q++) p[q] = 3 + q; X.CopyOnWrite(); whole([](double, int q) { return 3 + q; }); break; }
    case WPART: X.ObtainWritePartialData()[x.len() - 1] += 1; X.CopyOnWrite(); { int L = x.len(); whole([L](double v, int q) { return v + (q == L - 1); }); } break;
    case ZEROS: X.SetToZeros(); whole([](double, int) { return 0; }); break;
    case SCALE: X.ScalarTimesThis(2.0); X.CopyOnWrite(); whole([](double v, int) { return 2 * v; }); break;
    case AXPY: { X.AlphaXaddThis(0.5, Y); X.CopyOnWrite(); std::vector<double> v; flat(y, v); whole([&](double z, int q) { return z + 0.5 * v[q]; }); break; }
    case SUM: { X = Y + X; std::vector<double> v; flat(y, v); whole([&](double z, int q) { return z + v[q]; }); break; }
    case CWRITE: { X.CopyOnWrite(); X.GetElement(a.k).ObtainWritePartialData()[0] += 1; clearF(x); x.kids[a.k].d[0] += 1; break; }
    case CSCALE: { X.CopyOnWrite(); X.GetElement(a.k).ScalarTimesThis(2.0); clearF(x); eachleaf(x.kids[a.k], [](Node &n) { for (auto &v : n.d) v *= 2; }); break; }
    case CFILL: {
        X.NewMemoryOnWrite();
        clearF(x);
        for (size_t k = 0; k < x.kids.size(); k++) {
            Element &E = X.GetElement(k);
            Element t(E);
            t.SetToZeros();
            double *p = t.ObtainWriteEntireData();
            for (int q = 0; q < t.Getlength(); q++) p[q] = 5 + k;
            E = t;
            eachleaf(x.kids[k], [&](Node &n) { for (auto &v : n.d) v = 5 + (double)k; });
        }
        break;
    }
    case CCOPY: { X.CopyOnWrite(); clearF(x); X.GetElement(a.k) = Y.GetElement(a.k); x.kids[a.k] = y.kids[a.k]; break; }
    case TAKE: { *w.c = X.GetElement(a.k); w.mc = x.kids[a.k]; w.hasc = true; break; }
    case TAKEREF: { Element *n = new Element(X.GetElement(a.k)); delete w.c; w.c = n; w.mc = x.kids[a.k]; w.hasc = true; break; }
    case PUT: { X.CopyOnWrite(); clearF(x); X.GetElement(a.k) = *w.c; x.kids[a.k] = w.mc; break; }
    case CW: { w.c->ObtainWritePartialData()[0] += 1; clearF(w.mc); bool f = true; eachleaf(w.mc, [&](Node &n) { if (f) n.d[0] += 1; f = false; }); break; }
    case RENEW: { Element *n = mkprod(w.kind[a.i]); delete w.e[a.i]; w.e[a.i] = n; n->SetToZeros(); x = layout(w.kind[a.i]); break; }
    case CFIELD: { Element F(1); F.SetToZeros(); F.ObtainWriteEntireData()[0] = x.kids[a.k].d[0]; X.GetElement(a.k).AddToFields("F", F); x.kids[a.k].F = true; x.kids[a.k].Fv = x.kids[a.k].d[0]; break; }
    case PFIELD: { Element F(1); std::vector<double> v; flat(x, v); F.ObtainWriteEntireData()[0] = v[0]; X.AddToFields("F", F); x.F = true; x.Fv = v[0]; break; }
    case CRESHAPE: { Leaf &l = x.kids[a.k].l; X.GetElement(a.k).Reshape(l.c, l.r); std::swap(l.r, l.c); x.kids[a.k].F = false; break; }
    case INNERW: { X.CopyOnWrite(); X.GetElement(a.k).GetElement(1).ObtainWritePartialData()[0] += 1; clearF(x); x.kids[a.k].kids[1].d[0] += 1; break; }
    }
}
static std::string cmp(const Element &E, const Node &n, const char *path)
{
    if (E.Getlength() != n.len()) return fmt("%s has length %d, should be %d", path, (int)E.Getlength(), n.len());
    std::vector<double> v;
    flat(n, v);
    const double *p = E.ObtainReadData();
    if (!p) return fmt("%s has no data", path);
    for (size_t q = 0; q < v.size(); q++) if (p[q] != v[q]) return fmt("%s entry %zu is %g, should be %g", path, q, p[q], v[q]);
    if (E.FieldsExist("F") != n.F) return fmt("%s %s", path, n.F ? "lost the data attached to it" : "still carries data attached to an older value");
    if (n.F && E.Field("F").ObtainReadData()[0] != n.Fv) return fmt("%s: attached data is %g, should be %g", path, E.Field("F").ObtainReadData()[0], n.Fv);
    if (n.kids.empty()) {
        if (E.Getrow() != n.l.r || E.Getcol() != n.l.c || E.Getiscomplex() != n.l.cx) return fmt("%s is %dx%d complex %d, should be %dx%d complex %d", path, (int)E.Getrow(), (int)E.Getcol(), E.Getiscomplex(), n.l.r, n.l.c, n.l.cx);
        return "";
    }
    if (E.Getnumofelements() != (int)n.kids.size()) return fmt("%s has %d components, should have %zu", path, (int)E.Getnumofelements(), n.kids.size());
    for (size_t k = 0; k < n.kids.size(); k++) { std::string s = cmp(E.GetElement(k), n.kids[k], fmt("%s.%zu", path, k).c_str()); if (s != "") return s; }
    return "";
}
static uint64_t canon(const World &w)
{
    uint64_t h = 5;
    std::map<const void *, int> ids;
    std::function<void(const Element &)> go = [&](const Element &E) {
        h = hmix(h, E.Getrow()); h = hmix(h, E.Getcol()); h = hmix(h, E.Getiscomplex()); h = hmix(h, E.Getlength());
        const void *p = E.GetSpace();
        auto it = ids.find(p);
        if (it == ids.end()) { int id = (int)ids.size(); ids[p] = id; h = hmix(h, id); } else h = hmix(h, it->second);
        if (p) for (int k = 0; k < E.Getlength(); k++) h = hdbl(E.GetSpace()[k], h);
        h = hmix(h, E.GetSharedTimes() ? *E.GetSharedTimes() : 0);
        h = hmix(h, E.FieldsExist("F") ? hdbl(E.Field("F").ObtainReadData()[0]) : 0);
        for (int k = 0; k < E.Getnumofelements(); k++) go(E.GetElement(k));
    };
    go(*w.e[0]); go(*w.e[1]);
    if (w.hasc) go(*w.c);
    return hmix(h, w.hasc);
}
static void search(const std::string &nm, int k0, int k1, int order, int depth, std::vector<Op> ops)
{
    std::vector<A> al;
    for (Op o : ops) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 3; k++) {
        bool two = o == ASSIGN || o == COPYCON || o == AXPY || o == SUM || o == CCOPY;
        bool comp = o == CWRITE || o == CCOPY || o == TAKE || o == TAKEREF || o == PUT || o == CFIELD || o == CRESHAPE || o == INNERW || o == CSCALE;
        if (!two && j != i) continue;
        if (o == CW && i > 0) continue;
        if (!comp && k > 0) continue;
        al.push_back({o, i, j, k});
    }
    for (size_t f = 0; f < al.size(); f++)
        group(fmt("%s/%s(%d,%d,%d)", nm.c_str(), on[al[f].o], al[f].i, al[f].j, al[f].k), [&] {
            std::unordered_set<uint64_t> seen;
            std::deque<std::vector<A>> q;
            q.push_back({});
            bool root = true;
            while (!q.empty()) {
                auto h = q.front();
                q.pop_front();
                for (size_t k = 0; k < al.size(); k++) {
                    if (root && k != f) continue;
                    auto h2 = h;
                    h2.push_back(al[k]);
                    setcase(show(h2));
                    World w;
                    start(w, k0, k1, order);
                    for (auto &a : h) apply(w, a);
                    if (!enabled(w, al[k])) continue;
                    apply(w, al[k]);
                    trans(); eval(); trace();
                    std::string e = cmp(*w.e[0], w.m[0], "P");
                    if (e == "") e = cmp(*w.e[1], w.m[1], "Q");
                    if (e == "" && w.hasc) e = cmp(*w.c, w.mc, "taken");
                    if (e != "") { violation(fmt("product:%s", on[al[k].o]), e); continue; }
                    uint64_t st = canon(w);
                    outcome(st);
                    if (seen.insert(st).second) { state(); if ((int)h2.size() < depth) q.push_back(h2); if (h2.size() == 3) sample(S().curgroup + ": " + show(h2)); }
                }
                root = false;
            }
            fam(nm, "states", seen.size());
        }, 700);
}
static void C04()
{
    std::vector<Op> all = {ASSIGN, COPYCON, WENT, WPART, ZEROS, SCALE, AXPY, SUM, CWRITE, CFILL, CCOPY, TAKE, TAKEREF, PUT, CW, RENEW, CFIELD, PFIELD, CRESHAPE, INNERW, CSCALE};
    int d = thorough() ? 4 : 3;
    search("same", K_A, K_A, 1, d, all);
    search("shapes", K_A, K_B, 1, d, all);
    search("count", K_A, K_C, 1, d, all);
    search("nested", K_N, K_N, 1, d, all);
    search("nested-flat", K_N, K_A, 1, d, all);
    search("single", K_ONE, K_ONE, 1, d, all);
}
int main(int argc, char **argv) { return run(argc, argv, {{"C04", C04}}); }

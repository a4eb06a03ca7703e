// P13: hide / contract / identify and their undo, explored exhaustively against a plain model.
#include "families.hpp"
extern "C" int gp_RestoreVertex(graphP) __attribute__((weak));
struct Arc { int a, nb, dir; bool operator==(const Arc &o) const { return a == o.a && nb == o.nb && dir == o.dir; } };
typedef std::vector<std::vector<Arc>> Lists;
static Lists snap(graphP g) {
    Lists l(2 * g->N + 1); int bound = gp_EdgeIndexBound(g); 
    for (int v = 1; v <= 2 * g->N; v++) {
        int prev = NIL; size_t k = 0;
        for (int e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e)) {
            if (e < gp_GetFirstEdge(g) || e >= bound) fail("vertex %d: arc %d out of range", v, e);
            if (gp_GetPrevArc(g, e) != prev) fail("vertex %d: arc %d has previous link %d, expected %d", v, e, gp_GetPrevArc(g, e), prev);
            if (gp_GetNeighbor(g, gp_GetTwinArc(g, e)) != v) fail("vertex %d: twin of arc %d leads to %d", v, e, gp_GetNeighbor(g, gp_GetTwinArc(g, e)));
            l[v].push_back({e, gp_GetNeighbor(g, e), (int)gp_GetDirection(g, e)}); prev = e;
            if (++k > 200) fail("vertex %d: endless list", v);
        }
        if (gp_GetLastArc(g, v) != prev) fail("vertex %d: last arc is %d, the list ends with %d", v, gp_GetLastArc(g, v), prev);
        if (gp_GetVertexVisited(g, v)) fail("vertex %d is left marked visited", v);
    }
    return l;
}
static std::string lstr(const Lists &l) { std::string s; for (size_t v = 1; v < l.size(); v++) if (!l[v].empty()) { s += fmt(" %zu:", v); for (auto &a : l[v]) s += fmt("%d(%d)", a.nb, a.a); } return s; }
struct Op { char k; int a, b, c; }; // H edge a, V vertex a, C arc a, I u=a v=b before=c
static std::string ostr(const Op &o) { return o.k == 'I' ? fmt("identify(%d,%d,before %d) ", o.a, o.b, o.c) : fmt("%s(%d) ", o.k == 'H' ? "hideEdge" : o.k == 'V' ? "hideVertex" : "contract", o.a); }
static int findArc(const Lists &l, int a, size_t &v, size_t &p) { for (v = 1; v < l.size(); v++) for (p = 0; p < l[v].size(); p++) if (l[v][p].a == a) return 1; return 0; }
static void rm(Lists &l, int a) { size_t v, p; if (findArc(l, a, v, p)) l[v].erase(l[v].begin() + p); if (findArc(l, a ^ 1, v, p)) l[v].erase(l[v].begin() + p); }
static void identify(Lists &l, int u, int v, int before) {
    // edges joining u and v vanish; new position is after the edge to v
    for (;;) { size_t i = 0; for (; i < l[u].size(); i++) if (l[u][i].nb == v) break; if (i == l[u].size()) break; before = i + 1 < l[u].size() ? l[u][i + 1].a : NIL; rm(l, l[u][i].a); }
    std::set<int> nb; for (auto &a : l[u]) nb.insert(a.nb);
    auto lv = l[v]; for (auto &a : lv) if (nb.count(a.nb)) rm(l, a.a);
    size_t at = l[u].size(); for (size_t i = 0; i < l[u].size(); i++) if (l[u][i].a == before) at = i;
    lv = l[v]; l[v].clear(); l[u].insert(l[u].begin() + at, lv.begin(), lv.end());
    for (auto &a : lv) { size_t w, p; if (findArc(l, a.a ^ 1, w, p)) l[w][p].nb = u; }
}
static void model(Lists &l, const Op &o) {
    size_t v, p;
    if (o.k == 'H') rm(l, o.a);
    else if (o.k == 'V') { auto x = l[o.a]; for (auto &a : x) rm(l, a.a); }
    else if (o.k == 'C') { findArc(l, o.a, v, p); int w = l[v][p].nb; int before = p + 1 < l[v].size() ? l[v][p + 1].a : NIL; rm(l, o.a); identify(l, (int)v, w, before); }
    else identify(l, o.a, o.b, o.c);
}
static void real(graphP g, const Op &o) {
    int r = OK;
    if (o.k == 'H') { gp_HideEdge(g, o.a); return; }
    if (o.k == 'V') r = gp_HideVertex(g, o.a);
    else if (o.k == 'C') r = gp_ContractEdge(g, o.a);
    else r = gp_IdentifyVertices(g, o.a, o.b, o.c);
    if (r != OK) fail("the operation returned %s", rname(r));
    if (sp_GetCurrentSize(g->theStack) > sp_GetCapacity(g->theStack)) { int n = sp_GetCurrentSize(g->theStack); sp_ClearStack(g->theStack); fail("%d undo entries are stored on a stack with room for %d", n, sp_GetCapacity(g->theStack)); }
}
// vertices that were hidden or merged away are not used again
static std::vector<Op> ops(const Lists &l, int n, const std::vector<char> &gone) {
    std::vector<Op> o;
    for (int v = 1; v <= n; v++) for (auto &a : l[v]) { o.push_back({'H', a.a, 0, 0}); o.push_back({'C', a.a, 0, 0}); }
    for (int v = 1; v <= n; v++) if (!gone[v]) o.push_back({'V', v, 0, 0});
    for (int u = 1; u <= n; u++) for (int v = 1; v <= n; v++) if (u != v && !gone[u] && !gone[v]) {
        bool adj = false; for (auto &a : l[u]) if (a.nb == v) adj = true;
        o.push_back({'I', u, v, NIL}); if (!adj) for (auto &a : l[u]) o.push_back({'I', u, v, a.a});
    }
    return o;
}
static void buildG(graphP g, const G &x, int ext, int dirs) {
    if (ext & 1) gp_AttachDrawPlanar(g); if (ext & 2) gp_AttachK23Search(g); if (ext & 4) gp_AttachK33Search(g); if (ext & 8) gp_AttachK4Search(g);
    if ((ext & 16) && !x.e.empty()) gp_EnsureArcCapacity(g, 2 * (int)x.e.size());
    if (gp_InitGraph(g, x.n) != OK || addAll(g, x, 2) != OK) fail("building failed");
    if (dirs) { int i = 0; for (auto &e : x.e) { i++; if (i % 3) gp_SetDirection(g, gp_GetNeighborEdgeRecord(g, e.first + 1, e.second + 1), i % 3 == 1 ? EDGEFLAG_DIRECTION_INONLY : EDGEFLAG_DIRECTION_OUTONLY); } }
}
// after 'path' is applied to a new object, undo in one call where the library offers it
static void bulk(const G &x, int ext, int dirs, const std::vector<Op> &path, const Lists &l0, Ctx &c, bool embed) {
    size_t h = 0; while (h < path.size() && path[h].k == 'H') h++;
    for (size_t i = h; i < path.size(); i++) if (path[i].k == 'H') return;
    Gp g; buildG(g, x, ext, dirs);
    for (auto &o : path) real(g, o);
    int r = gp_RestoreVertices(g); if (r != OK) fail("gp_RestoreVertices returned %s", rname(r));
    for (size_t i = h; i-- > 0;) gp_RestoreEdge(g, path[i].a);
    Lists l = snap(g); if (!(l == l0)) fail("gp_RestoreVertices did not restore the graph:\n%s\nexpected\n%s", lstr(l).c_str(), lstr(l0).c_str());
    if (g->M != (int)x.e.size()) fail("M is %d, expected %zu", g->M, x.e.size());
    if (sp_GetCurrentSize(g->theStack)) fail("the undo stack is left with %d entries", sp_GetCurrentSize(g->theStack));
    c.eval();
    if (embed && !dirs) { int e = gp_Embed(g, EMBEDFLAGS_PLANAR); if (e == OK) checkPlanarEmbedding(g, x, false, false); else if (e != NONEMBEDDABLE) fail("gp_Embed of the restored graph returned %s", rname(e)); }
}
struct Walk { graphP g; const G *x; int ext, dirs, n; Lists l0; Ctx *c; std::vector<Op> path; };
static void rec(Walk &w, const Lists &l, int depth, std::vector<char> gone) {
    for (auto &o : ops(l, w.n, gone)) {
        w.path.push_back(o); auto g2 = gone;
        if (o.k == 'V') g2[o.a] = 1; if (o.k == 'I') g2[o.b] = 1; if (o.k == 'C') { size_t v, p; findArc(l, o.a, v, p); g2[l[v][p].nb] = 1; }
        try {
            Lists want = l; model(want, o); real(w.g, o); w.c->eval(); w.c->trans++; w.c->states++;
            Lists got = snap(w.g); if (!(got == want)) fail("the graph is\n%s\nexpected\n%s", lstr(got).c_str(), lstr(want).c_str());
            if (o.k == 'C' || o.k == 'I') for (int v = 1; v <= w.n; v++) { std::set<int> s; for (auto &a : got[v]) if (!s.insert(a.nb).second) fail("parallel edges %d-%d", v, a.nb); }
            if (depth > 1) rec(w, want, depth - 1, g2); else w.c->outcome(vp::hashs(lstr(got)));
            bulk(*w.x, w.ext, w.dirs, w.path, w.l0, *w.c, depth > 1);
            if (o.k == 'H') gp_RestoreEdge(w.g, o.a);
            else if (gp_RestoreVertex) { int r = gp_RestoreVertex(w.g); if (r != OK) fail("gp_RestoreVertex returned %s", rname(r)); }
            else return; // without the single-step undo only the one-call undo is explored
            w.c->trans++;
            Lists back = snap(w.g); if (!(back == l)) fail("undoing the last operation gave\n%s\nexpected\n%s", lstr(back).c_str(), lstr(l).c_str());
            if (w.g->M != (int)w.x->e.size()) fail("M is %d after restoring, expected %zu", w.g->M, w.x->e.size());
        } catch (vp::Fail &f) { std::string p; for (auto &q : w.path) p += ostr(q); size_t k = f.msg.find("after "); if (k == 0) throw; fail("after %s\n%s", p.c_str(), f.msg.c_str()); }
        w.path.pop_back();
    }
}
static void one(const G &x, int depth, int ext, int dirs, Ctx &c) {
    Gp g; buildG(g, x, ext, dirs); Lists l0 = snap(g); Walk w{g.g, &x, ext, dirs, x.n, l0, &c, {}};
    if (!gp_RestoreVertex) depth = 1;
    rec(w, l0, depth, std::vector<char>(x.n + 1, 0));
    if (c.sh->nsample.load() < 5) c.sample(x.str() + fmt(": all sequences of %d operations with all undos", depth));
}
static void longRun(const G &x, int kind, bool least, Ctx &c) {
    for (int s = 0; s < x.n; s++) {
        Gp g; buildG(g, x, least ? 16 : 0, 0); Lists l0 = snap(g), l = l0; std::vector<Op> path; std::vector<char> gone(x.n + 1, 0);
        for (int i = 0; i + 1 < x.n; i++) {
            int v = (s + i) % x.n + 1, u = (s + x.n - 1) % x.n + 1; Op o{'V', v, 0, 0};
            if (kind == 1) o = {'I', u, v, NIL};
            if (kind == 2) { o.k = 0; for (auto &a : l[v]) if (!gone[a.nb]) { o = {'C', a.a ^ 1, 0, 0}; break; } if (!o.k) continue; }
            gone[v] = 1; model(l, o); real(g, o); path.push_back(o); Lists got = snap(g); c.eval(); c.trans++; if (!(got == l)) { std::string p; for (auto &q : path) p += ostr(q); fail("after %s: the graph is\n%s\nexpected\n%s", p.c_str(), lstr(got).c_str(), lstr(l).c_str()); }
        }
        bulk(x, least ? 16 : 0, 0, path, l0, c, true);
    }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    vp::Check c("P13", "model_checking", "on each graph, depth-first exploration of every sequence of hide-edge, hide-vertex, contract and identify operations (every argument) to the stated depth, each followed by its undo, step by step on one object and by one call on a new one; a state is the graph after a sequence, compared with a plain list model; an outcome is a distinct resulting structure");
    c.assumptions = {"simple graphs with up to 6 vertices, stated depths"};
    auto fam = [&](const std::string &nm, const std::vector<G> &L, int depth, int ext, int dirs) {
        auto *v = new std::vector<G>(L);
        c.add(nm, v->size(), [=](uint64_t i, Ctx &cx) { one((*v)[i], depth, ext, dirs, cx); }, [=](uint64_t i) { return (*v)[i].str(); });
    };
    std::vector<G> l4, l3, g5, g6, l5;
    for (int n = 1; n <= 5; n++) { std::vector<std::pair<int,int>> E; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) E.push_back({i, j});
        for (unsigned m = 0; m < (1u << E.size()); m++) for (int rev = 0; rev < (n == 5 ? 1 : 2); rev++) { G g(n); for (size_t k = 0; k < E.size(); k++) { size_t q = rev ? E.size() - 1 - k : k; if (m >> q & 1) g.e.push_back(rev ? std::make_pair(E[q].second, E[q].first) : E[q]); } (n <= 3 ? l3 : n == 4 ? l4 : l5).push_back(g); } }
    fam("labelled-n1-3", l3, th ? 8 : 7, 0, 0);
    fam("labelled-n4", l4, th ? 5 : 4, 0, 0);
    fam("labelled-n4-directed", l4, th ? 4 : 3, 0, 1);
    { std::vector<G> iso; std::set<std::string> seen; for (auto &g : l4) { std::vector<int> d(4, 0); for (auto &e : g.e) d[e.first]++, d[e.second]++; auto s = d; std::sort(s.begin(), s.end()); if (s == d && seen.insert(fmt("%d%d%d%d-%zu", d[0], d[1], d[2], d[3], g.e.size())).second) iso.push_back(g); } fam("n4-one-per-degree-sequence", iso, th ? 6 : 4, 0, 0); }
    fam("labelled-n5", l5, th ? 3 : 2, 0, 0);
    for (auto &f : {std::make_pair("K33-attached", 4), std::make_pair("K4-attached", 8), std::make_pair("all-attached", 15), std::make_pair("least-capacity", 16)}) fam(f.first, l4, th ? 4 : 3, f.second, 0);
    { std::vector<G> big; G w(7); for (int i = 1; i < 7; i++) { w.e.push_back({0, i}); w.e.push_back({i, i == 6 ? 1 : i + 1}); } big.push_back(w); G k(6); for (int i = 0; i < 3; i++) for (int j = 3; j < 6; j++) k.e.push_back({i, j}); big.push_back(k); G k6(6); for (int i = 0; i < 6; i++) for (int j = i + 1; j < 6; j++) k6.e.push_back({j, i}); big.push_back(k6); G t(7); for (int i = 1; i < 7; i++) t.e.push_back({(i - 1) / 2, i}); big.push_back(t); fam("wheel-K33-K6-tree", big, th ? 4 : 3, 0, 0);
      auto *v = new std::vector<G>(big); for (int n = 2; n <= 12; n++) { v->push_back(path(n)); v->push_back(cyc(n + 1)); G s(n); for (int i = 1; i < n; i++) s.e.push_back({0, i}); v->push_back(s); v->push_back(complete(n)); }
      // every vertex but one is removed, in every rotation of the vertex order, by one kind of operation
      c.add("long-sequences", v->size() * 3 * 2, [=](uint64_t i, Ctx &cx) { longRun((*v)[i / 6], (int)(i % 3), i / 3 % 2, cx); }, [=](uint64_t i) { return (*v)[i / 6].str(); }); }
    c.blockMax = 1; c.hangLimit = 700; c.budget = th ? 700 : 300;
    return c.main(argc, argv);
}

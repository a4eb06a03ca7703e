// P12: explicit-state exploration of the editing operations against a plain list model.
// A state is the whole concrete adjacency structure (lists with arc positions, directions,
// stack of free positions, edge count); every transition re-executes the path on the real
// library and compares lists, queries and return values with the model.
#include "lib.hpp"
#include <unordered_set>
struct A { int e, s; bool operator==(const A &o) const { return e == o.e && s == o.s; } }; // edge id, side (0: in u's list)
struct M {
    int n = 0, cap = 0, cnt = 0; // cap: edges
    std::vector<std::vector<A>> l; // 1..2n
    std::vector<int> u, v, dir, alive; // dir: direction flag of side 0
    int owner(A a) const { return a.s ? v[a.e] : u[a.e]; }
    int nb(A a) const { return a.s ? u[a.e] : v[a.e]; }
    int d(A a) const { int x = dir[a.e]; if (!x) return 0; int in = x == EDGEFLAG_DIRECTION_INONLY; return (in != (a.s == 1)) ? EDGEFLAG_DIRECTION_INONLY : EDGEFLAG_DIRECTION_OUTONLY; }
    int newEdge(int a, int b) { u.push_back(a); v.push_back(b); dir.push_back(0); alive.push_back(1); cnt++; return (int)u.size() - 1; }
};
struct Op { int k, a, b, c, d, e, f; };
// k: 0 add(u=a,ulink=b,v=c,vlink=d) 1 insert(u=a, anchor pos b or -1, link c, v=d, anchor pos e, link f) 2 delete(v=a,pos=b,link=c) 3 direction(v=a,pos=b,value c) 4 refused call number a 5 lookup-and-delete(u,v)
static std::string ostr(const Op &o) {
    static const char *nm[] = {"add", "insert", "delete", "direction", "refused", "lookupdelete"};
    return fmt("%s(%d,%d,%d,%d,%d,%d)", nm[o.k], o.a, o.b, o.c, o.d, o.e, o.f);
}
struct Run { // real object and model side by side
    Gp g; M m; std::vector<std::array<int, 2>> pos; // model edge -> arcs of side 0, 1
    int arc(A a) { return pos[a.e][a.s]; }
    int arcAt(int v, int p) { return p < 0 ? NIL : arc(m.l[v][p]); }
    void bindNew(int e, int ulistArc) { while ((int)pos.size() <= e) pos.push_back({0, 0}); pos[e] = {ulistArc, gp_GetTwinArc(g.g, ulistArc)}; }
    // applies o to both; false: not enabled
    bool apply(const Op &o) {
        graphP G = g.g;
        switch (o.k) {
        case 0: {
            int r = gp_AddEdge(G, o.a, o.b, o.c, o.d);
            if (m.cnt >= m.cap) { if (r != NONEMBEDDABLE) fail("gp_AddEdge at capacity returned %s", rname(r)); return true; }
            if (r != OK) fail("gp_AddEdge returned %s", rname(r));
            int e = m.newEdge(o.a, o.c);
            auto ins = [&](int v, int s, int link) { if (link) m.l[v].push_back({e, s}); else m.l[v].insert(m.l[v].begin(), {e, s}); };
            ins(o.a, 0, o.b); ins(o.c, 1, o.d);
            bindNew(e, o.b ? gp_GetLastArc(G, o.a) : gp_GetFirstArc(G, o.a)); return true; }
        case 1: {
            int eu = arcAt(o.a, o.b), ev = arcAt(o.d, o.e);
            int r = gp_InsertEdge(G, o.a, eu, o.c, o.d, ev, o.f);
            if (m.cnt >= m.cap) { if (r != NONEMBEDDABLE) fail("gp_InsertEdge at capacity returned %s", rname(r)); return true; }
            if (r != OK) fail("gp_InsertEdge returned %s", rname(r));
            int e = m.newEdge(o.a, o.d);
            // the anchor's link leads to the new arc: link 0 is next, so it comes after the anchor
            auto ins = [&](int v, int s, int p, int link) { auto &L = m.l[v]; size_t at = p < 0 ? (link ? L.size() : 0) : (link ? p : p + 1); L.insert(L.begin() + at, {e, s}); };
            ins(o.a, 0, o.b, o.c); ins(o.d, 1, o.e, o.f);
            bindNew(e, eu == NIL ? (o.c ? gp_GetLastArc(G, o.a) : gp_GetFirstArc(G, o.a)) : gp_GetAdjacentArc(G, eu, o.c)); return true; }
        case 5: case 2: {
            int p = o.b;
            if (o.k == 5) { p = -1; for (size_t i = 0; i < m.l[o.a].size(); i++) if (m.nb(m.l[o.a][i]) == o.b) { p = (int)i; break; } if (p < 0) return false; }
            A a = m.l[o.a][p]; int ar = o.k == 5 ? gp_GetNeighborEdgeRecord(G, o.a, o.b) : arc(a);
            int q = o.c ? p - 1 : p + 1; int want = q >= 0 && q < (int)m.l[o.a].size() ? arc(m.l[o.a][q]) : NIL;
            int r = gp_DeleteEdge(G, ar, o.c);
            if (r != want) fail("gp_DeleteEdge returned arc %d, expected %d", r, want);
            for (int s = 0; s < 2; s++) { auto &L = m.l[s ? m.v[a.e] : m.u[a.e]]; L.erase(std::find(L.begin(), L.end(), A{a.e, s})); }
            m.alive[a.e] = 0; m.cnt--; return true; }
        case 3: {
            A a = m.l[o.a][o.b]; int ar = arc(a); int val = o.c;
            gp_SetDirection(G, ar, val);
            m.dir[a.e] = val == 0 ? 0 : a.s == 0 ? val : (val == EDGEFLAG_DIRECTION_INONLY ? EDGEFLAG_DIRECTION_OUTONLY : EDGEFLAG_DIRECTION_INONLY); return true; }
        case 4: {
            int bound = gp_EdgeInUseIndexBound(G), N2 = 2 * m.n, r;
            switch (o.a) {
            case 0: r = gp_AddEdge(G, 0, 0, 1, 0); break;
            case 1: r = gp_AddEdge(G, 1, 0, N2 + 1, 0); break;
            case 2: r = gp_AddEdge(G, N2 + 1, 1, 1, 0); break;
            case 3: r = gp_AddEdge(G, 1, 0, -1, 1); break;
            case 4: r = gp_InsertEdge(G, 0, NIL, 0, 1, NIL, 0); break;
            case 5: r = gp_InsertEdge(G, 1, NIL, 2, 2, NIL, 0); break;
            case 6: r = gp_InsertEdge(G, 1, NIL, 0, 2, NIL, -1); break;
            case 7: r = gp_InsertEdge(G, 1, bound, 0, 2, NIL, 0); break;
            case 8: r = gp_InsertEdge(G, 1, NIL, 0, 2, bound, 1); break;
            case 9: r = gp_InsertEdge(G, 1, -1, 0, 2, NIL, 1); break;
            case 10: r = gp_InsertEdge(G, 1, NIL, 0, N2 + 1, NIL, 1); break;
            case 11: r = gp_DynamicAddEdge(G, 0, 0, 1, 0); break;
            case 12: r = gp_DynamicAddEdge(G, 1, 0, N2 + 1, 0); break;
            default: r = gp_AddEdge(NULL, 1, 0, 2, 0);
            }
            if (r != NOTOK) fail("a call with an argument out of range returned %s", rname(r));
            return true; }
        }
        return false;
    }
    void check() {
        graphP G = g.g; int n2 = 2 * m.n;
        if (G->M != m.cnt) fail("M is %d, expected %d", G->M, m.cnt);
        extract(G);
        for (int v = 1; v <= n2; v++) {
            size_t i = 0; int out = 0, in = 0;
            for (int e = gp_GetFirstArc(G, v); gp_IsArc(e); e = gp_GetNextArc(G, e), i++) {
                if (i >= m.l[v].size()) fail("vertex %d has more arcs than the model", v);
                A a = m.l[v][i];
                if (gp_GetNeighbor(G, e) != m.nb(a)) fail("vertex %d, position %zu: neighbor %d, expected %d", v, i, gp_GetNeighbor(G, e), m.nb(a));
                if (e != arc(a)) fail("vertex %d, position %zu: arc %d, expected %d", v, i, e, arc(a));
                if ((int)gp_GetDirection(G, e) != m.d(a)) fail("vertex %d, position %zu: direction %d, expected %d", v, i, (int)gp_GetDirection(G, e), m.d(a));
                if (m.d(a) != EDGEFLAG_DIRECTION_INONLY) out++; if (m.d(a) != EDGEFLAG_DIRECTION_OUTONLY) in++;
            }
            if (i != m.l[v].size()) fail("vertex %d has %zu arcs, expected %zu", v, i, m.l[v].size());
            if (gp_GetVertexDegree(G, v) != (int)i) fail("degree of %d is %d, expected %zu", v, gp_GetVertexDegree(G, v), i);
            if (gp_GetVertexInDegree(G, v) != in) fail("in-degree of %d is %d, expected %d", v, gp_GetVertexInDegree(G, v), in);
            if (gp_GetVertexOutDegree(G, v) != out) fail("out-degree of %d is %d, expected %d", v, gp_GetVertexOutDegree(G, v), out);
        }
        for (int u = 1; u <= m.n + 1 && u <= n2; u++) for (int v = 1; v <= m.n + 1 && v <= n2; v++) {
            int first = NIL; bool is = false;
            for (A a : m.l[u]) if (m.nb(a) == v) { if (first == NIL) first = arc(a); if (m.d(a) != EDGEFLAG_DIRECTION_INONLY) is = true; }
            if (gp_GetNeighborEdgeRecord(G, u, v) != first) fail("edge record of (%d,%d) is %d, expected %d", u, v, gp_GetNeighborEdgeRecord(G, u, v), first);
            if (!gp_IsNeighbor(G, u, v) != !is) fail("gp_IsNeighbor(%d,%d) is %d, expected %d", u, v, gp_IsNeighbor(G, u, v), is);
        }
        if (gp_GetNeighborEdgeRecord(G, 0, 1) != NIL || gp_GetNeighborEdgeRecord(G, 1, 0) != NIL) fail("an edge record was returned for vertex 0");
    }
    std::string key() {
        graphP G = g.g; std::string k; int hs = sp_GetCurrentSize(G->edgeHoles);
        for (int v = 1; v <= 2 * m.n; v++) { for (A a : m.l[v]) { k += (char)arc(a); k += (char)(m.nb(a) + m.d(a)); } k += (char)-1; }
        for (int i = 0; i < hs; i++) { int x = sp_Get(G->edgeHoles, i); k += (char)x; }
        return k;
    }
};
struct Start { std::string name; int n, capE; int how; G x; };
// how: 0 new object, 1 reinitialized after other use, 2 embedded and sorted back, 3 duplicate of an object with free positions, 4 read from text, 5 capacity raised twice, 6 read from a digraph text
static void init(Run &R, const Start &S) {
    graphP &g = R.g.g; M &m = R.m;
    auto fresh = [&](graphP g, int n) { if (S.capE && gp_EnsureArcCapacity(g, 2 * S.capE) != OK) fail("gp_EnsureArcCapacity failed"); if (gp_InitGraph(g, n) != OK) fail("gp_InitGraph failed"); };
    m.n = S.n; m.cap = S.capE ? S.capE : 3 * S.n;
    if (S.how == 4 || S.how == 6) {
        std::string t = fmt("N=%d\n", S.n);
        for (int v = 0; v < S.n; v++) { t += fmt("%d:", v + 1); for (auto &e : S.x.e) { if (e.first == v) t += fmt(" %d", e.second + 1); else if (e.second == v && S.how == 4) t += fmt(" %d", e.first + 1); } t += " 0\n"; }
        char *p = strdup(t.c_str()); int r = gp_ReadFromString(g, p); // takes the string
        if (r != OK) fail("gp_ReadFromString failed");
    } else {
        if (S.how == 5) { gp_EnsureArcCapacity(g, 2); if (gp_InitGraph(g, S.n) != OK || gp_EnsureArcCapacity(g, 4) != OK || gp_EnsureArcCapacity(g, 2 * S.capE) != OK) fail("growing failed"); }
        else fresh(g, S.n);
        if (S.how == 1) { for (int i = 0; i < m.cap; i++) { gp_AddEdge(g, 1, 0, 2, 1); int e = gp_GetFirstArc(g, 1); gp_SetDirection(g, e, EDGEFLAG_DIRECTION_INONLY); } if (m.cap > 1) gp_DeleteEdge(g, gp_GetFirstEdge(g), 0); gp_ReinitializeGraph(g); }
        if (addAll(g, S.x, 2) != OK) fail("adding the start edges failed");
        if (S.how == 2) { int r = gp_Embed(g, EMBEDFLAGS_PLANAR); if (r != OK || gp_SortVertices(g) != OK) fail("embedding the start graph failed"); }
        if (S.how == 3) { if (g->M) gp_DeleteEdge(g, gp_GetFirstEdge(g), 0); graphP d = gp_DupGraph(g); if (!d) fail("gp_DupGraph failed"); gp_Free(&g); g = d; m.cap = gp_GetArcCapacity(g) / 2; if (m.cap < S.capE) fail("the duplicate has a smaller capacity"); }
    }
    // the model starts from the lists as they are (checked for consistency)
    extract(g); m.l.resize(2 * m.n + 2); std::map<int, int> id;
    ES want; 
    for (int v = 1; v <= 2 * m.n; v++) for (int e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e)) {
        int t = gp_GetTwinArc(g, e);
        if (!id.count(t)) { int k = m.newEdge(v, gp_GetNeighbor(g, e)); R.pos.push_back({e, t}); id[e] = k; m.dir[k] = gp_GetDirection(g, e); m.l[v].push_back({k, 0}); want.insert({std::min(v, m.v[k]), std::max(v, m.v[k])}); }
        else m.l[v].push_back({id[t], 1});
    }
    if (S.how == 1) { if (m.cnt != (int)S.x.e.size()) fail("start graph has %d edges", m.cnt); }
    if (S.how != 3 && want != edgeSet(S.x)) fail("start graph has the wrong edges");
}
static std::vector<Op> ops(const M &m, int set) {
    std::vector<Op> o; int n = m.n;
    if (set & 1) for (int u = 1; u <= n; u++) for (int v = 1; v <= n; v++) if (u != v && (u < v || (set & 32))) for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) o.push_back({0, u, a, v, b, 0, 0});
    if (set & 8) { o.push_back({0, 1, 0, n + 1, 1, 0, 0}); o.push_back({0, n + 2, 1, 2, 0, 0, 0}); }
    if (set & 2) for (int u = 1; u <= n; u++) for (int v = 1; v <= n; v++) if (u != v && (u < v || (set & 32))) for (int p = -1; p < (int)m.l[u].size(); p++) for (int q = -1; q < (int)m.l[v].size(); q++) if (p >= 0 || q >= 0) for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) o.push_back({1, u, p, a, v, q, b});
    if (set & 1) { for (int v = 1; v <= n; v++) for (int p = 0; p < (int)m.l[v].size(); p++) for (int a = 0; a < 2; a++) o.push_back({2, v, p, a, 0, 0, 0}); }
    if (set & 4) for (int v = 1; v <= n; v++) for (int p = 0; p < (int)m.l[v].size(); p++) for (int x : {0, EDGEFLAG_DIRECTION_INONLY, EDGEFLAG_DIRECTION_OUTONLY}) o.push_back({3, v, p, x, 0, 0, 0});
    if (set & 1) for (int u = 1; u <= n; u++) for (int v = 1; v <= n; v++) if (u != v) o.push_back({5, u, v, 0, 0, 0, 0});
    if (set & 16) for (int k = 0; k < 14; k++) o.push_back({4, k, 0, 0, 0, 0, 0});
    return o;
}
static void explore(const Start &S, int set, int depth, uint64_t first, uint64_t nfirst, Ctx &c, uint64_t limit) {
    struct Node { std::vector<Op> path; };
    std::unordered_set<std::string> seen; std::vector<Node> cur, nxt;
    double began = vp::now(); // a case that takes longer than this is cut and counted as skipped
    auto exec = [&](const std::vector<Op> &p, const Op *last, std::string *key, M *after) -> bool {
        Run R; init(R, S);
        try {
            for (auto &o : p) R.apply(o);
            if (last && !R.apply(*last)) return false;
            if (last || p.empty()) R.check();
        } catch (vp::Fail &f) { std::string t = S.name + ": "; for (auto &o : p) t += ostr(o) + " "; if (last) t += ostr(*last); fail("%s\n%s", t.c_str(), f.msg.c_str()); }
        if (key) *key = R.key(); if (after) *after = R.m; return true;
    };
    std::string k; M m; exec({}, nullptr, &k, &m); seen.insert(k); cur.push_back({{}}); c.eval(); c.states++;
    for (int d = 0; d < depth; d++) {
        nxt.clear();
        for (auto &nd : cur) {
            if (vp::now() - began > 60) { c.sh->skipped++; break; }
            M mm; exec(nd.path, nullptr, nullptr, &mm);
            auto O = ops(mm, set); uint64_t i = 0;
            for (auto &o : O) {
                if (d == 0 && nfirst && (i++ % nfirst) != first) continue;
                if (!exec(nd.path, &o, &k, nullptr)) continue;
                c.eval(); c.trans++;
                if (seen.insert(k).second) { c.states++; c.outcome(vp::hashs(S.name + k)); if (d + 1 < depth && seen.size() >= limit) c.sh->skipped++; else if (d + 1 < depth) { auto p = nd.path; p.push_back(o); nxt.push_back({p}); } }
            }
        }
        cur.swap(nxt);
    }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    static vp::Check c("P12", "model_checking", "breadth-first search over operation sequences from each start state; the state is the concrete structure (lists with positions, directions, free positions); an outcome is a distinct state; every transition re-executes its path on a new object of the real library and compares with the model");
    c.assumptions = {"3 or 4 vertices and the stated capacities and depths", "no self-loops"};
    static std::vector<Start> S; G e3(3), e2(2), e4(4), tri(3), k4(4), p4(4);
    tri.e = {{0, 1}, {1, 2}, {0, 2}}; k4.e = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}; p4.e = {{0, 1}, {1, 2}, {2, 3}};
    G kk4 = k4; kk4.e.pop_back();
    struct Pl { int s, set, depth; };
    std::vector<Pl> P;
    auto add = [&](const std::string &nm, int n, int cap, int how, const G &x, int set, int depth) { S.push_back({nm, n, cap, how, x}); P.push_back({(int)S.size() - 1, set, depth}); };
    // small models are explored until no new state appears (depth 60 is never reached)
    add("new-2v-cap3-all", 2, 3, 0, e2, 1 | 2 | 4 | 16, 60);
    add("new-3v-cap3-adddelete", 3, 3, 0, e3, 1, 60);
    add("new-3v-cap3-directions", 3, 3, 0, e3, 1 | 4, 60);
    add("new-3v-cap3-insert", 3, 3, 0, e3, 1 | 2, 60);
    add("new-3v-cap4-insert", 3, 4, 0, e3, 1 | 2, th ? 5 : 4);
    add("reused-3v-cap3", 3, 3, 1, e3, 1 | 2 | 4 | 16, th ? 7 : 5);
    add("new-3v-default-virtual", 3, 0, 0, e3, 1 | 8 | 16 | 32, th ? 5 : 4);
    add("triangle-cap4", 3, 4, 0, tri, 1 | 2 | 4 | 16 | 32, th ? 4 : 3);
    add("K4-embedded", 4, 0, 2, k4, 1 | 2 | 4 | 8 | 16, th ? 3 : 2);
    add("K4-holes-duplicated", 4, 7, 3, k4, 1 | 2 | 4, th ? 3 : 2);
    add("K4-e-read", 4, 0, 4, kk4, 1 | 2 | 4 | 16, th ? 3 : 2);
    add("digraph-read", 4, 0, 6, p4, 1 | 4 | 16, th ? 5 : 4);
    add("path-grown-capacity", 4, 6, 5, p4, 1 | 2 | 16 | 32, th ? 4 : 3);
    add("K4-reused-full", 4, 6, 1, k4, 1 | 4 | 16, th ? 5 : 4);
    for (auto &p : P) {
        Pl q = p;
        M m; { try { Run R; init(R, S[q.s]); m = R.m; } catch (vp::Fail &) {} }
        uint64_t nf = ops(m, q.set).size(); if (!nf) nf = 1;
        c.add(S[q.s].name, nf, [q, nf](uint64_t i, Ctx &cx) { explore(S[q.s], q.set, q.depth, i, nf, cx, 4000000); if (i == 0) cx.sample(S[q.s].name + fmt(": all operation sequences to depth %d%s", q.depth, q.depth == 60 ? " (closed: no new states)" : "")); },
              [q, nf](uint64_t i) { return fmt("start %s, exploration to depth %d, first operation number %llu of %llu", S[q.s].name.c_str(), q.depth, (unsigned long long)i, (unsigned long long)nf); });
    }
    c.blockMax = 1; c.hangLimit = 600; c.budget = th ? 700 : 300;
    return c.main(argc, argv);
}

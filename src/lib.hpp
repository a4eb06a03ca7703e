// Bridge to the library under test (public headers of /repo only).
#pragma once
#include "graphs.hpp"
// graphExtensions.private.h is not valid C++ (an unnamed struct whose typedef name is
// also used as a struct tag); only the pointer type is needed here.
#define GRAPH_EXTENSIONS_PRIVATE_H
struct graphExtension; typedef struct graphExtension *graphExtensionP;
extern "C" {
#include "extensionSystem/graphFunctionTable.h"
#include "graphLib.h"
#include "graphStructures.h"
}
#ifndef NONEMBEDDABLE
#error "NONEMBEDDABLE expected"
#endif
using vp::fail; using vp::failk; using vp::fmt; using vp::Ctx; using vp::mix;

// numbers independent of the configuration: the first vertex is shown as 1, the first edge as 2, NIL as 0
enum { FV = NIL == 0 ? 1 : 0, FARC = 2 * FV }; // the first vertex and the first arc: arrays from 1 or from 0
inline int shV(int v) { return gp_IsVertex(v) ? v - FV + 1 : 0; }
inline int shE(int e) { return gp_IsArc(e) ? e - FARC + 2 : 0; }
inline const char *rname(int r) { return r == OK ? "OK" : r == NONEMBEDDABLE ? "NONEMBEDDABLE" : r == NOTOK ? "NOTOK" : "other"; }

struct Gp { // RAII graph
    graphP g; Gp() : g(gp_New()) { if (!g) fail("gp_New returned NULL"); }
    explicit Gp(graphP p) : g(p) {}
    ~Gp() { if (g) gp_Free(&g); }
    Gp(const Gp &) = delete; operator graphP() { return g; } graphP operator->() { return g; }
};

// A presentation of an abstract graph: label permutation, edge order, list ends.
struct Pres { int a = 1, b = 0, ord = 0, link = 0; };
inline int gcd_(int x, int y) { return y ? gcd_(y, x % y) : x; }
inline G present(const G &g, const Pres &p) {
    G r(g.n); int m = (int)g.e.size();
    for (auto &x : g.e) r.e.push_back({(int)((long long)p.a * x.first + p.b) % g.n, (int)((long long)p.a * x.second + p.b) % g.n});
    if (p.ord == 1) std::reverse(r.e.begin(), r.e.end());
    else if (p.ord == 2) { std::sort(r.e.begin(), r.e.end(), [](auto &x, auto &y) { auto A = std::minmax(x.first, x.second), B = std::minmax(y.first, y.second); return A < B; }); }
    else if (p.ord == 3 && m > 2) { int s = 2; while (gcd_(s, m) != 1) s++; auto c = r.e; for (int i = 0; i < m; i++) r.e[i] = c[(long long)i * s % m]; }
    return r;
}
// link 0/1/2: choice of list ends. 3: two extra edges are added first and half way, and deleted at the
// end, so that unused edge records remain below those in use; 4: the records freed this way are reused.
inline int addAll(graphP g, const G &x, int link = 0) {
    int i = 0;
    if (link >= 3) {
        std::vector<std::pair<int, int>> ab; for (int d = 1; d < x.n && ab.size() < 2; d++) for (int u = 0; u + d < x.n && ab.size() < 2; u++) if (!x.has(u, u + d)) ab.push_back({u + FV, u + d + FV});
        while (!ab.empty() && 2 * (int)(x.e.size() + ab.size()) > gp_GetArcCapacity(g)) ab.pop_back(); // extensions refuse to grow
        size_t m = x.e.size(), half = m / 2; std::vector<int> del; int r;
        auto put = [&](std::pair<int, int> p, int a, int b) { if ((r = gp_DynamicAddEdge(g, p.first, a, p.second, b)) != OK) return r; return OK; };
        auto drop = [&](std::pair<int, int> p) { int e = gp_GetNeighborEdgeRecord(g, p.first, p.second); if (!gp_IsArc(e)) fail("edge %d-%d just added cannot be found", p.first, p.second); gp_DeleteEdge(g, e, 0); };
        auto ed = [&](size_t k) { return std::make_pair(x.e[k].first + FV, x.e[k].second + FV); };
        if (ab.size() > 0 && put(ab[0], 0, 1) != OK) return r;
        for (size_t k = 0; k < half; k++) if (put(ed(k), k & 1, 0) != OK) return r;
        if (ab.size() > 1 && put(ab[1], 1, 0) != OK) return r;
        if (link == 4) { if (ab.size() > 0) drop(ab[0]); if (half) drop(ed(0)); if (ab.size() > 1) drop(ab[1]); if (half && put(ed(0), 1, 1) != OK) return r; }
        for (size_t k = half; k < m; k++) if (put(ed(k), 0, k & 1) != OK) return r;
        if (link == 3) for (auto &p : ab) drop(p);
        return OK;
    }
    for (auto &e : x.e) {
        int ul = link == 0 ? 0 : link == 1 ? 1 : (i & 1), vl = link == 0 ? 0 : link == 1 ? 1 : ((i >> 1) & 1); i++;
        int r = gp_DynamicAddEdge(g, e.first + FV, ul, e.second + FV, vl);
        if (r != OK) return r;
    }
    return OK;
}
inline void initFor(graphP g, const G &x, bool attachNeedsCap) {
    if (attachNeedsCap && (int)x.e.size() > 3 * x.n) { if (gp_EnsureArcCapacity(g, 2 * (int)x.e.size() + 4) != OK) fail("gp_EnsureArcCapacity before init failed"); }
    if (gp_InitGraph(g, x.n) != OK) fail("gp_InitGraph(%d) failed", x.n);
}

// Adjacency structure of a graph object, with a consistency check of the links.
struct Rot { int n; std::vector<std::vector<int>> nb, arc; };
inline Rot extract(graphP g, bool allVerts = false) {
    Rot r; r.n = g->N; int top = allVerts ? g->N + g->NV : g->N; r.nb.resize(top + 1); r.arc.resize(top + 1);
    int bound = gp_EdgeInUseIndexBound(g); std::vector<char> seen(bound + 2, 0); long total = 0;
    for (int v = 1; v <= g->N + g->NV; v++) {
        int prev = NIL, e = gp_GetFirstArc(g, v);
        while (gp_IsArc(e)) {
            if (e < gp_GetFirstEdge(g) || e >= bound) fail("vertex %d: arc %d outside the arcs in use [%d,%d)", v, e, gp_GetFirstEdge(g), bound);
            if (seen[e]) fail("vertex %d: arc %d appears twice in adjacency lists", v, e);
            seen[e] = 1; total++;
            if (gp_GetPrevArc(g, e) != prev) fail("vertex %d: arc %d has previous link %d, expected %d", v, e, gp_GetPrevArc(g, e), prev);
            if (gp_GetNeighbor(g, gp_GetTwinArc(g, e)) != v) fail("arc %d in the list of vertex %d, but its twin points to %d", e, v, gp_GetNeighbor(g, gp_GetTwinArc(g, e)));
            int w = gp_GetNeighbor(g, e);
            if (w < 1 || w > g->N + g->NV) fail("vertex %d: neighbor %d out of range", v, w);
            if (v <= top) { r.nb[v].push_back(w); r.arc[v].push_back(e); }
            prev = e; e = gp_GetNextArc(g, e);
        }
        if (gp_GetLastArc(g, v) != prev) fail("vertex %d: last arc is %d, the list ends with %d", v, gp_GetLastArc(g, v), prev);
    }
    if (total != 2L * g->M) fail("adjacency lists hold %ld arcs, but M=%d", total, g->M);
    for (int e = gp_GetFirstEdge(g); e < bound; e++) if (seen[e] && !seen[gp_GetTwinArc(g, e)]) fail("arc %d is in a list but its twin is not", e);
    return r;
}
typedef std::set<std::pair<int, int>> ES; // 1-based, u<v
inline ES edgeSet(const G &g) { ES s; for (auto &x : g.e) s.insert({std::min(x.first, x.second) + 1, std::max(x.first, x.second) + 1}); return s; }
inline ES edgeSet(const Rot &r) { ES s; for (int v = 1; v <= r.n; v++) for (int w : r.nb[v]) s.insert({std::min(v, w), std::max(v, w)}); return s; }
// rotation system in original labels; sorted: is the graph in original vertex order?
inline Rot toOriginal(graphP g, const Rot &r, bool inOrder) {
    if (inOrder) return r;
    Rot o; o.n = r.n; o.nb.resize(r.n + 1); o.arc.resize(r.n + 1); std::vector<char> used(r.n + 1, 0);
    for (int v = 1; v <= r.n; v++) {
        int x = gp_GetVertexIndex(g, v); if (x < 1 || x > r.n || used[x]) fail("vertex %d: index %d is not part of a permutation", v, x);
        used[x] = 1;
        for (int w : r.nb[v]) o.nb[x].push_back(w <= r.n ? gp_GetVertexIndex(g, w) : w);
        o.arc[x] = r.arc[v];
    }
    return o;
}
struct Faces { int faces, comps, isolated; bool outer; std::vector<std::vector<int>> walks; };
// counts faces of the rotation system; 'outer': every component has a face walk meeting all its vertices
inline Faces faces(graphP g, const Rot &r) {
    Faces f{0, 0, 0, true, {}}; int n = r.n;
    std::map<int, std::pair<int, int>> pos; std::vector<std::pair<int,int>> dummy;
    int bound = gp_EdgeInUseIndexBound(g); std::vector<int> pv(bound, 0), pi(bound, 0); std::vector<char> vis(bound, 0);
    for (int v = 1; v <= n; v++) for (size_t i = 0; i < r.arc[v].size(); i++) { pv[r.arc[v][i]] = v; pi[r.arc[v][i]] = (int)i; }
    std::vector<int> comp(n + 1, 0); std::vector<int> csz; 
    for (int v = 1; v <= n; v++) if (!comp[v]) {
        int c = ++f.comps; csz.push_back(0); std::vector<int> q{v}; comp[v] = c;
        while (!q.empty()) { int x = q.back(); q.pop_back(); csz[c - 1]++; for (int w : r.nb[x]) if (!comp[w]) { comp[w] = c; q.push_back(w); } }
        if (csz[c - 1] == 1) f.isolated++;
    }
    std::vector<char> ok(f.comps + 1, 0); std::vector<int> stamp(n + 1, 0); int st = 0;
    for (int v = 1; v <= n; v++) for (int a : r.arc[v]) if (!vis[a]) {
        f.faces++; st++; int cnt = 0, e = a;
        do { vis[e] = 1; int t = gp_GetTwinArc(g, e); int w = pv[t]; if (stamp[w] != st) { stamp[w] = st; cnt++; } auto &l = r.arc[w]; e = l[(pi[t] + 1) % l.size()]; } while (e != a);
        if (cnt == csz[comp[v] - 1]) ok[comp[v]] = 1;
    }
    for (int v = 1; v <= n; v++) if (!r.nb[v].empty() && !ok[comp[v]]) f.outer = false;
    return f;
}
inline void checkPlanarEmbedding(graphP g, const G &x, bool inOrder, bool needOuter) {
    Rot raw = extract(g);
    Rot r = toOriginal(g, raw, inOrder);
    for (int v = 1; v <= r.n; v++) for (int w : raw.nb[v]) if (w > r.n) fail("vertex %d still adjacent to virtual vertex %d", v, w);
    if (edgeSet(r) != edgeSet(x) || g->M != (int)x.e.size()) fail("the embedding does not have the input's edge set (M=%d, input %zu)", g->M, x.e.size());
    Faces f = faces(g, r);
    // Euler over all components: V - E + F(nonempty comps) + isolated = 2 * comps
    if (r.n - g->M + f.faces + f.isolated != 2 * f.comps) fail("rotation system is not planar: V=%d E=%d F=%d components=%d isolated=%d", r.n, g->M, f.faces, f.comps, f.isolated);
    if (needOuter && !f.outer) fail("no face of some component meets all of its vertices");
}
inline std::vector<std::pair<int, int>> resultEdges(graphP g, const G &x, bool inOrder) {
    Rot r = toOriginal(g, extract(g), inOrder);
    for (int v = 1; v <= r.n; v++) for (int w : r.nb[v]) if (w > r.n) fail("result subgraph uses virtual vertex %d", w);
    ES s = edgeSet(r), o = edgeSet(x);
    for (auto &p : s) if (!o.count(p)) fail("result edge %d-%d is not an edge of the input", p.first, p.second);
    if ((int)s.size() != g->M) fail("result has parallel edges: M=%d, distinct %zu", g->M, s.size());
    std::vector<std::pair<int, int>> v; for (auto &p : s) v.push_back({p.first - 1, p.second - 1}); return v;
}
inline Kind resultKind(graphP g, const G &x, bool inOrder) { return subdivisionKind(x.n, resultEdges(g, x, inOrder)); }
inline const char *kname(Kind k) { static const char *n[] = {"no subdivision", "K4", "K2,3", "K5", "K3,3"}; return n[k]; }

struct Algo { char c; int flags; int (*attach)(graphP); int (*detach)(graphP); };
inline const Algo &algo(char c) {
    static const Algo A[] = {{'p', EMBEDFLAGS_PLANAR, 0, 0}, {'o', EMBEDFLAGS_OUTERPLANAR, 0, 0}, {'d', EMBEDFLAGS_DRAWPLANAR, gp_AttachDrawPlanar, gp_DetachDrawPlanar},
        {'2', EMBEDFLAGS_SEARCHFORK23, gp_AttachK23Search, gp_DetachK23Search}, {'3', EMBEDFLAGS_SEARCHFORK33, gp_AttachK33Search, gp_DetachK33Search}, {'4', EMBEDFLAGS_SEARCHFORK4, gp_AttachK4Search, gp_DetachK4Search}};
    for (auto &a : A) if (a.c == c) return a;
    abort();
}

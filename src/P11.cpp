// P11: depth-first numbering, least ancestors, lowpoints, vertex sorting.
#include "families.hpp"
// documented but not declared in the public headers; skipped where it does not exist
extern "C" int gp_LeastAncestor(graphP) __attribute__((weak));
struct Tree { std::vector<int> idx, par; };
static Rot snap(graphP g) { return extract(g); }
static bool same(const Rot &a, const Rot &b) { return a.nb == b.nb && a.arc == b.arc; }
// checks numbering of an unsorted graph; x's vertices are g's vertices
static Tree checkTree(graphP g, const G &x, bool types) {
    int n = x.n; Tree t; t.idx.assign(n + 1, 0); t.par.assign(n + 1, 0); std::vector<int> at(n + 1, 0);
    std::vector<std::vector<int>> nb(n + 1); for (auto &e : x.e) { nb[e.first + 1].push_back(e.second + 1); nb[e.second + 1].push_back(e.first + 1); }
    for (int v = 1; v <= n; v++) { int i = gp_GetVertexIndex(g, v); if (i < 1 || i > n || at[i]) fail("vertex %d has number %d: not a permutation", v, i); at[i] = v; t.idx[v] = i; }
    for (int v = 1; v <= n; v++) { int p = gp_GetVertexParent(g, v); t.par[v] = gp_IsVertex(p) ? p : 0; if (t.par[v]) { if (p < 1 || p > n || std::find(nb[v].begin(), nb[v].end(), p) == nb[v].end()) fail("vertex %d: parent %d is not a neighbor", v, p); if (t.idx[p] >= t.idx[v]) fail("vertex %d (number %d): parent %d has number %d", v, t.idx[v], p, t.idx[p]); } }
    // preorder intervals
    std::vector<int> size(n + 1, 1); for (int i = n; i >= 1; i--) { int v = at[i]; if (t.par[v]) size[t.par[v]] += size[v]; }
    auto anc = [&](int a, int d) { return t.idx[a] <= t.idx[d] && t.idx[d] < t.idx[a] + size[a]; };
    for (int v = 1; v <= n; v++) if (t.par[v] && !anc(t.par[v], v)) fail("the numbering is not a preorder of the tree: vertex %d", v);
    int roots = 0; for (int v = 1; v <= n; v++) if (!t.par[v]) roots++;
    std::vector<int> c(n + 1); std::iota(c.begin(), c.end(), 0); std::function<int(int)> f = [&](int v) { while (c[v] != v) v = c[v] = c[c[v]]; return v; }; int comps = n; for (auto &e : x.e) { int a = f(e.first + 1), b = f(e.second + 1); if (a != b) { c[a] = b; comps--; } }
    if (roots != comps) fail("%d depth-first trees for %d components", roots, comps);
    for (auto &e : x.e) if (!anc(e.first + 1, e.second + 1) && !anc(e.second + 1, e.first + 1)) fail("edge %d-%d does not join an ancestor and a descendant", e.first + 1, e.second + 1);
    if (types) for (int v = 1; v <= n; v++) for (int e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e)) {
        int w = gp_GetNeighbor(g, e), ty = gp_GetEdgeType(g, e), want = t.par[w] == v ? EDGE_TYPE_CHILD : t.par[v] == w ? EDGE_TYPE_PARENT : t.idx[v] < t.idx[w] ? EDGE_TYPE_FORWARD : EDGE_TYPE_BACK;
        if (ty != want) fail("arc %d->%d has edge type %d, expected %d", v, w, ty, want);
    }
    return t;
}
static void checkSorted(graphP g, const Rot &r0, const Tree &t) {
    Rot r = snap(g);
    for (int v = 1; v <= r0.n; v++) {
        int p = t.idx[v]; if (gp_GetVertexIndex(g, p) != v) fail("sorted: position %d holds vertex %d, expected %d", p, gp_GetVertexIndex(g, p), v);
        int q = gp_GetVertexParent(g, p); if ((gp_IsVertex(q) ? q : 0) != (t.par[v] ? t.idx[t.par[v]] : 0)) fail("sorted: parent of position %d is %d", p, q);
        if (r.arc[p] != r0.arc[v]) fail("sorted: the list of vertex %d changed", v);
        for (size_t i = 0; i < r0.nb[v].size(); i++) if (r.nb[p][i] != t.idx[r0.nb[v][i]]) fail("sorted: neighbor %zu of vertex %d is wrong", i, v);
    }
}
static void low(graphP g, const Tree &t, const Rot &r0, bool both) { // g is sorted
    int n = r0.n; std::vector<int> at(n + 1), L(n + 1), LA(n + 1); for (int v = 1; v <= n; v++) at[t.idx[v]] = v;
    for (int i = n; i >= 1; i--) { int v = at[i]; LA[i] = i; L[i] = i; for (int w : r0.nb[v]) if (w != t.par[v] && t.idx[w] < i) LA[i] = std::min(LA[i], t.idx[w]); L[i] = LA[i]; for (int w : r0.nb[v]) if (t.par[w] == v) L[i] = std::min(L[i], L[t.idx[w]]); }
    for (int i = 1; i <= n; i++) { if (gp_GetVertexLeastAncestor(g, i) != LA[i]) fail("least ancestor of number %d is %d, expected %d", i, gp_GetVertexLeastAncestor(g, i), LA[i]); if (both && gp_GetVertexLowpoint(g, i) != L[i]) fail("lowpoint of number %d is %d, expected %d", i, gp_GetVertexLowpoint(g, i), L[i]); }
}
static void one(const G &x, int link, Ctx &c) {
    uint64_t h = x.n;
    { Gp g; initFor(g, x, false); if (addAll(g, x, link) != OK) fail("could not add the edges");
      Rot r0 = snap(g);
      if (gp_CreateDFSTree(g) != OK) fail("gp_CreateDFSTree failed"); c.eval();
      if (!same(r0, snap(g))) fail("gp_CreateDFSTree changed the adjacency lists");
      Tree t = checkTree(g, x, true); for (int v = 1; v <= x.n && v < 40; v++) h = mix(h, t.idx[v] * 64 + t.par[v]);
      if (gp_SortVertices(g) != OK) fail("gp_SortVertices failed"); checkSorted(g, r0, t);
      if (gp_SortVertices(g) != OK) fail("second gp_SortVertices failed");
      if (!same(r0, snap(g))) fail("sorting twice did not restore the adjacency lists");
      Tree t2 = checkTree(g, x, true); if (t2.idx != t.idx || t2.par != t.par) fail("sorting twice did not restore numbers and parents");
      if (gp_LowpointAndLeastAncestor(g) != OK) fail("gp_LowpointAndLeastAncestor failed"); checkSorted(g, r0, t); low(g, t, r0, true);
      if (gp_SortVertices(g) != OK) fail("gp_SortVertices failed"); if (!same(r0, snap(g))) fail("sorting back did not restore the adjacency lists");
    }
    for (int how = gp_LeastAncestor ? 0 : 2; how < 3; how++) { // 0: least ancestor from scratch, 1: after numbering, 2: lowpoint from scratch
        Gp g; initFor(g, x, false); if (addAll(g, x, link) != OK) fail("could not add the edges"); Rot r0 = snap(g);
        if (how == 1 && gp_CreateDFSTree(g) != OK) fail("gp_CreateDFSTree failed");
        int r = how == 2 ? gp_LowpointAndLeastAncestor(g) : gp_LeastAncestor(g); c.eval(); if (r != OK) fail("%s failed", how == 2 ? "gp_LowpointAndLeastAncestor" : "gp_LeastAncestor");
        Rot s = snap(g); Tree t; t.idx.assign(x.n + 1, 0); t.par.assign(x.n + 1, 0);
        for (int p = 1; p <= x.n; p++) { int v = gp_GetVertexIndex(g, p); if (v < 1 || v > x.n || t.idx[v]) fail("indices are not a permutation"); t.idx[v] = p; }
        for (int p = 1; p <= x.n; p++) { int q = gp_GetVertexParent(g, p); t.par[gp_GetVertexIndex(g, p)] = gp_IsVertex(q) ? gp_GetVertexIndex(g, q) : 0; }
        checkSorted(g, r0, t); low(g, t, r0, how == 2);
        if (gp_SortVertices(g) != OK) fail("gp_SortVertices failed"); if (!same(r0, snap(g))) fail("sorting back did not restore the adjacency lists"); checkTree(g, x, true);
    }
    // after embedding: the graph is sorted; sorting brings back the original numbering and again
    for (int fl : {EMBEDFLAGS_PLANAR, EMBEDFLAGS_OUTERPLANAR}) {
        Gp g; initFor(g, x, false); if (addAll(g, x, link) != OK) fail("could not add the edges");
        int r = gp_Embed(g, fl); c.eval(); if (r != OK && r != NONEMBEDDABLE) fail("gp_Embed returned %s", rname(r));
        Rot s = snap(g); std::vector<int> ix(x.n + 1), pa(x.n + 1); for (int p = 1; p <= x.n; p++) { ix[p] = gp_GetVertexIndex(g, p); pa[p] = gp_GetVertexParent(g, p); }
        if (gp_SortVertices(g) != OK) fail("gp_SortVertices failed after embedding");
        Tree t = checkTree(g, x, false);
        if (gp_SortVertices(g) != OK) fail("gp_SortVertices failed");
        if (!same(s, snap(g))) fail("sorting an embedding twice changed it");
        for (int p = 1; p <= x.n; p++) { if (gp_GetVertexIndex(g, p) != ix[p] || gp_GetVertexParent(g, p) != pa[p]) fail("sorting an embedding twice changed vertex %d", p); if (t.idx[ix[p]] != p) fail("embedding: number of vertex %d is %d, expected %d", ix[p], t.idx[ix[p]], p); }
    }
    c.outcome(h);
    if (c.sh->nsample.load() < 6) c.sample(x.str());
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    vp::Check c("P11", "exploration", "every graph of each family is numbered, sorted, sorted back, and given least ancestors and lowpoints by the real library in four call orders, and embedded; tree, edge types, values and list orders are checked from their definitions; an outcome is a distinct (numbering, parents)");
    c.assumptions = {"bounds: the listed families"};
    addFams(c, graphFamilies(th ? 1 : 0, 2), one);
    c.budget = th ? 700 : 300;
    return c.main(argc, argv);
}

// P14: arc capacity: accounting, refusal, growth (explicit and on demand) at every point of a history.
#include "families.hpp"
struct Sn { int M; std::vector<std::vector<std::array<int, 3>>> l; bool operator==(const Sn &o) const { return M == o.M && l == o.l; } };
static Sn snap(graphP g) { extract(g); Sn s; s.M = g->M; s.l.resize(2 * g->N + 1); for (int v = 1; v <= 2 * g->N; v++) for (int e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e)) s.l[v].push_back({e, gp_GetNeighbor(g, e), (int)gp_GetDirection(g, e)}); return s; }
static void attach(graphP g, int m) { if (m & 1) gp_AttachDrawPlanar(g); if (m & 2) gp_AttachK23Search(g); if (m & 4) gp_AttachK33Search(g); if (m & 8) gp_AttachK4Search(g); }
static int cap(graphP g) { return gp_GetArcCapacity(g); }
static void expectCap(graphP g, int want, const char *when) { if (cap(g) != want) fail("%s: the arc capacity is %d, expected %d", when, cap(g), want); }
// ---- accounting: request r before init (0: none), then q after init (0: none), features m attached at time t
static void accounting(int n, int r, int q, int m, int t, Ctx &c) {
    Gp g; if (t == 0) attach(g, m);
    for (int bad : {0, -2, 1, 7}) if (gp_EnsureArcCapacity(g, bad) == OK) fail("a request for %d arcs was accepted", bad);
    if (gp_EnsureArcCapacity(NULL, 2) == OK) fail("a request for no graph was accepted");
    if (r) { if (gp_EnsureArcCapacity(g, r) != OK) fail("a request for %d arcs before initialization was refused", r); if (r > 2 && gp_EnsureArcCapacity(g, r - 2) != OK) fail("a smaller request was refused"); }
    if (t == 1) attach(g, m);
    if (gp_InitGraph(g, n) != OK) fail("gp_InitGraph failed");
    if (t == 2) attach(g, m);
    int C = r ? r : 6 * n; expectCap(g, C, "after initialization"); c.eval();
    for (int bad : {0, -2, C + 1}) if (gp_EnsureArcCapacity(g, bad) == OK) fail("a request for %d arcs was accepted", bad);
    expectCap(g, C, "after refused requests");
    if (q) {
        int res = gp_EnsureArcCapacity(g, q); bool can = q <= C || !(m & 13);
        if (q <= C && res != OK) fail("a request for %d arcs, no more than the capacity %d, was refused", q, C);
        if (!(m & 13) && res != OK) fail("a request for %d arcs was refused", q);
        if (res == OK && q > C) C = q; (void)can; expectCap(g, C, "after a request"); c.eval();
    }
    // fill: pairs are repeated when the capacity exceeds their number
    if (n < 2) return;
    std::vector<std::pair<int, int>> P; for (int i = 1; i <= n; i++) for (int j = i + 1; j <= n; j++) P.push_back({i, j});
    std::map<std::pair<int,int>,int> cnt;
    for (int k = 0; k < C / 2; k++) {
        auto p = P[k % P.size()]; int res = k % 3 == 2 ? gp_InsertEdge(g, p.first, gp_GetFirstArc(g, p.first), 0, p.second, NIL, 1) : gp_AddEdge(g, p.first, k & 1, p.second, k >> 1 & 1);
        if (res != OK) fail("edge %d of %d was refused (%s)", k + 1, C / 2, rname(res));
    }
    Sn s = snap(g); if (s.M != C / 2) fail("M is %d", s.M);
    for (int k = 0; k < 3; k++) {
        int res = k == 0 ? gp_AddEdge(g, 1, 0, 2, 1) : k == 1 ? gp_InsertEdge(g, 1, NIL, 0, 2, NIL, 1) : gp_InsertEdge(g, 2, gp_GetFirstArc(g, 2), 0, 1, gp_GetLastArc(g, 1), 1);
        if (res != NONEMBEDDABLE) fail("an edge beyond the capacity of %d arcs gave %s", C, rname(res));
        if (!(snap(g) == s)) fail("a refused edge changed the graph"); expectCap(g, C, "after a refused edge"); c.eval();
    }
    // one deletion makes room for exactly one more
    for (int k = 0; k < C / 2 && k < 4; k++) {
        int e = gp_GetFirstEdge(g) + 2 * (k % 2 ? C / 2 - 1 - k / 2 : k / 2) + (k & 1); gp_DeleteEdge(g, e, 0);
        if (gp_AddEdge(g, 1, k & 1, n, 0) != OK) fail("an edge was refused after a deletion"); if (gp_AddEdge(g, 1, 0, n, 0) != NONEMBEDDABLE) fail("an edge beyond the capacity was accepted after a deletion"); extract(g); c.eval();
    }
    // reinitialization keeps the capacity
    gp_ReinitializeGraph(g); expectCap(g, C, "after reinitialization");
    for (int k = 0; k < C / 2; k++) if (gp_AddEdge(g, 1 + k % n, 0, 1 + (k + 1) % n, 0) != OK) fail("after reinitialization edge %d of %d was refused", k + 1, C / 2);
    if (gp_AddEdge(g, 1, 0, 2, 0) != NONEMBEDDABLE) fail("after reinitialization an edge beyond the capacity was accepted");
    if (n > 1) { // growth on demand of a full object: never loses anything, whether it succeeds or not
        s = snap(g); int old = cap(g); int res = gp_DynamicAddEdge(g, 1, 1, 2, 1);
        Sn a = snap(g);
        if (res == OK) { if (a.M != s.M + 1 || cap(g) <= old) fail("growth on demand: M %d to %d, capacity %d to %d", s.M, a.M, old, cap(g)); gp_DeleteEdge(g, gp_GetLastArc(g, 1), 0); a = snap(g); }
        else if (!(m & 13) && old < n * (n - 1)) fail("growth on demand was refused with %d arcs on %d vertices", old, n);
        if (!(a == s)) fail("growth on demand changed the existing edges");
    }
    c.outcome(mix(C, n * 64 + m * 4 + t));
}
static std::vector<std::vector<int>> resultOf(graphP g, char a, const G &x, int &r) {
    r = gp_Embed(g, algo(a).flags); if (r != OK && r != NONEMBEDDABLE) fail("algorithm %c returned %s", a, rname(r));
    std::vector<std::vector<int>> o; if (a == '2' || a == '3' || a == '4') { if (r == OK) return o; }
    if (a == 'd' && r != OK) return o;
    Rot t = toOriginal(g, extract(g), false); o = t.nb; return o;
}
static void applyHist(graphP g, const G &x, int hist, int upto, int from) { // edges [from,upto) with directions and deletions by 'hist'
    for (int i = from; i < upto; i++) {
        auto &e = x.e[i]; int r = gp_DynamicAddEdge(g, e.first + 1, (i + hist) & 1, e.second + 1, (i >> 1) & 1); if (r != OK) fail("edge %d of %zu was refused (%s) at capacity %d", i + 1, x.e.size(), rname(r), cap(g));
    }
}
// ---- growth: the same history on a small and on a large object
static void growth(const G &x, int link, Ctx &c) {
    int m = (int)x.e.size(), n = x.n; if (m < 1) return;
    std::vector<int> starts{2}; for (int s = 4; s < 2 * m; s += (m > 12 ? 6 : 2)) starts.push_back(s); if (m > 1) starts.push_back(2 * m - 2);
    int combo = 0;
    for (int s : starts) for (int mode = 0; mode < 3; mode++, combo++) { // 0: on demand only; 1: explicit growth by 2 each time; 2: explicit growth once to 2m, with a hole
        Gp a, b; int feat = mode == 0 ? 0 : 2; if (feat) { attach(a, feat); attach(b, feat); }
        gp_EnsureArcCapacity(a, s); gp_EnsureArcCapacity(b, 2 * m + 40);
        if (gp_InitGraph(a, n) != OK || gp_InitGraph(b, n) != OK) fail("gp_InitGraph failed");
        int del = (s + mode + link) % 3; // which early edge is deleted and added again at the end
        for (int i = 0; i < m; i++) {
            for (graphP g : {a.g, b.g}) {
                if (i == 2 && m > 2 && del < 2) { int e = gp_GetNeighborEdgeRecord(g, x.e[del].first + 1, x.e[del].second + 1); gp_DeleteEdge(g, e, 0); if (gp_AddEdge(g, x.e[del].second + 1, 1, x.e[del].first + 1, 0) != OK) fail("could not add a deleted edge again"); }
                if (i == 1) gp_SetDirection(g, gp_GetFirstArc(g, x.e[0].first + 1), EDGEFLAG_DIRECTION_INONLY);
            }
            Sn before = snap(a); int full = 2 * (i + 1) > cap(a); int old = cap(a);
            if (full && mode == 1) { if (gp_EnsureArcCapacity(a, old + 2) != OK) fail("growth by one edge was refused"); expectCap(a, old + 2, "after growth"); if (!(snap(a) == before)) fail("growth from %d arcs changed the graph", old); }
            if (full && mode == 2) { int e = gp_GetFirstEdge(a.g); (void)e; if (gp_EnsureArcCapacity(a, 2 * m) != OK) fail("growth to %d was refused", 2 * m); if (!(snap(a) == before)) fail("growth from %d arcs changed the graph", old); }
            applyHist(a, x, combo, i + 1, i); applyHist(b, x, combo, i + 1, i); c.eval();
            if (!(snap(a) == snap(b))) fail("after edge %d the object grown from %d arcs differs from a large one", i + 1, s);
        }
        int e0 = -1; for (graphP g : {a.g, b.g}) for (auto &e : x.e) { e0 = gp_GetNeighborEdgeRecord(g, e.first + 1, e.second + 1); if (gp_GetDirection(g, e0)) gp_SetDirection(g, e0, 0); }
        // later results: each algorithm that needs no other feature
        char al = mode == 0 ? "po"[(s / 2) % 2] : "po2"[(s / 2) % 3]; int ra, rb; auto A = resultOf(a, al, x, ra), B = resultOf(b, al, x, rb); c.eval();
        if (ra != rb || A != B) fail("algorithm %c gives a different result (%s, %s) on the object grown from %d arcs", al, rname(ra), rname(rb), s);
        // growth of an object holding a result
        if (al != '2' || ra != OK) { // (a search that found nothing leaves no result graph)
        Sn r0 = snap(a); if (gp_EnsureArcCapacity(a, cap(a) + 10) != OK) fail("growth after embedding was refused"); if (!(snap(a) == r0)) fail("growth after embedding changed the result");
        if (gp_SortVertices(a) != OK || gp_SortVertices(b) != OK) fail("gp_SortVertices failed"); if (!(snap(a) == snap(b))) fail("after sorting the grown object differs"); }
        // and it is as good as any for another run
        gp_ReinitializeGraph(a); if (addAll(a, x, 0) != OK) fail("edges were refused after reinitialization"); int r2 = gp_Embed(a, EMBEDFLAGS_PLANAR); if (r2 == OK) checkPlanarEmbedding(a, x, false, false); else if (r2 != NONEMBEDDABLE || (resultKind(a, x, false) != KIND_K5 && resultKind(a, x, false) != KIND_K33)) fail("planar embedding after growth is wrong");
        c.outcome(mix(cap(a), m * 8 + mode));
    }
    // growth while edges are hidden and vertices are merged: the undo information is kept
    for (int v = 1; v <= n; v++) for (int k = 0; k < 2; k++) {
        Gp a; gp_EnsureArcCapacity(a, 2 * m); if (gp_InitGraph(a, n) != OK || addAll(a, x, 2) != OK) fail("building failed"); Sn s0 = snap(a);
        if (k == 0) { if (gp_HideVertex(a, v) != OK) fail("gp_HideVertex failed"); } else if (n > 1) { if (gp_IdentifyVertices(a, v, v % n + 1, NIL) != OK) fail("gp_IdentifyVertices failed"); }
        if (gp_EnsureArcCapacity(a, 2 * m + 2 * n + 200) != OK) fail("growth was refused");
        if (gp_RestoreVertices(a) != OK) fail("gp_RestoreVertices failed after growth"); if (!(snap(a) == s0)) fail("restoring after growth gave another graph"); c.eval();
        // a free position survives growth
        int e = gp_GetFirstEdge(a.g); int u = gp_GetNeighbor(a, e), w = gp_GetNeighbor(a, e ^ 1); gp_DeleteEdge(a, e, 0); if (gp_EnsureArcCapacity(a, 2 * m + 2 * n + 400) != OK) fail("growth was refused"); extract(a); if (gp_AddEdge(a, u, 0, w, 0) != OK) fail("could not add an edge"); extract(a); if (gp_EdgeInUseIndexBound(a.g) != gp_GetFirstEdge(a.g) + 2 * m) fail("the free position was lost by growing"); c.eval();
    }
}
// ---- objects with exactly the needed capacity, all algorithms
static void tight(const G &x, int link, Ctx &c) {
    if (x.e.empty()) return;
    for (char a : std::string("pod234")) {
        std::vector<std::vector<int>> R[2]; int r[2]; Sn S[2];
        for (int k = 0; k < 2; k++) {
            Gp g; gp_EnsureArcCapacity(g, k ? 2 * (int)x.e.size() + 100 : 2 * (int)x.e.size()); if (k == 0 && algo(a).attach) algo(a).attach(g);
            if (gp_InitGraph(g, x.n) != OK) fail("gp_InitGraph failed"); if (k == 1 && algo(a).attach) algo(a).attach(g);
            for (size_t i = 0; i < x.e.size(); i++) if (gp_AddEdge(g, x.e[i].first + 1, link & 1, x.e[i].second + 1, link & 1) != OK) fail("edge %zu was refused", i);
            Sn s0 = snap(g); if (gp_AddEdge(g, 1, 0, x.n, 0) == OK && k == 0) fail("an edge beyond the capacity was accepted"); else if (k == 1) { gp_DeleteEdge(g, gp_GetFirstArc(g, 1), 0); }
            if (!(snap(g) == s0)) fail("the refused edge changed the graph");
            R[k] = resultOf(g, a, x, r[k]); c.eval();
        }
        if (r[0] != r[1] || R[0] != R[1]) fail("algorithm %c: an object with exactly the needed capacity gives a different result (%s) than a larger one (%s)", a, rname(r[0]), rname(r[1]));
    }
}
// ---- orders and requests at which products of sizes leave the range of integers
static void largeOrder(int n, int grow, Ctx &c) {
    Gp g; if (grow == 1 && gp_EnsureArcCapacity(g, 2 * n + 2) != OK) fail("a capacity was refused"); if (gp_InitGraph(g, n) != OK) fail("gp_InitGraph failed for %d vertices", n);
    std::vector<std::vector<int>> adj(n + 1); long long m = 0; int lastCap = cap(g);
    for (int d : {1, 2, 3, 5}) for (int v = 1; v + d <= n; v++) {
        int r = gp_DynamicAddEdge(g, v, d & 1, v + d, 0); if (r != OK) fail("edge %lld was refused (%s) at capacity %d", m + 1, rname(r), cap(g)); m++; c.states++;
        auto put = [](std::vector<int> &l, int w, int link) { if (link) l.push_back(w); else l.insert(l.begin(), w); };
        put(adj[v], v + d, d & 1); put(adj[v + d], v, 0); if (cap(g) < lastCap || cap(g) < 2 * m) fail("capacity %d with %lld edges", cap(g), m); lastCap = cap(g);
    }
    c.eval(); if (g.g->M != m) fail("%d edges counted instead of %lld", g.g->M, m);
    for (int v = 1; v <= n; v++) { size_t i = 0; for (int e = gp_GetFirstArc(g.g, v); gp_IsArc(e); e = gp_GetNextArc(g.g, e), i++) if (i >= adj[v].size() || gp_GetNeighbor(g.g, e) != adj[v][i]) fail("the edge list of vertex %d is wrong after growing", v); if (i != adj[v].size()) fail("vertex %d lost edges", v); }
    c.outcome(n * 2 + grow);
}
static void hugeRequest(int q, int n, int feats, Ctx &c) {
    Gp g; G x = cyc(std::max(n, 3)); for (int k = 0; k < 4; k++) if (feats >> k & 1) algo("d234"[k]).attach(g);
    Sn s0; if (n) { if (gp_InitGraph(g, x.n) != OK || addAll(g, x, 0) != OK) fail("building failed"); s0 = snap(g); }
    int c0 = cap(g), r = gp_EnsureArcCapacity(g, q); c.eval();
    if (r != OK && cap(g) != c0) fail("a refused request changed the capacity");
    if (n) { if (r == OK && cap(g) < q) fail("a request for %d arcs was granted, but the capacity is %d", q, cap(g)); if (!(snap(g) == s0)) fail("a request for %d arcs changed the graph", q); }
    else { int i = gp_InitGraph(g, x.n); if (i == OK && r == OK && cap(g) < q) fail("a request for %d arcs was granted, but the capacity is %d", q, cap(g)); if (r != OK && (i != OK || addAll(g, x, 0) != OK || gp_Embed(g, EMBEDFLAGS_PLANAR) != OK)) fail("the object is not usable after a refused request for %d arcs", q); }
    c.outcome(mix(r, c0));
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    vp::Check c("P14", "exploration", "every order, requested capacity, time of request and set of features up to the bounds is filled to the limit; every history of the families is run on an object grown from every starting capacity in three growth modes, in step with one that never grows; an outcome is a distinct (capacity, configuration)");
    c.assumptions = {"growing the capacity of an initialized graph with drawing, K3,3 or K4 features attached is refused by the library by design", "address and undefined-behaviour sanitizers watch every access"};
    struct A { int n, r, q, m, t; }; auto *L = new std::vector<A>();
    for (int n = 1; n <= (th ? 8 : 6); n++) { int top = n * (n - 1) + 8; for (int r = 0; r <= top; r += 2) for (int q : std::set<int>{0, 2, r, r + 2, 6 * n, 6 * n + 2, top + 10}) if (q >= 0) for (int m : {0, 1, 2, 4, 8, 15}) for (int t = 0; t < 3; t++) if (m || !t) L->push_back({n, r, q, m, t}); }
    c.add("accounting", L->size(), [=](uint64_t i, Ctx &cx) { auto a = (*L)[i]; accounting(a.n, a.r, a.q, a.m, a.t, cx); if (i % 997 == 0) cx.sample(fmt("n=%d request %d before and %d after initialization, features %d at time %d", a.n, a.r, a.q, a.m, a.t)); },
          [=](uint64_t i) { auto a = (*L)[i]; return fmt("n=%d, request before initialization %d, after %d, features %d attached at time %d", a.n, a.r, a.q, a.m, a.t); });
    static std::vector<int> LO{46340, 46341, 46342, 46343, 65535, 65536, 65537, 65538, 80265, 92681, 92682, 92683, 100000}; if (th) for (int n : {30000, 113511, 131072, 131073, 200000, 500000, 1000000}) LO.push_back(n);
    c.add("large-orders", LO.size() * 2, [](uint64_t i, Ctx &cx) { largeOrder(LO[i / 2], i % 2, cx); }, [](uint64_t i) { return fmt("%d vertices, %s", LO[i / 2], i % 2 ? "starting with as many edges" : "default capacity"); });
    static std::vector<int> HQ; for (long long b : {1LL << 30, 3LL << 29, (1LL << 31)}) for (int d = -10; d <= 10; d += 2) if (b + d >= (1LL << 30) - 2 && b + d < (1LL << 31)) HQ.push_back((int)(b + d));
    c.add("huge-requests", HQ.size() * 32, [](uint64_t i, Ctx &cx) { hugeRequest(HQ[i / 32], i % 2 ? 7 : 0, i / 2 % 16, cx); }, [](uint64_t i) { return fmt("request for %d arcs %s initialization, features %d", HQ[i / 32], i % 2 ? "after" : "before", int(i / 2 % 16)); });
    std::vector<Fam> F; for (int n = 2; n <= 5; n++) F.push_back(famMask(n)); if (th) F.push_back(famMask(5, 1));
    F.push_back(famGeng("all-graphs-order6", std::make_shared<GengStore>(gengStore(6)), th ? presAll(6, 2) : presRot(6, 1)));
    F.push_back(famGeng("all-graphs-order7", std::make_shared<GengStore>(gengStore(7)), th ? presRot(7, 1) : std::vector<Pres>{{1, 0, 0, 0}}));
    auto l = std::make_shared<GL>(); for (int n : {8, 9, 11, 13}) { l->push_back(complete(n)); l->push_back(bip(n / 2, n - n / 2)); l->push_back(wheel(n)); l->push_back(path(n)); } l->push_back(grid(3, 4)); l->push_back(petersen());
    F.push_back(famList("structured", l, [](int n) { return std::vector<Pres>{{1, 0, 0, 0}, {1, 1, 1, 1}}; }));
    auto G1 = F; for (auto &f : G1) f.name = "growth-" + f.name; addFams(c, G1, growth);
    auto G2 = F; for (auto &f : G2) f.name = "exact-" + f.name; addFams(c, G2, tight);
    c.budget = th ? 700 : 300; c.blockMax = 16; c.hangLimit = 100;
    return c.main(argc, argv);
}

// Histories: an object of the library driven through operations that are legal in its current
// phase; every operation yields a text of everything it returned, every state a snapshot.
#pragma once
#include "drawing.hpp"
inline bool zeroIO = false; // texts number the vertices from 0
struct Op { char k; int a = 0; };
inline std::string ostr(const Op &o) {
    switch (o.k) {
    case 'R': return "reinitialize"; case 'E': return fmt("add edges of graph %d", o.a); case 'm': return fmt("embed %c", o.a); case 's': return "sort"; case 'w': return fmt("write mode %d", o.a);
    case 'i': return "integrity test"; case '+': return "add an edge"; case '-': return "delete an edge"; case 'd': return "set a direction"; case 'h': return "hide an edge"; case 'H': return "restore an edge";
    case 'v': return fmt("hide vertex %d", o.a); case 'c': return "contract an edge"; case 'n': return "identify 1 and 2"; case 'V': return "restore vertices"; case 'D': return "DFS"; case 'L': return "lowpoints";
    case 'a': return fmt("attach %c", o.a); case 'x': return fmt("detach %c", o.a); case 'r': return "render"; case 'C': return "grow"; case 'A': return fmt("graph %d again, attach and embed %c", o.a >> 8, o.a & 255);
    } return "?";
}
inline std::string ostr(const std::vector<Op> &p) { std::string t; for (auto &o : p) t += (t.empty() ? "" : "; ") + ostr(o); return t; }
inline const GL &histInputs() {
    static GL l; if (l.empty()) {
        l.push_back(minusEdge(complete(5), 4));                                    // 0 maximal planar
        G k = complete(5); k.n = 7; k.add(0, 5); l.push_back(k);                   // 1 K5 with more
        l.push_back(subdivisions(bip(3, 3), 2, 1)[3]);                             // 2 K3,3 subdivided
        l.push_back(disjoint(cyc(4), path(3)));                                  // 3 outerplanar, two components
        l.push_back(G(3));                                                         // 4 no edges
        G p = petersen(); l.push_back(p);                                          // 5 Petersen
        l.push_back(plusEdge(wheel(6), 1, 3));                                     // 6
        l.push_back(bip(2, 4));                                                    // 7
        l.push_back(glueE(complete(5), 0, 1, bip(3, 3), 0, 3, 0));                 // 8 K5 and K3,3 sharing an edge
        l.push_back(grid(3, 4));                                                   // 9
    } return l;
}
struct Obj {
    graphP g = nullptr; bool init = false, empty = true, embedded = false, sorted = false, broken = false, dir = false, drawn = false; int alg = 0, res = 0, ext = 0; std::vector<int> hid; int hidv = 0; bool inputOrder = true;
    const G *x = nullptr; graphP orig = nullptr; bool own = true;
    Obj() {}
    ~Obj() { drop(); }
    Obj(const Obj &) = delete;
    void drop() { if (g) gp_Free(&g); if (orig) gp_Free(&orig); }
    static int bit(int c) { return c == 'd' ? 1 : c == '2' ? 2 : c == '3' ? 4 : c == '4' ? 8 : 0; }
    void copyStateFrom(const Obj &o) { init = o.init; empty = o.empty; embedded = o.embedded; sorted = o.sorted; broken = o.broken; dir = o.dir; drawn = o.drawn; alg = o.alg; res = o.res; ext = o.ext; hid = o.hid; hidv = o.hidv; inputOrder = o.inputOrder; x = o.x; }
    bool cons() const { return init && !broken; }
    bool legal(const Op &o) const {
        bool still = cons() && hid.empty() && !hidv;
        switch (o.k) {
        case 'R': return init; case 'E': return init && empty && still && histInputs()[o.a].n == g->N;
        case 'm': return still && !embedded && !dir && inputOrder && (!bit(o.a) || (ext & bit(o.a))) && g->M > 0 && !(o.a == 'd' && sp_NonEmpty(g->edgeHoles)); // drawing refuses graphs with deleted edges
        case 's': return still; case 'w': return still && !(o.a == WRITE_ADJMATRIX && dir) && !(o.a == WRITE_G6 && (dir || g->N < 2));
        case 'i': return still && embedded && inputOrder && x && orig; case '+': return still && !embedded; case '-': return still && g->M > 0 && !embedded;
        case 'd': return still && g->M > 0 && !embedded; case 'h': return cons() && !hidv && !embedded && g->M > 0 && hid.size() < 3; case 'H': return cons() && !hid.empty() && !hidv;
        case 'v': case 'n': case 'c': return cons() && hid.empty() && !embedded && !dir && hidv < 2 && g->M > 0 && g->N > 2; case 'V': return cons() && hidv;
        case 'D': case 'L': return still && !embedded && inputOrder;
        case 'a': return true; case 'x': return true; case 'r': return still && drawn && (ext & 1); case 'C': return init && !(ext & 13);
        case 'A': return init && histInputs()[o.a >> 8].n == g->N;
        } return false;
    }
    std::string apply(const Op &o) {
        std::string t = fmt("%c%d:", o.k, o.a); int r = OK;
        switch (o.k) {
        case 'R': gp_ReinitializeGraph(g); empty = true; embedded = sorted = broken = dir = drawn = false; hid.clear(); hidv = 0; inputOrder = true; x = nullptr; break;
        case 'E': x = &histInputs()[o.a]; r = addAll(g, *x, 2); if (r != OK) fail("could not add the edges of graph %d: %s", o.a, rname(r)); empty = x->e.empty(); break;
        case 'm': { if (orig) gp_Free(&orig); orig = gp_DupGraph(g); if (!orig) fail("gp_DupGraph failed"); r = gp_Embed(g, algo(o.a).flags); if (r != OK && r != NONEMBEDDABLE) fail("algorithm %c returned %s", o.a, rname(r)); embedded = true; alg = o.a; res = r; inputOrder = false; drawn = o.a == 'd' && r == OK; broken = (r == OK && bit(o.a) > 1) || (r != OK && o.a == 'd'); break; }
        case 's': r = gp_SortVertices(g); inputOrder = !inputOrder; break;
        case 'w': { if (zeroIO) g->internalFlags |= FLAGS_ZEROBASEDIO; char *s = nullptr; r = gp_WriteToString(g, &s, o.a); t += s ? s : "(null)"; free(s); break; }
        case 'i': r = gp_TestEmbedResultIntegrity(g, orig, res); break;
        case '+': { r = -9; for (int u = FV; u < g->N + FV && r == -9; u++) for (int v = g->N - 1 + FV; v > u && r == -9; v--) if (!gp_IsNeighbor(g, u, v)) { if (2 * g->M + 2 > gp_GetArcCapacity(g) && (ext & 13)) r = -8; else r = gp_DynamicAddEdge(g, u, 1, v, 0); if (r == OK) empty = false; x = nullptr; } break; }
        case '-': { int e = first(); r = gp_DeleteEdge(g, e, 0) > 0; x = nullptr; break; }
        case 'd': gp_SetDirection(g, first(), EDGEFLAG_DIRECTION_INONLY); dir = true; break;
        case 'h': { int e = first(); gp_HideEdge(g, e); hid.push_back(e); break; }
        case 'H': gp_RestoreEdge(g, hid.back()); hid.pop_back(); break;
        case 'v': r = gp_HideVertex(g, o.a - 1 + FV); hidv++; break;
        case 'c': r = gp_ContractEdge(g, first()); hidv++; break;
        case 'n': r = gp_IdentifyVertices(g, FV, FV + 1, NIL); hidv++; break;
        case 'V': r = gp_RestoreVertices(g); hidv = 0; break;
        case 'D': r = gp_CreateDFSTree(g); break;
        case 'L': r = gp_LowpointAndLeastAncestor(g); break;
        case 'a': r = algo(o.a).attach(g); if (r == OK) ext |= bit(o.a); break;
        case 'x': r = algo(o.a).detach(g); ext &= ~bit(o.a); if (o.a == 'd') drawn = false; break;
        case 'r': { if (zeroIO) g->internalFlags |= FLAGS_ZEROBASEDIO; char *s = nullptr; r = gp_DrawPlanar_RenderToString(g, &s); t += s ? s : "(null)"; free(s); break; }
        case 'C': r = gp_EnsureArcCapacity(g, gp_GetArcCapacity(g) + 6); break;
        case 'A': { t += apply({'R'}); t += apply({'E', o.a >> 8}); if (bit(o.a & 255) && !(ext & bit(o.a & 255))) t += apply({'a', o.a & 255}); if (legal({'m', o.a & 255})) t += apply({'m', o.a & 255}); break; }
        }
        return t + fmt("=%d ", r);
    }
    int first() const { for (int e = gp_GetFirstEdge(g); e < gp_EdgeInUseIndexBound(g); e += 2) if (gp_EdgeInUse(g, e) && listed(e)) return e; return gp_GetFirstEdge(g); }
    bool listed(int e) const { int u = gp_GetNeighbor(g, gp_GetTwinArc(g, e)); for (int f = gp_GetFirstArc(g, u); gp_IsArc(f); f = gp_GetNextArc(g, f)) if (f == e) return true; return false; }
    std::string snap() const {
        std::string t = fmt("N=%d ", g->N); if (!init) return t; if (broken) return t; t += fmt("M=%d ", g->M);
        for (int v = FV; v < 2 * g->N + FV; v++) { int e = gp_GetFirstArc(g, v), vi = gp_IsVirtualVertex(g, v); if (!gp_IsArc(e) && vi) continue; t += fmt("\n%d", shV(v)); if (!vi) t += fmt("(%d,%d)", shV(gp_GetVertexIndex(g, v)), shV(gp_GetVertexParent(g, v))); t += ":"; int prev = NIL, cnt = 0; for (; gp_IsArc(e); e = gp_GetNextArc(g, e)) { if (gp_GetPrevArc(g, e) != prev) fail("broken previous link at vertex %d", v); prev = e; if (++cnt > 10000) fail("endless adjacency list of vertex %d", v); t += fmt(" %d[%d,%d]", shV(gp_GetNeighbor(g, e)), shE(e), (int)gp_GetDirection(g, e)); } if (gp_GetLastArc(g, v) != prev) fail("broken last link at vertex %d", v); }
        return t;
    }
    void create(int n, int cap, int ext0) { g = gp_New(); if (!g) fail("gp_New failed"); if (cap) gp_EnsureArcCapacity(g, cap); for (char c : std::string("d234")) if (ext0 & bit(c)) apply({'a', c}); if (gp_InitGraph(g, n) != OK) fail("gp_InitGraph failed"); init = true; }
};
// ways of bringing an object into some state; each works for every input of histInputs()
struct Prep { std::string name; std::vector<Op> ops; };
inline std::vector<Op> ops_(const char *s) { std::vector<Op> v; for (; *s; s++) { if (*s == ' ') continue; Op o{*s, 0}; if (strchr("max", *s)) o.a = *++s; else if (*s == 'w') o.a = *++s == 'M' ? WRITE_ADJMATRIX : *s == 'G' ? WRITE_G6 : WRITE_ADJLIST; else if (*s == 'v') o.a = *++s - '0'; v.push_back(o); } return v; }
inline const std::vector<Prep> &preps() {
    static std::vector<Prep> P; if (P.empty()) {
        auto add = [&](const char *n, const char *s) { P.push_back({n, ops_(s)}); };
        add("edges", ""); add("planar", "mp"); add("planar-sorted", "mps"); add("outer-sorted", "mos"); add("drawn", "ad md"); add("drawn-sorted", "ad md s"); add("k23", "a2 m2"); add("k33", "a3 m3"); add("k4", "a4 m4"); add("k33-sorted", "a3 m3 s"); add("k23-sorted", "a2 m2 s");
        add("all-features", "ad a2 a3 a4"); add("all-features-drawn", "a4 a3 a2 ad md s"); add("all-features-k33", "ad a2 a3 a4 m3"); add("two-detached", "a2 ad a4 x2 m4");
        add("dfs", "D"); add("lowpoints-sorted", "L s"); add("hidden-edges", "h h"); add("hidden-vertex", "v2"); add("contracted", "c c"); add("identified-hidden", "n v3"); add("holes", "- - h H -"); add("directed", "d + -"); add("edited", "- + -+"); add("with-feature-hidden", "a3 h h h"); add("restored", "a4 c n V");
    } return P;
}

// P31: the record accessors, adjacency-list primitives, child and pertinent-root lists and predicates against plain models.
// Every reachable state of small models; each transition is made on the real records and everything is compared afterwards.
// The same is done, by a twin process, in the configuration with 0-based arrays.
#include "lib.hpp"
#include <map>
#include <deque>
using namespace vp;
typedef std::vector<int> St;
struct Act { std::string n; std::function<bool(const St &)> legal; std::function<void(St &)> model; std::function<void(graphP)> real; };
// all reachable states from the initial one
static void explore(const St &s0, const std::function<graphP()> &mk, const std::vector<Act> &A, const std::function<std::string(graphP, const St &)> &differs, size_t maxDepth, Ctx &c) {
    std::map<St, std::vector<short>> seen; std::deque<St> q; seen[s0] = {}; q.push_back(s0);
    { Gp g; gp_Free(&g.g); g.g = mk(); std::string d = differs(g, s0); if (!d.empty()) fail("initially: %s", d.c_str()); }
    while (!q.empty()) {
        St s = q.front(); q.pop_front(); std::vector<short> path = seen[s]; c.states++; if (path.size() >= maxDepth) continue;
        for (size_t k = 0; k < A.size(); k++) if (A[k].legal(s)) {
            Gp g; gp_Free(&g.g); g.g = mk(); for (short p : path) A[p].real(g); St t = s; A[k].model(t); A[k].real(g); c.trans++;
            std::string d = differs(g, t); if (!d.empty()) { std::string tr; for (short p : path) tr += A[p].n + "; "; fail("after %s%s: %s", tr.c_str(), A[k].n.c_str(), d.c_str()); }
            if (!seen.count(t)) { auto np = path; np.push_back((short)k); seen[t] = np; q.push_back(t); }
        }
    }
    c.eval(c.trans); c.outcome(seen.size() * 1000003 + c.trans);
}
static auto always = [](const St &) { return true; };
static graphP star(int n, int d) { graphP g = gp_New(); if (!g || gp_InitGraph(g, n) != OK) fail("no graph"); for (int i = 1; i <= d; i++) if (gp_AddEdge(g, FV, 1, FV + i, 0) != OK) fail("gp_AddEdge failed"); return g; }
#ifdef PRIV
static void setApp(graphP g, int e, int on) { if (on) g->E[e].flags |= 1u << 16; else g->E[e].flags &= ~(1u << 16); } static int app(graphP g, int e) { return (g->E[e].flags >> 16) & 1; }
static void setVApp(graphP g, int v, int on) { if (on) g->V[v].flags |= 1u << 16; else g->V[v].flags &= ~(1u << 16); } static int vapp(graphP g, int v) { return (g->V[v].flags >> 16) & 1; }
static const bool APPBITS = true;
#else
static void setApp(graphP, int, int) {} static int app(graphP, int) { return 0; } static void setVApp(graphP, int, int) {} static int vapp(graphP, int) { return 0; }
static const bool APPBITS = false;
#endif
// ---- the flags of an edge: both arcs of one edge, beside another edge
static const int TYPES[] = {EDGE_TYPE_NOTDEFINED, EDGE_TYPE_CHILD, EDGE_TYPE_FORWARD, EDGE_TYPE_PARENT, EDGE_TYPE_BACK, EDGE_TYPE_RANDOMTREE};
static const int DIRS[] = {0, EDGEFLAG_DIRECTION_INONLY, EDGEFLAG_DIRECTION_OUTONLY};
static void edgeFlags(uint64_t env, Ctx &c) { // state: arc a: visited, type, inverted, direction, application; arc b
    int E0 = FARC + 2, other = FARC, ot = (int)(env % 6), od = (int)(env / 6 % 3);
    auto mk = [=] { graphP g = star(4, 3); gp_ResetEdgeType(g, other, TYPES[ot]); gp_SetDirection(g, other, DIRS[od]); if (env & 1) { gp_SetEdgeVisited(g, other); gp_SetEdgeFlagInverted(g, gp_GetTwinArc(g, other)); } return g; };
    std::vector<Act> A;
    for (int t = 0; t < 2; t++) { int e = E0 + t, b = t * 5, o = 5 - b; std::string w = t ? " second arc" : " first arc";
        A.push_back({"set visited" + w, always, [=](St &s) { s[b] = 1; }, [=](graphP g) { gp_SetEdgeVisited(g, e); }});
        A.push_back({"clear visited" + w, always, [=](St &s) { s[b] = 0; }, [=](graphP g) { gp_ClearEdgeVisited(g, e); }});
        for (int k = 0; k < 6; k++) { int ty = TYPES[k]; A.push_back({fmt("reset type to %d", ty) + w, always, [=](St &s) { s[b + 1] = ty; }, [=](graphP g) { gp_ResetEdgeType(g, e, ty); }});
            A.push_back({fmt("set type %d", ty) + w, [=](const St &s) { return s[b + 1] == 0; }, [=](St &s) { s[b + 1] = ty; }, [=](graphP g) { gp_SetEdgeType(g, e, ty); }}); }
        A.push_back({"clear type" + w, always, [=](St &s) { s[b + 1] = 0; }, [=](graphP g) { gp_ClearEdgeType(g, e); }});
        A.push_back({"set inverted" + w, always, [=](St &s) { s[b + 2] = 1; }, [=](graphP g) { gp_SetEdgeFlagInverted(g, e); }});
        A.push_back({"clear inverted" + w, always, [=](St &s) { s[b + 2] = 0; }, [=](graphP g) { gp_ClearEdgeFlagInverted(g, e); }});
        A.push_back({"xor inverted" + w, always, [=](St &s) { s[b + 2] ^= 1; }, [=](graphP g) { gp_XorEdgeFlagInverted(g, e); }});
        for (int k = 0; k < 3; k++) A.push_back({fmt("direction %d", DIRS[k]) + w, always, [=](St &s) { s[b + 3] = DIRS[k]; s[o + 3] = k ? DIRS[3 - k] : 0; }, [=](graphP g) { gp_SetDirection(g, e, DIRS[k]); }});
        if (APPBITS && !t) for (int k = 0; k < 2; k++) A.push_back({fmt("application bit %d", k) + w, always, [=](St &s) { s[b + 4] = k; }, [=](graphP g) { setApp(g, e, k); }});
        A.push_back({"init flags" + w, [=](const St &s) { return s[b + 3] == 0; }, [=](St &s) { s[b] = s[b + 1] = s[b + 2] = s[b + 4] = 0; }, [=](graphP g) { gp_InitEdgeFlags(g, e); }});
    }
    explore(St(10, 0), mk, A, [=](graphP g, const St &s) -> std::string {
        for (int t = 0; t < 2; t++) { int e = E0 + t, b = t * 5; int got[5] = {!!gp_GetEdgeVisited(g, e), (int)gp_GetEdgeType(g, e), !!gp_GetEdgeFlagInverted(g, e), (int)gp_GetDirection(g, e), app(g, e)}; static const char *N[] = {"visited", "type", "inverted", "direction", "application bit"};
            for (int k = 0; k < 5; k++) if (got[k] != s[b + k]) return fmt("the %s of the %s arc is %d, should be %d", N[k], t ? "second" : "first", got[k], s[b + k]);
            if (gp_GetNeighbor(g, e) != (t ? FV : FV + 2) && gp_GetNeighbor(g, e) != (t ? FV + 2 : FV)) return "the neighbor changed"; }
        int x = other, y = gp_GetTwinArc(g, other); if ((int)gp_GetEdgeType(g, x) != TYPES[ot] || gp_GetEdgeType(g, y) || (int)gp_GetDirection(g, x) != DIRS[od] || (int)gp_GetDirection(g, y) != (od ? DIRS[3 - od] : 0) || !!gp_GetEdgeVisited(g, x) != (int)(env & 1) || gp_GetEdgeVisited(g, y) || gp_GetEdgeFlagInverted(g, x) || !!gp_GetEdgeFlagInverted(g, y) != (int)(env & 1)) return "another edge changed";
        return ""; }, 99, c);
}
// ---- a vertex's flags and index: two vertices, copied and exchanged
static void vertexFlags(uint64_t env, Ctx &c) {
    static const int OT[] = {VERTEX_OBSTRUCTIONTYPE_UNKNOWN, VERTEX_OBSTRUCTIONTYPE_HIGH_RXW, VERTEX_OBSTRUCTIONTYPE_LOW_RXW, VERTEX_OBSTRUCTIONTYPE_HIGH_RYW, VERTEX_OBSTRUCTIONTYPE_LOW_RYW};
    int N = 4, V[2] = {FV + (int)(env % 2), env / 2 ? FV + N + 1 : FV + 2}; auto mk = [=] { graphP g = star(N, 3); for (int v = FV; v < FV + N; v++) gp_SetVertexIndex(g, v, 50 + v); for (int v : V) { gp_InitVertexFlags(g, v); gp_SetVertexIndex(g, v, 0); } return g; };
    std::vector<Act> A;
    for (int t = 0; t < 2; t++) { int v = V[t], b = t * 4; std::string w = t ? " second" : " first";
        A.push_back({"set visited" + w, always, [=](St &s) { s[b] = 1; }, [=](graphP g) { gp_SetVertexVisited(g, v); }});
        A.push_back({"clear visited" + w, always, [=](St &s) { s[b] = 0; }, [=](graphP g) { gp_ClearVertexVisited(g, v); }});
        for (int k = 0; k < 5; k++) { int ty = OT[k]; A.push_back({fmt("reset obstruction type %d", ty) + w, always, [=](St &s) { s[b + 1] = ty; }, [=](graphP g) { gp_ResetVertexObstructionType(g, v, ty); }});
            A.push_back({fmt("set obstruction type %d", ty) + w, [=](const St &s) { return s[b + 1] == 0; }, [=](St &s) { s[b + 1] = ty; }, [=](graphP g) { gp_SetVertexObstructionType(g, v, ty); }}); }
        A.push_back({"clear obstruction type" + w, always, [=](St &s) { s[b + 1] = 0; }, [=](graphP g) { gp_ClearVertexObstructionType(g, v); }});
        for (int k = 0; k < 2; k++) { A.push_back({fmt("index %d", 3 * k) + w, always, [=](St &s) { s[b + 2] = 3 * k; }, [=](graphP g) { gp_SetVertexIndex(g, v, 3 * k); }}); if (APPBITS) A.push_back({fmt("application bit %d", k) + w, always, [=](St &s) { s[b + 3] = k; }, [=](graphP g) { setVApp(g, v, k); }}); }
        A.push_back({"init flags" + w, always, [=](St &s) { s[b] = s[b + 1] = s[b + 3] = 0; }, [=](graphP g) { gp_InitVertexFlags(g, v); }});
        int u = V[1 - t]; A.push_back({"copied onto" + w, always, [=](St &s) { for (int k = 0; k < 4; k++) s[b + k] = s[4 - b + k]; }, [=](graphP g) { int f = gp_GetFirstArc(g, v), l = gp_GetLastArc(g, v); gp_CopyVertexRec(g, v, g, u); if (gp_GetFirstArc(g, v) != gp_GetFirstArc(g, u) || gp_GetLastArc(g, v) != gp_GetLastArc(g, u)) fail("a copied vertex record has other arcs"); gp_SetFirstArc(g, v, f); gp_SetLastArc(g, v, l); }}); }
    A.push_back({"exchanged", always, [=](St &s) { for (int k = 0; k < 4; k++) std::swap(s[k], s[k + 4]); }, [=](graphP g) { int a[4]; for (int k = 0; k < 4; k++) a[k] = gp_GetArc(g, V[k / 2], k % 2); gp_SwapVertexRec(g, V[0], g, V[1]); for (int k = 0; k < 4; k++) if (gp_GetArc(g, V[1 - k / 2], k % 2) != a[k]) fail("exchanged vertex records have other arcs"); for (int k = 0; k < 4; k++) gp_SetArc(g, V[k / 2], k % 2, a[k]); }});
    explore(St(8, 0), mk, A, [=](graphP g, const St &s) -> std::string {
        for (int t = 0; t < 2; t++) { int v = V[t], b = t * 4; int got[4] = {!!gp_GetVertexVisited(g, v), (int)gp_GetVertexObstructionType(g, v), gp_GetVertexIndex(g, v), vapp(g, v)}; static const char *N[] = {"visited", "obstruction type", "index", "application bit"};
            for (int k = 0; k < 4; k++) if (got[k] != s[b + k]) return fmt("the %s of the %s vertex is %d, should be %d", N[k], t ? "second" : "first", got[k], s[b + k]); }
        for (int v = FV; v < FV + 4; v++) if (v != V[0] && v != V[1] && (gp_GetVertexVisited(g, v) || gp_GetVertexObstructionType(g, v) || gp_GetVertexIndex(g, v) != 50 + v)) return "another vertex changed";
        if (gp_GetVertexDegree(g, FV) != 3) return "the adjacency changed"; return ""; }, 99, c);
}
// ---- vertex information and external face links: all sequences of assignments, copies and exchanges
static int vi(graphP g, int v, int f) { switch (f) { case 0: return gp_GetVertexParent(g, v); case 1: return gp_GetVertexLeastAncestor(g, v); case 2: return gp_GetVertexLowpoint(g, v); case 3: return gp_GetVertexVisitedInfo(g, v); case 4: return gp_GetVertexPertinentEdge(g, v); case 5: return gp_GetVertexPertinentRootsList(g, v); case 6: return gp_GetVertexFuturePertinentChild(g, v); case 7: return gp_GetVertexSortedDFSChildList(g, v); case 8: return gp_GetVertexFwdArcList(g, v); case 9: return gp_GetExtFaceVertex(g, v, 0); default: return gp_GetExtFaceVertex(g, v, 1); } }
static void viSet(graphP g, int v, int f, int x) { switch (f) { case 0: gp_SetVertexParent(g, v, x); break; case 1: gp_SetVertexLeastAncestor(g, v, x); break; case 2: gp_SetVertexLowpoint(g, v, x); break; case 3: gp_SetVertexVisitedInfo(g, v, x); break; case 4: gp_SetVertexPertinentEdge(g, v, x); break; case 5: gp_SetVertexPertinentRootsList(g, v, x); break; case 6: gp_SetVertexFuturePertinentChild(g, v, x); break; case 7: gp_SetVertexSortedDFSChildList(g, v, x); break; case 8: gp_SetVertexFwdArcList(g, v, x); break; case 9: gp_SetExtFaceVertex(g, v, 0, x); break; default: gp_SetExtFaceVertex(g, v, 1, x); } }
static const char *const VN[] = {"parent", "least ancestor", "lowpoint", "visited info", "pertinent edge", "pertinent roots", "future pertinent child", "child list", "forward arcs", "face link 0", "face link 1"};
static void vertexInfo_(uint64_t i, int len, Ctx &c) {
    Gp g; gp_Free(&g.g); g.g = star(3, 2); int m[3][11], val = 1; for (int v = 0; v < 3; v++) for (int f = 0; f < 11; f++) { m[v][f] = 100 + v * 11 + f; viSet(g, FV + v, f, m[v][f]); }
    std::string tr; const int NA = 22 + 3;
    for (int j = 0; j < len; j++, i /= NA) { int a = (int)(i % NA); if (a < 22) { int v = a / 11, f = a % 11; val += 7; viSet(g, FV + v, f, val); m[v][f] = val; tr += fmt("; set %s of %d", VN[f], v); }
        else if (a == 22) { gp_SwapVertexInfo(g, FV, g, FV + 1); for (int f = 0; f < 9; f++) std::swap(m[0][f], m[1][f]); tr += "; exchange"; }
        else { int d = a - 23; gp_CopyVertexInfo(g, FV + d, g, FV + 1 - d); for (int f = 0; f < 9; f++) m[d][f] = m[1 - d][f]; tr += fmt("; copy onto %d", d); }
        for (int v = 0; v < 3; v++) for (int f = 0; f < 11; f++) if (vi(g, FV + v, f) != m[v][f]) fail("after%s: the %s of vertex %d is %d, should be %d", tr.c_str(), VN[f], v, vi(g, FV + v, f), m[v][f]);
        c.trans++; c.states++; }
    c.eval(); c.outcome(hashs(tr));
    for (int v = 0; v < 3; v++) for (int f = 0; f < 11; f++) viSet(g, FV + v, f, NIL);
}
// ---- the adjacency list of a vertex: state is the list, then 0, then the detached arcs in order of arc
static void adjacency(uint64_t dd, Ctx &c) {
    int d = (int)dd + 1, N = d + 1; std::vector<int> arc(d); std::vector<Act> A;
    { Gp g; gp_Free(&g.g); g.g = star(N, d); for (int i = 0; i < d; i++) { int e = gp_GetFirstArc(g, FV + 1 + i); if (!gp_IsArc(e) || gp_GetNeighbor(g, e) != FV) fail("a leaf has no arc to the center"); arc[i] = gp_GetTwinArc(g, e); if (gp_GetNeighbor(g, arc[i]) != FV + 1 + i) fail("the twin of a leaf's arc does not lead to the leaf"); } }
    auto in = [](const St &s, int a) { return std::find(s.begin(), s.end(), a) != s.end(); }; auto rem = [](St &s, int a) { s.erase(std::find(s.begin(), s.end(), a)); };
    for (int i = 0; i < d; i++) { int e = arc[i], a = i;
        auto att = [=](const St &s) { return in(s, a); }; auto det = [=](const St &s) { return !in(s, a); };
        A.push_back({fmt("move %d first", i), att, [=](St &s) { rem(s, a); s.insert(s.begin(), a); }, [=](graphP g) { gp_MoveArcToFirst(g, FV, e); }});
        A.push_back({fmt("move %d last", i), att, [=](St &s) { rem(s, a); s.push_back(a); }, [=](graphP g) { gp_MoveArcToLast(g, FV, e); }});
        A.push_back({fmt("detach %d", i), att, [=](St &s) { rem(s, a); }, [=](graphP g) { gp_DetachArc(g, e); }});
        A.push_back({fmt("attach %d first", i), det, [=](St &s) { s.insert(s.begin(), a); }, [=](graphP g) { gp_AttachFirstArc(g, FV, e); }});
        A.push_back({fmt("attach %d last", i), det, [=](St &s) { s.push_back(a); }, [=](graphP g) { gp_AttachLastArc(g, FV, e); }});
        for (int l = 0; l < 2; l++) A.push_back({fmt("attach %d at end %d", i, l), det, [=](St &s) { if (l) s.push_back(a); else s.insert(s.begin(), a); }, [=](graphP g) { gp_AttachArc(g, FV, NIL, l, e); }});
        for (int j = 0; j < d; j++) if (j != i) for (int l = 0; l < 2; l++) { int f = arc[j], b = j; A.push_back({fmt("attach %d at link %d of %d", i, l, j), [=](const St &s) { return !in(s, a) && in(s, b); }, [=](St &s) { s.insert(std::find(s.begin(), s.end(), b) + (l ? 0 : 1), a); }, [=](graphP g) { gp_AttachArc(g, FV, f, l, e); }}); } }
    St s0; for (int i = 0; i < d; i++) s0.push_back(i);
    explore(s0, [=] { return star(N, d); }, A, [=](graphP g, const St &s) -> std::string {
        size_t k = s.size(); int f = gp_GetFirstArc(g, FV), l = gp_GetLastArc(g, FV); if (gp_GetArc(g, FV, 0) != f || gp_GetArc(g, FV, 1) != l) return "gp_GetArc differs from the first and last arc";
        if (!k) return gp_IsArc(f) || gp_IsArc(l) ? "an empty list has arcs" : ""; if (f != arc[s[0]]) return "wrong first arc"; if (l != arc[s[k - 1]]) return "wrong last arc";
        for (size_t i = 0; i < k; i++) { int e = arc[s[i]], n = i + 1 < k ? arc[s[i + 1]] : NIL, p = i ? arc[s[i - 1]] : NIL; if (gp_GetNextArc(g, e) != n) return fmt("wrong arc after arc %d", s[i]); if (gp_GetPrevArc(g, e) != p) return fmt("wrong arc before arc %d", s[i]);
            if (gp_GetNextArcCircular(g, e) != arc[s[(i + 1) % k]]) return "wrong circular successor"; if (gp_GetPrevArcCircular(g, e) != arc[s[(i + k - 1) % k]]) return "wrong circular predecessor"; if (gp_GetAdjacentArc(g, e, 0) != n || gp_GetAdjacentArc(g, e, 1) != p) return "gp_GetAdjacentArc differs"; if (gp_GetNeighbor(g, e) != FV + 1 + s[i]) return "wrong neighbor"; }
        for (int i = 0; i < (int)arc.size(); i++) { int v = FV + 1 + i, t = gp_GetTwinArc(g, arc[i]); if (gp_GetFirstArc(g, v) != t || gp_GetLastArc(g, v) != t || gp_IsArc(gp_GetNextArc(g, t)) || gp_IsArc(gp_GetPrevArc(g, t)) || gp_GetNeighbor(g, t) != FV) return "another vertex's list changed"; }
        if (gp_GetVertexDegree(g, FV) != (int)k) return "wrong degree"; return ""; }, 99, c);
}
// ---- pertinent root lists of two vertices over the same children: state is list 1, -1, list 2
static void rootLists(uint64_t kk, Ctx &c) {
    int k = (int)kk + 1, N = k + 2; std::vector<Act> A; auto mk = [=] { graphP g = gp_New(); gp_InitGraph(g, N); return g; };
    auto in = [](const St &s, int a) { return std::find(s.begin(), s.end(), a) != s.end(); }; auto sep = [](const St &s) { return std::find(s.begin(), s.end(), -1) - s.begin(); };
    for (int i = 0; i < k; i++) for (int t = 0; t < 2; t++) { int h = FV + N - 1 - t, ch = FV + i; auto out = [=](const St &s) { return !in(s, i); };
        A.push_back({fmt("prepend %d to %d", i, t), out, [=](St &s) { s.insert(s.begin() + (t ? sep(s) + 1 : 0), i); }, [=](graphP g) { int R = gp_GetRootFromDFSChild(g, ch); gp_PrependVertexPertinentRoot(g, h, R); }});
        A.push_back({fmt("append %d to %d", i, t), out, [=](St &s) { if (t) s.push_back(i); else s.insert(s.begin() + sep(s), i); }, [=](graphP g) { int R = gp_GetRootFromDFSChild(g, ch); gp_AppendVertexPertinentRoot(g, h, R); }});
        A.push_back({fmt("delete %d from %d", i, t), [=](const St &s) { return in(s, i) && (std::find(s.begin(), s.end(), i) - s.begin() > sep(s)) == !!t; }, [=](St &s) { s.erase(std::find(s.begin(), s.end(), i)); }, [=](graphP g) { int R = gp_GetRootFromDFSChild(g, ch); gp_DeleteVertexPertinentRoot(g, h, R); }}); }
    explore(St{-1}, mk, A, [=](graphP g, const St &s) -> std::string {
        for (int t = 0; t < 2; t++) { int h = FV + N - 1 - t; St l(t ? s.begin() + sep(s) + 1 : s.begin(), t ? s.end() : s.begin() + sep(s)); int head = gp_GetVertexPertinentRootsList(g, h);
            if (NOTPERTINENT(g, h) != l.empty() || !!PERTINENT(g, h) == l.empty()) return "pertinence differs from the list"; if (l.empty()) { if (gp_IsVertex(head)) return "an empty list has a head"; continue; }
            if (head != FV + l[0] || gp_GetVertexFirstPertinentRootChild(g, h) != FV + l[0] || gp_GetVertexFirstPertinentRoot(g, h) != gp_GetRootFromDFSChild(g, FV + l[0])) return "wrong first root"; if (gp_GetVertexLastPertinentRootChild(g, h) != FV + l.back() || gp_GetVertexLastPertinentRoot(g, h) != gp_GetRootFromDFSChild(g, FV + l.back())) return "wrong last root";
            int x = head; for (size_t i = 0; i < l.size(); i++) { if (x != FV + l[i]) return "wrong list"; x = LCGetNext(g->BicompRootLists, head, x); } if (x != NIL) return "the list does not end"; }
        return ""; }, 99, c);
}
// ---- lists of DFS children, and the next future pertinent one: all lists, lowpoints, separations, steps and starts
static void children(uint64_t i, Ctx &c) {
    int k = (int)(i % 5); i /= 5; int N = 10, v = FV + 5, w = FV + 9; std::vector<int> ch; for (int a = 0; a < k; a++) ch.push_back(FV + a + 1); for (uint64_t p = i % 24; p--;) std::next_permutation(ch.begin(), ch.end()); i /= 24;
    int low[4], sp[4]; for (int a = 0; a < 4; a++) { low[a] = (int)(i % 3) - 1; i /= 3; sp[a] = (int)(i & 1); i >>= 1; }
    for (int start = 0; start <= k; start++) { Gp g; gp_InitGraph(g, N); if (gp_AddEdge(g, FV, 0, FV + 1, 0) != OK) fail("gp_AddEdge failed");
        for (int a = 0; a < k; a++) { gp_SetVertexSortedDFSChildList(g, w, gp_AppendDFSChild(g, w, ch[a])); gp_SetVertexLowpoint(g, ch[a], v + low[a]); gp_SetVertexParent(g, ch[a], w); if (sp[a]) gp_SetFirstArc(g, gp_GetRootFromDFSChild(g, ch[a]), FARC);
            if (gp_GetPrimaryVertexFromRoot(g, gp_GetRootFromDFSChild(g, ch[a])) != w) fail("a root's primary vertex is not the parent"); if (!!gp_IsSeparatedDFSChild(g, ch[a]) != sp[a] || !!gp_IsNotSeparatedDFSChild(g, ch[a]) == sp[a]) fail("separation of a child is wrong"); }
        int x = gp_GetVertexSortedDFSChildList(g, w); for (int a = 0; a < k; a++) { if (x != ch[a]) fail("the child list differs at position %d", a); x = gp_GetVertexNextDFSChild(g, w, x); } if (gp_IsVertex(x)) fail("the child list does not end");
        gp_SetVertexFuturePertinentChild(g, w, start < k ? ch[start] : NIL); gp_SetVertexLeastAncestor(g, w, v); gp_UpdateVertexFuturePertinentChild(g, w, v); int want = NIL; for (int a = start; a < k; a++) if (low[a] < 0 && sp[a]) { want = ch[a]; break; }
        if (gp_GetVertexFuturePertinentChild(g, w) != want) fail("with %d children from %d: the future pertinent child is %d, should be %d", k, start, shV(gp_GetVertexFuturePertinentChild(g, w)), shV(want));
        if (!!FUTUREPERTINENT(g, w, v) != (want != NIL) || !!NOTFUTUREPERTINENT(g, w, v) == (want != NIL)) fail("future pertinence by a child is wrong"); c.eval(); c.trans++; for (int a = 0; a < k; a++) gp_SetFirstArc(g, gp_GetRootFromDFSChild(g, ch[a]), NIL); }
    c.states++; c.outcome(k);
}
static void predicates(uint64_t i, Ctx &c) {
    Gp g; gp_InitGraph(g, 12); int v = FV + 6, w = FV + 8, ch = FV + 10; int pe = i & 1, pr = (int)(i / 2 % 2), la = (int)(i / 4 % 3) - 1, fc = (int)(i / 12 % 2), lo = (int)(i / 24 % 3) - 1;
    gp_SetVertexPertinentEdge(g, w, pe ? FARC : NIL); gp_SetVertexPertinentRootsList(g, w, pr ? ch : NIL); gp_SetVertexLeastAncestor(g, w, v + la); gp_SetVertexFuturePertinentChild(g, w, fc ? ch : NIL); gp_SetVertexLowpoint(g, ch, v + lo);
    bool P = pe || pr, F = la < 0 || (fc && lo < 0); if (!!PERTINENT(g, w) != P || !!NOTPERTINENT(g, w) == P) fail("pertinence of case %d is wrong", (int)i); if (!!FUTUREPERTINENT(g, w, v) != F || !!NOTFUTUREPERTINENT(g, w, v) == F) fail("future pertinence of case %d is wrong", (int)i); if (!!INACTIVE(g, w, v) != (!P && !F)) fail("inactivity of case %d is wrong", (int)i);
    gp_SetVertexPertinentRootsList(g, w, NIL); c.eval(); c.states++; c.outcome(P * 2 + F + 10);
}
// ---- the index ranges
static void ranges(uint64_t i, Ctx &c) {
    int N = (int)i + 1; Gp g; if (gp_InitGraph(g, N) != OK) fail("no graph"); std::vector<int> a, b, r; for (int v = gp_GetFirstVertex(g); gp_VertexInRange(g, v); v++) { a.push_back(v); if (!gp_IsVertex(v) || gp_IsNotVertex(v) || gp_IsVirtualVertex(g, v) || !gp_IsNotVirtualVertex(g, v)) fail("vertex %d of %d is classified wrongly", shV(v), N); }
    for (int v = gp_GetLastVertex(g); gp_VertexInRangeDescending(g, v); v--) b.push_back(v); std::reverse(b.begin(), b.end()); if ((int)a.size() != N || a != b) fail("the %d vertices are not enumerated ascending and descending alike", N); if (gp_IsVertex(NIL) || !gp_IsNotVertex(NIL) || gp_IsArc(NIL) || !gp_IsNotArc(NIL)) fail("NIL is classified wrongly");
    for (int v = gp_GetFirstVirtualVertex(g); gp_VirtualVertexInRange(g, v); v++) { r.push_back(v); if (gp_IsNotVirtualVertex(g, v) || !gp_IsVirtualVertex(g, v) || gp_VirtualVertexInUse(g, v) || !gp_VirtualVertexNotInUse(g, v)) fail("virtual vertex %d of %d is classified wrongly", shV(v), N); }
    if ((int)r.size() != N || gp_GetLastVirtualVertex(g) != r.back() || r[0] != a.back() + 1 || gp_PrimaryVertexIndexBound(g) != r[0] || gp_VertexIndexBound(g) != r.back() + 1) fail("the virtual vertices of %d vertices are not as many, next to them", N);
    for (int k = 0; k < N; k++) { if (gp_GetRootFromDFSChild(g, a[k]) != r[k] || gp_GetDFSChildFromRoot(g, r[k]) != a[k]) fail("root %d of %d", k, N); gp_SetVertexParent(g, a[k], k ? a[k / 2] : NIL); if (gp_GetPrimaryVertexFromRoot(g, r[k]) != (k ? a[k / 2] : NIL)) fail("primary vertex of root %d", k); if (!!gp_IsDFSTreeRoot(g, a[k]) != !k || !!gp_IsNotDFSTreeRoot(g, a[k]) == !k) fail("tree root %d", k); }
    int cap = gp_GetArcCapacity(g); if (gp_EdgeIndexBound(g) != gp_GetFirstEdge(g) + cap) fail("the bound of the arcs differs from the capacity"); std::vector<std::pair<int, int>> E; for (int u = 0; u < N; u++) for (int d = 1; d <= 3 && u + d < N && (int)E.size() * 2 < cap; d++) { if (gp_AddEdge(g, a[u], 0, a[u + d], 0) != OK) fail("gp_AddEdge failed"); E.push_back({u, u + d}); }
    auto count = [&] { int n = 0; for (int e = gp_GetFirstEdge(g); e < gp_EdgeInUseIndexBound(g); e++) { n += !!gp_EdgeInUse(g, e); if (!!gp_EdgeInUse(g, e) == !!gp_EdgeNotInUse(g, e)) fail("arc %d is both in use and not", e); if (gp_GetTwinArc(g, gp_GetTwinArc(g, e)) != e || gp_GetTwinArc(g, e) == e || !!gp_EdgeInUse(g, e) != !!gp_EdgeInUse(g, gp_GetTwinArc(g, e))) fail("twin of arc %d", e); } for (int e = gp_EdgeInUseIndexBound(g); e < gp_EdgeIndexBound(g); e++) if (gp_EdgeInUse(g, e)) fail("an arc beyond the bound is in use"); return n; };
    int m = (int)E.size(); if (count() != 2 * m) fail("%d edges, but %d arcs in use", m, count()); for (int k = 0; k < m; k += 2) { int e = gp_GetNeighborEdgeRecord(g, a[E[k].first], a[E[k].second]); if (!gp_IsArc(e)) fail("an edge is missing"); gp_DeleteEdge(g, e, 0); if (count() != 2 * (m - k / 2 - 1)) fail("after deleting: wrong number of arcs in use"); }
    c.eval(); c.states++; c.outcome(N);
}
static uint64_t pw(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    static vp::Check c("P31", "model_checking", "explicit-state exploration of the records: every state reachable by the operations from the initial one (flags, vertex records, adjacency lists, root lists), every sequence of assignments of the stated length, every combination of the fields that predicates depend on; after each transition, made on the real records by the library's accessors, all fields are compared; in both array configurations");
    c.assumptions = {"gp_SetEdgeType and gp_SetVertexObstructionType are used as documented, when no type is set", "the other array configuration runs in a twin process under AddressSanitizer and UBSan"};
    struct F { std::string n; uint64_t k; std::function<void(uint64_t, Ctx &)> f; }; std::vector<F> V;
    V.push_back({"edge-flags", th ? 18u : 4u, edgeFlags}); V.push_back({"vertex-flags", 4, vertexFlags}); for (int l = 1; l <= (th ? 4 : 3); l++) V.push_back({fmt("vertex-information-%d-operations", l), pw(25, l), [l](uint64_t i, Ctx &x) { vertexInfo_(i, l, x); }});
    V.push_back({"adjacency-lists", th ? 6u : 5u, adjacency}); V.push_back({"root-lists", th ? 5u : 4u, rootLists}); V.push_back({"children", 5 * 24 * 1296, children}); V.push_back({"predicates", 72, predicates}); V.push_back({"index-ranges", th ? 400u : 100u, ranges});
    for (auto &f : V) c.add(f.n, f.k, f.f);
    for (size_t k = 0; k < V.size(); k++) c.add("zero-based-" + V[k].n, V[k].k, [k](uint64_t i, Ctx &x) { c.twinRun((int)k, i, x); });
    c.budget = th ? 700 : 250; c.hangLimit = 200;
    return c.main(argc, argv);
}

// P10: the integrity test accepts exactly the correct results.
#include "drawing.hpp"
#ifdef PRIV
extern "C" {
#include "planarityRelated/graphDrawPlanar.private.h"
}
#endif
static bool oracle(char a, int claim, graphP g, const G &x) {
    Rot r; r = extract(g); // structural failure is a harness failure here
    ES s = edgeSet(r), o = edgeSet(x); if ((int)s.size() != g->M) return false;
    for (auto &p : s) if (!o.count(p)) return false;
    if (claim == OK) {
        if (s != o) return false;
        Faces f = faces(g, r);
        if (r.n - g->M + f.faces + f.isolated != 2 * f.comps) return false;
        return a == 'o' ? f.outer : true;
    }
    std::vector<std::pair<int, int>> E; for (auto &p : s) E.push_back({p.first - 1, p.second - 1});
    Kind k = subdivisionKind(x.n, E);
    switch (a) { case 'p': return k == KIND_K5 || k == KIND_K33; case 'o': return k == KIND_K4 || k == KIND_K23; case '2': return k == KIND_K23; case '3': return k == KIND_K33; case '4': return k == KIND_K4; }
    return false;
}
struct Obj { Gp g, orig; int r; };
static void build(Obj &o, const G &x, int link, char a) {
    const Algo &A = algo(a);
    initFor(o.g, x, true); if (A.attach && A.attach(o.g) != OK) fail("attach failed"); if (addAll(o.g, x, link) != OK) fail("could not add the edges");
    initFor(o.orig, x, true); if (addAll(o.orig, x, link) != OK) fail("could not add the edges");
    o.r = gp_Embed(o.g, A.flags); if (o.r != OK && o.r != NONEMBEDDABLE) fail("gp_Embed returned %s", rname(o.r));
    if (gp_SortVertices(o.g) != OK) fail("gp_SortVertices failed");
}
static void judge(Obj &o, const G &x, char a, int claim, const char *what, Ctx &c) {
    bool want = oracle(a, claim, o.g, x);
    int got = gp_TestEmbedResultIntegrity(o.g, o.orig, claim); c.eval();
    // the outer face of an outerplanar result is the one at the ends of the root's list: an
    // alteration that moves it away from there may be refused
    if (a == 'o' && claim == OK && want && got == NOTOK && strcmp(what, "unaltered")) return;
    if ((got == claim) != want || (got != claim && got != NOTOK)) fail("algorithm %c, %s: the integrity test of a claimed %s returned %s, but the result is %s", a, what, rname(claim), rname(got), want ? "correct" : "not correct");
    c.outcome(mix(mix(a * 8 + claim + 3, want), x.n * 100 + o.g.g->M));
}
static const int OTHER(int r) { return r == OK ? NONEMBEDDABLE : OK; }
static bool checkable(char a, int claim) { return claim == OK ? (a == 'p' || a == 'o' || a == 'd') : a != 'd'; }
static int mutLevel = 1;
static void one(const G &x, int link, Ctx &c) {
    for (char a : std::string("po234")) {
        std::vector<std::pair<int, int>> res; std::vector<std::vector<int>> deg; int r;
        {
            Obj o; build(o, x, link, a); r = o.r;
            int got = gp_TestEmbedResultIntegrity(o.g, o.orig, r); c.eval();
            if (got != r) fail("algorithm %c: the integrity test of a correct %s result returned %s", a, rname(r), rname(got));
            if (checkable(a, r)) judge(o, x, a, r, "unaltered", c);
            if (!checkable(a, r)) continue; // a search that found nothing leaves no result graph
            if (checkable(a, OTHER(r))) judge(o, x, a, OTHER(r), "swapped verdict", c);
            Rot t = extract(o.g); for (auto &p : edgeSet(t)) res.push_back(p); deg = t.nb;
        }
        if (!checkable(a, r)) continue;
        // deletions, additions, exchanges
        std::vector<std::pair<int, int>> add; for (int u = 1; u <= x.n; u++) for (int v = u + 1; v <= x.n; v++) if (std::find(res.begin(), res.end(), std::make_pair(u, v)) == res.end()) add.push_back({u, v});
        if (x.n > 9) { std::vector<std::pair<int, int>> k; for (size_t i = 0; i < add.size(); i += add.size() / 30 + 1) k.push_back(add[i]); add = k; }
        for (int d = -1; d < (int)res.size(); d++) for (int q = -1; q < (int)add.size(); q++) {
            if (d < 0 && q < 0) continue;
            if (d >= 0 && q >= 0 && (mutLevel == 0 ? (d + q) % 5 != 0 : (x.n > 7 && (d + q) % 4 != 0))) continue;
            Obj o; build(o, x, link, a);
            if (d >= 0) { int e = gp_GetNeighborEdgeRecord(o.g, res[d].first, res[d].second); if (!gp_IsArc(e)) fail("result edge not found"); gp_DeleteEdge(o.g, e, 0); }
            if (q >= 0 && gp_DynamicAddEdge(o.g, add[q].first, (d + q) & 1, add[q].second, q & 1) != OK) continue;
            judge(o, x, a, r, "edges altered", c);
        }
        // delete and re-insert the same edge at the ends of the lists
        for (int d = 0; d < (int)res.size(); d++) for (int l = 0; l < 4; l++) {
            Obj o; build(o, x, link, a); int e = gp_GetNeighborEdgeRecord(o.g, res[d].first, res[d].second); gp_DeleteEdge(o.g, e, 0);
            if (gp_AddEdge(o.g, res[d].first, l & 1, res[d].second, l >> 1) != OK) fail("could not re-add an edge");
            judge(o, x, a, r, "edge re-inserted at list ends", c);
        }
        // exchange two neighbours in a rotation
        for (int v = 1; v <= x.n; v++) for (int i = 0; i + 1 < (int)deg[v].size(); i++) {
            if (deg[v].size() > 12 && i > 6) break;
            Obj o; build(o, x, link, a); int e = gp_GetFirstArc(o.g, v); for (int k = 0; k < i; k++) e = gp_GetNextArc(o.g, e);
            int f = gp_GetNextArc(o.g, e), p = gp_GetPrevArc(o.g, e), n = gp_GetNextArc(o.g, f);
            gp_SetNextArc(o.g, f, e); gp_SetPrevArc(o.g, e, f); gp_SetNextArc(o.g, e, n); gp_SetPrevArc(o.g, f, p);
            if (gp_IsArc(p)) gp_SetNextArc(o.g, p, f); else gp_SetFirstArc(o.g, v, f);
            if (gp_IsArc(n)) gp_SetPrevArc(o.g, n, e); else gp_SetLastArc(o.g, v, e);
            judge(o, x, a, r, "two neighbours exchanged in a rotation", c);
        }
    }
    if (c.sh->nsample.load() < 6) c.sample(x.str());
}
// drawings: every single alteration of one coordinate, and exchanges, loaded through the reader
static std::string withDrawing(const Drawing &d, const std::string &head) {
    std::string t = head + "<DrawPlanar>\n"; for (int v = 1; v <= d.N; v++) t += fmt("%d: %d %d %d\n", v, d.v[v].pos, d.v[v].lo, d.v[v].hi);
    for (int i = 0; i < d.M; i++) for (int k = 0; k < 2; k++) t += fmt("%d: %d %d %d\n", 2 + 2 * i + k, d.e[i].pos, d.e[i].lo, d.e[i].hi);
    return t + "</DrawPlanar>\n";
}
static void drawOne(const G &x, int link, Ctx &c) {
    Obj o; build(o, x, link, 'd'); if (o.r != OK) return;
    if (gp_TestEmbedResultIntegrity(o.g, o.orig, OK) != OK) fail("the integrity test rejects a correct drawing");
    std::string text = writeStr(o.g, WRITE_ADJLIST); Drawing d = drawingOf(o.g, text, false); checkDrawing(d);
    std::string head = text.substr(0, text.find("<DrawPlanar>"));
    auto tryIt = [&](const Drawing &m, const char *what) {
        bool want = true; std::string why; try { checkDrawing(m); } catch (vp::Fail &f) { want = false; }
#ifdef PRIV
        { // the same alteration made directly in the drawing data
            DrawPlanarContext *cx = nullptr; gp_FindExtension(o.g, DRAWPLANAR_ID, (void **)&cx); if (!cx) fail("no drawing context");
            auto put = [&](const Drawing &q) { for (int v = 1; v <= q.N; v++) { cx->VI[v].pos = q.v[v].pos; cx->VI[v].start = q.v[v].lo; cx->VI[v].end = q.v[v].hi; } for (int i = 0; i < q.M; i++) for (int k = 0; k < 2; k++) { auto &e = cx->E[q.arc[i] ^ k]; e.pos = q.e[i].pos; e.start = q.e[i].lo; e.end = q.e[i].hi; } };
            bool inRange = true; for (int v = 1; v <= m.N; v++) if (m.v[v].pos < 0 || m.v[v].pos >= m.N) inRange = false; // rows index an array in the test when there are no edges
            if (m.M > 0 || inRange) { put(m); int t = gp_TestEmbedResultIntegrity(o.g, o.orig, OK); put(d); c.eval(); bool w2 = want; if (m.M == 0) w2 = t == OK ? true : want; if ((t == OK) != w2) fail("drawing with %s: the integrity test says %s, although it is %s", what, rname(t), want ? "valid" : "not valid"); }
        }
#endif
        Gp h; if (gp_AttachDrawPlanar(h) != OK) fail("attach failed");
        int r = gp_ReadFromString(h, strdup(withDrawing(m, head).c_str())); c.eval(); bool ok = r == OK;
        if (ok) { if (gp_CreateDFSTree(h) != OK) fail("gp_CreateDFSTree failed"); h.g->embedFlags = EMBEDFLAGS_DRAWPLANAR; int t = gp_TestEmbedResultIntegrity(h, o.orig, OK); ok = t == OK; }
        if (ok != want) fail("drawing with %s: %s, although it is %s", what, ok ? "accepted" : "rejected", want ? "valid" : "not valid");
        c.outcome(mix(want, x.n * 100 + x.e.size()));
    };
    if ((int)x.e.size() > 3 * x.n) return;
    tryIt(d, "unaltered coordinates");
    for (int v = 1; v <= d.N; v++) for (int f = 0; f < 3; f++) for (int dv : {-1, 1, 2}) { Drawing m = d; (f == 0 ? m.v[v].pos : f == 1 ? m.v[v].lo : m.v[v].hi) += dv; tryIt(m, fmt("coordinate %d of vertex %d changed by %d", f, v, dv).c_str()); }
    for (int i = 0; i < d.M; i++) for (int f = 0; f < 3; f++) for (int dv : {-1, 1}) { Drawing m = d; (f == 0 ? m.e[i].pos : f == 1 ? m.e[i].lo : m.e[i].hi) += dv; tryIt(m, fmt("coordinate %d of edge %d changed by %d", f, i, dv).c_str()); }
    for (int v = 1; v <= d.N; v++) for (int w = v + 1; w <= d.N; w++) { Drawing m = d; std::swap(m.v[v].pos, m.v[w].pos); for (int i = 0; i < m.M; i++) { m.e[i].lo = std::min(m.v[m.eu[i]].pos, m.v[m.ew[i]].pos); m.e[i].hi = std::max(m.v[m.eu[i]].pos, m.v[m.ew[i]].pos); } tryIt(m, fmt("rows of vertices %d and %d exchanged", v, w).c_str()); }
    for (int i = 0; i < d.M; i++) for (int j = i + 1; j < d.M; j++) { Drawing m = d; std::swap(m.e[i].pos, m.e[j].pos); tryIt(m, fmt("columns of edges %d and %d exchanged", i, j).c_str()); }
    for (int v = 1; v <= d.N; v++) { Drawing m = d; m.v[v].lo = 0; tryIt(m, fmt("vertex %d widened to the left", v).c_str()); m = d; m.v[v].hi = std::max(0, m.M - 1); tryIt(m, fmt("vertex %d widened to the right", v).c_str()); }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    vp::Check c("P10", "exploration", "for every graph of the families and every algorithm: the real result, the swapped verdict, and every single alteration (edge deleted, added, exchanged, re-inserted elsewhere, neighbouring arcs exchanged, drawing coordinate changed or exchanged) is judged by the library's integrity test and by an independent oracle; the verdicts must agree; an outcome is a distinct (algorithm, claim, correctness, size)");
    c.assumptions = {"the independent oracles are correct", "the library does not check 'none found' of the three searches nor 'not drawable', by design; these claims are not judged", "altered drawings reach the test through the graph reader"};
    mutLevel = 1;
    std::vector<Fam> F; for (int n = 1; n <= 5; n++) F.push_back(famMask(n));
    F.push_back(famGeng("all-graphs-order6", std::make_shared<GengStore>(gengStore(6)), presRot(6, th ? 8 : 4)));
    F.push_back(famGeng("all-graphs-order7", std::make_shared<GengStore>(gengStore(7)), th ? presAll(7, 1) : presRot(7, 1)));
    if (th) F.push_back(famGeng("all-graphs-order8", std::make_shared<GengStore>(gengStore(8)), {{1, 0, 0, 0}, {3, 2, 1, 1}}));
    auto l = std::make_shared<GL>(); for (const G &b : {bip(3, 3), complete(5), complete(4), bip(2, 3)}) for (size_t k = 0; k < b.e.size(); k++) { std::vector<int> s(b.e.size(), 0); s[k] = 2; s[(k + 1) % s.size()] = 1; G g = subdiv(b, s); l->push_back(g); l->push_back(plusEdge(g, 0, g.n - 1)); G h = disjoint(g, cyc(3)); l->push_back(h); }
    for (auto &a : blocksPool()) { l->push_back(disjoint(a, bip(2, 3))); l->push_back(disjoint(complete(4), a)); l->push_back(glueV(a, 0, bip(3, 3), 1)); }
    for (const G &g : {grid(3, 4), petersen(), prism(6), wheel(9), antiprism(5), cyc(12), path(11)}) l->push_back(g);
    F.push_back(famList("structured", l, [th](int n) { return th ? presRot(n, 2) : presRot(n, 1); }));
    addFams(c, F, one);
    std::vector<Fam> D; for (auto &f : F) { Fam g = f; g.name = "drawing-" + f.name; D.push_back(g); }
    addFams(c, D, drawOne);
    c.budget = th ? 700 : 300; c.blockMax = 32;
    return c.main(argc, argv);
}

// P27: the optimized and the debugging configuration compute the same results. Every case is
// executed in this process (optimized) and in a twin process (the library built with DEBUG);
// everything returned is compared.
#include "history.hpp"
#include "io.hpp"
using namespace vp;
static Check *C;
static void compared(int k, uint64_t i, Ctx &c, const std::function<void(uint64_t, Ctx &)> &f) {
    c.acc = 0; c.wantDetail = false; f(i, c);
#ifndef TWIN
    uint64_t mine = c.acc; if (C->twinRun(k, i, c) == mine) { c.outcome(mine); return; }
    std::string d; C->twinRun(k, i, c, &d); c.wantDetail = true; c.detail.clear(); f(i, c); c.wantDetail = false;
    size_t q = 0; while (q < d.size() && q < c.detail.size() && d[q] == c.detail[q]) q++; size_t s = q > 60 ? q - 60 : 0;
    fail("the results differ; %s: '...%s', %s: '...%s'", PROP == 30 ? "1-based" : "optimized", c.detail.substr(s, 160).c_str(), PROP == 30 ? "0-based" : "debugging", d.substr(s, 160).c_str());
#endif
}
static std::string rot(graphP g) {
    std::string t = fmt("N=%d M=%d bound=%d", g->N, g->M, shE(gp_EdgeInUseIndexBound(g)));
    for (int v = FV; v < 2 * g->N + FV; v++) { int e = gp_GetFirstArc(g, v), vi = gp_IsVirtualVertex(g, v); if (!gp_IsArc(e) && vi) continue; t += fmt("\n%d", shV(v)); if (!vi) t += fmt("(%d)", shV(gp_GetVertexIndex(g, v))); t += ':'; int k = 0; for (; gp_IsArc(e) && k < 100000; e = gp_GetNextArc(g, e), k++) t += fmt(" %d[%d]", shV(gp_GetNeighbor(g, e)), shE(e)); }
    return t;
}
static void ready(graphP g, const G &x, int link, const Algo &a) { initFor(g, x, a.attach); if (a.attach && a.attach(g) != OK) fail("attaching failed"); if (addAll(g, x, link) != OK) fail("could not add the edges"); }
static void text(graphP g, int mode, Ctx &c) {
    if (zeroIO) g->internalFlags |= FLAGS_ZEROBASEDIO;
    char *s = nullptr; int r = gp_WriteToString(g, &s, mode); c.observe(fmt("write %d: %s ", mode, rname(r)) + (s ? s : "")); free(s); }
// every algorithm on one graph
static void graphCase(const G &x, int link, const char *algs, bool texts, Ctx &c) {
    for (const char *a = algs; *a; a++) {
        Gp g; ready(g, x, link, algo(*a)); Gp orig; orig.g = gp_DupGraph(g.g); if (!orig.g) fail("gp_DupGraph failed");
        int r = gp_Embed(g.g, algo(*a).flags); c.observe(fmt("%c %s", *a, rname(r))); c.eval(); if (r == NOTOK) continue; // by design, e.g. drawing a graph with deleted edges; the refusal is compared
        bool mid = (r == OK && strchr("234", *a)) || (r != OK && *a == 'd'); if (mid) continue;
        c.observe(rot(g.g)); if (strchr("po234", *a)) c.observe(fmt("integrity %s", rname(gp_TestEmbedResultIntegrity(g.g, orig.g, r))));
        c.observe(fmt("sort %s", rname(gp_SortVertices(g.g)))); if (texts) c.observe(rot(g.g));
        if (*a == 'd') { text(g.g, WRITE_ADJLIST, c); char *s = nullptr; if (zeroIO) g.g->internalFlags |= FLAGS_ZEROBASEDIO; if (g.g->N < 40) { int q = gp_DrawPlanar_RenderToString(g.g, &s); c.observe(fmt("render %s ", rname(q)) + (s ? s : "")); free(s); } }
        else if (texts) { text(g.g, WRITE_ADJLIST, c); if (x.n < 60) { text(g.g, WRITE_ADJMATRIX, c); text(g.g, WRITE_G6, c); } }
    }
    if (!texts) return;
    Gp g; ready(g, x, link, algo('p')); c.observe(fmt("dfs %s", rname(gp_CreateDFSTree(g.g)))); for (int v = FV; v < x.n + FV; v++) c.observe(fmt("%d", shV(gp_GetVertexParent(g.g, v)))); c.observe(fmt("low %s", rname(gp_LowpointAndLeastAncestor(g.g)))); for (int v = FV; v < x.n + FV; v++) c.observe(fmt("%d %d", shV(gp_GetVertexLowpoint(g.g, v)), shV(gp_GetVertexLeastAncestor(g.g, v)))); c.observe(fmt("sort %s", rname(gp_SortVertices(g.g)))); c.observe(rot(g.g));
}
static std::vector<Op> sufs() { std::vector<Op> v; for (const char *s : {"R", "mp", "mo", "s", "w0", "wM", "wG", "i", "+", "-", "d", "h", "H", "v1", "v3", "c", "n", "V", "D", "L", "ad", "a2", "a3", "a4", "xd", "x2", "x3", "x4", "md", "m2", "m3", "m4", "r", "C"}) v.push_back(ops_(s)[0]); return v; }
static void hist(int in, int pr, const std::vector<Op> &tail, Ctx &c) {
    Obj o; o.create(histInputs()[in].n, 0, 0); std::vector<Op> P{{'E', in}}; for (auto &x : preps()[pr].ops) P.push_back(x); for (auto &x : tail) P.push_back(x);
    for (auto &x : P) if (o.legal(x)) { c.observe(o.apply(x)); c.observe(o.snap()); c.trans++; } c.states++; c.eval();
}
// the readers: text in, graph or refusal out, every byte of small texts replaced
static const char *const ALPHA = "0123-+ :\nN=~?@A\xc2";
static void readCase(uint64_t i, const std::vector<std::string> &T, const std::vector<size_t> &off, Ctx &c) {
    size_t k = std::upper_bound(off.begin(), off.end(), i) - off.begin() - 1; std::string t = T[k]; i -= off[k]; static size_t A = strlen(ALPHA);
    if (i) { i--; if (i < t.size()) t = t.substr(0, i); else { i -= t.size(); size_t p = i / A; t[p] = ALPHA[i % A]; } }
    graphP g = gp_New(); char *s = (char *)malloc(t.size() + 1); memcpy(s, t.c_str(), t.size() + 1); int r = gp_ReadFromString(g, s); c.observe(fmt("read %s ", rname(r))); if (r == OK) { c.observe(rot(g)); for (int v = FV; v < g->N + FV; v++) for (int e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e)) c.observe(fmt("%d", (int)gp_GetDirection(g, e))); text(g, WRITE_ADJLIST, c); } gp_Free(&g); c.eval();
}
int main(int argc, char **argv) {
    zeroIO = PROP == 30;
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    static vp::Check c(PROP == 30 ? "P30" : "P27", "exploration", PROP == 30 ? "each case is executed by the standard build and by a build with 0-based arrays (NIL is -1; a twin process under AddressSanitizer and UBSan), and everything returned - verdicts, adjacency lists with their arc numbers shifted to a common base, drawings, renditions, texts, refusals - is compared; an outcome is a distinct compared result" : "each case is executed by the optimized and by the debugging build (a twin process), and everything returned - verdicts, adjacency lists with their arc numbers, drawings, renditions, texts, refusals - is compared; an outcome is a distinct compared result"); C = &c;
    c.assumptions = {PROP == 30 ? "the 0-based build differs from the standard one only by NIL and NIL_CHAR (the alternative given in lowLevelUtils/appconst.h) and writes 0-based text in both" : "the debugging build differs from the optimized one only by the DEBUG macro", "what is compared is observable through the library's interface"};
    struct F { std::string n; uint64_t k; std::function<void(uint64_t, Ctx &)> f; std::function<std::string(uint64_t)> d; }; std::vector<F> V;
    static std::vector<Fam> fams = graphFamilies(th ? 1 : 0, th ? 2 : 3); bool thc = th;
    for (auto &f : fams) { if (!th && (f.name == "insertion-orders-K33" || f.name == "all-graphs-order7-affine")) continue; if (!th && PROP == 30 && (f.name == "labelled-n6-order1" || f.name == "labelled-n6-order3" || f.name == "insertion-orders-K23+2" || f.name == "strips-3-rows-0-hubs-4-columns" || f.name == "strips-3-rows-0-hubs-5-columns" || f.name == "stacked-triangulations")) continue; bool big = f.name == "large"; V.push_back({f.name, f.count, [f, big, thc](uint64_t i, Ctx &x) { int l = 0; G g = f.get(i, l); graphCase(g, l, "pod234", thc || (g.n < 8), x); }, [f](uint64_t i) { int l = 0; G g = f.get(i, l); return g.str() + fmt(" (link scheme %d)", l); }}); (void)big; }
    static std::vector<Op> S = sufs(); size_t NI = histInputs().size(), NP = preps().size(), NS = S.size();
    V.push_back({"histories-then-one-operation", NI * NP * NS, [=](uint64_t i, Ctx &x) { hist(i % NI, i / NI % NP, {S[i / NI / NP]}, x); }, [=](uint64_t i) { return fmt("graph %d; %s; %s", (int)(i % NI), preps()[i / NI % NP].name.c_str(), ostr(S[i / NI / NP]).c_str()); }});
    V.push_back({"histories-then-two-operations", NI * NP * NS * NS, [=](uint64_t i, Ctx &x) { hist(i % NI, i / NI % NP, {S[i / NI / NP % NS], S[i / NI / NP / NS]}, x); }, [=](uint64_t i) { return fmt("graph %d; %s; %s; %s", (int)(i % NI), preps()[i / NI % NP].name.c_str(), ostr(S[i / NI / NP % NS]).c_str(), ostr(S[i / NI / NP / NS]).c_str()); }});
    static std::vector<std::string> T; static std::vector<size_t> off; size_t tot = 0;
    for (auto &g : {complete(4), path(3), G(2), bip(2, 3)}) { Gp q; ready(q, g, 0, algo('p')); if (zeroIO) q->internalFlags |= FLAGS_ZEROBASEDIO; for (int m : {WRITE_ADJLIST, WRITE_ADJMATRIX, WRITE_G6}) T.push_back(writeStr(q.g, m)); } T.push_back("LEDA.GRAPH\nstring\nint\n-1\n2\n|{a}|\n|{b}|\n1\n1 2 0 |{}|\n"); { Gp q; ready(q, complete(4), 0, algo('d')); gp_Embed(q.g, EMBEDFLAGS_DRAWPLANAR); gp_SortVertices(q.g); if (zeroIO) q->internalFlags |= FLAGS_ZEROBASEDIO; T.push_back(writeStr(q.g, WRITE_ADJLIST)); }
    for (auto &t : T) { off.push_back(tot); tot += 1 + t.size() + t.size() * strlen(ALPHA); }
    V.push_back({"texts-with-one-changed-byte-or-cut", tot, [](uint64_t i, Ctx &x) { readCase(i, T, off, x); }, [](uint64_t i) { size_t k = std::upper_bound(off.begin(), off.end(), i) - off.begin() - 1; return fmt("text %zu, change %zu", k, (size_t)(i - off[k])); }});
    for (size_t k = 0; k < V.size(); k++) { auto f = V[k].f; c.add(V[k].n, V[k].k, [k, f](uint64_t i, Ctx &x) { compared((int)k, i, x, f); }, V[k].d); }
    c.budget = th ? 700 : 250; c.hangLimit = 60;
    return c.main(argc, argv);
}

// P19: graph6 texts against an independent encoder written from the definition of the format.
#include "io.hpp"
static const char *fs[] = {"file", "string"};
static std::string cut(std::string s) { while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); return s; }
static void wantEdges(graphP g, int n, const ES &e, const std::string &what) {
    if (g->N != n || g->M != (int)e.size()) fail("%s: order %d with %d edges became order %d with %d edges", what.c_str(), n, (int)e.size(), g->N, g->M);
    DG d = look(g); if (d.directed() || d.edges() != e) { for (auto &p : e) if (!d.edges().count(p)) fail("%s: edge {%d,%d} is missing (vertices from 1)", what.c_str(), p.first, p.second); fail("%s: read a different graph: %s", what.c_str(), d.str().c_str()); }
    if (!d.zero) fail("%s: a graph read from graph6 is not marked as having vertices from 0", what.c_str());
}
static void writes(graphP g, int n, const ES &e, const std::string &text, Ctx &c, bool both = true) {
    for (int s = 0; s < (both ? 2 : 1); s++) {
        std::string t; int r = writeAny(g, t, s, WRITE_G6); if (r != OK) fail("writing a graph of order %d to a %s returned %s", n, fs[s], rname(r));
        if (cut(t) != ">>graph6<<" + text) fail("order %d: wrote to a %s\n%s\ninstead of\n>>graph6<<%s", n, fs[s], vis(t).c_str(), vis(text).c_str());
        c.eval();
    }
}
// reading in every form; level 0: one form per endpoint, 1: all
static void reads(int n, const ES &e, const std::string &text, int level, Ctx &c) {
    static const char *eol[] = {"\n", "", "\r\n"};
    for (int s = 0; s < 2; s++) for (int h = 0; h < 2; h++) for (int l = 0; l < 3; l++) for (int pre = 0; pre < (level ? 4 : 1); pre++) {
        if (!level && (h == s || l != s)) continue; if (level == 1 && pre && (l || !h)) continue;
        std::string t = std::string(h ? ">>graph6<<" : "") + text + eol[l]; std::string what = fmt("from a %s, %s header, line end %d, object state %d", fs[s], h ? "with" : "without", l, pre);
        Gp g; if (pre) { if (gp_InitGraph(g, n + (pre == 3)) != OK) fail("gp_InitGraph failed"); if (pre == 2) for (int v = 2; v <= n; v++) if (gp_DynamicAddEdge(g, v - 1, 0, v, 0) != OK) fail("gp_DynamicAddEdge failed"); }
        int r = readAny(g, t, s); c.eval();
        if (pre == 3) { if (r == OK) fail("%s: a graph of order %d was read into an object of order %d: %s", what.c_str(), n, n + 1, vis(t).c_str()); continue; }
        if (r != OK) fail("%s: valid graph6 text of order %d refused (%s): %s", what.c_str(), n, rname(r), vis(t).c_str());
        wantEdges(g, n, e, what);
    }
}
static void one(const G &x, int link, Ctx &c) {
    ES e = edgeSet(x); std::string t = g6Text(x.n, e);
    { Gp g; initFor(g, x, false); if (addAll(g, x, link) != OK) fail("could not add the edges"); std::string b = look(g).str(); writes(g, x.n, e, t, c); if (look(g).str() != b) fail("writing changed the graph"); }
    reads(x.n, e, t, 1, c); c.outcome(vp::hashs(t));
}
static void written(const G &x, int link, Ctx &c) { // after embedding, sorted or not, holes
    for (char a : std::string("po")) for (int st = 0; st < 2; st++) { Gp g; initFor(g, x, false); if (addAll(g, x, link) != OK) fail("could not add the edges"); int r = gp_Embed(g, algo(a).flags); if (r != OK && r != NONEMBEDDABLE) fail("embedding returned %s", rname(r)); if (st && gp_SortVertices(g) != OK) fail("gp_SortVertices failed"); if (r != OK && !st) continue; ES e = look(g).edges(); writes(g, x.n, e, g6Text(x.n, e), c); }
}
static void bit(int n, int a, int b, int compl_, int level, Ctx &c) { // the graph with only (or all but) the edge {a,b}
    ES e; if (compl_) { for (int v = 2; v <= n; v++) for (int u = 1; u < v; u++) if (u != a || v != b) e.insert({u, v}); } else if (a) e.insert({a, b});
    std::string t = g6Text(n, e); Gp g; if (gp_InitGraph(g, n) != OK) fail("gp_InitGraph(%d) failed", n);
    for (auto &p : e) { int r = gp_DynamicAddEdge(g, p.second, 0, p.first, 0); if (r != OK) fail("gp_DynamicAddEdge returned %s", rname(r)); }
    writes(g, n, e, t, c); reads(n, e, t, level, c); c.outcome(vp::hashs(t));
}
// large orders: an independently made text with few edges, at the ends of rows and at the ends of the bytes
static void sparse(int n, int which, Ctx &c) {
    ES e; auto add = [&](int a, int b) { if (a != b && a >= 1 && b >= 1 && a <= n && b <= n) e.insert({std::min(a, b), std::max(a, b)}); };
    if (which == 0) { add(1, 2); add(n - 1, n); add(1, n); add(1, n - 1); add(n - 2, n); add(n - 2, n - 1); for (int k = 1; k < n; k *= 2) { add(k, n); add(k, k + 1); add(1, k + 1); add(n - k, n); } }
    else if (which == 1) for (int v = 2; v <= n; v++) add(v - 1, v);
    else if (which == 2) for (int v = 2; v <= n; v++) add(1, v);
    else if (which == 3) for (int v = 1; v < n; v++) add(v, n);
    else add(n - 1, n);
    std::string t = g6Text(n, e); Gp g; if (gp_InitGraph(g, n) != OK) fail("gp_InitGraph(%d) failed", n); for (auto &p : e) if (gp_DynamicAddEdge(g, p.first, 0, p.second, 0) != OK) fail("gp_DynamicAddEdge failed");
    bool big = n > 20000; writes(g, n, e, t, c, !big || n < 60000);
    for (int s = 0; s < (big ? 1 : 2); s++) { std::string x = std::string(s ? ">>graph6<<" : "") + t + (s ? "" : "\n"); Gp h; int r = readAny(h, x, s); if (r != OK) fail("valid graph6 text of order %d refused (%s)", n, rname(r)); wantEdges(h, n, e, fs[s]); c.eval(); }
    c.outcome(n * 8 + which);
}
static void digraph(int n, uint64_t code, Ctx &c) { // graphs with a directed edge have no graph6 form
    bool dir = false; Gp g; if (gp_InitGraph(g, n) != OK) fail("gp_InitGraph failed"); ES e;
    for (int j = 2; j <= n; j++) for (int i = 1; i < j; i++, code >>= 2) if (code & 3) { if (gp_AddEdge(g, i, 0, j, 0) != OK) fail("gp_AddEdge failed"); e.insert({i, j}); if ((code & 3) > 1) { dir = true; gp_SetDirection(g, gp_GetFirstArc(g, i), (code & 3) == 2 ? EDGEFLAG_DIRECTION_OUTONLY : EDGEFLAG_DIRECTION_INONLY); } }
    if (!dir) { writes(g, n, e, g6Text(n, e), c); return; }
    for (int s = 0; s < 2; s++) { std::string t; int r = writeAny(g, t, s, WRITE_G6); if (r == OK) fail("a directed graph was written to a %s as %s", fs[s], vis(t).c_str()); c.eval(); }
}
static void limits(int k, Ctx &c) { // orders beyond the stated limit
    int n = k == 0 ? 100001 : k == 1 ? 131072 : k == 2 ? 258047 : 258048; std::string t;
    if (k < 3) { t = g6Order(n); t += std::string(64, '?'); } else { t = "~~???~?" "?" + std::string(64, '?'); }
    for (int s = 0; s < 2; s++) { Gp g; int r = readAny(g, t, s); if (r == OK) fail("a graph6 text of order %d was accepted after 64 characters", n); c.eval(); }
    Gp g; if (gp_InitGraph(g, n) != OK) fail("gp_InitGraph(%d) failed", n); for (int s = 0; s < 2; s++) { std::string o; int r = writeAny(g, o, s, WRITE_G6); if (r == OK && cut(o) != ">>graph6<<" + g6Text(n, {})) fail("order %d: wrote a wrong text to a %s", n, fs[s]); c.eval(); }
    c.outcome(n);
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    vp::Check c("P19", "exploration", "each graph of the families is encoded by an encoder written from the definition of graph6; what the library writes must be that text, and the text with every header, line end, endpoint and object state must be read as that graph; an outcome is a distinct text");
    c.assumptions = {"orders from 1 to the library's stated limit of 100000", "texts are compared without the final line end", "address and undefined-behaviour sanitizers watch every access"};
    std::vector<Fam> F; for (int n = 1; n <= (th ? 6 : 5); n++) F.push_back(famMask(n)); if (!th) F.push_back(famMask(5, 2));
    F.push_back(famGeng("all-graphs-order7", std::make_shared<GengStore>(gengStore(7)), {{1, 0, 0, 2}, {3, 1, 3, 4}})); if (th) { F.push_back(famGeng("all-graphs-order8", std::make_shared<GengStore>(gengStore(8)), {{3, 2, 1, 1}})); F.push_back(famMask(6, 2)); } addFams(c, F, one);
    std::vector<Fam> R; for (int n = 2; n <= 5; n++) R.push_back(famMask(n)); R.push_back(famGeng("all-graphs-order6", std::make_shared<GengStore>(gengStore(6)), {{1, 0, 0, 0}, {5, 2, 1, 4}})); for (auto &f : R) f.name = "results-" + f.name; addFams(c, R, written);
    for (int n = 2; n <= 4; n++) c.add(fmt("digraphs-n%d", n), 1ull << (n * (n - 1)), [n](uint64_t i, Ctx &x) { digraph(n, i, x); });
    struct B { int n, a, b, k; }; static std::vector<B> bits; auto all = [&](int n, int k) { for (int v = 2; v <= n; v++) for (int u = 1; u < v; u++) bits.push_back({n, u, v, k}); bits.push_back({n, 0, 0, k}); };
    for (int n = 1; n <= (th ? 140 : 26); n++) all(n, 0); for (int n = 60; n <= (th ? 0 : 66); n++) for (int v = 2; v <= n; v++) for (int u = 1; u < v; u++) if (u <= 2 || u >= v - 2 || v >= n - 1 || (v * (v - 1) / 2 + u) % 5 == 0) bits.push_back({n, u, v, 0}); for (int n = 2; n <= (th ? 30 : 14); n++) all(n, 1); for (int n : {62, 63, 64, 70}) for (int v = 2; v <= n; v += th ? 1 : 9) bits.push_back({n, v / 2, v, 1});
    c.add("single-positions", bits.size(), [](uint64_t i, Ctx &x) { auto &b = bits[i]; bit(b.n, b.a, b.b, b.k, b.n < 8 || b.n == 62 || b.n == 63 ? 1 : 0, x); }, [](uint64_t i) { auto &b = bits[i]; return fmt("order %d, %s {%d,%d}", b.n, b.k ? "all edges but" : "only edge", b.a, b.b); });
    static std::vector<std::pair<int, int>> S; for (int n : {61, 62, 63, 64, 65, 126, 127, 128, 129, 189, 190, 191, 192, 193, 255, 256, 257, 362, 363, 500, 1000, 2047, 2048, 4094, 4095, 4096, 4097, 4098}) for (int w = 0; w < 4; w++) S.push_back({n, w}); for (int n : {8191, 8192}) S.push_back({n, 0}); S.push_back({46342, 0}); S.push_back({65537, 4}); if (th) { for (int n : {46341, 65535, 65536, 65537, 92682, 92683, 99999, 100000}) S.push_back({n, 0}); for (int n = 66; n < 1100; n += 3) S.push_back({n, n % 4}); }
    c.add("larger-orders", S.size(), [](uint64_t i, Ctx &x) { sparse(S[i].first, S[i].second, x); }, [](uint64_t i) { return fmt("order %d shape %d", S[i].first, S[i].second); });
    c.add("orders-beyond-the-limit", 4, limits);
    c.budget = th ? 700 : 250; c.hangLimit = 200; c.nworkers = std::min(c.nworkers, 8);
    return c.main(argc, argv);
}

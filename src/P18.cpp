// P18: adjacency lists and matrices survive being written and read back, in files and strings.
#include "io.hpp"
static const char *fs[] = {"file", "string"};
static void sameAs(const DG &want, graphP g, bool list, const char *what, const std::string &text) {
    DG got = look(g);
    bool ok = list ? got.zero == want.zero && got.listed().l == want.listed().l && got.arcs() == want.arcs() : got.n == want.n && !got.directed() && got.edges() == want.edges() && g->M == (int)want.edges().size();
    if (!ok) fail("%s: the text\n%s\nwas read as\n%s\nbut should be\n%s", what, vis(text).c_str(), got.str().c_str(), want.str().c_str());
}
static void roundTrips(graphP g, Ctx &c, bool holes = false) {
    DG want = look(g);
    for (int mode : {WRITE_ADJLIST, WRITE_ADJMATRIX}) {
        bool list = mode == WRITE_ADJLIST; std::string t[2]; int r[2];
        for (int s = 0; s < 2; s++) r[s] = writeAny(g, t[s], s, mode);
        if (!(look(g) == want)) fail("writing changed the graph");
        for (int s = 0; s < 2; s++) if (r[s] != (!list && want.directed() ? NOTOK : OK)) fail("writing an adjacency %s of a %s graph to a %s returned %s", list ? "list" : "matrix", want.directed() ? "directed" : "undirected", fs[s], rname(r[s]));
        c.eval(); if (r[0] != OK) continue;
        if (t[0] != t[1]) fail("the %s differs between file\n%s\nand string\n%s", list ? "list" : "matrix", vis(t[0]).c_str(), vis(t[1]).c_str());
        DG p; int n = 0; ES e;
        if (list ? !parseList(t[0], p) : !parseMatrix(t[0], n, e)) fail("not a documented %s:\n%s", list ? "adjacency list" : "adjacency matrix", vis(t[0]).c_str());
        if (list ? !(p == want.listed()) && want.n > 0 : n != want.n || e != want.edges()) fail("the text\n%s\ndoes not show\n%s", vis(t[0]).c_str(), want.str().c_str());
        for (int s = 0; s < 2; s++) {
            Gp h; int q = readAny(h, t[0], s); if (q != OK) fail("reading back from a %s returned %s:\n%s", fs[s], rname(q), vis(t[0]).c_str());
            sameAs(want, h, list, fs[s], t[0]);
            std::string t2; if (writeAny(h, t2, 1 - s, mode) != OK || t2 != t[0]) fail("writing again gives\n%s\ninstead of\n%s", vis(t2).c_str(), vis(t[0]).c_str());
            c.eval();
        }
        c.outcome(vp::hashs(t[0]));
    }
}
// a digraph from base-4 digits: 0 none, 1 edge, 2 forward, 3 backward
static void digraph(int n, uint64_t code, int ord, Ctx &c) {
    std::vector<std::array<int, 3>> E; uint64_t k = code; for (int j = 1; j < n; j++) for (int i = 0; i < j; i++, k >>= 2) if (k & 3) E.push_back({i + 1, j + 1, (int)(k & 3)});
    int m = (int)E.size(); if (ord & 1) std::reverse(E.begin(), E.end()); if (ord & 2) { auto F = E; int s = m > 2 ? 2 : 1; while (m > 2 && gcd_(s, m) != 1) s++; for (int i = 0; i < m; i++) E[i] = F[(long long)i * s % m]; }
    Gp g; if (gp_InitGraph(g, n) != OK) fail("gp_InitGraph failed"); int i = 0;
    for (auto &x : E) { int a = ord & 4 ? (i & 1) : 0, b = ord & 4 ? (i >> 1 & 1) : 0; i++; if (gp_AddEdge(g, x[0], a, x[1], b) != OK) fail("gp_AddEdge failed"); int e = a ? gp_GetLastArc(g, x[0]) : gp_GetFirstArc(g, x[0]); if (x[2] > 1) gp_SetDirection(g, e, x[2] == 2 ? EDGEFLAG_DIRECTION_OUTONLY : EDGEFLAG_DIRECTION_INONLY); }
    if (ord & 8) g->internalFlags |= FLAGS_ZEROBASEDIO;
    roundTrips(g, c);
}
static void graph(const G &x, int link, Ctx &c) {
    for (int z = 0; z < 2; z++) { Gp g; initFor(g, x, false); if (addAll(g, x, link) != OK) fail("could not add the edges"); if (z) g->internalFlags |= FLAGS_ZEROBASEDIO; roundTrips(g, c); }
}
static void results(const G &x, int link, Ctx &c) { // the results of algorithms, sorted and not
    for (char a : std::string("po")) for (int st = 0; st < 2; st++) { Gp g; initFor(g, x, false); if (addAll(g, x, link) != OK) fail("could not add the edges"); int r = gp_Embed(g, algo(a).flags); if (r != OK && r != NONEMBEDDABLE) fail("embedding returned %s", rname(r)); if (st && gp_SortVertices(g) != OK) fail("gp_SortVertices failed"); if (st || r == OK) roundTrips(g, c); }
    for (int a = 1; a <= std::min(3, x.n) && !x.e.empty(); a++) { Gp g; initFor(g, x, false); addAll(g, x, link); gp_DeleteEdge(g, gp_GetFirstArc(g, a) ? gp_GetFirstArc(g, a) : gp_GetFirstEdge(g), 0); roundTrips(g, c); }
}
// independently written texts with every legal arrangement of spaces and line ends
static void texts(int n, uint64_t code, int style, Ctx &c) {
    DG d; d.n = n; d.l.resize(n + 1); d.zero = style & 1; uint64_t k = code; bool dir = false;
    std::vector<std::array<int, 2>> order; for (int j = 1; j < n; j++) for (int i = 0; i < j; i++) order.push_back({i + 1, j + 1}); // rotated per style so that list orders vary
    std::vector<int> kind(order.size()); for (auto &q : kind) { q = k & 3; k >>= 2; dir |= q > 1; }
    for (size_t s = 0; s < order.size(); s++) { size_t at = (s * (style & 2 ? 1 : 1) + (style >> 1)) % order.size(); int u = order[at][0], v = order[at][1], q = kind[at]; if (!q) continue; d.l[u].push_back({v, q == 1 ? UND : q == 2 ? OUT : IN}); d.l[v].insert(style & 2 ? d.l[v].begin() : d.l[v].end(), {u, q == 1 ? UND : q == 2 ? IN : OUT}); }
    std::string t = listText(d); auto repl = [](std::string s, const std::string &a, const std::string &b) { for (size_t i = 0; (i = s.find(a, i)) != std::string::npos; i += b.size()) s.replace(i, a.size(), b); return s; };
    std::vector<std::string> V{t, repl(t, "\n", "\r\n"), repl(t, " ", "  \t"), repl(t, ": ", ":\n"), repl(t, " ", "\n "), t.substr(0, t.size() - 1), t + "\n  \n", repl(t, "N=", "N= "), repl(t, ":", ":  "), repl(t, d.zero ? " -1\n" : " 0\n", d.zero ? " -7\n" : " -1\n")};
    for (auto &x : V) for (int s = 0; s < 2; s++) { Gp h; int r = readAny(h, x, s); if (r != OK) fail("a valid adjacency list was refused from a %s (%s):\n%s", fs[s], rname(r), vis(x).c_str()); sameAs(d, h, true, fs[s], x); c.eval(); }
    if (!dir && !d.zero) {
        ES e = d.edges(); std::string m = matrixText(n, e); std::vector<std::string> W{m, matrixText(n, e, "\r\n"), matrixText(n, e, "\n", true), repl(m, "\n", "\n\n"), m.substr(0, m.find_last_not_of(" \n") + 1)};
        std::string packed = fmt("%d\n", n); for (int v = 1; v <= n; v++) for (int w = v + 1; w <= n; w++) packed += e.count({v, w}) ? '1' : '0'; W.push_back(packed); W.push_back(packed + "\n");
        for (auto &x : W) for (int s = 0; s < 2; s++) { Gp h; int r = readAny(h, x, s); if (r != OK) fail("a valid adjacency matrix was refused from a %s (%s):\n%s", fs[s], rname(r), vis(x).c_str()); sameAs(d, h, false, fs[s], x); c.eval(); }
        for (const char *le : {"\n", "\r\n"}) { std::vector<std::pair<int, int>> L; for (auto &p : e) L.push_back((style & 2) ? std::make_pair(p.second, p.first) : p); std::string x = ledaText(n, L, le); Gp h; int r = readAny(h, x, 0); if (r != OK) fail("a valid LEDA file was refused (%s):\n%s", rname(r), vis(x).c_str()); sameAs(d, h, false, "LEDA file", x); c.eval(); if (!L.empty()) { L.push_back(L[0]); L.push_back({1, 1}); std::string y = ledaText(n, L, le); Gp h2; if (readAny(h2, y, 0) != OK) fail("a LEDA file with a loop and a parallel edge was refused"); sameAs(d, h2, false, "LEDA file with loop and parallel edge", y); } }
    }
    c.outcome(vp::hashs(t));
}
static void wide(int n, int shape, Ctx &c) {
    G x = shape == 0 ? path(n) : shape == 1 ? cyc(n) : shape == 2 ? wheel(n) : shape == 3 ? G(n) : bip(2, n - 2);
    graph(x, shape % 3, c);
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    vp::Check c("P18", "exploration", "every graph and digraph of the families, in several list orders and both bases, is written as list and matrix to file and string, compared with an independent parser, read back from both and compared; every independently written text of the families is read; an outcome is a distinct text");
    c.assumptions = {"graphs have at most one edge per pair of vertices, and no loops", "an adjacency list shows the order of undirected and outgoing entries only; a matrix shows neither base nor order", "address and undefined-behaviour sanitizers watch every access"};
    for (int n = 1; n <= (th ? 5 : 4); n++) { uint64_t k = 1ull << (n * (n - 1)); int no = n <= 3 || (th && n == 4) ? 16 : n == 4 ? 6 : 4; c.add(fmt("digraphs-n%d", n), k * no, [=](uint64_t i, Ctx &x) { digraph(n, i / no, n == 4 && !th ? i % no * 3 : n <= 4 ? i % no : i % no * 5, x); }, [=](uint64_t i) { return fmt("n=%d pairs (base 4) %llx presentation %d", n, (unsigned long long)(i / no), (int)(i % no)); }); }
    if (!th) c.add("digraphs-n5-four-kinds-on-seven", 1u << 14, [=](uint64_t i, Ctx &x) { uint64_t k = 0; for (int b = 0; b < 7; b++) k |= ((i >> (2 * b)) & 3) << (2 * b + (b > 3 ? 6 : 0)); digraph(5, k, 12, x); });
    for (int n = 2; n <= 4; n++) { uint64_t k = 1ull << (n * (n - 1)); int ns = n <= 3 ? 8 : th ? 16 : 4; c.add(fmt("texts-n%d", n), k * ns, [=](uint64_t i, Ctx &x) { texts(n, i / ns, i % ns, x); }, [=](uint64_t i) { return fmt("n=%d pairs (base 4) %llx style %d", n, (unsigned long long)(i / ns), (int)(i % ns)); }); }
    std::vector<Fam> F; for (int n = 1; n <= 5; n++) for (int o : {0, 1, 2}) F.push_back(famMask(n, o)); if (th) for (int o : {0, 2}) F.push_back(famMask(6, o));
    F.push_back(famGeng("all-graphs-order7", std::make_shared<GengStore>(gengStore(7)), {{1, 0, 0, 2}, {3, 1, 3, 4}, {1, 0, 1, 3}}));
    for (auto &f : F) f.name = "graphs-" + f.name; addFams(c, F, graph);
    std::vector<Fam> R; for (int n = 2; n <= 5; n++) R.push_back(famMask(n)); R.push_back(famGeng("all-graphs-order6", std::make_shared<GengStore>(gengStore(6)), {{1, 0, 0, 0}, {5, 2, 1, 4}})); for (auto &f : R) f.name = "results-" + f.name; addFams(c, R, results);
    static std::vector<int> W; for (int n = 6; n <= 40; n++) W.push_back(n); for (int n : {50, 62, 63, 64, 98, 99, 100, 101, 102, 150, 255, 256, 300, 511, 512, 998, 999, 1000, 1001, 1002}) W.push_back(n); if (th) for (int n : {2047, 2048, 4000, 9999, 10000, 10001}) W.push_back(n);
    c.add("wide-labels", W.size() * 5, [=](uint64_t i, Ctx &x) { wide(W[i / 5], i % 5, x); }, [=](uint64_t i) { return fmt("order %d shape %d", W[i / 5], (int)(i % 5)); });
    c.budget = th ? 700 : 250; c.hangLimit = 100; 
    return c.main(argc, argv);
}

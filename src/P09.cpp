// P09: rendered and saved drawings show the computed drawing.
#include "drawing.hpp"
static std::string scratchFile;
static void checkRendition(const Drawing &d, const std::string &t, bool zero) {
    int N = d.N, M = d.M, C = std::max(1, M);
    if ((int)t.size() != 2 * N * (C + 1)) fail("rendition has %zu characters, expected %d rows of %d columns", t.size(), 2 * N, C);
    std::string want(t.size(), ' '); auto at = [&](int r, int c) -> char & { return want[(size_t)r * (C + 1) + c]; };
    for (int r = 0; r < 2 * N; r++) at(r, C) = '\n';
    for (auto &s : d.e) for (int r = s.lo; r < s.hi; r++) { if (r > s.lo) at(2 * r, s.pos) = '|'; at(2 * r + 1, s.pos) = '|'; }
    for (int v = 1; v <= N; v++) {
        const Seg &s = d.v[v]; std::string lab = std::to_string(zero ? v - 1 : v); int w = s.hi - s.lo + 1, r = 2 * s.pos;
        std::string got = t.substr((size_t)r * (C + 1) + s.lo, w);
        if (w >= (int)lab.size()) {
            size_t p = got.find(lab);
            if (p == std::string::npos) fail("vertex %s: its segment is rendered as '%s'", lab.c_str(), got.c_str());
            for (size_t i = 0; i < got.size(); i++) if ((i < p || i >= p + lab.size()) && got[i] != '-') fail("vertex %s: its segment is rendered as '%s'", lab.c_str(), got.c_str());
        } else { // the label does not fit: some abbreviation, which may also use a free cell just below
            bool any = false; for (char ch : got) { if (ch != '-' && ch != '*' && !isdigit((unsigned char)ch)) fail("vertex %s: its segment is rendered as '%s'", lab.c_str(), got.c_str()); if (ch != '-') any = true; }
            if (!any) fail("vertex %s has no label", lab.c_str());
            for (int x = s.lo; x <= s.hi; x++) { char ch = t[(size_t)(r + 1) * (C + 1) + x]; if (isdigit((unsigned char)ch) && at(r + 1, x) == ' ') at(r + 1, x) = ch; }
        }
        for (int i = 0; i < w; i++) at(r, s.lo + i) = got[i];
    }
    if (want != t) { size_t i = 0; while (want[i] == t[i]) i++; fail("rendition differs from the drawing at row %zu column %zu: '%c' instead of '%c'", i / (C + 1), i % (C + 1), t[i], want[i]); }
}
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void one(const G &x, int link, Ctx &c) {
    if (x.n > 250 && x.e.size() > 600) return;
    for (int zero = 0; zero < 2; zero++) {
        Gp g;
        if (zero) {
            std::string t = fmt("N=%d\n", x.n); std::vector<std::vector<int>> nb(x.n); for (auto &e : x.e) { nb[e.first].push_back(e.second); nb[e.second].push_back(e.first); }
            for (int v = 0; v < x.n; v++) { t += std::to_string(v) + ":"; for (int w : nb[v]) t += " " + std::to_string(w); t += " -1\n"; }
            if ((int)x.e.size() > 3 * x.n) return;
            if (gp_ReadFromString(g, strdup(t.c_str())) != OK) fail("reading the zero-based list failed");
            if (gp_AttachDrawPlanar(g) != OK) fail("gp_AttachDrawPlanar failed");
        } else { initFor(g, x, true); if (gp_AttachDrawPlanar(g) != OK) fail("gp_AttachDrawPlanar failed"); if (addAll(g, x, link) != OK) fail("could not add the edges"); }
        int r = gp_Embed(g, EMBEDFLAGS_DRAWPLANAR); c.eval();
        if (r != OK) { c.outcome(r + 7); return; }
        for (int s = 0; s < 2; s++) {
            if (s && gp_SortVertices(g) != OK) fail("gp_SortVertices failed");
            std::string text = writeStr(g, WRITE_ADJLIST); Drawing d = drawingOf(g, text, zero);
            char *p = nullptr; r = gp_DrawPlanar_RenderToString(g, &p); if (r != OK || !p) fail("gp_DrawPlanar_RenderToString returned %s", rname(r));
            std::string ren = p; free(p);
            checkRendition(d, ren, zero); c.outcome(vp::hashs(ren));
            if (x.n < 8 ? (x.e.size() % 4 == 1) : true) {
                r = gp_DrawPlanar_RenderToFile(g, (char *)scratchFile.c_str()); if (r != OK) fail("gp_DrawPlanar_RenderToFile returned %s", rname(r));
                if (slurp(scratchFile) != ren) fail("the rendition written to a file differs from the one in a string");
                r = gp_Write(g, (char *)scratchFile.c_str(), WRITE_ADJLIST); if (r != OK) fail("gp_Write returned %s", rname(r));
                if (slurp(scratchFile) != text) fail("the graph written to a file differs from the one written to a string");
            }
            if (s) { // load the saved drawing into another graph and render it there
                Gp h; if (gp_AttachDrawPlanar(h) != OK) fail("gp_AttachDrawPlanar failed");
                if ((int)x.e.size() > 3 * x.n) gp_EnsureArcCapacity(h, 2 * (int)x.e.size() + 4);
                if (gp_ReadFromString(h, strdup(text.c_str())) != OK) fail("reading back the saved drawing failed");
                char *q = nullptr; if (gp_DrawPlanar_RenderToString(h, &q) != OK || !q) fail("rendering the loaded drawing failed");
                std::string r2 = q; free(q);
                Drawing d2 = drawingOf(h, writeStr(h, WRITE_ADJLIST), zero); checkDrawing(d2);
                if (r2 != ren) fail("the saved drawing renders differently after loading it");
            }
        }
    }
    if (c.sh->nsample.load() < 6) c.sample(x.str());
}
// drawings whose rendition has more characters than an integer can count must be refused (or rendered completely)
static void huge(int n, int kind, Ctx &c) {
    Gp g; if (gp_InitGraph(g, n) != OK || gp_AttachDrawPlanar(g) != OK) fail("building failed"); long long m = 0;
    auto put = [&](int u, int v) { if (gp_DynamicAddEdge(g, u, 0, v, 0) != OK) fail("an edge was refused"); m++; };
    for (int v = 1; v < n; v++) { put(v, v + 1); if (kind && v + 2 <= n) put(v, v + 2); } if (kind == 2) { put(1, n); put(1, n - 1); }
    if (gp_Embed(g, EMBEDFLAGS_DRAWPLANAR) != OK) fail("drawing failed"); char *p = nullptr; int r = gp_DrawPlanar_RenderToString(g, &p); c.eval();
    if (r == OK) { if (!p || (long long)strlen(p) != 2LL * n * (m + 1)) fail("the rendition of a drawing with %d rows and %lld columns is incomplete", 2 * n, m); free(p); }
    else { if (p) fail("the rendition was refused, but a string is returned"); if (gp_DrawPlanar_RenderToFile(g, (char *)scratchFile.c_str()) == OK) fail("a rendition was refused as a string, but written to a file"); }
    c.outcome(mix(n, kind)); unlink(scratchFile.c_str());
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    vp::Check c("P09", "exploration", "every planar graph of each family is drawn, rendered to string and file, saved and loaded by the real library, one-based and zero-based, before and after vertex sorting; each rendition is compared cell by cell with an independent rendering of the saved coordinates; an outcome is a distinct rendition");
    c.assumptions = {"labels wider than their vertex segment may be abbreviated on the segment and in a free cell below it", "coordinates are observed through the saved drawing data"};
    c.workerInit = [&] { scratchFile = fmt("%s/p%d", c.scratch.c_str(), getpid()); };
    static std::vector<std::pair<int, int>> H{{32768, 2}, {65536, 0}, {46341, 0}, {46342, 0}, {25000, 1}, {33000, 1}, {40000, 2}, {100000, 0}};
    c.add("huge-drawings", H.size(), [](uint64_t i, Ctx &cx) { huge(H[i].first, H[i].second, cx); }, [](uint64_t i) { return fmt("%s with %d vertices", H[i].second ? "strip of triangles" : "path", H[i].first); });
    addFams(c, graphFamilies(th ? 1 : 0, 3), one);
    c.budget = th ? 700 : 300;
    return c.main(argc, argv);
}

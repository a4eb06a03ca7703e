// P08: every planar drawing is a valid visibility representation.
#include "drawing.hpp"
static void one(const G &x, int link, Ctx &c) {
    Gp g; initFor(g, x, true);
    if (gp_AttachDrawPlanar(g) != OK) fail("gp_AttachDrawPlanar failed");
    if (addAll(g, x, link) != OK) fail("could not add the edges");
    int r = gp_Embed(g, EMBEDFLAGS_DRAWPLANAR); c.eval();
    if (link >= 3 && r == NOTOK && sp_NonEmpty(((graphP)g)->edgeHoles)) { c.outcome(mix(link, 99)); return; } // documented in the code: drawing refuses graphs with deleted edges
    bool pl = x.n <= 64 ? orc::planar(x) : r == OK;
    if (r != (pl ? OK : NONEMBEDDABLE)) fail("gp_Embed returned %s for a %s graph", rname(r), pl ? "planar" : "non-planar");
    uint64_t h = mix(r + 7, x.n * 1000 + x.e.size());
    if (r == OK) {
        checkPlanarEmbedding(g, x, false, false);
        if (x.n > 1200) { c.outcome(h); return; } // the quadratic crossing test below is for smaller graphs
        std::string t1 = writeStr(g, WRITE_ADJLIST); Drawing d1 = drawingOf(g, t1, false); checkDrawing(d1);
        if (gp_SortVertices(g) != OK) fail("gp_SortVertices failed after drawing");
        checkPlanarEmbedding(g, x, true, false);
        std::string t2 = writeStr(g, WRITE_ADJLIST); Drawing d2 = drawingOf(g, t2, false); checkDrawing(d2);
        if (x.n < 64) for (int v = 1; v <= x.n; v++) h = mix(h, d2.v[v].pos * 64 + d2.v[v].lo);
    }
    c.outcome(h);
    if (c.sh->nsample.load() < 6) c.sample(x.str() + " -> " + rname(r));
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    vp::Check c("P08", "exploration", "every graph of each family is drawn by the real library; the drawing data it writes is parsed and checked pairwise (rows, columns, endpoints, crossings) before and after vertex sorting; an outcome is a distinct (verdict, size, vertex coordinates)");
    c.assumptions = {"the independent planarity oracle and the pairwise geometry test are correct", "a graph with unused records of deleted edges may be refused by the drawing algorithm, as the comments of its source state", "drawing coordinates are observed through the text that gp_WriteToString produces"};
    addFams(c, graphFamilies(th ? 2 : 0, 1), one);
    c.budget = th ? 700 : 300;
    return c.main(argc, argv);
}

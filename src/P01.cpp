// P01: planar embedding. P02: Kuratowski subgraphs. P03/P04: the same for outerplanarity.
#include "families.hpp"
#ifndef PROP
#define PROP 1
#endif
static void one(const G &x, int link, Ctx &c) {
    const bool outer = PROP >= 3; const int flags = outer ? EMBEDFLAGS_OUTERPLANAR : EMBEDFLAGS_PLANAR;
    Gp g; initFor(g, x, false); if (addAll(g, x, link) != OK) fail("could not add the edges");
    int r = gp_Embed(g, flags); c.eval();
    c.outcome(mix(mix(r + 7, x.n * 1000 + x.e.size()), g->M * 64 + g->IC.minorType));
    if (r != OK && r != NONEMBEDDABLE) fail("gp_Embed returned %s", rname(r));
    bool embedProp = PROP == 1 || PROP == 3;
    auto truth = [&] { return outer ? orc::outerplanar(x) : orc::planar(x); };
    if (r == OK) {
        if (embedProp) {
            checkPlanarEmbedding(g, x, false, outer);
            if (gp_SortVertices(g) != OK) fail("gp_SortVertices failed after embedding");
            checkPlanarEmbedding(g, x, true, outer);
        } else if (x.n <= 64) { if (!truth()) fail("input reported embeddable, but it is not; no obstruction was returned"); }
        else checkPlanarEmbedding(g, x, false, outer);
    } else {
        if (embedProp) { if (x.n <= 64 ? truth() : true) { if (x.n <= 64) fail("an embeddable graph was reported NONEMBEDDABLE"); Kind k = resultKind(g, x, false); if (k != (outer ? KIND_K23 : KIND_K33) && k != (outer ? KIND_K4 : KIND_K5)) fail("NONEMBEDDABLE without an obstruction (%s)", kname(k)); } }
        else {
            for (int s = 0; s < 2; s++) {
                Kind k = resultKind(g, x, s);
                if (k != (outer ? KIND_K23 : KIND_K33) && k != (outer ? KIND_K4 : KIND_K5)) fail("NONEMBEDDABLE, but the result graph (%d edges, %s order) is not a subdivision of %s: %s", g->M, s ? "original" : "DFS", outer ? "K4 or K2,3" : "K5 or K3,3", kname(k));
                if (!s && gp_SortVertices(g) != OK) fail("gp_SortVertices failed");
            }
        }
    }
    if (c.sh->nsample.load() < 6) c.sample(x.str() + " -> " + rname(r));
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    static const char *ids[] = {"", "P01", "P02", "P03", "P04"};
    vp::Check c(ids[PROP], "exploration", "every graph of each family (all labelled graphs up to a given order; all graphs of order 7 and 8 up to isomorphism under cyclic/affine relabelings and insertion orders; subdivisions, sums, near-planar and large structured graphs) is embedded by the real library; an outcome is a distinct (verdict, order, size, result size, obstruction minor)");
    c.assumptions = {"the independent oracles (Demoucron planarity, series-parallel reduction, vertex-disjoint paths, face tracing, subdivision recognition) are correct", "bounds: the listed families"};
    addFams(c, graphFamilies(th ? 2 : 1, 1), one);
    c.budget = th ? 700 : 300;
    return c.main(argc, argv);
}

// P05-P07: the K2,3, K4 and K3,3 searches.
#include "families.hpp"
#ifndef PROP
#define PROP 5
#endif
static const char AC = PROP == 5 ? '2' : PROP == 6 ? '4' : '3';
static const Kind WANT = PROP == 5 ? KIND_K23 : PROP == 6 ? KIND_K4 : KIND_K33;
static bool truth(const G &x) { return PROP == 5 ? orc::hasK23(x) : PROP == 6 ? orc::hasK4(x) : orc::hasK33(x); }
static void one(const G &x, int link, Ctx &c) {
    const Algo &A = algo(AC);
    Gp g; initFor(g, x, true);
    if (A.attach(g) != OK) fail("attaching the search failed");
    if (addAll(g, x, link) != OK) fail("could not add the edges");
    int r = gp_Embed(g, A.flags); c.eval();
    c.outcome(mix(mix(r + 7, x.n * 1000 + x.e.size()), g->M * 64 + g->IC.minorType));
    if (r == OK) { if (x.n <= 64 && truth(x)) fail("reported none found, but the graph contains a subdivision of %s", kname(WANT)); }
    else if (r == NONEMBEDDABLE) {
        for (int s = 0; s < 2; s++) {
            Kind k = resultKind(g, x, s);
            if (k != WANT) fail("reported found, but the result graph (%d edges, %s order) is not a subdivision of %s: %s", g->M, s ? "original" : "DFS", kname(WANT), kname(k));
            if (!s && gp_SortVertices(g) != OK) fail("gp_SortVertices failed");
        }
    } else fail("gp_Embed returned %s", rname(r));
    if (c.sh->nsample.load() < 6) c.sample(x.str() + " -> " + rname(r));
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    static const char *ids[] = {"P05", "P06", "P07"};
    vp::Check c(ids[PROP - 5], "exploration", "every graph of each family is searched by the real library; the verdict is compared with an independent decision procedure, a found subgraph with a subdivision recogniser; an outcome is a distinct (verdict, order, size, result size, minor type)");
    c.assumptions = {"the independent oracles (disjoint paths, series-parallel reduction, decomposition at 2-separations with Wagner/Hall) are correct", "for graphs of more than 64 vertices only found subgraphs are judged, not 'none found'"};
    addFams(c, graphFamilies(th ? 2 : 1, 1), one);
    c.budget = th ? 700 : 300;
    return c.main(argc, argv);
}

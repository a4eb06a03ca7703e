// P15: copies equal their source and are independent of it. Every short history on a source and its
// copy is run in step with twins that were built separately and never copied.
#include "history.hpp"
enum { DUP, COPY_FRESH, COPY_USED, COPY_LARGER, COPY_FEATURES, COPY_SMALL, DUPDUP, COPY_SELFDUP_OVER, COPY_SMALL_USED, NKIND };
static const char *kindName[] = {"gp_DupGraph", "gp_CopyGraph to a fresh object", "gp_CopyGraph to a used object", "gp_CopyGraph to a larger object", "gp_CopyGraph to an object with features", "gp_CopyGraph from a full small object", "gp_DupGraph twice, intermediate freed", "gp_CopyGraph over an object holding another copy", "gp_CopyGraph from a full small object to a used larger one"};
struct Case { int in, prep, kind; };
static void build(Obj &o, const Case &k, bool skipIllegal) {
    const G &x = histInputs()[k.in]; o.create(x.n, k.kind == COPY_SMALL || k.kind == COPY_SMALL_USED ? std::max(2, 2 * (int)x.e.size()) : 0, 0); o.apply({'E', k.in});
    for (auto &p : preps()[k.prep].ops) if (o.legal(p)) o.apply(p);
}
static void makeCopy(Obj &c, Obj &s, const Case &k) {
    int n = s.g->N; int r = OK;
    switch (k.kind) {
    case DUP: case COPY_SMALL: c.g = gp_DupGraph(s.g); if (!c.g) fail("gp_DupGraph failed"); break;
    case COPY_FRESH: c.g = gp_New(); if (gp_InitGraph(c.g, n) != OK) fail("gp_InitGraph failed"); r = gp_CopyGraph(c.g, s.g); break;
    case COPY_USED: c.g = gp_New(); if (gp_InitGraph(c.g, n) != OK) fail("gp_InitGraph failed"); for (int v = 1; v < n; v++) { gp_AddEdge(c.g, v, 0, v + 1, 0); gp_SetDirection(c.g, gp_GetFirstArc(c.g, v), EDGEFLAG_DIRECTION_INONLY); } for (int v = 1; v + 2 <= n; v++) gp_AddEdge(c.g, v, 0, v + 2, 0); gp_HideVertex(c.g, 1); r = gp_CopyGraph(c.g, s.g); break;
    case COPY_LARGER: case COPY_SMALL_USED: c.g = gp_New(); gp_EnsureArcCapacity(c.g, 2 * n * n + 40); if (gp_InitGraph(c.g, n) != OK) fail("gp_InitGraph failed"); for (int i = 0; i < n * n + 20; i++) { gp_AddEdge(c.g, 1, 0, n, 0); gp_SetDirection(c.g, gp_GetFirstArc(c.g, 1), EDGEFLAG_DIRECTION_INONLY); } r = gp_CopyGraph(c.g, s.g); break;
    case COPY_FEATURES: c.g = gp_New(); if (gp_InitGraph(c.g, n) != OK) fail("gp_InitGraph failed"); gp_AttachDrawPlanar(c.g); gp_AttachK33Search(c.g); gp_AttachK4Search(c.g); for (int v = 1; v < n; v++) gp_AddEdge(c.g, v, 0, v + 1, 0); gp_Embed(c.g, EMBEDFLAGS_DRAWPLANAR); r = gp_CopyGraph(c.g, s.g); break;
    case DUPDUP: { graphP m = gp_DupGraph(s.g); if (!m) fail("gp_DupGraph failed"); c.g = gp_DupGraph(m); gp_Free(&m); if (!c.g) fail("gp_DupGraph of a copy failed"); break; }
    case COPY_SELFDUP_OVER: c.g = gp_DupGraph(s.g); if (!c.g) fail("gp_DupGraph failed"); for (char a : std::string("d234")) { if (algo(a).detach(c.g) != OK && (s.ext & Obj::bit(a))) fail("detaching feature %c of the copy failed", a); } gp_ReinitializeGraph(c.g); r = gp_CopyGraph(c.g, s.g); break;
    }
    if (r != OK) fail("%s returned %s", kindName[k.kind], rname(r));
    c.copyStateFrom(s); if (s.orig) c.orig = gp_DupGraph(s.orig);
}
static std::vector<Op> alphabet(int in, bool th) {
    std::vector<Op> A = ops_("s i r V H - + w0 a3 x3 xd"); A.push_back({'F', 0}); A.push_back({'A', in << 8 | 'p'}); A.push_back({'A', in << 8 | 'd'}); A.push_back({'A', in << 8 | '3'});
    for (auto o : ops_(th ? "h c D C x2 x4 a2 d R" : "h c C x4")) A.push_back(o);
    if (th) { A.push_back({'A', in << 8 | '4'}); A.push_back({'A', in << 8 | '2'}); A.push_back({'A', in << 8 | 'o'}); A.push_back({'w', WRITE_G6}); }
    return A;
}
static void seqs(const Case &k, const std::vector<Op> &A, int o1, int len, Ctx &c) {
    // first operation o1 (object o1/|A|), then every sequence of further ones
    int n = (int)A.size() * 2; uint64_t tot = 1; for (int i = 1; i < len; i++) tot *= n;
    for (uint64_t q = 0; q < tot; q++) {
        std::vector<int> sq{o1}; uint64_t t = q; for (int i = 1; i < len; i++) { sq.push_back(t % n); t /= n; }
        Obj S, C, TS, TC; build(S, k, false); build(TS, k, false); build(TC, k, false); makeCopy(C, S, k);
        TC.copyStateFrom(TC);
        std::string h; bool legal = true;
        auto cmp = [&](const char *when) {
            for (int i = 0; i < 2; i++) { Obj &a = i ? C : S, &b = i ? TC : TS; if (!a.g) continue; std::string x = a.snap(), y = b.snap(); if (x != y) fail("%s: %s, then %s\nthe %s is\n%s\nbut should be\n%s", kindName[k.kind], when, h.c_str(), i ? "copy" : "source", x.c_str(), y.c_str()); }
        };
        cmp("after copying"); c.eval();
        bool small = k.kind == COPY_SMALL || k.kind == COPY_SMALL_USED;
        for (int z : sq) {
            Op o = A[z % A.size()]; int w = z / (int)A.size(); Obj &a = w ? C : S, &b = w ? TC : TS;
            if (!a.g) { legal = false; break; }
            h += fmt("%s: %s; ", w ? "copy" : "source", ostr(o).c_str());
            if (o.k == 'F') { a.drop(); h += "freed; "; c.eval(); cmp("after copying"); continue; }
            if (!a.legal(o)) { legal = false; break; }
            if (small && ((o.k == '+' && (b.ext & 13)) || o.k == 'C')) { legal = false; break; }
            std::string ta = a.apply(o), tb = b.apply(o); c.eval();
            if (ta != tb) fail("%s, then %s\nthe %s gives\n%s\nbut should give\n%s", kindName[k.kind], h.c_str(), w ? "copy" : "source", ta.c_str(), tb.c_str());
            cmp("after copying");
        }
        if (!legal) { // skip all sequences with the same illegal prefix cheaply: they repeat the same work only
            continue;
        }
        for (int i = 0; i < 2; i++) { // what remains is fully usable
            Obj &a = i ? C : S, &b = i ? TC : TS; if (!a.g) continue;
            for (const Op &o : {Op{'V'}, Op{'H'}, Op{'w', WRITE_ADJLIST}, Op{'r'}, Op{'s'}, Op{'i'}, Op{'A', k.in << 8 | 'd'}, Op{'r'}}) if (a.legal(o) && !(small && o.k == 'A')) { std::string ta = a.apply(o), tb = b.apply(o); if (ta != tb) fail("%s, then %sthen %s of the %s gives\n%s\nbut should give\n%s", kindName[k.kind], h.c_str(), ostr(o).c_str(), i ? "copy" : "source", ta.c_str(), tb.c_str()); c.eval(); }
            cmp("at the end");
        }
        c.outcome(mix(vp::hashs(h), k.in * 1000 + k.prep * 10 + k.kind));
    }
}
// copying adjacency lists only
static void lists(const G &x, int link, Ctx &c) {
    for (int big = 0; big < 2; big++) {
        Gp a, b; initFor(a, x, false); if (addAll(a, x, link) != OK) fail("could not add the edges");
        if (big) gp_EnsureArcCapacity(b, 4 * (int)x.e.size() + 6 * x.n + 2); if (gp_InitGraph(b, x.n) != OK) fail("gp_InitGraph failed");
        for (int v = 1; v < x.n; v++) gp_AddEdge(b, v, 0, v + 1, 1);
        if (gp_CopyAdjacencyLists(b, a) != OK) fail("gp_CopyAdjacencyLists failed");
        Rot p = extract(a), q = extract(b); if (p.nb != q.nb || p.arc != q.arc) fail("the copied adjacency lists differ");
        gp_ReinitializeGraph(a); Rot q2 = extract(b); if (q2.nb != q.nb) fail("changing the source changed the copy");
        Gp a2; initFor(a2, x, false); addAll(a2, x, link);
        for (int i = 0; i < 3 && x.n > 2; i++) { if (gp_DynamicAddEdge(b, 1, 0, x.n, 1) != OK || gp_DynamicAddEdge(a2, 1, 0, x.n, 1) != OK) fail("could not add an edge"); }
        p = extract(a2); q = extract(b); if (p.nb != q.nb || p.arc != q.arc) fail("the copied lists differ from the original after adding edges");
        c.eval(); c.outcome(mix(vp::hashs(x.str()), big));
    }
    Gp a, b; initFor(a, x, false); if (addAll(a, x, link) != OK) fail("could not add the edges"); if (gp_InitGraph(b, x.n + 1) != OK) fail("gp_InitGraph failed");
    if (gp_CopyAdjacencyLists(b, a) == OK || gp_CopyGraph(b, a) == OK || gp_CopyGraph(a, b) == OK) fail("copying between orders %d and %d was accepted", x.n, x.n + 1); extract(a); extract(b);
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    vp::Check c("P15", "model_checking", "every source state (input graph x way of preparing it) x way of copying x sequence of operations on source and copy, in step with twins built separately and never copied; every state and every returned text is compared; an outcome is a distinct legal history");
    c.assumptions = {"address and undefined-behaviour sanitizers watch every access", "the twin is built by the same operations as the source"};
    static std::vector<Case> L; int nin = (int)histInputs().size();
    for (int in = 0; in < nin; in++) for (int p = 0; p < (int)preps().size(); p++) for (int k = 0; k < NKIND; k++) { if ((k == COPY_SMALL || k == COPY_SMALL_USED) && preps()[p].name.find_first_of("+") != std::string::npos) continue; if ((k == COPY_SMALL || k == COPY_SMALL_USED) && (preps()[p].name == "directed" || preps()[p].name == "edited")) continue; if (!th && in > 5) continue; L.push_back({in, p, k}); }
    int len = 2; int per = (int)alphabet(0, th).size() * 2;
    c.add("histories", (uint64_t)L.size() * per, [=](uint64_t i, Ctx &cx) { Case k = L[i / per]; auto A = alphabet(k.in, th); seqs(k, A, i % per, len, cx); if (i % 9973 == 0) cx.sample(fmt("graph %d, %s, %s, first operation %s", k.in, preps()[k.prep].name.c_str(), kindName[k.kind], ostr(A[(i % per) % A.size()]).c_str())); },
          [=](uint64_t i) { Case k = L[i / per]; auto A = alphabet(k.in, th); return fmt("source: graph %d (%s) prepared as '%s'; %s; first operation %s", k.in, histInputs()[k.in].str().c_str(), preps()[k.prep].name.c_str(), kindName[k.kind], ostr(A[(i % per) % A.size()]).c_str()); });
    std::vector<Fam> F; for (int n = 2; n <= 5; n++) F.push_back(famMask(n)); F.push_back(famGeng("all-graphs-order6", std::make_shared<GengStore>(gengStore(6)), {{1, 0, 0, 0}, {1, 0, 0, 3}, {5, 2, 1, 4}}));
    for (auto &f : F) f.name = "lists-" + f.name; addFams(c, F, lists);
    c.budget = th ? 700 : 300; c.blockMax = 8; c.hangLimit = 100;
    return c.main(argc, argv);
}

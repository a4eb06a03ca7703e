// P16: a reused object behaves like a fresh one, and objects do not affect each other.
#include "history.hpp"
static const char ALG[] = "podd234"; // 'd' twice is harmless: index 3 runs it with a render
static std::string runTrace(graphP g, const G &x, int link, int alg, bool full) {
    if (addAll(g, x, link) != OK) return "edges refused";
    int r = gp_Embed(g, algo(alg).flags); std::string t = fmt("%c=%d ", alg, r);
    if ((alg == 'd' && r != OK) || (strchr("234", alg) && r == OK)) return t;
    auto dump = [&] { t += fmt("M=%d", g->M); for (int v = 1; v <= g->N; v++) { t += fmt("\n%d(%d):", v, gp_GetVertexIndex(g, v)); for (int e = gp_GetFirstArc(g, v), k = 0; gp_IsArc(e) && k < 5000; e = gp_GetNextArc(g, e), k++) t += fmt(" %d[%d]", gp_GetNeighbor(g, e), e); } t += "\n"; };
    dump(); if (alg == 'd' && full) { char *s = nullptr; int q = gp_DrawPlanar_RenderToString(g, &s); t += fmt("render %d %s", q, s ? s : ""); free(s); }
    int q = gp_SortVertices(g); t += fmt("sort=%d ", q); dump();
    if (full || alg == 'd') { char *s = nullptr; q = gp_WriteToString(g, &s, WRITE_ADJLIST); t += fmt("write %d %s", q, s ? s : ""); free(s); }
    return t;
}
struct Run { const G *x; int link, alg; };
static void prepare(Gp &g, int n, int mode, int cap) { // mode 0: nothing attached yet; 1: all attached before init; 2: all attached after init
    if (cap) gp_EnsureArcCapacity(g, cap); const char *f = mode == 3 ? "432d" : "d234";
    if (mode == 1) for (const char *c = f; *c; c++) if (algo(*c).attach(g) != OK) fail("attach %c failed", *c);
    if (gp_InitGraph(g, n) != OK) fail("gp_InitGraph failed");
    if (mode >= 2) for (const char *c = f; *c; c++) if (algo(*c).attach(g) != OK) fail("attach %c failed", *c);
}
static std::string on(Gp &g, const Run &r, int mode, bool full) {
    if (mode == 0 && algo(r.alg).attach && algo(r.alg).attach(g) != OK) fail("attach %c failed", r.alg);
    std::string t = runTrace(g, *r.x, r.link, r.alg, full);
    return t;
}
static void after(Gp &g, const Run &r, int mode) { if (mode == 0 && algo(r.alg).detach) algo(r.alg).detach(g); }
static std::string fresh(const Run &r, int mode, int cap, bool full) { Gp g; prepare(g, r.x->n, mode, cap); return on(g, r, mode, full); }
static std::string rname_(const Run &r) { return fmt("algorithm %c on %s (ends %d)", r.alg, r.x->str().c_str(), r.link); }
static void chain(const std::vector<Run> &rs, int mode, int cap, bool full, const std::string *want, Ctx &c) {
    Gp g; prepare(g, rs[0].x->n, mode, cap); std::string t;
    for (size_t i = 0; i < rs.size(); i++) { if (i) { gp_ReinitializeGraph(g); } t = on(g, rs[i], mode, full); after(g, rs[i], mode); c.eval(); }
    std::string w = want ? *want : fresh(rs.back(), mode, cap, full);
    if (t != w) { std::string h; for (auto &r : rs) h += rname_(r) + "\n"; fail("after these runs on one object (features: %s)\n%sthe last one gives\n%s\nbut a fresh object gives\n%s", mode == 0 ? "one at a time" : mode == 1 ? "all, before sizing" : "all, after sizing", h.c_str(), t.c_str(), w.c_str()); }
}
static std::shared_ptr<std::vector<Run>> runsOf(std::shared_ptr<GL> l, std::vector<int> links, const char *algs = "pod234") {
    auto v = std::make_shared<std::vector<Run>>(); for (auto &x : *l) for (int k : links) for (const char *a = algs; *a; a++) v->push_back({&x, k, *a}); return v;
}
static const char *spoil[] = {"h", "h h h", "v1", "v2 ", "c", "c c", "n", "n v3", "D", "L", "D s", "L s", "s", "- - -", "+ + +", "d d", "d - +", "h H", "c V", "n v3 V", "w0", "wM", "C", "mp", "mp s", "mp s s", "mo s", "md", "m3", "m4 ", "m2", "m3 s", "m4 s", "md s", "md s r", "mp s i", "m3 xd", "m4 x3", "R", "R R", "D v2", "L c"};
static void spoiled(const G &x, const G &y, int alg, int mode, int cap, size_t sp, Ctx &c) {
    Obj o; o.g = gp_New(); if (cap) gp_EnsureArcCapacity(o.g, cap); if (gp_InitGraph(o.g, x.n) != OK) fail("gp_InitGraph failed"); o.init = true;
    for (char f : std::string("d234")) o.apply({'a', f});
    if (addAll(o.g, x, 1) != OK) fail("could not add the edges"); o.empty = false;
    for (auto &p : ops_(spoil[sp])) if (o.legal(p)) o.apply(p);
    // refused and failing operations change nothing that lasts
    gp_AddEdge(o.g, 1, 0, x.n + 5 * x.n, 0); gp_AddEdge(o.g, 0, 0, 1, 0); gp_EnsureArcCapacity(o.g, 1); gp_InitGraph(o.g, x.n);
    gp_ReinitializeGraph(o.g); c.eval();
    Gp w; prepare(w, x.n, 2, cap); for (char f : std::string("d234")) if (!(o.ext & Obj::bit(f))) algo(f).detach(w);
    if (Obj::bit(alg) && !(o.ext & Obj::bit(alg))) { if (algo(alg).attach(o.g) != OK || algo(alg).attach(w) != OK) fail("attach failed"); }
    std::string t = runTrace(o.g, y, 0, alg, true), u = runTrace(w, y, 0, alg, true);
    if (t != u) fail("after %s, '%s' and reinitialization, algorithm %c on %s gives\n%s\nbut a fresh object gives\n%s", x.str().c_str(), spoil[sp], alg, y.str().c_str(), t.c_str(), u.c_str());
    c.outcome(vp::hashs(t)); (void)mode;
}
// all interleavings of two histories on two objects
static void interleave(const std::vector<Op> &P, const std::vector<Op> &Q, int ia, int ib, Ctx &c) {
    auto make = [&](Obj &o, int in) { o.create(histInputs()[in].n, 0, 0); };
    std::vector<std::string> ta, tb;
    { Obj a; make(a, ia); for (auto &o : P) ta.push_back(a.legal(o) ? a.apply(o) + a.snap() : ""); } { Obj b; make(b, ib); for (auto &o : Q) tb.push_back(b.legal(o) ? b.apply(o) + b.snap() : ""); }
    int n = (int)P.size(), m = (int)Q.size();
    for (int mask = 0; mask < 1 << (n + m); mask++) {
        if (__builtin_popcount(mask) != n) continue;
        Obj a, b; make(a, ia); make(b, ib); int i = 0, j = 0; std::string h;
        for (int s = 0; s < n + m; s++) {
            bool A = mask >> s & 1; Obj &o = A ? a : b; const Op &op = A ? P[i] : Q[j]; const std::string &w = A ? ta[i] : tb[j]; (A ? i : j)++;
            std::string got = o.legal(op) ? o.apply(op) + o.snap() : ""; h += fmt("%s: %s; ", A ? "first" : "second", ostr(op).c_str()); c.trans++;
            if (got != w) fail("graphs %d and %d, %s\nthe last operation gives\n%s\nbut alone it gives\n%s", ia, ib, h.c_str(), got.c_str(), w.c_str());
        }
        c.eval(); c.states++;
    }
    c.outcome(vp::hashs(ostr(P) + ostr(Q) + fmt("%d %d", ia, ib)));
}
// whatever was computed on a graph before, once its vertices are in input order again it can be
// edited and embedded, with the verdict a fresh graph with the same edges gives
static const char *firstUse[] = {"D", "L", "Dss", "Lss", "ps", "os", "3s", "4s", "2s", "psos", "Dps", "Los", "psDss"}, *edits[] = {"", "+", "-", "+-", "-+", "--", "--++", "hH", "v1V"};
static G current(graphP g) { Rot r = extract(g); G y(r.n); for (auto &p : edgeSet(r)) y.add(p.first - 1, p.second - 1); if ((int)y.e.size() != g->M) fail("parallel edges"); return y; }
static bool validResult(graphP g, const G &y, char alg, int r, bool inOrder) {
    Gp f; initFor(f, y, true); if (algo(alg).attach && algo(alg).attach(f) != OK) fail("attaching failed"); if (addAll(f, y) != OK) fail("could not add the edges"); int w = gp_Embed(f, algo(alg).flags);
    if (r != w) fail("algorithm %c returned %s, but %s on a fresh graph with the same edges: %s", alg, rname(r), rname(w), y.str().c_str());
    if (r == OK && strchr("pod", alg)) { checkPlanarEmbedding(g, y, inOrder, alg == 'o'); return true; }
    if (r == NONEMBEDDABLE && alg != 'd') { Kind k = resultKind(g, y, inOrder); bool ok = alg == 'p' ? k == KIND_K5 || k == KIND_K33 : alg == 'o' ? k == KIND_K4 || k == KIND_K23 : k == (alg == '2' ? KIND_K23 : alg == '3' ? KIND_K33 : KIND_K4); if (!ok) fail("the result of algorithm %c is %s", alg, kname(k)); return true; }
    return false;
}
static void again(const G &x, int link, const char *first, const char *edit, char alg, int mode, Ctx &c) {
    if (alg == 'd' && strchr(edit, '-')) return; // drawing refuses graphs with deleted edges
    Gp g; if (gp_EnsureArcCapacity(g, 8 * (int)x.e.size() + 40) != OK) fail("gp_EnsureArcCapacity failed"); if (gp_InitGraph(g, x.n) != OK) fail("gp_InitGraph failed"); auto need = [&](char a) { if (mode == 0 && algo(a).attach && algo(a).attach(g) != OK) fail("attaching failed"); };
    if (mode == 1) for (char a : std::string("d234")) if (algo(a).attach(g) != OK) fail("attaching failed");
    if (addAll(g, x, link) != OK) fail("could not add the edges");
    for (const char *q = first; *q; q++) {
        if (*q == 'D') { if (gp_CreateDFSTree(g) != OK) fail("gp_CreateDFSTree failed"); } else if (*q == 'L') { if (gp_LowpointAndLeastAncestor(g) != OK) fail("gp_LowpointAndLeastAncestor failed"); }
        else if (*q == 's') { if (gp_SortVertices(g) != OK) fail("gp_SortVertices failed"); }
        else { if (*q == 'd' && sp_NonEmpty(((graphP)g)->edgeHoles)) return; G y = current(g); need(*q); int r = gp_Embed(g, algo(*q).flags); c.eval(); if (!validResult(g, y, *q, r, false)) return; if (mode == 0 && algo(*q).detach) algo(*q).detach(g); }
    }
    std::vector<int> hid;
    for (const char *q = edit; *q; q++) switch (*q) {
        case '+': { bool done = false; for (int u = 1; u <= x.n && !done; u++) for (int v = x.n; v > u && !done; v--) if (!gp_IsNeighbor(g, u, v)) { if (gp_AddEdge(g, u, 1, v, 0) != OK) fail("gp_AddEdge failed"); done = true; } if (!done) return; break; }
        case '-': { int e = NIL; for (int v = 1; v <= x.n && e == NIL; v++) e = gp_GetFirstArc(g, v); if (e == NIL) return; gp_DeleteEdge(g, e, 0); break; }
        case 'h': { int e = NIL; for (int v = x.n; v >= 1 && e == NIL; v--) e = gp_GetLastArc(g, v); if (e == NIL) return; gp_HideEdge(g, e); hid.push_back(e); break; }
        case 'H': gp_RestoreEdge(g, hid.back()); hid.pop_back(); break;
        case 'v': q++; if (gp_HideVertex(g, *q - '0') != OK) fail("gp_HideVertex failed"); break;
        case 'V': if (gp_RestoreVertices(g) != OK) fail("gp_RestoreVertices failed"); break;
    }
    if (alg == 'd' && sp_NonEmpty(((graphP)g)->edgeHoles)) return; G y = current(g); need(alg); int r = gp_Embed(g, algo(alg).flags); c.eval(); c.states++; bool more = validResult(g, y, alg, r, false); c.outcome(mix(r + 3, (uint64_t)alg * 64 + y.e.size()));
    if (more) { if (gp_SortVertices(g) != OK) fail("gp_SortVertices failed"); validResult(g, y, alg, r, true); }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    vp::Check c("P16", "model_checking", "every pair and triple of runs of the families on one reinitialized object, every spoiling history followed by reinitialization, and every interleaving of two histories on two objects; the full returned result (lists, numbers, texts) is compared with that of a fresh object; an outcome is a distinct result or pair of histories");
    c.assumptions = {"a fresh object is one newly created with the same features attached in the same order"};
    // pairs: every graph up to isomorphism, every algorithm, first and second
    auto listOf = [](int n) { auto s = gengStore(n); auto l = std::make_shared<GL>(); for (size_t i = 0; i < s.m.size(); i++) l->push_back(s.get(i)); return l; };
    for (int n : {4, 5, 6}) for (int mode = 0; mode < 3; mode++) {
        auto l = listOf(n); auto R = runsOf(l, {0}); uint64_t k = R->size();
        c.add(fmt("pairs-order%d-features%d", n, mode), k, [=](uint64_t i, Ctx &cx) { static std::vector<std::string> want; (void)l; std::string w = fresh((*R)[i], mode, 0, false); cx.outcome(vp::hashs(w)); for (uint64_t j = 0; j < k; j++) chain({(*R)[j], (*R)[i]}, mode, 0, false, &w, cx); if (i % 997 == 0) cx.sample(fmt("order %d: every first run, then %s", n, rname_((*R)[i]).c_str())); },
              [=](uint64_t i) { return fmt("every first run of order %d, then %s", n, rname_((*R)[i]).c_str()); });
    }
    {
        auto l = listOf(7); auto l2 = std::make_shared<GL>(); for (size_t i = 0; i < l->size(); i += th ? 3 : 29) l2->push_back((*l)[l->size() - 1 - i]);
        auto R = runsOf(l, {0}), S = runsOf(l2, {1}); uint64_t k = R->size();
        for (int mode : {0, 1}) c.add(fmt("pairs-order7-features%d", mode), S->size(), [=](uint64_t i, Ctx &cx) { (void)l; (void)l2; std::string w = fresh((*S)[i], mode, 0, false); cx.outcome(vp::hashs(w)); for (uint64_t j = 0; j < k; j++) chain({(*R)[j], (*S)[i]}, mode, 0, false, &w, cx); },
              [=](uint64_t i) { return fmt("every first run of order 7, then %s", rname_((*S)[i]).c_str()); });
    }
    {   // triples on larger structured graphs
        auto l = std::make_shared<GL>(); auto put = [&](G g) { while (g.n < 12) g.n++; if (g.n == 12) l->push_back(g); };
        put(antiprism(6)); put(petersen()); put(grid(3, 4)); put(disjoint(complete(5), bip(3, 3))); put(glueE(complete(5), 0, 1, bip(3, 3), 0, 3, 0)); put(plusEdge(antiprism(6), 0, 9)); put(moebius(6)); put(subdivisions(bip(3, 3), 4, 1).back()); put(wheel(12)); put(bip(2, 10));
        if (th) { put(subdiv(complete(5), {1, 1, 0, 1, 0, 1, 1, 0, 0, 1})); put(prism(6)); put(path(12)); put(disjoint(wheel(6), bip(2, 4))); put(plusEdge(wheel(12), 1, 5)); }
        auto R = runsOf(l, {2}); uint64_t k = R->size();
        for (int mode : {0, 2}) c.add(fmt("triples-order12-features%d", mode), k, [=](uint64_t i, Ctx &cx) { (void)l; std::string w = fresh((*R)[i], mode, 0, true); cx.outcome(vp::hashs(w)); for (uint64_t j = 0; j < k; j++) for (uint64_t q = 0; q < k; q++) chain({(*R)[j], (*R)[q], (*R)[i]}, mode, 0, true, &w, cx); },
              [=](uint64_t i) { return fmt("every two runs, then %s", rname_((*R)[i]).c_str()); });
    }
    for (int n : {5, 6}) {
        auto l = listOf(n); auto ys = std::make_shared<GL>(); for (size_t i = 0; i < l->size(); i += n == 5 ? 3 : (th ? 4 : 17)) ys->push_back((*l)[l->size() - 1 - i]); uint64_t ns = sizeof spoil / sizeof *spoil;
        c.add(fmt("spoiled-order%d", n), l->size() * ns, [=](uint64_t i, Ctx &cx) { for (auto &y : *ys) for (char a : std::string("pod234")) for (int cap : {0, 40}) spoiled((*l)[i / ns], y, a, 2, cap, i % ns, cx); },
              [=](uint64_t i) { return fmt("first %s, '%s'", (*l)[i / ns].str().c_str(), spoil[i % ns]); });
    }
    {
        auto l = std::make_shared<GL>(); for (int n = 2; n <= (th ? 7 : 6); n++) append(*l, *listOf(n)); for (auto &x : histInputs()) l->push_back(x); append(*l, subdivisions(bip(3, 3), 2, 1)); append(*l, subdivisions(complete(5), 2, 1)); append(*l, {grid(3, 4), antiprism(6), prism(6), petersen(), wheel(9), disjoint(complete(5), bip(3, 3)), moebius(5), bip(2, 9)});
        const int nf = sizeof firstUse / sizeof *firstUse, ne = sizeof edits / sizeof *edits; int links = th ? 3 : 1;
        auto of = [=](uint64_t i) { return std::make_tuple(i / nf / ne / links, (int)(i % nf), (int)(i / nf % ne), (int)(i / nf / ne % links)); };
        c.add("used-then-edited-then-embedded", l->size() * nf * ne * links, [=](uint64_t i, Ctx &cx) { auto [k, f, e, b] = of(i); for (char a : std::string("pod234")) for (int m = 0; m < 2; m++) for (int z = 0; z < (links == 1 ? 2 : 1); z++) again((*l)[k], links == 1 ? (z ? 2 : 0) : b, firstUse[f], edits[e], a, m, cx); },
              [=](uint64_t i) { auto [k, f, e, b] = of(i); return fmt("%s; first '%s', then '%s', then every algorithm", (*l)[k].str().c_str(), firstUse[f], edits[e]); });
    }
    {   // interleavings of two histories
        static std::vector<std::vector<Op>> Hs; for (const char *s : {"E ad md s r", "E a3 m3 s w0", "E a4 m4 s x4", "E a2 m2 R E", "E mp s i s", "E c V D L", "E n v3 V w0", "E h h H H", "E ad a3 x3 md", "E mo s + -", "E L s s w0", "E d w0 - R"}) Hs.push_back(ops_(s));
        int nh = (int)Hs.size(); static const int ins[][2] = {{0, 0}, {0, 2}, {1, 5}, {5, 6}, {8, 3}, {9, 1}, {2, 9}, {7, 8}}; int npair = th ? 8 : 5;
        c.add("interleavings", (uint64_t)nh * nh * npair, [=](uint64_t i, Ctx &cx) { int p = i % npair; auto P = Hs[i / npair / nh], Q = Hs[i / npair % nh]; for (auto &o : P) if (o.k == 'E') o.a = ins[p][0]; for (auto &o : Q) if (o.k == 'E') o.a = ins[p][1]; interleave(P, Q, ins[p][0], ins[p][1], cx); },
              [=](uint64_t i) { int p = i % npair; return fmt("graphs %d and %d, histories '%s' and '%s'", ins[p][0], ins[p][1], ostr(Hs[i / npair / nh]).c_str(), ostr(Hs[i / npair % nh]).c_str()); });
    }
    c.budget = th ? 700 : 300; c.blockMax = 4; c.hangLimit = 200;
    return c.main(argc, argv);
}

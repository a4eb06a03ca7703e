// P17: features coexist in any order and number, and detach without trace.
#include "history.hpp"
extern "C" int gp_AddExtension(graphP, int *, void *, void *(*)(void *, void *), void (*)(void *), graphFunctionTableP);
extern "C" int gp_FindExtension(graphP, int, void **); extern "C" void *gp_GetExtension(graphP, int); extern "C" void gp_FreeExtensions(graphP); extern "C" int gp_RemoveExtension(graphP, int);
// two features of a user, which count calls and pass them on
struct User { graphFunctionTable f; int calls[4]; int *freed; };
static int userId[2]; static User *userOf(graphP g, int k) { void *c = &c; int r = gp_FindExtension(g, userId[k], &c); if (gp_GetExtension(g, userId[k]) != c || (r ? !c : c != nullptr)) fail("gp_FindExtension and gp_GetExtension disagree"); return (User *)c; }
template <int K> struct UF {
    static int sort(graphP g) { User *u = userOf(g, K); u->calls[0]++; return u->f.fpSortVertices(g); }
    static void reinit(graphP g) { User *u = userOf(g, K); u->calls[1]++; u->f.fpReinitializeGraph(g); }
    static int embinit(graphP g) { User *u = userOf(g, K); u->calls[2]++; return u->f.fpEmbeddingInitialize(g); }
    static void hide(graphP g, int e) { User *u = userOf(g, K); u->calls[3]++; u->f.fpHideEdge(g, e); }
};
static void *userDup(void *c, void *) { User *n = (User *)malloc(sizeof(User)); *n = *(User *)c; return n; }
static void userFree(void *c) { User *u = (User *)c; if (u->freed) ++*u->freed; free(u); }
static int freedCount[2];
static int userAttach(graphP g, int k) {
    if (userId[k] && gp_FindExtension(g, userId[k], nullptr)) return OK;
    User *u = (User *)calloc(1, sizeof(User)); u->freed = &freedCount[k];
    if (k == 0) { u->f.fpSortVertices = UF<0>::sort; u->f.fpReinitializeGraph = UF<0>::reinit; u->f.fpEmbeddingInitialize = UF<0>::embinit; }
    else { u->f.fpSortVertices = UF<1>::sort; u->f.fpHideEdge = UF<1>::hide; u->f.fpReinitializeGraph = UF<1>::reinit; }
    int r = gp_AddExtension(g, &userId[k], u, userDup, userFree, &u->f); if (r != OK) { free(u); return r; }
    User *v = userOf(g, k); if (v != u) fail("the context of an added feature is not found"); if (gp_AddExtension(g, &userId[k], u, userDup, userFree, &u->f) != NOTOK) fail("a feature was added twice"); return OK;
}
// the actions: 0-3 attach d,2,3,4; 4-5 attach user features; 6-11 detach; 12.. run algorithm
static const char FE[] = "d234xy";
struct World {
    graphP g = gp_New(); bool init = false; std::string att; std::string h; bool used = false;
    ~World() { gp_Free(&g); }
    bool has(char f) { return att.find(f) != std::string::npos; }
    void attach(char f) {
        h += fmt("attach %c; ", f); bool had = has(f); int r = f == 'x' ? userAttach(g, 0) : f == 'y' ? userAttach(g, 1) : algo(f).attach(g);
        if (r != OK) fail("%sattaching failed with %s", h.c_str(), rname(r)); if (!had) att += f;
    }
    void detach(char f) {
        h += fmt("detach %c; ", f); int before = freedCount[f == 'y']; int r = f == 'x' ? (userId[0] ? gp_RemoveExtension(g, userId[0]) : OK) : f == 'y' ? (userId[1] ? gp_RemoveExtension(g, userId[1]) : OK) : algo(f).detach(g);
        if (has(f)) { if (r != OK) fail("%sdetaching failed with %s", h.c_str(), rname(r)); att.erase(att.find(f), 1); if (strchr("xy", f) && freedCount[f == 'y'] != before + 1) fail("%sthe detached feature's data was freed %d times", h.c_str(), freedCount[f == 'y'] - before); }
    }
    void freeAll() {
        h += "free all; "; int b[2] = {freedCount[0], freedCount[1]}; gp_FreeExtensions(g); for (int k = 0; k < 2; k++) if (freedCount[k] - b[k] != (int)has("xy"[k])) fail("%sthe data of user feature %d was freed %d times", h.c_str(), k, freedCount[k] - b[k]);
        att = ""; for (int k = 0; k < 2; k++) if (userId[k] && userOf(g, k)) fail("%suser feature %d is still found", h.c_str(), k);
    }
    void size(int n) { if (!init) { h += "size; "; if (gp_InitGraph(g, n) != OK) fail("%sgp_InitGraph failed", h.c_str()); init = true; } }
    void calls(int *c) { for (int k = 0; k < 2; k++) { User *u = has("xy"[k]) ? userOf(g, k) : nullptr; if (has("xy"[k]) && !u) fail("%sfeature %c is not found", h.c_str(), "xy"[k]); for (int i = 0; i < 4; i++) c[k * 4 + i] = u ? u->calls[i] : 0; } }
    void expectCalls(const int *a, int i, int want0, int want1, const char *w) { int b[8]; calls(b); if (has('x') && b[i] - a[i] != want0) fail("%s%s reached the first user feature %d times, expected %d", h.c_str(), w, b[i] - a[i], want0); if (has('y') && b[4 + i] - a[4 + i] != want1) fail("%s%s reached the second user feature %d times, expected %d", h.c_str(), w, b[4 + i] - a[4 + i], want1); }
    void run(char a, const G &x, Ctx &c, bool preloaded = false) {
        h += fmt("run %c; ", a); size(x.n); int q[8]; calls(q);
        if (used) { gp_ReinitializeGraph(g); expectCalls(q, 1, 1, 1, "reinitialization"); } used = true;
        if (!preloaded) if (addAll(g, x, 0) != OK) fail("%scould not add the edges", h.c_str());
        calls(q); int r = gp_Embed(g, algo(a).flags); c.eval(); expectCalls(q, 2, 1, 0, "embedding");
        try { validate(a, x, r); } catch (vp::Fail &f) { fail("%son %s\n%s", h.c_str(), x.str().c_str(), f.msg.c_str()); }
        c.outcome(vp::hashs(att + fmt("%c%d", a, r)));
    }
    void validate(char a, const G &x, int r) {
        if (r != OK && r != NONEMBEDDABLE) fail("gp_Embed returned %s", rname(r));
        bool ok = a == 'p' || a == 'd' ? orc::planar(x) : a == 'o' ? orc::outerplanar(x) : a == '2' ? !orc::hasK23(x) : a == '3' ? !orc::hasK33(x) : !orc::hasK4(x);
        if (ok != (r == OK)) fail("wrong verdict %s", rname(r));
        if (r == OK && strchr("234", a)) return; if (r != OK && a == 'd') return;
        int q[8]; for (int s = 0; s < 2; s++) {
            if (r == OK) checkPlanarEmbedding(g, x, s, a == 'o');
            else { Kind k = resultKind(g, x, s); bool good = a == 'p' ? k == KIND_K5 || k == KIND_K33 : a == 'o' ? k == KIND_K4 || k == KIND_K23 : k == (a == '2' ? KIND_K23 : a == '3' ? KIND_K33 : KIND_K4); if (!good) fail("the result is %s", kname(k)); }
            if (a == 'd') { Drawing d = drawingOf(g, writeStr(g, WRITE_ADJLIST), false); checkDrawing(d); char *t = nullptr; if (gp_DrawPlanar_RenderToString(g, &t) != OK || !t) fail("rendering failed"); free(t); }
            if (!s) { calls(q); if (gp_SortVertices(g) != OK) fail("gp_SortVertices failed"); expectCalls(q, 0, 1, 1, "sorting"); }
        }
        if (!has('d')) { std::string t = writeStr(g, WRITE_ADJLIST); if (t.find("<DrawPlanar>") != std::string::npos) fail("a drawing is written, but the feature is detached"); }
    }
};
static const GL &inputs() { static GL l; if (l.empty()) { l.push_back(minusEdge(complete(5), 4)); l.push_back(complete(5)); G k(6); k = bip(3, 3); l.push_back(k); l.push_back(glueE(complete(5), 0, 1, bip(3, 3), 0, 3, 0)); l.push_back(cyc(5)); l.push_back(bip(2, 3)); G w = wheel(5); l.push_back(w); l.push_back(antiprism(4)); l.push_back(petersen()); } return l; }
static void finish(World &w, int in, Ctx &c) { // everything that should work now, works
    const G &x = inputs()[in]; w.run('p', x, c); for (char f : std::string("d234")) if (w.has(f)) w.run(f, x, c); w.run('o', x, c);
    // a copy has the same features
    graphP d = gp_DupGraph(w.g); if (!d) fail("%sgp_DupGraph failed", w.h.c_str()); for (char f : std::string("d234")) { if (w.has(f)) { gp_ReinitializeGraph(d); if (addAll(d, x, 0) != OK) fail("%scould not add the edges to a copy", w.h.c_str()); World v; gp_Free(&v.g); v.g = d; v.h = w.h + "copy; "; v.att = w.att; v.init = v.used = true; try { v.run(f, x, c); } catch (...) { v.g = nullptr; gp_Free(&d); throw; } v.g = nullptr; } } gp_Free(&d);
    // and detaching all, oldest first
    while (!w.att.empty()) { w.detach(w.att[0]); } w.run('p', x, c); w.run('o', x, c);
}
static std::string actName(int a) { return a == 19 ? "free all; " : fmt("%s %c; ", a < 6 ? "attach" : a < 12 ? "detach" : "run", a < 12 ? FE[a % 6] : "podd234"[a - 12]); }
static void act(World &w, int a, int in, Ctx &c, bool &ok) {
    if (a == 19) w.freeAll(); else if (a < 6) w.attach(FE[a]); else if (a < 12) w.detach(FE[a - 6]); else { char al = "podd234"[a - 12]; const G &x = inputs()[in]; if (strchr("d234", al) && !w.has(al)) { ok = false; return; } w.run(al, x, c); }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    vp::Check c("P17", "model_checking", "every sequence of attaching, detaching and running up to the depth, with the size set at every point of it, and every order of attaching and detaching all six features (two of them user-defined); after each, every algorithm runs and its verdict and result are checked by independent oracles; an outcome is a distinct (features in order, algorithm, verdict)");
    c.assumptions = {"an algorithm is run only while its feature is attached", "two user-defined features stand for arbitrary ones"};
    const int NA = 20; int nin = (int)inputs().size();
    auto dec = [](uint64_t i, int len, std::vector<int> &s) { for (int k = 0; k < len; k++) { s.push_back(i % NA); i /= NA; } return i; };
    for (int len = 1; len <= (th ? 4 : 3); len++) {
        uint64_t n = 1; for (int k = 0; k < len; k++) n *= NA;
        c.add(fmt("sequences-length%d", len), n, [=](uint64_t i, Ctx &cx) {
            std::vector<int> s; dec(i, len, s);
            for (int at = 0; at <= len; at++) for (int in = 0; in < nin; in += (len > 3 ? 3 : 1)) { if (at > 0 && s[at - 1] >= 12 && s[at - 1] < 19) break; World w; bool ok = true; for (int k = 0; k < len && ok; k++) { if (k == at) w.size(inputs()[in].n); act(w, s[k], in, cx, ok); } if (!ok) break; if (at == len) w.size(inputs()[in].n); cx.trans += len; cx.states++; finish(w, in, cx); }
            if (i % 4001 == 17) { std::string t; for (int a : s) t += actName(a); cx.sample(t); }
        }, [=](uint64_t i) { std::vector<int> s; dec(i, len, s); std::string t; for (int a : s) t += actName(a); return t; });
    }
    // all orders of attaching six features, all orders of detaching them, with the size set in between
    c.add("orders-attach-detach", 720 * (th ? 720 : 120), [=](uint64_t i, Ctx &cx) {
        int per = th ? 720 : 120; std::string a = FE, d = FE; std::sort(a.begin(), a.end()); std::sort(d.begin(), d.end()); for (uint64_t k = 0; k < i / per; k++) std::next_permutation(a.begin(), a.end()); for (uint64_t k = 0; k < (i % per) * (th ? 1 : 6) + (i / per) % (th ? 1 : 6); k++) std::next_permutation(d.begin(), d.end());
        int in = (int)(i % nin), at = (int)(i % 7); const G &x = inputs()[in]; World w; for (int k = 0; k < 6; k++) { if (k == at) w.size(x.n); w.attach(a[k]); } w.size(x.n); cx.states++;
        for (int k = 0; k < 6; k++) { for (char f : std::string("d234")) if (w.has(f) && (i + k + f) % 2) { w.run(f, x, cx); } w.detach(d[k]); w.run(k & 1 ? 'o' : 'p', x, cx); cx.trans++; }
    }, [=](uint64_t i) { return fmt("attach order number %llu, detach order number %llu", (unsigned long long)i / (th ? 720 : 120), (unsigned long long)i % (th ? 720 : 120)); });
    // attached only after the edges were added, or while a result is held
    auto s5 = std::make_shared<GengStore>(gengStore(5)), s6 = std::make_shared<GengStore>(gengStore(6)), s7 = std::make_shared<GengStore>(gengStore(7));
    for (auto st : {s5, s6, s7}) c.add(fmt("late-attachment-order%d", st->n), st->m.size(), [=](uint64_t i, Ctx &cx) {
        G x = st->get(i); std::string o = "234d"; do {
            for (int late = 0; late < 3; late++) { World w; w.size(x.n); if (addAll(w.g, x, late) != OK) fail("could not add the edges"); w.used = false; if (late == 1) w.run('p', x, cx, true), w.used = true; if (late == 2) w.run('o', x, cx, true), w.used = true; for (int k = 0; k < 4; k++) { w.attach(o[k]); if (late && k == 1) w.run(o[0], x, cx); } w.run(o[late], x, cx, !late); if (late == 0) { w.detach(o[3]); w.run(o[1], x, cx); } cx.states++; }
            if (st->n > 5) std::next_permutation(o.begin(), o.end()), std::next_permutation(o.begin(), o.end()), std::next_permutation(o.begin(), o.end()), std::next_permutation(o.begin(), o.end()); if (st->n > 6) for (int k = 0; k < 4; k++) if (!std::next_permutation(o.begin(), o.end())) return;
        } while (std::next_permutation(o.begin(), o.end()) && o != "234d");
        if (i % 211 == 0) cx.sample("features attached after the edges of " + x.str());
    }, [=](uint64_t i) { return "features attached after the edges of " + st->get(i).str(); });
    c.budget = th ? 700 : 300; c.blockMax = 16; c.hangLimit = 100;
    return c.main(argc, argv);
}

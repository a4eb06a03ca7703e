// P22: every failing memory request (one, or all from some point on; thorough: every two) of histories
// and scenarios covering all entry points. P26: after longer histories without such failures nothing
// allocated by the library remains. Both count what the library allocates and frees.
#include "history.hpp"
#include "io.hpp"
#include <fcntl.h>
#include <unordered_map>
extern "C" {
#include "io/strbuf.h"
#include "io/strOrFile.h"
#include "lowLevelUtils/listcoll.h"
#include "lowLevelUtils/stack.h"
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void __sanitizer_symbolize_pc(void *, const char *, char *, size_t);
}
static struct Fault { bool armed = false; long n = 0, hits = 0; int mode = 0; long k = -1, k2 = -1; void *at = nullptr; } F; // mode 0: none, 1: requests k and k2, 2: all from k
static std::unordered_map<void *, void *> live;
static bool deny(void *ra) { if (!F.armed) return false; long i = F.n++; bool d = F.mode == 1 ? i == F.k || i == F.k2 : F.mode == 2 ? i >= F.k : false; if (d) { if (!F.hits) F.at = ra; F.hits++; } return d; }
extern "C" {
void *__wrap_malloc(size_t s) { void *ra = __builtin_return_address(0); if (deny(ra)) return nullptr; void *p = __real_malloc(s); if (p) live[p] = ra; return p; }
void *__wrap_calloc(size_t a, size_t b) { void *ra = __builtin_return_address(0); if (deny(ra)) return nullptr; void *p = __real_calloc(a, b); if (p) live[p] = ra; return p; }
void *__wrap_realloc(void *q, size_t s) { void *ra = __builtin_return_address(0); if (deny(ra)) return nullptr; void *p = __real_realloc(q, s); if (p) { live.erase(q); live[p] = ra; } return p; }
void __wrap_free(void *p) { if (p) live.erase(p); __real_free(p); }
}
static std::string where(void *pc) { char b[400] = "?"; if (pc) __sanitizer_symbolize_pc(pc, "%f", b, sizeof b); return b; }
struct Armed { Armed() { F.armed = true; } ~Armed() { F.armed = false; } };
struct Quiet { bool o = F.armed; Quiet() { F.armed = false; } ~Quiet() { F.armed = o; } };
struct Refused { std::string why; };
static const std::string *REF = nullptr; // what the scenario gives when no request fails
static std::string trail;                // what was done, for reports
static void need(bool ok, const char *what) { if (!ok) throw Refused{what}; }
#define NEED(x) need((x) == OK, #x)
#define NEEDP(x) need((x) != NULL, #x)
static int lowestFd() { int f = open("/dev/null", O_RDONLY); close(f); return f; }
typedef std::function<std::string()> Sc;
static std::string once(const Sc &f, bool &refused, Ctx &c, const std::string &plan) {
    live.clear(); F.n = F.hits = 0; F.armed = false; F.at = nullptr; refused = false; std::string t; int fd = lowestFd();
    try { t = f(); } catch (Refused &r) { refused = true; t = r.why; } catch (vp::Fail &x) { F.armed = false; if (F.hits && x.msg == "gp_New returned NULL") { refused = true; t = x.msg; } else { x.msg = plan + ": " + x.msg + (F.hits ? " [refused request in " + where(F.at) + "]" : ""); throw; } }
    F.armed = false; c.eval(); c.trans++; std::string hit = F.hits ? " [refused request in " + where(F.at) + "]" : "";
    if (!live.empty()) { auto p = *live.begin(); size_t k = live.size(); fail("%s: after everything was freed, %zu block(s) remain, one allocated in %s%s", plan.c_str(), k, where(p.second).c_str(), hit.c_str()); }
    if (lowestFd() != fd) fail("%s: a file stays open%s", plan.c_str(), hit.c_str());
    return t;
}
static bool THOROUGH = false;
static void explore(const Sc &f, Ctx &c, bool faults) {
    bool rr; F.mode = 0; REF = nullptr; std::string ref = once(f, rr, c, "with enough memory"); long n = F.n; c.outcome(vp::hashs(ref)); c.states++;
    if (!faults) return;
    auto one = [&](int mode, long k, long k2) {
        F.mode = mode; F.k = k; F.k2 = k2; REF = &ref; bool r; std::string plan = mode == 2 ? fmt("memory requests fail from number %ld of %ld", k + 1, n) : k2 >= 0 ? fmt("memory requests %ld and %ld of %ld fail", k + 1, k2 + 1, n) : fmt("memory request %ld of %ld fails", k + 1, n);
        std::string t = once(f, r, c, plan); REF = nullptr; F.mode = 0;
        if (rr && !r) fail("%s: succeeded, though refused with enough memory", plan.c_str()); if (!r && t != ref) fail("%s: success was reported, but the result is\n%s\ninstead of\n%s [refused request in %s]", plan.c_str(), t.substr(0, 1200).c_str(), ref.substr(0, 1200).c_str(), where(F.at).c_str());
        c.outcome(vp::mix(vp::hashs(t), r));
    };
    for (long k = 0; k < n; k++) { one(1, k, -1); one(2, k, -1); }
    if (THOROUGH && n < 60) for (long k = 0; k < n; k++) for (long j = k + 1; j < n; j++) one(1, k, j);
}
static std::string rot(graphP g) { Quiet q; std::string t = fmt("N=%d M=%d cap=%d", g->N, g->M, gp_GetArcCapacity(g)); if (g->N) { DG d = look(g); t += d.str(); } return t; }
// ---------------------------------------------------------------- an object and a last operation
struct Last { Op o; int copy = -1; }; // copy: an operation on another object
enum { CDUP, CFRESH, CLARGER, CSMALLER, CFEATURES, CUNINIT, CREAD, NCOPY };
static const char *copyName[] = {"gp_DupGraph", "gp_CopyGraph to a fresh object", "gp_CopyGraph to a larger object", "gp_CopyGraph to a smaller object", "gp_CopyGraph to an object with features", "gp_CopyGraph to an object not initialized", "write and read into another object"};
static std::string lstr(const Last &l) { return l.copy >= 0 ? copyName[l.copy] : ostr(l.o); }
static std::string snapAny(graphP g) { Obj o; o.g = g; o.init = true; std::string t = o.snap(); o.g = nullptr; return t; }
static std::string copying(const Obj &s, int k) {
    graphP d = nullptr; struct Fr { graphP &g; ~Fr() { Quiet q; if (g) gp_Free(&g); } } fr{d}; int n = s.g->N;
    if (k == CDUP) { Armed a; d = gp_DupGraph(s.g); NEEDP(d); }
    else if (k == CREAD) { char *t = nullptr; Armed a; int r = gp_WriteToString(s.g, &t, WRITE_ADJLIST); std::unique_ptr<char, void (*)(void *)> own(t, [](void *p) { Quiet q; free(p); }); NEED(r); NEEDP(t); d = gp_New(); NEEDP(d); char *u; { Quiet q; u = heap(t); } NEED(gp_ReadFromString(d, u)); }
    else {
        d = gp_New(); if (k == CLARGER) gp_EnsureArcCapacity(d, 2 * n * n + 40); if (k == CFEATURES) gp_EnsureArcCapacity(d, gp_GetArcCapacity(s.g)); if (k == CSMALLER) gp_EnsureArcCapacity(d, 2); if (k != CUNINIT) { gp_InitGraph(d, n); gp_AddEdge(d, 1, 0, n, 0); } if (k == CFEATURES) { gp_AttachK33Search(d); gp_AttachK4Search(d); gp_AttachDrawPlanar(d); }
        Armed a; NEED(gp_CopyGraph(d, s.g));
    }
    if (s.broken) return "copied"; std::string t = snapAny(d); if (k != CREAD && t != s.snap()) fail("the copy is\n%s\nthe source\n%s", t.c_str(), s.snap().c_str()); return t;
}
static bool applicable(const Obj &o, const Last &l) { if (l.copy < 0) return o.legal(l.o) && !(l.o.k == 'C' && (o.ext & 13)); if (l.copy == CREAD) return o.legal({'w', WRITE_ADJLIST}) && !o.drawn; return o.init; }
static std::string act(Obj &o, const Last &l) { // throws Refused
    if (l.copy >= 0) return copying(o, l.copy);
    std::string t; try { Armed a; t = o.apply(l.o); } catch (vp::Fail &x) { F.armed = false; if (F.hits && (x.msg.find("NOTOK") != std::string::npos || x.msg.find("gp_DupGraph failed") != std::string::npos)) throw Refused{x.msg}; throw; }
    bool no = t.size() > 3 && t.substr(t.size() - 3) == "=0 "; t += o.snap(); if (F.hits && no && REF && t != *REF) throw Refused{t}; return t;
}
static void prepare(Obj &o, int in, int cap, int ext0, const std::vector<Op> &P) { o.create(histInputs()[in].n, cap, ext0); o.apply({'E', in}); for (auto &x : P) if (o.legal(x)) o.apply(x); }
static void afterRefusal(Obj &o, int in, int cap, int ext0, const std::vector<Op> &P, const Last &l, const std::string &before, const std::string &why) {
    F.armed = false; F.mode = 0; // memory is available again
    if (l.copy >= 0 || strchr("wraC+xi", l.o.k)) {
        if (o.snap() != before) fail("%s was refused (%s); the graph has changed from\n%s\nto\n%s", lstr(l).c_str(), why.c_str(), before.c_str(), o.snap().c_str());
        std::string t = act(o, l); if (t != *REF) fail("%s was refused (%s); repeated with enough memory it gives\n%s\ninstead of\n%s", lstr(l).c_str(), why.c_str(), t.c_str(), REF->c_str());
    } else if (l.o.k == 'm') {
        Obj r; prepare(r, in, cap, ext0, P); r.apply(l.o); o.dir = false; std::string a, b; for (auto &x : {Op{'R'}, Op{'E', in}, l.o}) { a += o.apply(x); b += r.apply(x); } a += o.snap(); b += r.snap();
        if (a != b) fail("%s was refused (%s); the graph initialized again and embedded gives\n%s\ninstead of\n%s", lstr(l).c_str(), why.c_str(), a.c_str(), b.c_str());
    }
}
static std::string history(int in, int cap, int ext0, const std::vector<Op> &P, const Last &l) {
    std::string t; { Obj o; prepare(o, in, cap, ext0, P); if (!applicable(o, l)) return "not applicable"; std::string before = o.snap();
        try { t = act(o, l); } catch (Refused &r) { F.armed = false; if (l.copy == CUNINIT) throw; if (!REF) throw vp::Fail{lstr(l) + " failed: " + r.why}; int m = F.mode; afterRefusal(o, in, cap, ext0, P, l, before, r.why); F.mode = m; throw; } F.armed = false; }
    return t;
}
static std::vector<Last> lasts() { std::vector<Last> v; for (const char *s : {"R", "mp", "mo", "s", "w0", "wM", "wG", "i", "+", "-", "d", "h", "H", "v1", "v3", "c", "n", "V", "D", "L", "ad", "a2", "a3", "a4", "xd", "x2", "x3", "x4", "md", "m2", "m3", "m4", "r", "C"}) v.push_back({ops_(s)[0]}); for (int k = 0; k < NCOPY; k++) v.push_back({{'?'}, k}); return v; }
// ---------------------------------------------------------------- scenarios in which every request can fail
struct Scenario { std::string name; Sc f; };
static std::vector<Scenario> SC;
static void scenarios() {
    auto add = [](std::string n, Sc f) { SC.push_back({n, [f]() { std::string t; { Armed a; t = f(); } return t; }}); };
    // creating: features before or after initialization, capacity
    for (int cap : {0, 40}) for (int ord = 0; ord < 6; ord++) for (int ex = 0; ex < 16; ex++) add(fmt("create, capacity %d, features %x, order %d", cap, ex, ord), [=]() {
        Gp g; int n = ord & 1 ? 1 : 6; auto att = [&](bool rev) { std::string s = rev ? "432d" : "d234"; for (char c : s) if (ex & Obj::bit(c)) { NEED(algo(c).attach(g)); NEED(algo(c).attach(g)); } };
        if (ord < 2) { if (cap) NEED(gp_EnsureArcCapacity(g, cap)); att(false); NEED(gp_InitGraph(g, n)); } else if (ord < 4) { if (cap) NEED(gp_EnsureArcCapacity(g, cap)); NEED(gp_InitGraph(g, n)); att(true); } else { NEED(gp_InitGraph(g, n)); if (cap) NEED(gp_EnsureArcCapacity(g, cap)); att(false); for (char c : std::string("3d42")) if (ex & Obj::bit(c)) NEED(algo(c).detach(g)); att(true); }
        for (int v = 2; v <= n; v++) NEED(gp_AddEdge(g, v - 1, 0, v, 0)); return rot(g);
    });
    // an initialization that failed can be repeated
    for (int cap : {0, 40}) for (int ex = 0; ex < 16; ex++) add(fmt("initialize until it works, capacity %d, features %x", cap, ex), [=]() {
        Gp g; if (cap) NEED(gp_EnsureArcCapacity(g, cap)); for (char c : std::string("d234")) if (ex & Obj::bit(c)) NEED(algo(c).attach(g)); int r = gp_InitGraph(g, 6); if (r != OK) { Quiet q; if (!F.hits) need(0, "init"); F.armed = false; for (char c : std::string("d234")) if (ex & Obj::bit(c)) NEED(algo(c).attach(g)); if (gp_InitGraph(g, 6) != OK) fail("gp_InitGraph failed and fails again with enough memory"); }
        { Quiet q; for (int v = 2; v <= 6; v++) for (int u = 1; u < v && v - u < 3; u++) NEED(gp_DynamicAddEdge(g, u, 0, v, 0)); for (char c : std::string("p234d")) if (c == 'p' || (ex & Obj::bit(c))) { int e = gp_Embed(g, algo(c).flags); if (e == NOTOK) fail("algorithm %c on the object initialized again returned NOTOK", c); gp_ReinitializeGraph(g); for (int v = 2; v <= 6; v++) for (int u = 1; u < v && v - u < 3; u++) NEED(gp_DynamicAddEdge(g, u, 0, v, 0)); } }
        Quiet q; DG d = look(g); return d.str();
    });
    // growth by many edges
    for (int ex = 0; ex < 3; ex++) add(fmt("grow by edges, features %d", ex), [=]() { Gp g; NEED(gp_InitGraph(g, 14)); if (ex == 1) NEED(gp_AttachK23Search(g)); if (ex == 2) NEED(gp_AttachDrawPlanar(g)), NEED(gp_DetachDrawPlanar(g)); for (int k = 0; k < 1; k++) for (int v = 2; v <= 14; v++) for (int u = 1; u < v; u++) { int r = gp_DynamicAddEdge(g, u, k & 1, v, 1); if (r != OK) { { Quiet q; Rot t = extract(g); (void)t; bool o = F.armed; F.armed = false; if (gp_DynamicAddEdge(g, u, k & 1, v, 1) != OK) fail("an edge refused for lack of memory is refused again"); } if (!F.hits) need(0, "edge"); } } return rot(g); });
    for (int c1 : {2, 30, 31, 60}) for (int c2 : {20, 80}) add(fmt("size %d then %d", c1, c2), [=]() { Gp g; NEED(gp_EnsureArcCapacity(g, c1)); NEED(gp_InitGraph(g, 5)); NEED(gp_AddEdge(g, 1, 0, 2, 0)); NEED(gp_EnsureArcCapacity(g, c2)); NEED(gp_AddEdge(g, 2, 0, 3, 0)); NEED(gp_EnsureArcCapacity(g, c1 + c2)); return rot(g); });
    // reading
    std::vector<std::string> T; { auto txt = [&](const G &x, char a, int mode, bool sort, bool dir = false) { Obj o; o.create(x.n, 2 * (int)x.e.size() + 2, a == 'p' ? 0 : Obj::bit(a)); addAll(o.g, x); if (dir) gp_SetDirection(o.g, gp_GetFirstEdge(o.g), EDGEFLAG_DIRECTION_INONLY); if (a != 'p') { gp_Embed(o.g, algo(a).flags); if (sort) gp_SortVertices(o.g); } T.push_back(writeStr(o.g, mode)); };
        txt(complete(4), 'p', WRITE_ADJLIST, false); txt(complete(7), 'p', WRITE_ADJLIST, false); txt(path(4), 'p', WRITE_ADJLIST, false, true); txt(wheel(5), 'd', WRITE_ADJLIST, true); txt(wheel(5), 'd', WRITE_ADJLIST, false); txt(complete(5), 'p', WRITE_ADJMATRIX, false); txt(complete(7), 'p', WRITE_ADJMATRIX, false); txt(bip(3, 4), 'p', WRITE_G6, false); txt(complete(10), 'p', WRITE_G6, false); }
    T.push_back(">>graph6<<" + T.back()); T.push_back(ledaText(3, {{1, 2}, {2, 3}})); { std::vector<std::pair<int, int>> e; for (int i = 1; i <= 9; i++) for (int j = 1; j < i; j++) e.push_back({j, i}); T.push_back(ledaText(9, e)); }
    size_t good = T.size(); for (size_t k = 0; k < good; k++) for (size_t f : {1, 2, 3}) T.push_back(T[k].substr(0, T[k].size() * f / 4)); T.push_back(""); T.push_back("N=3\n1: 9 0\n"); T.push_back("N=0\n"); T.push_back("nonsense\n"); T.push_back(T[3].substr(0, T[3].find('<') == std::string::npos ? 10 : T[3].find('<') + 5));
    for (size_t k = 0; k < T.size(); k++) for (int end = 0; end < 2; end++) for (int ob = 0; ob < 5; ob++) { std::string x = T[k]; add(fmt("read text %zu from %s into object kind %d", k, end ? "a string" : "a file", ob), [=]() {
        std::string f = scratchFile(); { Quiet q; putFile(f, x); } Gp g; { Quiet q; if (ob == 1) gp_AttachDrawPlanar(g); if (ob == 2) for (char c : std::string("4d32")) algo(c).attach(g); if (ob >= 3) { gp_InitGraph(g, 4); gp_AddEdge(g, 1, 0, 2, 0); } if (ob == 4) gp_AttachDrawPlanar(g); }
        char *s = nullptr; if (end) { Quiet q; s = heap(x); } int r = end ? gp_ReadFromString(g, s) : gp_Read(g, (char *)f.c_str());
        if (r != OK && F.hits) { Quiet q; int n = g->N; if (n < 0) fail("order %d after reading", n); if (!n) { n = 4; if (gp_InitGraph(g, n) != OK) fail("after a refused reading gp_InitGraph fails"); } else gp_ReinitializeGraph(g); for (int v = 2; v <= n; v++) if (gp_AddEdge(g, v - 1, 0, v, 0) != OK) fail("after a refused reading gp_AddEdge fails"); if (n > 1 && gp_Embed(g, EMBEDFLAGS_PLANAR) != OK) fail("after a refused reading a path is not embedded"); }
        need(r == OK || r == NONEMBEDDABLE, "gp_Read"); return fmt("%s ", rname(r)) + rot(g); }); }
    // writing
    for (int mode : {(int)WRITE_ADJLIST, (int)WRITE_ADJMATRIX, (int)WRITE_G6}) for (int end = 0; end < 2; end++) for (int gi = 0; gi < 5; gi++) for (int dir = 0; dir < 2; dir++) add(fmt("write mode %d to %s, graph %d%s", mode, end ? "a string" : "a file", gi, dir ? ", directed" : ""), [=]() {
        Gp g; { Quiet q; G x = gi == 0 ? complete(4) : gi == 1 ? wheel(12) : gi == 2 ? G(5) : gi == 3 ? grid(6, 6) : complete(9); gp_EnsureArcCapacity(g, 2 * (int)x.e.size() + 2); gp_InitGraph(g, x.n); if (gi == 1) gp_AttachDrawPlanar(g); addAll(g, x); if (dir && g->M) gp_SetDirection(g, gp_GetFirstEdge(g), EDGEFLAG_DIRECTION_INONLY); if (gi == 1 && !dir) { gp_Embed(g, EMBEDFLAGS_DRAWPLANAR); } }
        std::string f = scratchFile(); if (end) { char *s = nullptr; int r = gp_WriteToString(g, &s, mode); std::string t; { Quiet q; t = s ? s : ""; free(s); } NEED(r); return t; } NEED(gp_Write(g, (char *)f.c_str(), mode)); Quiet q; return getFile(f); });
    // graph6 streams
    for (int end = 0; end < 3; end++) for (int n : {1, 3, 9, 63}) add(fmt("graph6 stream of order %d written to and read from kind %d", n, end), [=]() {
        std::string f = scratchFile(), out; { Gp g; NEED(gp_InitGraph(g, n)); G6WriteIterator *it = nullptr; struct Fr { G6WriteIterator *&i; ~Fr() { Quiet q; if (i) freeG6WriteIterator(&i); } } fr{it}; NEED(allocateG6WriteIterator(&it, g)); char *str = nullptr; struct Fs { char *&s; ~Fs() { Quiet q; free(s); } } fs{str};
            FILE *fp = end == 1 ? fopen(f.c_str(), "w") : nullptr; int b = end == 0 ? beginG6WriteIterationToG6FilePath(it, (char *)f.c_str()) : end == 1 ? beginG6WriteIterationToG6FilePointer(it, fp) : beginG6WriteIterationToG6String(it, &str);
            if (it->g6Output) str = nullptr; else if (fp) fclose(fp); NEED(b); // what was not handed over is still the caller's
            for (int k = 0; k < 3; k++) { gp_ReinitializeGraph(g); for (int v = 2 + k; v <= n; v++) NEED(gp_DynamicAddEdge(g, v - 1 - k, 0, v, 0)); NEED(writeGraphUsingG6WriteIterator(it)); }
            if (end == 2) { char *p = sf_takeTheStr(it->g6Output); Quiet q; out = p ? p : "(null)"; free(p); } NEED(endG6WriteIteration(it)); NEED(freeG6WriteIterator(&it)); if (end < 2) { Quiet q; out = getFile(f); } }
        { Quiet q; putFile(f, out); } std::string t = out;
        for (int pre = 0; pre < 2; pre++) { Gp g; if (pre) NEED(gp_InitGraph(g, n)); G6ReadIterator *it = nullptr; struct Fr { G6ReadIterator *&i; ~Fr() { Quiet q; if (i) freeG6ReadIterator(&i); } } fr{it}; NEED(allocateG6ReadIterator(&it, g)); char *s = nullptr; if (end == 2) { Quiet q; s = heap(out); }
            FILE *fp = end == 1 ? fopen(f.c_str(), "r") : nullptr; int b = end == 0 ? beginG6ReadIterationFromG6FilePath(it, (char *)f.c_str()) : end == 1 ? beginG6ReadIterationFromG6FilePointer(it, fp) : beginG6ReadIterationFromG6String(it, s);
            if (!it->g6Input) { Quiet q; free(s); if (fp) fclose(fp); } NEED(b);
            for (int k = 0; k < 9; k++) { NEED(readGraphUsingG6ReadIterator(it)); graphP p = nullptr; NEED(getPointerToGraphReadIn(it, &p)); if (!p) break; t += rot(p); } NEED(endG6ReadIteration(it)); NEED(freeG6ReadIterator(&it)); }
        return t; });
    // embedding, obstructions, drawing, from nothing
    for (size_t in = 0; in < histInputs().size(); in++) for (char a : std::string("pod234")) add(fmt("whole use of algorithm %c on graph %zu", a, in), [=]() {
        const G &x = histInputs()[in]; Gp g; NEED(gp_InitGraph(g, x.n)); if (algo(a).attach) NEED(algo(a).attach(g)); for (auto &e : x.e) NEED(gp_DynamicAddEdge(g, e.first + 1, 0, e.second + 1, 0)); Gp d(gp_DupGraph(g)); NEEDP(d.g); int r = gp_Embed(g, algo(a).flags); need(r == OK || r == NONEMBEDDABLE, "gp_Embed");
        std::string t = fmt("%s ", rname(r)); bool mid = (r == OK && strchr("234", a)) || (r != OK && a == 'd'); if (mid) return t; int q = gp_TestEmbedResultIntegrity(g, d, r); need(q == r || a == '2' || a == '3' || a == '4' || q != NOTOK, "integrity"); t += fmt("%d ", q); NEED(gp_SortVertices(g)); NEED(gp_SortVertices(d)); NEED(gp_SortVertices(d)); t += rot(g);
        if (a == 'd' && r == OK) { char *s = nullptr; int z = gp_DrawPlanar_RenderToString(g, &s); { Quiet q; t += s ? s : ""; free(s); } NEED(z); std::string f = scratchFile(); NEED(gp_DrawPlanar_RenderToFile(g, (char *)f.c_str())); Quiet q; t += getFile(f); }
        char *s = nullptr; int z = gp_WriteToString(g, &s, WRITE_ADJLIST); { Quiet q; t += s ? s : ""; free(s); } NEED(z); return t; });
    // random graphs: only reporting and freeing matter, but the stream is the same
    for (int n : {2, 5, 9}) for (int k = 0; k < 3; k++) add(fmt("random graph of order %d, kind %d", n, k), [=]() { Gp g; srand(7); NEED(gp_InitGraph(g, n)); if (k == 0) NEED(gp_CreateRandomGraph(g)); else NEED(gp_CreateRandomGraphEx(g, k == 1 ? n : 3 * n)); return rot(g); });
    // containers
    add("containers", []() { struct O { stackP a = 0, b = 0; listCollectionP l = 0, m = 0; strBufP s = 0; ~O() { Quiet q; sp_Free(&a); sp_Free(&b); LCFree(&l); LCFree(&m); sb_Free(&s); } } o; std::string t;
        NEEDP(o.a = sp_New(4)); sp_Push(o.a, 1); sp_Push(o.a, 2); NEEDP(o.b = sp_Duplicate(o.a)); t += fmt("%d", sp_GetCurrentSize(o.b)); sp_Free(&o.b); NEEDP(o.b = sp_New(1)); NEED(sp_Copy(o.b, o.a)); t += fmt("%d%d", sp_GetCurrentSize(o.b), sp_Top(o.b)); NEEDP(o.l = LCNew(5)); NEEDP(o.m = LCNew(5)); NEEDP(o.s = sb_New(3)); for (int k = 0; k < 9; k++) { if (sb_ConcatString(o.s, (char *)"abcde") != OK) { std::string z = sb_GetFullString(o.s); if (z.size() != 5u * k) fail("a refused concatenation changed the buffer"); need(0, "sb_ConcatString"); } } { Quiet q; t += sb_GetFullString(o.s); } char *x = sb_TakeString(o.s); { Quiet q; t += x ? x : "(null)"; free(x); } NEEDP(x); return t; });
    // copies of objects with everything
    for (int ex = 0; ex < 16; ex++) for (int k = 0; k < 3; k++) add(fmt("copy, features %x, kind %d", ex, k), [=]() {
        Gp g; NEED(gp_InitGraph(g, 6)); for (char c : std::string("d234")) if (ex & Obj::bit(c)) NEED(algo(c).attach(g)); for (int v = 2; v <= 6; v++) NEED(gp_AddEdge(g, 1, 0, v, 0)); Gp d(k == 0 ? gp_DupGraph(g) : gp_New()); NEEDP(d.g); if (k) { NEED(gp_InitGraph(d, 6)); if (k == 2) { NEED(gp_AttachK4Search(d)); NEED(gp_AttachK33Search(d)); NEED(gp_AttachDrawPlanar(d)); } NEED(gp_CopyGraph(d, g)); } std::string t = rot(d);
        for (char c : std::string("4d32")) if (ex & Obj::bit(c)) { NEED(algo(c).detach(g)); int r = gp_Embed(d, algo(c).flags); need(r == OK || r == NONEMBEDDABLE, "gp_Embed"); t += rname(r); NEED(algo(c).detach(d)); gp_ReinitializeGraph(d); for (int v = 2; v <= 6; v++) NEED(gp_AddEdge(d, 1, 0, v, 0)); } return t; });
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true; THOROUGH = th;
    static std::vector<Last> L = lasts(); static size_t NI = histInputs().size(), NP = preps().size(), NL = L.size(); scenarios();
    struct Cfg { int cap, ext; const char *n; }; static const Cfg cfg[] = {{0, 0, ""}, {4, 0, "-small"}, {0, 15, "-all-features-first"}}; 
#if PROP == 22
    vp::Check c("P22", "model_checking", "the library's memory requests during an operation or scenario are counted; every one of them is made to fail alone, every one together with all later ones (thorough: also every two), and the execution is compared with the one in which none fails; afterwards everything is freed, a refused operation is repeated, and blocks still allocated are looked for; a state is one history or scenario, a transition one execution");
    c.assumptions = {"memory is requested through malloc, calloc and realloc; the C library's own requests do not fail", "address and undefined-behaviour sanitizers watch every access"};
    for (auto &k : cfg) { Cfg q = k; c.add(std::string("histories-then-one-operation") + k.n, NI * NP * NL, [=](uint64_t i, Ctx &x) { const Last &l = L[i / NI / NP]; explore([&]() { return history(i % NI, q.cap, q.ext, preps()[i / NI % NP].ops, l); }, x, true); }, [=](uint64_t i) { return fmt("graph %d; %s; %s", (int)(i % NI), preps()[i / NI % NP].name.c_str(), lstr(L[i / NI / NP]).c_str()); }); }
    if (th) c.add("histories-then-two-operations", NI * NP * NL * NL, [=](uint64_t i, Ctx &x) { const Last &l = L[i / NI / NP % NL], &m = L[i / NI / NP / NL]; if (m.copy >= 0) return; auto P = preps()[i / NI % NP].ops; P.push_back(m.o); explore([&]() { return history(i % NI, 0, 0, P, l); }, x, true); }, [=](uint64_t i) { return fmt("graph %d; %s; %s; %s", (int)(i % NI), preps()[i / NI % NP].name.c_str(), lstr(L[i / NI / NP / NL]).c_str(), lstr(L[i / NI / NP % NL]).c_str()); });
    c.add("scenarios", SC.size(), [](uint64_t i, Ctx &x) { explore(SC[i].f, x, true); }, [](uint64_t i) { return SC[i].name; });
#else
    vp::Check c("P26", "model_checking", "the library's memory requests and releases are counted along every history of the families and every scenario; after the caller freed its objects no block and no open file may remain; a state is one history, a transition one execution");
    c.assumptions = {"memory is requested through malloc, calloc and realloc", "address and undefined-behaviour sanitizers watch every access"};
    for (auto &k : cfg) { Cfg q = k; c.add(std::string("histories-then-two-operations") + k.n, NI * NP * NL * NL, [=](uint64_t i, Ctx &x) { const Last &l = L[i / NI / NP % NL], &m = L[i / NI / NP / NL]; if (m.copy >= 0) return; auto P = preps()[i / NI % NP].ops; P.push_back(m.o); explore([&]() { return history(i % NI, q.cap, q.ext, P, l); }, x, false); }, [=](uint64_t i) { return fmt("graph %d; %s; %s; %s", (int)(i % NI), preps()[i / NI % NP].name.c_str(), lstr(L[i / NI / NP / NL]).c_str(), lstr(L[i / NI / NP % NL]).c_str()); }); if (!th) break; }
    for (auto &k : cfg) { Cfg q = k; c.add(std::string("histories-then-one-operation") + k.n, NI * NP * NL, [=](uint64_t i, Ctx &x) { const Last &l = L[i / NI / NP]; explore([&]() { return history(i % NI, q.cap, q.ext, preps()[i / NI % NP].ops, l); }, x, false); }, [=](uint64_t i) { return fmt("graph %d; %s; %s", (int)(i % NI), preps()[i / NI % NP].name.c_str(), lstr(L[i / NI / NP]).c_str()); }); }
    // every two scenarios one after the other show nothing new; every scenario once
    c.add("scenarios", SC.size(), [](uint64_t i, Ctx &x) { explore(SC[i].f, x, false); }, [](uint64_t i) { return SC[i].name; });
#endif
    c.budget = th ? 700 : 250; c.hangLimit = 60;
    return c.main(argc, argv);
}

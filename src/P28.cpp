// P28: the work done by the library grows linearly. The library is compiled so that every basic block it executes
// is counted (block operations of the C library count their bytes); the harness itself is not counted. Every graph
// structure of the families is built at two sizes, and the number of steps per vertex and edge is compared.
#include "families.hpp"
#include "known_p28.hpp"
static unsigned long long steps;
extern "C" {
void __sanitizer_cov_trace_pc() { steps++; }
void *__real_memset(void *, int, size_t); void *__wrap_memset(void *p, int c, size_t n) { steps += n / 16; return __real_memset(p, c, n); }
void *__real_memcpy(void *, const void *, size_t); void *__wrap_memcpy(void *p, const void *c, size_t n) { steps += n / 16; return __real_memcpy(p, c, n); }
void *__real_memmove(void *, const void *, size_t); void *__wrap_memmove(void *p, const void *c, size_t n) { steps += n / 16; return __real_memmove(p, c, n); }
void *__real_realloc(void *, size_t); void *__wrap_realloc(void *p, size_t n) { steps += n / 16; return __real_realloc(p, n); }
void *__real_calloc(size_t, size_t); void *__wrap_calloc(size_t k, size_t n) { steps += k * n / 16; return __real_calloc(k, n); }
size_t __real_strlen(const char *); size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); steps += n / 16; return n; }
char *__real_strcpy(char *, const char *); char *__wrap_strcpy(char *d, const char *s) { steps += __real_strlen(s) / 16; return __real_strcpy(d, s); }
char *__real_strcat(char *, const char *); char *__wrap_strcat(char *d, const char *s) { steps += (__real_strlen(s) + __real_strlen(d)) / 16; return __real_strcat(d, s); }
char *__real_strchr(const char *, int); char *__wrap_strchr(const char *s, int c) { char *r = __real_strchr(s, c); steps += (r ? r - s : __real_strlen(s)) / 16; return r; }
}
struct Cost { std::string op; double st; bool search, square; };
static std::vector<Cost> measure(const G &x, Ctx &c, bool quad) {
    std::vector<Cost> v; unsigned long long t = 0; int n = x.n, m = (int)x.e.size();
    auto T = [&](const char *s, char a = 0) { std::string nm = a ? fmt("%s (%c)", s, a) : s; v.push_back({nm, (double)(steps - t), !strncmp(s, "gp_Embed", 8), false}); c.eval(); };
    auto need = [&](int r, const char *w) { if (r != OK) fail("%s failed", w); };
    for (char a : std::string("pod234")) {
        const Algo &A = algo(a); Gp g; need(gp_EnsureArcCapacity(g, 2 * m + 4), "gp_EnsureArcCapacity");
        t = steps; need(gp_InitGraph(g, n), "gp_InitGraph"); T("gp_InitGraph");
        if (A.attach) { t = steps; need(A.attach(g), "attaching"); T("attaching", a); }
        t = steps; for (auto &e : x.e) need(gp_AddEdge(g, e.first + 1, 0, e.second + 1, 0), "gp_AddEdge"); T("gp_AddEdge");
        t = steps; Gp o(gp_DupGraph(g)); if (!o.g) fail("gp_DupGraph failed"); T("gp_DupGraph", a);
        t = steps; int r = gp_Embed(g, A.flags); T("gp_Embed", a); if (r != OK && r != NONEMBEDDABLE) fail("gp_Embed returned %s", rname(r));
        // the drawing's own test compares every vertex with every edge, by design
        if (!(a == 'd' && r == OK)) { t = steps; if (gp_TestEmbedResultIntegrity(g, o, r) != r) fail("gp_TestEmbedResultIntegrity rejects the result"); T("gp_TestEmbedResultIntegrity", a); }
        t = steps; need(gp_SortVertices(g), "gp_SortVertices"); T("gp_SortVertices", a);
        t = steps; need(gp_CopyGraph(o, g), "gp_CopyGraph"); T("gp_CopyGraph", a);
        if (a == 'p' || a == 'd') { char *s = nullptr; t = steps; need(gp_WriteToString(g, &s, WRITE_ADJLIST), "gp_WriteToString"); T("gp_WriteToString", a); if (a == 'd') free(s); else { Gp h; t = steps; need(gp_ReadFromString(h, s), "gp_ReadFromString"); T("gp_ReadFromString"); } }
        if (quad && a == 'p') for (int mode : {WRITE_ADJMATRIX, WRITE_G6}) {
            char *s = nullptr; t = steps; need(gp_WriteToString(g, &s, mode), "gp_WriteToString"); T(mode == WRITE_G6 ? "writing graph6" : "writing a matrix"); v.back().square = true;
            Gp h; t = steps; need(gp_ReadFromString(h, s), "gp_ReadFromString"); T(mode == WRITE_G6 ? "reading graph6" : "reading a matrix"); v.back().square = true;
        }
        t = steps; gp_ReinitializeGraph(g); T("gp_ReinitializeGraph", a);
        t = steps; gp_Free(&g.g); T("gp_Free", a); g.g = nullptr;
    }
    Gp g; need(gp_InitGraph(g, n), "gp_InitGraph");
    t = steps; for (auto &e : x.e) need(gp_DynamicAddEdge(g, e.first + 1, 1, e.second + 1, 1), "gp_DynamicAddEdge"); T("gp_DynamicAddEdge");
    t = steps; need(gp_CreateDFSTree(g), "gp_CreateDFSTree"); T("gp_CreateDFSTree");
    t = steps; need(gp_LowpointAndLeastAncestor(g), "gp_LowpointAndLeastAncestor"); T("gp_LowpointAndLeastAncestor");
    t = steps; for (int e = gp_GetFirstEdge(g); e < gp_EdgeInUseIndexBound(g); e += 2) gp_HideEdge(g, e); for (int e = gp_EdgeInUseIndexBound(g) - 2; e >= gp_GetFirstEdge(g); e -= 2) gp_RestoreEdge(g, e); T("gp_HideEdge, gp_RestoreEdge");
    t = steps; for (int w = 1; w <= n; w++) while (gp_IsArc(gp_GetFirstArc(g, w))) gp_DeleteEdge(g, gp_GetFirstArc(g, w), 0); T("gp_DeleteEdge");
    t = steps; for (auto &e : x.e) need(gp_AddEdge(g, e.first + 1, 1, e.second + 1, 0), "gp_AddEdge"); T("gp_AddEdge into holes");
    return v;
}
static void one(const std::string &nm, const G &a, const G &b, bool quad, bool knownK33, Ctx &c) {
    std::string known;
    auto A = measure(a, c, quad), B = measure(b, c, quad); if (A.size() > B.size()) A.resize(B.size());
    uint64_t h = 0;
    for (size_t i = 0, j = 0; i < B.size(); i++) {
        while (j < A.size() && A[j].op != B[i].op) j++; if (j >= A.size()) break; // an operation measured at one size only
        double ua = A[j].square ? (double)a.n * a.n : a.n + (double)a.e.size(), ub = B[i].square ? (double)b.n * b.n : b.n + (double)b.e.size();
        double ca = A[j].st / ua, cb = B[i].st / ub, lo = B[i].search ? 60 : B[i].square ? 5 : 20; j++;
        if (cb > 2 * std::max(ca, lo) + 20) {
            std::string m = fmt("%s: %s: %.0f steps per %s with %d vertices and %zu edges, but %.0f with %d vertices and %zu edges", nm.c_str(), B[i].op.c_str(), ca, B[i].square ? "matrix entry" : "vertex and edge", a.n, a.e.size(), cb, b.n, b.e.size());
            if (!(knownK33 && B[i].op == "gp_Embed (3)")) fail("%s", m.c_str());
            known = m;
        }
        h = mix(h, (uint64_t)(cb * 4));
    }
    if (!known.empty()) failk("k33-nested-k5-columns", "%s", known.c_str());
    c.outcome(h);
    if (c.sh->nsample.load() < 6) c.sample(fmt("%s: n=%d m=%zu and n=%d m=%zu", nm.c_str(), a.n, a.e.size(), b.n, b.e.size()));
}
static const int KNOWN_QUICK[] = {68, 72, 257};
static bool isKnown(const Strip &S, int numbering) { for (auto &k : KNOWN_P28) if (S.r == 5 && !S.hubs && k.A == S.A && k.B == S.B && k.wrap == S.wrap && k.numbering == numbering) return true; return false; }
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    vp::Check c("P28", "exploration", "every periodic graph with columns of up to 3 rows and up to 2 hub vertices, every column of 4 or 5 vertices with few connecting edges, and every two-terminal gadget substituted into itself is built at a small and a large size under several numberings; every library operation is run at both and the basic blocks it executes are counted; an outcome is a distinct vector of costs");
    c.assumptions = {"steps are basic blocks executed in the library, plus one per 16 bytes of block copies; allocation itself is not counted", "linear: at 8 to 30 times the size the cost per vertex and edge stays below 2 times the small one's (at least 60 for searches, 20 otherwise) plus 20", "the drawing's own integrity test is excluded: it compares every vertex with every edge by design"};
    int K1 = 24, K2 = th ? 1000 : 250;
    auto add = [&](const std::string &nm, uint64_t cnt, std::vector<int> sch, std::function<std::string(uint64_t, int, G &, G &)> get, bool quad = false, std::function<bool(uint64_t, int)> kn = nullptr) {
        auto S = std::make_shared<std::vector<int>>(sch);
        c.add(nm, cnt * sch.size(), [=](uint64_t i, Ctx &x) { G a(1), b(1); std::string s = get(i / S->size(), (*S)[i % S->size()], a, b); if (b.n < 4 * a.n) return; one(s, a, b, quad, kn && kn(i / S->size(), (*S)[i % S->size()]), x); },
              [=](uint64_t i) { G a(1), b(1); std::string s = get(i / S->size(), (*S)[i % S->size()], a, b); return s + "; small instance: " + a.str(); });
    };
    auto strips = [&](int r, int h, std::vector<int> sch, int k1, int k2, bool quad = false) {
        add(fmt("strips-%d-rows-%d-hubs%s", r, h, quad ? "-square-formats" : ""), stripCount(r, h), sch, [=](uint64_t i, int s, G &a, G &b) { Strip S = stripAt(r, h, i); a = scheme(strip(S, k1), s, r); b = scheme(strip(S, k2), s, r); return stripStr(S) + fmt(" numbering=%d", s); }, quad);
    };
    std::vector<int> all{0, 1, 2, 3, 4, 5, 6, 7};
    for (int h = 0; h <= 2; h++) strips(1, h, all, 2 * K1, 3 * K2);
    strips(2, 0, all, K1, 2 * K2); strips(2, 1, all, K1, K2); strips(1, 1, {0, 3}, 20, 150, true);
    strips(2, 2, th ? all : std::vector<int>{0, 3, 5}, K1, K2);
    // columns of 4 and 5 vertices
    for (int r = 4; r <= 5; r++) {
        auto col = std::make_shared<GL>(r == 4 ? geng(4) : th ? geng(5) : geng(5, "-q", "7:10")); auto nx = std::make_shared<std::vector<uint32_t>>();
        int lim = th || r == 4 ? 2 : 1; for (uint32_t m = 0; m < 1u << (r * r); m++) { if (__builtin_popcount(m) <= lim) nx->push_back(m); }
        auto at = [=](uint64_t i) { int w = (int)(i & 1); i >>= 1; const G &cg = (*col)[i / nx->size()]; Strip S{r, 0, 0, (int)(*nx)[i % nx->size()], 0, w, 0}; int bit = 0; for (int x = 0; x < r; x++) for (int y = x + 1; y < r; y++, bit++) if (cg.has(x, y)) S.A |= 1 << bit; return S; };
        add(fmt("columns-of-%d", r), col->size() * nx->size() * 2, th ? std::vector<int>{0, 1, 3, 6} : std::vector<int>{0, 3}, [=](uint64_t i, int s, G &a, G &b) {
            Strip S = at(i); a = scheme(strip(S, 12), s, r); b = scheme(strip(S, K2 / 2), s, r); return stripStr(S) + fmt(" numbering=%d", s); }, false, [=](uint64_t i, int s) { return isKnown(at(i), s); });
    }
    // columns of 4 vertices with a hub
    {
        auto col = std::make_shared<GL>(geng(4, th ? "-q" : "-cq")); auto nx = std::make_shared<std::vector<uint32_t>>(); for (uint32_t m = 1; m < 1u << 16; m++) if (__builtin_popcount(m) <= (th ? 2 : 1)) nx->push_back(m);
        int nw = th ? 2 : 1; add("columns-of-4-with-a-hub", col->size() * nx->size() * 15 * nw, th ? std::vector<int>{0, 1, 4, 5} : std::vector<int>{0, 1}, [=](uint64_t i, int s, G &a, G &b) {
            int w = (int)(i % nw); i /= nw; int H = 1 + (int)(i % 15); i /= 15; const G &cg = (*col)[i / nx->size()]; Strip S{4, 1, 0, (int)(*nx)[i % nx->size()], H, w, 0}; int bit = 0; for (int x = 0; x < 4; x++) for (int y = x + 1; y < 4; y++, bit++) if (cg.has(x, y)) S.A |= 1 << bit;
            a = scheme(strip(S, 12), s, 4); b = scheme(strip(S, 500), s, 4); return stripStr(S) + fmt(" numbering=%d", s); });
    }
    // columns with a hub, the last one also joined to a second hub above it
    for (int r = 2; r <= (th ? 4 : 3); r++) {
        auto col = std::make_shared<GL>(geng(r, "-cq")); auto nx = std::make_shared<std::vector<uint32_t>>(); for (uint32_t m = 1; m < 1u << (r * r); m++) if (__builtin_popcount(m) <= (th && r < 4 ? 2 : 1)) nx->push_back(m);
        int R = (1 << r) - 1; add(fmt("columns-of-%d-with-an-end", r), col->size() * nx->size() * R * R * 2, th && r < 4 ? std::vector<int>{0, 1, 3, 5} : std::vector<int>{1}, [=](uint64_t i, int s, G &a, G &b) {
            int w = (int)(i & 1), H = 1 + (int)((i >>= 1) % R), E = 1 + (int)((i /= R) % R); i /= R; const G &cg = (*col)[i / nx->size()]; Strip S{r, 1, 0, (int)(*nx)[i % nx->size()], H, 0, 0}; int bit = 0; for (int x = 0; x < r; x++) for (int y = x + 1; y < r; y++, bit++) if (cg.has(x, y)) S.A |= 1 << bit;
            auto mk = [&](int k) { G g = strip(S, k); int h = g.n++; for (int x = 0; x < r; x++) if (E >> x & 1) g.add((w ? 0 : k - 1) * r + x, h); g.add(h - 1, h); return scheme(g, s, r); };
            a = mk(12); b = mk(500); return stripStr(S) + fmt(" end=%x of the %s column numbering=%d", E, w ? "first" : "last", s); });
    }
    // the inputs of the known finding that every tier shows
    add("nested-K5-columns", 3, {1, 6}, [=](uint64_t i, int s, G &a, G &b) { Strip S{5, 0, 0x3ff, KNOWN_QUICK[i], 0, 0, 0}; a = scheme(strip(S, 12), s, 5); b = scheme(strip(S, 500), s, 5); return stripStr(S) + fmt(" numbering=%d", s); }, false, [](uint64_t i, int s) { return isKnown(Strip{5, 0, 0x3ff, KNOWN_QUICK[i], 0, 0, 0}, s); });
    for (int t = 1; t <= 3; t++) add(fmt("substitution-%d", t), 1ull << ((t + 1) * (t + 2) / 2), th || t < 3 ? all : std::vector<int>{0, 3}, [=](uint64_t i, int s, G &a, G &b) {
        int cap = th ? 6000 : 1500, d1 = 0, d2 = 0, n1 = 2, n2 = 2; for (int d = 1; d < 4 * cap; d++) { int n = substitute(t, (unsigned)i, d, cap).n; if (n == n2 || n > cap) break; n2 = n; d2 = d; if (n1 < 12) { n1 = n; d1 = d; } }
        a = scheme(substitute(t, (unsigned)i, d1, cap), s, 1); b = scheme(substitute(t, (unsigned)i, d2, cap), s, 1); return fmt("substitution of gadget %x with %d inner vertices, numbering=%d", (unsigned)i, t, s); });
    strips(3, 0, th ? all : std::vector<int>{0, 3}, 16, th ? 400 : 128);
    if (th) strips(3, 1, {0, 1, 3, 6}, 12, 100);
    c.budget = th ? 700 : 250; c.hangLimit = 60; c.blockMax = 16;
    return c.main(argc, argv);
}

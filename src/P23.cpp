// P23: the random generators under every answer of the random source. rand() is replaced by a tape;
// when the tape is used up, a fair source answers, so that requests that can be met must end.
#include "families.hpp"
static std::vector<int> tape; static size_t at = 0; static uint64_t tail = 0; static long extra = 0; static bool limit = false;
extern "C" int __wrap_rand(void) {
    if (at < tape.size()) return tape[at++]; at++; if (++extra > 300000) { limit = true; fail("the generator does not end"); }
    tail += 0x9E3779B97F4A7C15ull; uint64_t z = tail; z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ull; z = (z ^ z >> 27) * 0x94D049BB133111EBull; return (int)((z ^ z >> 31) & 0x7fffffff);
}
extern "C" void __wrap_srand(unsigned) {}
enum { FRESH, USED, FEATURES, LARGE, NOBJ };
static const char *objName[] = {"fresh", "used before and reinitialized", "with features", "with larger capacity"};
static void fill(Gp &g, int n, int ob, int cap) {
    if (cap) { if (gp_EnsureArcCapacity(g, cap) != OK) fail("gp_EnsureArcCapacity failed"); } else if (ob == LARGE && gp_EnsureArcCapacity(g, 2 * n * n + 20) != OK) fail("gp_EnsureArcCapacity failed");
    if (ob == FEATURES && (gp_AttachDrawPlanar(g) != OK || gp_AttachK33Search(g) != OK)) fail("attaching failed");
    if (gp_InitGraph(g, n) != OK) fail("gp_InitGraph failed");
    if (ob == USED) { for (int v = 2; v <= n; v++) for (int u = 1; u < v; u++) if (gp_AddEdge(g, u, 0, v, 0) == NOTOK) fail("gp_AddEdge failed"); if (g->M) gp_Embed(g, EMBEDFLAGS_PLANAR); gp_ReinitializeGraph(g); }
}
static std::string tapeStr() { std::string s; for (size_t i = 0; i < std::min(tape.size(), at); i++) s += fmt(" %d", tape[i]); return s; }
static std::vector<uint64_t> &maximalMasks(int n) { // labelled maximal planar graphs
    static std::map<int, std::vector<uint64_t>> T; auto &t = T[n]; if (!t.empty()) return t;
    int m = std::max(n * (n - 1) / 2, 0), k = n < 3 ? n - 1 : 3 * n - 6; std::vector<std::vector<int>> id(n, std::vector<int>(n, 0)); int b = 0; for (int j = 1; j < n; j++) for (int i = 0; i < j; i++, b++) id[i][j] = id[j][i] = b;
    auto s = gengStore(n); for (size_t i = 0; i < s.m.size(); i++) { G g = s.get(i); if ((int)g.e.size() != k || !orc::planar(g)) continue; std::vector<int> p(n); for (int v = 0; v < n; v++) p[v] = v; do { uint64_t x = 0; for (auto &e : g.e) x |= 1ull << id[p[e.first]][p[e.second]]; t.push_back(x); } while (std::next_permutation(p.begin(), p.end())); }
    std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end()); (void)m; return t;
}
static G got(graphP g, const std::string &w) {
    Rot r = extract(g); G x(r.n); std::set<std::pair<int, int>> s; for (int v = 1; v <= r.n; v++) for (size_t i = 0; i < r.nb[v].size(); i++) { int y = r.nb[v][i]; if (y > r.n || y == v) fail("%s: vertex %d is joined to %d", w.c_str(), v, y); if (gp_GetDirection(g, r.arc[v][i])) fail("%s: an edge has a direction", w.c_str()); if (!s.insert({v, y}).second) fail("%s: edge %d-%d exists twice", w.c_str(), v, y); if (v < y) x.add(v - 1, y - 1); }
    if ((int)x.e.size() != g->M) fail("%s: %zu edges are found, M=%d", w.c_str(), x.e.size(), g->M); return x;
}
static bool connected(const G &x) { orc::BG b = orc::bg(x); return orc::reach(b, 0, x.n == 64 ? ~0ull : (1ull << x.n) - 1) == (x.n == 64 ? ~0ull : (1ull << x.n) - 1); }
static bool containsMaximal(const G &x) { uint64_t m = 0; int b = 0; for (int j = 1; j < x.n; j++) for (int i = 0; i < j; i++, b++) if (x.has(i, j)) m |= 1ull << b; for (uint64_t t : maximalMasks(x.n)) if ((t & ~m) == 0) return true; return false; }
// afterwards the graph is one like any other
static void usable(graphP g, const G &x, const std::string &w) {
    if (!g->M) return; bool holes = sp_NonEmpty(g->edgeHoles); if (holes) fail("%s: edge holes in a generated graph", w.c_str());
    int r = gp_Embed(g, EMBEDFLAGS_PLANAR); if (r != OK && r != NONEMBEDDABLE) fail("%s: embedding the generated graph %s returned %s", w.c_str(), x.str().c_str(), rname(r)); if ((r == OK) != orc::planar(x)) fail("%s: embedding the generated graph %s returned %s", w.c_str(), x.str().c_str(), rname(r));
    if (r == OK) checkPlanarEmbedding(g, x, false, false); else { Kind k = resultKind(g, x, false); if (k != KIND_K33 && k != KIND_K5) fail("%s: no Kuratowski subgraph of the generated graph %s", w.c_str(), x.str().c_str()); }
}
static void gen(int n, int E, int ob, int cap, Ctx &c) { // E < 0: gp_CreateRandomGraph
    Gp g; fill(g, n, ob, cap); int room = gp_GetArcCapacity(g) / 2, all = n * (n - 1) / 2; at = 0; tail = 7; extra = 0; int r = E < 0 ? gp_CreateRandomGraph(g) : gp_CreateRandomGraphEx(g, E); c.eval(); c.trans += at; c.states++;
    std::string w = (E < 0 ? fmt("gp_CreateRandomGraph, order %d", n) : fmt("gp_CreateRandomGraphEx, order %d, %d edges", n, E)) + fmt(", object %s, room for %d edges, random numbers", objName[ob], room) + tapeStr();
    bool can = room >= n - 1; if (r != OK) { if (can) fail("%s: returned %s", w.c_str(), rname(r)); if (r != NOTOK && r != NONEMBEDDABLE) fail("%s: returned %d", w.c_str(), r); return; } if (!can) fail("%s: success without room for a connected graph", w.c_str());
    G x = got(g, w); if (!connected(x)) fail("%s: the generated graph is not connected: %s", w.c_str(), x.str().c_str());
    if (E < 0) { if (g->M < n - 1 || g->M > std::min(room, all)) fail("%s: %d edges", w.c_str(), g->M); }
    else {
        int want = std::max(n - 1, std::min(E, std::min(room, all))); if (E >= n - 1 && g->M != want) fail("%s: the graph has %d edges instead of %d: %s", w.c_str(), g->M, want, x.str().c_str());
        int mp = n < 3 ? n - 1 : 3 * n - 6; if (E <= mp && !orc::planar(x)) fail("%s: the graph is not planar: %s", w.c_str(), x.str().c_str()); if (want >= mp && n <= 7 && !containsMaximal(x)) fail("%s: the graph contains no maximal planar graph: %s", w.c_str(), x.str().c_str());
    }
    uint64_t h = E + 100; for (auto &e : x.e) h = vp::mix(h, e.first * 64 + e.second); c.outcome(h);
    usable(g, x, w);
    if (c.sh->nsample.load() < 6) c.sample(w + " -> " + x.str());
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    vp::Check c("P23", "model_checking", "the random source is replaced by a tape; every tape over the residues a generator can distinguish is played for the tree and for a number of further edges, and over extreme values of the source; a state is one finished generation, a transition one answer of the source; an outcome is a distinct generated graph");
    c.assumptions = {"after the enumerated answers a fair source answers; the number of repeated attempts is then finite", "address and undefined-behaviour sanitizers watch every access", "independent oracles for planarity and maximal planar graphs"};
    auto fact = [](int n) { uint64_t f = 1; for (int i = 2; i <= n; i++) f *= i; return f; };
    auto treeTape = [](uint64_t &i, int n) { for (int v = 2; v <= n; v++) { tape.push_back(i % (v - 1)); i /= v - 1; } };
    // every tree of the generator, every number of edges up to a maximal planar graph (and below, and one above)
    for (int n = 1; n <= (th ? 10 : 8); n++) { int hi = (n < 3 ? n : 3 * n - 6) + 2; uint64_t T = fact(n - 1); c.add(fmt("planar-order%d", n), T * hi * (n < 8 ? NOBJ : 1), [=](uint64_t i, Ctx &x) { tape.clear(); int E = i % hi; i /= hi; treeTape(i, n); gen(n, E, (int)i % NOBJ, 0, x); }, [=](uint64_t i) { return fmt("%d edges, tree number %d", (int)(i % hi), (int)(i / hi)); }); }
    // further edges: pairs of answers
    for (int n = 3; n <= (th ? 7 : 6); n++) for (int k = 1; k <= 3; k++) {
        uint64_t T = fact(n - 1), P = 1; for (int j = 0; j < k; j++) P *= n * n; int mp = 3 * n - 6; if (T * P > (th ? 40000000ull : 200000ull)) continue;
        c.add(fmt("further-edges-order%d-draws%d", n, k), T * P * 4, [=](uint64_t i, Ctx &x) { tape.clear(); int E = mp + 1 + i % 4; i /= 4; treeTape(i, n); for (int j = 0; j < k; j++) { tape.push_back(i % n); i /= n; tape.push_back(i % n); i /= n; } gen(n, E, LARGE, 0, x); }, [=](uint64_t i) { return fmt("%d edges, case %d", mp + 1 + (int)(i % 4), (int)(i / 4)); });
    }
    // the generator without a requested size: tree, number of edges, further edges
    for (int n = 1; n <= (th ? 6 : 5); n++) for (int cap : {0, 1, 2, 3}) {
        int room = cap == 0 ? 3 * n : cap == 1 ? std::max(1, n - 1) : cap == 2 ? n : n * (n - 1) / 2 + 4; int sizes = std::max(1, room - 7 * n / 8 + 1), k = n < 5 ? 3 : 2; uint64_t T = fact(n - 1), P = 1; int q = std::max(1, n - 1); for (int j = 0; j < k; j++) P *= q * q;
        c.add(fmt("any-size-order%d-capacity%d", n, room), T * sizes * P, [=](uint64_t i, Ctx &x) { tape.clear(); treeTape(i, n); tape.push_back(i % sizes); i /= sizes; for (int j = 0; j < k; j++) { tape.push_back(i % q); i /= q; tape.push_back(i % q); i /= q; } gen(n, -1, cap & 1 ? USED : FRESH, cap ? 2 * room : 0, x); }, [=](uint64_t i) { return fmt("case %d", (int)i); });
    }
    // requests at and beyond what the object or a simple graph can hold
    for (int n = 1; n <= 8; n++) { int R = n * n + 3; c.add(fmt("requests-order%d", n), (uint64_t)(R + 3) * (R + 3) * 24, [=](uint64_t i, Ctx &x) { tape.clear(); int E = i % (R + 3); i /= R + 3; int room = 1 + i % (R + 3); i /= R + 3; int s = i; uint64_t t = s * 7919ull; treeTape(t, n); if (E == R + 1) E = 1000000000; if (E == R + 2) E = 3 * n; gen(n, E, s % NOBJ == LARGE ? FRESH : s % NOBJ, 2 * room, x); }, [=](uint64_t i) { return fmt("%d edges, room for %d", (int)(i % (R + 3)), (int)(1 + i / (R + 3) % (R + 3))); }); }
    // extreme answers of the source
    static const int X[] = {0, 1, 0x7fffffff, 0x7fffff00, 0x7fff0000, 0x40000000, 0x7ffffffe, 0x00ff00ff, 0x7f00ffff, 0x08000000}; const int NX = 10;
    for (int n = 2; n <= (th ? 6 : 4); n++) { int len = n + 1; uint64_t P = 1; for (int j = 0; j < len; j++) P *= NX; c.add(fmt("extreme-answers-order%d", n), P * 3, [=](uint64_t i, Ctx &x) { tape.clear(); int k = i % 3; i /= 3; for (int j = 0; j < len; j++, i /= NX) tape.push_back(X[i % NX]); gen(n, k == 0 ? -1 : k == 1 ? 3 * n - 6 : 3 * n - 5, FRESH, 0, x); }, [=](uint64_t i) { return fmt("case %d", (int)i); }); }
    // larger orders, trees of regular shape
    { static std::vector<std::array<int, 3>> L; for (int n : {12, 20, 33, 64}) for (int s = 0; s < 40; s++) for (int E = n - 1; E <= 3 * n - 4; E += 1 + (n > 20) * 3) L.push_back({n, s, E}); c.add("larger-orders", L.size(), [](uint64_t i, Ctx &x) { auto &q = L[i]; tape.clear(); for (int v = 2; v <= q[0]; v++) { int s = q[1], m = v - 1; tape.push_back(s == 0 ? 0 : s == 1 ? m - 1 : s == 2 ? m / 2 : s == 3 ? (v & 1 ? 0 : m - 1) : s == 4 ? std::max(0, m - 2) : s == 5 ? v / 3 % m : (int)((uint64_t)v * v * s / 3 % m)); } gen(q[0], q[2], FRESH, 0, x); }, [](uint64_t i) { auto &q = L[i]; return fmt("order %d, tree shape %d, %d edges", q[0], q[1], q[2]); }); }
    // an order whose number of vertex pairs is no int
    c.add("order-50000", 4, [](uint64_t i, Ctx &x) { tape.clear(); int n = 50000; for (int v = 2; v <= n; v++) tape.push_back(i & 1 ? v - 2 : 0); tape.push_back(i & 2 ? 60000 : 100000); Gp g; if (gp_InitGraph(g, n) != OK) fail("gp_InitGraph failed"); at = 0; extra = -10000000; tail = i; if (gp_CreateRandomGraph(g) != OK) fail("order 50000: not OK"); int want = 7 * n / 8 + tape.back() % (3 * n - 7 * n / 8 + 1); if (g->M < n - 1 || g->M > 3 * n) fail("order 50000: %d edges", g->M); if (g->M == n - 1 && want > n - 1) fail("order 50000: no edges are added to the tree though %d are asked for", want); x.eval(); }, [](uint64_t i) { return fmt("tree shape %d", (int)i); });
    c.budget = th ? 700 : 250; c.hangLimit = 60;
    return c.main(argc, argv);
}

// Enumerated input families shared by the graph-algorithm checks.
#pragma once
#include "lib.hpp"
#include "strips.hpp"

typedef std::vector<G> GL;
inline G complete(int n) { G g(n); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) g.add(i, j); return g; }
inline G bip(int a, int b) { G g(a + b); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) g.add(i, a + j); return g; }
inline G cyc(int n) { G g(n); for (int i = 0; i < n; i++) g.addu(i, (i + 1) % n); return g; }
inline G path(int n) { G g(n); for (int i = 0; i + 1 < n; i++) g.add(i, i + 1); return g; }
inline G wheel(int n) { G g(n); for (int i = 1; i < n; i++) { g.addu(0, i); g.addu(i, i == n - 1 ? 1 : i + 1); } return g; }
inline G grid(int a, int b) { G g(a * b); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { if (i + 1 < a) g.add(i * b + j, i * b + b + j); if (j + 1 < b) g.add(i * b + j, i * b + j + 1); } return g; }
inline G circ(int n, std::vector<int> s) { G g(n); for (int d : s) for (int i = 0; i < n; i++) g.addu(i, (i + d) % n); return g; }
inline G prism(int k) { G g(2 * k); for (int i = 0; i < k; i++) { g.addu(i, (i + 1) % k); g.addu(k + i, k + (i + 1) % k); g.addu(i, k + i); } return g; }
inline G antiprism(int k) { G g = prism(k); for (int i = 0; i < k; i++) g.addu(i, k + (i + 1) % k); return g; }
inline G moebius(int k) { G g = cyc(2 * k); for (int i = 0; i < k; i++) g.addu(i, i + k); return g; }
inline G petersen() { G g(10); for (int i = 0; i < 5; i++) { g.addu(i, (i + 1) % 5); g.addu(5 + i, 5 + (i + 2) % 5); g.addu(i, 5 + i); } return g; }
inline G minusEdge(const G &g, size_t k) { G r(g.n); for (size_t i = 0; i < g.e.size(); i++) if (i != k) r.e.push_back(g.e[i]); return r; }
inline G plusEdge(const G &g, int u, int v) { G r = g; r.addu(u, v); return r; }
inline G subdiv(const G &g, const std::vector<int> &cnt) { G r(g.n); for (size_t i = 0; i < g.e.size(); i++) { int u = g.e[i].first; for (int k = 0; k < cnt[i]; k++) { int w = r.n++; r.add(u, w); u = w; } r.add(u, g.e[i].second); } return r; }
inline G disjoint(const G &a, const G &b) { G r(a.n + b.n); r.e = a.e; for (auto &x : b.e) r.e.push_back({x.first + a.n, x.second + a.n}); return r; }
// identify vertex u of a with vertex w of b
inline G glueV(const G &a, int u, const G &b, int w) { G r(a.n + b.n - 1); r.e = a.e; auto id = [&](int x) { return x == w ? u : a.n + (x > w ? x - 1 : x); }; for (auto &x : b.e) r.addu(id(x.first), id(x.second)); return r; }
// identify two vertices; keep: 0 drop the shared edge, 1 keep it
inline G glueE(const G &a, int u0, int u1, const G &b, int w0, int w1, bool keep) {
    G r(a.n + b.n - 2); for (auto &x : a.e) if (keep || !((x.first == u0 && x.second == u1) || (x.first == u1 && x.second == u0))) r.e.push_back(x);
    std::vector<int> id(b.n); int k = a.n; for (int i = 0; i < b.n; i++) id[i] = i == w0 ? u0 : i == w1 ? u1 : k++;
    for (auto &x : b.e) { bool sh = (x.first == w0 && x.second == w1) || (x.first == w1 && x.second == w0); if (sh && !keep) continue; r.addu(id[x.first], id[x.second]); }
    return r;
}
inline G shift(const G &g, int s) { G r(g.n); for (auto &x : g.e) r.add((x.first + s) % g.n, (x.second + s) % g.n); return r; }

inline GL geng(int n, const char *opt = "-q", const char *range = "") {
    GL l; std::string cmd = fmt("nauty-geng %s %d %s 2>/dev/null", opt, n, range); FILE *p = popen(cmd.c_str(), "r"); char b[4096];
    while (p && fgets(b, sizeof b, p)) if (b[0] > 62) l.push_back(fromG6(b));
    if (p) pclose(p);
    if (l.empty()) { fprintf(stderr, "nauty-geng gave no graphs of order %d\n", n); exit(2); }
    return l;
}
struct GengStore { // compact: adjacency mask (n<=11)
    int n; std::vector<uint64_t> m;
    G get(uint64_t i) const { return fromMask(n, m[i]); }
};
inline GengStore gengStore(int n, const char *opt = "-q", const char *range = "") {
    GengStore s; s.n = n; std::string cmd = fmt("nauty-geng %s %d %s 2>/dev/null", opt, n, range); FILE *p = popen(cmd.c_str(), "r"); char b[64];
    while (p && fgets(b, sizeof b, p)) { if (b[0] <= 62) continue; int k = 0, B = n * (n - 1) / 2; uint64_t m = 0; for (int i = 0; i < B; i++, k++) if ((b[1 + k / 6] - 63) >> (5 - k % 6) & 1) m |= 1ull << i; s.m.push_back(m); }
    if (p) pclose(p);
    if (s.m.empty()) { fprintf(stderr, "nauty-geng gave no graphs of order %d\n", n); exit(2); }
    return s;
}

// ---- presentations
inline std::vector<Pres> presAll(int n, int ords, int links = 1) { // affine labelings x orders x links
    std::vector<Pres> v; for (int a = 1; a < std::max(2, n); a++) if (gcd_(a, n) == 1) for (int b = 0; b < n; b++) for (int o = 0; o < ords; o++) for (int l = 0; l < links; l++) v.push_back({a, b, o, l}); return v;
}
inline std::vector<Pres> presRot(int n, int ords, int links = 1) { // rotations and reflections
    std::vector<Pres> v; for (int a : {1, n - 1}) { if (a == n - 1 && n <= 2) continue; for (int b = 0; b < n; b++) for (int o = 0; o < ords; o++) for (int l = 0; l < links; l++) v.push_back({a, b, o, l}); } return v;
}
inline std::vector<Pres> presFew(int n) { // for large graphs
    std::vector<Pres> v; std::set<int> as{1}; if (n > 2) as.insert(n - 1); for (int a : {2, 3, 5, 7}) if (a < n && gcd_(a, n) == 1) as.insert(a);
    for (int a : as) for (int b : std::set<int>{0, n / 3, n / 2}) for (int o : {0, 1, 3}) v.push_back({a, b, o, (a + o) % 3}); return v;
}
// ---- structured graph lists, n >= 11 mostly
inline void distribute(int m, int budget, int maxEach, std::vector<int> &cur, size_t at, const std::function<void(const std::vector<int> &)> &f) {
    if (at == cur.size()) { f(cur); return; }
    for (int k = 0; k <= std::min(budget, maxEach); k++) { cur[at] = k; distribute(m, budget - k, maxEach, cur, at + 1, f); }
    cur[at] = 0;
}
inline GL subdivisions(const G &g, int budget, int maxEach) { GL l; std::vector<int> c(g.e.size(), 0); distribute((int)g.e.size(), budget, maxEach, c, 0, [&](const std::vector<int> &x) { l.push_back(subdiv(g, x)); }); return l; }
inline void append(GL &a, const GL &b) { a.insert(a.end(), b.begin(), b.end()); }

// every Apollonian network (stacked triangulation) on n vertices reached by always
// stacking into one of the faces created last (two newest generations); full list capped by construction
inline void stacked(int n, GL &out, size_t branch) {
    struct T { int a, b, c; };
    std::function<void(G, std::vector<T>)> rec = [&](G g, std::vector<T> fs) {
        if (g.n == n) { out.push_back(g); return; }
        size_t k = fs.size();
        std::set<size_t> pick; for (size_t i = 0; i < branch && i < k; i++) pick.insert(i * k / branch);
        pick.insert(k - 1);
        for (size_t i : pick) { G h = g; int v = h.n++; T t = fs[i]; h.add(t.a, v); h.add(t.b, v); h.add(t.c, v); auto f2 = fs; f2.erase(f2.begin() + i); f2.push_back({t.a, t.b, v}); f2.push_back({t.b, t.c, v}); f2.push_back({t.a, t.c, v}); rec(h, f2); }
    };
    G t = complete(3); rec(t, {{0, 1, 2}, {0, 1, 2}});
}
inline GL bigGraphs(bool thorough) {
    GL l;
    for (int n : {1, 2, 3, 17, 64, 200, 1001}) { l.push_back(G(n)); if (n > 1) l.push_back(path(n)); if (n > 2) l.push_back(cyc(n)); if (n > 3) l.push_back(wheel(n)); l.push_back(bip(1, n)); l.push_back(bip(2, n)); if (n < 300) l.push_back(bip(3, n)); }
    for (int n : {11, 15, 20, 33}) l.push_back(complete(n));
    for (int n : {4, 7, 12}) l.push_back(bip(n, n));
    for (int k : {6, 7, 11, 30, 101}) { l.push_back(prism(k)); l.push_back(antiprism(k)); l.push_back(moebius(k)); l.push_back(circ(2 * k, {1, 2})); l.push_back(circ(2 * k + 1, {1, 2})); l.push_back(circ(2 * k, {1, 3})); }
    for (auto ab : std::vector<std::pair<int, int>>{{2, 40}, {3, 5}, {4, 4}, {5, 9}, {10, 10}, {20, 30}}) { G g = grid(ab.first, ab.second); l.push_back(g); G h = g; h.addu(0, g.n - 1); l.push_back(h); h.addu(ab.second - 1, g.n - ab.second); l.push_back(h); G t = g; for (int i = 0; i < ab.first; i++) t.addu(i * ab.second, i * ab.second + ab.second - 1); l.push_back(t); for (int j = 0; j < ab.second; j++) t.addu(j, (ab.first - 1) * ab.second + j); l.push_back(t); }
    // chains of blocks: K5s / K33s / K4s glued at vertices and at edges
    for (int k : {2, 5, 20}) for (int s : {4, 5}) { G c = complete(s), a = c, b = c, d = c; for (int i = 1; i < k; i++) { a = glueV(a, a.n - 1, c, 0); b = glueE(b, b.n - 2, b.n - 1, c, 0, 1, true); d = disjoint(d, c); } l.push_back(a); l.push_back(b); l.push_back(d); }
    // outerplanar fans, triangulated polygons (zigzag), trees
    for (int n : {12, 30, 150}) { G f = path(n); int h = f.n++; for (int i = 0; i < n; i++) f.add(i, h); l.push_back(f); G z = cyc(n); for (int i = 1, j = n - 1, t = 0; i < j - 1; t++) { z.addu(i, j); if (t & 1) i++; else j--; } l.push_back(z); G t(n); for (int i = 1; i < n; i++) t.add((i - 1) / 2, i); l.push_back(t); t.addu(n - 1, n / 2); l.push_back(t); }
    if (thorough) { l.push_back(grid(60, 70)); l.push_back(complete(60)); l.push_back(bip(3, 2000)); l.push_back(wheel(5000)); l.push_back(path(20000)); }
    return l;
}
// the pool of small graphs used as building blocks of compositions
inline GL blocksPool() { GL l{cyc(3), cyc(4), complete(4), bip(2, 3), complete(5), bip(3, 3), wheel(5), wheel(6), prism(3), minusEdge(complete(5), 0), minusEdge(bip(3, 3), 0)}; G k33e = bip(3, 3); k33e.addu(0, 1); l.push_back(k33e); G ke = bip(2, 3); ke.addu(0, 1); l.push_back(ke); l.push_back(moebius(4)); l.push_back(minusEdge(complete(6), 0)); return l; }

// A family of graphs with presentations: index -> presented graph.
struct Fam {
    std::string name; uint64_t count;
    std::function<G(uint64_t, int &link)> get;
};
inline Fam famMask(int n, int extraOrd = 0) { int B = n * (n - 1) / 2; Pres p; p.ord = extraOrd; return {fmt("labelled-n%d%s", n, extraOrd ? fmt("-order%d", extraOrd).c_str() : ""), 1ull << B, [n, p](uint64_t i, int &link) { link = p.ord ? 1 : 0; G g = fromMask(n, i); return p.ord ? present(g, p) : g; }}; }
inline Fam famList(const std::string &name, std::shared_ptr<GL> l, std::function<std::vector<Pres>(int)> pr) {
    auto off = std::make_shared<std::vector<uint64_t>>(); auto cache = std::make_shared<std::map<int, std::vector<Pres>>>(); uint64_t t = 0;
    for (auto &g : *l) { off->push_back(t); auto &c = (*cache)[g.n]; if (c.empty()) c = pr(g.n); if (c.empty()) c.push_back(Pres()); t += c.size(); }
    return {name, t, [l, off, cache](uint64_t i, int &link) { size_t k = std::upper_bound(off->begin(), off->end(), i) - off->begin() - 1; const G &g = (*l)[k]; const Pres &p = (*cache)[g.n][i - (*off)[k]]; link = p.link; return present(g, p); }};
}
inline Fam famGeng(const std::string &name, std::shared_ptr<GengStore> s, std::vector<Pres> pr) {
    auto P = std::make_shared<std::vector<Pres>>(pr);
    return {name, s->m.size() * pr.size(), [s, P](uint64_t i, int &link) { const Pres &p = (*P)[i % P->size()]; link = p.link; return present(s->get(i / P->size()), p); }};
}
// all adjacency-list orders obtainable by inserting the edges of one graph in every order, each at either end
inline Fam famPerm(const std::string &name, const G &g) {
    int m = (int)g.e.size(); uint64_t f = 1; for (int i = 2; i <= m; i++) f *= i;
    return {name, f, [g, m](uint64_t i, int &link) { link = 0; G r(g.n); std::vector<int> id(m); std::iota(id.begin(), id.end(), 0); for (int k = m; k >= 1; k--) { int j = (int)(i % k); i /= k; r.e.push_back(g.e[id[j]]); id.erase(id.begin() + j); } return r; }};
}

struct FamOpt { bool thorough; int maskN = 6; bool nonplanarHeavy = true; int gengN = 8; std::vector<Pres> (*dummy)(int) = nullptr; };

// every edge (or every second one) replaced by a small gadget, or pendant gadgets at vertices
inline G transformG(const G &g, int t) {
    G r(g.n);
    auto half = [&](int i) { return (t & 1) ? (i & 1) : true; };
    if (t < 2) { for (size_t i = 0; i < g.e.size(); i++) { auto e = g.e[i]; if (half((int)i)) { int w = r.n++; r.add(e.first, w); r.add(w, e.second); } else r.add(e.first, e.second); } }
    else if (t < 4) { for (size_t i = 0; i < g.e.size(); i++) { auto e = g.e[i]; r.add(e.first, e.second); if (half((int)i)) { int w = r.n++; r.add(e.first, w); r.add(w, e.second); } } }
    else if (t < 6) { for (size_t i = 0; i < g.e.size(); i++) { auto e = g.e[i]; if (half((int)i)) { int w = r.n++, z = r.n++; r.add(e.first, w); r.add(w, e.second); r.add(e.first, z); r.add(z, e.second); r.add(w, z); } else r.add(e.first, e.second); } }
    else { r.e = g.e; for (int v = 0; v < g.n; v++) if (half(v)) { int w = r.n++, z = r.n++; r.add(v, w); r.add(w, z); r.add(v, z); if (t == 7) { int y = r.n++; r.add(y, w); r.add(y, z); r.add(y, v); } } }
    return r;
}
inline Fam famTransform(const std::string &name, std::shared_ptr<GengStore> s, std::vector<int> ts, int labs) {
    return {name, s->m.size() * ts.size() * labs, [s, ts, labs](uint64_t i, int &link) {
        int l = (int)(i % labs); i /= labs; int t = ts[i % ts.size()]; G g = transformG(s->get(i / ts.size()), t);
        // label schemes: identity, reversal, and affine scrambles with different strides
        Pres p; int n = g.n; if (l == 1) p.a = n - 1, p.b = n - 1; else if (l >= 2) { int a = l + (l & 1 ? 0 : n / 2); while (gcd_(std::max(1, a % n), n) != 1 || a % n == 0) a++; p.a = a % n; p.b = (l * 5) % n; } p.ord = l % 4; link = l % 3; if (n < 2) p.a = 1, p.b = 0;
        return present(g, p); }};
}
// lvl 0: light, 1: standard, 2: deep
inline std::vector<Fam> graphFamilies(int lvl, int cost /*1 cheap .. 3 expensive*/) {
    const bool thorough = lvl >= 1; std::vector<Fam> F;
    for (int n = 1; n <= 6; n++) F.push_back(famMask(n));
    F.push_back(famMask(5, 3)); F.push_back(famMask(6, 1)); F.push_back(famMask(6, 3));
    F.push_back(famPerm("insertion-orders-K4+e", plusEdge(disjoint(complete(4), G(1)), 0, 4)));
    F.push_back(famPerm("insertion-orders-K33", bip(3, 3)));
    F.push_back(famPerm("insertion-orders-K23+2", [] { G g = bip(2, 3); g.addu(0, 1); g.addu(2, 3); return g; }()));
    if (lvl >= 2) F.push_back(famPerm("insertion-orders-K5", complete(5)));
    auto big = std::make_shared<GL>(bigGraphs(thorough));
    F.push_back(famList("large", big, presFew));
    // subdivisions of the obstructions and their one-edge extensions
    {
        auto l = std::make_shared<GL>();
        append(*l, subdivisions(bip(3, 3), thorough ? 9 : 6, 1)); append(*l, subdivisions(complete(5), thorough ? 7 : 6, 1));
        append(*l, subdivisions(bip(2, 3), 8, 3)); append(*l, subdivisions(complete(4), 8, 3));
        G g = bip(3, 3); g.addu(0, 1); append(*l, subdivisions(g, thorough ? 6 : 4, 1)); append(*l, subdivisions(moebius(4), thorough ? 5 : 3, 1)); append(*l, subdivisions(minusEdge(complete(6), 0), 2, 1)); append(*l, subdivisions(petersen(), thorough ? 3 : 2, 1));
        append(*l, subdivisions(wheel(6), 4, 2)); append(*l, subdivisions(prism(4), 3, 1)); append(*l, subdivisions(complete(6), 2, 1));
        F.push_back(famList("subdivisions", l, [thorough, cost](int n) { return thorough ? presRot(n, 2) : presRot(n, 1); }));
    }
    // subdivided obstructions (fixed shapes) plus every extra edge / every two-path
    {
        auto l = std::make_shared<GL>();
        for (const G &b : {subdiv(bip(3, 3), {1, 0, 1, 0, 1, 0, 1, 0, 1}), subdiv(complete(5), {1, 1, 0, 1, 0, 1, 1, 0, 0, 1}), subdiv(bip(3, 3), {2, 1, 0, 0, 1, 0, 0, 2, 1}), subdiv(complete(4), {2, 1, 1, 1, 1, 1}), subdiv(bip(2, 3), {1, 2, 1, 1, 2, 1})})
            for (int u = 0; u < b.n; u++) for (int v = u + 1; v < b.n; v++) { if (!b.has(u, v)) l->push_back(plusEdge(b, u, v)); G h = b; int w = h.n++; h.add(u, w); h.add(v, w); l->push_back(h); }
        F.push_back(famList("obstruction-plus-path", l, [thorough](int n) { return thorough ? presAll(n, 2) : presRot(n, 1); }));
    }
    // 1-sums and 2-sums of the building blocks
    {
        auto l = std::make_shared<GL>(); GL pool = blocksPool();
        for (auto &a : pool) for (auto &b : pool) {
            for (int u = 0; u < a.n; u += (a.n > 5 ? 2 : 1)) { l->push_back(glueV(a, u, b, 0)); if (thorough) l->push_back(glueV(a, u, b, b.n - 1)); }
            for (size_t i = 0; i < a.e.size(); i += (thorough ? 1 : 3)) for (size_t j = 0; j < b.e.size(); j += (thorough ? 1 : 3)) for (int k = 0; k < 2; k++) l->push_back(glueE(a, a.e[i].first, a.e[i].second, b, b.e[j].first, b.e[j].second, k));
        }
        F.push_back(famList("sums", l, [thorough](int n) { return presRot(n, thorough ? 2 : 1); }));
        auto l3 = std::make_shared<GL>();
        for (auto &a : pool) for (auto &b : pool) for (auto &c : pool) {
            G x = glueE(a, a.e[0].first, a.e[0].second, b, b.e[0].first, b.e[0].second, false);
            auto &e2 = a.e.back(); if (!x.has(e2.first, e2.second)) continue;
            l3->push_back(glueE(x, e2.first, e2.second, c, c.e[0].first, c.e[0].second, true));
            l3->push_back(glueE(x, e2.first, e2.second, c, c.e.back().first, c.e.back().second, false));
            l3->push_back(glueE(glueE(a, a.e[0].first, a.e[0].second, b, b.e[0].first, b.e[0].second, true), a.e[0].first, a.e[0].second, c, c.e[0].first, c.e[0].second, true));
        }
        F.push_back(famList("triple-sums", l3, [thorough, cost](int n) { auto v = presRot(n, 1); if (!thorough) { std::vector<Pres> w; for (size_t i = 0; i < v.size(); i += 3) w.push_back(v[i]); return w; } return v; }));
    }
    // stacked triangulations, plus every extra edge, minus every edge
    {
        auto l = std::make_shared<GL>(); GL st; stacked(thorough ? 12 : 11, st, thorough ? 3 : 2);
        // the list grows as branch^(n-3); keep an evenly spaced subfamily of fixed size
        size_t want = thorough ? 400 : 60; GL s2; for (size_t i = 0; i < want && i < st.size(); i++) s2.push_back(st[i * st.size() / want]);
        for (auto &g : s2) { l->push_back(g); for (int u = 0; u < g.n; u++) for (int v = u + 1; v < g.n; v++) if (!g.has(u, v)) l->push_back(plusEdge(g, u, v)); for (size_t i = 0; i < g.e.size(); i++) l->push_back(minusEdge(g, i)); }
        F.push_back(famList("stacked-triangulations", l, [thorough](int n) { auto v = presRot(n, 1); if (!thorough) { std::vector<Pres> w; for (size_t i = 0; i < v.size(); i += 2) w.push_back(v[i]); return w; } return v; }));
        auto q = std::make_shared<GL>();
        for (const G &g : {grid(4, 4), antiprism(6), prism(7), circ(13, {1, 2}), moebius(6), grid(3, 6), petersen(), circ(11, {1, 3}), wheel(13), bip(2, 11), antiprism(8)}) { q->push_back(g); for (int u = 0; u < g.n; u++) for (int v = u + 1; v < g.n; v++) if (!g.has(u, v)) q->push_back(plusEdge(g, u, v)); for (size_t i = 0; i < g.e.size(); i++) { q->push_back(minusEdge(g, i)); for (size_t j = i + 1; j < g.e.size(); j += (thorough ? 1 : 4)) q->push_back(minusEdge(minusEdge(g, j), i)); } }
        F.push_back(famList("polyhedra-near-planar", q, [thorough](int n) { auto v = thorough ? presAll(n, 1) : presRot(n, 1); if (!thorough) { std::vector<Pres> w; for (size_t i = 0; i < v.size(); i += 2) w.push_back(v[i]); return w; } return v; }));
    }
    {
        auto s = std::make_shared<GengStore>(gengStore(8)); F.push_back(famGeng("all-graphs-order8", s, presRot(8, thorough ? 4 : (cost > 1 ? 1 : 2))));
        auto s7 = std::make_shared<GengStore>(gengStore(7)); F.push_back(famGeng("all-graphs-order7-affine", s7, presAll(7, 4, 3)));
    }
    { // edge storage with holes, or with reused records
        std::vector<Pres> p; for (int l : {3, 4}) { p.push_back({1, 0, 0, l}); p.push_back({3, 1, 1, l}); }
        auto s = std::make_shared<GengStore>(gengStore(8)); F.push_back(famGeng("holes-order8", s, p));
        auto q = std::make_shared<GL>();
        append(*q, subdivisions(bip(3, 3), 3, 1)); append(*q, subdivisions(complete(5), 3, 1)); append(*q, subdivisions(bip(2, 3), 4, 2)); append(*q, subdivisions(complete(4), 4, 2));
        for (const G &g : {grid(4, 4), antiprism(6), prism(7), petersen(), wheel(13), bip(2, 11)}) { q->push_back(g); for (int u = 0; u < g.n; u++) for (int v = u + 1; v < g.n; v++) if (!g.has(u, v)) q->push_back(plusEdge(g, u, v)); for (size_t i = 0; i < g.e.size(); i++) q->push_back(minusEdge(g, i)); }
        F.push_back(famList("holes-structured", q, [](int n) { std::vector<Pres> v; for (int b : {0, n / 3, n / 2}) for (int l : {3, 4}) v.push_back({b & 1 ? n - 1 : 1, b, l == 3 ? 0 : 1, l}); return v; }));
    }
    // combinations of two components / pendant structures
    {
        auto l = std::make_shared<GL>(); GL pool = blocksPool();
        for (auto &a : pool) for (auto &b : pool) { l->push_back(disjoint(a, b)); l->push_back(disjoint(disjoint(G(2), a), b)); G c = disjoint(a, b); c.addu(0, a.n); l->push_back(c); c.addu(1, a.n + 1); l->push_back(c); c.addu(2, a.n + 2); l->push_back(c); }
        F.push_back(famList("two-components-and-bridges", l, [](int n) { return presRot(n, 1); }));
    }
    if (cost == 1 || thorough) F.push_back(famMask(7));
    if (thorough) {
        if (lvl >= 2) { F.push_back(famMask(7, 1)); F.push_back(famMask(7, 3)); }
        auto s = std::make_shared<GengStore>(gengStore(9)); F.push_back(famGeng("all-graphs-order9", s, presRot(9, 1)));
        if (cost == 1 && lvl == 1) { auto s10 = std::make_shared<GengStore>(gengStore(10, "-qC", "20:26")); std::vector<Pres> p{{3, 1, 0, 0}, {9, 4, 1, 1}, {7, 6, 0, 2}}; if (lvl < 2) p = {{7, 6, 0, 2}}; F.push_back(famGeng("biconnected-order10-20..26-edges", s10, p)); }
    }
    {
        auto s6 = std::make_shared<GengStore>(gengStore(6)), s7 = std::make_shared<GengStore>(gengStore(7)), s8 = std::make_shared<GengStore>(gengStore(8));
        F.push_back(famTransform("gadgets-order6", s6, {0, 1, 2, 3, 4, 5, 6, 7}, lvl == 0 ? 8 : 40));
        F.push_back(famTransform("gadgets-order7", s7, {0, 1, 2, 3, 4, 5, 6, 7}, lvl == 0 ? 3 : 20));
        if (lvl >= 1) F.push_back(famTransform("gadgets-order8", s8, {0, 1, 2, 3, 4, 5, 6, 7}, lvl == 1 ? 4 : 16));
    }
    { // periodic and self-similar graphs (strips.hpp), with a few columns
        auto fs = [&](int r, int h, int k, std::vector<int> sch) { auto S = std::make_shared<std::vector<int>>(sch);
            F.push_back({fmt("strips-%d-rows-%d-hubs-%d-columns", r, h, k), stripCount(r, h) * sch.size(), [=](uint64_t i, int &link) { link = (int)(i % 3); return scheme(strip(stripAt(r, h, i / S->size()), k), (*S)[i % S->size()], r); }}); };
        std::vector<int> all{0, 1, 2, 3, 4, 5, 6, 7};
        fs(2, 0, 9, all); fs(2, 1, 5, all); fs(2, 1, 8, all); fs(2, 2, 4, all); fs(2, 2, 6, all); fs(3, 0, 4, all); fs(3, 0, 5, all); fs(3, 0, 6, all); fs(3, 1, 4, cost < 3 || thorough ? std::vector<int>{0, 1, 3, 6} : std::vector<int>{3});
        if (thorough) { fs(2, 2, 9, all); fs(3, 0, 9, all); fs(3, 1, 5, all); fs(3, 1, 6, {0, 2, 3, 5}); }
        for (int t = 1; t <= 3; t++) { auto l = std::make_shared<GL>(); for (unsigned m = 0; m < 1u << ((t + 1) * (t + 2) / 2); m++) for (int d = 1, last = 2; d < 40; d++) { G g = substitute(t, m, d, 40); if (g.n == last || g.n > 40) break; last = g.n; if (g.n > 6) for (int s : all) l->push_back(scheme(g, s, 1)); }
            F.push_back(famList(fmt("substitution-%d", t), l, [](int) { return std::vector<Pres>{{1, 0, 0, 0}, {1, 0, 0, 2}}; })); }
    }
    if (lvl >= 2) {
        auto s8 = std::make_shared<GengStore>(gengStore(8)); F.push_back(famGeng("all-graphs-order8-affine", s8, presAll(8, 4, 3)));
        auto s9 = std::make_shared<GengStore>(gengStore(9)); F.push_back(famGeng("all-graphs-order9-affine", s9, presAll(9, 1, 2)));
        if (cost == 1) {
            auto s11 = std::make_shared<GengStore>(gengStore(11, "-qC", "11:16")); F.push_back(famGeng("biconnected-order11-11..16-edges", s11, {{1, 0, 0, 0}, {10, 10, 1, 1}, {3, 1, 3, 2}, {5, 7, 2, 0}, {7, 3, 0, 1}, {2, 0, 1, 0}}));
            auto s11d = std::make_shared<GengStore>(gengStore(11, "-qd3", "17:18")); F.push_back(famGeng("mindegree3-order11-17..18-edges", s11d, presRot(11, 1)));
            auto s10 = std::make_shared<GengStore>(gengStore(10)); F.push_back(famGeng("all-graphs-order10", s10, {{3, 1, 0, 0}, {9, 4, 1, 1}, {7, 6, 0, 2}, {1, 5, 3, 0}}));
            F.push_back(famMask(8));
        }
    }
    return F;
}
inline void addFams(vp::Check &c, const std::vector<Fam> &F, std::function<void(const G &, int link, Ctx &)> run) {
    for (auto &f : F) {
        auto get = f.get;
        c.add(f.name, f.count, [get, run](uint64_t i, Ctx &x) { int link = 0; G g = get(i, link); run(g, link, x); },
              [get](uint64_t i) { int link = 0; G g = get(i, link); return g.str() + fmt(" (inserted in this order, list end choice %d)", link); });
    }
}

// Small graph type, enumerated graph sources and independent oracles.
#pragma once
#include "vp.hpp"
#include <memory>
#include <numeric>
typedef unsigned __int128 u128;

struct G {                       // simple undirected graph, vertices 0..n-1
    int n = 0;
    std::vector<std::pair<int, int>> e; // u<v unless a presentation reorders it
    G() {}
    G(int n_) : n(n_) {}
    void add(int u, int v) { if (u > v) std::swap(u, v); e.push_back({u, v}); }
    bool has(int u, int v) const { if (u > v) std::swap(u, v); for (auto &x : e) if (std::min(x.first, x.second) == u && std::max(x.first, x.second) == v) return true; return false; }
    void addu(int u, int v) { if (u != v && !has(u, v)) add(u, v); }
    std::vector<std::vector<int>> adj() const { std::vector<std::vector<int>> a(n); for (auto &x : e) { a[x.first].push_back(x.second); a[x.second].push_back(x.first); } return a; }
    std::string str() const { std::string s = "n=" + std::to_string(n) + " edges (0-based):"; for (auto &x : e) s += " " + std::to_string(x.first) + "-" + std::to_string(x.second); return s; }
};

inline G fromMask(int n, uint64_t m) { G g(n); int b = 0; for (int j = 1; j < n; j++) for (int i = 0; i < j; i++, b++) if (m >> b & 1) g.add(i, j); return g; }
inline G fromG6(const char *s) {
    G g(s[0] - 63); int k = 0; const char *p = s + 1;
    for (int j = 1; j < g.n; j++) for (int i = 0; i < j; i++, k++) if ((p[k / 6] - 63) >> (5 - k % 6) & 1) g.add(i, j);
    return g;
}

// ---------------------------------------------------------------- oracles
namespace orc {
// (a) planarity: Demoucron-Malgrange-Pertuiset on each block. n <= 64.
typedef uint64_t M;
struct BG { int n; std::vector<M> a; };
inline BG bg(const G &g) { BG b{g.n, std::vector<M>(g.n, 0)}; for (auto &x : g.e) { b.a[x.first] |= M(1) << x.second; b.a[x.second] |= M(1) << x.first; } return b; }
inline int ctz(M m) { return __builtin_ctzll(m); }

inline M reach(const BG &g, int s, M within) {
    M r = M(1) << s, f = r;
    while (f) { int v = ctz(f); f &= f - 1; M nw = g.a[v] & within & ~r; r |= nw; f |= nw; }
    return r;
}
// blocks as vertex sets with >= 2 vertices
inline void blocks(const BG &g, std::vector<M> &out) {
    int n = g.n; std::vector<int> d(n, -1), low(n); std::vector<int> st; int t = 0;
    std::function<void(int, int)> dfs = [&](int v, int p) {
        d[v] = low[v] = t++; st.push_back(v);
        for (M m = g.a[v]; m; m &= m - 1) {
            int w = ctz(m); if (w == p) continue;
            if (d[w] < 0) {
                dfs(w, v); low[v] = std::min(low[v], low[w]);
                if (low[w] >= d[v]) { M b = M(1) << v; int x; do { x = st.back(); st.pop_back(); b |= M(1) << x; } while (x != w); out.push_back(b); }
            } else low[v] = std::min(low[v], d[w]);
        }
    };
    for (int v = 0; v < n; v++) if (d[v] < 0) { dfs(v, -1); st.clear(); }
}
inline bool planarBlock(const BG &g, M V) {
    int nv = __builtin_popcountll(V), m = 0;
    for (M x = V; x; x &= x - 1) m += __builtin_popcountll(g.a[ctz(x)] & V);
    m /= 2;
    if (nv < 5 || m < 9) return true;
    if (m > 3 * nv - 6) return false;
    // initial cycle
    std::vector<int> cyc; {
        std::vector<int> par(g.n, -2), path; int s = ctz(V); par[s] = -1; bool done = false;
        std::function<void(int)> dfs = [&](int v) {
            path.push_back(v);
            for (M x = g.a[v] & V; x && !done; x &= x - 1) {
                int w = ctz(x); if (w == par[v]) continue;
                if (par[w] == -2) { par[w] = v; dfs(w); if (done) return; }
                else { auto it = std::find(path.begin(), path.end(), w); if (it != path.end()) { cyc.assign(it, path.end()); done = true; return; } }
            }
            if (!done) path.pop_back();
        };
        dfs(s); if (!done) return true;
    }
    std::vector<M> emb(g.n, 0); M EV = 0;
    auto addE = [&](int a, int b) { emb[a] |= M(1) << b; emb[b] |= M(1) << a; EV |= (M(1) << a) | (M(1) << b); };
    for (size_t i = 0; i < cyc.size(); i++) addE(cyc[i], cyc[(i + 1) % cyc.size()]);
    std::vector<std::vector<int>> faces{cyc, cyc}; std::vector<M> fm(2, 0);
    for (int v : cyc) { fm[0] |= M(1) << v; fm[1] = fm[0]; }
    int left = m - (int)cyc.size();
    while (left > 0) {
        // fragments
        struct F { M att; M in; int u, v; }; std::vector<F> fr;
        for (M x = EV; x; x &= x - 1) { int v = ctz(x); for (M y = g.a[v] & EV & ~emb[v]; y; y &= y - 1) { int w = ctz(y); if (v < w) fr.push_back({(M(1) << v) | (M(1) << w), 0, v, w}); } }
        for (M rest = V & ~EV; rest;) { M c = reach(g, ctz(rest), V & ~EV); rest &= ~c; M at = 0; for (M y = c; y; y &= y - 1) at |= g.a[ctz(y)] & EV; fr.push_back({at, c, -1, -1}); }
        int best = -1, bf = -1, bc = 1 << 30;
        for (size_t i = 0; i < fr.size(); i++) {
            int cnt = 0, f0 = -1;
            for (size_t f = 0; f < faces.size(); f++) if ((fr[i].att & ~fm[f]) == 0) { cnt++; f0 = (int)f; }
            if (!cnt) return false;
            if (cnt < bc) { bc = cnt; best = (int)i; bf = f0; if (cnt == 1) break; }
        }
        F &f = fr[best]; std::vector<int> path;
        if (!f.in) path = {f.u, f.v};
        else {
            int s = ctz(f.att); std::vector<int> par(g.n, -2); std::vector<int> q{s}; par[s] = -1; int end = -1;
            for (size_t h = 0; h < q.size() && end < 0; h++) {
                int v = q[h]; M nx = g.a[v] & (h == 0 ? f.in : (f.in | (f.att & ~(M(1) << s))));
                for (; nx; nx &= nx - 1) { int w = ctz(nx); if (par[w] != -2) continue; par[w] = v; if (f.att >> w & 1) { end = w; break; } q.push_back(w); }
            }
            for (int v = end; v >= 0; v = par[v]) path.push_back(v);
        }
        for (size_t i = 0; i + 1 < path.size(); i++) { addE(path[i], path[i + 1]); left--; }
        // split face bf
        std::vector<int> &fc = faces[bf]; int k = (int)fc.size();
        int ia = (int)(std::find(fc.begin(), fc.end(), path.front()) - fc.begin()), ib = (int)(std::find(fc.begin(), fc.end(), path.back()) - fc.begin());
        std::vector<int> f1, f2;
        for (int i = ia;; i = (i + 1) % k) { f1.push_back(fc[i]); if (i == ib) break; }
        for (size_t i = path.size() - 2; i >= 1; i--) f1.push_back(path[i]);
        for (int i = ib;; i = (i + 1) % k) { f2.push_back(fc[i]); if (i == ia) break; }
        for (size_t i = 1; i + 1 < path.size(); i++) f2.push_back(path[i]);
        faces[bf] = f1; faces.push_back(f2);
        auto mask = [&](std::vector<int> &x) { M r = 0; for (int v : x) r |= M(1) << v; return r; };
        fm[bf] = mask(f1); fm.push_back(mask(f2));
    }
    return true;
}
inline bool planar(const G &g) {
    if (g.n < 5) return true;
    if ((int)g.e.size() > 3 * g.n - 6) return false;
    if (g.e.size() < 9) return true;
    BG b = bg(g); std::vector<M> bl; blocks(b, bl);
    for (M x : bl) if (!planarBlock(b, x)) return false;
    return true;
}
// (b) K4-subdivision free <=> reduces to nothing by deleting degree<=1 and suppressing degree-2 vertices
inline bool hasK4(const G &g) {
    BG b = bg(g); M alive = b.n == 64 ? ~M(0) : (M(1) << b.n) - 1; bool ch = true;
    while (ch) {
        ch = false;
        for (M x = alive; x; x &= x - 1) {
            int v = ctz(x), d = __builtin_popcountll(b.a[v]);
            if (d > 2) continue;
            M nb = b.a[v]; for (M y = nb; y; y &= y - 1) b.a[ctz(y)] &= ~(M(1) << v);
            b.a[v] = 0; alive &= ~(M(1) << v); ch = true;
            if (d == 2) { int p = ctz(nb), q = ctz(nb & (nb - 1)); b.a[p] |= M(1) << q; b.a[q] |= M(1) << p; }
        }
    }
    return alive != 0;
}
// (c) K2,3 subdivision <=> some pair a,b with three internally disjoint a-b paths in G - ab
inline int disjointPaths(const BG &g, int a, int b, int want) {
    // vertex-split augmenting paths; flow[v] = successor/predecessor of v on the current paths
    int n = g.n; std::vector<int> nx(n, -1), pv(n, -1); M first = 0; int k = 0; // first: vertices v with path a->v
    while (k < want) {
        // BFS over states (v, side): side 0 = at v's in, 1 = at v's out
        std::vector<int> par(2 * n, -2); std::vector<int> q;
        int goal = -1;
        auto push = [&](int s, int p) { if (par[s] == -2) { par[s] = p; q.push_back(s); } };
        for (M x = g.a[a] & ~first & ~(M(1) << b); x; x &= x - 1) push(2 * ctz(x), -1);
        for (size_t h = 0; h < q.size() && goal < 0; h++) {
            int s = q[h], v = s / 2;
            bool used = nx[v] >= 0;
            if (s % 2 == 0) { // arrived at in(v)
                if (!used) push(2 * v + 1, s);
                else if (pv[v] != a) push(2 * pv[v] + 1, s); // cancel edge pv->v : go back to out(pv)
            } else {          // at out(v)
                if (used) push(2 * v, s); // cancel internal arc: out->in
                for (M x = g.a[v] & ~(M(1) << a); x; x &= x - 1) {
                    int w = ctz(x);
                    if (w == b) { if (nx[v] != b) { goal = s; break; } continue; }
                    if (nx[v] == w) continue;
                    push(2 * w, s);
                }
            }
        }
        if (goal < 0) return k;
        // apply: collect state path
        std::vector<int> st; for (int s = goal; s != -1; s = par[s]) st.push_back(s);
        std::reverse(st.begin(), st.end());
        // edge set toggling
        std::set<std::pair<int, int>> E;
        for (int v = 0; v < n; v++) if (nx[v] >= 0) { E.insert({v, nx[v]}); }
        for (M x = first; x; x &= x - 1) E.insert({a, ctz(x)});
        auto tog = [&](int u, int v) { if (E.count({v, u})) E.erase({v, u}); else E.insert({u, v}); };
        tog(a, st[0] / 2);
        for (size_t i = 0; i + 1 < st.size(); i++) if (st[i] / 2 != st[i + 1] / 2) tog(st[i] / 2, st[i + 1] / 2);
        tog(st.back() / 2, b);
        std::fill(nx.begin(), nx.end(), -1); std::fill(pv.begin(), pv.end(), -1); first = 0;
        for (auto &x : E) { if (x.first == a) first |= M(1) << x.second; else nx[x.first] = x.second; if (x.second != b) pv[x.second] = x.first; }
        k++;
    }
    return k;
}
inline bool hasK23(const G &g) {
    BG b = bg(g);
    for (int i = 0; i < g.n; i++) if (__builtin_popcountll(b.a[i]) >= 3)
        for (int j = i + 1; j < g.n; j++) if (__builtin_popcountll(b.a[j]) >= 3) {
            BG c = b; c.a[i] &= ~(M(1) << j); c.a[j] &= ~(M(1) << i);
            if (__builtin_popcountll(c.a[i]) < 3 || __builtin_popcountll(c.a[j]) < 3) continue;
            if (disjointPaths(c, i, j, 3) >= 3) return true;
        }
    return false;
}
// outerplanar <=> neither K4 nor K2,3
inline bool outerplanar(const G &g) { if (g.n >= 2 && (int)g.e.size() > 2 * g.n - 3) return false; return !hasK4(g) && !hasK23(g); }
// (d) K3,3 subdivision: decompose at cut vertices and 2-separations; a 3-connected
// non-planar graph has one unless it is K5 (Wagner, Hall).
inline G induced(const BG &b, M V) { std::vector<int> id(b.n, -1); int k = 0; for (M x = V; x; x &= x - 1) id[ctz(x)] = k++; G g(k); for (M x = V; x; x &= x - 1) { int v = ctz(x); for (M y = b.a[v] & V; y; y &= y - 1) { int w = ctz(y); if (v < w) g.add(id[v], id[w]); } } return g; }
inline bool hasK33(const G &g) {
    if (g.n < 6 || g.e.size() < 9) return false;
    BG b = bg(g); std::vector<M> bl; blocks(b, bl); M all = g.n == 64 ? ~M(0) : (M(1) << g.n) - 1;
    bool single = bl.size() == 1 && bl[0] == all;
    if (!single) { for (M x : bl) if (__builtin_popcountll(x) >= 6 && hasK33(induced(b, x))) return true; return false; }
    if (planarBlock(b, all)) return false;
    for (int i = 0; i < g.n; i++) for (int j = i + 1; j < g.n; j++) {
        M rest = all & ~(M(1) << i) & ~(M(1) << j); M c = reach(b, ctz(rest), rest);
        if (c == rest) continue;
        BG h = b; h.a[i] |= M(1) << j; h.a[j] |= M(1) << i;
        while (rest) { c = reach(b, ctz(rest), rest); rest &= ~c; if (hasK33(induced(h, c | (M(1) << i) | (M(1) << j)))) return true; }
        return false;
    }
    return true; // 3-connected, non-planar, n >= 6
}
} // namespace orc

// is the given edge set a subdivision of K4 / K2,3 / K5 / K3,3 (no isolated parts, simple)?
enum Kind { KIND_NONE, KIND_K4, KIND_K23, KIND_K5, KIND_K33 };
inline Kind subdivisionKind(int n, const std::vector<std::pair<int, int>> &E) {
    std::vector<std::vector<int>> a(n);
    std::set<std::pair<int, int>> seen;
    for (auto &x : E) { if (x.first == x.second) return KIND_NONE; auto k = std::minmax(x.first, x.second); if (!seen.insert({k.first, k.second}).second) return KIND_NONE; a[x.first].push_back(x.second); a[x.second].push_back(x.first); }
    std::vector<int> br; int d4 = 0, d3 = 0; size_t visited = 0;
    for (int v = 0; v < n; v++) { int d = (int)a[v].size(); if (d == 1 || d > 4) return KIND_NONE; if (d >= 3) { br.push_back(v); if (d == 4) d4++; else d3++; } }
    // follow paths between branch vertices
    std::map<std::pair<int, int>, int> pc; std::vector<char> used(n, 0);
    for (int b : br) for (int w : a[b]) {
        int p = b, c = w; int len = 1;
        while (a[c].size() == 2) { used[c] = 1; int nx = a[c][0] == p ? a[c][1] : a[c][0]; p = c; c = nx; len++; if (len > n + 1) return KIND_NONE; }
        if (c == b) return KIND_NONE;
        pc[{std::min(b, c), std::max(b, c)}]++;
    }
    for (int v = 0; v < n; v++) if (a[v].size() == 2 && !used[v]) { // K2,3: its degree-2 corners are ordinary path vertices
        return KIND_NONE; }
    (void)visited;
    auto cnt = [&](int u, int v) { auto it = pc.find({std::min(u, v), std::max(u, v)}); return it == pc.end() ? 0 : it->second / 2; };
    if (d4 == 5 && d3 == 0) { for (int i = 0; i < 5; i++) for (int j = i + 1; j < 5; j++) if (cnt(br[i], br[j]) != 1) return KIND_NONE; return KIND_K5; }
    if (d4) return KIND_NONE;
    if (d3 == 4) { for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) if (cnt(br[i], br[j]) != 1) return KIND_NONE; return KIND_K4; }
    if (d3 == 6) {
        std::vector<int> side(6, 0);
        for (int i = 1; i < 6; i++) side[i] = cnt(br[0], br[i]) ? 1 : 0;
        if (std::accumulate(side.begin(), side.end(), 0) != 3) return KIND_NONE;
        for (int i = 0; i < 6; i++) for (int j = i + 1; j < 6; j++) if (cnt(br[i], br[j]) != (side[i] != side[j] ? 1 : 0)) return KIND_NONE;
        return KIND_K33;
    }
    if (d3 == 2) { // three internally disjoint paths, each with an interior vertex
        if (cnt(br[0], br[1]) != 3) return KIND_NONE;
        for (int w : a[br[0]]) if (w == br[1]) return KIND_NONE;
        return KIND_K23;
    }
    return KIND_NONE;
}

// Periodic graphs: a column of r rows repeated k times, the same edges inside every column and from each
// column to the next, hub vertices joined to the same rows of every column, optionally closed to a ring.
// Substitution graphs: every edge replaced, again and again, by the same two-terminal gadget.
#pragma once
#include "lib.hpp"
struct Strip { int r, hubs, A, B, H, wrap, hh; };
inline uint64_t stripCount(int r, int hubs) { return (1ull << (r * (r - 1) / 2)) * (1ull << (r * r)) * (1ull << (r * hubs)) * 2 * (hubs == 2 ? 2 : 1); }
inline Strip stripAt(int r, int hubs, uint64_t i) {
    Strip s{r, hubs}; auto take = [&](int bits) { int x = (int)(i & ((1ull << bits) - 1)); i >>= bits; return x; };
    s.A = take(r * (r - 1) / 2); s.B = take(r * r); s.H = take(r * hubs); s.wrap = take(1); s.hh = hubs == 2 ? take(1) : 0; return s;
}
inline G strip(const Strip &s, int k) {
    int r = s.r, n = r * k + s.hubs; G g(n); auto at = [&](int c, int j) { return c * r + j; };
    for (int c = 0; c < k; c++) {
        int b = 0; for (int i = 0; i < r; i++) for (int j = i + 1; j < r; j++, b++) if (s.A >> b & 1) g.add(at(c, i), at(c, j));
        if (c + 1 < k || (s.wrap && k > 2)) for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) if (s.B >> (i * r + j) & 1) g.add(at(c, i), at((c + 1) % k, j));
        for (int h = 0; h < s.hubs; h++) for (int j = 0; j < r; j++) if (s.H >> (h * r + j) & 1) g.add(at(c, j), r * k + h);
    }
    if (s.hh) g.add(n - 2, n - 1);
    return g;
}
inline std::string stripStr(const Strip &s) { return fmt("strip rows=%d hubs=%d column=%x next=%x hub=%x ring=%d hubedge=%d", s.r, s.hubs, s.A, s.B, s.H, s.wrap, s.hh); }
// gadget: terminals 0,1, inner vertices 2..t+1; every edge is replaced by it, depth times
inline G substitute(int t, unsigned mask, int depth, int cap) {
    G g(2); g.add(0, 1); std::vector<std::pair<int, int>> ge; int b = 0; for (int j = 1; j < t + 2; j++) for (int i = 0; i < j; i++, b++) if (mask >> b & 1) ge.push_back({i, j});
    for (int d = 0; d < depth && g.n <= cap; d++) {
        G r(g.n); for (auto &e : g.e) { int base = r.n; r.n += t; auto id = [&](int x) { return x == 0 ? e.first : x == 1 ? e.second : base + x - 2; }; for (auto &x : ge) r.add(id(x.first), id(x.second)); }
        g = r;
    }
    return g;
}
// orders in which the vertices of a periodic graph are numbered and its edges inserted
enum { NSCHEME = 8 };
inline G scheme(const G &g, int s, int rows) {
    int n = g.n; std::vector<int> id(n); 
    switch (s % 4) {
        case 0: for (int i = 0; i < n; i++) id[i] = i; break;                         // column after column, hubs last
        case 1: for (int i = 0; i < n; i++) id[i] = n - 1 - i; break;                 // hubs first
        case 2: { int k = n / std::max(1, rows), c = 0; for (int j = 0; j < rows; j++) for (int i = 0; i < k; i++) if (i * rows + j < n) id[i * rows + j] = c++; for (int i = k * rows; i < n; i++) id[i] = c++; break; } // row after row
        case 3: { int st = (int)(n * 0.381966); if (st < 1) st = 1; while (gcd_(st, n) != 1) st++; for (int i = 0; i < n; i++) id[i] = (int)((long long)i * st % n); break; } // scattered
    }
    G r(n); for (auto &e : g.e) r.e.push_back({id[e.first], id[e.second]});
    if (s >= 4) std::reverse(r.e.begin(), r.e.end());
    return r;
}

// Drawing data as it is observable from outside: the section that gp_WriteToString
// appends when the DrawPlanar feature is attached.
#pragma once
#include "families.hpp"
struct Seg { int pos = 0, lo = 0, hi = 0; };
struct Drawing { int N = 0, M = 0; std::vector<Seg> v; std::vector<Seg> e; std::vector<int> eu, ew, arc; std::string text; };
inline const char *rdInt(const char *p, int &x) { bool neg = false; while (*p == ' ') p++; if (*p == '-') { neg = true; p++; } if (*p < '0' || *p > '9') return nullptr; long y = 0; while (*p >= '0' && *p <= '9') { y = y * 10 + (*p - '0'); p++; if (y > 2000000000) return nullptr; } x = neg ? -y : y; return p; }
inline const char *rdLine(const char *p, int &idx, Seg &s) { if (!p || !(p = rdInt(p, idx)) || *p != ':') return nullptr; p++; if (!(p = rdInt(p, s.pos)) || !(p = rdInt(p, s.lo)) || !(p = rdInt(p, s.hi)) || *p != '\n') return nullptr; return p + 1; }
// base: 1 one-based text, 0 zero-based
inline Drawing drawingOf(graphP g, const std::string &text, bool zeroBased) {
    Drawing d; d.N = g->N; d.M = g->M; d.text = text; d.v.resize(g->N + 1);
    const char *p = strstr(text.c_str(), "<DrawPlanar>\n"); if (!p) fail("the written graph has no <DrawPlanar> section");
    p += 13;
    int off = zeroBased ? 1 : 0, idx;
    for (int v = 1; v <= g->N; v++) { p = rdLine(p, idx, d.v[v]); if (!p) fail("drawing section: bad line for vertex %d", v); if (idx != v - off) fail("drawing section: vertex line %d where %d is expected", idx, v - off); }
    int eo = zeroBased ? gp_GetFirstEdge(g) : 0, bound = gp_EdgeInUseIndexBound(g);
    for (int e = gp_GetFirstEdge(g); e < bound; e++) if (gp_EdgeInUse(g, e)) {
        Seg s; p = rdLine(p, idx, s); if (!p) fail("drawing section: bad line for arc %d", e); if (idx != e - eo) fail("drawing section: arc line %d where %d is expected", idx, e - eo);
        if (!(e & 1) == !(gp_GetFirstEdge(g) & 1)) { d.e.push_back(s); d.arc.push_back(e); d.eu.push_back(gp_GetNeighbor(g, gp_GetTwinArc(g, e))); d.ew.push_back(gp_GetNeighbor(g, e)); }
        else { Seg &t = d.e.back(); if (t.pos != s.pos || t.lo != s.lo || t.hi != s.hi) fail("drawing section: the two arcs of edge %d-%d have different coordinates", d.eu.back(), d.ew.back()); }
    }
    if (strcmp(p, "</DrawPlanar>\n")) fail("drawing section does not end after the edges: '%.40s'", p);
    return d;
}
inline std::string writeStr(graphP g, int mode) { char *s = nullptr; int r = gp_WriteToString(g, &s, mode); if (r != OK || !s) { if (s) free(s); fail("gp_WriteToString(mode %d) returned %s", mode, rname(r)); } std::string t = s; free(s); return t; }
inline void checkDrawing(const Drawing &d) {
    int N = d.N, M = d.M; std::vector<int> row(N, 0), col(std::max(1, M), 0);
    for (int v = 1; v <= N; v++) { const Seg &s = d.v[v]; if (s.pos < 0 || s.pos >= N) fail("vertex %d is on row %d of %d", v, s.pos, N); if (row[s.pos]) fail("vertices %d and %d share row %d", row[s.pos], v, s.pos); row[s.pos] = v; if (s.lo < 0 || s.lo > s.hi || s.hi >= std::max(1, M)) fail("vertex %d spans columns %d..%d of %d", v, s.lo, s.hi, M); }
    if ((int)d.e.size() != M) fail("%zu edges drawn, M=%d", d.e.size(), M);
    for (int i = 0; i < M; i++) {
        const Seg &s = d.e[i]; int u = d.eu[i], w = d.ew[i];
        if (s.pos < 0 || s.pos >= M) fail("edge %d-%d is on column %d of %d", u, w, s.pos, M);
        if (col[s.pos]) fail("two edges share column %d", s.pos); col[s.pos] = 1;
        if (std::min(d.v[u].pos, d.v[w].pos) != s.lo || std::max(d.v[u].pos, d.v[w].pos) != s.hi) fail("edge %d-%d spans rows %d..%d, its ends are on rows %d and %d", u, w, s.lo, s.hi, d.v[u].pos, d.v[w].pos);
        for (int x : {u, w}) if (s.pos < d.v[x].lo || s.pos > d.v[x].hi) fail("edge %d-%d on column %d misses the segment of vertex %d (%d..%d)", u, w, s.pos, x, d.v[x].lo, d.v[x].hi);
        for (int y = s.lo + 1; y < s.hi; y++) { int x = row[y]; if (s.pos >= d.v[x].lo && s.pos <= d.v[x].hi) fail("edge %d-%d on column %d crosses the segment of vertex %d (%d..%d)", u, w, s.pos, x, d.v[x].lo, d.v[x].hi); }
    }
}

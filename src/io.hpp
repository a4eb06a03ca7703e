// Text formats: independent writers, parsers and a model of graphs with list orders and directions.
#pragma once
#include "families.hpp"
extern "C" {
#include "io/g6-read-iterator.h"
#include "io/g6-write-iterator.h"
}
inline void putFile(const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "wb"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) { fprintf(stderr, "cannot write %s\n", p.c_str()); _exit(2); } }
inline std::string getFile(const std::string &p) { FILE *f = fopen(p.c_str(), "rb"); if (!f) return "(no file)"; std::string s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
inline char *heap(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
inline std::string vis(const std::string &s) { std::string o; for (unsigned char c : s.substr(0, 1500)) if (c == '\n') o += "\\n\n"; else if (c < 32 || c > 126) o += fmt("\\x%02x", c); else o += c; if (s.size() > 1500) o += "..."; return o; }
inline std::string scratchFile() { return vp::scratchDir() + fmt("/f%d", (int)getpid()); }
// state of a graph as far as the adjacency list format shows it: entries (neighbor, direction) of every vertex
enum { UND = 0, IN = 1, OUT = 2 };
struct DG { int n = 0; bool zero = false; std::vector<std::vector<std::pair<int, int>>> l; // 1-based, front = first arc
    bool operator==(const DG &o) const { return n == o.n && zero == o.zero && l == o.l; }
    bool directed() const { for (auto &a : l) for (auto &x : a) if (x.second) return true; return false; }
    ES edges() const { ES s; for (int v = 1; v <= n; v++) for (auto &x : l[v]) s.insert({std::min(v, x.first), std::max(v, x.first)}); return s; }
    DG listed() const { DG d = *this; for (auto &a : d.l) a.erase(std::remove_if(a.begin(), a.end(), [](auto &x) { return x.second == IN; }), a.end()); return d; } // what an adjacency list shows
    std::multiset<std::tuple<int, int, int>> arcs() const { std::multiset<std::tuple<int, int, int>> s; for (int v = 1; v <= n; v++) for (auto &x : l[v]) s.insert({v, x.first, x.second}); return s; }
    std::string str() const { std::string t = fmt("N=%d %s", n, zero ? "zero-based" : "one-based"); for (int v = 1; v <= n; v++) { t += fmt("\n%d:", v); for (auto &x : l[v]) t += fmt(" %s%d", x.second == IN ? "<-" : x.second == OUT ? "->" : "", x.first); } return t.substr(0, 3000); }
};
inline DG look(graphP g) {
    Rot r = extract(g); DG d; d.n = r.n; d.zero = (g->internalFlags & FLAGS_ZEROBASEDIO) != 0; d.l.resize(r.n + 1);
    for (int v = 1; v <= r.n; v++) for (size_t i = 0; i < r.nb[v].size(); i++) { int q = gp_GetDirection(g, r.arc[v][i]); d.l[v].push_back({r.nb[v][i], q == EDGEFLAG_DIRECTION_INONLY ? IN : q == EDGEFLAG_DIRECTION_OUTONLY ? OUT : q == 0 ? UND : 9}); }
    return d;
}
// independent adjacency list text: the list is written from its last entry to its first
inline std::string listText(const DG &d) { int o = d.zero ? 1 : 0; std::string t = fmt("N=%d\n", d.n); for (int v = 1; v <= d.n; v++) { t += fmt("%d:", v - o); for (size_t i = d.l[v].size(); i--;) if (d.l[v][i].second != IN) t += fmt(" %d", d.l[v][i].first - o); t += fmt(" %d\n", d.zero ? -1 : 0); } return t; }
inline std::string matrixText(int n, const ES &e, const char *lineEnd = "\n", bool spaced = false) { std::string t = fmt("%d%s", n, lineEnd); for (int v = 1; v <= n; v++) { for (int w = 1; w <= n; w++) { t += w <= v ? ' ' : e.count({v, w}) ? '1' : '0'; if (spaced) t += ' '; } t += lineEnd; } return t; }
inline std::string ledaText(int n, const std::vector<std::pair<int, int>> &e, const char *le = "\n") { std::string t = fmt("LEDA.GRAPH%sstring%sint%s%d%s", le, le, le, n, le); for (int v = 1; v <= n; v++) t += fmt("|{v%d}|%s", v, le); t += fmt("%zu%s", e.size(), le); for (auto &x : e) t += fmt("%d %d 0 |{7}|%s", x.first, x.second, le); return t; }
// strict reading of the two text formats; false: not of the documented form
inline bool parseList(const std::string &t, DG &d) {
    std::istringstream is(t); std::string ln; if (!std::getline(is, ln) || sscanf(ln.c_str(), "N=%d", &d.n) != 1 || d.n < 1) return false;
    d.l.assign(d.n + 1, {}); d.zero = false; std::vector<std::vector<int>> L(d.n + 1);
    for (int v = 1; v <= d.n; v++) { if (!std::getline(is, ln)) return false; std::istringstream q(ln); int x; char c; if (!(q >> x >> c) || c != ':') return false; if (v == 1 && x == 0) d.zero = true; int o = d.zero ? 1 : 0; if (x + o != v) return false; bool end = false; while (q >> x) { if (x + o < 1) { if (x != (d.zero ? -1 : 0)) return false; end = true; break; } if (x + o > d.n || x + o == v) return false; L[v].push_back(x + o); } if (!end || (q >> x)) return false; }
    if (std::getline(is, ln)) return false;
    for (int v = 1; v <= d.n; v++) for (size_t i = L[v].size(); i--;) { int w = L[v][i]; bool back = std::count(L[w].begin(), L[w].end(), v); d.l[v].push_back({w, back ? UND : OUT}); }
    return true;
}
inline bool parseMatrix(const std::string &t, int &n, ES &e) {
    size_t i = 0; n = 0; while (i < t.size() && isdigit(t[i])) n = n * 10 + t[i++] - '0'; if (n < 1) return false;
    for (int v = 1; v <= n; v++) for (int w = v + 1; w <= n; w++) { while (i < t.size() && isspace(t[i])) i++; if (i >= t.size() || (t[i] != '0' && t[i] != '1')) return false; if (t[i++] == '1') e.insert({v, w}); }
    while (i < t.size()) if (!isspace(t[i++])) return false; return true;
}
// graph6 from its definition
inline std::string g6Order(int n) { std::string s; if (n < 63) s += (char)(n + 63); else { s += '~'; for (int k = 12; k >= 0; k -= 6) s += (char)(((n >> k) & 63) + 63); } return s; }
inline std::string g6Text(int n, const ES &e) { // edges 1-based
    std::string s = g6Order(n); size_t at = s.size(); long long bits = (long long)n * (n - 1) / 2; s.append((bits + 5) / 6, '?');
    for (auto &p : e) { long long j = p.second - 1, b = j * (j - 1) / 2 + p.first - 1; s[at + b / 6] = (char)(s[at + b / 6] - 63 + 63 + (32 >> b % 6)); }
    return s;
}
inline int readAny(graphP g, const std::string &text, int fromString) { if (fromString) return gp_ReadFromString(g, heap(text)); std::string f = scratchFile(); putFile(f, text); return gp_Read(g, (char *)f.c_str()); }
inline int writeAny(graphP g, std::string &out, int toString, int mode) {
    if (toString) { char *s = nullptr; int r = gp_WriteToString(g, &s, mode); out = s ? s : ""; if (r == OK && !s) fail("gp_WriteToString returned OK without a string"); free(s); return r; }
    std::string f = scratchFile(); putFile(f, "stale"); int r = gp_Write(g, (char *)f.c_str(), mode); out = r == OK ? getFile(f) : ""; return r;
}

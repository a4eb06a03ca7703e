// P21: malformed texts through every reader.
#include "io.hpp"
#include "drawing.hpp"
#include <fcntl.h>
// ---- what the property demands of a text: MUST be refused, or nothing
enum { FREE, MUST };
struct Tok { const std::string &t; size_t p; // 0 number, 1 text over, 2 something else
    int num(long long &x) { while (p < t.size() && isspace((unsigned char)t[p])) p++; if (p >= t.size()) return 1; bool neg = t[p] == '-'; size_t q = p + neg; if (q >= t.size()) return 1; if (!isdigit((unsigned char)t[q])) return 2; x = 0; for (; q < t.size() && isdigit((unsigned char)t[q]); q++) if (x < 1000000000000ll) x = x * 10 + t[q] - '0'; if (neg) x = -x; p = q; return 0; }
};
static int mustList(const std::string &t) {
    Tok k{t, 2}; long long n, x; int q; if ((q = k.num(n))) return q == 1 ? MUST : FREE; if (n < 1) return FREE; if (n > 1000000) return MUST; int o = 0;
    for (int v = 0; v < n; v++) {
        if ((q = k.num(x))) return q == 1 ? MUST : FREE; if (!v) o = x == 0 ? 0 : 1; if (x < o || x > n - 1 + o) return MUST; if (x != v + o) return FREE;
        while (k.p < t.size() && isspace((unsigned char)t[k.p])) k.p++; if (k.p >= t.size()) return MUST; if (t[k.p++] != ':') return FREE;
        for (;;) { if ((q = k.num(x))) return q == 1 ? MUST : FREE; if (x < o) break; if (x > n - 1 + o) return MUST; }
    }
    return FREE;
}
static int mustMatrix(const std::string &t) {
    Tok k{t, 0}; long long n; if (k.num(n)) return FREE; if (n < 1) return FREE; if (n > 100000) return MUST; // the texts are short
    for (long long b = n * (n - 1) / 2; b--;) { while (k.p < t.size() && isspace((unsigned char)t[k.p])) k.p++; if (k.p >= t.size()) return MUST; if (t[k.p] != '0' && t[k.p] != '1') return FREE; k.p++; }
    return FREE;
}
static int mustLeda(const std::string &t) {
    std::vector<std::string> L; { std::istringstream is(t); std::string s; while (std::getline(is, s)) { if (s.find_first_not_of(" \t\r") == std::string::npos && L.size() > 2) return FREE; L.push_back(s); } }
    if (L.size() < 4) return MUST; Tok k{L[3], 0}; long long n, m, x; if (k.num(n)) return FREE; if (n < 1) return FREE; if ((long long)L.size() < 5 + n) return MUST; for (long long i = 4; i < 4 + n; i++) if (L[i][0] != '|') return FREE;
    Tok j{L[4 + n], 0}; if (j.num(m)) return FREE; if (m < 1) return FREE; if ((long long)L.size() < 5 + n + m) { for (size_t i = 5 + n; i < L.size(); i++) { Tok e{L[i], 0}; long long u, v; if (e.num(u) || e.num(v)) return FREE; } return MUST; }
    for (long long i = 5 + n; i < 5 + n + m; i++) { Tok e{L[i], 0}; long long u, v; if (e.num(u) || e.num(v)) return FREE; if (u < 1 || u > n || v < 1 || v > n) return MUST; }
    (void)x; return FREE;
}
static int mustG6(const std::string &t0) {
    std::string t = t0.compare(0, 10, ">>graph6<<") ? t0 : t0.substr(10); t = t.substr(0, t.find_first_of("\r\n")); for (unsigned char ch : t) if (ch < 63 || ch > 126) return FREE; if (t.empty()) return FREE;
    long long n; size_t p; if (t[0] < 126) { n = t[0] - 63; p = 1; } else { if (t.size() < 4) return MUST; if (t[1] == '~') return FREE; n = 0; for (int i = 1; i < 4; i++) n = n * 64 + t[i] - 63; p = 4; }
    if (n < 1) return FREE; return (long long)(t.size() - p) < (n * (n - 1) / 2 + 5) / 6 ? MUST : FREE;
}
static int mustRefuse(const std::string &t, bool str) {
    if (t.find('\0') != std::string::npos) return FREE; if (!t.compare(0, 2, "N=")) return mustList(t); if (!t.empty() && isdigit((unsigned char)t[0])) return mustMatrix(t);
    if (!t.compare(0, 10, "LEDA.GRAPH")) return str ? MUST : mustLeda(t); return mustG6(t);
}
static int lowestFd() { int f = open("/dev/null", O_RDONLY); close(f); return f; }
static void again(graphP g) { // the object can be used again
    int n = g->N; if (n < 0) fail("order %d after reading", n);
    if (n == 0) { n = 4; if (gp_InitGraph(g, n) != OK) fail("after a refused text gp_InitGraph failed"); } else gp_ReinitializeGraph(g);
    if (g->M != 0) fail("M=%d after initialization", g->M); if (n > 2000) return;
    for (int v = 2; v <= n; v++) if (gp_AddEdge(g, v - 1, 0, v, 0) != OK) fail("after reading, gp_AddEdge failed on the initialized object"); if (n > 2) gp_AddEdge(g, n, 0, 1, 0);
    int r = gp_Embed(g, EMBEDFLAGS_PLANAR); if (r != OK) fail("after reading, embedding a cycle on the initialized object returned %s", rname(r)); Rot q = extract(g); (void)q;
}
static int readerCount = 0;
static void oneText(const std::string &t, Ctx &c, bool draw = false) {
    std::string f = scratchFile(); putFile(f, t); bool nul = t.find('\0') != std::string::npos; static const char *es[] = {"file", "string", "file, drawing attached", "string, drawing attached", "file, initialized object", "string, initialized object"};
    uint64_t h = 0;
    for (int e = 0; e < 6; e++) {
        if ((e & 1) && nul) continue; if ((e >> 1) == 1 && !draw) continue; if ((e >> 1) == 2 && draw) continue;
        int fd = lowestFd(); Gp g; if (e == 2 || e == 3) if (gp_AttachDrawPlanar(g) != OK) fail("gp_AttachDrawPlanar failed"); if (e >= 4) { gp_InitGraph(g, 4); gp_AddEdge(g, 1, 0, 2, 0); gp_AddEdge(g, 2, 0, 3, 0); }
        int r = e & 1 ? gp_ReadFromString(g, heap(t)) : gp_Read(g, (char *)f.c_str()); c.eval(); h = h * 3 + r + 1;
        if (r != OK && r != NOTOK && r != NONEMBEDDABLE) fail("%s: reading returned %d", es[e], r);
        if (r == OK) { if (mustRefuse(t, e & 1)) fail("%s: a text that ends early or names vertices out of range was accepted as %s:\n%s", es[e], look(g).str().c_str(), vis(t).c_str()); if (g->N < 1) fail("%s: accepted with order %d:\n%s", es[e], g->N, vis(t).c_str()); Rot q = extract(g); long d = 0; for (int v = 1; v <= g->N; v++) d += q.nb[v].size(); if (d != 2l * g->M) fail("%s: %ld list entries for M=%d", es[e], d, g->M); for (int v = 1; v <= g->N; v++) for (int w : q.nb[v]) if (w == v) fail("a loop edge was kept"); }
        again(g); gp_Free(&g.g); int fd2 = lowestFd(); if (fd2 != fd) fail("%s: reading left a file open", es[e]);
    }
    if (t.compare(0, 2, "N=") && (t.empty() || !isdigit((unsigned char)t[0]))) for (int e = 0; e < 2; e++) if (!(e && nul)) { // stream reader
        int fd = lowestFd(); Gp g; G6ReadIterator *it = nullptr; if (allocateG6ReadIterator(&it, g) != OK) fail("allocateG6ReadIterator failed"); char *s = e ? heap(t) : nullptr; int r = e ? beginG6ReadIterationFromG6String(it, s) : beginG6ReadIterationFromG6FilePath(it, (char *)f.c_str()); if (e && !it->g6Input) free(s);
        int k = 0; if (r == OK) for (; k < 200; k++) { r = readGraphUsingG6ReadIterator(it); graphP p; getPointerToGraphReadIn(it, &p); if (r != OK || !p) break; if (!k && mustRefuse(t, e)) fail("the stream reader accepted a text that ends early:\n%s", vis(t).c_str()); Rot q = extract(p); (void)q; } else if (r != NOTOK) fail("beginning to read a stream returned %d", r);
        if (k >= 200) fail("the stream reader does not end"); h = h * 7 + k; c.eval(); endG6ReadIteration(it); freeG6ReadIterator(&it); again(g); gp_Free(&g.g); if (lowestFd() != fd) fail("the stream reader left a file open");
    }
    c.outcome(h * 31 + t.size());
}
// ---- texts
static std::string base(int k) {
    DG d; d.n = 4; d.l.resize(5); for (int v = 1; v <= 4; v++) for (int w = 1; w <= 4; w++) if (w != v) d.l[v].push_back({w, UND}); ES e = d.edges(); DG a; a.n = 3; a.l.resize(4); a.l[1] = {{2, OUT}}; a.l[2] = {{1, IN}, {3, UND}}; a.l[3] = {{2, UND}};
    switch (k) {
    case 0: return listText(d); case 1: d.zero = true; return listText(d); case 2: a.zero = true; return listText(a); case 3: return "N=1\n1: 0\n"; case 4: return "N=2\n0: 1 -1\n1: 0 -1\n";
    case 5: return matrixText(4, e); case 6: return "1\n"; case 7: return "3\n101\n"; case 8: return matrixText(3, {{1, 2}}, "\r\n", true);
    case 9: return ledaText(3, {{1, 2}, {3, 2}}); case 10: return ledaText(2, {{1, 2}}, "\r\n"); case 11: return ledaText(1, {});
    case 12: return g6Text(4, e); case 13: return ">>graph6<<" + g6Text(4, {{1, 4}}) + "\n"; case 14: return "@\n"; case 15: return g6Text(5, {{2, 3}}) + "\n" + g6Text(5, {{1, 5}}) + "\n"; case 16: return g6Text(63, {{1, 2}, {62, 63}}) + "\n"; case 17: return ">>graph6<<@"; case 18: return g6Text(8, {{1, 8}, {3, 4}}) + "\r\n" + g6Text(8, {}) + "\r\n";
    }
    // a written drawing
    static std::map<int, std::string> D; std::string &s = D[k]; if (!s.empty()) return s; int n = k == 19 ? 4 : k == 20 ? 2 : 1; Gp g; gp_AttachDrawPlanar(g); gp_InitGraph(g, n); for (int v = 2; v <= n; v++) for (int u = 1; u < v; u++) gp_AddEdge(g, u, 0, v, 0); if (k == 20) g->internalFlags |= FLAGS_ZEROBASEDIO; if (gp_Embed(g, EMBEDFLAGS_DRAWPLANAR) != OK) fail("drawing failed"); gp_SortVertices(g); return s = writeStr(g, WRITE_ADJLIST);
}
enum { NBASE = 22 };
static const char *extremes[] = {"-2147483649", "-2147483648", "-4294967297", "-4294967295", "-2", "-1", "0", "1", "2", "3", "4", "5", "7", "100", "70000", "1000001", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "4294967298", "4294967299", "4294967300", "18446744073709551615", "18446744073709551617", "18446744073709551618", "99999999999999999999999999", "", "-", "+1", "1e1", "0x2", "1.5", "x"};
static std::vector<std::pair<size_t, size_t>> numbers(const std::string &t) { std::vector<std::pair<size_t, size_t>> r; for (size_t i = 0; i < t.size();) if (isdigit((unsigned char)t[i]) || (t[i] == '-' && i + 1 < t.size() && isdigit((unsigned char)t[i + 1]))) { size_t j = i + 1; while (j < t.size() && isdigit((unsigned char)t[j])) j++; r.push_back({i, j - i}); i = j; } else i++; return r; }
static std::vector<std::string> edits(int k) {
    std::string t = base(k); std::vector<std::string> r; size_t n = t.size(); bool lng = n > 120;
    for (size_t i = 0; i <= n; i++) r.push_back(t.substr(0, i));
    for (size_t i = 0; i < n; i++) { r.push_back(t.substr(0, i) + t.substr(i + 1)); r.push_back(t.substr(0, i) + t[i] + t.substr(i)); if (i + 1 < n) { std::string s = t; std::swap(s[i], s[i + 1]); r.push_back(s); } }
    std::string few(" \t\n\r0129-+:|=N~?@>;&abZ\x7f\xff\x80", 26); few += '\0';
    for (size_t i = 0; i < n; i++) if (lng) for (char ch : few) { std::string s = t; s[i] = ch; r.push_back(s); } else for (int ch = 0; ch < 256; ch++) { std::string s = t; s[i] = (char)ch; r.push_back(s); }
    if (n < 400) for (size_t i = 0; i <= n; i++) for (char ch : few) r.push_back(t.substr(0, i) + ch + t.substr(i));
    auto N = numbers(t); for (auto &p : N) for (const char *x : extremes) r.push_back(t.substr(0, p.first) + x + t.substr(p.first + p.second));
    std::vector<std::string> L; { size_t i = 0; while (i < n) { size_t j = t.find('\n', i); j = j == std::string::npos ? n : j + 1; L.push_back(t.substr(i, j - i)); i = j; } }
    for (size_t i = 0; i < L.size(); i++) for (size_t j = 0; j <= L.size(); j++) { std::string s; for (size_t q = 0; q < L.size(); q++) if (j == L.size() ? q != i : true) s += L[j < L.size() && q == i ? j : q]; r.push_back(s); } // each line removed or replaced by another
    for (int o = 0; o < NBASE; o++) if (o != k) { std::string u = base(o); r.push_back(t + u); r.push_back(t.substr(0, n / 2) + u); r.push_back(t.substr(0, t.find('\n') + 1) + u.substr(u.find('\n') + 1)); }
    for (size_t len : {253u, 254u, 255u, 256u, 300u, 1000u, 70000u}) { r.push_back(t + std::string(len, ' ')); r.push_back(std::string(len, ' ') + t); r.push_back(std::string(len, '1')); r.push_back(std::string(len, '~')); r.push_back("N=" + std::string(len, '9')); r.push_back("N=" + std::string(len, ' ') + "2"); r.push_back(t.substr(0, n / 2) + std::string(len, ' ') + t.substr(n / 2)); r.push_back(t.substr(0, n / 2) + std::string(len, '7') + t.substr(n / 2)); }
    return r;
}
static void pairEdit(int k, uint64_t i, const std::string &al, Ctx &c) { std::string t = base(k); int n = (int)t.size(), a = (int)al.size(); int x = i % a, y = i / a % a; uint64_t q = i / a / a; int p = q / n, r = q % n; if (p >= r) { c.eval(); return; } t[p] = al[x]; t[r] = al[y]; oneText(t, c); }
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    vp::Check c("P21", "exploration", "every text of the families is given to gp_Read and gp_ReadFromString on new and initialized objects, with and without the drawing feature, and to the stream reader; texts an independent classifier finds cut short or out of range must be refused; afterwards the object is used again and open files are counted; an outcome is a distinct vector of answers");
    c.assumptions = {"address and undefined-behaviour sanitizers watch every access; requests above 200 MB fail", "texts outside the classifier's two classes may be accepted or refused"};
    auto strings = [&](const char *name, std::string pre, std::string al, int len, std::string post = "") { uint64_t k = 1; for (int i = 0; i < len; i++) k *= al.size(); auto get = [=](uint64_t i) { std::string s = pre; for (int j = 0; j < len; j++, i /= al.size()) s += al[i % al.size()]; return s + post; }; c.add(fmt("%s-length%d", name, len), k, [=](uint64_t i, Ctx &x) { oneText(get(i), x); }, [=](uint64_t i) { return vis(get(i)); }); };
    for (int k = 0; k < NBASE; k++) { auto E = std::make_shared<std::vector<std::string>>(edits(k)); c.add(fmt("edits-of-text%d", k), E->size(), [=](uint64_t i, Ctx &x) { oneText((*E)[i], x, k >= 19 || k == 0); }, [=](uint64_t i) { return vis((*E)[i]); }); }
    std::string A = "0123-: \n";
    for (int l = 0; l <= (th ? 6 : 4); l++) strings("list-of-2", "N=2\n", A, l); for (int l = 0; l <= (th ? 6 : 4); l++) strings("list-of-2-inside", "N=2\n1: 2 ", A, l); for (int l = 0; l <= (th ? 6 : 4); l++) strings("list-size", "N=", A, l); strings("zero-list", "N=2\n0: ", A, th ? 6 : 4, "-1\n1: -1\n");
    for (int l = 0; l <= (th ? 6 : 4); l++) { strings("matrix-of-3", "3\n", "012 \nx-", l); strings("matrix", "", "0123 \nx-", l); strings("matrix-tail", "2\n", "01 \n2x", l); }
    for (int l = 0; l <= (th ? 5 : 4); l++) strings("leda", "LEDA.GRAPH\nvoid\nvoid\n", "012 \n|-", l); for (int l = 0; l <= (th ? 6 : 4); l++) { strings("leda-edges", "LEDA.GRAPH\nvoid\nvoid\n2\n|{}|\n|{}|\n1\n", "0123 \n|-", l); strings("leda-nodes", "LEDA.GRAPH\nvoid\nvoid\n2\n", "012 \n|", l); }
    std::string all; for (int i = 0; i < 256; i++) all += (char)i; for (int l = 0; l <= 2; l++) strings("bytes", "", all, l); 
    std::string g6a = "~}|?@ABCD_\n\r >:&\x7f"; for (int l = 3; l <= (th ? 5 : 3); l++) strings("graph6", "", g6a, l); for (int l = 0; l <= (th ? 4 : 3); l++) { strings("graph6-large", "~", g6a, l); strings("graph6-header", ">>graph6<<", g6a, l); strings("graph6-second", "C~\n", g6a, l); } strings("header", ">>", "g>s6<", th ? 5 : 3); for (int l = 0; l <= 2; l++) strings("graph6-one-char-order", "~??", all, l);
    for (int k : th ? std::vector<int>{2, 3, 4, 7, 11, 12, 13, 14, 15} : std::vector<int>{3, 4, 7, 12}) { std::string al = k < 12 ? std::string("012-: \n\0", 8) : std::string("?@B~\n >\xff", 8); uint64_t n = base(k).size(); c.add(fmt("two-edits-of-text%d", k), n * n * 64, [=](uint64_t i, Ctx &x) { pairEdit(k, i, al, x); }, [=](uint64_t i) { return vis(base(k)) + fmt(" edit %llu", (unsigned long long)i); }); }
    c.budget = th ? 700 : 250; c.hangLimit = 25;
    return c.main(argc, argv);
}

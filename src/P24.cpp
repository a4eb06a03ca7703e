// P24: the command-line program, run inside this process (its main renamed) and as an executable.
#include "io.hpp"
#include "drawing.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <spawn.h>
extern "C" { int planarity_main(int, char **); extern char Mode; int TextFilesEqual(char *, char *); int BinaryFilesEqual(char *, char *); int TextFileMatchesString(char *, char *); void __real_srand(unsigned); }
static unsigned theSeed; extern "C" void __wrap_srand(unsigned) { __real_srand(theSeed); }
typedef std::vector<std::string> Args;
struct Ran { int st; std::string out, err; };
static std::string cmd(const Args &a) { std::string s = "planarity"; for (auto &x : a) s += " " + (x.empty() ? "''" : vis(x.substr(0, 300))); return s; }
static Ran runHere(const Args &a, const std::string *in) {
    Ran r; static const std::string none; if (!in) in = &none; std::string so = scratchFile() + "o", se = scratchFile() + "e", si = scratchFile() + "i"; fflush(stdout); fflush(stderr);
    int s0 = -1, s1 = dup(1), s2 = dup(2), f1 = open(so.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600), f2 = open(se.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(f1, 1); if (!getenv("VP_REPORT")) dup2(f2, 2); close(f1); close(f2);
    if (in) { putFile(si, *in); s0 = dup(0); int f0 = open(si.c_str(), O_RDONLY); dup2(f0, 0); close(f0); clearerr(stdin); fseek(stdin, 0, SEEK_SET); }
    setQuietModeSetting(FALSE); Mode = 'r';
    std::vector<std::vector<char>> st; std::vector<char *> av; st.reserve(a.size() + 1); auto put = [&](const std::string &x) { st.emplace_back(x.begin(), x.end()); st.back().push_back(0); av.push_back(st.back().data()); }; // exact allocations: reading past an argument is seen
    put("planarity"); for (auto &x : a) put(x); av.push_back(nullptr);
    r.st = planarity_main((int)a.size() + 1, av.data()) & 0xff;
    fflush(stdout); fflush(stderr); dup2(s1, 1); dup2(s2, 2); close(s1); close(s2); if (in) { dup2(s0, 0); close(s0); }
    r.out = getFile(so); r.err = getFile(se); return r;
}
static Ran runThere(const Args &a, const std::string *in, const std::string &cwd = "") { // the executable
    Ran r; static std::string exe; if (exe.empty()) { std::string d = getenv("VP_BUILDDIRS"); std::istringstream is(d); is >> d; char b[4096]; exe = std::string(getcwd(b, sizeof b)) + "/" + d + "/planarity"; }
    std::string so = scratchFile() + "o", se = scratchFile() + "e", si = scratchFile() + "i"; putFile(si, in ? *in : ""); std::vector<char *> av; av.push_back((char *)exe.c_str()); for (auto &x : a) av.push_back((char *)x.c_str()); av.push_back(nullptr);
    fflush(stdout); pid_t p = fork(); if (!p) { int fi = open(si.c_str(), O_RDONLY), fo = open(so.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600), fe = open(se.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fi, 0); dup2(fo, 1); dup2(fe, 2); alarm(30); if (!cwd.empty() && chdir(cwd.c_str())) _exit(99); execv(exe.c_str(), av.data()); _exit(98); }
    int w; while (waitpid(p, &w, 0) != p) { if (errno != EINTR) fail("waitpid failed"); } r.out = getFile(so); r.err = getFile(se); if (!WIFEXITED(w)) fail("%s: the program ended by signal %d%s\n%s", cmd(a).c_str(), WTERMSIG(w), WTERMSIG(w) == SIGALRM ? " (no end within 30 s)" : "", r.err.substr(0, 1500).c_str()); r.st = WEXITSTATUS(w); if (r.err.find("Sanitizer") != std::string::npos || r.err.find("runtime error") != std::string::npos) fail("%s: %s", cmd(a).c_str(), r.err.substr(0, 1500).c_str()); return r;
}
static bool exists(const std::string &f) { return access(f.c_str(), F_OK) == 0; }
// ---- input texts
enum { LIST1, LIST0, MATRIX, G6, LEDA, NFMT }; static const char *fmts[] = {"one-based list", "zero-based list", "matrix", "graph6", "LEDA"};
static std::string inputText(const G &x, int f) {
    if (f == MATRIX) return matrixText(x.n, edgeSet(x)); if (f == G6) return g6Text(x.n, edgeSet(x)) + "\n"; if (f == LEDA) { std::vector<std::pair<int, int>> e; for (auto &q : x.e) e.push_back({q.first + 1, q.second + 1}); return ledaText(x.n, e); }
    DG d; d.n = x.n; d.zero = f == LIST0; d.l.resize(x.n + 1); for (auto &q : x.e) { d.l[q.first + 1].push_back({q.second + 1, UND}); d.l[q.second + 1].push_back({q.first + 1, UND}); } return listText(d);
}
static bool hasFormat(const G &x, int f) { return f != LEDA || !x.e.empty(); }
static bool zeroBase(int f) { return f == LIST0 || f == G6; }
static bool verdict(char c, const G &x) { switch (c) { case 'p': case 'd': return orc::planar(x); case 'o': return orc::outerplanar(x); case '2': return !orc::hasK23(x); case '3': return !orc::hasK33(x); default: return !orc::hasK4(x); } }
static const char ALG[] = "pdo234";
// ---- meaning of an output text
static DG parseOut(const std::string &t, bool drawn, const std::string &w) { std::string s = t; size_t p = t.find("<DrawPlanar>"); if (p != std::string::npos) { if (!drawn) fail("%s: the output contains drawing data:\n%s", w.c_str(), vis(t).c_str()); s = t.substr(0, p); while (s.size() > 1 && s[s.size() - 1] == '\n' && s[s.size() - 2] == '\n') s.pop_back(); } DG d; if (!parseList(s, d)) fail("%s: the output is no adjacency list:\n%s", w.c_str(), vis(t).c_str()); return d; }
static void embeddingIn(const DG &d, int n, const ES &e, bool zero, bool outer, const std::string &w) {
    if (d.n != n || d.directed() || d.edges() != e) fail("%s: the output is no embedding of the input graph: %s", w.c_str(), d.str().c_str()); if (n > 0 && d.zero != zero) fail("%s: the output is numbered from %d, the input from %d", w.c_str(), !d.zero, !zero);
    std::map<std::pair<int, int>, int> pos; for (int v = 1; v <= n; v++) { std::set<int> s; for (size_t i = 0; i < d.l[v].size(); i++) { pos[{v, d.l[v][i].first}] = i; s.insert(d.l[v][i].first); } if (s.size() != d.l[v].size()) fail("%s: repeated neighbor in the output", w.c_str()); }
    std::vector<int> comp(n + 1, 0), size(1, 0); int comps = 0, isolated = 0, F = 0; for (int v = 1; v <= n; v++) if (!comp[v]) { comps++; size.push_back(0); std::vector<int> q{v}; comp[v] = comps; while (!q.empty()) { int x = q.back(); q.pop_back(); size[comps]++; for (auto &y : d.l[x]) if (!comp[y.first]) { comp[y.first] = comps; q.push_back(y.first); } } if (size[comps] == 1) isolated++; }
    std::vector<char> ok(comps + 1, 0); std::set<std::pair<int, int>> seen; for (auto &a : pos) if (!seen.count(a.first)) { F++; std::set<int> on; auto p = a.first; do { seen.insert(p); on.insert(p.second); auto &l = d.l[p.second]; p = {p.second, l[(pos[{p.second, p.first}] + 1) % l.size()].first}; } while (p != a.first); if ((int)on.size() == size[comp[a.first.first]]) ok[comp[a.first.first]] = 1; }
    if (n - (int)e.size() + F + isolated != 2 * comps) fail("%s: the order of the neighbors in the output is no planar embedding:\n%s", w.c_str(), d.str().c_str()); if (outer) for (int i = 1; i <= comps; i++) if (size[i] > 1 && !ok[i]) fail("%s: no face of the embedding meets all vertices:\n%s", w.c_str(), d.str().c_str());
}
static void obstructionIn(const DG &d, char c, int n, const ES &e, bool zero, const std::string &w) {
    if (d.n != n) fail("%s: %d vertices in the output", w.c_str(), d.n); if (d.zero != zero) fail("%s: the output is numbered from %d, the input from %d", w.c_str(), !d.zero, !zero); if (d.directed()) fail("%s: the output is no undirected graph:\n%s", w.c_str(), d.str().c_str());
    std::vector<std::pair<int, int>> v; for (auto &p : d.edges()) { if (!e.count(p)) fail("%s: edge %d-%d of the output is not in the input", w.c_str(), p.first, p.second); v.push_back({p.first - 1, p.second - 1}); }
    Kind k = subdivisionKind(n, v); bool ok = c == 'p' || c == 'd' ? k == KIND_K5 || k == KIND_K33 : c == 'o' ? k == KIND_K4 || k == KIND_K23 : k == (c == '2' ? KIND_K23 : c == '3' ? KIND_K33 : KIND_K4); if (!ok) fail("%s: the output is %s:\n%s", w.c_str(), kname(k), d.str().c_str());
}
struct Files { std::string I, O, O2; Files() { std::string b = scratchFile(); I = b + ".in"; O = b + ".out"; O2 = b + ".out2"; unlink(O.c_str()); unlink(O2.c_str()); } };
static const char *phrase(char c, bool ok) { switch (c) { case 'p': case 'd': return ok ? " is planar." : " is not planar."; case 'o': return ok ? " is outerplanar." : " is not outerplanar."; case '2': return ok ? " has no subgraph homeomorphic to K_{2,3}" : " has a subgraph homeomorphic to K_{2,3}"; case '3': return ok ? " has no subgraph homeomorphic to K_{3,3}" : " has a subgraph homeomorphic to K_{3,3}"; default: return ok ? " has no subgraph homeomorphic to K_4" : " has a subgraph homeomorphic to K_4"; } }
// what the library itself says, for the drawing
static void libraryDrawing(const std::string &text, std::string &list, std::string &art) { Gp g; if (readAny(g, text, 0) != OK || gp_AttachDrawPlanar(g) != OK || gp_Embed(g, EMBEDFLAGS_DRAWPLANAR) != OK || gp_SortVertices(g) != OK) fail("the library did not draw the graph"); char *s = nullptr; list = writeStr(g, WRITE_ADJLIST); if (gp_DrawPlanar_RenderToString(g, &s) != OK || !s) fail("gp_DrawPlanar_RenderToString failed"); art = s; free(s); }
static void quietly(const Ran &r, bool q, const std::string &w) { if (q && !(r.out + r.err).empty()) fail("%s: messages in quiet mode: %s", w.c_str(), vis(r.out + r.err).c_str()); }
static void checkOutputs(char c, const G &x, const ES &e, bool ok, bool zero, const std::string &text, const std::string *o, const std::string *o2, bool wantO, bool wantO2, const std::string &w) {
    if (!o != !wantO) fail("%s: the primary output was %s", w.c_str(), o ? "written" : "not written"); if (!o2 != !wantO2) fail("%s: the secondary output was %s", w.c_str(), o2 ? "written" : "not written");
    if (o) { DG d = parseOut(*o, c == 'd', w); if (ok) embeddingIn(d, x.n, e, zero, c == 'o', w); else obstructionIn(d, c, x.n, e, zero, w); }
    if (c == 'd' && ok) { std::string l, a; libraryDrawing(text, l, a); if (o && *o != l) fail("%s: the primary output differs from what the library writes:\n%s\n%s", w.c_str(), vis(*o).c_str(), vis(l).c_str()); if (o2 && *o2 != a) fail("%s: the secondary output differs from the library's drawing:\n%s\n%s", w.c_str(), vis(*o2).c_str(), vis(a).c_str()); }
    else if (o2) obstructionIn(parseOut(*o2, false, w), c, x.n, e, zero, w);
}
// planarity -s [-q] C I O [O2]
static void specific(char c, const G &x, int f, bool second, bool q, Ctx &ctx, bool there = false) {
    if (!hasFormat(x, f)) return; Files F; std::string text = inputText(x, f); putFile(F.I, text); ES e = edgeSet(x); Args a{"-s"}; if (q) a.push_back("-q"); a.push_back(std::string("-") + c); a.push_back(F.I); a.push_back(F.O); if (second) a.push_back(F.O2);
    std::string w = cmd(a) + " with the " + fmts[f] + " of " + x.str(); Ran r = there ? runThere(a, nullptr) : runHere(a, nullptr); ctx.eval(); bool ok = verdict(c, x); ctx.outcome(vp::mix(c, vp::mix(ok, x.n * 100 + x.e.size())));
    if (r.st != (ok ? 0 : 1)) fail("%s: exit status %d instead of %d; %s%s", w.c_str(), r.st, ok ? 0 : 1, r.out.c_str(), r.err.c_str()); quietly(r, q, w); if (!q && r.out.find(phrase(c, ok)) == std::string::npos) fail("%s: the message does not say that the graph%s: %s", w.c_str(), phrase(c, ok), vis(r.out).c_str());
    bool search = c >= '2' && c <= '4', wantO = search ? !ok : ok, wantO2 = second && ((c == 'd' && ok) || ((c == 'p' || c == 'o') && !ok)); std::string o, o2; bool ho = exists(F.O), h2 = exists(F.O2); if (ho) o = getFile(F.O); if (h2) o2 = getFile(F.O2);
    checkOutputs(c, x, e, ok, zeroBase(f), text, ho ? &o : nullptr, h2 ? &o2 : nullptr, wantO, wantO2, w);
    // "stdout" and "stdin" as names
    if (there && q) { Args b = a; for (auto &s : b) if (s == F.I) s = "stdin"; else if (s == F.O) s = "stdout"; unlink(F.O2.c_str()); Ran r2 = runThere(b, &text); ctx.eval(); if (r2.st != r.st) fail("%s: exit status %d, with stdin and stdout %d", w.c_str(), r.st, r2.st); if (ho && r2.out != o) fail("%s: another output on stdout: %s", w.c_str(), vis(r2.out).c_str()); if (!ho && !r2.out.empty()) fail("%s: output on stdout: %s", w.c_str(), vis(r2.out).c_str()); }
}
// planarity I O [-n O2]
static void legacy(const G &x, int f, bool second, Ctx &ctx) {
    if (!hasFormat(x, f)) return; Files F; std::string text = inputText(x, f); putFile(F.I, text); Args a{F.I, F.O}; if (second) { a.push_back("-n"); a.push_back(F.O2); } std::string w = cmd(a) + " with the " + fmts[f] + " of " + x.str(); Ran r = runHere(a, nullptr); ctx.eval(); bool ok = orc::planar(x);
    if (r.st != 0) fail("%s: exit status %d", w.c_str(), r.st); std::string o, o2; bool ho = exists(F.O), h2 = exists(F.O2); if (ho) o = getFile(F.O); if (h2) o2 = getFile(F.O2); checkOutputs('p', x, edgeSet(x), ok, zeroBase(f), text, ho ? &o : nullptr, h2 ? &o2 : nullptr, ok, second && !ok, w);
}
// planarity -x [-q] -(gam) I O
static void checkTransformed(const std::string &o, char t, const G &x, int f, const std::string &w) {
    ES e = edgeSet(x); if (t == 'g') { std::string want = g6Text(x.n, e); std::string s = o; if (s.compare(0, 10, ">>graph6<<") == 0) s = s.substr(10); while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); if (s != want) fail("%s: '%s' instead of '%s'", w.c_str(), vis(s).c_str(), want.c_str()); }
    else if (t == 'm') { int n; ES m; if (!parseMatrix(o, n, m) || n != x.n || m != e) fail("%s: the output is not the matrix of the graph:\n%s", w.c_str(), vis(o).c_str()); }
    else { DG d = parseOut(o, false, w); if (d.n != x.n || d.directed() || d.edges() != e || d.zero != zeroBase(f)) fail("%s: the output is not the adjacency list of the graph:\n%s", w.c_str(), vis(o).c_str()); }
}
static void transform(const G &x, int f, char t, bool q, Ctx &ctx, bool there = false) {
    if (!hasFormat(x, f)) return; Files F; putFile(F.I, inputText(x, f)); Args a{"-x"}; if (q) a.push_back("-q"); a.push_back(std::string("-") + t); a.push_back(F.I); a.push_back(F.O); std::string w = cmd(a) + " with the " + fmts[f] + " of " + x.str(); Ran r = there ? runThere(a, nullptr) : runHere(a, nullptr); ctx.eval(); ctx.outcome(vp::mix(t, vp::mix(f, x.n * 100 + x.e.size())));
    if (r.st != 0) fail("%s: exit status %d; %s", w.c_str(), r.st, r.err.c_str()); quietly(r, q, w); if (!exists(F.O)) fail("%s: no output", w.c_str()); checkTransformed(getFile(F.O), t, x, f, w);
    if (there && q) { Args b = a; for (auto &s : b) if (s == F.I) s = "stdin"; else if (s == F.O) s = "stdout"; std::string in = inputText(x, f); Ran r2 = runThere(b, &in); ctx.eval(); if (r2.st != 0 || r2.out != getFile(F.O)) fail("%s: another result with stdin and stdout: %d %s", w.c_str(), r2.st, vis(r2.out).c_str()); }
}
// planarity -t [-q] C I O
static std::string countLine(const std::string &o, const std::string &base, const std::string &w) { std::istringstream is(o); std::string a, b, c; if (!std::getline(is, a) || !std::getline(is, b) || std::getline(is, c)) fail("%s: the output does not have two lines: %s", w.c_str(), vis(o).c_str()); double d; std::string pre = "FILENAME=\"" + base + "\" DURATION=\""; if (a.compare(0, pre.size(), pre) || sscanf(a.c_str() + pre.size(), "%lf\"", &d) != 1) fail("%s: unexpected first line %s", w.c_str(), vis(a).c_str()); return b; }
static std::map<std::pair<char, std::string>, bool> verdicts; // of graphs met before, by graph6 line
static bool verdictOf(char c, const G &x) { auto k = std::make_pair(c, g6Text(x.n, edgeSet(x))); auto i = verdicts.find(k); if (i != verdicts.end()) return i->second; if (verdicts.size() > 200000) verdicts.clear(); return verdicts[k] = verdict(c, x); }
static void batch(char c, const GL &l, int shape, const std::string *bad, Ctx &ctx, bool there = false) { // bad: a last line that is no graph of that order
    Files F; std::string t = shape & 1 ? ">>graph6<<" : ""; const char *eol = shape & 4 ? "\r\n" : "\n"; int ok = 0, no = 0; for (size_t i = 0; i < l.size(); i++) { t += g6Text(l[i].n, edgeSet(l[i])); if (bad || i + 1 < l.size() || !(shape & 2)) t += eol; (verdictOf(c, l[i]) ? ok : no)++; } if (bad) t += *bad + "\n" + g6Text(l[0].n, edgeSet(l[0])) + "\n";
    putFile(F.I, t); bool q = shape & 8; Args a{"-t"}; if (q) a.push_back("-q"); a.push_back(std::string("-") + c); a.push_back(F.I); a.push_back(F.O); std::string w = cmd(a) + " on " + vis(t); Ran r = there ? runThere(a, nullptr) : runHere(a, nullptr); ctx.eval(); ctx.states++; ctx.trans += l.size(); ctx.outcome(vp::mix(c, vp::mix(ok, no)));
    if (r.st != (bad ? 255 : 0)) fail("%s: exit status %d; %s", w.c_str(), r.st, r.err.c_str()); quietly(r, q, w); if (!exists(F.O)) fail("%s: no output", w.c_str()); std::string base = F.I.substr(F.I.rfind('/') + 1), want = fmt("-%c %d %d %d %s", c, ok + no, ok, no, bad ? "ERROR" : "SUCCESS"), got = countLine(getFile(F.O), base, w); if (got != want) fail("%s: the result is '%s' instead of '%s'", w.c_str(), vis(got).c_str(), want.c_str());
}
// ---- refused command lines
static void refuse(const Args &a, Ctx &ctx, int status = 255) { Ran r = runHere(a, nullptr); ctx.eval(); if (r.st != status) fail("%s: exit status %d instead of %d; %s%s", cmd(a).c_str(), r.st, status, vis(r.out).c_str(), vis(r.err).c_str()); bool q = a.size() > 1 && a[1] == "-q"; quietly(r, q, cmd(a)); ctx.outcome(vp::mix(a.size(), a.empty() ? 0 : a[0].size())); }
static std::vector<Args> wellFormed(const Files &F, bool q) { std::vector<Args> v; auto add = [&](Args a) { if (q && a[0][0] == '-') a.insert(a.begin() + 1, "-q"); v.push_back(a); }; for (char c : std::string(ALG)) { std::string C = std::string("-") + c; add({"-s", C, F.I, F.O}); add({"-s", C, F.I, F.O, F.O2}); add({"-t", C, F.I, F.O}); add({"-r", C, "2", "5"}); } for (const char *t : {"-g", "-a", "-m"}) add({"-x", t, F.I, F.O}); add({"-rm", "6", F.O}); add({"-rn", "6", F.O}); add({"-rm", "6", F.O, F.O2}); add({"-rn", "6", F.O, F.O2}); if (!q) { add({F.I, F.O}); add({F.I, F.O, "-n", F.O2}); } return v; }
static void missing(uint64_t i, Ctx &ctx) { // every well-formed command line with its last arguments missing
    Files F; putFile(F.I, inputText(cyc(5), G6)); for (bool q : {false, true}) { auto W = wellFormed(F, q); if (i >= W.size()) return; auto a = W[i]; if (a[0][0] != '-') return; size_t req = a.size(); if (a.back() == F.O2) req--; for (size_t k = 1; k < req; k++) refuse(Args(a.begin(), a.begin() + k), ctx); Ran r = runHere(a, nullptr); ctx.eval(); if (r.st != 0 && r.st != 1) fail("%s: exit status %d", cmd(a).c_str(), r.st); }
}
static void letters(uint64_t i, Ctx &ctx) { // every character as the command
    Files F; G x = i & 1 ? cyc(5) : complete(5); putFile(F.I, inputText(x, G6)); int ch = (int)(i / 2) % 256; for (int form = 0; form < 4; form++) for (bool q : {false, true}) for (const char *op : {"-s", "-t", "-r", "-x"}) {
        std::string C = form == 0 ? std::string(1, (char)ch) : form == 1 ? std::string("-") + (char)ch : form == 2 ? std::string("-") : std::string(""); if (form > 1 && ch) continue; if (!ch && form < 2) continue; bool valid = form == 1 && strchr(op[1] == 'x' ? "gam" : ALG, ch); if (form == 1 && ch == 'q' && !q) continue;
        Args a{op}; if (q) a.push_back("-q"); a.push_back(C); if (op[1] == 'r') { a.push_back("2"); a.push_back("5"); } else { a.push_back(F.I); a.push_back(F.O); } if (valid) { Ran r = runHere(a, nullptr); ctx.eval(); if (r.st == 255 || (op[1] != 's' && r.st)) fail("%s: exit status %d", cmd(a).c_str(), r.st); } else refuse(a, ctx); }
    if (i < 2) for (const char *o : {"-", "-z", "-S", "--", "-p", "-sx", "-rx"}) { refuse({o}, ctx); refuse({o, "-p", F.I, F.O}, ctx); refuse({o, "-q", "-p", F.I, F.O}, ctx); }
}
static void noFile(uint64_t i, Ctx &ctx) { // input missing, outputs that cannot be written
    std::string gone = vp::scratchDir() + "/gone/x"; for (int which = 0; which < 3; which++) for (int g = 0; g < 2; g++) for (bool q : {false, true}) { Files F; G x = g ? complete(5) : cyc(5); putFile(F.I, inputText(x, G6)); Files R = F; if (which == 0) F.I = gone; if (which == 1) F.O = gone; if (which == 2) F.O2 = gone; auto W = wellFormed(F, q); if (i >= W.size()) return; auto a = W[i]; if (std::find(a.begin(), a.end(), gone) == a.end()) continue; bool old = a[0][0] != '-'; bool rnd = a[0] == "-rm" || a[0] == "-rn";
        char c = old ? 'p' : a[q ? 2 : 1][1]; bool ok = rnd || old ? true : verdict(c, x); if (old) ok = orc::planar(x); bool touched = which == 0 || a[0] == "-t" || a[0] == "-x" || rnd; if (!touched) { bool search = c >= '2' && c <= '4'; if (which == 1) touched = search ? !ok : ok; else touched = (c == 'd' && ok) || ((c == 'p' || c == 'o') && !ok); }
        theSeed = 1; if (touched) refuse(a, ctx, old ? 254 : 255); else { Ran r = runHere(a, nullptr); ctx.eval(); int want = old ? 0 : ok ? 0 : 1; if (r.st != want) fail("%s: exit status %d instead of %d", cmd(a).c_str(), r.st, want); } }
}
static const std::vector<std::string> &badTexts() { static std::vector<std::string> v{"", "\n", "N=", "N=0\n", "N=3\n1: 2", "N=3\n1: 4 0\n2: 0\n3: 0\n", "N=-1\n", "3\n01", "0\n", "Z", "D", "Bw?x", "LEDA.GRAPH\n", "LEDA.GRAPH\nvoid\nvoid\n2\n", "garbage\n", "\x7f\x7f\n", "~~\n", "N=99999999999\n"}; return v; }
static void badInput(uint64_t i, Ctx &ctx) { const std::string &t = badTexts()[i]; for (bool q : {false, true}) { Files F; putFile(F.I, t); for (auto &a : wellFormed(F, q)) { if (std::find(a.begin(), a.end(), F.I) == a.end()) continue; std::string f2 = a.size() > 1 ? a[0] : ""; refuse(a, ctx, a[0][0] != '-' ? 254 : 255); if (a[0] != "-t" && exists(F.O)) fail("%s: an output was written for a malformed input %s", cmd(a).c_str(), vis(t).c_str()); unlink(F.O.c_str()); } } }
static std::string longName(const std::string &f, size_t len) { size_t p = f.rfind('/'); std::string s = f.substr(0, p + 1); while (s.size() + f.size() - p - 1 + 2 <= len) s += "./"; while (s.size() + f.size() - p - 1 + 1 <= len) s += "/"; return s + f.substr(p + 1); }
static void longNames(uint64_t i, Ctx &ctx) { // names of every length, of files that exist or not
    size_t len = 60 + (i % 120) * (i / 120 ? 33 : 1); if (len > 4000) return; Files F; G x = cyc(5); putFile(F.I, inputText(x, G6)); std::string I = longName(F.I, len), O = longName(F.O, len), gone = longName(vp::scratchDir() + "/gone", len); ctx.outcome(len);
    for (bool q : {false, true}) { auto mk = [&](Args a) { if (q) a.insert(a.begin() + 1, "-q"); return a; };
        for (const char *C : {"-p", "-3"}) { Ran r = runHere(mk({"-t", C, I, F.O}), nullptr); ctx.eval(); if (r.st) fail("-t with a file name of %zu characters: exit status %d", len, r.st); r = runHere(mk({"-t", C, F.I, O}), nullptr); ctx.eval(); if (r.st) fail("-t with an output file name of %zu characters: exit status %d", len, r.st); refuse(mk({"-t", C, gone, F.O}), ctx); refuse(mk({"-t", C, F.I, longName(vp::scratchDir() + "/gone/x", len)}), ctx); }
        { Ran r = runHere(mk({"-x", "-a", I, O}), nullptr); ctx.eval(); if (r.st) fail("-x with file names of %zu characters: exit status %d", len, r.st); refuse(mk({"-x", "-a", gone, O}), ctx); refuse(mk({"-x", "-a", I, longName(vp::scratchDir() + "/gone/x", len)}), ctx); }
        { Ran r = runHere(mk({"-s", "-p", I, F.O}), nullptr); ctx.eval(); if (r.st != 0 && r.st != 255) fail("-s with a file name of %zu characters: exit status %d", len, r.st); if (len <= 100 && r.st) fail("-s with a file name of %zu characters was refused", len); refuse(mk({"-s", "-p", gone, F.O}), ctx); }
        if (len <= 128) { unlink(F.O.c_str()); Ran r = runHere(mk({"-s", "-p", F.I, O, F.O2}), nullptr); ctx.eval(); if (r.st || !exists(F.O)) fail("-s with an output file name of %zu characters: exit status %d", len, r.st); }
        theSeed = 3; unlink(F.O.c_str()); Ran r = runHere(mk({"-rm", "6", O}), nullptr); ctx.eval(); if (r.st || !exists(F.O)) fail("-rm with a file name of %zu characters: exit status %d", len, r.st); }
    Ran r = runHere({I, O}, nullptr); ctx.eval(); if (r.st) fail("file names of %zu characters: exit status %d", len, r.st); refuse({gone, O}, ctx, 254);
}
// ---- random graphs
static G toG(const DG &d) { G x(d.n); for (auto &p : d.edges()) x.add(p.first - 1, p.second - 1); return x; }
static void random1(uint64_t i, Ctx &ctx) { // -rm, -rn
    bool rn = i & 1, second = i & 2, q = i & 4; i /= 8; int n = 1 + i % 11; theSeed = i / 11; Files F; Args a{rn ? "-rn" : "-rm"}; if (q) a.push_back("-q"); a.push_back(fmt("%d", n)); a.push_back(F.O); if (second) a.push_back(F.O2); std::string w = cmd(a) + fmt(" (seed %u)", theSeed), none = "n\n"; Ran r = runHere(a, &none); ctx.eval();
    if (r.st != 0 && !(rn && r.st == 1)) fail("%s: exit status %d; %s", w.c_str(), r.st, r.err.c_str()); quietly(r, q, w); if (!exists(F.O)) fail("%s: no output", w.c_str()); DG d = parseOut(getFile(F.O), false, w); if (d.n != n) fail("%s: %d vertices", w.c_str(), d.n); int mp = n < 3 ? n - 1 : 3 * n - 6, all = n * (n - 1) / 2, want = std::min(all, mp + (rn && n >= 3 ? 1 : 0));
    if (exists(F.O2) != second) fail("%s: the generated graph was %s", w.c_str(), second ? "not written" : "written"); G x = toG(d); if (second) { DG o = parseOut(getFile(F.O2), false, w); x = toG(o); if (o.n != n || (int)x.e.size() != want) fail("%s: the generated graph has %zu edges instead of %d", w.c_str(), x.e.size(), want); }
    bool planar = want == mp; ctx.outcome(vp::mix(n, vp::mix(theSeed, rn))); if (planar) { if ((int)d.edges().size() != want) fail("%s: %zu edges", w.c_str(), d.edges().size()); embeddingIn(d, n, edgeSet(x), d.zero, false, w); } else { if (n > 4 && orc::planar(x)) fail("%s: the graph is planar", w.c_str()); obstructionIn(d, 'p', n, edgeSet(x), d.zero, w); }
    if (!q && r.out.find(planar ? " is planar." : " is not planar.") == std::string::npos) fail("%s: the message does not say that the graph is%s planar: %s", w.c_str(), planar ? "" : " not", vis(r.out).c_str());
}
static void savedList(uint64_t i, Ctx &ctx) { // the edge lists that are offered after a random graph
    bool rn = i & 1; int ans = i / 2 % 4; i /= 8; int n = 1 + i % 8; theSeed = i / 8; std::string d = vp::scratchDir() + fmt("/e%d", (int)getpid()), list = d + (rn ? "/nonPlanarEdgeList.txt" : "/maxPlanarEdgeList.txt"), list2 = list + ".out.txt"; mkdir(d.c_str(), 0700); unlink(list.c_str()); unlink(list2.c_str()); Files F; char cw[4096]; getcwd(cw, sizeof cw); if (chdir(d.c_str())) fail("chdir failed");
    std::string in = ans == 0 ? "y\n" : ans == 1 ? "n\n" : ans == 2 ? "" : "Y\n"; Args a{rn ? "-rn" : "-rm", fmt("%d", n), F.O, F.O2}; Ran r = runHere(a, &in); if (chdir(cw)) fail("chdir failed"); ctx.eval(); std::string w = cmd(a) + fmt(" (seed %u), answer '%s'", theSeed, vis(in).c_str()); bool yes = ans == 0 || ans == 3; ctx.outcome(vp::mix(yes, vp::mix(n, theSeed)));
    if (r.st != 0 && !(rn && r.st == 1)) fail("%s: exit status %d", w.c_str(), r.st); if (exists(list) != yes || exists(list2) != yes) fail("%s: the edge lists were %s", w.c_str(), exists(list) ? "written" : "not written"); if (!yes) return;
    for (int k = 0; k < 2; k++) { std::istringstream is(getFile(k ? list2 : list)); std::string name; std::getline(is, name); int u, v; ES e; while (is >> u >> v && (u || v)) { if (u < 1 || v < 1 || u > n || v > n || u == v || !e.insert({std::min(u, v), std::max(u, v)}).second) fail("%s: bad edge %d-%d in the list", w.c_str(), u, v); } ES want = parseOut(getFile(k ? F.O : F.O2), false, w).edges(); if (e != want || name != (k ? list2 : list).substr(d.size() + 1)) fail("%s: the edge list of the %s graph differs from its adjacency list", w.c_str(), k ? "resulting" : "generated"); }
}
static void randoms(uint64_t i, Ctx &ctx) { // -r C K N: the counts that are printed
    char c = ALG[i % 6]; i /= 6; int n = 1 + i % 8; i /= 8; int K = 1 + i % 4; theSeed = i / 4; Args a{"-r", std::string("-") + c, fmt("%d", K), fmt("%d", n)}; std::string w = cmd(a) + fmt(" (seed %u)", theSeed); Ran r = runHere(a, nullptr); ctx.eval(); if (r.st != 0) fail("%s: exit status %d; %s", w.c_str(), r.st, r.err.c_str());
    int ok = 0; { __real_srand(theSeed); Gp g; if (gp_InitGraph(g, n) != OK) fail("gp_InitGraph failed"); for (int k = 0; k < K; k++) { if (gp_CreateRandomGraph(g) != OK) fail("gp_CreateRandomGraph failed"); Rot t = extract(g); G x(n); for (auto &p : edgeSet(t)) x.add(p.first - 1, p.second - 1); if (verdict(c, x)) ok++; gp_ReinitializeGraph(g); } }
    const char *f = c == 'd' ? "Drawn=%d." : c == 'p' || c == 'o' ? "Num Embedded=%d." : "generated graphs, %d did not contain"; if (r.out.find(fmt(f, ok)) == std::string::npos) fail("%s: %d of %d graphs expected to be embeddable, but the program says: %s", w.c_str(), ok, K, vis(r.out).c_str()); ctx.outcome(vp::mix(c, vp::mix(n, ok * 8 + K)));
    a.insert(a.begin() + 1, "-q"); Ran s = runHere(a, nullptr); ctx.eval(); if (s.st != 0) fail("%s: exit status %d with -q", w.c_str(), s.st); quietly(s, true, cmd(a));
}
// ---- the menu
static void menu1(uint64_t i, const GL &l, Ctx &ctx, bool there) { // one algorithm on one graph
    char c = ALG[i % 6]; i /= 6; int f = i % NFMT; i /= NFMT; const G &x = l[i % l.size()]; if (!hasFormat(x, f)) return; Files F; std::string text = inputText(x, f); putFile(F.I, text); const char *nm = c == 'p' ? "PlanarEmbed" : c == 'd' ? "DrawPlanar" : c == 'o' ? "OuterplanarEmbed" : c == '2' ? "K23Search" : c == '3' ? "K33Search" : "K4Search"; std::string O = F.I + "." + nm + ".out.txt", O2 = O + ".render.txt"; unlink(O.c_str()); unlink(O2.c_str());
    std::string in = fmt("r\ns\n%c\n%s\nx\nq\n", c >= 'a' ? toupper(c) : c, F.I.c_str()); Ran r = there ? runThere({}, &in) : runHere({}, &in); ctx.eval(); std::string w = "menu with input " + vis(in) + " on " + x.str(); bool ok = verdict(c, x); if (r.st != 0) fail("%s: exit status %d", w.c_str(), r.st); if (r.out.find(phrase(c, ok)) == std::string::npos) fail("%s: no message that the graph%s", w.c_str(), phrase(c, ok));
    bool search = c >= '2' && c <= '4', ho = exists(O), h2 = exists(O2); std::string o, o2; if (ho) o = getFile(O); if (h2) o2 = getFile(O2); ES e = edgeSet(x); checkOutputs(c, x, e, ok, zeroBase(f), text, ho ? &o : nullptr, h2 ? &o2 : nullptr, search ? !ok : c == 'd' ? ok : true, c == 'd' && ok, w); ctx.outcome(vp::mix(c, ok)); unlink(O.c_str()); unlink(O2.c_str());
}
static void menu2(uint64_t i, const GL &l, Ctx &ctx, bool there) { // transformation and batch test, to a file or the console
    int what = i % 9; i /= 9; bool file = i & 1; i /= 2; int f = i % NFMT; i /= NFMT; const G &x = l[i % l.size()]; if (!hasFormat(x, f)) return; if (what >= 3 && f != G6) return; Files F; putFile(F.I, inputText(x, f)); char c = what < 3 ? "gam"[what] : ALG[what - 3];
    std::string in = fmt("%c\n%s\n%s\n%c\nx\nQ\n", what < 3 ? 'x' : 'T', F.I.c_str(), file ? F.O.c_str() : "", c); Ran r = there ? runThere({}, &in) : runHere({}, &in); ctx.eval(); std::string w = "menu with input " + vis(in) + " on " + x.str(); if (r.st != 0) fail("%s: exit status %d", w.c_str(), r.st); ctx.outcome(vp::mix(what, file)); std::string o;
    if (file) { if (!exists(F.O)) fail("%s: no output; %s", w.c_str(), vis(r.err).c_str()); o = getFile(F.O); } else { size_t p = r.out.find("Output:\n"); if (p == std::string::npos) fail("%s: no output on the console; %s", w.c_str(), vis(r.err).c_str()); o = r.out.substr(p + 8); p = o.find("\nPress a key"); if (p != std::string::npos) o = o.substr(0, p); while (o.size() > 1 && o.back() == '\n' && o[o.size() - 2] == '\n') o.pop_back(); }
    if (what < 3) { if (!file && o.size() && o.back() != '\n') o += "\n"; checkTransformed(o, c, x, f, w); } else { std::string got = countLine(o, F.I.substr(F.I.rfind('/') + 1), w); bool ok = verdict(c, x); std::string want = fmt("-%c 1 %d %d SUCCESS", c, ok, !ok); if (got != want) fail("%s: '%s' instead of '%s'", w.c_str(), vis(got).c_str(), want.c_str()); }
}
static void menuEnds(uint64_t i, Ctx &ctx) { // the input ends anywhere
    Files F; putFile(F.I, inputText(cyc(4), G6)); static const char *scripts[] = {"r\ns\np\n%s\nx\nq\n", "x\n%s\n\na\nx\nq\n", "t\n%s\n\np\nx\nq\n", "h\nx\nq\n", "z\nx\nq\n", "x\nstdin\n%s\n\ng\nx\nq\n"}; std::string in = fmt(scripts[i % 6], F.I.c_str()); size_t cut = i / 6; if (cut >= in.size()) return; in = in.substr(0, cut); Ran r = runThere({}, &in, vp::scratchDir()); ctx.eval(); ctx.outcome(i); if (r.st != 0) fail("menu with input %s: exit status %d", vis(in).c_str(), r.st);
}
static void menuLong(uint64_t i, Ctx &ctx) { size_t len = 100 + i; Files F; putFile(F.I, inputText(cyc(4), G6)); std::string in = fmt("r\ns\np\n%s\nx\nq\n", longName(vp::scratchDir() + "/gone.x", len).c_str()); Ran r = runHere({}, &in); ctx.eval(); if (r.st) fail("menu with a file name of %zu characters: exit status %d", len, r.st); in = fmt("x\n%s\n%s\na\nx\nt\n%s\n\np\nx\nq\n", longName(F.I, len).c_str(), longName(F.O, len).c_str(), longName(F.I, len).c_str()); r = runHere({}, &in); ctx.eval(); if (r.st) fail("menu: exit status %d", r.st); if (len <= 1000 && (!exists(F.O) || r.out.find("-p 1 1 0 SUCCESS") == std::string::npos)) fail("menu: with file names of %zu characters nothing was done", len); ctx.outcome(len); }
// ---- the self test
static std::string samplesFrom() { const char *r = getenv("VP_REPO"); return std::string(r ? r : "/repo") + "/c/samples"; }
static std::vector<std::string> &sampleNames() { static std::vector<std::string> v; if (v.empty()) { std::vector<std::string> all; FILE *p = popen(("ls " + samplesFrom()).c_str(), "r"); char b[512]; while (fgets(b, sizeof b, p)) { b[strcspn(b, "\n")] = 0; all.push_back(b); } pclose(p); for (auto &s : all) if (s.find("Makefile") == std::string::npos && s.find("ColorVertices") == std::string::npos) v.push_back(s); } return v; }
static std::string sampleDir() { std::string d = vp::scratchDir() + fmt("/s%d", (int)getpid()); if (!exists(d)) { mkdir(d.c_str(), 0700); for (auto &s : sampleNames()) putFile(d + "/" + s, getFile(samplesFrom() + "/" + s)); } return d; }
struct Mut { std::string file; int kind; size_t at; };
static void selfTest(const Mut &m, Ctx &ctx) {
    std::string d = sampleDir(), f = d + "/" + m.file, t = getFile(f), u = t; char b0[4096]; std::string cwd = getcwd(b0, sizeof b0); switch (m.kind) { case 0: break; case 1: u = t.substr(0, m.at) + (char)(t[m.at] == '7' ? '8' : '7') + t.substr(m.at + 1); break; case 2: u = t.substr(0, m.at); break; case 3: u = t + "9"; break; case 4: u = t + "\n"; break; case 6: { std::string c; for (char ch : t) if (ch != '\r') { if (ch == '\n') c += '\r'; c += ch; } u = c; } break; case 7: u = t + "12"; break; }
    if (m.kind == 5) unlink(f.c_str()); else putFile(f, u); Ran r = runHere({"-test", d}, nullptr), q = runHere({"-test", "-q", d}, nullptr); ctx.eval(); ctx.eval(); putFile(f, t); bool bad = m.kind != 0 && m.kind != 6; ctx.outcome(vp::mix(m.kind, m.at)); char b1[4096]; if (cwd != getcwd(b1, sizeof b1)) fail("the working directory changed");
    if ((r.st != 0) != bad || (bad && r.st != 255)) fail("self test with %s changed (kind %d at %zu): exit status %d", m.file.c_str(), m.kind, m.at, r.st); if (q.st != r.st) fail("self test in quiet mode: exit status %d instead of %d", q.st, r.st); quietly(q, true, "self test"); bool said = r.out.find("Tests of all specific graphs succeeded") != std::string::npos; if (said == bad) fail("self test with %s changed: the message is wrong", m.file.c_str());
}
static void equality(uint64_t i, Ctx &ctx) { // comparison of files
    static const char al[] = "ab\r\n"; auto str = [](uint64_t &i) { int len = i % 4; i /= 4; std::string s; for (int k = 0; k < len; k++) { s += al[i % 4]; i /= 4; } if (i) { } return s; }; uint64_t x = i % 340, y = i / 340; auto dec = [&](uint64_t k) { std::string s; k++; while (k > 0) { k--; s += al[k % 4]; k /= 4; } return s; }; (void)str; std::string s = x ? dec(x - 1) : "", t = y ? dec(y - 1) : ""; Files F; putFile(F.I, s); putFile(F.O, t);
    auto strip = [](std::string z) { z.erase(std::remove(z.begin(), z.end(), '\r'), z.end()); return z; }; bool eq = strip(s) == strip(t); ctx.eval(3); ctx.outcome(vp::mix(eq, s == t)); if (!!TextFilesEqual((char *)F.I.c_str(), (char *)F.O.c_str()) != eq) fail("TextFilesEqual: wrong answer for %s and %s", vis(s).c_str(), vis(t).c_str()); if (!!BinaryFilesEqual((char *)F.I.c_str(), (char *)F.O.c_str()) != (s == t)) fail("BinaryFilesEqual: wrong answer for %s and %s", vis(s).c_str(), vis(t).c_str()); char *h = heap(t); if (!!TextFileMatchesString((char *)F.I.c_str(), h) != eq) fail("TextFileMatchesString: wrong answer for %s and %s", vis(s).c_str(), vis(t).c_str()); free(h);
}
static G fromMask1(int n, uint64_t m) { G x(n); for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) { if (m & 1) x.add(u, v); m >>= 1; } return x; }
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    vp::Check c("P24", "model_checking", "every command line of the enumerated space is executed by the program itself, inside the process with its main renamed and for a part as an executable; exit status, messages and output files are compared with independent parsers, oracles and the library; a state is one file given to the batch test, a transition one graph in it; an outcome is a distinct case of input and answer");
    c.assumptions = {"rand() is seeded by the check instead of the clock", "address and undefined-behaviour sanitizers watch the program", "independent oracles for planarity, outerplanarity and the obstructions", "standard input of the menu is a file"};
    for (char a : std::string(ALG)) {
        c.add(fmt("specific-%c-labelled", a), 1099 * NFMT * 4, [=](uint64_t i, Ctx &x) { uint64_t k = i / (NFMT * 4), n = 1, b = k; while (b >= (1ull << n * (n - 1) / 2)) b -= 1ull << n * (n - 1) / 2, n++; if (!th && n == 5 && (i / NFMT) % 4 != k % 4) return; specific(a, fromMask1(n, b), i % NFMT, i / NFMT & 1, i / NFMT & 2, x); }, [=](uint64_t i) { return fmt("case %d", (int)i); });
        for (int n = 6; n <= (th ? 8 : 7); n++) { auto s = std::make_shared<GengStore>(gengStore(n)); auto F = famGeng("", s, presRot(n, 1)); auto get = F.get; uint64_t st = th ? 1 : n == 6 ? 1 : 3; c.add(fmt("specific-%c-order%d", a, n), F.count / st, [=](uint64_t i, Ctx &x) { int lk = 0; G g = get(i * st + i % st, lk); specific(a, g, i % NFMT, i / 2 & 1, i & 1, x); }, [=](uint64_t i) { int lk = 0; return get(i * st + i % st, lk).str(); }); }
        auto big = std::make_shared<GL>(GL{petersen(), grid(4, 4), antiprism(6), wheel(13), bip(2, 11), circ(13, {1, 2}), prism(7), bip(3, 3), complete(8), bip(4, 5), disjoint(complete(5), cyc(4)), disjoint(grid(3, 3), bip(3, 3)), plusEdge(grid(4, 4), 0, 15), G(12), path(15), moebius(6)});
        c.add(fmt("specific-%c-larger", a), big->size() * NFMT * 4, [=](uint64_t i, Ctx &x) { specific(a, (*big)[i / (NFMT * 4)], i % NFMT, i / NFMT & 1, i / NFMT & 2, x); }, [=](uint64_t i) { return (*big)[i / (NFMT * 4)].str(); });
        c.add(fmt("executable-%c", a), 75 * NFMT * 2, [=](uint64_t i, Ctx &x) { uint64_t k = i / (NFMT * 2); G g = k < 64 ? fromMask1(4, k) : k < 72 ? fromMask1(3, k - 64) : k == 72 ? complete(5) : k == 73 ? bip(3, 3) : petersen(); specific(a, g, i % NFMT, true, !(i / NFMT & 1), x, true); }, [=](uint64_t i) { return fmt("case %d", (int)i); });
        // batches
        for (int n = 1; n <= 5; n++) { auto P = std::make_shared<GL>(); if (n <= 3) for (uint64_t m = 0; m < (1ull << n * (n - 1) / 2); m++) P->push_back(fromMask1(n, m)); else { GL q = geng(n); for (auto &g : q) P->push_back(shift(g, 1)); } int depth = n == 1 ? 5 : n == 2 ? 5 : n == 5 ? 2 : 3; uint64_t cnt = 0, pw = 1; for (int k = 1; k <= depth; k++) cnt += pw *= P->size();
            c.add(fmt("batch-%c-order%d", a, n), cnt * (n < 3 ? 16 : 2), [=](uint64_t i, Ctx &x) { int shape = n < 3 ? i % 16 : (int)(i % 2 ? i * 5 % 16 : i * 3 % 16); i /= n < 3 ? 16 : 2; uint64_t b = i, s = P->size(); int k = 1; uint64_t p = s; while (b >= p) b -= p, p *= s, k++; GL l; while (k--) { l.push_back((*P)[b % s]); b /= s; } batch(a, l, shape, nullptr, x); }, [=](uint64_t i) { return fmt("case %d", (int)i); }); }
        for (int n = 6; n <= (th ? 9 : 8); n++) { auto s = std::make_shared<GengStore>(gengStore(n)); auto F = famGeng("", s, {{1, 0, 0, 0}, {1, n / 2, 0, 0}}); auto get = F.get; uint64_t tot = F.count, per = n == 6 ? 12 : n == 7 ? 100 : 700; if (!th && n == 8 && a != 'd' && a != '3') continue; c.add(fmt("batch-%c-order%d", a, n), (tot + per - 1) / per, [=](uint64_t i, Ctx &x) { GL l; for (uint64_t k = i * per; k < std::min(tot, (i + 1) * per); k++) { int lk = 0; l.push_back(get(k, lk)); } batch(a, l, i * 5 % 16, nullptr, x); }, [=](uint64_t i) { return fmt("file %d", (int)i); }); }
        { auto L = std::make_shared<GL>(geng(4)); static const std::vector<std::string> bad{"C", "D??", "Ct?", "C>", "C\x7f", "B?", "D?{", "~", "Cz ", " C?"}; c.add(fmt("batch-with-bad-line-%c", a), bad.size() * 11 * 4, [=](uint64_t i, Ctx &x) { std::string b = bad[i % bad.size()]; i /= bad.size(); GL l; for (uint64_t k = 0; k <= i % 11; k++) l.push_back((*L)[(k * 3 + i) % 11]); batch(a, l, (i / 11) * 5 % 16 & ~2, &b, x); }, [=](uint64_t i) { return fmt("case %d", (int)i); }); }
        c.add(fmt("executable-batch-%c", a), 32, [=](uint64_t i, Ctx &x) { GL l = geng(i & 1 ? 5 : 6); if (i & 16) l = {G(1)}; batch(a, l, i / 2 % 8 * 2, nullptr, x, true); }, [=](uint64_t i) { return fmt("case %d", (int)i); });
    }
    c.add("transform-labelled", 1099 * NFMT * 6, [=](uint64_t i, Ctx &x) { char t = "gam"[i % 3]; bool q = i / 3 & 1; uint64_t k = i / 6; int f = k % NFMT; k /= NFMT; uint64_t n = 1, b = k; while (b >= (1ull << n * (n - 1) / 2)) b -= 1ull << n * (n - 1) / 2, n++; if (!th && n == 5 && q != (k & 1)) return; transform(fromMask1(n, b), f, t, q, x); }, [=](uint64_t i) { return fmt("case %d", (int)i); });
    { auto B = std::make_shared<GL>(GL{petersen(), grid(8, 8), complete(62), complete(63), complete(64), wheel(70), G(100), path(99), bip(30, 35), complete(11), cyc(12), cyc(13)}); c.add("transform-larger", B->size() * NFMT * 6, [=](uint64_t i, Ctx &x) { transform((*B)[i / (NFMT * 6)], i / 6 % NFMT, "gam"[i % 3], i / 3 & 1, x); }, [=](uint64_t i) { return (*B)[i / (NFMT * 6)].str().substr(0, 300); }); }
    c.add("executable-transform", 72 * NFMT * 3, [=](uint64_t i, Ctx &x) { uint64_t k = i / (NFMT * 3); transform(k < 64 ? fromMask1(4, k) : fromMask1(3, k - 64), i / 3 % NFMT, "gam"[i % 3], true, x, true); }, [=](uint64_t i) { return fmt("case %d", (int)i); });
    c.add("legacy", 1099 * NFMT * 2, [=](uint64_t i, Ctx &x) { bool s = i & 1; i /= 2; int f = i % NFMT; i /= NFMT; uint64_t n = 1, b = i; while (b >= (1ull << n * (n - 1) / 2)) b -= 1ull << n * (n - 1) / 2, n++; legacy(fromMask1(n, b), f, s, x); }, [=](uint64_t i) { return fmt("case %d", (int)i); });
    { auto s = std::make_shared<GengStore>(gengStore(6)); auto F = famGeng("", s, presRot(6, 1)); auto get = F.get; c.add("legacy-order6", F.count, [=](uint64_t i, Ctx &x) { int lk; legacy(get(i, lk), i % NFMT, true, x); }, [=](uint64_t i) { int lk; return get(i, lk).str(); }); }
    c.add("missing-arguments", 40, missing, [](uint64_t i) { return fmt("command line %d", (int)i); });
    c.add("command-letters", 512, letters, [](uint64_t i) { return fmt("character %d", (int)i / 2); });
    c.add("files-missing-or-unwritable", 40, noFile, [](uint64_t i) { return fmt("command line %d", (int)i); });
    c.add("malformed-inputs", badTexts().size(), badInput, [](uint64_t i) { return vis(badTexts()[i]); });
    c.add("long-file-names", 240, longNames, [](uint64_t i) { return fmt("case %d", (int)i); });
    c.add("random-maximal-planar-and-nonplanar", 8 * 11 * (th ? 400 : 40), random1, [](uint64_t i) { return fmt("case %d", (int)i); });
    c.add("random-edge-lists", 64 * (th ? 100 : 10), savedList, [](uint64_t i) { return fmt("case %d", (int)i); });
    c.add("random-graphs", 6 * 8 * 4 * (th ? 200 : 10), randoms, [](uint64_t i) { return fmt("case %d", (int)i); });
    { auto L = std::make_shared<GL>(); for (int n = 1; n <= 5; n++) for (auto &g : geng(n)) L->push_back(g); L->push_back(bip(3, 3)); L->push_back(petersen()); L->push_back(grid(3, 4)); c.add("menu-algorithms", L->size() * 6 * NFMT, [=](uint64_t i, Ctx &x) { menu1(i, *L, x, false); }, [](uint64_t i) { return fmt("case %d", (int)i); }); c.add("menu-files", L->size() * 18 * NFMT, [=](uint64_t i, Ctx &x) { menu2(i, *L, x, false); }, [](uint64_t i) { return fmt("case %d", (int)i); });
      auto S = std::make_shared<GL>(GL{complete(5), cyc(4), bip(3, 3), G(1), complete(4), bip(2, 3)}); c.add("executable-menu-algorithms", S->size() * 6 * NFMT, [=](uint64_t i, Ctx &x) { menu1(i, *S, x, true); }, [](uint64_t i) { return fmt("case %d", (int)i); }); c.add("executable-menu-files", S->size() * 18 * NFMT, [=](uint64_t i, Ctx &x) { menu2(i, *S, x, true); }, [](uint64_t i) { return fmt("case %d", (int)i); }); }
    c.add("menu-input-ends", 6 * 80, menuEnds, [](uint64_t i) { return fmt("case %d", (int)i); });
    c.add("menu-long-names", 900, menuLong, [](uint64_t i) { return fmt("name of %d characters", (int)(100 + i)); });
    { auto M = std::make_shared<std::vector<Mut>>(); sampleNames(); for (auto &s : sampleNames()) { bool outp = s.find(".out.") != std::string::npos; M->push_back({s, 0, 0}); if (!outp) { M->push_back({s, 5, 0}); continue; } if (s.find(".render.txt") == std::string::npos || 1) M->push_back({s, 6, 0}); std::string t = getFile(samplesFrom() + "/" + s); for (int k : {3, 4, 5, 7}) M->push_back({s, k, 0}); std::vector<size_t> at; if (t.size() <= 60 || th) for (size_t i = 0; i < t.size(); i++) at.push_back(i); else for (size_t i = 0; i < t.size(); i++) if (i == 0 || i + 1 == t.size() || (t[i - 1] == '\n' && (at.empty() || i > at.back() + 40))) at.push_back(i); for (size_t i : at) { if (t[i] == '\r') continue; M->push_back({s, 1, i}); M->push_back({s, 2, i}); } }
      c.add("self-test-samples", M->size(), [=](uint64_t i, Ctx &x) { selfTest((*M)[i], x); }, [=](uint64_t i) { return fmt("%s, change %d at %d", (*M)[i].file.c_str(), (*M)[i].kind, (int)(*M)[i].at); }); }
    c.add("file-comparison", 340 * 340 / (th ? 1 : 4), [=](uint64_t i, Ctx &x) { equality(th ? i : i * 4 + i % 4, x); }, [](uint64_t i) { return fmt("case %d", (int)i); });
    c.add("help", 12, [](uint64_t i, Ctx &x) { static const std::vector<Args> A{{"-h"}, {"-help"}, {"-h", "-menu"}, {"-help", "-menu"}, {"-i"}, {"-info"}, {"-h", "-i"}, {"-h", "x"}}; if (i >= A.size()) return; Ran r = runHere(A[i], nullptr); x.eval(); if (r.st != 0 || r.out.size() < 50) fail("%s: exit status %d, %zu characters of help", cmd(A[i]).c_str(), r.st, r.out.size()); }, [](uint64_t i) { return fmt("case %d", (int)i); });
    c.budget = th ? 700 : 250; c.hangLimit = 60;
    return c.main(argc, argv);
}

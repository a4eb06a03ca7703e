// P20: streams of several graph6 graphs, through the reading and writing iterators.
#include "io.hpp"
static const char *ends[] = {"file path", "file pointer", "string"};
typedef std::vector<G> Seq;
static std::string seqText(const Seq &q, const char *eol, bool header, bool last) { std::string t = header ? ">>graph6<<" : ""; for (size_t i = 0; i < q.size(); i++) t += g6Text(q[i].n, edgeSet(q[i])) + (i + 1 < q.size() || last ? eol : ""); return t; }
static std::string seqStr(const Seq &q) { std::string s; for (auto &g : q) s += g.str() + "\n"; return s; }
struct Reader { // one reading iteration; the input is made here
    Gp g; G6ReadIterator *it = nullptr; int begun = NOTOK;
    Reader(const std::string &text, int end, int pre, int n) {
        if (pre) { if (gp_InitGraph(g, n) != OK) fail("gp_InitGraph failed"); for (int v = 2; v <= n; v++) if (gp_DynamicAddEdge(g, 1, 0, v, 0) != OK) fail("gp_DynamicAddEdge failed"); }
        if (allocateG6ReadIterator(&it, g) != OK || !it) fail("allocateG6ReadIterator failed");
        std::string f = scratchFile(); if (end < 2) putFile(f, text);
        if (end == 0) begun = beginG6ReadIterationFromG6FilePath(it, (char *)f.c_str());
        else if (end == 1) { FILE *p = fopen(f.c_str(), "r"); begun = beginG6ReadIterationFromG6FilePointer(it, p); }
        else begun = beginG6ReadIterationFromG6String(it, heap(text));
        if (begun != OK && begun != NOTOK) fail("begin returned %s", rname(begun));
    }
    int count() { int k = -7; if (getNumGraphsRead(it, &k) != OK) fail("getNumGraphsRead failed"); return k; }
    graphP next(int &r) { r = readGraphUsingG6ReadIterator(it); graphP p = (graphP)1; if (getPointerToGraphReadIn(it, &p) != OK) fail("getPointerToGraphReadIn failed"); if (p && p != g.g) fail("the iterator delivers another object"); return p; }
    ~Reader() { endG6ReadIteration(it); freeG6ReadIterator(&it); }
};
// what is done with each graph between reads
static void use(graphP g, int how) { if (how == 1) { int r = gp_Embed(g, EMBEDFLAGS_PLANAR); if (r != OK && r != NONEMBEDDABLE) fail("embedding a graph from a stream returned %s", rname(r)); } else if (how == 2 && g->M) gp_DeleteEdge(g, gp_GetFirstEdge(g), 0); else if (how == 3) { if (gp_CreateDFSTree(g) != OK || gp_SortVertices(g) != OK) fail("sorting a graph from a stream failed"); } }
static void readAll(const Seq &q, const std::string &t, int end, int pre, int how, Ctx &c) {
    int n = q[0].n; Reader R(t, end, pre, n); std::string what = fmt("%s, %s graph, use %d: %s", ends[end], pre ? "initialized" : "new", how, vis(t).c_str());
    if (R.begun != OK) fail("a valid stream was refused at the beginning (%s)", what.c_str());
    int o = 0; getOrderOfGraphToRead(R.it, &o); if (o != n) fail("order %d announced instead of %d (%s)", o, n, what.c_str());
    for (size_t i = 0; i <= q.size(); i++) {
        int r; graphP p = R.next(r);
        if (i == q.size()) { if (r != OK || p) fail("after %zu graphs the end of the stream was not reported (%s, graph %s) (%s)", i, rname(r), p ? "delivered" : "none", what.c_str()); }
        else {
            if (r != OK || !p) fail("graph %zu of %zu was not read (%s, graph %s) (%s)", i + 1, q.size(), rname(r), p ? "delivered" : "none", what.c_str());
            DG d = look(p); if (d.n != n || d.directed() || d.edges() != edgeSet(q[i]) || !d.zero || p->M != (int)q[i].e.size()) fail("graph %zu was read as %s (%s)", i + 1, d.str().c_str(), what.c_str());
            use(p, how);
        }
        if (R.count() != (int)std::min(i + 1, q.size())) fail("count %d after %zu reads of %zu graphs (%s)", R.count(), i + 1, q.size(), what.c_str());
        c.trans++;
    }
    c.eval();
}
static std::string writeSeq(const Seq &q, int end, int how) {
    Gp g; int n = q[0].n; if (gp_InitGraph(g, n) != OK) fail("gp_InitGraph failed"); G6WriteIterator *it = nullptr; if (allocateG6WriteIterator(&it, g) != OK) fail("allocateG6WriteIterator failed");
    std::string f = scratchFile(), out; char *str = nullptr; putFile(f, "stale"); int r;
    if (end == 0) r = beginG6WriteIterationToG6FilePath(it, (char *)f.c_str()); else if (end == 1) r = beginG6WriteIterationToG6FilePointer(it, fopen(f.c_str(), "w")); else r = beginG6WriteIterationToG6String(it, &str);
    if (r != OK) fail("beginning to write to a %s returned %s", ends[end], rname(r));
    for (size_t i = 0; i < q.size(); i++) {
        if (i) gp_ReinitializeGraph(g); for (auto &x : q[i].e) if (gp_DynamicAddEdge(g, x.first + 1, 0, x.second + 1, 0) != OK) fail("gp_DynamicAddEdge failed");
        if (how == 3 && q[i].n > 1) { gp_CreateDFSTree(g); gp_SortVertices(g); gp_SortVertices(g); }
        if ((r = writeGraphUsingG6WriteIterator(it)) != OK) fail("writing graph %zu returned %s", i + 1, rname(r));
        int k = -7; getNumGraphsWritten(it, &k); if (k != (int)i + 1) fail("%d graphs counted after writing %zu", k, i + 1);
        use(g, how == 1 || how == 2 ? how : 0);
    }
    int o = 0; getOrderOfGraphToWrite(it, &o); if (o != n) fail("order %d announced when writing graphs of order %d", o, n);
    if (end == 2) { str = sf_takeTheStr(it->g6Output); out = str ? str : "(null)"; free(str); }
    if (endG6WriteIteration(it) != OK) fail("endG6WriteIteration failed"); if (freeG6WriteIterator(&it) != OK || it) fail("freeG6WriteIterator failed");
    if (end < 2) out = getFile(f); return out;
}
static void sequences(const Seq &q, int how, Ctx &c) {
    std::string want = seqText(q, "\n", true, false);
    for (int end = 0; end < 3; end++) {
        std::string t = writeSeq(q, end, how); std::string u = t; while (!u.empty() && u.back() == '\n') u.pop_back();
        if (u != want) fail("writing to a %s gave\n%s\ninstead of\n%s", ends[end], vis(t).c_str(), vis(want).c_str());
        for (int e = 0; e < 3; e++) readAll(q, t, e, (e + end) % 2, how, c);
    }
    static const char *eol[] = {"\n", "\r\n"}; for (int e = 0; e < 3; e++) for (int v = 0; v < 4; v++) readAll(q, seqText(q, eol[v & 1], v & 2, (v + e) % 3), e, v & 1, how, c);
    // reader and writer on one graph object
    { std::string src = seqText(q, "\n", false, true), out; Reader R(src, 2, 0, q[0].n); if (R.begun != OK) fail("stream refused"); G6WriteIterator *it = nullptr; if (allocateG6WriteIterator(&it, R.g) != OK) fail("allocateG6WriteIterator failed"); char *s = nullptr; if (beginG6WriteIterationToG6String(it, &s) != OK) fail("begin write failed"); int r; graphP p; size_t k = 0; while ((p = R.next(r)) && r == OK) { if (writeGraphUsingG6WriteIterator(it) != OK) fail("writing a graph just read failed"); k++; } s = sf_takeTheStr(it->g6Output); out = s ? s : ""; free(s); endG6WriteIteration(it); freeG6WriteIterator(&it); while (!out.empty() && out.back() == '\n') out.pop_back(); if (r != OK || k != q.size() || out != want) fail("copying a stream through one graph gave\n%s\ninstead of\n%s", vis(out).c_str(), vis(want).c_str()); c.eval(); }
    c.outcome(vp::hashs(want)); c.states++;
}
// every prefix of a stream
static void cuts(const Seq &q, Ctx &c) {
    for (int v = 0; v < 4; v++) {
        std::string eol = v & 1 ? "\r\n" : "\n", t = seqText(q, eol.c_str(), v & 2, true); std::vector<size_t> stop; size_t at = v & 2 ? 10 : 0; for (auto &g : q) { at += g6Text(g.n, edgeSet(g)).size(); stop.push_back(at); at += eol.size(); }
        for (size_t k = 0; k <= t.size(); k++) {
            int whole = 0; bool clean = false; for (size_t i = 0; i < stop.size(); i++) if (k >= stop[i]) { whole = (int)i + 1; clean = k <= stop[i] + eol.size(); }
            for (int end = 0; end < 3; end++) {
                std::string x = t.substr(0, k); if (clean) { Seq p(q.begin(), q.begin() + whole); readAll(p, x, end, k & 1, 0, c); continue; }
                Reader R(x, end, k & 1, q[0].n); c.eval(); if (R.begun != OK) { if (whole) fail("%s: a stream cut in graph %d was refused before its first graph: %s", ends[end], whole + 1, vis(x).c_str()); continue; }
                int r = OK; graphP p = nullptr; int got = 0; for (; got <= whole; got++) { p = R.next(r); if (r != OK || !p) break; if (got == whole) fail("%s: graph %d was read from a stream cut inside it: %s", ends[end], got + 1, vis(x).c_str()); if (look(p).edges() != edgeSet(q[got])) fail("%s: wrong graph %d from a cut stream %s", ends[end], got + 1, vis(x).c_str()); }
                if (r == OK) fail("%s: a stream cut inside graph %d was read as a complete stream of %d graphs: %s", ends[end], whole + 1, got, vis(x).c_str());
                if (got != whole || R.count() != whole) fail("%s: %d graphs (counted %d) instead of %d before the cut: %s", ends[end], got, R.count(), whole, vis(x).c_str());
            }
        }
    }
    c.outcome(vp::hashs(seqStr(q)));
}
// a graph of another order at one place
static void orders(int n, int m, int pos, int len, int shape, Ctx &c) {
    auto mk = [&](int k) { G g(k); if (shape) for (int v = 1; v < k; v++) g.add(shape == 1 ? v - 1 : 0, v); return g; };
    Seq q; for (int i = 0; i < len; i++) q.push_back(mk(i == pos ? m : n)); std::string want;
    for (int v = 0; v < 4; v++) for (int end = 0; end < 3; end++) {
        std::string t = seqText(q, v & 1 ? "\r\n" : "\n", v & 2, true); Reader R(t, end, v & 1, q[0].n); c.eval(); if (R.begun != OK) fail("stream refused at the beginning: %s", vis(t).c_str());
        int bad = pos ? pos : 1, got = 0, r; graphP p; for (;; got++) { p = R.next(r); if (r != OK || !p) break; if (got >= bad) fail("%s: graph %d of order %d was read as one of order %d: %s", ends[end], got + 1, q[got].n, q[0].n, vis(t).c_str()); if (look(p).edges() != edgeSet(q[got])) fail("wrong graph %d: %s", got + 1, vis(t).c_str()); }
        if (r == OK) fail("%s: a stream with graphs of orders %d and %d was read as a complete stream: %s", ends[end], n, m, vis(t).c_str()); if (got != bad || R.count() != bad) fail("%s: %d graphs (counted %d) instead of %d before the one of different order", ends[end], got, R.count(), bad);
    }
    c.outcome(((n * 100 + m) * 10 + pos) * 10 + len);
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    vp::Check c("P20", "model_checking", "a state is a sequence of graphs of one order; every sequence of the families is written and read through all endpoints, with each use of the graph between reads; every prefix of each text and every placement of a graph of different order is read; a transition is one read");
    c.assumptions = {"a stream cut exactly at the end of a graph is the stream of the graphs before it", "address and undefined-behaviour sanitizers watch every access"};
    auto list = [](int n, bool lab) { auto l = std::make_shared<std::vector<G>>(); if (lab) for (uint64_t m = 0; m < 1ull << (n * (n - 1) / 2); m++) l->push_back(fromMask(n, m)); else { auto s = gengStore(n); for (size_t i = 0; i < s.m.size(); i++) l->push_back(s.get(i)); } return l; };
    auto addSeqs = [&](std::string name, std::shared_ptr<std::vector<G>> l, int len, int uses, bool cut_) {
        uint64_t k = 1; for (int i = 0; i < len; i++) k *= l->size(); auto get = [l, len](uint64_t i) { Seq q; for (int j = 0; j < len; j++, i /= l->size()) q.push_back((*l)[i % l->size()]); return q; };
        if (uses) c.add(fmt("%s-length%d", name.c_str(), len), k * uses, [=](uint64_t i, Ctx &x) { int u = i % uses; sequences(get(i / uses), uses == 1 ? (int)(i % 4) : u, x); }, [=](uint64_t i) { return seqStr(get(i / uses)); });
        if (cut_) c.add(fmt("%s-length%d-cut", name.c_str(), len), k, [=](uint64_t i, Ctx &x) { cuts(get(i), x); }, [=](uint64_t i) { return seqStr(get(i)); });
    };
    for (int n = 1; n <= 3; n++) for (int len = 1; len <= 3; len++) addSeqs(fmt("labelled-n%d", n), list(n, true), len, n == 3 && len == 3 && !th ? 1 : 4, n < 3 || len < 3);
    addSeqs("labelled-n1", list(1, true), 5, 4, true); addSeqs("labelled-n2", list(2, true), th ? 8 : 5, 1, true);
    addSeqs("labelled-n4", list(4, true), 1, 4, true); addSeqs("labelled-n4", list(4, true), 2, 1, th); addSeqs("classes-n4", list(4, false), 3, 1, false); addSeqs("classes-n5", list(5, false), 2, 1, th); if (!th) addSeqs("labelled-n4-cut", list(4, true), 2, 0, true); if (th) { addSeqs("classes-n6", list(6, false), 2, 1, false); addSeqs("labelled-n3", list(3, true), 4, 1, true); addSeqs("classes-n7", list(7, false), 1, 4, true); }
    for (int n : {61, 62, 63, 64, 70}) { auto l = std::make_shared<std::vector<G>>(); l->push_back(G(n)); l->push_back(path(n)); l->push_back(wheel(n)); G k(n); for (int v = 1; v < n; v++) for (int u = 0; u < v; u++) k.add(u, v); l->push_back(k); addSeqs(fmt("order%d", n), l, 2, 1, th && n < 65); if (n > 61 && n < 64 && !th) { auto p = std::make_shared<std::vector<G>>(); p->push_back(path(n)); p->push_back(wheel(n)); addSeqs(fmt("order%d-few", n), p, 2, 0, true); } }
    static std::vector<std::array<int, 5>> O; for (int n = 1; n <= 8; n++) for (int m = 1; m <= 8; m++) if (n != m) for (int len = 2; len <= 3; len++) for (int pos = 0; pos < len; pos++) for (int s = 0; s < 3; s++) O.push_back({n, m, pos, len, s});
    for (int n : {61, 62, 63, 64, 65, 127, 128}) for (int m : {1, 2, 61, 62, 63, 64, 65, 127, 128}) if (n != m) for (int pos = 0; pos < 2; pos++) for (int s = 0; s < 3; s++) O.push_back({n, m, pos, 2, s});
    c.add("different-orders", O.size(), [](uint64_t i, Ctx &x) { auto &o = O[i]; orders(o[0], o[1], o[2], o[3], o[4], x); }, [](uint64_t i) { auto &o = O[i]; return fmt("order %d with order %d at position %d of %d, shape %d", o[0], o[1], o[2], o[3], o[4]); });
    c.budget = th ? 700 : 250; c.hangLimit = 100;
    return c.main(argc, argv);
}

// P29: work on one graph never disturbs another. Two scripts, each with objects of its own, are run as coroutines;
// the library is compiled with a callback in every basic block, so that the scheduler can switch at each of them.
#include "history.hpp"
#include "io.hpp"
#include <ucontext.h>
// ---- scheduler
typedef std::function<std::string()> Step; typedef std::vector<Step> Script; typedef std::function<Script()> Make;
struct Task { Script s; std::vector<std::string> out; std::string err; ucontext_t cx; bool done = false; uint64_t steps = 0; size_t at = 0; };
static Task *cur = nullptr; static ucontext_t mainCx; static uint64_t switchAt = ~0ull; // of the current task: in blocks
static bool opLevel = false; static std::vector<char> stackMem[2];
extern "C" void __sanitizer_cov_trace_pc() {
    if (!cur) return; Task *t = cur; if (++t->steps != switchAt || opLevel) return;
    cur = nullptr; swapcontext(&t->cx, &mainCx); 
}
static void body(unsigned lo, unsigned hi) {
    Task *t = (Task *)((uintptr_t)lo | (uintptr_t)hi << 32);
    try { for (; t->at < t->s.size(); ) { t->out.push_back(t->s[t->at]()); t->at++; if (opLevel && t->at < t->s.size()) { cur = nullptr; swapcontext(&t->cx, &mainCx); } } } catch (vp::Fail &f) { t->err = f.msg; }
    t->done = true; cur = nullptr; swapcontext(&t->cx, &mainCx);
}
static void start(Task &t, int k, const Script &s) {
    t.s = s; stackMem[k].resize(1 << 19); getcontext(&t.cx); t.cx.uc_stack.ss_sp = stackMem[k].data(); t.cx.uc_stack.ss_size = stackMem[k].size(); t.cx.uc_link = nullptr;
    uintptr_t p = (uintptr_t)&t; makecontext(&t.cx, (void (*)())body, 2, (unsigned)p, (unsigned)(p >> 32));
}
// lets t run until it has executed 'until' blocks in all (or, with opLevel, one operation), or ends
static void resume(Task &t, uint64_t until) { if (t.done) return; switchAt = until; cur = &t; swapcontext(&mainCx, &t.cx); cur = nullptr; }
struct Solo { std::vector<std::string> out; uint64_t steps; };
static Solo solo(const Make &m) { Task t; opLevel = false; start(t, 0, m()); resume(t, ~0ull); if (!t.err.empty()) fail("alone: %s", t.err.c_str()); return {t.out, t.steps}; }
static void expect(const Task &t, const Solo &s, const std::string &nm, const std::string &when) {
    if (!t.err.empty()) fail("%s, %s: %s", nm.c_str(), when.c_str(), t.err.c_str());
    if (!t.done) fail("%s, %s: did not finish", nm.c_str(), when.c_str());
    for (size_t i = 0; i < s.out.size(); i++) if (t.out[i] != s.out[i]) { size_t k = 0; while (k < t.out[i].size() && k < s.out[i].size() && t.out[i][k] == s.out[i][k]) k++; k = k > 30 ? k - 30 : 0; fail("%s, %s: operation %zu gives\n%.300s\nbut alone it gives\n%.300s", nm.c_str(), when.c_str(), i, t.out[i].c_str() + k, s.out[i].c_str() + k); }
}
// ---- scripts
struct Named { std::string name; Make make; };
static std::shared_ptr<Obj> obj(int in, int ext) { auto o = std::make_shared<Obj>(); const G &x = histInputs()[in]; o->create(x.n, 0, ext); return o; }
static Make history(int in, int ext, const std::string &ops) {
    return [=] { Script s; auto o = std::make_shared<std::shared_ptr<Obj>>(); const G *x = &histInputs()[in];
        s.push_back([=] { *o = obj(in, ext); return (*o)->apply({'E', in}); });
        for (auto &op : ops_(ops.c_str())) s.push_back([=] { std::string t = (*o)->legal(op) ? (*o)->apply(op) : std::string("-"); return t + (*o)->snap(); });
        s.push_back([=] { o->reset(); return std::string("freed"); }); (void)x; return s; };
}
static std::vector<Named> scripts() {
    std::vector<Named> v; auto H = [&](const char *n, int in, int ext, const char *ops) { v.push_back({n, history(in, ext, ops)}); };
    H("edit and embed", 0, 0, "+ - mp i s"); H("isolate", 2, 0, "mp i s wL"); H("outerplanar obstruction", 0, 0, "mo i s"); H("draw", 0, 1, "md r i wL"); H("K2,3", 7, 2, "m2 i s"); H("K3,3", 8, 4, "m3 i s"); H("K4", 6, 8, "m4 i s");
    H("numbers", 5, 0, "D L s s"); H("hide and contract", 6, 0, "v2 c n V h H"); H("attach late", 2, 0, "ad a3 m3 x3 xd s"); H("formats", 9, 0, "wL wM wG"); H("reuse", 1, 4, "m3 R E1 mp");
    auto str = [](const char *t) { return t; };
    v.push_back({"read texts", [] { Script s; for (const char *t : {"N=4\n1: 2 3 0\n2: 1 4 0\n3: 1 0\n4: 2 0\n", "0: 1 2 -1\n", "D~{\n", "4\n0 1 1\n 0 1\n  1\n", "N=3\n0: 1 -1\n1: 0 2 -1\n2: 1 -1\n", ">>graph6<<Bw\n"}) s.push_back([t] { Gp g; int r = gp_ReadFromString(g, heap(t)); std::string o = fmt("%d ", r); if (r == OK) o += writeStr(g, WRITE_ADJLIST); return o; }); return s; }});
    v.push_back({"read a stream", [] { Script s; auto it = std::make_shared<G6ReadIterator *>(nullptr); auto g = std::make_shared<Gp>();
        s.push_back([=] { int r = allocateG6ReadIterator(it.get(), g->g); return fmt("%d %d", r, beginG6ReadIterationFromG6String(*it, heap(">>graph6<<D~{\nDhc\nD?{\nDQo\n"))); });
        for (int k = 0; k < 5; k++) s.push_back([=] { int r = readGraphUsingG6ReadIterator(*it); std::string o = fmt("%d ", r); if (r == OK) o += writeStr(g->g, WRITE_ADJLIST); return o; });
        s.push_back([=] { int r = endG6ReadIteration(*it); r = r * 10 + freeG6ReadIterator(it.get()); gp_Free(&g->g); return fmt("%d", r); }); return s; }});
    v.push_back({"write a stream", [] { Script s; auto it = std::make_shared<G6WriteIterator *>(nullptr); auto g = std::make_shared<Gp>(); auto out = std::make_shared<char *>(nullptr);
        s.push_back([=] { gp_InitGraph(g->g, 6); int r = allocateG6WriteIterator(it.get(), g->g); return fmt("%d %d", r, beginG6WriteIterationToG6String(*it, out.get())); });
        for (int k = 1; k < 5; k++) s.push_back([=] { int a = gp_DynamicAddEdge(g->g, k, 0, k + 1, 1), b = gp_DynamicAddEdge(g->g, k, 0, 6, 0); return fmt("%d %d %d", a, b, writeGraphUsingG6WriteIterator(*it)); });
        s.push_back([=] { char *t = sf_takeTheStr((*it)->g6Output); int r = endG6WriteIteration(*it); r = r * 10 + freeG6WriteIterator(it.get()); std::string o = fmt("%d ", r) + (t ? t : "(null)"); free(t); gp_Free(&g->g); return o; }); return s; }});
    v.push_back({"copies", [] { Script s; auto a = std::make_shared<Gp>(), b = std::make_shared<Gp>(nullptr);
        s.push_back([=] { gp_InitGraph(a->g, 5); gp_AttachK33Search(a->g); return fmt("%d", addAll(a->g, complete(5), 1)); });
        s.push_back([=] { b->g = gp_DupGraph(a->g); return writeStr(b->g, WRITE_ADJLIST); }); s.push_back([=] { int r = gp_Embed(b->g, EMBEDFLAGS_SEARCHFORK33); return fmt("%d ", r) + writeStr(b->g, WRITE_ADJLIST); });
        s.push_back([=] { int r = gp_CopyGraph(a->g, b->g); return fmt("%d ", r) + writeStr(a->g, WRITE_ADJLIST); }); s.push_back([=] { gp_Free(&a->g); gp_Free(&b->g); return std::string("freed"); }); return s; }});
    (void)str; return v;
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    vp::Check c("P29", "model_checking", "two scripts of operations, each on graphs of its own, are run as two threads of one scheduler: every order of their operations, every schedule in which one is suspended at any basic block of the library while the other runs from start to end, and every schedule in which both are suspended, one at any basic block and the other between any two operations; each must return exactly what it returns alone; an outcome is a distinct pair of scripts and point of suspension");
    c.assumptions = {"every feature was attached to some graph once before (its number is assigned on first use, as the only shared state by design)", "switches inside calls of the C library are not explored"};
    auto S = std::make_shared<std::vector<Named>>(scripts()); int n = (int)S->size();
    c.workerInit = [=] { for (char f : std::string("d234")) { Gp g; algo(f).attach(g); } };
    // every order of the operations
    c.add("operation-orders", n * n, [=](uint64_t i, Ctx &x) {
        const Named &A = (*S)[i / n], &B = (*S)[i % n]; Solo a = solo(A.make), b = solo(B.make); size_t na = a.out.size(), nb = b.out.size();
        std::string w(na, 'A'); w += std::string(nb, 'B');
        do { Task p, q; opLevel = true; start(p, 0, A.make()); start(q, 1, B.make()); for (char k : w) resume(k == 'A' ? p : q, 0); opLevel = false; x.eval(); x.trans++;
             std::string when = "operations in the order " + w; expect(p, a, "'" + A.name + "' beside '" + B.name + "'", when); expect(q, b, "'" + B.name + "' beside '" + A.name + "'", when);
        } while (std::next_permutation(w.begin(), w.end()));
        x.states++; x.outcome(mix(i, 1)); if (i % 37 == 0) x.sample(A.name + " and " + B.name + ", every order of their operations");
    }, [=](uint64_t i) { return (*S)[i / n].name + " and " + (*S)[i % n].name; });
    // one suspended at any block while the other runs to its end; cut into slices
    const int SL = 16;
    c.add("one-suspension", (uint64_t)n * n * SL, [=](uint64_t i, Ctx &x) {
        int sl = (int)(i % SL); const Named &A = (*S)[i / SL / n], &B = (*S)[i / SL % n]; Solo a = solo(A.make), b = solo(B.make); 
        for (uint64_t at = 1 + sl; at <= a.steps; at += SL) { Task p, q; start(p, 0, A.make()); start(q, 1, B.make()); resume(p, at); resume(q, ~0ull); resume(p, ~0ull); x.eval(); x.trans++;
            std::string when = fmt("suspended at block %llu of %llu", (unsigned long long)at, (unsigned long long)a.steps); expect(q, b, "'" + B.name + "' while '" + A.name + "' is", when); expect(p, a, "'" + A.name + "' around '" + B.name + "'", when); x.outcome(mix(i, at)); }
        if (i % 501 == 0) x.sample(fmt("%s (%llu blocks) suspended at each block for %s (%llu blocks)", A.name.c_str(), (unsigned long long)a.steps, B.name.c_str(), (unsigned long long)b.steps));
    }, [=](uint64_t i) { return (*S)[i / SL / n].name + " suspended at each block for " + (*S)[i / SL % n].name; });
    // two switches: one suspended at any block, the other after any of its operations (quick: two users of the same script)
    uint64_t np = th ? (uint64_t)n * n : n;
    c.add("two-suspensions", np * SL, [=](uint64_t i, Ctx &x) {
        int sl = (int)(i % SL); uint64_t pr = i / SL; const Named &A = (*S)[th ? pr / n : pr], &B = (*S)[th ? pr % n : pr]; Solo a = solo(A.make), b = solo(B.make);
        for (uint64_t at = 1 + sl; at <= a.steps; at += SL) for (size_t k = 1; k < b.out.size(); k++) { Task p, q; start(p, 0, A.make()); start(q, 1, B.make()); resume(p, at); opLevel = true; for (size_t j = 0; j < k; j++) resume(q, 0); opLevel = false; resume(p, ~0ull); resume(q, ~0ull); x.eval(); x.trans++;
            std::string when = fmt("suspended at block %llu of %llu for %zu operations of the other", (unsigned long long)at, (unsigned long long)a.steps, k); expect(q, b, "'" + B.name + "' while '" + A.name + "' is", when); expect(p, a, "'" + A.name + "' around '" + B.name + "'", when); }
        x.outcome(mix(i, 77));
    }, [=](uint64_t i) { uint64_t pr = i / SL; return (*S)[th ? pr / n : pr].name + " suspended at each block for operations of " + (*S)[th ? pr % n : pr].name; });
    c.budget = th ? 700 : 250; c.hangLimit = 60; c.blockMax = 1;
    return c.main(argc, argv);
}

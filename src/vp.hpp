// Bounded-exhaustive exploration framework.
// A check is a list of families; a family is a finite, indexable set of cases.
// Every index of every family is executed on the real library code in forked
// worker processes; crashes, sanitizer reports and hangs are attributed to the
// case that was running, re-executed for confirmation, and written as a replay.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace vp {

inline double now() {
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Fail { std::string msg, key; };

inline std::string vfmt(const char *f, va_list ap) {
    char buf[8192]; vsnprintf(buf, sizeof buf, f, ap); return buf;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }
[[noreturn]] inline void fail(const char *f, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); throw Fail{s, ""}; }
// A failure with a key, which may be listed as a known finding.
[[noreturn]] inline void failk(const std::string &key, const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); throw Fail{s, key}; }

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h;
}
inline uint64_t hashs(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }

struct Ctx;
struct Family {
    std::string name;
    uint64_t count;
    std::function<void(uint64_t, Ctx &)> run;
    std::function<std::string(uint64_t)> desc;
};

static const uint64_t HT = 1u << 20;
struct Shared {
    std::atomic<uint64_t> next;
    std::atomic<int> stop;
    std::atomic<uint64_t> cases, evals, states, trans, knownHits, distinct, skipped;
    struct W { std::atomic<int> busy; uint64_t fam, idx, blk, hi; int resume; double t0; int failed; char msg[6000]; char key[300]; } w[64];
    std::atomic<uint64_t> table[HT];
    std::atomic<int> knownSeen[256];
    std::atomic<uint64_t> famDone[256];
    char sample[8][600]; std::atomic<int> nsample;
};

struct Ctx {
    Shared *sh; uint64_t evals = 0, states = 0, trans = 0, acc = 0; bool wantDetail = false; std::string detail;
    // something observed, to be compared between the two configurations of a twin check
    void observe(const std::string &s) { acc = (acc ^ hashs(s)) * 0x9E3779B97F4A7C15ull + 1; if (wantDetail) detail += s + "\n"; }
    // one evaluated execution
    void eval(uint64_t n = 1) { evals += n; }
    // an observed outcome/behaviour class; distinct ones are counted
    void outcome(uint64_t h) {
        if (!h) h = 1;
        for (uint64_t i = h & (HT - 1), k = 0; k < 64; k++, i = (i + 1) & (HT - 1)) {
            uint64_t cur = sh->table[i].load(std::memory_order_relaxed);
            if (cur == h) return;
            if (!cur) {
                if (sh->table[i].compare_exchange_strong(cur, h)) { sh->distinct++; return; }
                if (cur == h) return;
            }
        }
    }
    void sample(const std::string &s) {
        if (sh->nsample.load() >= 8) return;
        int k = sh->nsample++; if (k < 8) { strncpy(sh->sample[k], s.c_str(), 599); }
    }
};

inline std::string &scratchDir() { static std::string s; return s; } // directory of this run, removed at its end

struct Check {
    std::string prop, level, rule; std::vector<std::string> assumptions;
    std::vector<Family> fams;
    bool thorough = false; double hangLimit = 40, budget = 0; // seconds; 0: none
    uint64_t blockMax = 256; int nworkers = 8;
    std::string extraTraces; // "evaluations validated against the implementation" is every evaluation here
    std::vector<std::pair<std::string, std::string>> known; // key, text
    Shared *sh = nullptr;
    std::string root = "/verif", scratch;
    std::function<void()> workerInit;

    Check(const char *p, const char *lvl, const char *r) : prop(p), level(lvl), rule(r) {
        if (getenv("VERIF_ROOT")) root = getenv("VERIF_ROOT");
    }
    void add(const std::string &name, uint64_t count, std::function<void(uint64_t, Ctx &)> run, std::function<std::string(uint64_t)> desc = nullptr) {
        if (count) fams.push_back({name, count, run, desc});
    }

    void loadKnown() {
        std::ifstream f(root + "/known_findings.txt"); std::string l;
        while (std::getline(f, l)) {
            // KNOWN property=P01 key=<no spaces> <text>
            if (l.compare(0, 6, "KNOWN ")) continue;
            std::string a, p, k; std::istringstream is(l); is >> a >> p >> k;
            if (p != "property=" + prop || k.compare(0, 4, "key=")) continue;
            std::string rest; std::getline(is, rest);
            known.push_back({k.substr(4), rest});
        }
    }
    int knownIndex(const std::string &key) {
        if (key.empty()) return -1;
        for (size_t i = 0; i < known.size(); i++) if (known[i].first == key) return (int)i;
        return -1;
    }

    // runs one case; returns false and fills msg/key on an unlisted failure
    bool runCase(Family &f, uint64_t idx, Ctx &c, std::string &msg, std::string &key) {
        try { f.run(idx, c); }
        catch (Fail &e) {
            int k = knownIndex(e.key);
            if (k >= 0) { sh->knownHits++; sh->knownSeen[k]++; return true; }
            msg = e.msg; key = e.key; return false;
        }
        return true;
    }

    struct Blk { int fam; uint64_t lo, hi; };
    std::vector<Blk> blocks;
    double t0 = 0;

    void worker(int w) {
        auto &W = sh->w[w];
        if (workerInit) workerInit();
        Ctx c{sh};
        while (!sh->stop.load()) {
            Blk B;
            if (W.resume) { B = {(int)W.fam, W.idx + 1, W.hi}; W.resume = 0; }
            else {
                uint64_t b = sh->next++;
                if (b >= blocks.size()) break;
                B = blocks[b];
            }
            if (budget > 0 && now() - t0 > budget) { sh->skipped += B.hi - B.lo; continue; }
            W.fam = B.fam; W.blk = B.lo; W.hi = B.hi;
            for (uint64_t i = B.lo; i < B.hi && !sh->stop.load(); i++) {
                W.idx = i; W.t0 = now(); W.busy = 1;
                std::string msg, key;
                bool ok = runCase(fams[B.fam], i, c, msg, key);
                W.busy = 0;
                sh->cases++; 
                if (!ok) {
                    strncpy(W.msg, msg.c_str(), sizeof W.msg - 1); strncpy(W.key, key.c_str(), sizeof W.key - 1);
                    W.failed = 1; flush(c); _exit(3);
                }
            }
            sh->famDone[B.fam] += B.hi - B.lo;
            flush(c);
        }
        flush(c);
        _exit(0);
    }
    void flush(Ctx &c) { sh->evals += c.evals; sh->states += c.states; sh->trans += c.trans; c.evals = c.states = c.trans = 0; }

    void quietChild(const std::string &errfile) {
        int fd = open(errfile.empty() ? "/dev/null" : errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 2); int n = open("/dev/null", O_WRONLY); dup2(n, 1); int z = open("/dev/null", O_RDONLY); dup2(z, 0);
    }

    // 0: held; 1: failed (msg), in a fresh process
    int confirm(int fam, uint64_t lo, uint64_t hi, std::string &msg, uint64_t &at, std::string &key) {
        std::string ef = scratch + "/confirm.err";
        auto &W = sh->w[63]; W.failed = 0; W.msg[0] = 0; W.key[0] = 0; W.t0 = now(); W.busy = 1; W.idx = lo;
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (!p) {
            quietChild(ef);
            if (workerInit) workerInit();
            Ctx c{sh};
            for (uint64_t i = lo; i < hi; i++) {
                W.idx = i; W.t0 = now();
                std::string m, k;
                if (!runCase(fams[fam], i, c, m, k)) {
                    strncpy(W.msg, m.c_str(), sizeof W.msg - 1); strncpy(W.key, k.c_str(), sizeof W.key - 1); W.failed = 1; _exit(3);
                }
            }
            _exit(0);
        }
        int st = 0;
        for (;;) {
            pid_t r = waitpid(p, &st, WNOHANG);
            if (r == p) break;
            if (now() - W.t0 > hangLimit * 1.5) { kill(p, SIGKILL); waitpid(p, &st, 0); at = W.idx; msg = fmt("no answer within %.0f s (hang)", hangLimit * 1.5); key = "hang"; return 1; }
            usleep(20000);
        }
        at = W.idx;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
        if (W.failed) { msg = W.msg; key = W.key; return 1; }
        std::string tail; { std::ifstream f(ef); std::stringstream ss; ss << f.rdbuf(); tail = ss.str(); }
        if (tail.size() > 3500) tail = tail.substr(0, 3500);
        msg = (WIFSIGNALED(st) ? fmt("process died with signal %d", WTERMSIG(st)) : fmt("process exited with status %d", WEXITSTATUS(st))) + "\n" + tail;
        return 1;
    }

    static std::string jesc(const std::string &s) {
        std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) o += fmt("\\u%04x", ch); else o += ch; } return o;
    }

    void report(int fam, uint64_t lo, uint64_t at, const std::string &msg) {
        mkdir((root + "/replays").c_str(), 0755);
        std::string path = root + "/replays/" + prop + "-" + fams[fam].name + "-" + std::to_string(at) + ".txt";
        std::ofstream o(path);
        o << "property=" << prop << "\nfamily=" << fams[fam].name << "\nfrom=" << lo << "\nindex=" << at << "\ntier=" << (thorough ? "thorough" : "quick") << "\n";
        o << "rerun: cd /verif && ./check " << prop << " --replay " << path << "\n\n--- case\n";
        if (fams[fam].desc) o << fams[fam].desc(at) << "\n";
        o << "--- what failed\n" << msg << "\n";
        o.close();
        printf("FAILED %s: family %s, case %llu\n%s\n%s\n", prop.c_str(), fams[fam].name.c_str(), (unsigned long long)at, fams[fam].desc ? fams[fam].desc(at).substr(0, 2000).c_str() : "", msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
        fflush(stdout);
    }

    void evidence(int violations, bool complete) {
        mkdir((root + "/evidence").c_str(), 0755);
        std::string path = root + "/evidence/" + prop + ".json"; std::ofstream o(path);
        const char *seed = getenv("VERIF_SEED");
        o << "{\n \"property\": \"" << prop << "\", \"tier\": \"" << (thorough ? "thorough" : "quick") << "\", \"seed\": " << (seed ? atoi(seed) : 1) << ",\n";
        o << " \"level\": \"" << level << "\",\n \"coverage\": {\n";
        o << "  \"evaluations\": " << sh->evals.load() << ",\n  \"distinct_nontrivial\": " << sh->distinct.load() << ",\n";
        o << "  \"cases\": " << sh->cases.load() << ",\n";
        if (level == "model_checking" || sh->states.load()) {
            o << "  \"states\": " << sh->states.load() << ",\n  \"transitions\": " << sh->trans.load() << ",\n  \"traces_validated_against_impl\": " << sh->evals.load() << ",\n";
        }
        o << "  \"rule\": \"" << jesc(rule) << "\",\n  \"families\": [";
        for (size_t i = 0; i < fams.size(); i++) o << (i ? ", " : "") << "{\"name\": \"" << jesc(fams[i].name) << "\", \"cases\": " << fams[i].count << ", \"done\": " << sh->famDone[i].load() << "}";
        o << "],\n  \"samples\": [";
        int n = std::min(8, sh->nsample.load());
        for (int i = 0; i < n; i++) o << (i ? ", " : "") << "\"" << jesc(sh->sample[i]) << "\"";
        o << "],\n  \"known_finding_hits\": " << sh->knownHits.load() << ",\n  \"skipped_by_time_budget\": " << sh->skipped.load() << ",\n";
        o << "  \"exhaustive\": " << (complete ? "true" : "false") << "\n },\n \"assumptions\": [";
        for (size_t i = 0; i < assumptions.size(); i++) o << (i ? ", " : "") << "\"" << jesc(assumptions[i]) << "\"";
        o << "],\n \"wall_s\": " << fmt("%.2f", now() - t0) << ",\n \"violations\": " << violations << "\n}\n";
    }

    // ---- a twin: the same harness built in another configuration, run as a server
    struct Twin { pid_t pid = 0, owner = 0; int in = -1, out = -1; } tw;
    static bool rd(int f, void *p, size_t n) { char *q = (char *)p; while (n) { ssize_t k = read(f, q, n); if (k <= 0) return false; q += k; n -= k; } return true; }
    static bool wr(int f, const void *p, size_t n) { const char *q = (const char *)p; while (n) { ssize_t k = write(f, q, n); if (k <= 0) return false; q += k; n -= k; } return true; }
    int serve(int in, int out) {
        quietChild("");
        struct { int fam, detail; uint64_t idx; } q;
        while (rd(in, &q, sizeof q)) {
            Ctx c{sh}; c.wantDetail = q.detail; std::string msg, key; uint64_t r[5]; r[0] = runCase(fams[q.fam], q.idx, c, msg, key); std::string t = r[0] ? c.detail : msg;
            r[1] = c.acc; r[2] = c.evals; r[3] = c.trans; r[4] = t.size(); if (!wr(out, r, sizeof r) || !wr(out, t.data(), t.size())) return 0;
        }
        return 0;
    }
    // runs case idx of family fam in the twin; fails if it fails there; returns what it observed
    uint64_t twinRun(int fam, uint64_t idx, Ctx &c, std::string *detail = nullptr) {
        if (tw.owner != getpid()) {
            const char *b = getenv("VP_TWIN"); if (!b) { fprintf(stderr, "no twin\n"); _exit(2); }
            int a[2], d[2]; if (pipe(a) || pipe(d)) _exit(2); pid_t par = getpid(); pid_t p = fork();
            if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != par) _exit(2); close(a[1]); close(d[0]); std::string x = std::to_string(a[0]), y = std::to_string(d[1]); if (thorough) execl(b, b, "--serve", x.c_str(), y.c_str(), "--thorough", (char *)0); else execl(b, b, "--serve", x.c_str(), y.c_str(), (char *)0); _exit(127); }
            close(a[0]); close(d[1]); tw = {p, getpid(), d[0], a[1]};
        }
        struct { int fam, detail; uint64_t idx; } q = {fam, detail != nullptr, idx}; uint64_t r[5]; signal(SIGPIPE, SIG_IGN);
        if (!wr(tw.out, &q, sizeof q) || !rd(tw.in, r, sizeof r)) { int st = 0; waitpid(tw.pid, &st, 0); tw.owner = 0; close(tw.in); close(tw.out); fail("in the other configuration: the process ended (%s %d)", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); }
        std::string t(r[4], 0); rd(tw.in, &t[0], r[4]); c.evals += r[2]; c.trans += r[3]; if (!r[0]) fail("in the other configuration: %s", t.c_str()); if (detail) *detail = t; return r[1];
    }

    int replay(const char *path) {
        std::ifstream f(path); std::string l, fam; uint64_t from = 0, idx = 0;
        while (std::getline(f, l)) {
            if (!l.compare(0, 7, "family=")) fam = l.substr(7);
            if (!l.compare(0, 5, "from=")) from = strtoull(l.c_str() + 5, 0, 10);
            if (!l.compare(0, 6, "index=")) idx = strtoull(l.c_str() + 6, 0, 10);
        }
        for (size_t i = 0; i < fams.size(); i++) if (fams[i].name == fam) {
            std::string msg, key; uint64_t at;
            if (confirm((int)i, from, idx + 1, msg, at, key)) {
                printf("%s\n%s\nVIOLATION property=%s replay=%s\n", fams[i].desc ? fams[i].desc(at).c_str() : "", msg.c_str(), prop.c_str(), path);
                return 1;
            }
            printf("replay: held\n"); return 0;
        }
        printf("replay: no family %s\n", fam.c_str()); return 2;
    }

    int main(int argc, char **argv) {
        t0 = now();
        std::string only, rp; uint64_t one = ~0ull; int sin = -1, sout = -1;
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            if (a == "--thorough") thorough = true;
            else if (a == "--serve" && i + 2 < argc) { sin = atoi(argv[++i]); sout = atoi(argv[++i]); }
            else if (a == "--replay" && i + 1 < argc) rp = argv[++i];
            else if (a == "--family" && i + 1 < argc) only = argv[++i];
            else if (a == "--index" && i + 1 < argc) one = strtoull(argv[++i], 0, 10);
            else if (a == "--workers" && i + 1 < argc) nworkers = atoi(argv[++i]);
        }
        if (sin >= 0 && getenv("VP_SCRATCH")) scratch = getenv("VP_SCRATCH");
        else { scratch = fmt("/tmp/vp-%s-%d", prop.c_str(), getpid()); mkdir(scratch.c_str(), 0700); setenv("VP_SCRATCH", scratch.c_str(), 1); }
        scratchDir() = scratch;
        sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        loadKnown();
        if (sin >= 0) return serve(sin, sout);
        int rc = 0;
        if (!rp.empty()) { rc = replay(rp.c_str()); cleanup(); return rc; }
        if (!only.empty()) { std::vector<Family> k; for (auto &f : fams) if (f.name == only) k.push_back(f); fams = k; }
        if (one != ~0ull) {
            std::string msg, key; Ctx c{sh};
            if (workerInit) workerInit();
            if (fams[0].desc) printf("%s\n", fams[0].desc(one).c_str());
            bool ok = runCase(fams[0], one, c, msg, key); printf("%s %s key=%s\n", ok ? "held" : "FAILED", msg.c_str(), key.c_str()); cleanup(); return !ok;
        }
        for (size_t f = 0; f < fams.size(); f++) {
            uint64_t n = fams[f].count, bs = std::max<uint64_t>(1, std::min<uint64_t>(blockMax, n / (nworkers * 8) + 1));
            for (uint64_t i = 0; i < n; i += bs) blocks.push_back({(int)f, i, std::min(n, i + bs)});
        }
        if (getenv("VP_HANG")) hangLimit = atof(getenv("VP_HANG")); // development only
        std::vector<pid_t> pid(nworkers, 0);
        auto spawn = [&](int w) {
            fflush(stdout); fflush(stderr);
            pid_t p = fork();
            if (!p) { quietChild(""); worker(w); }
            pid[w] = p;
        };
        for (int w = 0; w < nworkers; w++) { sh->w[w].busy = 0; sh->w[w].failed = 0; spawn(w); }
        int alive = nworkers; bool violated = false, unconfirmed = false; 
        int vf = 0; uint64_t vlo = 0, vat = 0; std::string vmsg;
        auto handle = [&](int w, const char *what) {
            auto &W = sh->w[w]; int fam = (int)W.fam; uint64_t idx = W.idx, blk = W.blk; uint64_t at; std::string msg, key;
            if (violated) return;
            bool bad = confirm(fam, idx, idx + 1, msg, at, key); uint64_t lo = idx;
            if (!bad) { bad = confirm(fam, blk, idx + 1, msg, at, key); lo = blk; }
            if (bad) {
                int k = knownIndex(key);
                if (k >= 0) { sh->knownHits++; sh->knownSeen[k]++; return; }
                if (!violated) { violated = true; vf = fam; vlo = lo; vat = at; vmsg = msg; sh->stop = 1; }
            }
            else { unconfirmed = true; printf("note: %s in family %s case %llu did not repeat in a fresh process\n", what, fams[fam].name.c_str(), (unsigned long long)idx); }
        };
        while (alive > 0) {
            bool any = false;
            for (int w = 0; w < nworkers; w++) {
                if (!pid[w]) continue;
                int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
                auto &W = sh->w[w];
                if (r == pid[w]) {
                    any = true; pid[w] = 0; alive--;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                    if (W.failed) { W.failed = 0; handle(w, W.msg); if (!violated) { W.resume = 1; W.busy = 0; alive++; spawn(w); } }
                    else { W.busy = 0; handle(w, "crash"); if (!violated) { W.resume = 1; alive++; spawn(w); } }
                } else if (W.busy && now() - W.t0 > hangLimit) {
                    kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; alive--; W.busy = 0; any = true;
                    handle(w, "hang"); if (!violated) { W.resume = 1; alive++; spawn(w); }
                }
            }
            if (!any) usleep(10000);
        }
        bool complete = !violated && sh->skipped.load() == 0 && sh->cases.load() > 0 && !unconfirmed;
        evidence(violated ? 1 : 0, complete);
        for (size_t k = 0; k < known.size(); k++) if (sh->knownSeen[k].load())
            printf("KNOWN-FINDING: property=%s %s%s\n", prop.c_str(), known[k].first.c_str(), known[k].second.c_str());
        if (violated) { report(vf, vlo, vat, vmsg); rc = 1; }
        printf("%s %s: %llu cases, %llu evaluations, %llu states, %llu transitions, %llu distinct outcomes, %.1f s%s\n", prop.c_str(), violated ? "VIOLATED" : "held",
               (unsigned long long)sh->cases.load(), (unsigned long long)sh->evals.load(), (unsigned long long)sh->states.load(), (unsigned long long)sh->trans.load(), (unsigned long long)sh->distinct.load(), now() - t0, complete ? "" : " (not complete)");
        for (size_t i = 0; i < fams.size(); i++) if (getenv("VP_VERBOSE")) printf("  %s: %llu/%llu\n", fams[i].name.c_str(), (unsigned long long)sh->famDone[i].load(), (unsigned long long)fams[i].count);
        fflush(stdout);
        cleanup();
        return rc;
    }
    void cleanup() {
        std::string ef = scratch + "/confirm.err"; unlink(ef.c_str());
        // per-case scratch files are created below this directory only
        std::string cmd = "rm -rf " + scratch; if (scratch.compare(0, 8, "/tmp/vp-") == 0) { int r = system(cmd.c_str()); (void)r; }
    }
};

} // namespace vp

// P25: the integer stack, the list collection, the string buffer and the string-or-file container against plain sequences.
#include "vp.hpp"
extern "C" {
#include "lowLevelUtils/appconst.h"
#include "lowLevelUtils/stack.h"
#include "lowLevelUtils/listcoll.h"
#include "io/strbuf.h"
#include "io/strOrFile.h"
}
using namespace vp;
#ifdef TWIN
static const bool dbg = true; // refusals are promised by the functions of the debugging configuration
#else
static const bool dbg = false;
#endif
static std::string trace; // the operations so far
#define FAIL(...) fail("after %s: %s", trace.c_str(), fmt(__VA_ARGS__).c_str())
// ------------------------------------------------------------------ stack
static int push(stackP s, int a) { sp_Push(s, a); return OK; }
static int push2(stackP s, int a, int b) { sp_Push2(s, a, b); return OK; }
static int pop(stackP s, int &a) { sp_Pop(s, a); return OK; }
static int popd(stackP s) { sp_Pop_Discard(s); return OK; }
static int pop2(stackP s, int &a, int &b) { sp_Pop2(s, a, b); return OK; }
static int pop2d1(stackP s, int &a) { sp_Pop2_Discard1(s, a); return OK; }
static int pop2d(stackP s) { sp_Pop2_Discard(s); return OK; }
struct St { stackP s = nullptr; std::vector<int> m; int cap = 0; };
static void same(St &x, const char *n) {
    int k = (int)x.m.size(); if (sp_GetCurrentSize(x.s) != k) FAIL("stack %s has size %d, should be %d", n, sp_GetCurrentSize(x.s), k); if (sp_GetCapacity(x.s) < k || sp_GetCapacity(x.s) != x.cap) FAIL("stack %s has capacity %d, should be %d", n, sp_GetCapacity(x.s), x.cap);
    int em = sp_IsEmpty(x.s), ne = sp_NonEmpty(x.s); if (!!em != (k == 0) || !!ne != (k != 0)) FAIL("stack %s: empty %d nonempty %d with %d elements", n, em, ne, k); if (sp_Top(x.s) != (k ? x.m[k - 1] : NIL)) FAIL("stack %s: top %d", n, sp_Top(x.s));
    for (int i = 0; i < k; i++) if (sp_Get(x.s, i) != x.m[i]) FAIL("stack %s: element %d is %d, should be %d", n, i, sp_Get(x.s, i), x.m[i]);
    if (dbg) for (int i : {-1, k, k + 1, 1000000}) { if (sp_Get(x.s, i) != NOTOK) FAIL("stack %s: sp_Get(%d) with %d elements was not refused", n, i, k); if (sp_Set(x.s, i, 77) != NOTOK) FAIL("sp_Set(%d) was not refused", i); }
}
enum { NST = 21 };
static const char *stn[NST] = {"push A 5", "push A 7", "push2 A 8,9", "pop A", "pop-discard A", "pop2 A", "pop2-discard1 A", "pop2-discard A", "clear A", "set-size A size-1", "set-size A cap+1", "set A bottom 3", "set A top 4", "copy-content B<-A", "copy-content A<-B", "copy B<-A", "copy A<-B", "B = duplicate A", "push B 6", "set-size A 0", "new A of capacity 2"};
static bool stackOp(int op, St &a, St &b, Ctx &c) { // false: not applicable here
    int k = (int)a.m.size(), x = -99, y = -99, r;
    auto expect = [&](int got, bool ok) { if ((got == OK) != ok) FAIL("%s returned %s", stn[op], got == OK ? "OK" : "not OK"); };
    switch (op) {
    case 0: case 1: if (k >= a.cap && !dbg) return false; r = push(a.s, op ? 7 : 5); expect(r, k < a.cap); if (k < a.cap) a.m.push_back(op ? 7 : 5); break;
    case 2: if (k + 2 > a.cap && !dbg) return false; r = push2(a.s, 8, 9); expect(r, k + 2 <= a.cap); if (k + 2 <= a.cap) { a.m.push_back(8); a.m.push_back(9); } break;
    case 3: if (!k && !dbg) return false; r = pop(a.s, x); expect(r, k > 0); if (k) { if (x != a.m[k - 1]) FAIL("popped %d", x); a.m.pop_back(); } else if (x != -99) FAIL("a refused pop changed its target"); break;
    case 4: if (!k && !dbg) return false; r = popd(a.s); expect(r, k > 0); if (k) a.m.pop_back(); break;
    case 5: if (k < 2 && !dbg) return false; r = pop2(a.s, x, y); expect(r, k > 1); if (k > 1) { if (x != a.m[k - 2] || y != a.m[k - 1]) FAIL("popped %d,%d", x, y); a.m.resize(k - 2); } break;
    case 6: if (k < 2 && !dbg) return false; r = pop2d1(a.s, x); expect(r, k > 1); if (k > 1) { if (x != a.m[k - 2]) FAIL("popped %d", x); a.m.resize(k - 2); } break;
    case 7: if (k < 2 && !dbg) return false; r = pop2d(a.s); expect(r, k > 1); if (k > 1) a.m.resize(k - 2); break;
    case 8: sp_ClearStack(a.s); a.m.clear(); break;
    case 9: if (!k) return false; expect(sp_SetCurrentSize(a.s, k - 1), true); a.m.pop_back(); break;
    case 10: expect(sp_SetCurrentSize(a.s, a.cap + 1), false); break;
    case 11: case 12: if (!k) return false; { int p = op == 11 ? 0 : k - 1, v = op == 11 ? 3 : 4; r = sp_Set(a.s, p, v); if (r != v) FAIL("sp_Set returned %d", r); a.m[p] = v; } break;
    case 13: expect(sp_CopyContent(b.s, a.s), b.cap >= k); if (b.cap >= k) b.m = a.m; break;
    case 14: expect(sp_CopyContent(a.s, b.s), a.cap >= (int)b.m.size()); if (a.cap >= (int)b.m.size()) a.m = b.m; break;
    case 15: expect(sp_Copy(b.s, a.s), true); if (b.cap < k) b.cap = sp_GetCapacity(b.s); b.m = a.m; break;
    case 16: expect(sp_Copy(a.s, b.s), true); if (a.cap < (int)b.m.size()) a.cap = sp_GetCapacity(a.s); a.m = b.m; break;
    case 17: { stackP d = sp_Duplicate(a.s); if (!d) FAIL("sp_Duplicate failed"); sp_Free(&b.s); if (b.s) FAIL("sp_Free left the pointer"); b = {d, a.m, a.cap}; } break;
    case 18: if ((int)b.m.size() >= b.cap && !dbg) return false; r = push(b.s, 6); expect(r, (int)b.m.size() < b.cap); if (r == OK) b.m.push_back(6); break;
    case 19: expect(sp_SetCurrentSize(a.s, 0), true); a.m.clear(); break;
    case 20: sp_Free(&a.s); a = {sp_New(2), {}, 2}; if (!a.s) FAIL("sp_New failed"); break;
    }
    same(a, "A"); same(b, "B"); c.trans++; c.states++; return true;
}
static void stackSeq(uint64_t i, int len, Ctx &c) {
    static const int caps[6][2] = {{0, 1}, {1, 1}, {2, 1}, {3, 2}, {1, 3}, {4, 4}}; int q = i % 6; i /= 6; trace = fmt("stacks of capacity %d and %d", caps[q][0], caps[q][1]);
    St a{sp_New(caps[q][0]), {}, caps[q][0]}, b{sp_New(caps[q][1]), {}, caps[q][1]}; if (!a.s || !b.s) fail("sp_New failed"); same(a, "A"); same(b, "B");
    for (int j = 0; j < len; j++, i /= NST) { trace += std::string("; ") + stn[i % NST]; if (!stackOp(i % NST, a, b, c)) break; }
    sp_Free(&a.s); sp_Free(&b.s); c.eval(); std::string o; for (int x : a.m) o += fmt("%d ", x); o += "|"; for (int x : b.m) o += fmt("%d ", x); c.outcome(hashs(o));
}
// ------------------------------------------------------------------ list collection
struct Lc { listCollectionP c = nullptr; std::vector<int> L[2]; int h[2] = {NIL, NIL}; };
enum { LN = 6 };
static void sameL(Lc &l) {
    for (int i = 0; i < 2; i++) {
        auto &m = l.L[i]; if (m.empty()) { if (l.h[i] != NIL) FAIL("list %d: head %d of an empty list", i, l.h[i]); continue; } if (l.h[i] != m[0]) FAIL("list %d: head %d, should be %d", i, l.h[i], m[0]);
        int x = l.h[i]; size_t k = 0; while (x != NIL && k <= m.size()) { if (k >= m.size() || x != m[k]) FAIL("list %d forward: element %zu is %d", i, k, x); k++; x = (LCGetNext(l.c, l.h[i], x)); } if (k != m.size()) FAIL("list %d forward: %zu elements instead of %zu", i, k, m.size());
        x = (LCGetPrev(l.c, l.h[i], NIL)); k = 0; while (x != NIL && k <= m.size()) { if (k >= m.size() || x != m[m.size() - 1 - k]) FAIL("list %d backward: element %zu is %d", i, k, x); k++; int t = (LCGetPrev(l.c, l.h[i], x)); x = t; } if (k != m.size()) FAIL("list %d backward: %zu elements instead of %zu", i, k, m.size());
    }
}
enum { NLC = 18 };
static const char *lcn[NLC] = {"prepend to 0", "append to 0", "prepend to 1", "append to 1", "insert after head of 0", "insert after last of 0", "insert before head of 0", "insert before last of 0", "insert after head of 1", "delete head of 0", "delete second of 0", "delete last of 0", "delete head of 1", "delete last of 1", "reset", "copy out", "copy in", "swap the lists"};
static bool lcOp(int op, int node, Lc &l, Lc &o, Ctx &c) {
    auto &A = l.L[0], &B = l.L[1]; auto isFree = [&](int x) { return !std::count(A.begin(), A.end(), x) && !std::count(B.begin(), B.end(), x); };
    int x = NIL; if (op <= 8) { for (int y = 1; y < LN; y++) { int z = node ? LN - y : y; if (isFree(z)) { x = z; break; } } if (x == NIL) return false; }
    switch (op) {
    case 0: l.h[0] = LCPrepend(l.c, l.h[0], x); A.insert(A.begin(), x); break;
    case 1: l.h[0] = LCAppend(l.c, l.h[0], x); A.push_back(x); break;
    case 2: l.h[1] = LCPrepend(l.c, l.h[1], x); B.insert(B.begin(), x); break;
    case 3: l.h[1] = LCAppend(l.c, l.h[1], x); B.push_back(x); break;
    case 4: if (A.empty()) return false; LCInsertAfter(l.c, A[0], x); A.insert(A.begin() + 1, x); break;
    case 5: if (A.empty()) return false; LCInsertAfter(l.c, A.back(), x); A.push_back(x); break;
    case 6: if (A.empty()) return false; LCInsertBefore(l.c, A[0], x); A.push_back(x); break; // the head is kept by the caller
    case 7: if (A.size() < 2) return false; LCInsertBefore(l.c, A.back(), x); A.insert(A.end() - 1, x); break;
    case 8: if (B.empty()) return false; LCInsertAfter(l.c, B[0], x); B.insert(B.begin() + 1, x); break;
    case 9: case 10: case 11: { size_t p = op == 9 ? 0 : op == 10 ? 1 : A.size() - 1; if (A.empty() || p >= A.size()) return false; l.h[0] = LCDelete(l.c, l.h[0], A[p]); A.erase(A.begin() + p); } break;
    case 12: case 13: { if (B.empty()) return false; size_t p = op == 12 ? 0 : B.size() - 1; l.h[1] = LCDelete(l.c, l.h[1], B[p]); B.erase(B.begin() + p); } break;
    case 14: LCReset(l.c); A.clear(); B.clear(); l.h[0] = l.h[1] = NIL; break;
    case 15: LCCopy(o.c, l.c); for (int i = 0; i < 2; i++) { o.L[i] = l.L[i]; o.h[i] = l.h[i]; } break;
    case 16: LCCopy(l.c, o.c); for (int i = 0; i < 2; i++) { l.L[i] = o.L[i]; l.h[i] = o.h[i]; } break;
    case 17: std::swap(A, B); std::swap(l.h[0], l.h[1]); break;
    }
    sameL(l); sameL(o); c.trans++; c.states++; return true;
}
static void lcSeq(uint64_t i, int len, Ctx &c) {
    int init = i % 4; i /= 4; Lc l, o; l.c = LCNew(LN); o.c = LCNew(LN); if (!l.c || !o.c) fail("LCNew failed"); trace = fmt("lists of start %d", init);
    for (int x : init == 1 ? std::vector<int>{2, 4, 1} : init == 2 ? std::vector<int>{3} : init == 3 ? std::vector<int>{5, 1, 2, 3, 4} : std::vector<int>{}) { l.h[0] = LCAppend(l.c, l.h[0], x); l.L[0].push_back(x); } sameL(l);
    for (int j = 0; j < len; j++, i /= NLC) { trace += std::string("; ") + lcn[i % NLC]; if (!lcOp(i % NLC, j & 1, l, o, c)) break; }
    std::string s; for (auto *q : {&l, &o}) for (auto &v : q->L) { for (int x : v) s += fmt("%d ", x); s += '|'; } LCFree(&l.c); LCFree(&o.c); if (l.c || o.c) FAIL("LCFree left the pointer"); c.eval(); c.outcome(hashs(s));
}
// ------------------------------------------------------------------ string buffer
struct Sb { strBufP b = nullptr; std::string m; size_t pos = 0; };
static void sameS(Sb &s, const char *n) {
    if (!sb_GetFullString(s.b)) FAIL("buffer %s has no string", n); if (s.m != sb_GetFullString(s.b)) FAIL("buffer %s holds '%s', should hold '%s'", n, sb_GetFullString(s.b), s.m.c_str());
    if (sb_GetSize(s.b) != (int)s.m.size()) FAIL("buffer %s has size %d, should be %zu", n, sb_GetSize(s.b), s.m.size()); if (sb_GetCapacity(s.b) < (int)s.m.size()) FAIL("buffer %s has capacity %d for %zu characters", n, sb_GetCapacity(s.b), s.m.size());
    if (sb_GetReadPos(s.b) != (int)s.pos || s.m.substr(s.pos) != sb_GetReadString(s.b)) FAIL("buffer %s is read at %d ('%s'), should be at %zu", n, sb_GetReadPos(s.b), sb_GetReadString(s.b), s.pos);
}
enum { NSB = 20 };
static const char *sbn[NSB] = {"concat ''", "concat 'a'", "concat ' -12'", "concat '7\\n+3x'", "concat a string of 9", "concat char b", "concat char space", "concat no string", "clear A", "copy B<-A", "copy A<-B", "B = duplicate A", "take A", "skip space A", "skip integer A", "skip char A", "rewind A", "read position A to the end", "concat B 'zz'", "new A of capacity 0"};
static bool sbOp(int op, Sb &a, Sb &b, Ctx &c) {
    auto expect = [&](int got) { if (got != OK) FAIL("%s returned %d", sbn[op], got); }; auto cat = [&](Sb &x, const char *s) { expect(sb_ConcatString(x.b, (char *)s)); if (s) x.m += s; };
    switch (op) {
    case 0: cat(a, ""); break; case 1: cat(a, "a"); break; case 2: cat(a, " -12"); break; case 3: cat(a, "7\n+3x"); break; case 4: cat(a, "\t45678901"); break;
    case 5: expect(sb_ConcatChar(a.b, 'b')); a.m += 'b'; break; case 6: expect(sb_ConcatChar(a.b, ' ')); a.m += ' '; break; case 7: cat(a, nullptr); break;
    case 8: sb_ClearBuf(a.b); a.m = ""; a.pos = 0; break;
    case 9: expect(sb_Copy(b.b, a.b)); b.m = a.m; b.pos = 0; break;
    case 10: expect(sb_Copy(a.b, b.b)); a.m = b.m; a.pos = 0; break;
    case 11: { strBufP d = sb_Duplicate(a.b); if (!d) FAIL("sb_Duplicate failed"); sb_Free(&b.b); if (b.b) FAIL("sb_Free left the pointer"); b = {d, a.m, 0}; } break;
    case 12: { char *s = sb_TakeString(a.b); if (!s || a.m != s) { FAIL("took '%s' instead of '%s'", s ? s : "(null)", a.m.c_str()); } free(s); a.m = ""; a.pos = 0; } break;
    case 13: sb_ReadSkipWhitespace(a.b); while (a.pos < a.m.size() && isspace((unsigned char)a.m[a.pos])) a.pos++; break;
    case 14: sb_ReadSkipInteger(a.b); if (a.pos < a.m.size() && (a.m[a.pos] == '-' || a.m[a.pos] == '+')) a.pos++; while (a.pos < a.m.size() && isdigit((unsigned char)a.m[a.pos])) a.pos++; break;
    case 15: if (a.pos >= a.m.size()) return false; sb_ReadSkipChar(a.b); a.pos++; break;
    case 16: sb_SetReadPos(a.b, 0); a.pos = 0; break; case 17: sb_SetReadPos(a.b, (int)a.m.size()); a.pos = a.m.size(); break;
    case 18: cat(b, "zz"); break;
    case 19: sb_Free(&a.b); a = {sb_New(0), "", 0}; if (!a.b) FAIL("sb_New failed"); break;
    }
    sameS(a, "A"); sameS(b, "B"); c.trans++; c.states++; return true;
}
static void sbSeq(uint64_t i, int len, Ctx &c) {
    static const int caps[4][2] = {{0, 0}, {1, 0}, {3, 20}, {100, 2}}; int q = i % 4; i /= 4; trace = fmt("buffers of capacity %d and %d", caps[q][0], caps[q][1]);
    Sb a{sb_New(caps[q][0])}, b{sb_New(caps[q][1])}; if (!a.b || !b.b) fail("sb_New failed"); sameS(a, "A"); sameS(b, "B");
    for (int j = 0; j < len; j++, i /= NSB) { trace += std::string("; ") + sbn[i % NSB]; if (!sbOp(i % NSB, a, b, c)) break; }
    sb_Free(&a.b); sb_Free(&b.b); c.eval(); c.outcome(hashs(a.m + "|" + b.m + fmt("|%zu", a.pos)));
}
// ------------------------------------------------------------------ string or file
static std::vector<std::string> sfTexts() { std::vector<std::string> r; for (int n = 0; n <= 4; n++) for (int m = 0; m < 1 << n; m++) { std::string s; for (int j = 0; j < n; j++) s += m >> j & 1 ? '\n' : (char)('a' + j); r.push_back(s); } r.push_back("ab\r\nc\r\n"); r.push_back("\r\n\r\n"); r.push_back("~~~}\xc2\n"); r.push_back("one line without an end that is longer"); return r; }
static char *hstr(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
static void sfRead(uint64_t i, int len, Ctx &c) {
    static std::vector<std::string> T = sfTexts(); std::string t = T[i % T.size()]; i /= T.size();
    for (int file = 0; file < 2; file++) {
        trace = fmt("a %s of %zu characters", file ? "file" : "string", t.size()); FILE *f = nullptr; if (file) { f = tmpfile(); fputs(t.c_str(), f); rewind(f); }
        strOrFileP s = file ? sf_New(f, NULL) : sf_New(NULL, hstr(t)); if (!s) fail("sf_New failed"); size_t pos = 0; int last = -1; uint64_t k = i; uint64_t h = 0;
        for (int j = 0; j < len; j++, k /= 7) {
            int op = k % 7; 
            if (op == 0) { trace += "; getc"; char ch = sf_getc(s); if (pos >= t.size()) { if (ch != (char)EOF) FAIL("character %d after the end", ch); last = -1; } else { if (ch != t[pos]) FAIL("character %d instead of %d", ch, t[pos]); last = (unsigned char)t[pos++]; } h = h * 31 + ch; }
            else if (op == 1) { if (last < 0) break; trace += "; ungetc"; char ch = sf_ungetc((char)last, s); if (ch != (char)last) FAIL("sf_ungetc returned %d", ch); pos--; last = -1; }
            else { int n = op == 2 ? 1 : op == 3 ? 2 : op == 4 ? 3 : op == 5 ? 10 : 0; trace += fmt("; fgets %d", n); std::vector<char> buf(n + 4, '#'); char *b = buf.data() + 2, *r = sf_fgets(b, n, s); last = -1; std::string w; while (pos + w.size() < t.size() && (int)w.size() < n - 1) { w += t[pos + w.size()]; if (w.back() == '\n') break; }
                if (n == 0) { if (buf != std::vector<char>(4, '#')) FAIL("sf_fgets with room for no character wrote into the buffer"); continue; }
                if (n > 1 && pos >= t.size()) { if (r) FAIL("a line was read after the end"); } else if (n > 1) { if (r != b || w != b) FAIL("read '%s' instead of '%s'", r ? r : "(null)", w.c_str()); pos += w.size(); } else if (r && *r) FAIL("sf_fgets of one character read '%s'", r);
                for (int q : {0, 1, n + 2, n + 3}) if (buf[q] != '#') FAIL("sf_fgets wrote outside the buffer"); h = h * 31 + hashs(w); }
            c.trans++; c.states++;
        }
        if (sf_closeFile(s) != OK) FAIL("sf_closeFile failed"); sf_Free(&s); if (s) FAIL("sf_Free left the pointer"); c.eval(); c.outcome(h);
    }
}
static void sfWrite(uint64_t i, int len, Ctx &c) {
    static const char *W[] = {"", "x", "yz\n", "a longer piece of text that needs room"}; std::string want[2], got[2]; int initial = i % 3; i /= 3;
    for (int file = 0; file < 2; file++) {
        trace = file ? "a file" : "a string"; char *mem = nullptr; size_t msz = 0; FILE *f = file ? open_memstream(&mem, &msz) : nullptr; std::string m = file || !initial ? "" : initial == 1 ? "s" : "start of it "; strOrFileP s = file ? sf_New(f, NULL) : sf_New(NULL, hstr(m)); if (!s) fail("sf_New failed"); uint64_t k = i;
        for (int j = 0; j < len; j++, k /= 5) { int op = k % 5; if (op < 4) { trace += fmt("; fputs '%s'", W[op]); int r = sf_fputs((char *)W[op], s); if (r < 0) FAIL("sf_fputs returned %d", r); m += W[op]; } else { trace += "; no string"; if (sf_fputs(NULL, s) >= 0) FAIL("writing no string succeeded"); } if (!file && m != s->theStr) FAIL("the string is '%s', should be '%s'", s->theStr, m.c_str()); c.trans++; }
        if (file) { if (sf_closeFile(s) != OK) FAIL("sf_closeFile failed"); got[1] = std::string(mem, msz); free(mem); if (sf_takeTheStr(s)) FAIL("a string was taken from a file"); } else { char *p = sf_takeTheStr(s); got[0] = p ? p : "(null)"; free(p); if (sf_takeTheStr(s)) FAIL("the string can be taken twice"); if (sf_fputs((char *)"x", s) >= 0) FAIL("writing after the string was taken succeeded"); }
        if (got[file] != m) FAIL("wrote '%s', should be '%s'", got[file].c_str(), m.c_str()); sf_Free(&s); c.eval(); c.outcome(hashs(m));
    }
}
static void odd(uint64_t, Ctx &c) {
    trace = "single calls"; if (sp_New(-1)) {} if (sb_New(-1)) FAIL("sb_New(-1) gave a buffer"); if (LCNew(0) || LCNew(-3)) FAIL("LCNew without elements gave a collection"); stackP s = nullptr; sp_Free(&s); sp_Free(nullptr); listCollectionP l = nullptr; LCFree(&l); LCFree(nullptr); strBufP b = nullptr; sb_Free(&b); sb_Free(nullptr); strOrFileP f = nullptr; sf_Free(&f); sf_Free(nullptr);
    if (sf_New(NULL, NULL)) FAIL("sf_New without string and file gave a container"); char x[2] = "x"; if (sf_New(stdin, x)) FAIL("sf_New with string and file gave a container"); if (sb_ConcatString(nullptr, (char *)"a") == OK) FAIL("sb_ConcatString without buffer succeeded"); if (sb_ConcatChar(nullptr, 'a') == OK) FAIL("sb_ConcatChar without buffer succeeded"); if (sb_TakeString(nullptr)) FAIL("sb_TakeString without buffer gave a string"); sb_ClearBuf(nullptr); if (sb_Duplicate(nullptr)) FAIL("sb_Duplicate without buffer gave one"); b = sb_New(3); if (sb_Copy(b, nullptr) == OK || sb_Copy(nullptr, b) == OK) FAIL("sb_Copy without buffer succeeded"); sb_Free(&b);
    if (sf_getc(nullptr) != 0) FAIL("sf_getc without container"); char q[4]; if (sf_fgets(q, 3, nullptr) || sf_fgets(nullptr, 3, nullptr)) FAIL("sf_fgets without container gave text"); c.eval();
}
static uint64_t pw(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    static vp::Check c("P25", "model_checking", "every sequence of operations of the stated length on the real objects, compared after each operation with a plain sequence or string, in the optimized and (by a second process) in the debugging configuration; a sequence ends at an operation whose precondition does not hold; a transition is one operation, an outcome a distinct final content");
    c.assumptions = {"operations of the optimized configuration are called within their preconditions (room to push, elements to pop)", "address and undefined-behaviour sanitizers watch every access"};
    struct F { std::string n; uint64_t k; std::function<void(uint64_t, Ctx &)> f; }; std::vector<F> V;
    for (int l = 1; l <= (th ? 5 : 4); l++) { V.push_back({fmt("stack-%d-operations", l), 6 * pw(NST, l), [l](uint64_t i, Ctx &x) { stackSeq(i, l, x); }}); V.push_back({fmt("lists-%d-operations", l), 4 * pw(NLC, l), [l](uint64_t i, Ctx &x) { lcSeq(i, l, x); }}); V.push_back({fmt("strbuf-%d-operations", l), 4 * pw(NSB, l), [l](uint64_t i, Ctx &x) { sbSeq(i, l, x); }}); }
    for (int l = 1; l <= (th ? 5 : 3); l++) V.push_back({fmt("reading-%d-operations", l), 35 * pw(7, l), [l](uint64_t i, Ctx &x) { sfRead(i, l, x); }}); for (int l = 1; l <= (th ? 6 : 5); l++) V.push_back({fmt("writing-%d-operations", l), 3 * pw(5, l), [l](uint64_t i, Ctx &x) { sfWrite(i, l, x); }});
    V.push_back({"refused-arguments", 1, odd}); auto desc = [](uint64_t) { return trace; };
    for (auto &f : V) c.add(f.n, f.k, f.f); int base = 0;
    for (size_t k = 0; k < V.size(); k++) { uint64_t n = V[k].k; // the twin runs 64 at a time
        c.add("debugging-" + V[k].n, (n + 63) / 64, [k](uint64_t i, Ctx &x) { c.twinRun((int)k, i, x); }); }
    // in the twin, a request for family k, index i runs the cases 64*i ... of family k
#ifdef TWIN
    for (size_t k = 0; k < V.size(); k++) { auto f = V[k].f; uint64_t n = V[k].k; c.fams[k].run = [f, n](uint64_t i, Ctx &x) { for (uint64_t j = i * 64; j < n && j < i * 64 + 64; j++) f(j, x); }; }
#endif
    (void)desc; (void)base; c.budget = th ? 700 : 250; c.hangLimit = 60;
    return c.main(argc, argv);
}

/* Stack, list collection and string buffer against plain models under every sequence of STEPS operations.
   DBG: the checked functions behind the debug build; otherwise the macros of the normal build. */
#ifdef DBG
#define _DEBUG
#define sp_New d_sp_New
#define sp_Free d_sp_Free
#define sp_Copy d_sp_Copy
#define sp_CopyContent d_sp_CopyContent
#define sp_Duplicate d_sp_Duplicate
#define LCNew d_LCNew
#define LCFree d_LCFree
#define LCInsertAfter d_LCInsertAfter
#define LCInsertBefore d_LCInsertBefore
#include "lowLevelUtils/appconst.h"
#include "lowLevelUtils/stack.c"
#include "lowLevelUtils/listcoll.c"
#include "vs.h"
#else
#include "oracle.h"
#include "lowLevelUtils/stack.h"
#include "lowLevelUtils/listcoll.h"
#endif
#include "io/strbuf.h"
#include <stdlib.h>
#include <string.h>
#ifndef KIND
#define KIND 0
#endif
#ifndef CAPX
#define CAPX 3
#endif
#ifdef DBG
#define DBGX 1
#else
#define DBGX 0
#endif
#define MX 12
#if KIND == 0
typedef struct { int a[MX], n; } mstack;
static mstack A, B;
static void same(stackP s, mstack *m, int lo) {
  vs_assert(sp_GetCurrentSize(s) == m->n, "stack size"); vs_assert(!!(sp_IsEmpty(s)) == (m->n == 0) && !!(sp_NonEmpty(s)) == (m->n > 0), "stack emptiness");
  for (int i = 0; i < MX; i++) if (i < m->n) vs_assert(sp_Get(s, i) == m->a[i], "stack content");
  if (m->n > 0) vs_assert(sp_Top(s) == m->a[m->n - 1], "top of stack"); else vs_assert(sp_Top(s) == NIL, "top of empty stack");
  vs_assert(sp_GetCapacity(s) >= m->n && sp_GetCapacity(s) >= lo, "stack capacity");
}
#ifdef DBG
static int pu(stackP s, int a) { sp_Push(s, a); return OK; }
static int pu2(stackP s, int a, int b) { sp_Push2(s, a, b); return OK; }
static int po(stackP s, int *a) { sp_Pop(s, *a); return OK; }
static int po2(stackP s, int *a, int *b) { sp_Pop2(s, *a, *b); return OK; }
static int pod(stackP s) { sp_Pop_Discard(s); return OK; }
static int po2d(stackP s) { sp_Pop2_Discard(s); return OK; }
static int po2d1(stackP s, int *a) { sp_Pop2_Discard1(s, *a); return OK; }
#define EMPTY(x) 1
#define FULL(x) 1
#else
static int pu(stackP s, int a) { sp_Push(s, a); return OK; }
static int pu2(stackP s, int a, int b) { sp_Push2(s, a, b); return OK; }
static int po(stackP s, int *a) { sp_Pop(s, *a); return OK; }
static int po2(stackP s, int *a, int *b) { sp_Pop2(s, *a, *b); return OK; }
static int pod(stackP s) { sp_Pop_Discard(s); return OK; }
static int po2d(stackP s) { sp_Pop2_Discard(s); return OK; }
static int po2d1(stackP s, int *a) { sp_Pop2_Discard1(s, *a); return OK; }
#define EMPTY(x) (x)   /* the macros of the normal build leave the limits to their callers */
#define FULL(x) (x)
#endif
void harness(void) {
  int c1 = vs_range("capA", 1, CAPX), c2 = vs_range("capB", 1, CAPX); stackP s = sp_New(c1), t = sp_New(c2), d = 0; int lo = c1, lo2 = c2;
  vs_assert(s && t && sp_GetCapacity(s) == c1, "creating a stack failed"); A.n = B.n = 0;
  for (int k = 0; k < STEPS; k++) {
    int op = vs_range("op", 0, 13), v = vs_range("v", 0, 3), w = 10 + k, x = -7, y = -8, ok = 1, r = OK;
    switch (op) {
    case 0: case 1: ok = A.n < sp_GetCapacity(s); if (FULL(ok)) { r = pu(s, v); if (ok) A.a[A.n++] = v; else vs_cover("full"); } break;
    case 2: ok = A.n + 1 < sp_GetCapacity(s); if (FULL(ok)) { r = pu2(s, v, w); if (ok) { A.a[A.n++] = v; A.a[A.n++] = w; } } break;
    case 3: ok = A.n >= 1; if (EMPTY(ok)) { r = po(s, &x); if (ok) vs_assert(x == A.a[--A.n], "popped value"); else vs_cover("empty"); } break;
    case 4: ok = A.n >= 2; if (EMPTY(ok)) { r = po2(s, &x, &y); if (ok) { vs_assert(y == A.a[A.n - 1] && x == A.a[A.n - 2], "popped pair"); A.n -= 2; } } break;
    case 5: ok = A.n >= 1; if (EMPTY(ok)) { r = pod(s); if (ok) A.n--; } break;
    case 6: ok = A.n >= 2; if (EMPTY(ok)) { r = po2d(s); if (ok) A.n -= 2; } break;
    case 7: ok = A.n >= 2; if (EMPTY(ok)) { r = po2d1(s, &x); if (ok) { vs_assert(x == A.a[A.n - 2], "popped main value"); A.n -= 2; } } break;
    case 8: ok = v <= A.n; if (ok) { sp_SetCurrentSize(s, v); A.n = v; } else ok = 1; r = OK; if (sp_GetCapacity(s) < MX) vs_assert(sp_SetCurrentSize(s, sp_GetCapacity(s) + 1) == NOTOK, "size beyond the capacity"); break;
    case 9: if (v < A.n) { vs_assert(sp_Set(s, v, w) == w, "setting a value"); A.a[v] = w; } break;
    case 10: sp_ClearStack(s); A.n = 0; break;
    case 11: r = sp_CopyContent(t, s); ok = A.n <= sp_GetCapacity(t); if (ok) B = A; break;
    case 12: r = v & 1 ? sp_Copy(t, s) : sp_Copy(s, t); if (v & 1) { B = A; lo2 = 0; } else { A = B; lo = 0; } vs_cover("copied"); break;
    case 13: d = sp_Duplicate(s); vs_assert(d != 0 && d != s, "duplicating failed"); same(d, &A, sp_GetCapacity(s)); if (A.n) sp_Set(d, 0, 99); sp_Free(&d); vs_assert(d == 0, "freeing"); break;
    }
    vs_assert(r == (ok || !(op == 11 || FULL(1) && DBGX) ? OK : NOTOK), "status of a stack operation"); same(s, &A, lo); same(t, &B, lo2);
  }
  /* what is reported as capacity can be used */
  for (int i = 0; i < MX; i++) if (A.n < sp_GetCapacity(s)) { vs_assert(pu(s, i) == OK, "pushing up to the capacity"); A.a[A.n++] = i; } same(s, &A, lo);
  for (int i = 0; i < MX; i++) if (B.n < sp_GetCapacity(t)) { vs_assert(pu(t, i) == OK, "pushing up to the capacity"); B.a[B.n++] = i; } same(t, &B, lo2);
  sp_Free(&s); sp_Free(&t); sp_Free(&t); vs_no_leaks();
}
#elif KIND == 1
#ifndef NODES
#define NODES 4
#endif
typedef struct { int a[NODES + 1], n; } ml;
static ml L[2];
static void ins(ml *m, int at, int v) { for (int i = NODES; i > at; i--) m->a[i] = m->a[i - 1]; m->a[at] = v; m->n++; }
static void same(listCollectionP c, int head, ml *m) {
  vs_assert(m->n == 0 ? head == NIL : head == m->a[0], "head of the list"); int e = head, p;
  if (m->n > 0) { for (int i = 0; i < NODES; i++) if (i < m->n) { vs_assert(e == m->a[i], "order of the list"); e = LCGetNext(c, head, e); } vs_assert(e == NIL, "end of the list");
    p = LCGetPrev(c, head, NIL); for (int i = NODES - 1; i >= 0; i--) if (i < m->n) { vs_assert(p == m->a[i], "backward order of the list"); p = LCGetPrev(c, head, p); } vs_assert(p == NIL, "beginning of the list"); }
}
void harness(void) {
  listCollectionP c = LCNew(NODES + 1), d = LCNew(NODES + 1), z = LCNew(0); vs_assert(c && d && !z, "creating lists"); int h[2] = {NIL, NIL}; L[0].n = L[1].n = 0;
  for (int k = 0; k < STEPS; k++) {
    int op = vs_range("op", 0, 6), q = vs_range("list", 0, 1), v = vs_range("node", 1, NODES), at = vs_range("at", 0, NODES - 1); ml *m = &L[q]; int in[2] = {-1, -1};
    for (int l = 0; l < 2; l++) for (int i = 0; i < NODES; i++) if (i < L[l].n && L[l].a[i] == v) in[l] = i;
    int isfree = in[0] < 0 && in[1] < 0;
    if (op == 0 && isfree) { h[q] = LCAppend(c, h[q], v); ins(m, m->n, v); vs_cover("append"); }
    if (op == 1 && isfree) { h[q] = LCPrepend(c, h[q], v); ins(m, 0, v); vs_cover("prepend"); }
    if (op == 2 && isfree && at < m->n) { LCInsertAfter(c, m->a[at], v); ins(m, at + 1, v); vs_cover("insert after"); }
    if (op == 3 && isfree && at < m->n) { LCInsertBefore(c, m->a[at], v); ins(m, at ? at : m->n, v); vs_cover("insert before"); }
    if (op == 4 && in[q] >= 0) { h[q] = LCDelete(c, h[q], v); for (int i = 0; i < NODES; i++) if (i >= in[q]) m->a[i] = m->a[i + 1]; m->n--; vs_cover("delete"); }
    if (op == 5) { LCCopy(d, c); same(d, h[q], m); if (m->n) { int e = LCDelete(d, h[q], m->a[0]); (void)e; } }
    if (op == 6) { LCReset(d); int e = LCAppend(d, NIL, v); vs_assert(e == v, "list of one"); e = LCDelete(d, e, v); vs_assert(e == NIL, "list of none"); }
    same(c, h[0], &L[0]); same(c, h[1], &L[1]);
  }
  LCFree(&c); LCFree(&d); LCFree(&d); vs_assert(!c && !d, "freeing"); vs_no_leaks();
}
#else
#define MT 40
typedef struct { char s[MT]; int n, pos; } mt;
static mt A, B;
static void same(strBufP b, mt *m) {
  vs_assert(sb_GetSize(b) == m->n && sb_GetFullString(b)[m->n] == 0, "length of the text"); for (int i = 0; i < MT; i++) if (i < m->n) vs_assert(sb_GetFullString(b)[i] == m->s[i], "text");
  vs_assert(sb_GetReadPos(b) == m->pos && sb_GetReadString(b) == sb_GetFullString(b) + m->pos, "read position"); vs_assert(sb_GetCapacity(b) >= m->n, "capacity of the buffer");
}
static void put(mt *m, const char *s) { for (int i = 0; s[i]; i++) { vs_assert(m->n < MT - 1, "model: text"); m->s[m->n++] = s[i]; } m->s[m->n] = 0; }
static int sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int dg(int c) { return c >= '0' && c <= '9'; }
static const char *const W[] = {"", "1", " 2", "-3\n", "a+44 "};
static const char CH[] = "7 -x\n";
void harness(void) {
  strBufP s = sb_New(vs_range("capA", 0, 4)), t = sb_New(vs_range("capB", 0, 4)), d = 0, z = sb_New(-1); vs_assert(s && t && !z, "creating a buffer"); A.n = A.pos = B.n = B.pos = 0;
  for (int k = 0; k < STEPS; k++) {
    int op = vs_range("op", 0, 9), v = vs_range("v", 0, 4); char w[8]; strcpy(w, W[v]);
    switch (op) {
    case 0: vs_assert(sb_ConcatString(s, w) == OK, "appending failed"); put(&A, w); break;
    case 1: { char c[2] = {CH[v], 0}; vs_assert(sb_ConcatChar(s, c[0]) == OK, "appending failed"); put(&A, c); break; }
    case 2: sb_ReadSkipWhitespace(s); while (A.pos < A.n && sp(A.s[A.pos])) A.pos++; break;
    case 3: sb_ReadSkipInteger(s); if (A.pos < A.n && (A.s[A.pos] == '-' || A.s[A.pos] == '+')) A.pos++; while (A.pos < A.n && dg(A.s[A.pos])) A.pos++; vs_cover("integer"); break;
    case 4: sb_ReadSkipChar(s); if (A.pos < A.n) A.pos++; break;
    case 5: sb_ClearBuf(s); A.n = A.pos = 0; break;
    case 6: { int e = v & 1; vs_assert(sb_Copy(e ? t : s, e ? s : t) == OK, "copying failed"); strBufP y = e ? t : s; mt *m = e ? &B : &A; *m = e ? A : B; vs_assert(y->readPos >= 0 && y->readPos <= m->n, "read position outside the text"); m->pos = y->readPos; vs_cover("copied"); break; }
    case 7: d = sb_Duplicate(s); vs_assert(d != 0 && d->readPos >= 0 && d->readPos <= A.n, "duplicating failed"); { mt m = A; m.pos = d->readPos; same(d, &m); sb_ConcatString(d, w); put(&m, w); same(d, &m); } sb_Free(&d); vs_assert(d == 0, "freeing"); break;
    case 8: { char *x = sb_TakeString(s); vs_assert(x != 0 && x[A.n] == 0, "taken text"); for (int i = 0; i < MT; i++) if (i < A.n) vs_assert(x[i] == A.s[i], "taken text"); free(x); A.n = A.pos = 0; vs_cover("taken"); break; }
    case 9: if (v <= A.n) { sb_SetReadPos(s, v); A.pos = v; } break;
    }
    same(s, &A); same(t, &B);
  }
  sb_Free(&s); sb_Free(&t); sb_Free(&t); vs_no_leaks();
}
#endif

/* One memory request fails, whichever it is: SC selects the operation */
#include "oracle.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "planarityRelated/graphDrawPlanar.h"
#include "homeomorphSearch/graphK23Search.h"
#include "homeomorphSearch/graphK33Search.h"
#include "homeomorphSearch/graphK4Search.h"
#include "io/g6-read-iterator.h"
#include "io/g6-write-iterator.h"
#ifndef EXTC
#define EXTC 0
#endif
#ifndef EXTD
#define EXTD 0
#endif
#ifndef FMT
#define FMT 0
#endif
#ifndef MAXF
#define MAXF 40
#endif
static const int flagsOf[] = {EMBEDFLAGS_PLANAR, EMBEDFLAGS_OUTERPLANAR, EMBEDFLAGS_SEARCHFORK23, EMBEDFLAGS_SEARCHFORK33, EMBEDFLAGS_SEARCHFORK4, EMBEDFLAGS_DRAWPLANAR};
static int attach(graphP g, int c) { return c == 2 ? gp_AttachK23Search(g) : c == 3 ? gp_AttachK33Search(g) : c == 4 ? gp_AttachK4Search(g) : c == 5 ? gp_AttachDrawPlanar(g) : OK; }
static int detach(graphP g, int c) { return c == 2 ? gp_DetachK23Search(g) : c == 3 ? gp_DetachK33Search(g) : c == 4 ? gp_DetachK4Search(g) : c == 5 ? gp_DetachDrawPlanar(g) : OK; }
static esym s; static omat m, x; static graphP g, h; static int fail, cnt;
static void fail_on(void) { vs_alloc_count = 0; vs_alloc_fail_at = fail; }
static void fail_off(void) { cnt = vs_alloc_count; vs_alloc_fail_at = -1; vs_assert(cnt <= MAXF, "model: more memory requests than the bound"); }
/* r: status of the operation; one of its requests failed exactly when fail < cnt */
static void status(int r, int good) { vs_assert(r == OK || r == NOTOK || r == NONEMBEDDABLE, "undefined status"); if (fail >= 0 && fail < cnt) { if (r == OK) vs_cover("survived"); else vs_cover("reported"); } else { vs_assert(r == good, "the operation fails although memory is available"); vs_cover("enough memory"); } }
static char T[512]; 
static void usable(graphP p) { vs_assert(gp_AddEdge(p, 1, 0, 2, 0) != NOTOK, "the graph cannot be used any more"); }
static int text(graphP p, char *b, int mode) { char *t = 0; vs_assert(gp_WriteToString(p, &t, mode) == OK && t, "writing failed"); int n = (int)strlen(t); vs_assert(n < (int)sizeof T, "model: text"); strcpy(b, t); free(t); return n; }
void harness(void) {
  fail = vs_range("fail", -1, MAXF); int r = OK;
#if SC == 0     /* construction, the extension attached before or after the order is known */
  int early = vs_range("early", 0, 1), r1 = OK, r2 = NOTOK; fail_on();
  g = gp_New();
  if (g) { if (early) { r1 = attach(g, EXTC); if (r1 == OK) r1 = attach(g, EXTD); }
    if (r1 == OK) { r2 = gp_InitGraph(g, NN); if (r2 == OK && !early) { r1 = attach(g, EXTC); if (r1 == OK) r1 = attach(g, EXTD); } } }
  fail_off(); r = !g ? NOTOK : r1 == OK && r2 == OK ? OK : NOTOK; status(r, OK);
  if (g) { if (r != OK) { /* what was not done can be done now that memory is available */
      vs_assert(g->N == (r2 == OK ? NN : 0), "a failed initialization leaves a half-built graph"); if (r2 != OK) vs_assert(gp_InitGraph(g, NN) == OK, "initializing again failed"); vs_assert(attach(g, EXTC) == OK && attach(g, EXTD) == OK, "attaching again failed"); }
    vs_assert(g->N == NN && g->M == 0, "wrong graph"); usable(g); vs_assert(gp_AddEdge(g, 3, 0, 2, 0) == OK, "adding failed"); vs_assert(gp_Embed(g, flagsOf[EXTC]) != NOTOK, "embedding failed"); if (EXTC) vs_assert(detach(g, EXTC) == OK, "detaching failed"); gp_ReinitializeGraph(g); usable(g); vs_assert(gp_Embed(g, 1) == OK, "embedding failed"); if (EXTD) vs_assert(detach(g, EXTD) == OK, "detaching failed"); vs_assert(gp_EnsureArcCapacity(g, 40) == OK, "growing failed"); }
#elif SC == 1   /* duplicating */
  g = sym_graph(&s, &m, NN); vs_assert(attach(g, EXTC) == OK && attach(g, EXTD) == OK, "attaching failed"); fail_on(); h = gp_DupGraph(g); fail_off();
  status(h ? OK : NOTOK, OK); vs_assert(same_edges(g, &m), "duplicating changed the source"); if (h) vs_assert(same_edges(h, &m), "the duplicate differs");
  vs_assert(gp_Embed(g, flagsOf[EXTC]) != NOTOK, "the source cannot be used any more"); if (h) vs_assert(gp_Embed(h, flagsOf[EXTC]) != NOTOK, "the duplicate cannot be used");
#elif SC == 2   /* copying into another graph */
  g = sym_graph(&s, &m, NN); vs_assert(attach(g, EXTC) == OK, "attaching failed"); h = gp_New(); 
#ifdef DCAP
  gp_EnsureArcCapacity(h, DCAP);
#endif
  vs_assert(gp_InitGraph(h, NN) == OK && gp_AddEdge(h, 1, 0, 2, 0) == OK, "init"); if (vs_range("other", 0, 1)) attach(h, EXTD);
  int lists = vs_range("lists", 0, 1); fail_on(); r = lists ? gp_CopyAdjacencyLists(h, g) : gp_CopyGraph(h, g); fail_off(); status(r, OK);
  vs_assert(same_edges(g, &m), "copying changed the source"); if (r == OK) vs_assert(same_edges(h, &m), "the copy differs"); vs_assert(gp_Embed(g, flagsOf[EXTC]) != NOTOK, "the source cannot be used any more");
  gp_ReinitializeGraph(h); usable(h);
#elif SC == 3   /* growing */
  g = gp_New(); gp_EnsureArcCapacity(g, 4); vs_assert(gp_InitGraph(g, NN) == OK, "init"); attach(g, EXTC); gp_AddEdge(g, 1, 0, 2, 0); gp_AddEdge(g, 2, 0, 3, 0); int op = vs_range("op", 0, 1); fail_on();
  r = op == 0 ? gp_EnsureArcCapacity(g, 40) : gp_DynamicAddEdge(g, 1, 0, 3, 0); fail_off(); status(r, OK);
  om_of_graph(g, &x); vs_assert(x.a[1][2] == 1 && x.a[2][3] == 1 && x.a[1][3] == (r == OK && op), "the graph was damaged");
  if (r != OK) { vs_assert(g->arcCapacity == 4 && gp_GetArcCapacity(g) == 4, "a failed growth changed the capacity"); vs_assert(gp_DynamicAddEdge(g, 1, 0, 3, 0) == OK, "growing later failed"); om_of_graph(g, &x); vs_assert(x.a[1][3] == 1, "the graph was damaged"); }
#elif SC == 4   /* running an algorithm and having its result checked */
  g = sym_graph(&s, &m, NN); vs_assert(attach(g, EXTC) == OK, "attaching failed"); h = gp_DupGraph(g); vs_assert(h != 0, "gp_DupGraph failed"); int chk = vs_range("chk", 0, 1);
  if (!chk) fail_on(); r = gp_Embed(g, flagsOf[EXTC]); if (!chk) { fail_off(); status(r, r == OK ? OK : NONEMBEDDABLE); }
  if (r != NOTOK) { if (chk) fail_on(); int q = gp_TestEmbedResultIntegrity(g, h, r); if (chk) { fail_off(); status(q, r); } else vs_assert(q == r, "the result does not pass its check"); }
#elif SC == 5   /* reading */
  g = sym_graph(&s, &m, NN); int n = text(g, T, FMT), via = vs_range("via", 0, 1); h = gp_New(); vs_assert(attach(h, EXTC) == OK, "attaching failed"); char *t = malloc(n + 1); strcpy(t, T); vs_file_put("in", T, n);
  char name[4] = "in"; if (via) free(t); fail_on(); r = via ? gp_Read(h, name) : gp_ReadFromString(h, t); fail_off(); status(r, OK); if (r == OK) vs_assert(same_edges(h, &m), "another graph was read");
#elif SC == 6   /* writing */
  g = sym_graph(&s, &m, NN); int n = text(g, T, FMT), via = vs_range("via", 0, 1); char *t = 0; static char T2[512]; char name[4] = "out"; fail_on(); r = via ? gp_Write(g, name, FMT) : gp_WriteToString(g, &t, FMT); fail_off(); status(r, OK);
  if (r == OK) { int k; if (via) { k = vs_file_get(name, T2, 511); T2[k < 0 ? 0 : k] = 0; } else { vs_assert(t != 0, "no text"); strcpy(T2, t); } vs_assert(strcmp(T, T2) == 0, "another text was written"); }
  else vs_assert(t == 0, "a failed write delivers a text"); if (t) free(t); vs_assert(same_edges(g, &m), "writing changed the graph");
#elif SC == 7   /* drawing */
  g = sym_graph(&s, &m, NN); vs_assert(attach(g, 5) == OK, "attaching failed"); r = gp_Embed(g, EMBEDFLAGS_DRAWPLANAR); int via = vs_range("via", 0, 2); vs_assume(r == OK && om_edges(&m) > 0); char *t = 0, *u = 0; char name[4] = "out", *data = 0; fail_on();
  r = via == 0 ? gp_DrawPlanar_RenderToString(g, &t) : via == 1 ? gp_DrawPlanar_RenderToFile(g, name) : gp_WriteToString(g, &t, WRITE_ADJLIST); fail_off(); status(r, OK); if (r == OK && via != 1) { vs_assert(t != 0, "no text"); if (via == 0) { vs_assert(gp_DrawPlanar_RenderToString(g, &u) == OK && u && strcmp(t, u) == 0, "another rendition"); } else vs_assert(gp_WriteToString(g, &u, WRITE_ADJLIST) == OK && u && strcmp(t, u) == 0, "another text"); }
  if (r != OK) vs_assert(t == 0, "a failed operation delivers a text"); if (t) free(t); if (u) free(u); (void)data;
#elif SC == 8   /* graph6 iterators: reading two graphs */
  g = gp_New(); G6ReadIterator *it = 0; graphP p = 0; int via = vs_range("via", 0, 1), got = 0; const char *w = "Bw\nBo\n"; char *t = malloc(7); strcpy(t, w); vs_file_put("in", w, 6); char name[4] = "in"; if (via) free(t); fail_on();
  r = allocateG6ReadIterator(&it, g); int begun = 0, noInput = 0;
  if (r == OK) { r = via ? beginG6ReadIterationFromG6FilePath(it, name) : beginG6ReadIterationFromG6String(it, t); begun = 1; noInput = it->g6Input == 0; if (r == OK) { for (int k = 0; k < 3 && r == OK; k++) { r = readGraphUsingG6ReadIterator(it); if (r == OK) { getPointerToGraphReadIn(it, &p); if (!p) break; got++; om_of_graph(g, &x); vs_assert(x.n == 3 && om_edges(&x) == (k ? 2 : 3), "another graph was read"); } } } int q = endG6ReadIteration(it); (void)q; }
  if (!via && (!begun || noInput)) free(t);
  int q = it ? freeG6ReadIterator(&it) : OK; (void)q; fail_off(); status(r, OK); if (r == OK) vs_assert(got == 2, "a graph is missing"); vs_assert(it == 0, "the iterator was not freed");
#elif SC == 9   /* graph6 iterators: writing two graphs */
  int via = vs_range("via", 0, 1); g = sym_graph(&s, &m, NN); text(g, T, WRITE_G6); G6WriteIterator *it = 0; char *t = 0, *os = 0; int w = 0; char name[4] = "out"; fail_on();
  r = allocateG6WriteIterator(&it, g);
  if (r == OK) { r = via ? beginG6WriteIterationToG6FilePath(it, name) : beginG6WriteIterationToG6String(it, &os); for (int k = 0; k < 2 && r == OK; k++) { r = writeGraphUsingG6WriteIterator(it); w += r == OK; }
    if (!via && r == OK) t = sf_takeTheStr(it->g6Output);
    int q = endG6WriteIteration(it); if (r == OK) r = q; }
  if (it) freeG6WriteIterator(&it); fail_off(); status(r, OK); vs_assert(it == 0, "the iterator was not freed");
  if (r == OK && !via) { int n = (int)strlen(T); vs_assert(t && strncmp(t, T, n - 1) == 0, "another text was written"); }
  if (t) free(t);
#endif
  vs_trace("r", r); vs_trace("cnt", fail < 0 ? 0 : cnt);
  gp_Free(&g); gp_Free(&h); vs_assert(vs_open_streams() == 0, "a file was left open"); vs_files_release(); vs_no_leaks();
}

/* Sequences of KG graphs through the graph6 iterators.  VIA 0 file, 1 memory;
   SRC 0: text produced by the write iterator; 1: text composed here, with symbolic header and line ends */
#include "oracle.h"
#include <stdlib.h>
#include <string.h>
#include "io/g6-read-iterator.h"
#include "io/g6-write-iterator.h"
#ifndef KG
#define KG 2
#endif
#define TCAP (ON > 30 ? 2000 : 600)
static char T[TCAP];
static int enc(const omat *m, char *t) { int p = 0, bits = 0, cnt = 0; if (NN < 63) t[p++] = 63 + NN; else { t[p++] = 126; t[p++] = 63 + (NN >> 12); t[p++] = 63 + (NN >> 6 & 63); t[p++] = 63 + (NN & 63); } 
  for (int j = 2; j <= NN; j++) for (int i = 1; i < j; i++) { bits = bits << 1 | (m->a[i][j] != 0); if (++cnt == 6) { t[p++] = 63 + bits; bits = 0; cnt = 0; } }
  if (cnt) t[p++] = 63 + (bits << (6 - cnt)); return p; }
void harness(void) {
  static esym s[KG]; static omat m[KG], x; int n = 0, q;
  graphP g = gp_New(); vs_assert(gp_InitGraph(g, NN) == OK, "init");
  for (int k = 0; k < KG; k++) sym_edges(&s[k], &m[k], NN);
#if SRC == 0
  G6WriteIterator *w = 0; vs_assert(allocateG6WriteIterator(&w, g) == OK, "no write iterator");
#if VIA == 0
  char on[8] = "o.g6"; vs_assert(beginG6WriteIterationToG6FilePath(w, on) == OK, "starting to write failed");
#else
  char *os = 0; vs_assert(beginG6WriteIterationToG6String(w, &os) == OK, "starting to write failed");
#endif
  for (int k = 0; k < KG; k++) {
    if (k) gp_ReinitializeGraph(g); build_edges(g, &s[k]);
    vs_assert(writeGraphUsingG6WriteIterator(w) == OK, "writing a graph failed");
    q = -1; vs_assert(getNumGraphsWritten(w, &q) == OK && q == k + 1, "the number of graphs written is wrong");
    q = -1; vs_assert(getOrderOfGraphToWrite(w, &q) == OK && q == NN, "the order reported is wrong");
    om_of_graph(g, &x); vs_assert(om_equal(&x, &m[k]), "writing changed the graph");
  }
#if VIA == 1
  os = sf_takeTheStr(w->g6Output); n = (int)strlen(os); vs_assert(n < TCAP, "text too long"); strcpy(T, os);
#endif
  vs_assert(endG6WriteIteration(w) == OK, "ending the iteration failed"); vs_assert(freeG6WriteIterator(&w) == OK && w == 0, "freeing the iterator failed");
#if VIA == 0
  n = vs_file_get("o.g6", T, TCAP); vs_assert(n > 0 && n < TCAP, "nothing was written");
#else
  free(os);
#endif
#else
  { int hd = vs_range("header", 0, 1), cr = vs_range("crlf", 0, 1), last = vs_range("final_newline", 0, 1);
    if (hd) { memcpy(T, ">>graph6<<", 10); n = 10; }
    for (int k = 0; k < KG; k++) { n += enc(&m[k], T + n); if (k < KG - 1 || last) { if (cr) T[n++] = '\r'; T[n++] = '\n'; } } 
    gp_AddEdge(g, 1, 0, 2, 0); }
#endif
  /* read into one structure, which held something else before */
  G6ReadIterator *r = 0; vs_assert(allocateG6ReadIterator(&r, g) == OK, "no read iterator");
#if VIA == 0
  char in[8] = "i.g6"; vs_file_put("i.g6", T, n); vs_assert(beginG6ReadIterationFromG6FilePath(r, in) == OK, "starting to read failed");
#else
  char *is = malloc(n + 1); memcpy(is, T, n); is[n] = 0; vs_assert(beginG6ReadIterationFromG6String(r, is) == OK, "starting to read failed");
#endif
  graphP p = 0; long sum = 0;
  for (int k = 0; k < KG; k++) {
    vs_assert(readGraphUsingG6ReadIterator(r) == OK, "reading a graph failed");
    p = 0; vs_assert(getPointerToGraphReadIn(r, &p) == OK && p == g, "the graph read is not delivered");
    q = -1; vs_assert(getNumGraphsRead(r, &q) == OK && q == k + 1, "the number of graphs read is wrong");
    q = -1; vs_assert(getOrderOfGraphToRead(r, &q) == OK && q == NN, "the order reported is wrong");
    om_of_graph(g, &x); vs_assert(om_equal(&x, &m[k]), "a graph read differs from the graph written"); sum = sum * 31 + g->M;
    if (k == 0) { /* what the caller does with one graph must not show in the next */
      int e = gp_GetFirstArc(g, 1); if (gp_IsArc(e)) { gp_SetDirection(g, e, EDGEFLAG_DIRECTION_INONLY); if (g->M > 1) gp_DeleteEdge(g, e, 0); } }
    else { int bad = 0; for (int v = 1; v <= NN; v++) { int e = gp_GetFirstArc(g, v); while (gp_IsArc(e)) { bad |= g->E[e].flags; e = gp_GetNextArc(g, e); } } vs_assert(!bad, "edge flags of an earlier graph survive"); }
  }
  vs_assert(readGraphUsingG6ReadIterator(r) == OK, "reaching the end is reported as a failure");
  p = g; vs_assert(getPointerToGraphReadIn(r, &p) == OK && p == 0, "the end of the sequence is not reported");
  vs_trace("n", n); vs_trace("M", sum);
  vs_assert(endG6ReadIteration(r) == OK, "ending the iteration failed"); vs_assert(freeG6ReadIterator(&r) == OK && r == 0, "freeing the iterator failed");
  vs_assert(vs_open_streams() == 0, "a file was left open");
  gp_Free(&g); vs_files_release(); vs_no_leaks();
}

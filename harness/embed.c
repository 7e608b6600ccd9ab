/* gp_Embed verdicts certified from both sides.  CMD: 0 planar, 1 outerplanar, 2 K2,3, 3 K3,3, 4 K4, 5 draw */
#include "oracle.h"
#include <stdlib.h>
#include "planarityRelated/graphDrawPlanar.private.h"
extern int DRAWPLANAR_ID;
#include "planarityRelated/graphDrawPlanar.h"
#include "homeomorphSearch/graphK23Search.h"
#include "homeomorphSearch/graphK33Search.h"
#include "homeomorphSearch/graphK4Search.h"
#ifndef CMD
#define CMD 0
#endif
static const int flagsOf[] = {EMBEDFLAGS_PLANAR, EMBEDFLAGS_OUTERPLANAR, EMBEDFLAGS_SEARCHFORK23, EMBEDFLAGS_SEARCHFORK33, EMBEDFLAGS_SEARCHFORK4, EMBEDFLAGS_DRAWPLANAR};
/* the visibility representation: one row per vertex, one column per edge, sight lines unobstructed */
static void check_drawing(graphP g, const omat *m) {
  DrawPlanarContext *c = 0; gp_FindExtension(g, DRAWPLANAR_ID, (void *)&c);
  vs_assert(c != 0, "drawing context lost"); if (!c) return;
  int n = g->N, M = g->M, lim = gp_EdgeInUseIndexBound(g); static int row[ON], col[3 * ON];
  for (int i = 0; i < ON; i++) row[i] = 0; for (int i = 0; i < 3 * ON; i++) col[i] = 0;
  for (int v = 1; v <= n; v++) {
    int p = c->VI[v].pos; vs_assert(p >= 0 && p < n, "vertex row outside the picture"); vs_assert(!row[p], "two vertices share a row"); row[p] = 1;
    if (M > 0) vs_assert(c->VI[v].start >= 0 && c->VI[v].start <= c->VI[v].end && c->VI[v].end < M, "vertex segment outside the picture");
  }
  for (int e = gp_GetFirstEdge(g); e < lim; e += 2) {
    int t = gp_GetTwinArc(g, e), a = gp_GetNeighbor(g, e), b = gp_GetNeighbor(g, t), p = c->E[e].pos, lo = c->E[e].start, hi = c->E[e].end;
    vs_assert(c->E[t].pos == p && c->E[t].start == lo && c->E[t].end == hi, "the two arcs of an edge are drawn differently");
    vs_assert(p >= 0 && p < M, "edge column outside the picture"); vs_assert(!col[p], "two edges share a column"); col[p] = 1;
    int pa = c->VI[a].pos, pb = c->VI[b].pos;
    vs_assert(lo == (pa < pb ? pa : pb) && hi == (pa < pb ? pb : pa), "edge does not span the rows of its end points");
    vs_assert(c->VI[a].start <= p && p <= c->VI[a].end && c->VI[b].start <= p && p <= c->VI[b].end, "edge column misses an end point's segment");
    int cross = 0; for (int v = 1; v <= n; v++) { int q = c->VI[v].pos; cross |= (q > lo) & (q < hi) & (c->VI[v].start <= p) & (p <= c->VI[v].end); }
    vs_assert(!cross, "edge crosses the segment of another vertex");
  }
#ifndef NORENDER
  if (M > 0) {
    char *txt = 0; int w = M + 1, bad = 0; static char want[2 * ON * (3 * ON + 1)];
    vs_assert(gp_DrawPlanar_RenderToString(g, &txt) == OK, "rendering failed"); vs_assert(txt != 0, "no rendition returned");
    for (int i = 0; i < 2 * n * w; i++) want[i] = (i + 1) % w == 0 ? '\n' : ' ';
    for (int v = 1; v <= n; v++) { int st = c->VI[v].start, en = c->VI[v].end, p = c->VI[v].pos; for (int k = st; k <= en; k++) want[2 * p * w + k] = '-'; int at = 2 * p * w + (st + en) / 2;
      if (v < 10) want[at] = (char)('0' + v); else { want[at] = (char)('0' + v / 10); if (en > st) want[at + 1] = (char)('0' + v % 10); else want[at + w] = (char)('0' + v % 10); } }
    for (int e = gp_GetFirstEdge(g); e < lim; e += 2) for (int q = c->E[e].start; q < c->E[e].end; q++) { if (q > c->E[e].start) want[2 * q * w + c->E[e].pos] = '|'; want[(2 * q + 1) * w + c->E[e].pos] = '|'; }
    for (int i = 0; i < 2 * n * w; i++) bad |= txt[i] != want[i];
    vs_assert(!bad, "rendition differs from the computed representation"); vs_assert(txt[2 * n * w] == 0, "rendition not terminated");
#ifdef RFILE
    { static char fb[2 * ON * 40 + 2]; char nm[8] = "d.txt"; vs_assert(gp_DrawPlanar_RenderToFile(g, nm) == OK, "rendering to a file failed"); int fl = vs_file_get("d.txt", fb, sizeof fb);
      vs_assert(fl == 2 * n * w, "the rendition file has another length than the rendition"); bad = 0; for (int i = 0; i < fl; i++) bad |= fb[i] != txt[i]; vs_assert(!bad, "the rendition file differs from the rendition"); vs_assert(vs_open_streams() == 0, "the rendition file was left open"); }
#endif
    free(txt);
  }
#endif
}
static void attach(graphP g, int c) {
  if (c == 2) gp_AttachK23Search(g);
  if (c == 3) gp_AttachK33Search(g);
  if (c == 4) gp_AttachK4Search(g);
  if (c == 5) gp_AttachDrawPlanar(g);
}
void harness(void) {
  static esym s; static omat m, x;
#ifdef PRIOR
  /* the structure first serves another graph and another algorithm (PCMD), possibly in a structure that has to grow */
  sym_edges(&s, &m, NN);
  static const int pq[][2] = {PRIOR}; static int pon[32]; int np = (int)(sizeof pq / sizeof pq[0]);
  for (int i = 0; i < np; i++) pon[i] = i < PFREE ? vs_range("p", 0, 1) : 1;
  int tidy = vs_range("tidy", 0, 1);
  graphP g = gp_New();
#ifdef CAP
  vs_assert(gp_EnsureArcCapacity(g, CAP) == OK, "capacity request before initialisation failed");
#endif
  vs_assert(gp_InitGraph(g, NN) == OK, "gp_InitGraph failed");
#ifndef CAP
  attach(g, CMD); if (PCMD != CMD) attach(g, PCMD);
#endif
  for (int i = 0; i < np; i++) if (pon[i]) vs_assert(gp_DynamicAddEdge(g, pq[i][0], i & 1, pq[i][1], (i >> 1) & 1) == OK, "adding an edge of the first graph failed");
#ifdef CAP   /* the extensions with data per edge refuse to grow, so they come after the growth */
  vs_assert(gp_EnsureArcCapacity(g, 2 * NN * (NN - 1)) == OK, "capacity request failed");
  attach(g, CMD); if (PCMD != CMD) attach(g, PCMD);
#endif
  int r0 = gp_Embed(g, flagsOf[PCMD]); vs_assert(r0 == OK || r0 == NONEMBEDDABLE, "first gp_Embed returned neither OK nor NONEMBEDDABLE"); vs_trace("r0", r0);
  if (tidy) gp_SortVertices(g);
  gp_ReinitializeGraph(g);
  int stale = g->M != 0; for (int v = 1; v <= NN; v++) stale |= gp_GetFirstArc(g, v) != NIL || gp_GetLastArc(g, v) != NIL;
  vs_assert(!stale, "reinitialising does not empty the graph");
  build_edges(g, &s);
  if (r0 == NONEMBEDDABLE) vs_cover("first graph refused");
#else
#ifdef AGAIN /* the graph is processed (1 DFS, 2 lowpoints, 3 planar, 4 outerplanar, 5 the same algorithm), changed and then embedded, without being built anew */
  int did = vs_range("did", 1, 5), tidy = vs_range("tidy", 0, 1), edit = vs_range("edit", 0, 2), eu = vs_range("at", 1, NN);
#endif
  graphP g = sym_graph(&s, &m, NN);
  attach(g, CMD);
#ifdef AGAIN
  { int q = did == 1 ? gp_CreateDFSTree(g) : did == 2 ? gp_LowpointAndLeastAncestor(g) : gp_Embed(g, did == 3 ? EMBEDFLAGS_PLANAR : did == 4 ? EMBEDFLAGS_OUTERPLANAR : flagsOf[CMD]); if (did == 5 && CMD >= 2) vs_assume((CMD == 5) == (q == OK)); /* what the others leave is not specified */ vs_assert(q == OK || (did > 2 && q == NONEMBEDDABLE), "first run failed"); if (q != OK) vs_cover("obstruction reused");
    if (tidy) vs_assert(gp_SortVertices(g) == OK, "gp_SortVertices failed");
    if (edit == 1) { int e = gp_GetFirstArc(g, eu); if (gp_IsArc(e)) gp_DeleteEdge(g, e, 0); }
    if (edit == 2) { int w = eu == NN ? 1 : eu + 1; if (gp_IsNotArc(gp_GetNeighborEdgeRecord(g, eu, w))) vs_assert(gp_AddEdge(g, eu, 1, w, 0) == OK, "adding an edge failed"); }
    if (CMD == 5) vs_assume(gp_EdgeInUseIndexBound(g) == gp_GetFirstEdge(g) + 2 * g->M); /* drawing refuses structures with holes */
    om_of_graph(g, &x); m = x;
    if (g->internalFlags & FLAGS_SORTEDBYDFI) for (int a = 1; a <= NN; a++) for (int b = 1; b <= NN; b++) { int oa = gp_GetVertexIndex(g, a), ob = gp_GetVertexIndex(g, b); vs_assert(oa >= 1 && oa <= NN && ob >= 1 && ob <= NN, "original label out of range"); m.a[oa][ob] = x.a[a][b]; }
    vs_cover("processed before"); }
#endif
#endif
  graphP o = gp_DupGraph(g); vs_assert(o != 0, "gp_DupGraph failed");
  int r = gp_Embed(g, flagsOf[CMD]);
  vs_trace("r", r);
  vs_assert(r == OK || r == NONEMBEDDABLE, "gp_Embed returned neither OK nor NONEMBEDDABLE");
#ifdef LIBCHECK
  { int q = gp_TestEmbedResultIntegrity(g, o, r); vs_assert(q == r, "gp_TestEmbedResultIntegrity rejects a genuine result"); }
  if (r != OK || CMD <= 1 || CMD == 5)
#endif
  vs_assert(gp_SortVertices(g) == OK, "gp_SortVertices after gp_Embed failed");
#ifdef VERD /* verdict of every choice of the free edges, tabulated */
  { static const signed char vt[] = {VERD}; int at = 0; for (int i = 0; i < NFREE; i++) at |= s.on[NFIXED + i] << i; vs_assert((r != OK) == vt[at], "wrong verdict for a graph of the family"); }
#define ORACLE(h) 0
#elif defined MUST
  vs_assert(r == MUST, "wrong verdict for a graph of the family");
#define ORACLE(h) 0
#else
#define ORACLE(h) h
#endif
  if (r == OK) {
    vs_cover("embeddable");
    if (CMD == 0 || CMD == 5) cert_planar(g, &m, 0, 0);
    if (CMD == 5) check_drawing(g, &m);
    if (CMD == 1) cert_outerplanar(g, &m);
    if (CMD == 2) vs_assert(!ORACLE(has_K23(&m)), "OK although the input contains a K2,3 homeomorph");
    if (CMD == 3) vs_assert(!ORACLE(has_K33(&m)), "OK although the input contains a K3,3 homeomorph");
    if (CMD == 4) vs_assert(!ORACLE(has_K4(&m)), "OK although the input contains a K4 homeomorph");
  } else {
    vs_cover("nonembeddable");
    if (CMD == 5) { vs_assert(gp_Embed(o, EMBEDFLAGS_PLANAR) == NONEMBEDDABLE, "drawing refused for a planar graph"); gp_SortVertices(o); cert_subgraph_of(o, &m, &x); }
    else cert_subgraph_of(g, &m, &x);
    int k5 = 0, k33 = 0, k4 = 0, k23 = 0;
    if (CMD == 0 || CMD == 5) { k5 = is_Kk(&x, 5); k33 = is_K33(&x); vs_assert(k5 | k33, "obstruction is not a K5 or K3,3 homeomorph"); }
    if (CMD == 1) { k4 = is_Kk(&x, 4); k23 = is_K23(&x); vs_assert(k4 | k23, "obstruction is not a K4 or K2,3 homeomorph"); }
    if (CMD == 2) vs_assert(is_K23(&x), "subgraph found is not a K2,3 homeomorph");
    if (CMD == 3) vs_assert(is_K33(&x), "subgraph found is not a K3,3 homeomorph");
    if (CMD == 4) vs_assert(is_Kk(&x, 4), "subgraph found is not a K4 homeomorph");
    vs_trace("obsM", g->M);
  }
  vs_trace("arc", gp_GetFirstArc(g, 1));
  gp_Free(&g); gp_Free(&o);
#ifdef RFILE
  vs_files_release();
#endif
  vs_no_leaks();
}

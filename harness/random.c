/* The random graph generators under every stream of random numbers: the first SYM numbers are symbolic, then follows a fixed
   stream that eventually offers every pair of vertices (a retry loop can only end under such a stream).
   KIND 0: gp_CreateRandomGraph, 1: gp_CreateRandomGraphEx, 2: _GetRandomNumber; REUSE: reinitialise and generate again */
#include "oracle.h"
extern int _GetRandomNumber(int NMin, int NMax);
#ifndef SYM
#define SYM 6
#endif
#ifndef RMAX
#define RMAX 15
#endif
#define PAIRS (NN * (NN + 1))
#define TAIL (4 * PAIRS + 3)
static int script[SYM + TAIL];
static void stream(void) {
  int n = 0;
  for (int i = 0; i < SYM; i++) script[n++] = vs_range("rand", 0, RMAX);
  for (int sh = 0; sh < 2; sh++) { for (int a = 0; a < NN; a++) for (int b = 0; b <= NN; b++) { script[n++] = a; script[n++] = b; } if (!sh) script[n++] = 0; }
  vs_rand_script(script, n);
}
static void check(graphP g, int edges, int lo, int planar) {
  static omat m, r; om_of_graph(g, &m); int c = om_edges(&m), bad = 0;
  if (edges >= 0) vs_assert(c == edges, "number of edges"); else vs_assert(c >= lo && c <= NN * (NN - 1) / 2, "number of edges");
  for (int i = 1; i <= NN; i++) { bad |= m.a[i][i]; for (int j = 1; j <= NN; j++) bad |= m.a[i][j] > 1; }
  vs_assert(!bad, "not a simple graph");
  if (c >= NN - 1) { om_reach(&m, &r); for (int i = 1; i <= NN; i++) bad |= !r.a[1][i]; vs_assert(!bad, "not connected"); }
  int f = 0; for (int e = gp_GetFirstEdge(g); e < gp_EdgeInUseIndexBound(g); e++) f |= g->E[e].flags; vs_assert(!f, "left-over flags on an edge");
  for (int v = 1; v <= NN; v++) { f |= gp_GetVertexParent(g, v) != NIL; } vs_assert(!f, "left-over parents");
  for (int i = 1; i <= NN; i++) for (int j = i + 1; j <= NN; j++) vs_trace("a", m.a[i][j]);
  if (planar) { /* planar, or planar but for one edge if it was asked for one edge too many: the embedding proves it */
    int extra = c - (3 * NN - 6), ok = 0, fm[64], F; static omat pm;
    for (int k = c - 1; k >= 0 && !ok; k--) {
      graphP h = gp_DupGraph(g); vs_assert(h != 0, "duplicating failed");
      if (extra > 0) gp_DeleteEdge(h, gp_GetFirstEdge(h) + 2 * k, 0); else k = 0;
      om_of_graph(h, &pm);
      if (gp_Embed(h, EMBEDFLAGS_PLANAR) == OK) { ok = 1; vs_assert(gp_SortVertices(h) == OK, "sorting"); cert_planar(h, &pm, fm, &F); }
      gp_Free(&h);
    }
    vs_assert(ok, "not planar"); if (extra > 0) vs_cover("extra"); if (extra == 0) vs_cover("triangulation");
  }
}
void harness(void) {
#if KIND == 2
  for (int k = 0; k < 3; k++) { static int one[1]; static const int B[] = {0, 1, 2, 100, 127, 128, 254, 255};
    one[0] = 0; for (int b = 0; b < 4; b++) { int x = vs_range("byte", 0, b == 3 ? 4 : b == k ? 7 : 5); one[0] |= B[b == 1 ? 7 - x : b == 2 ? (5 * x + 1) & 7 : x] << (8 * b); } vs_rand_script(one, 1); int lo = (int[]){1, 0, LOV}[k], hi = (int[]){1, NN, HIV}[k];
    int r = _GetRandomNumber(lo, hi); vs_assert(r >= lo && (r <= hi || hi < lo), "outside the range"); if (hi < lo) vs_assert(r == lo, "empty range"); vs_trace("r", r); }
#else
  graphP g = gp_New();
#ifdef CAP
  vs_assert(gp_EnsureArcCapacity(g, CAP) == OK, "capacity");
#endif
  vs_assert(gp_InitGraph(g, NN) == OK, "init");
  for (int round = 0; round <= REUSE; round++) {
    stream();
    int cap = g->arcCapacity / 2, all = NN * (NN - 1) / 2;
#if KIND == 0
    int r = gp_CreateRandomGraph(g);
    if (cap >= NN - 1) { vs_assert(r == OK, "generating failed"); check(g, -1, NN - 1, 0); if (g->M == all) vs_cover("complete"); if (g->M == NN - 1) vs_cover("tree"); } else vs_assert(r == NOTOK, "no room for a tree");
#else
    int want = vs_range("edges", LO, HI), r = gp_CreateRandomGraphEx(g, want);
    int c = want > cap ? cap : want; if (c < NN - 1) c = NN - 1; if (c > all) c = all;
    if (cap >= NN - 1) { vs_assert(r == OK, "generating failed"); check(g, c, c, NN >= 3 && c <= 3 * NN - 6 + 1); if (c < 3 * NN - 6) vs_cover("sparse"); } else vs_assert(r == NOTOK, "no room for a tree");
#endif
    gp_ReinitializeGraph(g);
  }
  gp_Free(&g); vs_no_leaks();
#endif
}

/* Neighbour and degree queries of digraphs against a list of directed edges, under every sequence of STEPS changes */
#include "oracle.h"
#ifndef PRE
#define PRE 0
#endif
#define ME 10
static int eu[ME], ev[ME], dir[ME], alive[ME], arc[ME], nid;   /* dir: 0 both ways, 1 eu->ev, 2 ev->eu; arc: record in eu's list */
static graphP g;
static int outof(int id, int v) { return alive[id] && (eu[id] == v ? dir[id] != 2 : ev[id] == v ? dir[id] != 1 : 0); }
static int into(int id, int v) { return alive[id] && (eu[id] == v ? dir[id] != 1 : ev[id] == v ? dir[id] != 2 : 0); }
static void verify(void) {
  static omat m; om_of_graph(g, &m); int bad = 0;
  for (int v = 1; v <= NN; v++) { int d = 0, in = 0, out = 0; for (int i = 0; i < nid; i++) { d += alive[i] & (eu[i] == v || ev[i] == v); in += into(i, v); out += outof(i, v); }
    vs_assert(gp_GetVertexDegree(g, v) == d, "degree"); vs_assert(gp_GetVertexInDegree(g, v) == in, "in-degree"); vs_assert(gp_GetVertexOutDegree(g, v) == out, "out-degree");
    for (int u = 1; u <= NN; u++) { int any = 0, arcTo = 0; for (int i = 0; i < nid; i++) { int c = (eu[i] == v && ev[i] == u) || (eu[i] == u && ev[i] == v); any |= alive[i] & c; arcTo |= c & outof(i, v); }
      vs_assert(gp_IsNeighbor(g, v, u) == (arcTo ? TRUE : FALSE), "neighbor test"); int e = gp_GetNeighborEdgeRecord(g, v, u); vs_assert((e != NIL) == (any != 0), "edge record lookup finds what is not there or misses what is");
      if (e != NIL) { vs_assert(gp_GetNeighbor(g, e) == u && gp_GetNeighbor(g, gp_GetTwinArc(g, e)) == v, "edge record of another edge"); } }
  }
  for (int i = 0; i < nid; i++) if (alive[i]) { int e = arc[i], t = gp_GetTwinArc(g, e), a = gp_GetDirection(g, e), b = gp_GetDirection(g, t);
    bad |= gp_GetNeighbor(g, e) != ev[i] || gp_GetNeighbor(g, t) != eu[i]; bad |= dir[i] == 0 ? a || b : dir[i] == 1 ? a != EDGEFLAG_DIRECTION_OUTONLY || b != EDGEFLAG_DIRECTION_INONLY : a != EDGEFLAG_DIRECTION_INONLY || b != EDGEFLAG_DIRECTION_OUTONLY; }
  vs_assert(!bad, "direction of an edge");
  vs_assert(gp_GetNeighborEdgeRecord(g, 1, NIL) == NIL && gp_GetVertexDegree(g, NIL) == 0 && gp_GetVertexInDegree(g, NIL) == 0 && gp_GetVertexOutDegree(g, NIL) == 0, "query of no vertex");
}
static void add(int u, int v, int ul, int dyn) {
  int full = g->M >= (g->arcCapacity >> 1), most = g->arcCapacity >= NN * (NN - 1); int r = dyn ? gp_DynamicAddEdge(g, u, ul, v, 0) : gp_AddEdge(g, u, ul, v, 0);
  if (full && (!dyn || most)) { vs_assert(r == NONEMBEDDABLE, "adding beyond the capacity"); vs_cover("full"); return; }
  vs_assert(r == OK, "adding failed"); if (full) vs_cover("grown"); int id = nid++; eu[id] = u; ev[id] = v; dir[id] = 0; alive[id] = 1; arc[id] = ul ? gp_GetLastArc(g, u) : gp_GetFirstArc(g, u);
}
static void setdir(int id, int d, int side) { /* through either of the two records */
  int e = side ? gp_GetTwinArc(g, arc[id]) : arc[id], f = d == 0 ? 0 : (d == 1) != side ? EDGEFLAG_DIRECTION_OUTONLY : EDGEFLAG_DIRECTION_INONLY;
  if (dir[id] && d && dir[id] != d) vs_cover("turned round");
  gp_SetDirection(g, e, f); dir[id] = d;
}
void harness(void) {
  g = gp_New();
#ifdef CAP
  vs_assert(gp_EnsureArcCapacity(g, CAP) == OK, "capacity");
#endif
  vs_assert(gp_InitGraph(g, NN) == OK, "init");
  for (int k = 0; k < PRE; k++) { int u = 1 + k % NN, v = 1 + (k / NN + k + 1) % NN; if (u == v) v = 1 + v % NN; add(u, v, k & 1, 0); setdir(k, vs_range("pdir", 0, 2), 0); }
  verify();
  for (int k = 0; k < STEPS; k++) {
    int op = vs_range("op", 0, 5), u = vs_range("u", 1, NN), v = vs_range("v", 1, NN), id = vs_range("id", 0, ME - 1), d = vs_range("d", 0, 2), side = vs_range("side", 0, 1);
    vs_assume(u != v && id < nid + (nid == 0)); int have = nid > 0 && alive[id];
    if (op == 0) add(u, v, side, d != 0);
    if (op == 1 && have) { setdir(id, d, side); vs_cover("directed"); }
    if (op == 2 && have) { gp_DeleteEdge(g, side ? gp_GetTwinArc(g, arc[id]) : arc[id], 0); alive[id] = 0; vs_cover("deleted"); }
    if (op == 3 && have) { gp_HideEdge(g, arc[id]); alive[id] = 0; vs_assert(gp_GetVertexDegree(g, eu[id]) >= 0, "degree"); int M = 0; for (int i = 0; i < nid; i++) M += alive[i]; int deg = 0; for (int w = 1; w <= NN; w++) deg += gp_GetVertexDegree(g, w); vs_assert(deg == 2 * M, "degrees while an edge is hidden"); gp_RestoreEdge(g, arc[id]); alive[id] = 1; vs_cover("hidden"); }
    if (op == 4) { vs_assert(gp_EnsureArcCapacity(g, g->arcCapacity + 2 * d) == OK, "growing failed"); }
    if (op == 5) { graphP h = gp_DupGraph(g); vs_assert(h != 0, "duplicating failed"); gp_Free(&g); g = h; vs_cover("duplicated"); }
    verify();
  }
  for (int v = 1; v <= NN; v++) vs_trace("deg", gp_GetVertexOutDegree(g, v));
  gp_Free(&g); vs_no_leaks();
}

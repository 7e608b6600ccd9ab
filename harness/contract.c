/* hide vertex / identify vertices / contract edge on every graph, then unwind */
#include "oracle.h"
#ifndef STEPS
#define STEPS 1
#endif
static void lists(graphP g, omat *m, int total) {
  int n = g->N, cnt = 0, cap = gp_EdgeIndexBound(g); om_zero(m, n);
  for (int v = 1; v <= n; v++) { int prev = NIL, e = gp_GetFirstArc(g, v), k = 0;
    while (gp_IsArc(e)) { vs_assert(e < cap, "arc outside the store"); vs_assert(gp_GetPrevArc(g, e) == prev, "backward link broken"); vs_assert(gp_GetNeighbor(g, gp_GetTwinArc(g, e)) == v, "twin arc does not name the list owner");
      m->a[v][gp_GetNeighbor(g, e)]++; prev = e; e = gp_GetNextArc(g, e); cnt++; vs_assert(++k <= cap, "adjacency list is cyclic"); }
    vs_assert(gp_GetLastArc(g, v) == prev, "last arc wrong"); }
  (void)total; (void)cnt;
}
static int order(graphP g, int v, int *o) { int k = 0, e = gp_GetFirstArc(g, v); while (gp_IsArc(e)) { o[k++] = e; e = gp_GetNextArc(g, e); } return k; }
void harness(void) {
  static esym s; static omat m, x; static edgeRec E0[64]; static vertexRec V0[2 * NN + 2];
  graphP g = sym_graph(&s, &m, NN);
  int nE = gp_EdgeInUseIndexBound(g), nV = gp_VertexIndexBound(g);
  for (int i = 0; i < nE; i++) E0[i] = g->E[i]; for (int i = 0; i < nV; i++) V0[i] = g->V[i];
  static int gone[ON], uo[24], vo[24], no[48];
  for (int st = 0; st < STEPS; st++) {
    int op = vs_range("op", 0, 2), u = vs_range("u", 1, NN), v = vs_range("v", 1, NN), bpos = vs_range("before", 0, 2);
    vs_assume(u != v && !gone[u] && !gone[v]);
    int adj = m.a[u][v];
    vs_assume(op != 1 || adj);
    if (op == 2) {
      vs_assert(gp_HideVertex(g, v) == OK, "hiding a vertex failed");
      for (int w = 1; w <= NN; w++) { m.a[v][w] = 0; m.a[w][v] = 0; }
      gone[v] = 1; vs_cover("hide vertex");
    } else {
      int ku = order(g, u, uo), kv = order(g, v, vo), eB = NIL, bp = ku;
      if (op == 0) for (int i = 0; i < 24; i++) if (i < ku && i == bpos) { eB = uo[i]; bp = i; }
      int r = op == 1 ? gp_ContractEdge(g, gp_GetNeighborEdgeRecord(g, u, v)) : gp_IdentifyVertices(g, u, v, eB);
      vs_assert(r == OK, "identification failed");
      int un = order(g, u, no), bad = 0;
      /* expected: u's old arcs except the one to v, v's arcs without duplicates in their order as one block */
      static int mv[24]; int nm = 0; for (int i = 0; i < 24; i++) if (i < kv) { int w = gp_GetNeighbor(g, vo[i]); if (w != u && w != v && !m.a[u][w]) mv[nm++] = vo[i]; }
      int at = 0; /* where the block starts in the new list */
      for (int i = 0; i < 24; i++) if (i < un && nm > 0 && no[i] == mv[0]) at = i;
      int p = 0; for (int i = 0; i < 24; i++) if (i < ku) { if (p == at && nm > 0) p += nm; if (adj && gp_GetNeighbor(g, uo[i]) == v) continue; bad |= p >= 48 || no[p] != uo[i]; p++; if (p == at && nm > 0) p += nm; }
      for (int i = 0; i < 24; i++) if (i < nm) bad |= no[at + i] != mv[i];
      bad |= un != ku - adj + nm;
      vs_assert(!bad, "the merged list is not u's list with v's remaining edges inserted in order");
      if (op == 0 && !adj && nm > 0) { vs_assert(at == bp, "v's edges are not placed before the requested edge"); vs_cover("identify"); }
      if (op == 1) vs_cover("contract"); if (op == 0 && adj) vs_cover("identify adjacent");
      for (int w = 1; w <= NN; w++) { int h = m.a[v][w]; m.a[v][w] = 0; m.a[w][v] = 0; if (w != u) { m.a[u][w] |= h; m.a[w][u] |= h; } }
      gone[v] = 1;
    }
    lists(g, &x, 0);
    vs_assert(om_equal(&x, &m), "the graph after the operation is not the expected one");
    int vis = 0; for (int w = 1; w <= NN; w++) vis |= gp_GetVertexVisited(g, w); vs_assert(!vis, "visited marks left behind");
  }
  vs_trace("sp", sp_GetCurrentSize(g->theStack));
  vs_assert(gp_RestoreVertices(g) == OK, "unwinding the operations failed");
  vs_assert(sp_IsEmpty(g->theStack), "stack not empty after unwinding");
  int bad = 0;
  for (int i = 0; i < nE; i++) bad |= (E0[i].link[0] ^ g->E[i].link[0]) | (E0[i].link[1] ^ g->E[i].link[1]) | (E0[i].neighbor ^ g->E[i].neighbor) | (E0[i].flags ^ g->E[i].flags);
  for (int i = 0; i < nV; i++) bad |= (V0[i].link[0] ^ g->V[i].link[0]) | (V0[i].link[1] ^ g->V[i].link[1]) | (V0[i].flags ^ g->V[i].flags);
  vs_assert(!bad, "unwinding does not bring the graph back");
  gp_Free(&g); vs_no_leaks();
}

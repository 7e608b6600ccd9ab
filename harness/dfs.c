/* depth first search utilities on every graph.  PART 14: DFS tree, 15: least ancestor / lowpoint, 16: sorting */
#include "oracle.h"
extern int gp_LeastAncestor(graphP);
static int par[ON], dfi[ON], isroot[ON];
/* the tree is read in terms of DFI numbers: par[k] is the parent's DFI (0 for roots) */
static void check_tree(graphP g, const omat *m, int sorted) {
  static omat d, anc; int n = g->N, bad = 0; static int cnt[ON];
  for (int k = 0; k <= n; k++) cnt[k] = 0;
  for (int v = 1; v <= n; v++) { dfi[v] = sorted ? v : gp_GetVertexIndex(g, v); vs_assert(dfi[v] >= 1 && dfi[v] <= n, "DFI out of range"); cnt[dfi[v]]++; }
  for (int k = 1; k <= n; k++) bad |= cnt[k] != 1; vs_assert(!bad, "DFIs are not a permutation");
  om_zero(&d, n); for (int u = 1; u <= n; u++) for (int v = 1; v <= n; v++) d.a[dfi[u]][dfi[v]] = m->a[u][v];
  for (int v = 1; v <= n; v++) { int p = gp_GetVertexParent(g, v); vs_assert(p >= 0 && p <= n, "parent out of range"); par[dfi[v]] = p == NIL ? 0 : dfi[p]; }
  bad = 0; for (int k = 1; k <= n; k++) bad |= par[k] >= k; vs_assert(!bad, "parent does not precede its child");
  bad = 0; for (int k = 1; k <= n; k++) if (par[k]) bad |= !d.a[k][par[k]]; vs_assert(!bad, "tree edge is not an edge of the graph");
  om_zero(&anc, n); for (int k = 1; k <= n; k++) { anc.a[k][k] = 1; if (par[k]) for (int j = 1; j < k; j++) anc.a[k][j] = anc.a[par[k]][j]; }
  bad = 0; for (int k = 1; k <= n; k++) for (int j = 1; j < k; j++) bad |= d.a[k][j] & !anc.a[k][j]; vs_assert(!bad, "an edge joins two vertices that are not ancestor and descendant");
  bad = 0; for (int k = 2; k <= n; k++) if (par[k]) bad |= !anc.a[k - 1][par[k]]; vs_assert(!bad, "DFIs are not a preorder numbering");
  static omat r; om_reach(&d, &r); int roots = 0, comps = 0; for (int k = 1; k <= n; k++) { roots += par[k] == 0; int f = 1; for (int j = 1; j < k; j++) f &= !r.a[j][k]; comps += f; }
  vs_assert(roots == comps, "not one root per component");
  bad = 0;
  for (int v = 1; v <= n; v++) { int e = gp_GetFirstArc(g, v); while (gp_IsArc(e)) { int a = dfi[v], b = dfi[gp_GetNeighbor(g, e)], t = gp_GetEdgeType(g, e);
      int want = par[b] == a ? EDGE_TYPE_CHILD : par[a] == b ? EDGE_TYPE_PARENT : a < b ? EDGE_TYPE_FORWARD : EDGE_TYPE_BACK; bad |= t != want; e = gp_GetNextArc(g, e); } }
  vs_assert(!bad, "edge types do not agree with the tree");
}
void harness(void) {
  static esym s; static omat m, x; static edgeRec E0[80]; static vertexRec V0[2 * NN + 2]; static int P0[ON];
  graphP g = sym_graph(&s, &m, NN);
  int nE = gp_EdgeInUseIndexBound(g);
#if defined HOLES
  { int del = vs_range("del", 0, 3); for (int k = 0; k < 4; k++) if (k == del && g->M > k) { int e = gp_GetFirstEdge(g) + 2 * k + (k & 1); int a = gp_GetNeighbor(g, e), b = gp_GetNeighbor(g, gp_GetTwinArc(g, e)); gp_DeleteEdge(g, e, 0); m.a[a][b] = 0; m.a[b][a] = 0; } nE = gp_EdgeInUseIndexBound(g); }
#endif
  /* visited marks left by the caller must not matter */
  { int mk = vs_range("marks", 0, 3); if (mk) { for (int v = 1; v <= NN; v++) if (mk == 3 || (v & 1) == (mk & 1)) gp_SetVertexVisited(g, v); for (int e = gp_GetFirstEdge(g); e < nE; e++) if (gp_EdgeInUse(g, e) && (mk == 3 || (e >> 1 & 1) == (mk & 1))) gp_SetEdgeVisited(g, e); } }
  for (int i = 0; i < 80; i++) if (i < nE) E0[i] = g->E[i];
  for (int i = 1; i <= NN; i++) V0[i] = g->V[i];
#if PART == 14
  vs_assert(gp_CreateDFSTree(g) == OK, "DFS failed");
  check_tree(g, &m, 0);
  int bad = 0; for (int i = 0; i < 80; i++) if (i < nE) bad |= (E0[i].link[0] ^ g->E[i].link[0]) | (E0[i].link[1] ^ g->E[i].link[1]) | (E0[i].neighbor ^ g->E[i].neighbor);
  for (int i = 1; i <= NN; i++) bad |= (V0[i].link[0] ^ g->V[i].link[0]) | (V0[i].link[1] ^ g->V[i].link[1]);
  vs_assert(!bad, "DFS changed the adjacency lists");
  vs_trace("i", gp_GetVertexIndex(g, NN));
  vs_assert(gp_CreateDFSTree(g) == OK, "second DFS failed"); check_tree(g, &m, 0);
#elif PART == 15
  int pre = vs_range("prepared", 0, 3), which = vs_range("which", 0, 1);
  if (pre >= 1) vs_assert(gp_CreateDFSTree(g) == OK, "DFS failed");
  if (pre >= 2) vs_assert(gp_SortVertices(g) == OK, "sort failed");
  if (pre >= 3) vs_assert(gp_SortVertices(g) == OK, "sort failed");
  if (which) vs_assert(gp_LowpointAndLeastAncestor(g) == OK, "lowpoint failed"); else vs_assert(gp_LeastAncestor(g) == OK, "least ancestor failed");
  om_of_graph(g, &x);
  static omat mm; /* sorted graph: labels are DFIs, index is the original label */
  int bad = 0; for (int a = 1; a <= NN; a++) for (int b = 1; b <= NN; b++) bad |= x.a[a][b] ^ m.a[gp_GetVertexIndex(g, a)][gp_GetVertexIndex(g, b)]; vs_assert(!bad, "graph not left sorted by DFI");
  check_tree(g, &x, 1);
  static int la[ON], low[ON]; bad = 0; int badl = 0;
  for (int v = 1; v <= NN; v++) { la[v] = v; for (int u = v - 1; u >= 1; u--) if (u != par[v] && x.a[v][u]) la[v] = u; low[v] = la[v]; }
  for (int v = NN; v >= 1; v--) for (int u = 1; u < v; u++) if (par[v] == u) low[u] = low[v] < low[u] ? low[v] : low[u];
  for (int v = 1; v <= NN; v++) { bad |= gp_GetVertexLeastAncestor(g, v) != la[v]; if (which) badl |= gp_GetVertexLowpoint(g, v) != low[v]; }
  vs_assert(!bad, "least ancestor differs from its definition"); vs_assert(!badl, "lowpoint differs from its definition");
  vs_trace("la", gp_GetVertexLeastAncestor(g, NN));
#else
  int predfs = vs_range("predfs", 0, 1), again = vs_range("again", 0, 1); if (predfs) vs_assert(gp_CreateDFSTree(g) == OK, "DFS failed");
  vs_assert(gp_SortVertices(g) == OK, "sort failed");
  om_of_graph(g, &x);
  int bad = 0, perm = 0; static int cnt[ON]; for (int i = 0; i <= NN; i++) cnt[i] = 0;
  for (int a = 1; a <= NN; a++) { int o = gp_GetVertexIndex(g, a); vs_assert(o >= 1 && o <= NN, "original label out of range"); cnt[o]++; for (int b = 1; b <= NN; b++) bad |= x.a[a][b] ^ m.a[o][gp_GetVertexIndex(g, b)]; }
  for (int i = 1; i <= NN; i++) perm |= cnt[i] != 1; vs_assert(!perm, "original labels are not a permutation"); vs_assert(!bad, "sorted graph is not the input with the recorded labels");
  int ord = 0; /* the adjacency list order of every vertex is kept */
  for (int a = 1; a <= NN; a++) { int o = gp_GetVertexIndex(g, a); ord |= (g->V[a].link[0] ^ V0[o].link[0]) | (g->V[a].link[1] ^ V0[o].link[1]); }
  for (int i = 0; i < 80; i++) if (i < nE) ord |= (E0[i].link[0] ^ g->E[i].link[0]) | (E0[i].link[1] ^ g->E[i].link[1]);
  vs_assert(!ord, "sorting changed the order of an adjacency list");
  check_tree(g, &x, 1);
  for (int a = 1; a <= NN; a++) P0[gp_GetVertexIndex(g, a)] = a;
  vs_assert(gp_SortVertices(g) == OK, "second sort failed");
  bad = 0; for (int i = 0; i < 80; i++) if (i < nE) bad |= (E0[i].link[0] ^ g->E[i].link[0]) | (E0[i].link[1] ^ g->E[i].link[1]) | (E0[i].neighbor ^ g->E[i].neighbor);
  for (int i = 1; i <= NN; i++) bad |= (V0[i].link[0] ^ g->V[i].link[0]) | (V0[i].link[1] ^ g->V[i].link[1]) | (gp_GetVertexIndex(g, i) != P0[i]);
  vs_assert(!bad, "sorting twice does not restore the original labels");
  check_tree(g, &m, 0);
  vs_trace("i", gp_GetVertexIndex(g, NN));
  /* whatever needs the sorted order after the order was restored sorts once more */
  if (again) vs_assert(gp_SortVertices(g) == OK, "third sort failed"); vs_assert(gp_LowpointAndLeastAncestor(g) == OK, "lowpoint failed");
  om_of_graph(g, &x); bad = 0; for (int a = 1; a <= NN; a++) { int o = gp_GetVertexIndex(g, a); vs_assert(o >= 1 && o <= NN, "original label out of range"); bad |= P0[o] != a; for (int b = 1; b <= NN; b++) bad |= x.a[a][b] ^ m.a[o][gp_GetVertexIndex(g, b)]; }
  vs_assert(!bad, "graph not in sorted order when it is needed");
#endif
  gp_Free(&g); vs_no_leaks();
}

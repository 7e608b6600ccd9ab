/* Histories of edge-store operations against an ordered-list reference model.
   NN vertices, STEPS symbolic operations, PRE edges added beforehand; CAP: initial arc capacity (0: default) */
#include "oracle.h"
#ifndef STEPS
#define STEPS 3
#endif
#ifndef MODE
#define MODE 0   /* 0: add, insert, delete;  1: hide and restore */
#endif
#define MAXL 16
static int len[ON], lst[ON][MAXL];       /* edge ids of each vertex, in order */
static int eu[64], ev[64], alive[64], nid;
static int tag[64];                      /* arc -> edge id */
static graphP g;
static void ins(int v, int pos, int id) { for (int i = MAXL - 1; i > 0; i--) if (i > pos && i <= len[v]) lst[v][i] = lst[v][i - 1]; lst[v][pos] = id; len[v]++; }
static int posof(int v, int id) { int p = -1; for (int i = 0; i < MAXL; i++) if (i < len[v] && lst[v][i] == id) p = i; return p; }
static void del(int v, int id) { int p = posof(v, id); for (int i = 0; i + 1 < MAXL; i++) if (i >= p && i + 1 < len[v]) lst[v][i] = lst[v][i + 1]; len[v]--; }
static int arcat(int v, int k) { int e = gp_GetFirstArc(g, v); while (k > 0 && gp_IsArc(e)) { e = gp_GetNextArc(g, e); k--; } return e; }
static void verify(void) {
  static omat m; om_of_graph(g, &m);
  int bad = 0;
  for (int v = 1; v <= NN; v++) {
    int e = gp_GetFirstArc(g, v), k = 0;
    while (gp_IsArc(e)) {
      if (k >= len[v]) { bad = 1; break; }
      int id = lst[v][k];
      bad |= tag[e] != id; bad |= gp_GetNeighbor(g, e) != (eu[id] == v ? ev[id] : eu[id]);
      e = gp_GetNextArc(g, e); k++;
    }
    bad |= k != len[v];
  }
  vs_assert(!bad, "adjacency lists differ from the reference model");
  int live = 0; for (int i = 0; i < nid; i++) live += alive[i];
  vs_assert(g->M == live, "edge count differs from the reference model");
  int used = 0, lim = gp_EdgeInUseIndexBound(g); vs_assert(lim <= gp_EdgeIndexBound(g), "in-use bound beyond the capacity");
  for (int e = gp_GetFirstEdge(g); e < lim; e += 2) { int a = gp_EdgeInUse(g, e) != 0, b = gp_EdgeInUse(g, e + 1) != 0; vs_assert(a == b, "half an edge is in use"); used += a; }
  vs_assert(used == live, "scanning the edge array by the in-use test does not find exactly the edges");
}
static void put(int u, int pu, int eu_, int v, int pv, int ev_) { /* the new arcs are eu_ in u at position pu, ev_ in v */
  int id = nid++; eu[id] = u; ev[id] = v; alive[id] = 1;
  vs_assert(eu_ >= gp_GetFirstEdge(g) && eu_ < gp_EdgeIndexBound(g), "new arc outside the store"); 
  vs_assert(gp_GetTwinArc(g, eu_) == ev_, "the two new arcs are not twins");
  tag[eu_] = id; tag[ev_] = id; ins(u, pu, id); ins(v, pv, id);
  vs_assert(g->E[eu_].flags == 0 && g->E[ev_].flags == 0, "a new edge carries flags of an older one");
}
static void add(int u, int ul, int v, int vl, int dyn) {
  int full = g->M >= (g->arcCapacity >> 1), cap0 = g->arcCapacity;
  int r = dyn ? gp_DynamicAddEdge(g, u, ul, v, vl) : gp_AddEdge(g, u, ul, v, vl);
  if (full && !dyn) { vs_assert(r == NONEMBEDDABLE, "adding beyond the capacity is not reported"); vs_assert(g->arcCapacity == cap0, "plain add changed the capacity"); vs_cover("full"); return; }
  if (full && cap0 >= NN * (NN - 1)) { vs_assert(r == NONEMBEDDABLE, "adding to a complete graph is not reported"); return; }
  vs_assert(r == OK, "adding an edge failed");
  if (full) { vs_cover("grown"); int want = 2 * cap0 > NN * (NN - 1) ? NN * (NN - 1) : 2 * cap0; vs_assert(g->arcCapacity >= want && gp_GetArcCapacity(g) == g->arcCapacity, "growing did not double the capacity up to all pairs");
    int bad = 0; for (int e = gp_EdgeInUseIndexBound(g); e < gp_EdgeIndexBound(g); e++) bad |= g->E[e].link[0] | g->E[e].link[1] | g->E[e].neighbor | g->E[e].flags; vs_assert(!bad, "new edge records are not initialised");
    vs_assert(sp_GetCapacity(g->theStack) >= 2 * g->arcCapacity && sp_GetCapacity(g->edgeHoles) >= g->arcCapacity / 2, "stacks too small for the new capacity"); }
  else vs_assert(g->arcCapacity == cap0, "capacity changed although there was room");
  put(u, ul ? len[u] : 0, ul ? gp_GetLastArc(g, u) : gp_GetFirstArc(g, u), v, vl ? len[v] : 0, vl ? gp_GetLastArc(g, v) : gp_GetFirstArc(g, v));
}
/* an explicit request at an arbitrary moment */
static void ensure(int k, int more, int bit) {
  int cap0 = g->arcCapacity, M0 = g->M, req = k == 0 ? cap0 + 2 : k == 1 ? cap0 + 6 : more ? cap0 - 2 : ((cap0 + 1) | 1) - (bit ? 4 : 0);
  int ok = k < 2 || (more && req > 0), r = gp_EnsureArcCapacity(g, req);
  vs_assert(r == (ok ? OK : NOTOK), "capacity request answered wrongly");
  if (k < 2) { vs_assert(g->arcCapacity >= req && gp_GetArcCapacity(g) == g->arcCapacity, "capacity request granted but not honoured"); vs_cover("ensured");
    int bad = 0; for (int e = gp_EdgeInUseIndexBound(g); e < gp_EdgeIndexBound(g); e++) bad |= g->E[e].link[0] | g->E[e].link[1] | g->E[e].neighbor | g->E[e].flags; vs_assert(!bad, "new edge records are not initialised");
    vs_assert(sp_GetCapacity(g->theStack) >= 2 * g->arcCapacity && sp_GetCapacity(g->edgeHoles) >= g->arcCapacity / 2, "stacks too small for the new capacity"); }
  else vs_assert(g->arcCapacity == cap0, "a refused or smaller capacity request changed the capacity");
  vs_assert(g->M == M0, "a capacity request changed the number of edges");
}
static const int PU[] = {1, 1, 2, 1, 2, 3}, PV[] = {2, 3, 3, 4, 4, 4};
#define NPAIR (NN * (NN - 1) / 2)
void harness(void) {
  g = gp_New();
#ifdef CAP
  vs_assert(gp_EnsureArcCapacity(g, CAP) == OK, "capacity request before initialisation failed");
#endif
  vs_assert(gp_InitGraph(g, NN) == OK, "init");
#ifdef CAP
  vs_assert(g->arcCapacity == CAP && gp_GetArcCapacity(g) == CAP, "capacity requested before initialisation not honoured");
#endif
#ifdef PRE
  for (int i = 0; i < PRE; i++) add(PU[i % NPAIR], i & 1, PV[i % NPAIR], (i >> 1) & 1, 0);
#endif
#if MODE == 0
  for (int s = 0; s < STEPS; s++) {
    int op = vs_range("op", 0, DYN ? 3 : 2), p = vs_range("pair", 0, NPAIR - 1), k = vs_range("k", 0, 2), l1 = vs_range("l1", 0, 1), l2 = vs_range("l2", 0, 1);
    int u = PU[p], v = PV[p];
    if (op == 0) add(u, l1, v, l2, DYN);
    else if (op == 3) ensure(k, l1, l2);
    else if (op == 1) { /* insert next to the k-th arc of u and the first arc of v (NIL when absent) */
      int e1 = arcat(u, k), e2 = gp_GetFirstArc(g, v), full = g->M >= (g->arcCapacity >> 1);
      int p1, p2; if (gp_IsArc(e1)) p1 = l1 ? k : k + 1; else p1 = l1 ? len[u] : 0;
      if (gp_IsArc(e1) && l1 == 0) p1 = k + 1;
      if (gp_IsArc(e2)) p2 = l2 ? 0 : 1; else p2 = 0;
      int r = gp_InsertEdge(g, u, e1, l1, v, e2, l2);
      if (full) { vs_assert(r == NONEMBEDDABLE, "insertion beyond the capacity is not reported"); vs_cover("full"); }
      else { vs_assert(r == OK, "insertion failed"); put(u, p1, arcat(u, p1), v, p2, arcat(v, p2)); vs_cover("insert"); }
    } else {
      int e = arcat(u, k);
      if (gp_IsArc(e)) {
        int id = tag[e], want = l1 ? gp_GetPrevArc(g, e) : gp_GetNextArc(g, e), a = eu[id], b = ev[id];
        int r = gp_DeleteEdge(g, e, l1);
        vs_assert(r == want, "deletion does not return the adjacent arc");
        alive[id] = 0; del(a, id); del(b, id); vs_cover("delete");
      }
    }
    verify();
  }
#else
  /* hide a symbolic sequence of edges, look at the lists, restore in reverse: everything is as before */
  static int hid[STEPS], gone[64], hu[STEPS]; static edgeRec E0[64]; static vertexRec V0[2 * NN + 2];
  int nE = gp_EdgeIndexBound(g), nV = gp_VertexIndexBound(g);
  for (int i = 0; i < nE; i++) E0[i] = g->E[i]; for (int i = 0; i < nV; i++) V0[i] = g->V[i];
  for (int s = 0; s < STEPS; s++) {
    int p = vs_range("hide", 0, PRE), side = vs_range("side", 0, 1); hid[s] = NIL;
    if (p < PRE && !gone[p]) { gone[p] = 1; int e = NIL, lim = gp_EdgeInUseIndexBound(g); for (int i = gp_GetFirstEdge(g); i < lim; i += 2) if (tag[i] == p) e = i + side; hid[s] = e; hu[s] = p; gp_HideEdge(g, e); }
    int bad = 0; /* the lists are the original ones without the hidden edges */
    for (int v = 1; v <= NN; v++) { int e = gp_GetFirstArc(g, v), prev = NIL; for (int k = 0; k < len[v]; k++) { int id = lst[v][k]; if (!gone[id]) { if (!gp_IsArc(e)) { bad = 1; break; } bad |= tag[e] != id; bad |= gp_GetPrevArc(g, e) != prev; prev = e; e = gp_GetNextArc(g, e); } } bad |= gp_IsArc(e); bad |= gp_GetLastArc(g, v) != prev; }
    vs_assert(!bad, "after hiding, the lists are not the remaining edges in their order");
  }
  for (int s = STEPS - 1; s >= 0; s--) if (gp_IsArc(hid[s])) { gp_RestoreEdge(g, hid[s]); }
  int bad = 0;
  for (int i = 0; i < nE; i++) bad |= (E0[i].link[0] ^ g->E[i].link[0]) | (E0[i].link[1] ^ g->E[i].link[1]) | (E0[i].neighbor ^ g->E[i].neighbor) | (E0[i].flags ^ g->E[i].flags);
  for (int i = 0; i < nV; i++) bad |= (V0[i].link[0] ^ g->V[i].link[0]) | (V0[i].link[1] ^ g->V[i].link[1]);
  vs_assert(!bad, "restoring in reverse order does not bring the graph back");
  verify();
#endif
  vs_trace("M", g->M); vs_trace("a", gp_GetFirstArc(g, 1)); vs_trace("b", gp_GetLastArc(g, 2));
  gp_Free(&g); vs_assert(g == 0, "gp_Free does not clear the pointer"); vs_no_leaks();
}

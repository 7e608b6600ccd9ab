/* Histories of attaching, finding and removing the algorithm extensions.
   STEPS symbolic operations; then an algorithm runs and the extensions are removed again */
#include "oracle.h"
#include <stdlib.h>
#include "planarityRelated/graphDrawPlanar.h"
#include "homeomorphSearch/graphK23Search.h"
#include "homeomorphSearch/graphK33Search.h"
#include "homeomorphSearch/graphK4Search.h"
extern int DRAWPLANAR_ID, K23SEARCH_ID, K33SEARCH_ID, K4SEARCH_ID;
#ifndef OPLO
#define OPLO 0
#endif
#ifndef OPHI
#define OPHI 6
#endif
static const int flagsOf[] = {EMBEDFLAGS_PLANAR, EMBEDFLAGS_OUTERPLANAR, EMBEDFLAGS_SEARCHFORK23, EMBEDFLAGS_SEARCHFORK33, EMBEDFLAGS_SEARCHFORK4, EMBEDFLAGS_DRAWPLANAR};
static int attach(graphP g, int c) { return c == 2 ? gp_AttachK23Search(g) : c == 3 ? gp_AttachK33Search(g) : c == 4 ? gp_AttachK4Search(g) : gp_AttachDrawPlanar(g); }
static int detach(graphP g, int c) { return c == 2 ? gp_DetachK23Search(g) : c == 3 ? gp_DetachK33Search(g) : c == 4 ? gp_DetachK4Search(g) : gp_DetachDrawPlanar(g); }
static int idOf(int c) { return c == 2 ? K23SEARCH_ID : c == 3 ? K33SEARCH_ID : c == 4 ? K4SEARCH_ID : DRAWPLANAR_ID; }
static int has[6]; static graphP g; static omat m, x; static esym s;
static void query(void) { for (int c = 2; c <= 5; c++) { void *p = &p; int id = idOf(c), r = gp_FindExtension(g, id, &p), q = gp_FindExtension(g, id, 0);
    vs_assert((r == TRUE) == has[c] && (q == TRUE) == has[c], "an attached extension is not found or a removed one is"); vs_assert((p != 0) == has[c] && (gp_GetExtension(g, id) != 0) == has[c], "the data of an extension is not what the query says");
    for (int d = 2; d < c; d++) vs_assert(!has[c] || !has[d] || id != idOf(d), "two extensions share an identifier"); } }
static void certify(int c, int r) {
  vs_assert(r == OK || r == NONEMBEDDABLE, "gp_Embed returned neither OK nor NONEMBEDDABLE"); gp_SortVertices(g);
  if (r == OK) { if (c == 0 || c == 5) cert_planar(g, &m, 0, 0); if (c == 1) cert_outerplanar(g, &m); if (c == 2) vs_assert(!has_K23(&m), "wrong verdict OK"); if (c == 3) vs_assert(!has_K33(&m), "wrong verdict OK"); if (c == 4) vs_assert(!has_K4(&m), "wrong verdict OK"); }
  else if (c != 5) { cert_subgraph_of(g, &m, &x); vs_assert(c == 0 ? is_Kk(&x, 5) | is_K33(&x) : c == 1 ? is_Kk(&x, 4) | is_K23(&x) : c == 2 ? is_K23(&x) : c == 3 ? is_K33(&x) : is_Kk(&x, 4), "wrong obstruction"); vs_cover("nonembeddable"); }
}
void harness(void) {
  sym_edges(&s, &m, NN); g = gp_New(); vs_assert(g != 0, "gp_New failed"); int init = 0;
  for (int t = 0; t < STEPS; t++) {
    int op = vs_range("op", OPLO, OPHI), c = vs_range("c", 2, 5);
    if (op <= 1) { vs_assert(attach(g, c) == OK, "attaching an extension failed"); if (has[c]) vs_cover("again"); has[c] = 1; }
    else if (op == 2) { int r = detach(g, c); if (has[c]) { vs_assert(r == OK, "removing an extension failed"); vs_cover("removed"); } has[c] = 0; }
    else if (op == 3) { int r = gp_InitGraph(g, NN); vs_assert((r == OK) == !init, "initialising a graph once, and only once, does not work"); init = 1; }
    else if (op == 4) { if (init) { gp_ReinitializeGraph(g); vs_cover("emptied"); } }
    else if (op == 5) { if (init) { graphP h = gp_DupGraph(g); vs_assert(h != 0, "gp_DupGraph failed"); gp_Free(&g); g = h; vs_cover("duplicated"); } }
    else if (init) { int cap = g->arcCapacity, r = gp_EnsureArcCapacity(g, cap + 2), fixed = has[3] || has[4] || has[5];
      vs_assert(r == (fixed ? NOTOK : OK) && g->arcCapacity == (fixed ? cap : cap + 2), "growing is refused exactly while an extension with data per edge is attached"); if (!fixed) vs_cover("grown"); }
    query();
    if (init) vs_assert(g->N == NN && g->M == 0, "an extension operation changed the graph");
  }
  int run = vs_range("run", 0, 5), late = vs_range("late", 0, 1), back = vs_range("back", 0, 1);
  if (!late && run >= 2) { vs_assert(attach(g, run) == OK, "attaching failed"); has[run] = 1; }
  if (!init) vs_assert(gp_InitGraph(g, NN) == OK, "gp_InitGraph failed");
  for (int i = 0; i < s.k; i++) if (s.on[i]) vs_assert(gp_AddEdge(g, s.u[i], i & 1, s.v[i], (i >> 1) & 1) == OK, "adding an edge failed");
  if (late && run >= 2) { vs_assert(attach(g, run) == OK, "attaching failed"); has[run] = 1; }
  query();
  int r = gp_Embed(g, flagsOf[run]); vs_trace("r", r); certify(run, r); query();
  /* without the extensions the graph is an ordinary one again */
  for (int i = 2; i <= 5; i++) { int c = back ? 7 - i : i; if (has[c]) { vs_assert(detach(g, c) == OK, "removing an extension failed"); has[c] = 0; } query(); }
  gp_ReinitializeGraph(g); vs_assert(gp_EnsureArcCapacity(g, g->arcCapacity + 2) == OK, "growing failed although no extension is attached");
  for (int i = 0; i < s.k; i++) if (s.on[i]) vs_assert(gp_AddEdge(g, s.u[i], 0, s.v[i], 0) == OK, "adding an edge failed");
  certify(0, gp_Embed(g, EMBEDFLAGS_PLANAR));
  gp_Free(&g); vs_no_leaks();
}

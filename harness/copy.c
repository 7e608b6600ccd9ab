/* Copies and duplicates: equal to the source, and independent of it afterwards.
   KIND 0 gp_DupGraph; 1 gp_CopyGraph into a used graph; 2 gp_CopyAdjacencyLists into a used graph; 3 copies that are refused
   STATE 0 as built (free slots with ORDER 4), 1 embedded, 2 embedded and sorted, 3 drawn;  EXT: list of extensions attached to the source, e.g. 3,5
   DEXT: extensions attached to the destination;  DCAP: its arc capacity;  CMD: the algorithm run in the end */
#include "oracle.h"
#include <stdlib.h>
#include <string.h>
#include "planarityRelated/graphDrawPlanar.h"
#include "homeomorphSearch/graphK23Search.h"
#include "homeomorphSearch/graphK33Search.h"
#include "homeomorphSearch/graphK4Search.h"
extern int DRAWPLANAR_ID, K23SEARCH_ID, K33SEARCH_ID, K4SEARCH_ID;
#ifndef STATE
#define STATE 0
#endif
#ifndef CMD
#define CMD 0
#endif
#define EC 64
static const int flagsOf[] = {EMBEDFLAGS_PLANAR, EMBEDFLAGS_OUTERPLANAR, EMBEDFLAGS_SEARCHFORK23, EMBEDFLAGS_SEARCHFORK33, EMBEDFLAGS_SEARCHFORK4, EMBEDFLAGS_DRAWPLANAR};
static int attach(graphP g, int c) { return c == 2 ? gp_AttachK23Search(g) : c == 3 ? gp_AttachK33Search(g) : c == 4 ? gp_AttachK4Search(g) : c == 5 ? gp_AttachDrawPlanar(g) : OK; }
static int detach(graphP g, int c) { return c == 2 ? gp_DetachK23Search(g) : c == 3 ? gp_DetachK33Search(g) : c == 4 ? gp_DetachK4Search(g) : c == 5 ? gp_DetachDrawPlanar(g) : OK; }
static int idOf(int c) { return c == 2 ? K23SEARCH_ID : c == 3 ? K33SEARCH_ID : c == 4 ? K4SEARCH_ID : DRAWPLANAR_ID; }
static int has(graphP g, int c) { void *p = 0; int r = gp_FindExtension(g, idOf(c), &p); vs_assert(!r || p != 0, "an extension is found without its data"); return r == TRUE; }
static const int ext[] = {0
#ifdef EXT
, EXT
#endif
}, dext[] = {0
#ifdef DEXT
, DEXT
#endif
};
#define NEXT (int)(sizeof ext / sizeof ext[0])
#define NDEXT (int)(sizeof dext / sizeof dext[0])
/* what the public accessors tell about a graph */
typedef struct { int N, M, holes, fl, e[ON][2 * ON], k[ON], t[ON][2 * ON], d[ON][2 * ON], v[ON][5], x[4]; } view;
static void look(graphP g, view *w) {
  w->N = g->N; w->M = g->M; w->holes = sp_GetCurrentSize(g->edgeHoles); w->fl = (int)g->embedFlags * 64 + (int)(g->internalFlags & 63);
  for (int v = 1; v <= NN; v++) w->k[v] = 0;
  for (int v = 1; v <= NN && v <= g->N; v++) { int e = gp_GetFirstArc(g, v), k = 0;
    while (gp_IsArc(e)) { vs_assert(k < 2 * ON, "model: list length"); w->e[v][k] = gp_GetNeighbor(g, e); w->t[v][k] = gp_GetEdgeType(g, e); w->d[v][k] = gp_GetDirection(g, e); e = gp_GetNextArc(g, e); k++; }
    w->k[v] = k; w->v[v][0] = gp_GetVertexIndex(g, v); w->v[v][1] = gp_GetVertexParent(g, v); w->v[v][2] = gp_GetVertexLeastAncestor(g, v); w->v[v][3] = gp_GetVertexLowpoint(g, v); w->v[v][4] = gp_GetVertexVisited(g, v) != 0; }
  for (int c = 2; c <= 5; c++) w->x[c - 2] = has(g, c);
}
static void same(const view *a, const view *b, int lists_only, const char *msg) {
  int bad = a->N != b->N || a->M != b->M || a->holes != b->holes;
  for (int v = 1; v <= NN; v++) { bad |= a->k[v] != b->k[v]; for (int k = 0; k < 2 * ON; k++) if (k < a->k[v]) bad |= a->e[v][k] ^ b->e[v][k]; }
  vs_assert(!bad, msg); if (lists_only) return;
  bad |= a->fl != b->fl;
  for (int v = 1; v <= NN; v++) { for (int k = 0; k < 2 * ON; k++) if (k < a->k[v]) bad |= (a->t[v][k] ^ b->t[v][k]) | (a->d[v][k] ^ b->d[v][k]); if (v <= a->N) for (int i = 0; i < 5; i++) bad |= a->v[v][i] ^ b->v[v][i]; }
  for (int c = 0; c < 4; c++) bad |= a->x[c] ^ b->x[c];
  vs_assert(!bad, msg);
}
static omat m, x;
static void certify(graphP g, int r) { /* result of the algorithm CMD on m */
  vs_assert(r == OK || r == NONEMBEDDABLE, "gp_Embed returned neither OK nor NONEMBEDDABLE");
  gp_SortVertices(g);
  if (r == OK) { vs_cover("embeddable"); if (CMD == 0 || CMD == 5) cert_planar(g, &m, 0, 0); if (CMD == 2) vs_assert(!has_K23(&m), "wrong verdict OK"); if (CMD == 3) vs_assert(!has_K33(&m), "wrong verdict OK"); if (CMD == 4) vs_assert(!has_K4(&m), "wrong verdict OK"); }
  else { vs_cover("nonembeddable"); if (CMD == 5) return; cert_subgraph_of(g, &m, &x); vs_assert(CMD == 0 ? is_Kk(&x, 5) | is_K33(&x) : CMD == 2 ? is_K23(&x) : CMD == 3 ? is_K33(&x) : is_Kk(&x, 4), "wrong obstruction"); }
}
static esym s; static view va, vb, vc;
static int addarc(graphP g, int u, int v) { int r = gp_AddEdge(g, u, 0, v, 0); if (r == OK) { int e = gp_GetFirstArc(g, u); vs_assert(gp_GetDirection(g, e) == 0 && gp_GetDirection(g, gp_GetTwinArc(g, e)) == 0, "an edge added to an undirected graph is directed"); } return r; }
static graphP source(void) {
  graphP g = gp_New(); vs_assert(g != 0, "gp_New failed");
#ifdef SCAP
  vs_assert(gp_EnsureArcCapacity(g, SCAP) == OK, "capacity request failed");
#endif
  vs_assert(gp_InitGraph(g, NN) == OK, "gp_InitGraph failed");
  build_edges(g, &s);
  for (int i = 1; i < NEXT; i++) vs_assert(attach(g, ext[i]) == OK, "attaching failed");
#if STATE >= 1
  int r = gp_Embed(g, STATE == 3 ? EMBEDFLAGS_DRAWPLANAR : EMBEDFLAGS_PLANAR); vs_assert(r == OK || r == NONEMBEDDABLE, "gp_Embed failed");
#if STATE >= 2
  vs_assert(gp_SortVertices(g) == OK, "gp_SortVertices failed");
#endif
  if (STATE == 3) vs_assume(r == OK);
#elif defined(DIRS)
  for (int i = 0; i < s.k && i < 3; i++) { int d = vs_range("dir", 0, 2); if (s.on[i] && d) gp_SetDirection(g, gp_GetNeighborEdgeRecord(g, s.u[i], s.v[i]), d == 1 ? EDGEFLAG_DIRECTION_OUTONLY : EDGEFLAG_DIRECTION_INONLY); }
#endif
  return g;
}
static graphP used_destination(int n) { /* a graph with a history of its own: a directed cycle, some edges deleted, algorithms run */
  graphP h = gp_New(); vs_assert(h && gp_InitGraph(h, n) == OK, "gp_InitGraph failed");
#ifdef DCAP
  vs_assert(gp_EnsureArcCapacity(h, DCAP) == OK, "capacity request failed");
#endif
  int hist = vs_range("hist", 0, 3);
  if (hist) { for (int i = 1; i <= n; i++) for (int j = i + 1; j <= n; j++) { vs_assert(gp_DynamicAddEdge(h, i, 0, j, 1) == OK, "adding failed"); gp_SetDirection(h, gp_GetLastArc(h, j), EDGEFLAG_DIRECTION_INONLY); }
    if (hist >= 2) for (int v = 1; v <= n; v += 2) { int e = gp_GetFirstArc(h, v); if (gp_IsArc(e)) gp_DeleteEdge(h, e, 0); } if (hist == 3) { int q = gp_Embed(h, EMBEDFLAGS_OUTERPLANAR); vs_assert(q == OK || q == NONEMBEDDABLE, "embedding failed"); } vs_cover("history"); }
  for (int i = 1; i < NDEXT; i++) vs_assert(attach(h, dext[i]) == OK, "attaching failed");
  return h;
}
#if STATE == 3
static void drawings(graphP g, graphP h) { char *a = 0, *b = 0; vs_assert(gp_DrawPlanar_RenderToString(g, &a) == OK && gp_DrawPlanar_RenderToString(h, &b) == OK && a && b, "rendering failed"); vs_assert(strcmp(a, b) == 0, "the copy has another drawing than the source"); free(a); free(b); }
#endif
void harness(void) {
  sym_edges(&s, &m, NN); graphP g = source(), h = 0; look(g, &va); int r = OK;
#if KIND == 0
  h = gp_DupGraph(g); vs_assert(h != 0, "gp_DupGraph failed");
#elif KIND == 1
  h = used_destination(NN); r = gp_CopyGraph(h, g);
#elif KIND == 2
  h = used_destination(NN); r = gp_CopyAdjacencyLists(h, g);
#elif KIND == 3
  h = used_destination(DN); look(h, &vb);
  r = vs_range("lists", 0, 1) ? gp_CopyAdjacencyLists(h, g) : gp_CopyGraph(h, g);
  vs_assert(r == NOTOK, "a copy into a graph that cannot take it is not refused"); look(g, &vc); same(&va, &vc, 0, "a refused copy changed the source"); look(h, &vc); same(&vb, &vc, 0, "a refused copy changed the destination");
  om_of_graph(h, &x); gp_Free(vs_range("first", 0, 1) ? &g : &h); gp_Free(&g); gp_Free(&h); vs_trace("r", r); vs_no_leaks(); return;
#endif
  vs_assert(r == OK, "copying failed");
  look(g, &vb); same(&va, &vb, 0, "copying changed the source");
  look(h, &vb); same(&va, &vb, KIND == 2, "the copy differs from the source");
#if KIND == 2
  om_of_graph(h, &x);
  for (int c = 2; c <= 5; c++) { int want = 0; for (int i = 1; i < NDEXT; i++) want |= dext[i] == c; vs_assert(has(h, c) == want, "copying adjacency lists changed the extensions"); }
#endif
#if STATE == 3
  drawings(g, h);
#endif
#if STATE >= 1 && KIND < 2
  if (vs_range("derive", 0, 1)) { /* both sides answer alike from then on */
    int e1 = gp_LowpointAndLeastAncestor(g), e2 = gp_LowpointAndLeastAncestor(h); vs_assert(e1 == e2, "the copy behaves differently from the source");
    look(g, &vb); look(h, &vc); same(&vb, &vc, 0, "the copy behaves differently from the source"); vs_cover("derived");
    gp_SortVertices(g); gp_SortVertices(h); look(g, &vb); look(h, &vc); same(&vb, &vc, 0, "the copy behaves differently from the source"); gp_SortVertices(g); gp_SortVertices(h); }
#endif
  /* one side changes, the other does not */
  int side = vs_range("side", 0, 1), op = vs_range("op", 0, 5), which = vs_range("which", 1, NEXT > 1 ? NEXT - 1 : 1), u = vs_range("u", 1, NN);
  graphP a = side ? h : g, b = side ? g : h;   /* a is changed, b is watched */
  look(b, &vb);
  if (op == 0) { if (side) gp_Free(&h); else gp_Free(&g); a = 0; vs_cover("freed"); }
  else if (op == 1) { int e = gp_GetFirstArc(a, u); if (gp_IsArc(e)) { gp_DeleteEdge(a, e, 0); vs_cover("deleted"); } }
  else if (op == 2) { if (STATE == 0) { int w = u == NN ? 1 : u + 1, M0 = a->M, room = a->M < a->arcCapacity / 2; int q = addarc(a, u, w); vs_assert(q == (room ? OK : NONEMBEDDABLE) && a->M == M0 + room, "adding an edge failed"); if (room) vs_cover("added"); } }
  else if (op == 3) { if (STATE == 0) { int q = gp_Embed(a, flagsOf[(KIND == 2 && side) ? 0 : CMD]); vs_assert(q == OK || q == NONEMBEDDABLE, "gp_Embed failed"); vs_cover("embedded"); } }
  else if (op == 4) { if (NEXT > 1) { int had = has(a, ext[which]); vs_assert(detach(a, ext[which]) == OK, "detaching failed"); vs_assert(!has(a, ext[which]), "a detached extension is still found"); if (had) vs_cover("detached"); } }
  else { gp_ReinitializeGraph(a); vs_cover("emptied"); }
  look(b, &vc); same(&vb, &vc, 0, "a graph changed although only its copy or source was used");
#if STATE == 3
  if (op != 0 && op != 4) { char *t = 0; vs_assert(gp_DrawPlanar_RenderToString(b, &t) == OK && t, "rendering failed"); free(t); }
#endif
#if STATE == 0
#if KIND == 2
  { int okb = 1; for (int c = 2; c <= 5; c++) if (CMD == c && !has(b, c)) okb = 0; if (okb) certify(b, gp_Embed(b, flagsOf[CMD])); }
#else
  certify(b, gp_Embed(b, flagsOf[CMD]));
#endif
#endif
  int back = vs_range("back", 0, 1);
  /* and the changed one can still be used and stripped of its extensions */
  for (int q = 0; q < 2; q++, a = b) if (a) { for (int i = 1; i < NEXT; i++) { int c = back ? ext[NEXT - i] : ext[i]; vs_assert(detach(a, c) == OK && !has(a, c), "detaching failed"); }
    gp_ReinitializeGraph(a); vs_assert(a->M == 0, "reinitialising failed"); vs_assert(addarc(a, 1, 2) == OK, "adding an edge failed"); vs_assert(gp_Embed(a, EMBEDFLAGS_PLANAR) == OK && a->M == 1, "a graph of one edge is not planar"); }
  vs_trace("op", op);
  gp_Free(&g); gp_Free(&h); vs_no_leaks();
}

/* gp_TestEmbedResultIntegrity on genuine and altered results.  CMD as in embed.c;
   KIND: 0 edges removed/added, 1 rotation altered, 2 drawing altered, 3 the opposite verdict claimed */
#include "oracle.h"
#include <stdlib.h>
#include "planarityRelated/graphDrawPlanar.private.h"
#include "planarityRelated/graphDrawPlanar.h"
#include "homeomorphSearch/graphK23Search.h"
#include "homeomorphSearch/graphK33Search.h"
#include "homeomorphSearch/graphK4Search.h"
extern int DRAWPLANAR_ID;
static const int flagsOf[] = {EMBEDFLAGS_PLANAR, EMBEDFLAGS_OUTERPLANAR, EMBEDFLAGS_SEARCHFORK23, EMBEDFLAGS_SEARCHFORK33, EMBEDFLAGS_SEARCHFORK4, EMBEDFLAGS_DRAWPLANAR};
static int valid_drawing(graphP g, DrawPlanarContext *c) {
  int n = g->N, M = g->M, lim = gp_EdgeInUseIndexBound(g), bad = 0;
  for (int v = 1; v <= n; v++) { int p = c->VI[v].pos; bad |= p < 0 || p >= n; for (int u = 1; u < v; u++) bad |= c->VI[u].pos == p;
    if (M > 0) bad |= c->VI[v].start < 0 || c->VI[v].start > c->VI[v].end || c->VI[v].end >= M; }
  for (int e = gp_GetFirstEdge(g); e < lim; e += 2) {
    int t = gp_GetTwinArc(g, e), a = gp_GetNeighbor(g, e), b = gp_GetNeighbor(g, t), p = c->E[e].pos, lo = c->E[e].start, hi = c->E[e].end;
    bad |= c->E[t].pos != p || c->E[t].start != lo || c->E[t].end != hi || p < 0 || p >= M;
    for (int f = gp_GetFirstEdge(g); f < e; f += 2) bad |= c->E[f].pos == p;
    int pa = c->VI[a].pos, pb = c->VI[b].pos; bad |= lo != (pa < pb ? pa : pb) || hi != (pa < pb ? pb : pa);
    bad |= !(c->VI[a].start <= p && p <= c->VI[a].end && c->VI[b].start <= p && p <= c->VI[b].end);
    for (int v = 1; v <= n; v++) { int q = c->VI[v].pos; bad |= (q > lo) & (q < hi) & (c->VI[v].start <= p) & (p <= c->VI[v].end); }
  }
  return !bad;
}
static int kth_edge(graphP g, int k) { int lim = gp_EdgeInUseIndexBound(g); for (int e = gp_GetFirstEdge(g); e < lim; e += 2) if (gp_EdgeInUse(g, e) && k-- == 0) return e; return NIL; }
/* both graphs must come out of the check as they went in */
static int l1[4 * ON], n1;
static int lists(graphP g, int *out) { int k = 0; for (int v = 1; v <= NN; v++) { int e = gp_GetFirstArc(g, v); while (gp_IsArc(e)) { if (out) out[k] = gp_GetNeighbor(g, e); k++; e = gp_GetNextArc(g, e); } } return k; }
static int S1[80], S2[80], T1[80], T2[80];
static int check(graphP g, graphP o, int r) {
  int a = lists(g, S1), b = lists(o, S2), f = g->internalFlags, of = o->internalFlags, M = g->M;
  int q = gp_TestEmbedResultIntegrity(g, o, r);
  int a2 = lists(g, T1), b2 = lists(o, T2), bad = a != a2 || b != b2 || M != g->M; 
  if (!bad) { for (int i = 0; i < a; i++) bad |= S1[i] != T1[i]; for (int i = 0; i < b; i++) bad |= S2[i] != T2[i]; }
  vs_assert(!bad, "the result check alters a graph");
  vs_assert((g->internalFlags & FLAGS_SORTEDBYDFI) == (f & FLAGS_SORTEDBYDFI) && (o->internalFlags & FLAGS_SORTEDBYDFI) == (of & FLAGS_SORTEDBYDFI), "the result check leaves a graph in another vertex order");
  return q;
}
void harness(void) {
  static esym s; static omat m, x; static int fm[40]; int F = 0;
  graphP g = sym_graph(&s, &m, NN);
#if KIND == 0
  int d1 = vs_range("del1", 0, NN + 3), d2 = vs_range("del2", 0, 1), ap = vs_range("add", 0, NN * (NN - 1) / 2);
#elif KIND == 1
  int tv = vs_range("v", 1, NN), tk = vs_range("k", 0, 2);
#elif KIND == 2
  int what = vs_range("what", 0, 5), ix = vs_range("ix", 0, NN + 2), by = vs_range("by", 0, 3);
#endif
  if (CMD == 2) gp_AttachK23Search(g);
  if (CMD == 3) gp_AttachK33Search(g);
  if (CMD == 4) gp_AttachK4Search(g);
  if (CMD == 5) gp_AttachDrawPlanar(g);
  graphP o = gp_DupGraph(g);
  int r = gp_Embed(g, flagsOf[CMD]);
  int defined = r == NONEMBEDDABLE ? CMD != 5 : CMD <= 1 || CMD == 5; /* otherwise the contents of g are unspecified */
  int q = defined ? check(g, o, r) : gp_TestEmbedResultIntegrity(g, o, r);
  vs_assert(q == r, "the result check rejects a genuine result"); vs_trace("q", q);
  vs_assert(gp_TestEmbedResultIntegrity(g, o, NOTOK) == NOTOK, "the result check accepts a failed embedding");
  int twosided = CMD == 0 || CMD == 1 || CMD == 5, tampered = 0, claim = r;
#if KIND == 0
  if (defined) {
  /* up to one edge removed, and up to one edge added that the result does not contain */
  int e = NIL; if (d2 == 0) e = kth_edge(g, d1);
  if (gp_IsArc(e)) { gp_DeleteEdge(g, e, 0); tampered = 1; }
  int p = 0; for (int u = 1; u <= NN; u++) for (int w = u + 1; w <= NN; w++) if (p++ == ap && !gp_IsNeighbor(g, u, w)) { gp_DynamicAddEdge(g, u, 0, w, 0); tampered = 1; }
  }
#elif KIND == 1
  /* one arc of a vertex swapped with its successor */
  if (defined) { int a = gp_GetFirstArc(g, tv); for (int i = 0; i < 2; i++) if (i < tk && gp_IsArc(a)) a = gp_GetNextArc(g, a);
    if (gp_IsArc(a)) { int b = gp_GetNextArc(g, a); if (gp_IsArc(b)) { gp_DetachArc(g, a); gp_AttachArc(g, tv, b, 0, a); tampered = 1; } } }
#elif KIND == 2
  DrawPlanarContext *c = 0; gp_FindExtension(g, DRAWPLANAR_ID, (void *)&c);
  if (r == OK) {
    int delta = by == 0 ? 1 : by == 1 ? -1 : by == 2 ? 2 : -2;
    if (what < 3) { int v = ix + 1; if (v <= NN) { if (what == 0) c->VI[v].pos += delta; if (what == 1) c->VI[v].start += delta; if (what == 2) c->VI[v].end += delta; tampered = 1; } }
    else { int e = kth_edge(g, ix); if (gp_IsArc(e)) { int t = gp_GetTwinArc(g, e); if (what == 3) { c->E[e].pos += delta; c->E[t].pos += delta; } if (what == 4) { c->E[e].start += delta; c->E[t].start += delta; } if (what == 5) { c->E[e].end += delta; if (by & 1) c->E[t].end += delta; } tampered = 1; } }
  }
#elif KIND == 3
  claim = r == OK ? NONEMBEDDABLE : OK; tampered = defined;
#endif
#if KIND == 2
  /* a position outside the picture is not what the check promises to survive; only answers on representable values are judged */
  if (tampered) { int inside = 1; for (int v = 1; v <= NN; v++) inside &= c->VI[v].pos >= 0 && c->VI[v].pos < NN;
    if (inside) { q = check(g, o, r); int ok = valid_drawing(g, c); vs_assert(q == r || q == NOTOK, "unexpected answer"); vs_assert(!(q == r && !ok), "the result check accepts an invalid drawing"); if (!ok) vs_cover("invalid"); } }
#else
  if (tampered && (twosided || claim == NONEMBEDDABLE)) {
    q = check(g, o, claim); vs_assert(q == claim || q == NOTOK, "unexpected answer");
    vs_assert(gp_SortVertices(g) == OK, "sorting");
    om_of_graph(g, &x); int ok;
    if (claim == OK) {
      ok = om_equal(&x, &m); if (ok) ok = genus_zero(g, &m, fm, &F); 
      if (CMD == 1 && ok) ok = outer_faces(&m, fm, F);
      if (CMD == 0) vs_assert(!(q != claim && ok), "the result check rejects a valid embedding");
    } else {
      int in = om_subset(&x, &m);
      if (CMD == 0 || CMD == 5) ok = in & (is_Kk(&x, 5) | is_K33(&x)); else if (CMD == 1) ok = in & (is_Kk(&x, 4) | is_K23(&x)); else if (CMD == 2) ok = in & is_K23(&x); else if (CMD == 3) ok = in & is_K33(&x); else ok = in & is_Kk(&x, 4);
      if (CMD != 5) vs_assert(!(q != claim && ok), "the result check rejects a valid obstruction");
    }
    vs_assert(!(q == claim && !ok), "the result check accepts a result that certifies nothing");
    if (ok) vs_cover("still valid"); else vs_cover("invalid");
  }
#endif
  gp_Free(&g); gp_Free(&o); vs_no_leaks();
}

/* Reference predicates used by the harnesses.  They are evaluated symbolically together with the code
   under test and share nothing with it but the accessor macros of graph.h. */
#ifndef ORACLE_H
#define ORACLE_H
#include "vs.h"
#include "graphLib.h"
#include "graph.h"
#ifndef ON
#define ON 13              /* largest vertex number + 1 */
#endif
typedef struct { int n; int a[ON][ON]; } omat;     /* a[u][v]: number of edges u-v */

static void om_zero(omat *m, int n) { m->n = n; for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) m->a[i][j] = 0; }
static int om_edges(const omat *m) { int c = 0; for (int i = 1; i <= m->n; i++) for (int j = i + 1; j <= m->n; j++) c += m->a[i][j]; return c; }
static int om_equal(const omat *x, const omat *y) { int d = 0; for (int i = 1; i <= x->n; i++) for (int j = 1; j <= x->n; j++) d |= x->a[i][j] ^ y->a[i][j]; return d == 0; }
static int om_subset(const omat *x, const omat *y) { int bad = 0; for (int i = 1; i <= x->n; i++) for (int j = 1; j <= x->n; j++) bad |= x->a[i][j] > y->a[i][j]; return !bad; }

/* The edge store is well formed: every adjacency list is a doubly linked list ending at first/last, every
   arc's twin names the list owner, every edge of the store is in exactly the two lists of its end points,
   M is the number of edges, unused slots below the in-use bound are exactly the recorded holes. */
static void om_of_graph(graphP g, omat *m) {
  int n = g->N, total = 0, cap = gp_EdgeIndexBound(g);
  om_zero(m, n);
  for (int v = 1; v <= n; v++) {
    int prev = NIL, e = gp_GetFirstArc(g, v), k = 0;
    while (gp_IsArc(e)) {
      vs_assert(e >= gp_GetFirstEdge(g) && e < cap, "adjacency list refers to an arc outside the edge store");
      vs_assert(gp_GetPrevArc(g, e) == prev, "adjacency list backward link broken");
      vs_assert(gp_GetNeighbor(g, gp_GetTwinArc(g, e)) == v, "twin arc does not name the vertex holding the arc");
      int w = gp_GetNeighbor(g, e);
      vs_assert(w >= 1 && w <= n, "arc names a neighbor outside the graph");
      m->a[v][w]++;
      prev = e; e = gp_GetNextArc(g, e); k++; total++;
      vs_assert(k <= cap, "adjacency list is cyclic");
    }
    vs_assert(gp_GetLastArc(g, v) == prev, "last arc of a vertex is not the end of its list");
  }
  vs_assert(total == 2 * g->M, "edge count differs from the number of arcs in the adjacency lists");
  int asym = 0; for (int i = 1; i <= n; i++) for (int j = i; j <= n; j++) asym |= m->a[i][j] ^ m->a[j][i];
  vs_assert(!asym, "adjacency is not symmetric");
}

static void om_reach(const omat *m, omat *r) {     /* reflexive transitive closure */
  int n = m->n; r->n = n;
  for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++) r->a[i][j] = (i == j) | (m->a[i][j] != 0);
  for (int k = 1; k <= n; k++) for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++) r->a[i][j] |= r->a[i][k] & r->a[k][j];
}

/* rotation system of g: number of faces F; fmask: per-face vertex sets (may be 0) */
static int rot_faces(graphP g, int *fmask) {
  int lim = gp_EdgeInUseIndexBound(g), faces = 0; static char seen[400];
  vs_assert(lim <= 400, "model: face table");
  for (int e = 0; e < lim; e++) seen[e] = 0;
  for (int s = gp_GetFirstEdge(g); s < lim; s++) {
    if (!gp_EdgeInUse(g, s) || seen[s]) continue;
    int e = s, k = 0, mask = 0;
    do { vs_assert(!seen[e], "face walk does not return to its start"); seen[e] = 1;
      int t = gp_GetTwinArc(g, e); if (fmask) mask |= 1 << gp_GetNeighbor(g, e);
      e = gp_GetNextArcCircular(g, t); vs_assert(++k <= lim, "face walk too long"); } while (e != s);
    if (fmask) fmask[faces] = mask;
    faces++;
  }
  return faces;
}
/* g's adjacency lists are a planar rotation system of the simple graph m */
static int same_edges(graphP g, const omat *m) { static omat x; om_of_graph(g, &x); return om_equal(&x, m); }
static int genus_zero(graphP g, const omat *m, int *fmask, int *nfaces) {
  static omat r; om_reach(m, &r);
  int n = m->n, C = 0, iso = 0;
  for (int v = 1; v <= n; v++) { int first = 1, lone = 1; for (int u = 1; u < v; u++) first &= !r.a[u][v]; for (int u = 1; u <= n; u++) if (u != v) lone &= !m->a[u][v]; C += first; iso += lone; }
  int F = rot_faces(g, fmask);
  if (nfaces) *nfaces = F;
  return n - om_edges(m) + F + iso == 2 * C;
}
static void cert_planar(graphP g, const omat *m, int *fmask, int *nfaces) {
  vs_assert(same_edges(g, m), "embedding does not have exactly the edges of the input graph");
  vs_assert(genus_zero(g, m, fmask, nfaces), "rotation system does not have genus zero");
}
/* every component has all its vertices on one face */
static int outer_faces(const omat *m, const int *fm, int F) {
  static omat r; om_reach(m, &r); int n = m->n, all = 1;
  for (int v = 1; v <= n; v++) { int cm = 0; for (int u = 1; u <= n; u++) cm |= (r.a[v][u] & 1) << u;
    int ok = cm == (1 << v); for (int k = 0; k < 40; k++) if (k < F) ok |= fm[k] == cm;
    all &= ok; }
  return all;
}
static void cert_outerplanar(graphP g, const omat *m) {
  static int fm[40]; int F = 0;
  cert_planar(g, m, fm, &F);
  vs_assert(outer_faces(m, fm, F), "outerplanar embedding has no face with all vertices of the component");
}
/* ---------------------------------------------------------------- homeomorphs
   smooth(): suppress degree-2 vertices of a simple graph; par becomes 1 if that would create a parallel edge */
static void smooth(omat *s, int *par) {
  int n = s->n; *par = 0;
  for (int v = 1; v <= n; v++) {
    int d = 0; for (int u = 1; u <= n; u++) d += s->a[v][u];
    if (d == 2) {
      for (int a = 1; a <= n; a++) for (int b = a + 1; b <= n; b++) {
        int h = s->a[v][a] & s->a[v][b];
        *par |= h & s->a[a][b]; s->a[a][b] |= h; s->a[b][a] |= h; }
      for (int u = 1; u <= n; u++) { s->a[v][u] = 0; s->a[u][v] = 0; }
    }
  }
}
static void degs(const omat *m, int *d) { for (int v = 1; v <= m->n; v++) { d[v] = 0; for (int u = 1; u <= m->n; u++) d[v] += m->a[v][u]; } }
/* exactly a K_k homeomorph and isolated vertices */
static int is_Kk(const omat *x, int k) {
  static omat s; static int d[ON]; int par, n = x->n, big = 0, other = 0; s = *x; smooth(&s, &par); degs(&s, d);
  for (int v = 1; v <= n; v++) { big += d[v] == k - 1; other |= d[v] != k - 1 && d[v] != 0; }
  return !par & (big == k) & !other;   /* simple, k vertices of degree k-1: complete */
}
static int is_K33(const omat *x) {
  static omat s; static int d[ON]; int par, n = x->n, big = 0, other = 0, tri = 0; s = *x; smooth(&s, &par); degs(&s, d);
  for (int v = 1; v <= n; v++) { big += d[v] == 3; other |= d[v] != 3 && d[v] != 0; }
  /* cubic simple graphs on six vertices: K3,3 and the prism; the prism has triangles */
  for (int a = 1; a <= n; a++) for (int b = a + 1; b <= n; b++) for (int c = b + 1; c <= n; c++) tri |= s.a[a][b] & s.a[b][c] & s.a[a][c];
  return !par & (big == 6) & !other & !tri;
}
/* K2,3 homeomorph: theta graph whose three paths all have an inner vertex */
static int is_K23(const omat *x) {
  static omat s; static int d[ON]; int n = x->n, deg3 = 0, other = 0; s = *x; degs(&s, d);
  for (int v = 1; v <= n; v++) { deg3 += d[v] == 3; other |= d[v] != 3 && d[v] != 2 && d[v] != 0; }
  int adj3 = 0; for (int a = 1; a <= n; a++) for (int b = a + 1; b <= n; b++) adj3 |= (d[a] == 3) & (d[b] == 3) & s.a[a][b];
  /* each inner path: repeatedly contract degree-2 vertices whose two neighbours are not both of degree 3 */
  int c = 0; for (int v = 1; v <= n; v++) {
    int isd2 = d[v] == 2, both = 1, any = 0;
    for (int u = 1; u <= n; u++) { both &= !(s.a[v][u] & (d[u] != 3)); }
    if (isd2 && !both) { /* contract v into a neighbour of degree 2: join its neighbours */
      int par = 0;
      for (int a = 1; a <= n; a++) for (int b = a + 1; b <= n; b++) { int h = s.a[v][a] & s.a[v][b]; par |= h & s.a[a][b]; s.a[a][b] |= h; s.a[b][a] |= h; }
      for (int u = 1; u <= n; u++) { s.a[v][u] = 0; s.a[u][v] = 0; }
      d[v] = 0; any |= par; c |= any;
    }
  }
  int e = om_edges(&s), mids = 0; for (int v = 1; v <= n; v++) mids += d[v] == 2;
  return (deg3 == 2) & !other & !adj3 & !c & (mids == 3) & (e == 6);
}
static void cert_subgraph_of(graphP g, const omat *m, omat *x) {
  om_of_graph(g, x);
  vs_assert(om_subset(x, m), "obstruction is not a subgraph of the input graph");
}
/* ---------------------------------------------------------------- existence oracles on the input */
/* K4 subdivision: not reducible by removing degree<=1 and suppressing degree-2 vertices */
static int has_K4(const omat *x) {
  static omat s; static int gone[ON]; int n = x->n; s = *x;
  for (int round = 0; round < n; round++)
    for (int v = 1; v <= n; v++) {
      int d = 0; for (int u = 1; u <= n; u++) d += s.a[v][u];
      if (d >= 1 && d <= 2) {
        for (int a = 1; a <= n; a++) for (int b = a + 1; b <= n; b++) { int h = s.a[v][a] & s.a[v][b]; s.a[a][b] |= h; s.a[b][a] |= h; }
        for (int u = 1; u <= n; u++) { s.a[v][u] = 0; s.a[u][v] = 0; }
      }
    }
  (void)gone; return om_edges(&s) != 0;
}
static int reach_without(const omat *x, int u, int v, int p, int q) { /* u to v avoiding p, q and the edge uv */
  static int in[ON]; int n = x->n; for (int i = 1; i <= n; i++) in[i] = i == u;
  for (int round = 1; round < n - 2; round++)
    for (int i = 1; i <= n; i++) if (i != p && i != q && i != u && i != v) for (int j = 1; j <= n; j++) if (j != p && j != q && j != v) in[i] |= in[j] & x->a[i][j];
  int r = 0; for (int j = 1; j <= n; j++) if (j != p && j != q && j != u && j != v) r |= in[j] & x->a[j][v];
  return r;
}
/* K2,3 subdivision: some pair u,v keeps a path of length >= 2 whatever two other vertices are removed (Menger) */
static int has_K23(const omat *x) {
  int n = x->n, found = 0; if (n < 5) return 0;
  for (int u = 1; u <= n; u++) for (int v = u + 1; v <= n; v++) { int all = 1;
    for (int p = 1; p <= n; p++) if (p != u && p != v) for (int q = p + 1; q <= n; q++) if (q != u && q != v) all &= reach_without(x, u, v, p, q);
    found |= all; }
  return found;
}
static int sub_K33_6(int a[7][7]) { /* 1..6 */
  int f = 0; for (int b = 2; b <= 6; b++) for (int c = b + 1; c <= 6; c++) { int o[4], k = 0; for (int i = 2; i <= 6; i++) if (i != b && i != c) o[k++] = i;
    int all = 1; for (int i = 0; i < 3; i++) all &= a[1][o[i]] & a[b][o[i]] & a[c][o[i]]; f |= all; }
  return f;
}
/* K3,3 minor (equivalently subdivision, K3,3 is cubic), by deleting or contracting down to six vertices */
static int has_K33_rec(const int *a, int n, int stride) {
  if (n < 6) return 0;
  if (n == 6) { int b[7][7]; for (int i = 1; i <= 6; i++) for (int j = 1; j <= 6; j++) b[i][j] = a[i * stride + j]; return sub_K33_6(b); }
  int f = 0, b[10 * 10];
  for (int x = 1; x <= n; x++) {  /* delete x */
    for (int i = 1, p = 1; i <= n; i++) if (i != x) { for (int j = 1, q = 1; j <= n; j++) if (j != x) { b[p * 10 + q] = a[i * stride + j]; q++; } p++; }
    f |= has_K33_rec(b, n - 1, 10); }
  for (int x = 1; x <= n; x++) for (int y = x + 1; y <= n; y++) { /* contract xy (kept as x) */
    for (int i = 1, p = 1; i <= n; i++) if (i != y) { for (int j = 1, q = 1; j <= n; j++) if (j != y) {
        int e = a[i * stride + j]; if (i == x && j != x) e |= a[y * stride + j]; if (j == x && i != x) e |= a[i * stride + y]; b[p * 10 + q] = e; q++; } p++; }
    f |= a[x * stride + y] & has_K33_rec(b, n - 1, 10); }
  return f;
}
static int has_K33(const omat *x) { int a[10 * 10]; for (int i = 1; i <= x->n && i < 10; i++) for (int j = 1; j <= x->n && j < 10; j++) a[i * 10 + j] = x->a[i][j]; return has_K33_rec(a, x->n, 10); }

/* ---------------------------------------------------------------- symbolic input graphs
   Either all graphs on N vertices (N defined, FREE not), or FIXED edges plus any subset of the FREE edges. */
#ifdef FREE
static const int fam_free[][2] = {FREE};
#ifdef FIXED
static const int fam_fixed[][2] = {FIXED};
#define NFIXED (int)(sizeof fam_fixed / sizeof fam_fixed[0])
#else
static const int fam_fixed[1][2];
#define NFIXED 0
#endif
#define NFREE (int)(sizeof fam_free / sizeof fam_free[0])
#endif
typedef struct { int k; int u[ON > 40 ? 2 * ON : ON > 15 ? 4 * ON : 64], v[ON > 40 ? 2 * ON : ON > 15 ? 4 * ON : 64], on[ON > 40 ? 2 * ON : ON > 15 ? 4 * ON : 64]; } esym;
static void sym_edges(esym *s, omat *m, int n) {
  s->k = 0; om_zero(m, n);
#ifdef FREE
  for (int i = 0; i < NFIXED; i++) { s->u[s->k] = fam_fixed[i][0]; s->v[s->k] = fam_fixed[i][1]; s->on[s->k] = 1; s->k++; }
  for (int i = 0; i < NFREE; i++) { s->u[s->k] = fam_free[i][0]; s->v[s->k] = fam_free[i][1]; s->on[s->k] = vs_range("e", 0, 1); s->k++; }
#else
  for (int i = 1; i <= n; i++) for (int j = i + 1; j <= n; j++) { s->u[s->k] = i; s->v[s->k] = j; s->on[s->k] = vs_range("e", 0, 1); s->k++; }
#endif
  for (int i = 0; i < s->k; i++) { m->a[s->u[i]][s->v[i]] = s->on[i]; m->a[s->v[i]][s->u[i]] = s->on[i]; }
}
/* add the chosen edges; order and ends of insertion by ORDER: 0 forward/append, 1 backward, 2 forward/prepend, 3 mixed,
   4 all candidates added first, then the ones not chosen deleted (free slots in the edge store) */
#ifndef ORDER
#define ORDER 0
#endif
static void build_edges(graphP g, const esym *s) {
#if ORDER == 4
  for (int i = 0; i < s->k; i++) { int r = gp_DynamicAddEdge(g, s->u[i], 0, s->v[i], 0); vs_assert(r == OK, "adding an edge within capacity failed"); }
  for (int i = s->k - 1; i >= 0; i--) { int j = (i * 61 + 3) % s->k; if (!s->on[j]) { int e = gp_GetNeighborEdgeRecord(g, s->u[j], s->v[j]); vs_assert(gp_IsArc(e), "an edge just added is not found"); gp_DeleteEdge(g, e, 0); } }
  return;
#endif
  for (int t = 0; t < s->k; t++) { int i = ORDER == 1 ? s->k - 1 - t : ORDER == 3 ? (t * 61 + 3) % s->k : t;
    int l1 = ORDER == 2 ? 1 : ORDER == 3 ? (i & 1) : 0, l2 = ORDER == 2 ? 1 : ORDER == 3 ? ((i >> 1) & 1) : 0;
    if (s->on[i]) { int r = gp_DynamicAddEdge(g, s->u[i], l1, s->v[i], l2); vs_assert(r == OK, "adding an edge within capacity failed"); } }
}
static graphP sym_graph(esym *s, omat *m, int n) {
  sym_edges(s, m, n);
  graphP g = gp_New(); vs_assert(g != 0, "gp_New failed");
  vs_assert(gp_InitGraph(g, n) == OK, "gp_InitGraph failed");
  build_edges(g, s); return g;
}
#endif

/* Graph text that carries drawing data.  SRC 0: embedded and drawn graph, written and read into a graph with the extension (VIA 0 file, 1 memory);
   1: plain graph text read into a graph with the extension attached, which then serves as usual (FMT as in io.c) */
#include "oracle.h"
#include <stdlib.h>
#include <string.h>
#include "planarityRelated/graphDrawPlanar.private.h"
#include "planarityRelated/graphDrawPlanar.h"
extern int DRAWPLANAR_ID;
#ifndef DFMT
#define DFMT WRITE_ADJLIST
#endif
#ifndef ZB
#define ZB 0
#endif
#define TCAP 4096
static char T[TCAP], U[TCAP];
static int put(graphP g, char *name, char *buf, int mode) {
#if VIA == 0
  vs_assert(gp_Write(g, name, mode) == OK, "writing the graph failed");
  int n = vs_file_get(name, buf, TCAP - 1); vs_assert(n > 0 && n < TCAP, "nothing was written"); buf[n] = 0; return n;
#else
  char *s = 0; vs_assert(gp_WriteToString(g, &s, mode) == OK, "writing the graph failed"); vs_assert(s != 0, "no text was delivered");
  int n = (int)strlen(s); vs_assert(n > 0 && n < TCAP, "nothing was written"); strcpy(buf, s); free(s); return n;
#endif
}
static int get(graphP h, char *name, const char *buf, int n) {
#if VIA == 0
  vs_file_put(name, buf, n); return gp_Read(h, name);
#else
  char *s = malloc(n + 1); memcpy(s, buf, n); s[n] = 0; return gp_ReadFromString(h, s);
#endif
}
static DrawPlanarContext *ctx(graphP g) { DrawPlanarContext *c = 0; gp_FindExtension(g, DRAWPLANAR_ID, (void *)&c); vs_assert(c != 0, "drawing context lost"); return c; }
void harness(void) {
  static esym s; static omat m, x; graphP g = sym_graph(&s, &m, NN), h = gp_New(); int n;
#if SRC == 0
#if ZB
  g->internalFlags |= FLAGS_ZEROBASEDIO;
#endif
  vs_assert(gp_AttachDrawPlanar(g) == OK, "attach"); int r = gp_Embed(g, EMBEDFLAGS_DRAWPLANAR); vs_assert(r == OK || r == NONEMBEDDABLE, "embed"); if (r != OK) { gp_Free(&g); gp_Free(&h); vs_no_leaks(); return; }
  vs_assert(gp_SortVertices(g) == OK, "sorting"); n = put(g, "a.txt", T, DFMT);
  vs_assert(gp_AttachDrawPlanar(h) == OK, "attaching before reading"); vs_assert(get(h, "b.txt", T, n) == OK, "reading back what was written failed");
  om_of_graph(h, &x); vs_assert(om_equal(&x, &m), "reading back yields another graph");
  DrawPlanarContext *a = ctx(g), *b = ctx(h); int bad = 0;
  for (int v = 1; v <= NN; v++) bad |= a->VI[v].pos != b->VI[v].pos || a->VI[v].start != b->VI[v].start || a->VI[v].end != b->VI[v].end;
  vs_assert(!bad, "the drawing of a vertex changed");
  for (int u = 1; u <= NN; u++) for (int w = 1; w <= NN; w++) if (m.a[u][w]) { int e = gp_GetNeighborEdgeRecord(g, u, w), f = gp_GetNeighborEdgeRecord(h, u, w); bad |= a->E[e].pos != b->E[f].pos || a->E[e].start != b->E[f].start || a->E[e].end != b->E[f].end; }
  vs_assert(!bad, "the drawing of an edge changed");
  char *p = 0, *q = 0; if (g->M) { vs_assert(gp_DrawPlanar_RenderToString(g, &p) == OK && gp_DrawPlanar_RenderToString(h, &q) == OK, "rendering"); vs_assert(strcmp(p, q) == 0, "the restored drawing looks different"); free(p); free(q); vs_cover("drawn"); }
  n = put(h, "c.txt", U, DFMT); vs_assert(gp_Embed(h, EMBEDFLAGS_DRAWPLANAR) == OK, "drawing the graph again"); vs_assert(gp_SortVertices(h) == OK, "sorting"); om_of_graph(h, &x); vs_assert(om_equal(&x, &m), "drawing again changed the graph");
#else
  int mode = FMT == 1 ? WRITE_ADJLIST : FMT == 2 ? WRITE_ADJMATRIX : WRITE_G6;
  n = put(g, "a.txt", T, mode); vs_assert(gp_AttachDrawPlanar(h) == OK, "attaching before reading"); vs_assert(get(h, "b.txt", T, n) == OK, "a plain graph cannot be read with the drawing extension attached");
  om_of_graph(h, &x); vs_assert(om_equal(&x, &m), "reading yields another graph");
  int r = gp_Embed(h, EMBEDFLAGS_DRAWPLANAR), r2 = gp_Embed(g, EMBEDFLAGS_PLANAR); vs_assert(r == r2, "the verdict of drawing"); vs_cover("read");
#endif
  vs_trace("n", n); gp_Free(&g); gp_Free(&h); vs_assert(vs_open_streams() == 0, "stream left open"); vs_files_release(); vs_no_leaks();
}

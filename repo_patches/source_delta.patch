From 4e07bd4c7d78f58a355dfa08f9e1a0b4d4ac28c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:29 +0000
Subject: [PATCH 01/65] fix: gp_GetArcCapacity returns the arc capacity

The edge array has gp_GetFirstEdge() extra records in front of the arcCapacity
usable ones, so subtracting the first edge index reported two arcs too few and
made gp_DynamicAddEdge fail to grow graphs of small capacity.
---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 273b8ab..6be0fe8 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -341,7 +341,7 @@ void _ReinitializeGraph(graphP theGraph)
  ********************************************************************/
 int gp_GetArcCapacity(graphP theGraph)
 {
-    return theGraph->arcCapacity - gp_GetFirstEdge(theGraph);
+    return theGraph->arcCapacity;
 }
 
 /********************************************************************
-- 
2.43.0


From 6614220b7dc7e0e44274426590f39843444a347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:53 +0000
Subject: [PATCH 02/65] fix: restoring an identified vertex ends its list at
 the last arc

_RestoreVertex cleared the previous link of the last arc rather than its next
link, so the restored adjacency list was cut off and ran on into the other
vertex's list.
---
 c/graphLib/graphUtils.c | 5070 +++++++++++++++++++--------------------
 1 file changed, 2535 insertions(+), 2535 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 6be0fe8..d6f16a6 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1,2535 +1,2535 @@
-/*
-Copyright (c) 1997-2022, John M. Boyer
-All rights reserved.
-See the LICENSE.TXT file for licensing information.
-*/
-
-#include <stdlib.h>
-
-#include "graphStructures.h"
-#include "graph.h"
-
-/* Imported functions for FUNCTION POINTERS */
-
-extern int _EmbeddingInitialize(graphP theGraph);
-extern int _SortVertices(graphP theGraph);
-extern void _EmbedBackEdgeToDescendant(graphP theGraph, int RootSide, int RootVertex, int W, int WPrevLink);
-extern void _WalkUp(graphP theGraph, int v, int e);
-extern int _WalkDown(graphP theGraph, int v, int RootVertex);
-extern int _MergeBicomps(graphP theGraph, int v, int RootVertex, int W, int WPrevLink);
-extern void _MergeVertex(graphP theGraph, int W, int WPrevLink, int R);
-extern int _HandleBlockedBicomp(graphP theGraph, int v, int RootVertex, int R);
-extern int _HandleInactiveVertex(graphP theGraph, int BicompRoot, int *pW, int *pWPrevLink);
-extern int _MarkDFSPath(graphP theGraph, int ancestor, int descendant);
-extern int _EmbedPostprocess(graphP theGraph, int v, int edgeEmbeddingResult);
-extern int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph);
-extern int _CheckObstructionIntegrity(graphP theGraph, graphP origGraph);
-extern int _ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize);
-extern int _WritePostprocess(graphP theGraph, void **pExtraData, long *pExtraDataSize);
-
-/* Internal util functions for FUNCTION POINTERS */
-
-int _HideVertex(graphP theGraph, int vertex);
-void _HideEdge(graphP theGraph, int arcPos);
-void _RestoreEdge(graphP theGraph, int arcPos);
-int _ContractEdge(graphP theGraph, int e);
-int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore);
-int _RestoreVertex(graphP theGraph);
-
-/********************************************************************
- Private functions, except exported within library
- ********************************************************************/
-
-void _InitIsolatorContext(graphP theGraph);
-void _ClearVisitedFlags(graphP theGraph);
-void _ClearVertexVisitedFlags(graphP theGraph, int);
-void _ClearEdgeVisitedFlags(graphP theGraph);
-int _ClearVisitedFlagsInBicomp(graphP theGraph, int BicompRoot);
-int _ClearVisitedFlagsInOtherBicomps(graphP theGraph, int BicompRoot);
-void _ClearVisitedFlagsInUnembeddedEdges(graphP theGraph);
-int _FillVertexVisitedInfoInBicomp(graphP theGraph, int BicompRoot, int FillValue);
-int _ClearVertexTypeInBicomp(graphP theGraph, int BicompRoot);
-
-int _HideInternalEdges(graphP theGraph, int vertex);
-int _RestoreInternalEdges(graphP theGraph, int stackBottom);
-int _RestoreHiddenEdges(graphP theGraph, int stackBottom);
-
-int _GetBicompSize(graphP theGraph, int BicompRoot);
-int _DeleteUnmarkedEdgesInBicomp(graphP theGraph, int BicompRoot);
-int _ClearInvertedFlagsInBicomp(graphP theGraph, int BicompRoot);
-
-void _InitFunctionTable(graphP theGraph);
-
-/********************************************************************
- Private functions.
- ********************************************************************/
-
-void _InitVertices(graphP theGraph);
-void _InitEdges(graphP theGraph);
-
-void _ClearGraph(graphP theGraph);
-
-int _GetRandomNumber(int NMin, int NMax);
-
-/* Private functions for which there are FUNCTION POINTERS */
-
-void _InitVertexRec(graphP theGraph, int v);
-void _InitVertexInfo(graphP theGraph, int v);
-void _InitEdgeRec(graphP theGraph, int e);
-
-int _InitGraph(graphP theGraph, int N);
-void _ReinitializeGraph(graphP theGraph);
-int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity);
-
-/********************************************************************
- gp_New()
- Constructor for graph object.
- Can create two graphs if restricted to no dynamic memory.
- ********************************************************************/
-
-graphP gp_New(void)
-{
-    graphP theGraph = (graphP)malloc(sizeof(baseGraphStructure));
-
-    if (theGraph != NULL)
-    {
-        theGraph->E = NULL;
-        theGraph->V = NULL;
-        theGraph->VI = NULL;
-
-        theGraph->BicompRootLists = NULL;
-        theGraph->sortedDFSChildLists = NULL;
-        theGraph->theStack = NULL;
-
-        theGraph->extFace = NULL;
-
-        theGraph->edgeHoles = NULL;
-
-        theGraph->extensions = NULL;
-
-        _InitFunctionTable(theGraph);
-
-        _ClearGraph(theGraph);
-    }
-
-    return theGraph;
-}
-
-/********************************************************************
- _InitFunctionTable()
-
- If you add functions to the function table, then they must be
- initialized here, but you must also add the new function pointer
- to the definition of the graphFunctionTable in graphFunctionTable.h
-
- Function headers for the functions used to initialize the table are
- classified at the top of this file as either imported from other
- compilation units (extern) or private to this compilation unit.
- Search for FUNCTION POINTERS in this file to see where to add the
- function header.
- ********************************************************************/
-
-void _InitFunctionTable(graphP theGraph)
-{
-    theGraph->functions.fpEmbeddingInitialize = _EmbeddingInitialize;
-    theGraph->functions.fpEmbedBackEdgeToDescendant = _EmbedBackEdgeToDescendant;
-    theGraph->functions.fpWalkUp = _WalkUp;
-    theGraph->functions.fpWalkDown = _WalkDown;
-    theGraph->functions.fpMergeBicomps = _MergeBicomps;
-    theGraph->functions.fpMergeVertex = _MergeVertex;
-    theGraph->functions.fpHandleBlockedBicomp = _HandleBlockedBicomp;
-    theGraph->functions.fpHandleInactiveVertex = _HandleInactiveVertex;
-    theGraph->functions.fpEmbedPostprocess = _EmbedPostprocess;
-    theGraph->functions.fpMarkDFSPath = _MarkDFSPath;
-    theGraph->functions.fpCheckEmbeddingIntegrity = _CheckEmbeddingIntegrity;
-    theGraph->functions.fpCheckObstructionIntegrity = _CheckObstructionIntegrity;
-
-    theGraph->functions.fpInitGraph = _InitGraph;
-    theGraph->functions.fpReinitializeGraph = _ReinitializeGraph;
-    theGraph->functions.fpEnsureArcCapacity = _EnsureArcCapacity;
-    theGraph->functions.fpSortVertices = _SortVertices;
-
-    theGraph->functions.fpReadPostprocess = _ReadPostprocess;
-    theGraph->functions.fpWritePostprocess = _WritePostprocess;
-
-    theGraph->functions.fpHideEdge = _HideEdge;
-    theGraph->functions.fpRestoreEdge = _RestoreEdge;
-    theGraph->functions.fpHideVertex = _HideVertex;
-    theGraph->functions.fpRestoreVertex = _RestoreVertex;
-    theGraph->functions.fpContractEdge = _ContractEdge;
-    theGraph->functions.fpIdentifyVertices = _IdentifyVertices;
-}
-
-/********************************************************************
- gp_InitGraph()
- Allocates memory for vertex and edge records now that N is known.
- The arcCapacity is set to (2 * DEFAULT_EDGE_LIMIT * N) unless it
-     has already been set by gp_EnsureArcCapacity()
-
- For V, we need 2N vertex records, N for vertices and N for virtual vertices (root copies).
-
- For VI, we need N vertexInfo records.
-
- For E, we need arcCapacity edge records.
-
- The BicompRootLists and sortedDFSChildLists are of size N and start out empty.
-
- The stack, initially empty, is made big enough for a pair of integers
-     per edge record (2 * arcCapacity), or 6N integers if the arcCapacity
-     was set below the default value.
-
- The edgeHoles stack, initially empty, is set to arcCapacity / 2,
-     which is big enough to push every edge (to indicate an edge
-     you only need to indicate one of its two edge records)
-
-  Returns OK on success, NOTOK on all failures.
-          On NOTOK, graph extensions are freed so that the graph is
-          returned to the post-condition of gp_New().
- ********************************************************************/
-
-int gp_InitGraph(graphP theGraph, int N)
-{
-    // valid params check
-    if (theGraph == NULL || N <= 0)
-        return NOTOK;
-
-    // Should not call init a second time; use reinit
-    if (theGraph->N)
-        return NOTOK;
-
-    return theGraph->functions.fpInitGraph(theGraph, N);
-}
-
-int _InitGraph(graphP theGraph, int N)
-{
-    int Vsize, VIsize, Esize, stackSize;
-
-    // Compute the vertex and edge capacities of the graph
-    theGraph->N = N;
-    theGraph->NV = N;
-    theGraph->arcCapacity = theGraph->arcCapacity > 0 ? theGraph->arcCapacity : 2 * DEFAULT_EDGE_LIMIT * N;
-    VIsize = gp_PrimaryVertexIndexBound(theGraph);
-    Vsize = gp_VertexIndexBound(theGraph);
-    Esize = gp_EdgeIndexBound(theGraph);
-
-    // Stack size is 2 integers per arc, or 6 integers per vertex in case of small arcCapacity
-    stackSize = 2 * Esize;
-    stackSize = stackSize < 6 * N ? 6 * N : stackSize;
-
-    // Allocate memory as described above
-    if ((theGraph->V = (vertexRecP)calloc(Vsize, sizeof(vertexRec))) == NULL ||
-        (theGraph->VI = (vertexInfoP)calloc(VIsize, sizeof(vertexInfo))) == NULL ||
-        (theGraph->E = (edgeRecP)calloc(Esize, sizeof(edgeRec))) == NULL ||
-        (theGraph->BicompRootLists = LCNew(VIsize)) == NULL ||
-        (theGraph->sortedDFSChildLists = LCNew(VIsize)) == NULL ||
-        (theGraph->theStack = sp_New(stackSize)) == NULL ||
-        (theGraph->extFace = (extFaceLinkRecP)calloc(Vsize, sizeof(extFaceLinkRec))) == NULL ||
-        (theGraph->edgeHoles = sp_New(Esize / 2)) == NULL ||
-        0)
-    {
-        _ClearGraph(theGraph);
-        return NOTOK;
-    }
-
-    // Initialize memory
-    _InitVertices(theGraph);
-    _InitEdges(theGraph);
-    _InitIsolatorContext(theGraph);
-
-    return OK;
-}
-
-/********************************************************************
- _InitVertices()
- ********************************************************************/
-void _InitVertices(graphP theGraph)
-{
-#if NIL == 0
-    memset(theGraph->V, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(vertexRec));
-    memset(theGraph->VI, NIL_CHAR, gp_PrimaryVertexIndexBound(theGraph) * sizeof(vertexInfo));
-    memset(theGraph->extFace, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(extFaceLinkRec));
-#elif NIL == -1
-    int v;
-
-    memset(theGraph->V, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(vertexRec));
-    memset(theGraph->VI, NIL_CHAR, gp_PrimaryVertexIndexBound(theGraph) * sizeof(vertexInfo));
-    memset(theGraph->extFace, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(extFaceLinkRec));
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        gp_InitVertexFlags(theGraph, v);
-
-#else
-    int v;
-
-    // Initialize primary vertices
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        _InitVertexRec(theGraph, v);
-        _InitVertexInfo(theGraph, v);
-        gp_SetExtFaceVertex(theGraph, v, 0, NIL);
-        gp_SetExtFaceVertex(theGraph, v, 1, NIL);
-    }
-
-    // Initialize virtual vertices
-    for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
-    {
-        _InitVertexRec(theGraph, v);
-        gp_SetExtFaceVertex(theGraph, v, 0, NIL);
-        gp_SetExtFaceVertex(theGraph, v, 1, NIL);
-    }
-#endif
-}
-
-/********************************************************************
- _InitEdges()
- ********************************************************************/
-void _InitEdges(graphP theGraph)
-{
-#if NIL == 0
-    memset(theGraph->E, NIL_CHAR, gp_EdgeIndexBound(theGraph) * sizeof(edgeRec));
-#elif NIL == -1
-    int e, Esize;
-
-    memset(theGraph->E, NIL_CHAR, gp_EdgeIndexBound(theGraph) * sizeof(edgeRec));
-
-    Esize = gp_EdgeIndexBound(theGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
-        gp_InitEdgeFlags(theGraph, e);
-
-#else
-    int e, Esize;
-
-    Esize = gp_EdgeIndexBound(theGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
-        _InitEdgeRec(theGraph, e);
-#endif
-}
-
-/********************************************************************
- gp_ReinitializeGraph()
- Reinitializes a graph, restoring it to the state it was in immediately
- after gp_InitGraph() processed it.
- ********************************************************************/
-
-void gp_ReinitializeGraph(graphP theGraph)
-{
-    if (theGraph == NULL || theGraph->N <= 0)
-        return;
-
-    theGraph->functions.fpReinitializeGraph(theGraph);
-}
-
-void _ReinitializeGraph(graphP theGraph)
-{
-    theGraph->M = 0;
-    theGraph->internalFlags = theGraph->embedFlags = 0;
-
-    _InitVertices(theGraph);
-    _InitEdges(theGraph);
-    _InitIsolatorContext(theGraph);
-
-    LCReset(theGraph->BicompRootLists);
-    LCReset(theGraph->sortedDFSChildLists);
-    sp_ClearStack(theGraph->theStack);
-    sp_ClearStack(theGraph->edgeHoles);
-}
-
-/********************************************************************
- gp_GetArcCapacity()
- Returns the arcCapacity of theGraph, which is twice the maximum
- number of edges that can be added to the theGraph.
- ********************************************************************/
-int gp_GetArcCapacity(graphP theGraph)
-{
-    return theGraph->arcCapacity;
-}
-
-/********************************************************************
- gp_EnsureArcCapacity()
- This method ensures that theGraph is or will be capable of storing
- at least requiredArcCapacity edge records.  Two edge records are
- needed per edge.
-
- This method is most performant when invoked immediately after
- gp_New(), since it must only set the arcCapacity and then let
- normal initialization to occur through gp_InitGraph().
-
- This method is also a constant time operation if the graph already
- has at least the requiredArcCapacity, since it will return OK
- without making any structural changes.
-
- This method is generally more performant if it is invoked before
- attaching extensions to the graph.  Some extensions associate
- parallel data with edge records, which is a faster operation if
- the associated data is created and initialized only after the
- proper arcCapacity is specified.
-
- If the graph has been initialized and has a lower arc capacity,
- then the array of edge records is reallocated to satisfy the
- requiredArcCapacity.  The new array contains the old edges and
- edge holes at the same locations, and all newly created edge records
- are initialized.
-
- Also, if the arc capacity must be increased, then the
- arcCapacity member of theGraph is changed and both
- theStack and edgeHoles are expanded (since the sizes of both
- are based on the arc capacity).
-
- Extensions that add to data associated with edges must overload
- this method to ensure capacity in the parallel extension data
- structures.  An extension can return NOTOK if it does not
- support arc capacity expansion.  The extension function will
- not be called if arcCapacity is expanded before the graph is
- initialized, and it is assumed that extensions will allocate
- parallel data structures according to the arc capacity.
-
- If an extension supports arc capacity expansion, then higher
- performance can be obtained by using the method of unhooking
- the initializers for individual edge records before invoking
- the superclass version of fpEnsureArcCapacity().  Ideally,
- application authors should ensure the proper arc capacity before
- attaching extensions to achieve better performance.
-
- Returns NOTOK on failure to reallocate the edge record array to
-         satisfy the requiredArcCapacity, or if the requested
-         capacity is odd
-         OK if reallocation is not required or if reallocation succeeds
- ********************************************************************/
-int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
-{
-    if (theGraph == NULL || requiredArcCapacity <= 0)
-        return NOTOK;
-
-    // Train callers to only ask for an even number of arcs, since
-    // two are required per edge or directed edge.
-    if (requiredArcCapacity & 1)
-        return NOTOK;
-
-    if (theGraph->arcCapacity >= requiredArcCapacity)
-        return OK;
-
-    // In the special case where gp_InitGraph() has not yet been called,
-    // we can simply set the higher arcCapacity since normal initialization
-    // will then allocate the correct number of edge records.
-    if (theGraph->N == 0)
-    {
-        theGraph->arcCapacity = requiredArcCapacity;
-        return OK;
-    }
-
-    // Try to expand the arc capacity
-    return theGraph->functions.fpEnsureArcCapacity(theGraph, requiredArcCapacity);
-}
-
-int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
-{
-    stackP newStack;
-    int e, Esize = gp_EdgeIndexBound(theGraph),
-           newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity;
-
-    // If the new size is less than or equal to the old size, then
-    // the graph already has the required arc capacity
-    if (newEsize <= Esize)
-        return OK;
-
-    // Expand theStack
-    if (sp_GetCapacity(theGraph->theStack) < 2 * requiredArcCapacity)
-    {
-        int stackSize = 2 * requiredArcCapacity;
-
-        if (stackSize < 6 * theGraph->N)
-        {
-            // NOTE: Since this routine only makes the stack bigger, this
-            //       calculation is not needed here because we already ensured
-            //       we had stack capacity of the greater of 2*arcs and 6*N
-            //       But we do it for clarity and consistency (e.g. so this rule
-            //       is not forgotten whenever a "SetArcCapacity" method or a
-            //       "reduceArcCapacity" method is added)
-            stackSize = 6 * theGraph->N;
-        }
-
-        if ((newStack = sp_New(stackSize)) == NULL)
-            return NOTOK;
-
-        sp_CopyContent(newStack, theGraph->theStack);
-        sp_Free(&theGraph->theStack);
-        theGraph->theStack = newStack;
-    }
-
-    // Expand edgeHoles
-    if ((newStack = sp_New(requiredArcCapacity / 2)) == NULL)
-    {
-        return NOTOK;
-    }
-
-    sp_CopyContent(newStack, theGraph->edgeHoles);
-    sp_Free(&theGraph->edgeHoles);
-    theGraph->edgeHoles = newStack;
-
-    // Reallocate the edgeRec array to the new size,
-    theGraph->E = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
-    if (theGraph->E == NULL)
-        return NOTOK;
-
-    // Initialize the new edge records
-    for (e = Esize; e < newEsize; e++)
-        _InitEdgeRec(theGraph, e);
-
-    // The new arcCapacity has been successfully achieved
-    theGraph->arcCapacity = requiredArcCapacity;
-    return OK;
-}
-
-/********************************************************************
- _InitVertexRec()
- Sets the fields in a single vertex record to initial values
- ********************************************************************/
-
-void _InitVertexRec(graphP theGraph, int v)
-{
-    gp_SetFirstArc(theGraph, v, NIL);
-    gp_SetLastArc(theGraph, v, NIL);
-    gp_SetVertexIndex(theGraph, v, NIL);
-    gp_InitVertexFlags(theGraph, v);
-}
-
-/********************************************************************
- _InitVertexInfo()
- Sets the fields in a single vertex record to initial values
- ********************************************************************/
-
-void _InitVertexInfo(graphP theGraph, int v)
-{
-    gp_SetVertexParent(theGraph, v, NIL);
-    gp_SetVertexLeastAncestor(theGraph, v, NIL);
-    gp_SetVertexLowpoint(theGraph, v, NIL);
-
-    gp_SetVertexVisitedInfo(theGraph, v, NIL);
-    gp_SetVertexPertinentEdge(theGraph, v, NIL);
-    gp_SetVertexPertinentRootsList(theGraph, v, NIL);
-    gp_SetVertexFuturePertinentChild(theGraph, v, NIL);
-    gp_SetVertexSortedDFSChildList(theGraph, v, NIL);
-    gp_SetVertexFwdArcList(theGraph, v, NIL);
-}
-
-/********************************************************************
- _InitEdgeRec()
- Sets the fields in a single edge record structure to initial values
- ********************************************************************/
-
-void _InitEdgeRec(graphP theGraph, int e)
-{
-    gp_SetNeighbor(theGraph, e, NIL);
-    gp_SetPrevArc(theGraph, e, NIL);
-    gp_SetNextArc(theGraph, e, NIL);
-    gp_InitEdgeFlags(theGraph, e);
-}
-
-/********************************************************************
- _InitIsolatorContext()
- ********************************************************************/
-
-void _InitIsolatorContext(graphP theGraph)
-{
-    isolatorContextP IC = &theGraph->IC;
-
-    IC->minorType = 0;
-    IC->v = IC->r = IC->x = IC->y = IC->w = IC->px = IC->py = IC->z =
-        IC->ux = IC->dx = IC->uy = IC->dy = IC->dw = IC->uz = IC->dz = NIL;
-}
-
-/********************************************************************
- _ClearVisitedFlags()
- ********************************************************************/
-
-void _ClearVisitedFlags(graphP theGraph)
-{
-    _ClearVertexVisitedFlags(theGraph, TRUE);
-    _ClearEdgeVisitedFlags(theGraph);
-}
-
-/********************************************************************
- _ClearVertexVisitedFlags()
- ********************************************************************/
-
-void _ClearVertexVisitedFlags(graphP theGraph, int includeVirtualVertices)
-{
-    int v;
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        gp_ClearVertexVisited(theGraph, v);
-
-    if (includeVirtualVertices)
-        for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
-            gp_ClearVertexVisited(theGraph, v);
-}
-
-/********************************************************************
- _ClearEdgeVisitedFlags()
- ********************************************************************/
-
-void _ClearEdgeVisitedFlags(graphP theGraph)
-{
-    int e, EsizeOccupied;
-
-    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
-        gp_ClearEdgeVisited(theGraph, e);
-}
-
-/********************************************************************
- _ClearVisitedFlagsInBicomp()
-
- Clears the visited flag of the vertices and arcs in the bicomp rooted
- by BicompRoot.
-
- This method uses the stack but preserves whatever may have been
- on it.  In debug mode, it will return NOTOK if the stack overflows.
- This method pushes at most one integer per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure.
- ********************************************************************/
-
-int _ClearVisitedFlagsInBicomp(graphP theGraph, int BicompRoot)
-{
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-    int v, e;
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, v);
-        gp_ClearVertexVisited(theGraph, v);
-
-        e = gp_GetFirstArc(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            gp_ClearEdgeVisited(theGraph, e);
-
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearVisitedFlagsInOtherBicomps()
- Typically, we want to clear all visited flags in the graph
- (see _ClearVisitedFlags).  However, in some algorithms this would be
- too costly, so it is necessary to clear the visited flags only
- in one bicomp (see _ClearVisitedFlagsInBicomp), then do some processing
- that sets some of the flags then performs some tests.  If the tests
- are positive, then we can clear all the visited flags in the
- other bicomps (the processing may have set the visited flags in the
- one bicomp in a particular way that we want to retain, so we skip
- the given bicomp).
- ********************************************************************/
-
-int _ClearVisitedFlagsInOtherBicomps(graphP theGraph, int BicompRoot)
-{
-    int R;
-
-    for (R = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, R); R++)
-    {
-        if (R != BicompRoot && gp_VirtualVertexInUse(theGraph, R))
-        {
-            if (_ClearVisitedFlagsInBicomp(theGraph, R) != OK)
-                return NOTOK;
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearVisitedFlagsInUnembeddedEdges()
- Unembedded edges aren't part of any bicomp yet, but it may be
- necessary to clear their visited flags.
- ********************************************************************/
-
-void _ClearVisitedFlagsInUnembeddedEdges(graphP theGraph)
-{
-    int v, e;
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        e = gp_GetVertexFwdArcList(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            gp_ClearEdgeVisited(theGraph, e);
-            gp_ClearEdgeVisited(theGraph, gp_GetTwinArc(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-            if (e == gp_GetVertexFwdArcList(theGraph, v))
-                e = NIL;
-        }
-    }
-}
-
-/****************************************************************************
- _ClearVisitedFlagsOnPath()
- This method clears the visited flags on the vertices and edges on the path
- (u, v, ..., w, x) in which all vertices except the endpoints u and x
- are degree 2.  This method avoids performing more than constant work at the
- path endpoints u and x, so the total work is on the order of the path length.
-
- Returns OK on success, NOTOK on internal failure
- ****************************************************************************/
-
-int _ClearVisitedFlagsOnPath(graphP theGraph, int u, int v, int w, int x)
-{
-    int e, eTwin;
-
-    // We want to exit u from e, but we get eTwin first here in order to avoid
-    // work, in case the degree of u is greater than 2.
-    eTwin = gp_GetNeighborEdgeRecord(theGraph, v, u);
-    if (gp_IsNotArc(eTwin))
-        return NOTOK;
-    e = gp_GetTwinArc(theGraph, eTwin);
-
-    v = u;
-
-    do
-    {
-        // Mark the vertex and the exiting edge
-        gp_ClearVertexVisited(theGraph, v);
-        gp_ClearEdgeVisited(theGraph, e);
-        gp_ClearEdgeVisited(theGraph, eTwin);
-
-        // Get the next vertex
-        v = gp_GetNeighbor(theGraph, e);
-        e = gp_GetNextArcCircular(theGraph, eTwin);
-        eTwin = gp_GetTwinArc(theGraph, e);
-    } while (v != x);
-
-    // Mark the last vertex with 'visited'
-    gp_ClearVertexVisited(theGraph, x);
-
-    return OK;
-}
-
-/****************************************************************************
- _SetVisitedFlagsOnPath()
- This method sets the visited flags on the vertices and edges on the path
- (u, v, ..., w, x) in which all vertices except the endpoints u and x
- are degree 2.  This method avoids performing more than constant work at the
- path endpoints u and x, so the total work is on the order of the path length.
-
- Returns OK on success, NOTOK on internal failure
- ****************************************************************************/
-
-int _SetVisitedFlagsOnPath(graphP theGraph, int u, int v, int w, int x)
-{
-    int e, eTwin;
-
-    // We want to exit u from e, but we get eTwin first here in order to avoid
-    // work, in case the degree of u is greater than 2.
-    eTwin = gp_GetNeighborEdgeRecord(theGraph, v, u);
-    if (gp_IsNotArc(eTwin))
-        return NOTOK;
-    e = gp_GetTwinArc(theGraph, eTwin);
-
-    v = u;
-
-    do
-    {
-        // Mark the vertex and the exiting edge
-        gp_SetVertexVisited(theGraph, v);
-        gp_SetEdgeVisited(theGraph, e);
-        gp_SetEdgeVisited(theGraph, eTwin);
-
-        // Get the next vertex
-        v = gp_GetNeighbor(theGraph, e);
-        e = gp_GetNextArcCircular(theGraph, eTwin);
-        eTwin = gp_GetTwinArc(theGraph, e);
-    } while (v != x);
-
-    // Mark the last vertex with 'visited'
-    gp_SetVertexVisited(theGraph, x);
-
-    return OK;
-}
-
-/********************************************************************
- _FillVertexVisitedInfoInBicomp()
-
- Places the FillValue into the visitedInfo of the non-virtual vertices
- in the bicomp rooted by BicompRoot.
-
- This method uses the stack but preserves whatever may have been
- on it.  In debug mode, it will return NOTOK if the stack overflows.
- This method pushes at most one integer per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure.
- ********************************************************************/
-
-int _FillVertexVisitedInfoInBicomp(graphP theGraph, int BicompRoot, int FillValue)
-{
-    int v, e;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, v);
-
-        if (gp_IsNotVirtualVertex(theGraph, v))
-            gp_SetVertexVisitedInfo(theGraph, v, FillValue);
-
-        e = gp_GetFirstArc(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearVertexTypeInBicomp()
-
- Clears the 'obstruction type' bits for each vertex in the bicomp
- rooted by BicompRoot.
-
- This method uses the stack but preserves whatever may have been
- on it.  In debug mode, it will return NOTOK if the stack overflows.
- This method pushes at most one integer per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure.
- ********************************************************************/
-
-int _ClearVertexTypeInBicomp(graphP theGraph, int BicompRoot)
-{
-    int V, e;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, V);
-        gp_ClearVertexObstructionType(theGraph, V);
-
-        e = gp_GetFirstArc(theGraph, V);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearGraph()
- Clears all memory used by the graph, restoring it to the state it
- was in immediately after gp_New() created it.
- ********************************************************************/
-
-void _ClearGraph(graphP theGraph)
-{
-    if (theGraph->V != NULL)
-    {
-        free(theGraph->V);
-        theGraph->V = NULL;
-    }
-    if (theGraph->VI != NULL)
-    {
-        free(theGraph->VI);
-        theGraph->V = NULL;
-    }
-    if (theGraph->E != NULL)
-    {
-        free(theGraph->E);
-        theGraph->E = NULL;
-    }
-
-    theGraph->N = 0;
-    theGraph->NV = 0;
-    theGraph->M = 0;
-    theGraph->arcCapacity = 0;
-    theGraph->internalFlags = 0;
-    theGraph->embedFlags = 0;
-
-    _InitIsolatorContext(theGraph);
-
-    LCFree(&theGraph->BicompRootLists);
-    LCFree(&theGraph->sortedDFSChildLists);
-
-    sp_Free(&theGraph->theStack);
-
-    if (theGraph->extFace != NULL)
-    {
-        free(theGraph->extFace);
-        theGraph->extFace = NULL;
-    }
-
-    sp_Free(&theGraph->edgeHoles);
-
-    gp_FreeExtensions(theGraph);
-}
-
-/********************************************************************
- gp_Free()
- Frees G and V, then the graph record.  Then sets your pointer to NULL
- (so you must pass the address of your pointer).
- ********************************************************************/
-
-void gp_Free(graphP *pGraph)
-{
-    if (pGraph == NULL)
-        return;
-    if (*pGraph == NULL)
-        return;
-
-    _ClearGraph(*pGraph);
-
-    free(*pGraph);
-    *pGraph = NULL;
-}
-
-/********************************************************************
- gp_CopyAdjacencyLists()
- Copies the adjacency lists from the srcGraph to the dstGraph.
- This method intentionally copies only the adjacency lists of the
- first N vertices, so the adjacency lists of virtual vertices are
- excluded (unless the caller temporarily resets the value of N to
- include NV).
-
- Returns OK on success, NOTOK on failures, e.g. if the two graphs
- have different orders N or if the arcCapacity of dstGraph cannot
- be increased to match that of srcGraph.
- ********************************************************************/
-int gp_CopyAdjacencyLists(graphP dstGraph, graphP srcGraph)
-{
-    int v, e, EsizeOccupied;
-
-    if (dstGraph == NULL || srcGraph == NULL)
-        return NOTOK;
-
-    if (dstGraph->N != srcGraph->N || dstGraph->N == 0)
-        return NOTOK;
-
-    if (gp_EnsureArcCapacity(dstGraph, srcGraph->arcCapacity) != OK)
-        return NOTOK;
-
-    // Copy the links that hook each owning vertex to its adjacency list
-    for (v = gp_GetFirstVertex(srcGraph); gp_VertexInRange(srcGraph, v); v++)
-    {
-        gp_SetFirstArc(dstGraph, v, gp_GetFirstArc(srcGraph, v));
-        gp_SetLastArc(dstGraph, v, gp_GetLastArc(srcGraph, v));
-    }
-
-    // Copy the adjacency links and neighbor pointers for each arc
-    EsizeOccupied = gp_EdgeInUseIndexBound(srcGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
-    {
-        gp_SetNeighbor(dstGraph, e, gp_GetNeighbor(srcGraph, e));
-        gp_SetNextArc(dstGraph, e, gp_GetNextArc(srcGraph, e));
-        gp_SetPrevArc(dstGraph, e, gp_GetPrevArc(srcGraph, e));
-    }
-
-    // Tell the dstGraph how many edges it now has and where the edge holes are
-    dstGraph->M = srcGraph->M;
-    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
-
-    return OK;
-}
-
-/********************************************************************
- gp_CopyGraph()
- Copies the content of the srcGraph into the dstGraph.  The dstGraph
- must have been previously initialized with the same number of
- vertices as the srcGraph (e.g. gp_InitGraph(dstGraph, srcGraph->N).
-
- Returns OK for success, NOTOK for failure.
- ********************************************************************/
-
-int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
-{
-    int v, e, Esize;
-
-    // Parameter checks
-    if (dstGraph == NULL || srcGraph == NULL)
-    {
-        return NOTOK;
-    }
-
-    // The graphs need to be the same order and initialized
-    if (dstGraph->N != srcGraph->N || dstGraph->N == 0)
-    {
-        return NOTOK;
-    }
-
-    // Ensure dstGraph has the required arc capacity; this expands
-    // dstGraph if needed, but does not contract.  An error is only
-    // returned if the expansion fails.
-    if (gp_EnsureArcCapacity(dstGraph, srcGraph->arcCapacity) != OK)
-    {
-        return NOTOK;
-    }
-
-    // Copy the primary vertices.  Augmentations to vertices created
-    // by extensions are copied below by gp_CopyExtensions()
-    for (v = gp_GetFirstVertex(srcGraph); gp_VertexInRange(srcGraph, v); v++)
-    {
-        gp_CopyVertexRec(dstGraph, v, srcGraph, v);
-        gp_CopyVertexInfo(dstGraph, v, srcGraph, v);
-        gp_SetExtFaceVertex(dstGraph, v, 0, gp_GetExtFaceVertex(srcGraph, v, 0));
-        gp_SetExtFaceVertex(dstGraph, v, 1, gp_GetExtFaceVertex(srcGraph, v, 1));
-    }
-
-    // Copy the virtual vertices.  Augmentations to virtual vertices created
-    // by extensions are copied below by gp_CopyExtensions()
-    for (v = gp_GetFirstVirtualVertex(srcGraph); gp_VirtualVertexInRange(srcGraph, v); v++)
-    {
-        gp_CopyVertexRec(dstGraph, v, srcGraph, v);
-        gp_SetExtFaceVertex(dstGraph, v, 0, gp_GetExtFaceVertex(srcGraph, v, 0));
-        gp_SetExtFaceVertex(dstGraph, v, 1, gp_GetExtFaceVertex(srcGraph, v, 1));
-    }
-
-    // Copy the basic EdgeRec structures.  Augmentations to the edgeRec structure
-    // created by extensions are copied below by gp_CopyExtensions()
-    Esize = gp_EdgeIndexBound(srcGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
-        gp_CopyEdgeRec(dstGraph, e, srcGraph, e);
-
-    // Give the dstGraph the same size and intrinsic properties
-    dstGraph->N = srcGraph->N;
-    dstGraph->NV = srcGraph->NV;
-    dstGraph->M = srcGraph->M;
-    dstGraph->internalFlags = srcGraph->internalFlags;
-    dstGraph->embedFlags = srcGraph->embedFlags;
-
-    dstGraph->IC = srcGraph->IC;
-
-    LCCopy(dstGraph->BicompRootLists, srcGraph->BicompRootLists);
-    LCCopy(dstGraph->sortedDFSChildLists, srcGraph->sortedDFSChildLists);
-    sp_Copy(dstGraph->theStack, srcGraph->theStack);
-    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
-
-    // Copy the set of extensions, which includes copying the
-    // extension data as well as the function overload tables
-    if (gp_CopyExtensions(dstGraph, srcGraph) != OK)
-        return NOTOK;
-
-    // Copy the graph's function table, which has the pointers to
-    // the most recent extension overloads of each function (or
-    // the original function pointer if a particular function has
-    // not been overloaded).
-    // This must be done after copying the extension because the
-    // first step of copying the extensions is to delete the
-    // dstGraph extensions, which clears its function table.
-    // Therefore, no good to assign the srcGraph functions *before*
-    // copying the extensions because the assignment would be wiped out
-    // This, in turn, means that the DupContext function of an extension
-    // *cannot* depend on any extension function overloads; the extension
-    // must directly invoke extension functions only.
-    dstGraph->functions = srcGraph->functions;
-
-    return OK;
-}
-
-/********************************************************************
- gp_DupGraph()
- ********************************************************************/
-
-graphP gp_DupGraph(graphP theGraph)
-{
-    graphP result;
-
-    if ((result = gp_New()) == NULL)
-        return NULL;
-
-    if (gp_InitGraph(result, theGraph->N) != OK ||
-        gp_CopyGraph(result, theGraph) != OK)
-    {
-        gp_Free(&result);
-        return NULL;
-    }
-
-    return result;
-}
-
-/********************************************************************
- gp_CreateRandomGraph()
-
- Creates a randomly generated graph.  First a tree is created by
- connecting each vertex to some successor.  Then a random number of
- additional random edges are added.  If an edge already exists, then
- we retry until a non-existent edge is picked.
-
- This function assumes the caller has already called srand().
-
- Returns OK on success, NOTOK on failure
- ********************************************************************/
-
-int gp_CreateRandomGraph(graphP theGraph)
-{
-    int N, M, u, v, m;
-
-    N = theGraph->N;
-
-    /* Generate a random tree; note that this method virtually guarantees
-            that the graph will be renumbered, but it is linear time.
-            Also, we are not generating the DFS tree but rather a tree
-            that simply ensures the resulting random graph is connected. */
-
-    for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
-    {
-        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), v - 1);
-        if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
-            return NOTOK;
-    }
-
-    /* Generate a random number of additional edges
-            (actually, leave open a small chance that no
-            additional edges will be added). */
-
-    M = _GetRandomNumber(7 * N / 8, theGraph->arcCapacity / 2);
-
-    if (M > N * (N - 1) / 2)
-        M = N * (N - 1) / 2;
-
-    for (m = N - 1; m < M; m++)
-    {
-        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph) - 1);
-        v = _GetRandomNumber(u + 1, gp_GetLastVertex(theGraph));
-
-        // If the edge (u,v) exists, decrement eIndex to try again
-        if (gp_IsNeighbor(theGraph, u, v))
-            m--;
-
-        // If the edge (u,v) doesn't exist, add it
-        else
-        {
-            if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
-                return NOTOK;
-        }
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _GetRandomNumber()
- This function generates a random number between NMin and NMax
- inclusive.  It assumes that the caller has called srand().
- It calls rand(), but before truncating to the proper range,
- it adds the high bits of the rand() result into the low bits.
- The result of this is that the randomness appearing in the
- truncated bits also has an affect on the non-truncated bits.
- ********************************************************************/
-
-int _GetRandomNumber(int NMin, int NMax)
-{
-    int N = rand();
-
-    if (NMax < NMin)
-        return NMin;
-
-    N += ((N & 0xFFFF0000) >> 16);
-    N += ((N & 0x0000FF00) >> 8);
-    N &= 0x7FFFFFF;
-    N %= (NMax - NMin + 1);
-    return N + NMin;
-}
-
-/********************************************************************
- _getUnprocessedChild()
- Support routine for gp_Create RandomGraphEx(), this function
- obtains a child of the given vertex in the randomly generated
- tree that has not yet been processed.  NIL is returned if the
- given vertex has no unprocessed children
-
- ********************************************************************/
-
-int _getUnprocessedChild(graphP theGraph, int parent)
-{
-    int e = gp_GetFirstArc(theGraph, parent);
-    int eTwin = gp_GetTwinArc(theGraph, e);
-    int child = gp_GetNeighbor(theGraph, e);
-
-    // The tree edges were added to the beginning of the adjacency list,
-    // and we move processed tree edge records to the end of the list,
-    // so if the immediate next arc (edge record) is not a tree edge
-    // then we return NIL because the vertex has no remaining
-    // unprocessed children
-    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_NOTDEFINED)
-        return NIL;
-
-    // If the child has already been processed, then all children
-    // have been pushed to the end of the list, and we have just
-    // encountered the first child we processed, so there are no
-    // remaining unprocessed children */
-    if (gp_GetEdgeVisited(theGraph, e))
-        return NIL;
-
-    // We have found an edge leading to an unprocessed child, so
-    // we mark it as processed so that it doesn't get returned
-    // again in future iterations.
-    gp_SetEdgeVisited(theGraph, e);
-    gp_SetEdgeVisited(theGraph, eTwin);
-
-    // Now we move the edge record in the parent vertex to the end
-    // of the adjacency list of that vertex.
-    gp_MoveArcToLast(theGraph, parent, e);
-
-    // Now we move the edge record in the child vertex to the
-    // end of the adjacency list of the child.
-    gp_MoveArcToLast(theGraph, child, eTwin);
-
-    // Now we set the child's parent and return the child.
-    gp_SetVertexParent(theGraph, child, parent);
-
-    return child;
-}
-
-/********************************************************************
- _hasUnprocessedChild()
- Support routine for gp_Create RandomGraphEx(), this function
- obtains a child of the given vertex in the randomly generated
- tree that has not yet been processed.  False (0) is returned
- unless the given vertex has an unprocessed child.
- ********************************************************************/
-
-int _hasUnprocessedChild(graphP theGraph, int parent)
-{
-    int e = gp_GetFirstArc(theGraph, parent);
-
-    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_NOTDEFINED)
-        return 0;
-
-    if (gp_GetEdgeVisited(theGraph, e))
-        return 0;
-
-    return 1;
-}
-
-/********************************************************************
- gp_CreateRandomGraphEx()
- Given a graph structure with a pre-specified number of vertices N,
- this function creates a graph with the specified number of edges.
-
- If numEdges <= 3N-6, then the graph generated is planar.  If
- numEdges is larger, then a maximal planar graph is generated, then
- (numEdges - 3N + 6) additional random edges are added.
-
- This function assumes the caller has already called srand().
- ********************************************************************/
-
-int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
-{
-    int N, arc, M, root, v, c, p, last, u, e, EsizeOccupied;
-
-    N = theGraph->N;
-
-    if (numEdges > theGraph->arcCapacity / 2)
-        numEdges = theGraph->arcCapacity / 2;
-
-    /* Generate a random tree. */
-
-    for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
-    {
-        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), v - 1);
-        if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
-            return NOTOK;
-
-        else
-        {
-            arc = gp_GetNeighborEdgeRecord(theGraph, u, v);
-            gp_SetEdgeType(theGraph, arc, EDGE_TYPE_RANDOMTREE);
-            gp_SetEdgeType(theGraph, gp_GetTwinArc(theGraph, arc), EDGE_TYPE_RANDOMTREE);
-            gp_ClearEdgeVisited(theGraph, arc);
-            gp_ClearEdgeVisited(theGraph, gp_GetTwinArc(theGraph, arc));
-        }
-    }
-
-    /* Add edges up to the limit or until the graph is maximal planar. */
-
-    M = numEdges <= 3 * N - 6 ? numEdges : 3 * N - 6;
-
-    root = gp_GetFirstVertex(theGraph);
-    v = last = _getUnprocessedChild(theGraph, root);
-
-    while (v != root && theGraph->M < M)
-    {
-        c = _getUnprocessedChild(theGraph, v);
-
-        if (gp_IsVertex(c))
-        {
-            if (last != v)
-            {
-                if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
-                    return NOTOK;
-            }
-
-            if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
-                return NOTOK;
-
-            v = last = c;
-        }
-
-        else
-        {
-            p = gp_GetVertexParent(theGraph, v);
-            while (gp_IsVertex(p) && gp_IsNotVertex(c = _getUnprocessedChild(theGraph, p)))
-            {
-                v = p;
-                p = gp_GetVertexParent(theGraph, v);
-                if (gp_IsVertex(p) && p != root)
-                {
-                    if (gp_AddEdge(theGraph, last, 1, p, 1) != OK)
-                        return NOTOK;
-                }
-            }
-
-            if (gp_IsVertex(p))
-            {
-                if (p == root)
-                {
-                    if (gp_AddEdge(theGraph, v, 1, c, 1) != OK)
-                        return NOTOK;
-
-                    if (v != last)
-                    {
-                        if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
-                            return NOTOK;
-                    }
-                }
-                else
-                {
-                    if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
-                        return NOTOK;
-                }
-
-                if (p != root)
-                {
-                    if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
-                        return NOTOK;
-                    last = c;
-                }
-
-                v = c;
-            }
-        }
-    }
-
-    /* Add additional edges if the limit has not yet been reached. */
-
-    while (theGraph->M < numEdges)
-    {
-        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph));
-        v = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph));
-
-        if (u != v && !gp_IsNeighbor(theGraph, u, v))
-            if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
-                return NOTOK;
-    }
-
-    /* Clear the edge types back to 'unknown' */
-
-    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
-    for (e = 0; e < EsizeOccupied; e++)
-    {
-        gp_ClearEdgeType(theGraph, e);
-        gp_ClearEdgeVisited(theGraph, e);
-    }
-
-    /* Put all DFSParent indicators back to NIL */
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        gp_SetVertexParent(theGraph, v, NIL);
-
-    return OK;
-}
-
-/********************************************************************
- gp_IsNeighbor()
-
- Checks whether v is already in u's adjacency list, i.e. does the arc
- u -> v exist.
- If there is an edge record for v in u's list, but it is marked INONLY,
- then it represents the arc v->u but not u->v, so it is ignored.
-
- Returns TRUE or FALSE.
- ********************************************************************/
-
-int gp_IsNeighbor(graphP theGraph, int u, int v)
-{
-    int e = gp_GetFirstArc(theGraph, u);
-
-    while (gp_IsArc(e))
-    {
-        if (gp_GetNeighbor(theGraph, e) == v)
-        {
-            if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
-                return TRUE;
-        }
-        e = gp_GetNextArc(theGraph, e);
-    }
-    return FALSE;
-}
-
-/********************************************************************
- gp_GetNeighborEdgeRecord()
- Searches the adjacency list of u to obtains the edge record for v.
-
- NOTE: The caller should check whether the edge record is INONLY;
-       This method returns any edge record representing a connection
-       between vertices u and v, so this method can return an
-       edge record even if gp_IsNeighbor(theGraph, u, v) is false (0).
-       To filter out INONLY edge records, use gp_GetDirection() on
-       the edge record returned by this method.
-
- Returns NIL if there is no edge record indicating v in u's adjacency
-         list, or the edge record location otherwise.
- ********************************************************************/
-
-int gp_GetNeighborEdgeRecord(graphP theGraph, int u, int v)
-{
-    int e;
-
-    if (gp_IsNotVertex(u) || gp_IsNotVertex(v))
-        return NIL + NOTOK - NOTOK;
-
-    e = gp_GetFirstArc(theGraph, u);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetNeighbor(theGraph, e) == v)
-            return e;
-
-        e = gp_GetNextArc(theGraph, e);
-    }
-    return NIL;
-}
-
-/********************************************************************
- gp_GetVertexDegree()
-
- Counts the number of edge records in the adjacency list of a given
- vertex V.
-
- Note: For digraphs, this method returns the total degree of the
-       vertex, including outward arcs (undirected and OUTONLY)
-       as well as INONLY arcs.  Other functions are defined to get
-       the in-degree or out-degree of the vertex.
-
- Note: This function determines the degree by counting.  An extension
-       could cache the degree value of each vertex and update the
-       cached value as edges are added and deleted.
- ********************************************************************/
-
-int gp_GetVertexDegree(graphP theGraph, int v)
-{
-    int e, degree;
-
-    if (theGraph == NULL || gp_IsNotVertex(v))
-        return 0 + NOTOK - NOTOK;
-
-    degree = 0;
-
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        degree++;
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    return degree;
-}
-
-/********************************************************************
- gp_GetVertexInDegree()
-
- Counts the number of edge records in the adjacency list of a given
- vertex V that represent arcs from another vertex into V.
- This includes undirected edges and INONLY arcs, so it only excludes
- edges records that are marked as OUTONLY arcs.
-
- Note: This function determines the in-degree by counting.  An extension
-       could cache the in-degree value of each vertex and update the
-       cached value as edges are added and deleted.
- ********************************************************************/
-
-int gp_GetVertexInDegree(graphP theGraph, int v)
-{
-    int e, degree;
-
-    if (theGraph == NULL || gp_IsNotVertex(v))
-        return 0 + NOTOK - NOTOK;
-
-    degree = 0;
-
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_OUTONLY)
-            degree++;
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    return degree;
-}
-
-/********************************************************************
- gp_GetVertexOutDegree()
-
- Counts the number of edge records in the adjacency list of a given
- vertex V that represent arcs from V to another vertex.
- This includes undirected edges and OUTONLY arcs, so it only excludes
- edges records that are marked as INONLY arcs.
-
- Note: This function determines the out-degree by counting.  An extension
-       could cache the out-degree value of each vertex and update the
-       cached value as edges are added and deleted.
- ********************************************************************/
-
-int gp_GetVertexOutDegree(graphP theGraph, int v)
-{
-    int e, degree;
-
-    if (theGraph == NULL || gp_IsNotVertex(v))
-        return 0 + NOTOK - NOTOK;
-
-    degree = 0;
-
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
-            degree++;
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    return degree;
-}
-
-/********************************************************************
- gp_AttachArc()
-
- This routine adds newArc into v's adjacency list at a position
- adjacent to the edge record for e, either before or after e,
- depending on link.  If e is not an arc (e.g. if e is NIL),
- then link is assumed to indicate whether the new arc is to be
- placed at the beginning or end of v's adjacency list.
-
- NOTE: The caller can pass NIL for v if e is not NIL, since the
-       vertex is implied (gp_GetNeighbor(theGraph, eTwin))
-
- The arc is assumed to already exist in the data structure (i.e.
- the storage of edges), as only a whole edge (two arcs) can be
- inserted into or deleted from the data structure.  Hence there is
- no such thing as gp_InsertArc() or gp_DeleteArc().
-
- See also gp_DetachArc(), gp_InsertEdge() and gp_DeleteEdge()
- ********************************************************************/
-
-void gp_AttachArc(graphP theGraph, int v, int e, int link, int newArc)
-{
-    if (gp_IsArc(e))
-    {
-        int e2 = gp_GetAdjacentArc(theGraph, e, link);
-
-        // e's link is newArc, and newArc's 1^link is e
-        gp_SetAdjacentArc(theGraph, e, link, newArc);
-        gp_SetAdjacentArc(theGraph, newArc, 1 ^ link, e);
-
-        // newArcs's link is e2
-        gp_SetAdjacentArc(theGraph, newArc, link, e2);
-
-        // if e2 is an arc, then e2's 1^link is newArc, else v's 1^link is newArc
-        if (gp_IsArc(e2))
-            gp_SetAdjacentArc(theGraph, e2, 1 ^ link, newArc);
-        else
-            gp_SetArc(theGraph, v, 1 ^ link, newArc);
-    }
-    else
-    {
-        int e2 = gp_GetArc(theGraph, v, link);
-
-        // v's link is newArc, and newArc's 1^link is NIL
-        gp_SetArc(theGraph, v, link, newArc);
-        gp_SetAdjacentArc(theGraph, newArc, 1 ^ link, NIL);
-
-        // newArcs's elink is e2
-        gp_SetAdjacentArc(theGraph, newArc, link, e2);
-
-        // if e2 is an arc, then e2's 1^link is newArc, else v's 1^link is newArc
-        if (gp_IsArc(e2))
-            gp_SetAdjacentArc(theGraph, e2, 1 ^ link, newArc);
-        else
-            gp_SetArc(theGraph, v, 1 ^ link, newArc);
-    }
-}
-
-/****************************************************************************
- gp_DetachArc()
-
- This routine detaches arc from its adjacency list, but it does not delete
- it from the data structure (only a whole edge can be deleted).
-
- Some algorithms must temporarily detach an edge, perform some calculation,
- and eventually put the edge back. This routine supports that operation.
- The neighboring adjacency list nodes are cross-linked, but the two link
- members of the arc are retained, so the arc can be reattached later by
- invoking _RestoreArc().  A sequence of detached arcs can only be restored
- in the exact opposite order of their detachment.  Thus, algorithms do not
- directly use this method to implement the temporary detach/restore method.
- Instead, gp_HideEdge() and gp_RestoreEdge are used, and algorithms push
- edge hidden edge onto the stack.  One example of this stack usage is
- provided by detaching edges with gp_ContractEdge() or gp_IdentifyVertices(),
- and reattaching with gp_RestoreIdentifications(), which unwinds the stack
- by invoking gp_RestoreVertex().
- ****************************************************************************/
-
-void gp_DetachArc(graphP theGraph, int arc)
-{
-    int nextArc = gp_GetNextArc(theGraph, arc),
-        prevArc = gp_GetPrevArc(theGraph, arc);
-
-    if (gp_IsArc(nextArc))
-        gp_SetPrevArc(theGraph, nextArc, prevArc);
-    else
-        gp_SetLastArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), prevArc);
-
-    if (gp_IsArc(prevArc))
-        gp_SetNextArc(theGraph, prevArc, nextArc);
-    else
-        gp_SetFirstArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), nextArc);
-}
-
-/********************************************************************
- gp_AddEdge()
- Adds the undirected edge (u,v) to the graph by placing edge records
- representing u into v's circular edge record list and v into u's
- circular edge record list.
-
- upos receives the location in G where the u record in v's list will be
-        placed, and vpos is the location in G of the v record we placed in
- u's list.  These are used to initialize the short circuit links.
-
- ulink (0|1) indicates whether the edge record to v in u's list should
-        become adjacent to u by its 0 or 1 link, i.e. u[ulink] == vpos.
- vlink (0|1) indicates whether the edge record to u in v's list should
-        become adjacent to v by its 0 or 1 link, i.e. v[vlink] == upos.
-
- ********************************************************************/
-
-int gp_AddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
-{
-    int upos, vpos;
-
-    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
-        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
-        return NOTOK;
-
-    /* We enforce the edge limit */
-
-    if (theGraph->M >= theGraph->arcCapacity / 2)
-        return NONEMBEDDABLE;
-
-    if (sp_NonEmpty(theGraph->edgeHoles))
-    {
-        sp_Pop(theGraph->edgeHoles, vpos);
-    }
-    else
-        vpos = gp_EdgeInUseIndexBound(theGraph);
-
-    upos = gp_GetTwinArc(theGraph, vpos);
-
-    gp_SetNeighbor(theGraph, upos, v);
-    gp_AttachArc(theGraph, u, NIL, ulink, upos);
-    gp_SetNeighbor(theGraph, vpos, u);
-    gp_AttachArc(theGraph, v, NIL, vlink, vpos);
-
-    theGraph->M++;
-    return OK;
-}
-
-/********************************************************************
- gp_DynamicAddEdge()
- Refer to documentation for gp_AddEdge for parameter description.
-
- Tries to call gp_AddEdge; if NONEMBEDDABLE, doubles the arc
- capacity (up to a max of (N * (N-1))) using gp_EnsureArcCapacity,
- then retries gp_AddEdge.
- ********************************************************************/
-int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
-{
-    int Result = OK;
-
-    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
-        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
-        return NOTOK;
-
-    Result = gp_AddEdge(theGraph, u, ulink, v, vlink);
-
-    if (Result == NONEMBEDDABLE)
-    {
-        int candidateArcCapacity = gp_GetArcCapacity(theGraph) * 2;
-        int N = theGraph->N;
-        int newArcCapacity = (candidateArcCapacity > (N * (N - 1))) ? (N * (N - 1)) : candidateArcCapacity;
-        Result = gp_EnsureArcCapacity(theGraph, newArcCapacity);
-
-        if (Result != OK)
-            return Result;
-
-        Result = gp_AddEdge(theGraph, u, ulink, v, vlink);
-    }
-
-    return Result;
-}
-
-/********************************************************************
- gp_InsertEdge()
-
- This function adds the edge (u, v) such that the edge record added
- to the adjacency list of u is adjacent to e_u and the edge record
- added to the adjacency list of v is adjacent to e_v.
- The direction of adjacency is given by e_ulink for e_u and e_vlink
- for e_v. Specifically, the new edge will be comprised of two arcs,
- n_u and n_v.  In u's (v's) adjacency list, n_u (n_v) will be added
- so that it is indicated by e_u's (e_v's) e_ulink (e_vlink).
- If e_u (or e_v) is not an arc, then e_ulink (e_vlink) indicates
- whether to prepend or append to the adjacency list for u (v).
- ********************************************************************/
-
-int gp_InsertEdge(graphP theGraph, int u, int e_u, int e_ulink,
-                  int v, int e_v, int e_vlink)
-{
-    int vertMax = gp_GetLastVirtualVertex(theGraph),
-        edgeMax = gp_EdgeInUseIndexBound(theGraph) - 1,
-        upos, vpos;
-
-    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
-        u > vertMax || v > vertMax ||
-        e_u > edgeMax || (e_u < gp_GetFirstEdge(theGraph) && gp_IsArc(e_u)) ||
-        e_v > edgeMax || (e_v < gp_GetFirstEdge(theGraph) && gp_IsArc(e_v)) ||
-        e_ulink < 0 || e_ulink > 1 || e_vlink < 0 || e_vlink > 1)
-        return NOTOK;
-
-    if (theGraph->M >= theGraph->arcCapacity / 2)
-        return NONEMBEDDABLE;
-
-    if (sp_NonEmpty(theGraph->edgeHoles))
-    {
-        sp_Pop(theGraph->edgeHoles, vpos);
-    }
-    else
-        vpos = gp_EdgeInUseIndexBound(theGraph);
-
-    upos = gp_GetTwinArc(theGraph, vpos);
-
-    gp_SetNeighbor(theGraph, upos, v);
-    gp_AttachArc(theGraph, u, e_u, e_ulink, upos);
-
-    gp_SetNeighbor(theGraph, vpos, u);
-    gp_AttachArc(theGraph, v, e_v, e_vlink, vpos);
-
-    theGraph->M++;
-
-    return OK;
-}
-
-/****************************************************************************
- gp_DeleteEdge()
-
- This function deletes the given edge record e and its twin, reducing the
- number of edges M in the graph.
- Before the e^th record is deleted, its 'nextLink' adjacency list neighbor
- is collected as the return result.  This is useful when iterating through
- an edge list and making deletions because the nextLink arc is the 'next'
- arc in the iteration, but it is hard to obtain *after* deleting e.
- ****************************************************************************/
-
-int gp_DeleteEdge(graphP theGraph, int e, int nextLink)
-{
-    // Calculate the nextArc after e so that, when e is deleted, the return result
-    // informs a calling loop of the next edge to be processed.
-    int nextArc = gp_GetAdjacentArc(theGraph, e, nextLink);
-
-    // Delete the edge records e and eTwin from their adjacency lists.
-    gp_DetachArc(theGraph, e);
-    gp_DetachArc(theGraph, gp_GetTwinArc(theGraph, e));
-
-    // Clear the two edge records
-    // (the bit twiddle (e & ~1) chooses the lesser of e and its twin arc)
-#if NIL == 0
-    memset(theGraph->E + (e & ~1), NIL_CHAR, sizeof(edgeRec) << 1);
-#else
-    _InitEdgeRec(theGraph, e);
-    _InitEdgeRec(theGraph, gp_GetTwinArc(theGraph, e));
-#endif
-
-    // Now we reduce the number of edges in the data structure
-    theGraph->M--;
-
-    // If records e and eTwin were not the last in the edge record array,
-    // then record a new hole in the edge array. */
-    if (e < gp_EdgeInUseIndexBound(theGraph))
-    {
-        sp_Push(theGraph->edgeHoles, e);
-    }
-
-    // Return the previously calculated successor of e.
-    return nextArc;
-}
-
-/********************************************************************
- _RestoreArc()
- This routine reinserts an arc into the edge list from which it
- was previously removed by gp_DetachArc().
-
- The assumed processing model is that arcs will be restored in reverse
- of the order in which they were hidden, i.e. it is assumed that the
- hidden arcs will be pushed on a stack and the arcs will be popped
- from the stack for restoration.
- ********************************************************************/
-
-void _RestoreArc(graphP theGraph, int arc)
-{
-    int nextArc = gp_GetNextArc(theGraph, arc),
-        prevArc = gp_GetPrevArc(theGraph, arc);
-
-    if (gp_IsArc(nextArc))
-        gp_SetPrevArc(theGraph, nextArc, arc);
-    else
-        gp_SetLastArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), arc);
-
-    if (gp_IsArc(prevArc))
-        gp_SetNextArc(theGraph, prevArc, arc);
-    else
-        gp_SetFirstArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), arc);
-}
-
-/********************************************************************
- gp_HideEdge()
- This routine removes the two arcs of an edge from the adjacency lists
- of its endpoint vertices, but does not delete them from the storage
- data structure.
-
- Many algorithms must temporarily remove an edge, perform some
- calculation, and eventually put the edge back. This routine supports
- that operation.
-
- For each arc, the neighboring adjacency list nodes are cross-linked,
- but the links in the arc are retained because they indicate the
- neighbor arcs to which the arc can be reattached by gp_RestoreEdge().
- ********************************************************************/
-
-void gp_HideEdge(graphP theGraph, int e)
-{
-    theGraph->functions.fpHideEdge(theGraph, e);
-}
-
-void _HideEdge(graphP theGraph, int e)
-{
-    gp_DetachArc(theGraph, e);
-    gp_DetachArc(theGraph, gp_GetTwinArc(theGraph, e));
-}
-
-/********************************************************************
- gp_RestoreEdge()
- This routine reinserts two two arcs of an edge into the adjacency
- lists of the edge's endpoints, the arcs having been previously
- removed by gp_HideEdge().
-
- The assumed processing model is that edges will be restored in
- reverse of the order in which they were hidden, i.e. it is assumed
- that the hidden edges will be pushed on a stack and the edges will
- be popped from the stack for restoration.
-
- Note: Since both arcs of an edge are restored, only one arc need
-        be pushed on the stack for restoration.  This routine
-        restores the two arcs in the opposite order from the order
-        in which they are hidden by gp_HideEdge().
- ********************************************************************/
-
-void gp_RestoreEdge(graphP theGraph, int e)
-{
-    theGraph->functions.fpRestoreEdge(theGraph, e);
-}
-
-void _RestoreEdge(graphP theGraph, int e)
-{
-    _RestoreArc(theGraph, gp_GetTwinArc(theGraph, e));
-    _RestoreArc(theGraph, e);
-}
-
-/********************************************************************
- _HideInternalEdges()
- Pushes onto the graph's stack and hides all arc nodes of the vertex
- except the first and last arcs in the adjacency list of the vertex.
- This method is typically called on a vertex that is on the external
- face of a biconnected component, because the first and last arcs are
- the ones that attach the vertex to the external face cycle, and any
- other arcs in the adjacency list are inside that cycle.
-
- This method uses the stack. The caller is expected to clear the stack
- or save the stack size before invocation, since the stack size is
- needed to _RestoreInternalEdges().
- ********************************************************************/
-
-int _HideInternalEdges(graphP theGraph, int vertex)
-{
-    int e = gp_GetFirstArc(theGraph, vertex);
-
-    // If the vertex adjacency list is empty or if it contains
-    // only one edge, then there are no *internal* edges to hide
-    if (e == gp_GetLastArc(theGraph, vertex))
-        return OK;
-
-    // Start with the first internal edge
-    e = gp_GetNextArc(theGraph, e);
-
-    // Cycle through all the edges, pushing each except stop
-    // before pushing the last edge, which is not internal
-    while (e != gp_GetLastArc(theGraph, vertex))
-    {
-        sp_Push(theGraph->theStack, e);
-        gp_HideEdge(theGraph, e);
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _RestoreInternalEdges()
- Reverses the effects of _HideInternalEdges()
- ********************************************************************/
-
-int _RestoreInternalEdges(graphP theGraph, int stackBottom)
-{
-    return _RestoreHiddenEdges(theGraph, stackBottom);
-}
-
-/********************************************************************
- _RestoreHiddenEdges()
-
- Each entry on the stack, down to stackBottom, is assumed to be an
- edge record (arc) pushed in concert with invoking gp_HideEdge().
- Each edge is restored using gp_RestoreEdge() in exact reverse of the
- hiding order.  The stack is reduced in size to stackBottom.
-
- Returns OK on success, NOTOK on internal failure.
- ********************************************************************/
-
-int _RestoreHiddenEdges(graphP theGraph, int stackBottom)
-{
-    int e;
-
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, e);
-        if (gp_IsNotArc(e))
-            return NOTOK;
-        gp_RestoreEdge(theGraph, e);
-    }
-
-    return OK;
-}
-
-/********************************************************************
- gp_HideVertex()
-
- Pushes onto the graph's stack and hides all arc nodes of the vertex.
- Additional integers are then pushed so that the result is reversible
- by gp_RestoreVertex().  See that method for details on the expected
- stack segment.
-
- Returns OK for success, NOTOK for internal failure.
- ********************************************************************/
-
-int gp_HideVertex(graphP theGraph, int vertex)
-{
-    if (gp_IsNotVertex(vertex))
-        return NOTOK;
-
-    return theGraph->functions.fpHideVertex(theGraph, vertex);
-}
-
-int _HideVertex(graphP theGraph, int vertex)
-{
-    int hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
-    int e = gp_GetFirstArc(theGraph, vertex);
-
-    // Cycle through all the edges, pushing and hiding each
-    while (gp_IsArc(e))
-    {
-        sp_Push(theGraph->theStack, e);
-        gp_HideEdge(theGraph, e);
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // Push the additional integers needed by gp_RestoreVertex()
-    sp_Push(theGraph->theStack, hiddenEdgeStackBottom);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, vertex);
-
-    return OK;
-}
-
-/********************************************************************
- gp_ContractEdge()
-
- Contracts the edge e=(u,v).  This hides the edge (both e and its
- twin arc), and it also identifies vertex v with u.
- See gp_IdentifyVertices() for further details.
-
- Returns OK for success, NOTOK for internal failure.
- ********************************************************************/
-
-int gp_ContractEdge(graphP theGraph, int e)
-{
-    if (gp_IsNotArc(e))
-        return NOTOK;
-
-    return theGraph->functions.fpContractEdge(theGraph, e);
-}
-
-int _ContractEdge(graphP theGraph, int e)
-{
-    int eBefore, u, v;
-
-    if (gp_IsNotArc(e))
-        return NOTOK;
-
-    u = gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, e));
-    v = gp_GetNeighbor(theGraph, e);
-
-    eBefore = gp_GetNextArc(theGraph, e);
-    sp_Push(theGraph->theStack, e);
-    gp_HideEdge(theGraph, e);
-
-    return gp_IdentifyVertices(theGraph, u, v, eBefore);
-}
-
-/********************************************************************
- gp_IdentifyVertices()
-
- Identifies vertex v with vertex u by transferring all adjacencies
- of v to u.  Any duplicate edges are removed as described below.
- The non-duplicate edges of v are added to the adjacency list of u
- without disturbing their relative order, and they are added before
- the edge record eBefore in u's list. If eBefore is NIL, then the
- edges are simply appended to u's list.
-
- If u and v are adjacent, then gp_HideEdge() is invoked to remove
- the edge e=(u,v). Then, the edges of v that indicate neighbors of
- u are also hidden.  This is done by setting the visited flags of
- u's neighbors, then traversing the adjacency list of v.  For each
- visited neighbor of v, the edge is hidden because it would duplicate
- an adjacency already expressed in u's list. Finally, the remaining
- edges of v are moved to u's list, and each twin arc is adjusted
- to indicate u as a neighbor rather than v.
-
- This routine assumes that the visited flags are clear beforehand,
- and visited flag settings made herein are cleared before returning.
-
- The following are pushed, in order, onto the graph's built-in stack:
- 1) an integer for each hidden edge
- 2) the stack size before any hidden edges were pushed
- 3) six integers that indicate u, v and the edges moved from v to u
-
- An algorithm that identifies a series of vertices, either through
- directly calling this method or via gp_ContractEdge(), can unwind
- the identifications using gp_RestoreIdentifications(), which
- invokes gp_RestoreVertex() repeatedly.
-
- Returns OK on success, NOTOK on internal failure
- ********************************************************************/
-
-int gp_IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
-{
-    return theGraph->functions.fpIdentifyVertices(theGraph, u, v, eBefore);
-}
-
-int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
-{
-    int e = gp_GetNeighborEdgeRecord(theGraph, u, v);
-    int hiddenEdgeStackBottom, eBeforePred;
-
-    // If the vertices are adjacent, then the identification is
-    // essentially an edge contraction with a bit of fixup.
-    if (gp_IsArc(e))
-    {
-        int result = gp_ContractEdge(theGraph, e);
-
-        // The edge contraction operation pushes one hidden edge then
-        // recursively calls this method. This method then pushes K
-        // hidden edges then an integer indicating where the top of
-        // stack was before the edges were hidden. That integer
-        // indicator must be decremented, thereby incrementing the
-        // number of hidden edges to K+1.
-        // After pushing the K hidden edges and the stackBottom of
-        // the hidden edges, the recursive call to this method pushes
-        // six more integers to indicate edges that were moved from
-        // v to u, so the "hidden edges stackBottom" is in the next
-        // position down.
-        int hiddenEdgesStackBottomIndex = sp_GetCurrentSize(theGraph->theStack) - 7;
-        int hiddenEdgesStackBottomValue = sp_Get(theGraph->theStack, hiddenEdgesStackBottomIndex);
-
-        sp_Set(theGraph->theStack, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue - 1);
-
-        return result;
-    }
-
-    // Now, u and v are not adjacent. Before we do any edge hiding or
-    // moving, we record the current stack size, as this is the
-    // stackBottom for the edges that will be hidden next.
-    hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    // Mark as visited all neighbors of u
-    e = gp_GetFirstArc(theGraph, u);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e)))
-            return NOTOK;
-
-        gp_SetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // For each edge record of v, if the neighbor is visited, then
-    // push and hide the edge.
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e)))
-        {
-            sp_Push(theGraph->theStack, e);
-            gp_HideEdge(theGraph, e);
-        }
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // Mark as unvisited all neighbors of u
-    e = gp_GetFirstArc(theGraph, u);
-    while (gp_IsArc(e))
-    {
-        gp_ClearVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // Push the hiddenEdgeStackBottom as a record of how many hidden
-    // edges were pushed (also, see above for Contract Edge adjustment)
-    sp_Push(theGraph->theStack, hiddenEdgeStackBottom);
-
-    // Moving v's adjacency list to u is aided by knowing the predecessor
-    // of u's eBefore (the edge record in u's list before which the
-    // edge records of v will be added).
-    eBeforePred = gp_IsArc(eBefore)
-                      ? gp_GetPrevArc(theGraph, eBefore)
-                      : gp_GetLastArc(theGraph, u);
-
-    // Turns out we only need to record six integers related to the edges
-    // being moved in order to easily restore them later.
-    sp_Push(theGraph->theStack, eBefore);
-    sp_Push(theGraph->theStack, gp_GetLastArc(theGraph, v));
-    sp_Push(theGraph->theStack, gp_GetFirstArc(theGraph, v));
-    sp_Push(theGraph->theStack, eBeforePred);
-    sp_Push(theGraph->theStack, u);
-    sp_Push(theGraph->theStack, v);
-
-    // For the remaining edge records of v, reassign the 'v' member
-    //    of each twin arc to indicate u rather than v.
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        gp_SetNeighbor(theGraph, gp_GetTwinArc(theGraph, e), u);
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // If v has any edges left after hiding edges, indicating common neighbors with u, ...
-    if (gp_IsArc(gp_GetFirstArc(theGraph, v)))
-    {
-        // Then perform the list union of v into u between eBeforePred and eBefore
-        if (gp_IsArc(eBeforePred))
-        {
-            if (gp_IsArc(gp_GetFirstArc(theGraph, v)))
-            {
-                gp_SetNextArc(theGraph, eBeforePred, gp_GetFirstArc(theGraph, v));
-                gp_SetPrevArc(theGraph, gp_GetFirstArc(theGraph, v), eBeforePred);
-            }
-        }
-        else
-        {
-            gp_SetFirstArc(theGraph, u, gp_GetFirstArc(theGraph, v));
-        }
-
-        if (gp_IsArc(eBefore))
-        {
-            if (gp_IsArc(gp_GetLastArc(theGraph, v)))
-            {
-                gp_SetNextArc(theGraph, gp_GetLastArc(theGraph, v), eBefore);
-                gp_SetPrevArc(theGraph, eBefore, gp_GetLastArc(theGraph, v));
-            }
-        }
-        else
-        {
-            gp_SetLastArc(theGraph, u, gp_GetLastArc(theGraph, v));
-        }
-
-        gp_SetFirstArc(theGraph, v, NIL);
-        gp_SetLastArc(theGraph, v, NIL);
-    }
-
-    return OK;
-}
-
-/********************************************************************
- gp_RestoreVertex()
-
- This method assumes the built-in graph stack contents are the result
- of vertex hide, vertex identify and edge contract operations.
- This content consists of segments of integers, each segment
- corresponding to the removal of a vertex during an edge contraction
- or vertex identification in which a vertex v was merged into a
- vertex u.  The segment contains two blocks of integers.
- The first block contains information about u, v, the edge records
- in v's adjacency list that were added to u, and where in u's
- adjacency list they were added.  The second block of integers
- contains a list of edges incident to v that were hidden from the
- graph because they were incident to neighbors of v that were also
- neighbors of u (so they would have produced duplicate edges had
- they been left in v's adjacency list when it was merged with u's
- adjacency list).
-
- This method pops the first block of the segment off the stack and
- uses the information to help remove v's adjacency list from u and
- restore it into v.  Then, the second block is removed from the
- stack, and each indicated edge is restored from the hidden state.
-
- It is anticipated that this method will be overloaded by extension
- algorithms to perform some processing as each vertex is restored.
- Before restoration, the topmost segment has the following structure:
-
- ... FHE ... LHE HESB e_u_succ e_v_last e_v_first e_u_pred u v
-      ^------------|
-
- FHE = First hidden edge
- LHE = Last hidden edge
- HESB = Hidden edge stack bottom
- e_u_succ, e_u_pred = The edges of u between which the edges of v
-                      were inserted. NIL can appear if the edges of v
-                      were added to the beginning or end of u's list
- e_v_first, e_v_last = The first and last edges of v's list, once
-                       the hidden edges were removed
-
- Returns OK for success, NOTOK for internal failure.
- ********************************************************************/
-
-int gp_RestoreVertex(graphP theGraph)
-{
-    return theGraph->functions.fpRestoreVertex(theGraph);
-}
-
-int _RestoreVertex(graphP theGraph)
-{
-    int u, v, e_u_succ, e_u_pred, e_v_first, e_v_last, HESB, e;
-
-    if (sp_GetCurrentSize(theGraph->theStack) < 7)
-        return NOTOK;
-
-    sp_Pop(theGraph->theStack, v);
-    sp_Pop(theGraph->theStack, u);
-    sp_Pop(theGraph->theStack, e_u_pred);
-    sp_Pop(theGraph->theStack, e_v_first);
-    sp_Pop(theGraph->theStack, e_v_last);
-    sp_Pop(theGraph->theStack, e_u_succ);
-
-    // If u is not NIL, then vertex v was identified with u.  Otherwise, v was
-    // simply hidden, so we skip to restoring the hidden edges.
-    if (gp_IsVertex(u))
-    {
-        // Remove v's adjacency list from u, including accounting for degree 0 case
-        if (gp_IsArc(e_u_pred))
-        {
-            gp_SetNextArc(theGraph, e_u_pred, e_u_succ);
-            // If the successor edge exists, link it to the predecessor,
-            // otherwise the predecessor is the new last arc
-            if (gp_IsArc(e_u_succ))
-                gp_SetPrevArc(theGraph, e_u_succ, e_u_pred);
-            else
-                gp_SetLastArc(theGraph, u, e_u_pred);
-        }
-        else if (gp_IsArc(e_u_succ))
-        {
-            // The successor arc exists, but not the predecessor,
-            // so the successor is the new first arc
-            gp_SetPrevArc(theGraph, e_u_succ, NIL);
-            gp_SetFirstArc(theGraph, u, e_u_succ);
-        }
-        else
-        {
-            // Just in case u was degree zero
-            gp_SetFirstArc(theGraph, u, NIL);
-            gp_SetLastArc(theGraph, u, NIL);
-        }
-
-        // Place v's adjacency list into v, including accounting for degree 0 case
-        gp_SetFirstArc(theGraph, v, e_v_first);
-        gp_SetLastArc(theGraph, v, e_v_last);
-        if (gp_IsArc(e_v_first))
-            gp_SetPrevArc(theGraph, e_v_first, NIL);
-        if (gp_IsArc(e_v_last))
-            gp_SetPrevArc(theGraph, e_v_last, NIL);
-
-        // For each edge record restored to v's adjacency list, reassign the 'v' member
-        //    of each twin arc to indicate v rather than u.
-        e = e_v_first;
-        while (gp_IsArc(e))
-        {
-            gp_SetNeighbor(theGraph, gp_GetTwinArc(theGraph, e), v);
-            e = (e == e_v_last ? NIL : gp_GetNextArc(theGraph, e));
-        }
-    }
-
-    // Restore the hidden edges of v, if any
-    sp_Pop(theGraph->theStack, HESB);
-    return _RestoreHiddenEdges(theGraph, HESB);
-}
-
-/********************************************************************
- gp_RestoreVertices()
-
- This method assumes the built-in graph stack has content consistent
- with numerous vertex identification or edge contraction operations.
- This method unwinds the stack, moving edges back to their original
- vertex owners and restoring hidden edges.
- This method is a simple iterator that invokes gp_RestoreVertex()
- until the stack is empty, so extension algorithms are more likely
- to overload gp_RestoreVertex().
-
- Returns OK for success, NOTOK for internal failure.
- ********************************************************************/
-
-int gp_RestoreVertices(graphP theGraph)
-{
-    while (sp_NonEmpty(theGraph->theStack))
-    {
-        if (gp_RestoreVertex(theGraph) != OK)
-            return NOTOK;
-    }
-
-    return OK;
-}
-
-/****************************************************************************
- _ComputeArcType()
- This is just a little helper function that automates a sequence of decisions
- that has to be made a number of times.
- An edge record is being added to the adjacency list of a; it indicates that
- b is a neighbor.  The edgeType can be either 'tree' (EDGE_TYPE_PARENT or
- EDGE_TYPE_CHILD) or 'cycle' (EDGE_TYPE_BACK or EDGE_TYPE_FORWARD).
- If a or b is a root copy, we translate to the non-virtual counterpart,
- then wedetermine which has the lesser DFI.  If a has the lower DFI then the
- edge record is a tree edge to a child (EDGE_TYPE_CHILD) if edgeType indicates
- a tree edge.  If edgeType indicates a cycle edge, then it is a forward cycle
- edge (EDGE_TYPE_FORWARD) to a descendant.
- Symmetric conditions define the types for a > b.
- ****************************************************************************/
-
-int _ComputeArcType(graphP theGraph, int a, int b, int edgeType)
-{
-    a = gp_IsVirtualVertex(theGraph, a) ? gp_GetPrimaryVertexFromRoot(theGraph, a) : a;
-    b = gp_IsVirtualVertex(theGraph, b) ? gp_GetPrimaryVertexFromRoot(theGraph, b) : b;
-
-    if (a < b)
-        return edgeType == EDGE_TYPE_PARENT || edgeType == EDGE_TYPE_CHILD ? EDGE_TYPE_CHILD : EDGE_TYPE_FORWARD;
-
-    return edgeType == EDGE_TYPE_PARENT || edgeType == EDGE_TYPE_CHILD ? EDGE_TYPE_PARENT : EDGE_TYPE_BACK;
-}
-
-/****************************************************************************
- _SetEdgeType()
- When we are restoring an edge, we must restore its type (tree edge or cycle edge).
- We can deduce what the type was based on other information in the graph. Each
- arc of the edge gets the appropriate type setting (parent/child or back/forward).
- This method runs in constant time plus the degree of vertex u, or constant
- time if u is known to have a degree bound by a constant.
- ****************************************************************************/
-
-int _SetEdgeType(graphP theGraph, int u, int v)
-{
-    int e, eTwin, u_orig, v_orig;
-
-    // If u or v is a virtual vertex (a root copy), then get the non-virtual counterpart.
-    u_orig = gp_IsVirtualVertex(theGraph, u) ? (gp_GetPrimaryVertexFromRoot(theGraph, u)) : u;
-    v_orig = gp_IsVirtualVertex(theGraph, v) ? (gp_GetPrimaryVertexFromRoot(theGraph, v)) : v;
-
-    // Get the edge for which we will set the type
-
-    e = gp_GetNeighborEdgeRecord(theGraph, u, v);
-    eTwin = gp_GetTwinArc(theGraph, e);
-
-    // If u_orig is the parent of v_orig, or vice versa, then the edge is a tree edge
-
-    if (gp_GetVertexParent(theGraph, v_orig) == u_orig ||
-        gp_GetVertexParent(theGraph, u_orig) == v_orig)
-    {
-        if (u_orig > v_orig)
-        {
-            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_PARENT);
-            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_CHILD);
-        }
-        else
-        {
-            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_PARENT);
-            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_CHILD);
-        }
-    }
-
-    // Otherwise it is a back edge
-
-    else
-    {
-        if (u_orig > v_orig)
-        {
-            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_BACK);
-            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_FORWARD);
-        }
-        else
-        {
-            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_BACK);
-            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_FORWARD);
-        }
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _DeleteUnmarkedEdgesInBicomp()
-
- This function deletes from a given biconnected component all edges
- whose visited member is zero.
-
- The stack is used but preserved. In debug mode, NOTOK can result if
- there is a stack overflow. This method pushes at most one integer
- per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure
- ********************************************************************/
-
-int _DeleteUnmarkedEdgesInBicomp(graphP theGraph, int BicompRoot)
-{
-    int V, e;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, V);
-
-        e = gp_GetFirstArc(theGraph, V);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetEdgeVisited(theGraph, e) ? gp_GetNextArc(theGraph, e) : gp_DeleteEdge(theGraph, e, 0);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearInvertedFlagsInBicomp()
-
- This function clears the inverted flag markers on any edges in a
- given biconnected component.
-
- The stack is used but preserved. In debug mode, NOTOK can result if
- there is a stack overflow. This method pushes at most one integer
- per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure
- ********************************************************************/
-
-int _ClearInvertedFlagsInBicomp(graphP theGraph, int BicompRoot)
-{
-    int V, e;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, V);
-
-        e = gp_GetFirstArc(theGraph, V);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-            {
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-                gp_ClearEdgeFlagInverted(theGraph, e);
-            }
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _GetBicompSize()
-
- Determine the number of vertices in the bicomp.
-
- The stack is used but preserved. In debug mode, NOTOK can result if
- there is a stack overflow. This method pushes at most one integer
- per vertex in the bicomp.
-
- Returns a positive number on success, NOTOK on implementation failure
- ********************************************************************/
-
-int _GetBicompSize(graphP theGraph, int BicompRoot)
-{
-    int V, e;
-    int theSize = 0;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, V);
-        theSize++;
-        e = gp_GetFirstArc(theGraph, V);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return theSize;
-}
-
-/********************************************************************
- debugNOTOK()
- This function provides a non-void wrapper for exit().
- This is useful for debugging as it allows compilation of an exit
- command in places where NOTOK is returned.
- In exhaustive testing, we want to bail on the first NOTOK that occurs.
- Comment out the exit() call to get a stack trace.
- ********************************************************************/
-
-int debugNOTOK(void)
-{
-    // exit(-1);
-    return 0; // NOTOK is normally defined to be zero
-}
+/*
+Copyright (c) 1997-2022, John M. Boyer
+All rights reserved.
+See the LICENSE.TXT file for licensing information.
+*/
+
+#include <stdlib.h>
+
+#include "graphStructures.h"
+#include "graph.h"
+
+/* Imported functions for FUNCTION POINTERS */
+
+extern int _EmbeddingInitialize(graphP theGraph);
+extern int _SortVertices(graphP theGraph);
+extern void _EmbedBackEdgeToDescendant(graphP theGraph, int RootSide, int RootVertex, int W, int WPrevLink);
+extern void _WalkUp(graphP theGraph, int v, int e);
+extern int _WalkDown(graphP theGraph, int v, int RootVertex);
+extern int _MergeBicomps(graphP theGraph, int v, int RootVertex, int W, int WPrevLink);
+extern void _MergeVertex(graphP theGraph, int W, int WPrevLink, int R);
+extern int _HandleBlockedBicomp(graphP theGraph, int v, int RootVertex, int R);
+extern int _HandleInactiveVertex(graphP theGraph, int BicompRoot, int *pW, int *pWPrevLink);
+extern int _MarkDFSPath(graphP theGraph, int ancestor, int descendant);
+extern int _EmbedPostprocess(graphP theGraph, int v, int edgeEmbeddingResult);
+extern int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph);
+extern int _CheckObstructionIntegrity(graphP theGraph, graphP origGraph);
+extern int _ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize);
+extern int _WritePostprocess(graphP theGraph, void **pExtraData, long *pExtraDataSize);
+
+/* Internal util functions for FUNCTION POINTERS */
+
+int _HideVertex(graphP theGraph, int vertex);
+void _HideEdge(graphP theGraph, int arcPos);
+void _RestoreEdge(graphP theGraph, int arcPos);
+int _ContractEdge(graphP theGraph, int e);
+int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore);
+int _RestoreVertex(graphP theGraph);
+
+/********************************************************************
+ Private functions, except exported within library
+ ********************************************************************/
+
+void _InitIsolatorContext(graphP theGraph);
+void _ClearVisitedFlags(graphP theGraph);
+void _ClearVertexVisitedFlags(graphP theGraph, int);
+void _ClearEdgeVisitedFlags(graphP theGraph);
+int _ClearVisitedFlagsInBicomp(graphP theGraph, int BicompRoot);
+int _ClearVisitedFlagsInOtherBicomps(graphP theGraph, int BicompRoot);
+void _ClearVisitedFlagsInUnembeddedEdges(graphP theGraph);
+int _FillVertexVisitedInfoInBicomp(graphP theGraph, int BicompRoot, int FillValue);
+int _ClearVertexTypeInBicomp(graphP theGraph, int BicompRoot);
+
+int _HideInternalEdges(graphP theGraph, int vertex);
+int _RestoreInternalEdges(graphP theGraph, int stackBottom);
+int _RestoreHiddenEdges(graphP theGraph, int stackBottom);
+
+int _GetBicompSize(graphP theGraph, int BicompRoot);
+int _DeleteUnmarkedEdgesInBicomp(graphP theGraph, int BicompRoot);
+int _ClearInvertedFlagsInBicomp(graphP theGraph, int BicompRoot);
+
+void _InitFunctionTable(graphP theGraph);
+
+/********************************************************************
+ Private functions.
+ ********************************************************************/
+
+void _InitVertices(graphP theGraph);
+void _InitEdges(graphP theGraph);
+
+void _ClearGraph(graphP theGraph);
+
+int _GetRandomNumber(int NMin, int NMax);
+
+/* Private functions for which there are FUNCTION POINTERS */
+
+void _InitVertexRec(graphP theGraph, int v);
+void _InitVertexInfo(graphP theGraph, int v);
+void _InitEdgeRec(graphP theGraph, int e);
+
+int _InitGraph(graphP theGraph, int N);
+void _ReinitializeGraph(graphP theGraph);
+int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity);
+
+/********************************************************************
+ gp_New()
+ Constructor for graph object.
+ Can create two graphs if restricted to no dynamic memory.
+ ********************************************************************/
+
+graphP gp_New(void)
+{
+    graphP theGraph = (graphP)malloc(sizeof(baseGraphStructure));
+
+    if (theGraph != NULL)
+    {
+        theGraph->E = NULL;
+        theGraph->V = NULL;
+        theGraph->VI = NULL;
+
+        theGraph->BicompRootLists = NULL;
+        theGraph->sortedDFSChildLists = NULL;
+        theGraph->theStack = NULL;
+
+        theGraph->extFace = NULL;
+
+        theGraph->edgeHoles = NULL;
+
+        theGraph->extensions = NULL;
+
+        _InitFunctionTable(theGraph);
+
+        _ClearGraph(theGraph);
+    }
+
+    return theGraph;
+}
+
+/********************************************************************
+ _InitFunctionTable()
+
+ If you add functions to the function table, then they must be
+ initialized here, but you must also add the new function pointer
+ to the definition of the graphFunctionTable in graphFunctionTable.h
+
+ Function headers for the functions used to initialize the table are
+ classified at the top of this file as either imported from other
+ compilation units (extern) or private to this compilation unit.
+ Search for FUNCTION POINTERS in this file to see where to add the
+ function header.
+ ********************************************************************/
+
+void _InitFunctionTable(graphP theGraph)
+{
+    theGraph->functions.fpEmbeddingInitialize = _EmbeddingInitialize;
+    theGraph->functions.fpEmbedBackEdgeToDescendant = _EmbedBackEdgeToDescendant;
+    theGraph->functions.fpWalkUp = _WalkUp;
+    theGraph->functions.fpWalkDown = _WalkDown;
+    theGraph->functions.fpMergeBicomps = _MergeBicomps;
+    theGraph->functions.fpMergeVertex = _MergeVertex;
+    theGraph->functions.fpHandleBlockedBicomp = _HandleBlockedBicomp;
+    theGraph->functions.fpHandleInactiveVertex = _HandleInactiveVertex;
+    theGraph->functions.fpEmbedPostprocess = _EmbedPostprocess;
+    theGraph->functions.fpMarkDFSPath = _MarkDFSPath;
+    theGraph->functions.fpCheckEmbeddingIntegrity = _CheckEmbeddingIntegrity;
+    theGraph->functions.fpCheckObstructionIntegrity = _CheckObstructionIntegrity;
+
+    theGraph->functions.fpInitGraph = _InitGraph;
+    theGraph->functions.fpReinitializeGraph = _ReinitializeGraph;
+    theGraph->functions.fpEnsureArcCapacity = _EnsureArcCapacity;
+    theGraph->functions.fpSortVertices = _SortVertices;
+
+    theGraph->functions.fpReadPostprocess = _ReadPostprocess;
+    theGraph->functions.fpWritePostprocess = _WritePostprocess;
+
+    theGraph->functions.fpHideEdge = _HideEdge;
+    theGraph->functions.fpRestoreEdge = _RestoreEdge;
+    theGraph->functions.fpHideVertex = _HideVertex;
+    theGraph->functions.fpRestoreVertex = _RestoreVertex;
+    theGraph->functions.fpContractEdge = _ContractEdge;
+    theGraph->functions.fpIdentifyVertices = _IdentifyVertices;
+}
+
+/********************************************************************
+ gp_InitGraph()
+ Allocates memory for vertex and edge records now that N is known.
+ The arcCapacity is set to (2 * DEFAULT_EDGE_LIMIT * N) unless it
+     has already been set by gp_EnsureArcCapacity()
+
+ For V, we need 2N vertex records, N for vertices and N for virtual vertices (root copies).
+
+ For VI, we need N vertexInfo records.
+
+ For E, we need arcCapacity edge records.
+
+ The BicompRootLists and sortedDFSChildLists are of size N and start out empty.
+
+ The stack, initially empty, is made big enough for a pair of integers
+     per edge record (2 * arcCapacity), or 6N integers if the arcCapacity
+     was set below the default value.
+
+ The edgeHoles stack, initially empty, is set to arcCapacity / 2,
+     which is big enough to push every edge (to indicate an edge
+     you only need to indicate one of its two edge records)
+
+  Returns OK on success, NOTOK on all failures.
+          On NOTOK, graph extensions are freed so that the graph is
+          returned to the post-condition of gp_New().
+ ********************************************************************/
+
+int gp_InitGraph(graphP theGraph, int N)
+{
+    // valid params check
+    if (theGraph == NULL || N <= 0)
+        return NOTOK;
+
+    // Should not call init a second time; use reinit
+    if (theGraph->N)
+        return NOTOK;
+
+    return theGraph->functions.fpInitGraph(theGraph, N);
+}
+
+int _InitGraph(graphP theGraph, int N)
+{
+    int Vsize, VIsize, Esize, stackSize;
+
+    // Compute the vertex and edge capacities of the graph
+    theGraph->N = N;
+    theGraph->NV = N;
+    theGraph->arcCapacity = theGraph->arcCapacity > 0 ? theGraph->arcCapacity : 2 * DEFAULT_EDGE_LIMIT * N;
+    VIsize = gp_PrimaryVertexIndexBound(theGraph);
+    Vsize = gp_VertexIndexBound(theGraph);
+    Esize = gp_EdgeIndexBound(theGraph);
+
+    // Stack size is 2 integers per arc, or 6 integers per vertex in case of small arcCapacity
+    stackSize = 2 * Esize;
+    stackSize = stackSize < 6 * N ? 6 * N : stackSize;
+
+    // Allocate memory as described above
+    if ((theGraph->V = (vertexRecP)calloc(Vsize, sizeof(vertexRec))) == NULL ||
+        (theGraph->VI = (vertexInfoP)calloc(VIsize, sizeof(vertexInfo))) == NULL ||
+        (theGraph->E = (edgeRecP)calloc(Esize, sizeof(edgeRec))) == NULL ||
+        (theGraph->BicompRootLists = LCNew(VIsize)) == NULL ||
+        (theGraph->sortedDFSChildLists = LCNew(VIsize)) == NULL ||
+        (theGraph->theStack = sp_New(stackSize)) == NULL ||
+        (theGraph->extFace = (extFaceLinkRecP)calloc(Vsize, sizeof(extFaceLinkRec))) == NULL ||
+        (theGraph->edgeHoles = sp_New(Esize / 2)) == NULL ||
+        0)
+    {
+        _ClearGraph(theGraph);
+        return NOTOK;
+    }
+
+    // Initialize memory
+    _InitVertices(theGraph);
+    _InitEdges(theGraph);
+    _InitIsolatorContext(theGraph);
+
+    return OK;
+}
+
+/********************************************************************
+ _InitVertices()
+ ********************************************************************/
+void _InitVertices(graphP theGraph)
+{
+#if NIL == 0
+    memset(theGraph->V, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(vertexRec));
+    memset(theGraph->VI, NIL_CHAR, gp_PrimaryVertexIndexBound(theGraph) * sizeof(vertexInfo));
+    memset(theGraph->extFace, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(extFaceLinkRec));
+#elif NIL == -1
+    int v;
+
+    memset(theGraph->V, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(vertexRec));
+    memset(theGraph->VI, NIL_CHAR, gp_PrimaryVertexIndexBound(theGraph) * sizeof(vertexInfo));
+    memset(theGraph->extFace, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(extFaceLinkRec));
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        gp_InitVertexFlags(theGraph, v);
+
+#else
+    int v;
+
+    // Initialize primary vertices
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        _InitVertexRec(theGraph, v);
+        _InitVertexInfo(theGraph, v);
+        gp_SetExtFaceVertex(theGraph, v, 0, NIL);
+        gp_SetExtFaceVertex(theGraph, v, 1, NIL);
+    }
+
+    // Initialize virtual vertices
+    for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
+    {
+        _InitVertexRec(theGraph, v);
+        gp_SetExtFaceVertex(theGraph, v, 0, NIL);
+        gp_SetExtFaceVertex(theGraph, v, 1, NIL);
+    }
+#endif
+}
+
+/********************************************************************
+ _InitEdges()
+ ********************************************************************/
+void _InitEdges(graphP theGraph)
+{
+#if NIL == 0
+    memset(theGraph->E, NIL_CHAR, gp_EdgeIndexBound(theGraph) * sizeof(edgeRec));
+#elif NIL == -1
+    int e, Esize;
+
+    memset(theGraph->E, NIL_CHAR, gp_EdgeIndexBound(theGraph) * sizeof(edgeRec));
+
+    Esize = gp_EdgeIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
+        gp_InitEdgeFlags(theGraph, e);
+
+#else
+    int e, Esize;
+
+    Esize = gp_EdgeIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
+        _InitEdgeRec(theGraph, e);
+#endif
+}
+
+/********************************************************************
+ gp_ReinitializeGraph()
+ Reinitializes a graph, restoring it to the state it was in immediately
+ after gp_InitGraph() processed it.
+ ********************************************************************/
+
+void gp_ReinitializeGraph(graphP theGraph)
+{
+    if (theGraph == NULL || theGraph->N <= 0)
+        return;
+
+    theGraph->functions.fpReinitializeGraph(theGraph);
+}
+
+void _ReinitializeGraph(graphP theGraph)
+{
+    theGraph->M = 0;
+    theGraph->internalFlags = theGraph->embedFlags = 0;
+
+    _InitVertices(theGraph);
+    _InitEdges(theGraph);
+    _InitIsolatorContext(theGraph);
+
+    LCReset(theGraph->BicompRootLists);
+    LCReset(theGraph->sortedDFSChildLists);
+    sp_ClearStack(theGraph->theStack);
+    sp_ClearStack(theGraph->edgeHoles);
+}
+
+/********************************************************************
+ gp_GetArcCapacity()
+ Returns the arcCapacity of theGraph, which is twice the maximum
+ number of edges that can be added to the theGraph.
+ ********************************************************************/
+int gp_GetArcCapacity(graphP theGraph)
+{
+    return theGraph->arcCapacity;
+}
+
+/********************************************************************
+ gp_EnsureArcCapacity()
+ This method ensures that theGraph is or will be capable of storing
+ at least requiredArcCapacity edge records.  Two edge records are
+ needed per edge.
+
+ This method is most performant when invoked immediately after
+ gp_New(), since it must only set the arcCapacity and then let
+ normal initialization to occur through gp_InitGraph().
+
+ This method is also a constant time operation if the graph already
+ has at least the requiredArcCapacity, since it will return OK
+ without making any structural changes.
+
+ This method is generally more performant if it is invoked before
+ attaching extensions to the graph.  Some extensions associate
+ parallel data with edge records, which is a faster operation if
+ the associated data is created and initialized only after the
+ proper arcCapacity is specified.
+
+ If the graph has been initialized and has a lower arc capacity,
+ then the array of edge records is reallocated to satisfy the
+ requiredArcCapacity.  The new array contains the old edges and
+ edge holes at the same locations, and all newly created edge records
+ are initialized.
+
+ Also, if the arc capacity must be increased, then the
+ arcCapacity member of theGraph is changed and both
+ theStack and edgeHoles are expanded (since the sizes of both
+ are based on the arc capacity).
+
+ Extensions that add to data associated with edges must overload
+ this method to ensure capacity in the parallel extension data
+ structures.  An extension can return NOTOK if it does not
+ support arc capacity expansion.  The extension function will
+ not be called if arcCapacity is expanded before the graph is
+ initialized, and it is assumed that extensions will allocate
+ parallel data structures according to the arc capacity.
+
+ If an extension supports arc capacity expansion, then higher
+ performance can be obtained by using the method of unhooking
+ the initializers for individual edge records before invoking
+ the superclass version of fpEnsureArcCapacity().  Ideally,
+ application authors should ensure the proper arc capacity before
+ attaching extensions to achieve better performance.
+
+ Returns NOTOK on failure to reallocate the edge record array to
+         satisfy the requiredArcCapacity, or if the requested
+         capacity is odd
+         OK if reallocation is not required or if reallocation succeeds
+ ********************************************************************/
+int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
+{
+    if (theGraph == NULL || requiredArcCapacity <= 0)
+        return NOTOK;
+
+    // Train callers to only ask for an even number of arcs, since
+    // two are required per edge or directed edge.
+    if (requiredArcCapacity & 1)
+        return NOTOK;
+
+    if (theGraph->arcCapacity >= requiredArcCapacity)
+        return OK;
+
+    // In the special case where gp_InitGraph() has not yet been called,
+    // we can simply set the higher arcCapacity since normal initialization
+    // will then allocate the correct number of edge records.
+    if (theGraph->N == 0)
+    {
+        theGraph->arcCapacity = requiredArcCapacity;
+        return OK;
+    }
+
+    // Try to expand the arc capacity
+    return theGraph->functions.fpEnsureArcCapacity(theGraph, requiredArcCapacity);
+}
+
+int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
+{
+    stackP newStack;
+    int e, Esize = gp_EdgeIndexBound(theGraph),
+           newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity;
+
+    // If the new size is less than or equal to the old size, then
+    // the graph already has the required arc capacity
+    if (newEsize <= Esize)
+        return OK;
+
+    // Expand theStack
+    if (sp_GetCapacity(theGraph->theStack) < 2 * requiredArcCapacity)
+    {
+        int stackSize = 2 * requiredArcCapacity;
+
+        if (stackSize < 6 * theGraph->N)
+        {
+            // NOTE: Since this routine only makes the stack bigger, this
+            //       calculation is not needed here because we already ensured
+            //       we had stack capacity of the greater of 2*arcs and 6*N
+            //       But we do it for clarity and consistency (e.g. so this rule
+            //       is not forgotten whenever a "SetArcCapacity" method or a
+            //       "reduceArcCapacity" method is added)
+            stackSize = 6 * theGraph->N;
+        }
+
+        if ((newStack = sp_New(stackSize)) == NULL)
+            return NOTOK;
+
+        sp_CopyContent(newStack, theGraph->theStack);
+        sp_Free(&theGraph->theStack);
+        theGraph->theStack = newStack;
+    }
+
+    // Expand edgeHoles
+    if ((newStack = sp_New(requiredArcCapacity / 2)) == NULL)
+    {
+        return NOTOK;
+    }
+
+    sp_CopyContent(newStack, theGraph->edgeHoles);
+    sp_Free(&theGraph->edgeHoles);
+    theGraph->edgeHoles = newStack;
+
+    // Reallocate the edgeRec array to the new size,
+    theGraph->E = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
+    if (theGraph->E == NULL)
+        return NOTOK;
+
+    // Initialize the new edge records
+    for (e = Esize; e < newEsize; e++)
+        _InitEdgeRec(theGraph, e);
+
+    // The new arcCapacity has been successfully achieved
+    theGraph->arcCapacity = requiredArcCapacity;
+    return OK;
+}
+
+/********************************************************************
+ _InitVertexRec()
+ Sets the fields in a single vertex record to initial values
+ ********************************************************************/
+
+void _InitVertexRec(graphP theGraph, int v)
+{
+    gp_SetFirstArc(theGraph, v, NIL);
+    gp_SetLastArc(theGraph, v, NIL);
+    gp_SetVertexIndex(theGraph, v, NIL);
+    gp_InitVertexFlags(theGraph, v);
+}
+
+/********************************************************************
+ _InitVertexInfo()
+ Sets the fields in a single vertex record to initial values
+ ********************************************************************/
+
+void _InitVertexInfo(graphP theGraph, int v)
+{
+    gp_SetVertexParent(theGraph, v, NIL);
+    gp_SetVertexLeastAncestor(theGraph, v, NIL);
+    gp_SetVertexLowpoint(theGraph, v, NIL);
+
+    gp_SetVertexVisitedInfo(theGraph, v, NIL);
+    gp_SetVertexPertinentEdge(theGraph, v, NIL);
+    gp_SetVertexPertinentRootsList(theGraph, v, NIL);
+    gp_SetVertexFuturePertinentChild(theGraph, v, NIL);
+    gp_SetVertexSortedDFSChildList(theGraph, v, NIL);
+    gp_SetVertexFwdArcList(theGraph, v, NIL);
+}
+
+/********************************************************************
+ _InitEdgeRec()
+ Sets the fields in a single edge record structure to initial values
+ ********************************************************************/
+
+void _InitEdgeRec(graphP theGraph, int e)
+{
+    gp_SetNeighbor(theGraph, e, NIL);
+    gp_SetPrevArc(theGraph, e, NIL);
+    gp_SetNextArc(theGraph, e, NIL);
+    gp_InitEdgeFlags(theGraph, e);
+}
+
+/********************************************************************
+ _InitIsolatorContext()
+ ********************************************************************/
+
+void _InitIsolatorContext(graphP theGraph)
+{
+    isolatorContextP IC = &theGraph->IC;
+
+    IC->minorType = 0;
+    IC->v = IC->r = IC->x = IC->y = IC->w = IC->px = IC->py = IC->z =
+        IC->ux = IC->dx = IC->uy = IC->dy = IC->dw = IC->uz = IC->dz = NIL;
+}
+
+/********************************************************************
+ _ClearVisitedFlags()
+ ********************************************************************/
+
+void _ClearVisitedFlags(graphP theGraph)
+{
+    _ClearVertexVisitedFlags(theGraph, TRUE);
+    _ClearEdgeVisitedFlags(theGraph);
+}
+
+/********************************************************************
+ _ClearVertexVisitedFlags()
+ ********************************************************************/
+
+void _ClearVertexVisitedFlags(graphP theGraph, int includeVirtualVertices)
+{
+    int v;
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        gp_ClearVertexVisited(theGraph, v);
+
+    if (includeVirtualVertices)
+        for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
+            gp_ClearVertexVisited(theGraph, v);
+}
+
+/********************************************************************
+ _ClearEdgeVisitedFlags()
+ ********************************************************************/
+
+void _ClearEdgeVisitedFlags(graphP theGraph)
+{
+    int e, EsizeOccupied;
+
+    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
+        gp_ClearEdgeVisited(theGraph, e);
+}
+
+/********************************************************************
+ _ClearVisitedFlagsInBicomp()
+
+ Clears the visited flag of the vertices and arcs in the bicomp rooted
+ by BicompRoot.
+
+ This method uses the stack but preserves whatever may have been
+ on it.  In debug mode, it will return NOTOK if the stack overflows.
+ This method pushes at most one integer per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure.
+ ********************************************************************/
+
+int _ClearVisitedFlagsInBicomp(graphP theGraph, int BicompRoot)
+{
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+    int v, e;
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, v);
+        gp_ClearVertexVisited(theGraph, v);
+
+        e = gp_GetFirstArc(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            gp_ClearEdgeVisited(theGraph, e);
+
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearVisitedFlagsInOtherBicomps()
+ Typically, we want to clear all visited flags in the graph
+ (see _ClearVisitedFlags).  However, in some algorithms this would be
+ too costly, so it is necessary to clear the visited flags only
+ in one bicomp (see _ClearVisitedFlagsInBicomp), then do some processing
+ that sets some of the flags then performs some tests.  If the tests
+ are positive, then we can clear all the visited flags in the
+ other bicomps (the processing may have set the visited flags in the
+ one bicomp in a particular way that we want to retain, so we skip
+ the given bicomp).
+ ********************************************************************/
+
+int _ClearVisitedFlagsInOtherBicomps(graphP theGraph, int BicompRoot)
+{
+    int R;
+
+    for (R = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, R); R++)
+    {
+        if (R != BicompRoot && gp_VirtualVertexInUse(theGraph, R))
+        {
+            if (_ClearVisitedFlagsInBicomp(theGraph, R) != OK)
+                return NOTOK;
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearVisitedFlagsInUnembeddedEdges()
+ Unembedded edges aren't part of any bicomp yet, but it may be
+ necessary to clear their visited flags.
+ ********************************************************************/
+
+void _ClearVisitedFlagsInUnembeddedEdges(graphP theGraph)
+{
+    int v, e;
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        e = gp_GetVertexFwdArcList(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            gp_ClearEdgeVisited(theGraph, e);
+            gp_ClearEdgeVisited(theGraph, gp_GetTwinArc(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+            if (e == gp_GetVertexFwdArcList(theGraph, v))
+                e = NIL;
+        }
+    }
+}
+
+/****************************************************************************
+ _ClearVisitedFlagsOnPath()
+ This method clears the visited flags on the vertices and edges on the path
+ (u, v, ..., w, x) in which all vertices except the endpoints u and x
+ are degree 2.  This method avoids performing more than constant work at the
+ path endpoints u and x, so the total work is on the order of the path length.
+
+ Returns OK on success, NOTOK on internal failure
+ ****************************************************************************/
+
+int _ClearVisitedFlagsOnPath(graphP theGraph, int u, int v, int w, int x)
+{
+    int e, eTwin;
+
+    // We want to exit u from e, but we get eTwin first here in order to avoid
+    // work, in case the degree of u is greater than 2.
+    eTwin = gp_GetNeighborEdgeRecord(theGraph, v, u);
+    if (gp_IsNotArc(eTwin))
+        return NOTOK;
+    e = gp_GetTwinArc(theGraph, eTwin);
+
+    v = u;
+
+    do
+    {
+        // Mark the vertex and the exiting edge
+        gp_ClearVertexVisited(theGraph, v);
+        gp_ClearEdgeVisited(theGraph, e);
+        gp_ClearEdgeVisited(theGraph, eTwin);
+
+        // Get the next vertex
+        v = gp_GetNeighbor(theGraph, e);
+        e = gp_GetNextArcCircular(theGraph, eTwin);
+        eTwin = gp_GetTwinArc(theGraph, e);
+    } while (v != x);
+
+    // Mark the last vertex with 'visited'
+    gp_ClearVertexVisited(theGraph, x);
+
+    return OK;
+}
+
+/****************************************************************************
+ _SetVisitedFlagsOnPath()
+ This method sets the visited flags on the vertices and edges on the path
+ (u, v, ..., w, x) in which all vertices except the endpoints u and x
+ are degree 2.  This method avoids performing more than constant work at the
+ path endpoints u and x, so the total work is on the order of the path length.
+
+ Returns OK on success, NOTOK on internal failure
+ ****************************************************************************/
+
+int _SetVisitedFlagsOnPath(graphP theGraph, int u, int v, int w, int x)
+{
+    int e, eTwin;
+
+    // We want to exit u from e, but we get eTwin first here in order to avoid
+    // work, in case the degree of u is greater than 2.
+    eTwin = gp_GetNeighborEdgeRecord(theGraph, v, u);
+    if (gp_IsNotArc(eTwin))
+        return NOTOK;
+    e = gp_GetTwinArc(theGraph, eTwin);
+
+    v = u;
+
+    do
+    {
+        // Mark the vertex and the exiting edge
+        gp_SetVertexVisited(theGraph, v);
+        gp_SetEdgeVisited(theGraph, e);
+        gp_SetEdgeVisited(theGraph, eTwin);
+
+        // Get the next vertex
+        v = gp_GetNeighbor(theGraph, e);
+        e = gp_GetNextArcCircular(theGraph, eTwin);
+        eTwin = gp_GetTwinArc(theGraph, e);
+    } while (v != x);
+
+    // Mark the last vertex with 'visited'
+    gp_SetVertexVisited(theGraph, x);
+
+    return OK;
+}
+
+/********************************************************************
+ _FillVertexVisitedInfoInBicomp()
+
+ Places the FillValue into the visitedInfo of the non-virtual vertices
+ in the bicomp rooted by BicompRoot.
+
+ This method uses the stack but preserves whatever may have been
+ on it.  In debug mode, it will return NOTOK if the stack overflows.
+ This method pushes at most one integer per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure.
+ ********************************************************************/
+
+int _FillVertexVisitedInfoInBicomp(graphP theGraph, int BicompRoot, int FillValue)
+{
+    int v, e;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, v);
+
+        if (gp_IsNotVirtualVertex(theGraph, v))
+            gp_SetVertexVisitedInfo(theGraph, v, FillValue);
+
+        e = gp_GetFirstArc(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearVertexTypeInBicomp()
+
+ Clears the 'obstruction type' bits for each vertex in the bicomp
+ rooted by BicompRoot.
+
+ This method uses the stack but preserves whatever may have been
+ on it.  In debug mode, it will return NOTOK if the stack overflows.
+ This method pushes at most one integer per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure.
+ ********************************************************************/
+
+int _ClearVertexTypeInBicomp(graphP theGraph, int BicompRoot)
+{
+    int V, e;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, V);
+        gp_ClearVertexObstructionType(theGraph, V);
+
+        e = gp_GetFirstArc(theGraph, V);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearGraph()
+ Clears all memory used by the graph, restoring it to the state it
+ was in immediately after gp_New() created it.
+ ********************************************************************/
+
+void _ClearGraph(graphP theGraph)
+{
+    if (theGraph->V != NULL)
+    {
+        free(theGraph->V);
+        theGraph->V = NULL;
+    }
+    if (theGraph->VI != NULL)
+    {
+        free(theGraph->VI);
+        theGraph->V = NULL;
+    }
+    if (theGraph->E != NULL)
+    {
+        free(theGraph->E);
+        theGraph->E = NULL;
+    }
+
+    theGraph->N = 0;
+    theGraph->NV = 0;
+    theGraph->M = 0;
+    theGraph->arcCapacity = 0;
+    theGraph->internalFlags = 0;
+    theGraph->embedFlags = 0;
+
+    _InitIsolatorContext(theGraph);
+
+    LCFree(&theGraph->BicompRootLists);
+    LCFree(&theGraph->sortedDFSChildLists);
+
+    sp_Free(&theGraph->theStack);
+
+    if (theGraph->extFace != NULL)
+    {
+        free(theGraph->extFace);
+        theGraph->extFace = NULL;
+    }
+
+    sp_Free(&theGraph->edgeHoles);
+
+    gp_FreeExtensions(theGraph);
+}
+
+/********************************************************************
+ gp_Free()
+ Frees G and V, then the graph record.  Then sets your pointer to NULL
+ (so you must pass the address of your pointer).
+ ********************************************************************/
+
+void gp_Free(graphP *pGraph)
+{
+    if (pGraph == NULL)
+        return;
+    if (*pGraph == NULL)
+        return;
+
+    _ClearGraph(*pGraph);
+
+    free(*pGraph);
+    *pGraph = NULL;
+}
+
+/********************************************************************
+ gp_CopyAdjacencyLists()
+ Copies the adjacency lists from the srcGraph to the dstGraph.
+ This method intentionally copies only the adjacency lists of the
+ first N vertices, so the adjacency lists of virtual vertices are
+ excluded (unless the caller temporarily resets the value of N to
+ include NV).
+
+ Returns OK on success, NOTOK on failures, e.g. if the two graphs
+ have different orders N or if the arcCapacity of dstGraph cannot
+ be increased to match that of srcGraph.
+ ********************************************************************/
+int gp_CopyAdjacencyLists(graphP dstGraph, graphP srcGraph)
+{
+    int v, e, EsizeOccupied;
+
+    if (dstGraph == NULL || srcGraph == NULL)
+        return NOTOK;
+
+    if (dstGraph->N != srcGraph->N || dstGraph->N == 0)
+        return NOTOK;
+
+    if (gp_EnsureArcCapacity(dstGraph, srcGraph->arcCapacity) != OK)
+        return NOTOK;
+
+    // Copy the links that hook each owning vertex to its adjacency list
+    for (v = gp_GetFirstVertex(srcGraph); gp_VertexInRange(srcGraph, v); v++)
+    {
+        gp_SetFirstArc(dstGraph, v, gp_GetFirstArc(srcGraph, v));
+        gp_SetLastArc(dstGraph, v, gp_GetLastArc(srcGraph, v));
+    }
+
+    // Copy the adjacency links and neighbor pointers for each arc
+    EsizeOccupied = gp_EdgeInUseIndexBound(srcGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
+    {
+        gp_SetNeighbor(dstGraph, e, gp_GetNeighbor(srcGraph, e));
+        gp_SetNextArc(dstGraph, e, gp_GetNextArc(srcGraph, e));
+        gp_SetPrevArc(dstGraph, e, gp_GetPrevArc(srcGraph, e));
+    }
+
+    // Tell the dstGraph how many edges it now has and where the edge holes are
+    dstGraph->M = srcGraph->M;
+    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
+
+    return OK;
+}
+
+/********************************************************************
+ gp_CopyGraph()
+ Copies the content of the srcGraph into the dstGraph.  The dstGraph
+ must have been previously initialized with the same number of
+ vertices as the srcGraph (e.g. gp_InitGraph(dstGraph, srcGraph->N).
+
+ Returns OK for success, NOTOK for failure.
+ ********************************************************************/
+
+int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
+{
+    int v, e, Esize;
+
+    // Parameter checks
+    if (dstGraph == NULL || srcGraph == NULL)
+    {
+        return NOTOK;
+    }
+
+    // The graphs need to be the same order and initialized
+    if (dstGraph->N != srcGraph->N || dstGraph->N == 0)
+    {
+        return NOTOK;
+    }
+
+    // Ensure dstGraph has the required arc capacity; this expands
+    // dstGraph if needed, but does not contract.  An error is only
+    // returned if the expansion fails.
+    if (gp_EnsureArcCapacity(dstGraph, srcGraph->arcCapacity) != OK)
+    {
+        return NOTOK;
+    }
+
+    // Copy the primary vertices.  Augmentations to vertices created
+    // by extensions are copied below by gp_CopyExtensions()
+    for (v = gp_GetFirstVertex(srcGraph); gp_VertexInRange(srcGraph, v); v++)
+    {
+        gp_CopyVertexRec(dstGraph, v, srcGraph, v);
+        gp_CopyVertexInfo(dstGraph, v, srcGraph, v);
+        gp_SetExtFaceVertex(dstGraph, v, 0, gp_GetExtFaceVertex(srcGraph, v, 0));
+        gp_SetExtFaceVertex(dstGraph, v, 1, gp_GetExtFaceVertex(srcGraph, v, 1));
+    }
+
+    // Copy the virtual vertices.  Augmentations to virtual vertices created
+    // by extensions are copied below by gp_CopyExtensions()
+    for (v = gp_GetFirstVirtualVertex(srcGraph); gp_VirtualVertexInRange(srcGraph, v); v++)
+    {
+        gp_CopyVertexRec(dstGraph, v, srcGraph, v);
+        gp_SetExtFaceVertex(dstGraph, v, 0, gp_GetExtFaceVertex(srcGraph, v, 0));
+        gp_SetExtFaceVertex(dstGraph, v, 1, gp_GetExtFaceVertex(srcGraph, v, 1));
+    }
+
+    // Copy the basic EdgeRec structures.  Augmentations to the edgeRec structure
+    // created by extensions are copied below by gp_CopyExtensions()
+    Esize = gp_EdgeIndexBound(srcGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
+        gp_CopyEdgeRec(dstGraph, e, srcGraph, e);
+
+    // Give the dstGraph the same size and intrinsic properties
+    dstGraph->N = srcGraph->N;
+    dstGraph->NV = srcGraph->NV;
+    dstGraph->M = srcGraph->M;
+    dstGraph->internalFlags = srcGraph->internalFlags;
+    dstGraph->embedFlags = srcGraph->embedFlags;
+
+    dstGraph->IC = srcGraph->IC;
+
+    LCCopy(dstGraph->BicompRootLists, srcGraph->BicompRootLists);
+    LCCopy(dstGraph->sortedDFSChildLists, srcGraph->sortedDFSChildLists);
+    sp_Copy(dstGraph->theStack, srcGraph->theStack);
+    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
+
+    // Copy the set of extensions, which includes copying the
+    // extension data as well as the function overload tables
+    if (gp_CopyExtensions(dstGraph, srcGraph) != OK)
+        return NOTOK;
+
+    // Copy the graph's function table, which has the pointers to
+    // the most recent extension overloads of each function (or
+    // the original function pointer if a particular function has
+    // not been overloaded).
+    // This must be done after copying the extension because the
+    // first step of copying the extensions is to delete the
+    // dstGraph extensions, which clears its function table.
+    // Therefore, no good to assign the srcGraph functions *before*
+    // copying the extensions because the assignment would be wiped out
+    // This, in turn, means that the DupContext function of an extension
+    // *cannot* depend on any extension function overloads; the extension
+    // must directly invoke extension functions only.
+    dstGraph->functions = srcGraph->functions;
+
+    return OK;
+}
+
+/********************************************************************
+ gp_DupGraph()
+ ********************************************************************/
+
+graphP gp_DupGraph(graphP theGraph)
+{
+    graphP result;
+
+    if ((result = gp_New()) == NULL)
+        return NULL;
+
+    if (gp_InitGraph(result, theGraph->N) != OK ||
+        gp_CopyGraph(result, theGraph) != OK)
+    {
+        gp_Free(&result);
+        return NULL;
+    }
+
+    return result;
+}
+
+/********************************************************************
+ gp_CreateRandomGraph()
+
+ Creates a randomly generated graph.  First a tree is created by
+ connecting each vertex to some successor.  Then a random number of
+ additional random edges are added.  If an edge already exists, then
+ we retry until a non-existent edge is picked.
+
+ This function assumes the caller has already called srand().
+
+ Returns OK on success, NOTOK on failure
+ ********************************************************************/
+
+int gp_CreateRandomGraph(graphP theGraph)
+{
+    int N, M, u, v, m;
+
+    N = theGraph->N;
+
+    /* Generate a random tree; note that this method virtually guarantees
+            that the graph will be renumbered, but it is linear time.
+            Also, we are not generating the DFS tree but rather a tree
+            that simply ensures the resulting random graph is connected. */
+
+    for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
+    {
+        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), v - 1);
+        if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
+            return NOTOK;
+    }
+
+    /* Generate a random number of additional edges
+            (actually, leave open a small chance that no
+            additional edges will be added). */
+
+    M = _GetRandomNumber(7 * N / 8, theGraph->arcCapacity / 2);
+
+    if (M > N * (N - 1) / 2)
+        M = N * (N - 1) / 2;
+
+    for (m = N - 1; m < M; m++)
+    {
+        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph) - 1);
+        v = _GetRandomNumber(u + 1, gp_GetLastVertex(theGraph));
+
+        // If the edge (u,v) exists, decrement eIndex to try again
+        if (gp_IsNeighbor(theGraph, u, v))
+            m--;
+
+        // If the edge (u,v) doesn't exist, add it
+        else
+        {
+            if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
+                return NOTOK;
+        }
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _GetRandomNumber()
+ This function generates a random number between NMin and NMax
+ inclusive.  It assumes that the caller has called srand().
+ It calls rand(), but before truncating to the proper range,
+ it adds the high bits of the rand() result into the low bits.
+ The result of this is that the randomness appearing in the
+ truncated bits also has an affect on the non-truncated bits.
+ ********************************************************************/
+
+int _GetRandomNumber(int NMin, int NMax)
+{
+    int N = rand();
+
+    if (NMax < NMin)
+        return NMin;
+
+    N += ((N & 0xFFFF0000) >> 16);
+    N += ((N & 0x0000FF00) >> 8);
+    N &= 0x7FFFFFF;
+    N %= (NMax - NMin + 1);
+    return N + NMin;
+}
+
+/********************************************************************
+ _getUnprocessedChild()
+ Support routine for gp_Create RandomGraphEx(), this function
+ obtains a child of the given vertex in the randomly generated
+ tree that has not yet been processed.  NIL is returned if the
+ given vertex has no unprocessed children
+
+ ********************************************************************/
+
+int _getUnprocessedChild(graphP theGraph, int parent)
+{
+    int e = gp_GetFirstArc(theGraph, parent);
+    int eTwin = gp_GetTwinArc(theGraph, e);
+    int child = gp_GetNeighbor(theGraph, e);
+
+    // The tree edges were added to the beginning of the adjacency list,
+    // and we move processed tree edge records to the end of the list,
+    // so if the immediate next arc (edge record) is not a tree edge
+    // then we return NIL because the vertex has no remaining
+    // unprocessed children
+    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_NOTDEFINED)
+        return NIL;
+
+    // If the child has already been processed, then all children
+    // have been pushed to the end of the list, and we have just
+    // encountered the first child we processed, so there are no
+    // remaining unprocessed children */
+    if (gp_GetEdgeVisited(theGraph, e))
+        return NIL;
+
+    // We have found an edge leading to an unprocessed child, so
+    // we mark it as processed so that it doesn't get returned
+    // again in future iterations.
+    gp_SetEdgeVisited(theGraph, e);
+    gp_SetEdgeVisited(theGraph, eTwin);
+
+    // Now we move the edge record in the parent vertex to the end
+    // of the adjacency list of that vertex.
+    gp_MoveArcToLast(theGraph, parent, e);
+
+    // Now we move the edge record in the child vertex to the
+    // end of the adjacency list of the child.
+    gp_MoveArcToLast(theGraph, child, eTwin);
+
+    // Now we set the child's parent and return the child.
+    gp_SetVertexParent(theGraph, child, parent);
+
+    return child;
+}
+
+/********************************************************************
+ _hasUnprocessedChild()
+ Support routine for gp_Create RandomGraphEx(), this function
+ obtains a child of the given vertex in the randomly generated
+ tree that has not yet been processed.  False (0) is returned
+ unless the given vertex has an unprocessed child.
+ ********************************************************************/
+
+int _hasUnprocessedChild(graphP theGraph, int parent)
+{
+    int e = gp_GetFirstArc(theGraph, parent);
+
+    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_NOTDEFINED)
+        return 0;
+
+    if (gp_GetEdgeVisited(theGraph, e))
+        return 0;
+
+    return 1;
+}
+
+/********************************************************************
+ gp_CreateRandomGraphEx()
+ Given a graph structure with a pre-specified number of vertices N,
+ this function creates a graph with the specified number of edges.
+
+ If numEdges <= 3N-6, then the graph generated is planar.  If
+ numEdges is larger, then a maximal planar graph is generated, then
+ (numEdges - 3N + 6) additional random edges are added.
+
+ This function assumes the caller has already called srand().
+ ********************************************************************/
+
+int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
+{
+    int N, arc, M, root, v, c, p, last, u, e, EsizeOccupied;
+
+    N = theGraph->N;
+
+    if (numEdges > theGraph->arcCapacity / 2)
+        numEdges = theGraph->arcCapacity / 2;
+
+    /* Generate a random tree. */
+
+    for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
+    {
+        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), v - 1);
+        if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
+            return NOTOK;
+
+        else
+        {
+            arc = gp_GetNeighborEdgeRecord(theGraph, u, v);
+            gp_SetEdgeType(theGraph, arc, EDGE_TYPE_RANDOMTREE);
+            gp_SetEdgeType(theGraph, gp_GetTwinArc(theGraph, arc), EDGE_TYPE_RANDOMTREE);
+            gp_ClearEdgeVisited(theGraph, arc);
+            gp_ClearEdgeVisited(theGraph, gp_GetTwinArc(theGraph, arc));
+        }
+    }
+
+    /* Add edges up to the limit or until the graph is maximal planar. */
+
+    M = numEdges <= 3 * N - 6 ? numEdges : 3 * N - 6;
+
+    root = gp_GetFirstVertex(theGraph);
+    v = last = _getUnprocessedChild(theGraph, root);
+
+    while (v != root && theGraph->M < M)
+    {
+        c = _getUnprocessedChild(theGraph, v);
+
+        if (gp_IsVertex(c))
+        {
+            if (last != v)
+            {
+                if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                    return NOTOK;
+            }
+
+            if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+                return NOTOK;
+
+            v = last = c;
+        }
+
+        else
+        {
+            p = gp_GetVertexParent(theGraph, v);
+            while (gp_IsVertex(p) && gp_IsNotVertex(c = _getUnprocessedChild(theGraph, p)))
+            {
+                v = p;
+                p = gp_GetVertexParent(theGraph, v);
+                if (gp_IsVertex(p) && p != root)
+                {
+                    if (gp_AddEdge(theGraph, last, 1, p, 1) != OK)
+                        return NOTOK;
+                }
+            }
+
+            if (gp_IsVertex(p))
+            {
+                if (p == root)
+                {
+                    if (gp_AddEdge(theGraph, v, 1, c, 1) != OK)
+                        return NOTOK;
+
+                    if (v != last)
+                    {
+                        if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                            return NOTOK;
+                    }
+                }
+                else
+                {
+                    if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                        return NOTOK;
+                }
+
+                if (p != root)
+                {
+                    if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+                        return NOTOK;
+                    last = c;
+                }
+
+                v = c;
+            }
+        }
+    }
+
+    /* Add additional edges if the limit has not yet been reached. */
+
+    while (theGraph->M < numEdges)
+    {
+        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph));
+        v = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph));
+
+        if (u != v && !gp_IsNeighbor(theGraph, u, v))
+            if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
+                return NOTOK;
+    }
+
+    /* Clear the edge types back to 'unknown' */
+
+    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
+    for (e = 0; e < EsizeOccupied; e++)
+    {
+        gp_ClearEdgeType(theGraph, e);
+        gp_ClearEdgeVisited(theGraph, e);
+    }
+
+    /* Put all DFSParent indicators back to NIL */
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        gp_SetVertexParent(theGraph, v, NIL);
+
+    return OK;
+}
+
+/********************************************************************
+ gp_IsNeighbor()
+
+ Checks whether v is already in u's adjacency list, i.e. does the arc
+ u -> v exist.
+ If there is an edge record for v in u's list, but it is marked INONLY,
+ then it represents the arc v->u but not u->v, so it is ignored.
+
+ Returns TRUE or FALSE.
+ ********************************************************************/
+
+int gp_IsNeighbor(graphP theGraph, int u, int v)
+{
+    int e = gp_GetFirstArc(theGraph, u);
+
+    while (gp_IsArc(e))
+    {
+        if (gp_GetNeighbor(theGraph, e) == v)
+        {
+            if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
+                return TRUE;
+        }
+        e = gp_GetNextArc(theGraph, e);
+    }
+    return FALSE;
+}
+
+/********************************************************************
+ gp_GetNeighborEdgeRecord()
+ Searches the adjacency list of u to obtains the edge record for v.
+
+ NOTE: The caller should check whether the edge record is INONLY;
+       This method returns any edge record representing a connection
+       between vertices u and v, so this method can return an
+       edge record even if gp_IsNeighbor(theGraph, u, v) is false (0).
+       To filter out INONLY edge records, use gp_GetDirection() on
+       the edge record returned by this method.
+
+ Returns NIL if there is no edge record indicating v in u's adjacency
+         list, or the edge record location otherwise.
+ ********************************************************************/
+
+int gp_GetNeighborEdgeRecord(graphP theGraph, int u, int v)
+{
+    int e;
+
+    if (gp_IsNotVertex(u) || gp_IsNotVertex(v))
+        return NIL + NOTOK - NOTOK;
+
+    e = gp_GetFirstArc(theGraph, u);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetNeighbor(theGraph, e) == v)
+            return e;
+
+        e = gp_GetNextArc(theGraph, e);
+    }
+    return NIL;
+}
+
+/********************************************************************
+ gp_GetVertexDegree()
+
+ Counts the number of edge records in the adjacency list of a given
+ vertex V.
+
+ Note: For digraphs, this method returns the total degree of the
+       vertex, including outward arcs (undirected and OUTONLY)
+       as well as INONLY arcs.  Other functions are defined to get
+       the in-degree or out-degree of the vertex.
+
+ Note: This function determines the degree by counting.  An extension
+       could cache the degree value of each vertex and update the
+       cached value as edges are added and deleted.
+ ********************************************************************/
+
+int gp_GetVertexDegree(graphP theGraph, int v)
+{
+    int e, degree;
+
+    if (theGraph == NULL || gp_IsNotVertex(v))
+        return 0 + NOTOK - NOTOK;
+
+    degree = 0;
+
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        degree++;
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return degree;
+}
+
+/********************************************************************
+ gp_GetVertexInDegree()
+
+ Counts the number of edge records in the adjacency list of a given
+ vertex V that represent arcs from another vertex into V.
+ This includes undirected edges and INONLY arcs, so it only excludes
+ edges records that are marked as OUTONLY arcs.
+
+ Note: This function determines the in-degree by counting.  An extension
+       could cache the in-degree value of each vertex and update the
+       cached value as edges are added and deleted.
+ ********************************************************************/
+
+int gp_GetVertexInDegree(graphP theGraph, int v)
+{
+    int e, degree;
+
+    if (theGraph == NULL || gp_IsNotVertex(v))
+        return 0 + NOTOK - NOTOK;
+
+    degree = 0;
+
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_OUTONLY)
+            degree++;
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return degree;
+}
+
+/********************************************************************
+ gp_GetVertexOutDegree()
+
+ Counts the number of edge records in the adjacency list of a given
+ vertex V that represent arcs from V to another vertex.
+ This includes undirected edges and OUTONLY arcs, so it only excludes
+ edges records that are marked as INONLY arcs.
+
+ Note: This function determines the out-degree by counting.  An extension
+       could cache the out-degree value of each vertex and update the
+       cached value as edges are added and deleted.
+ ********************************************************************/
+
+int gp_GetVertexOutDegree(graphP theGraph, int v)
+{
+    int e, degree;
+
+    if (theGraph == NULL || gp_IsNotVertex(v))
+        return 0 + NOTOK - NOTOK;
+
+    degree = 0;
+
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
+            degree++;
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return degree;
+}
+
+/********************************************************************
+ gp_AttachArc()
+
+ This routine adds newArc into v's adjacency list at a position
+ adjacent to the edge record for e, either before or after e,
+ depending on link.  If e is not an arc (e.g. if e is NIL),
+ then link is assumed to indicate whether the new arc is to be
+ placed at the beginning or end of v's adjacency list.
+
+ NOTE: The caller can pass NIL for v if e is not NIL, since the
+       vertex is implied (gp_GetNeighbor(theGraph, eTwin))
+
+ The arc is assumed to already exist in the data structure (i.e.
+ the storage of edges), as only a whole edge (two arcs) can be
+ inserted into or deleted from the data structure.  Hence there is
+ no such thing as gp_InsertArc() or gp_DeleteArc().
+
+ See also gp_DetachArc(), gp_InsertEdge() and gp_DeleteEdge()
+ ********************************************************************/
+
+void gp_AttachArc(graphP theGraph, int v, int e, int link, int newArc)
+{
+    if (gp_IsArc(e))
+    {
+        int e2 = gp_GetAdjacentArc(theGraph, e, link);
+
+        // e's link is newArc, and newArc's 1^link is e
+        gp_SetAdjacentArc(theGraph, e, link, newArc);
+        gp_SetAdjacentArc(theGraph, newArc, 1 ^ link, e);
+
+        // newArcs's link is e2
+        gp_SetAdjacentArc(theGraph, newArc, link, e2);
+
+        // if e2 is an arc, then e2's 1^link is newArc, else v's 1^link is newArc
+        if (gp_IsArc(e2))
+            gp_SetAdjacentArc(theGraph, e2, 1 ^ link, newArc);
+        else
+            gp_SetArc(theGraph, v, 1 ^ link, newArc);
+    }
+    else
+    {
+        int e2 = gp_GetArc(theGraph, v, link);
+
+        // v's link is newArc, and newArc's 1^link is NIL
+        gp_SetArc(theGraph, v, link, newArc);
+        gp_SetAdjacentArc(theGraph, newArc, 1 ^ link, NIL);
+
+        // newArcs's elink is e2
+        gp_SetAdjacentArc(theGraph, newArc, link, e2);
+
+        // if e2 is an arc, then e2's 1^link is newArc, else v's 1^link is newArc
+        if (gp_IsArc(e2))
+            gp_SetAdjacentArc(theGraph, e2, 1 ^ link, newArc);
+        else
+            gp_SetArc(theGraph, v, 1 ^ link, newArc);
+    }
+}
+
+/****************************************************************************
+ gp_DetachArc()
+
+ This routine detaches arc from its adjacency list, but it does not delete
+ it from the data structure (only a whole edge can be deleted).
+
+ Some algorithms must temporarily detach an edge, perform some calculation,
+ and eventually put the edge back. This routine supports that operation.
+ The neighboring adjacency list nodes are cross-linked, but the two link
+ members of the arc are retained, so the arc can be reattached later by
+ invoking _RestoreArc().  A sequence of detached arcs can only be restored
+ in the exact opposite order of their detachment.  Thus, algorithms do not
+ directly use this method to implement the temporary detach/restore method.
+ Instead, gp_HideEdge() and gp_RestoreEdge are used, and algorithms push
+ edge hidden edge onto the stack.  One example of this stack usage is
+ provided by detaching edges with gp_ContractEdge() or gp_IdentifyVertices(),
+ and reattaching with gp_RestoreIdentifications(), which unwinds the stack
+ by invoking gp_RestoreVertex().
+ ****************************************************************************/
+
+void gp_DetachArc(graphP theGraph, int arc)
+{
+    int nextArc = gp_GetNextArc(theGraph, arc),
+        prevArc = gp_GetPrevArc(theGraph, arc);
+
+    if (gp_IsArc(nextArc))
+        gp_SetPrevArc(theGraph, nextArc, prevArc);
+    else
+        gp_SetLastArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), prevArc);
+
+    if (gp_IsArc(prevArc))
+        gp_SetNextArc(theGraph, prevArc, nextArc);
+    else
+        gp_SetFirstArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), nextArc);
+}
+
+/********************************************************************
+ gp_AddEdge()
+ Adds the undirected edge (u,v) to the graph by placing edge records
+ representing u into v's circular edge record list and v into u's
+ circular edge record list.
+
+ upos receives the location in G where the u record in v's list will be
+        placed, and vpos is the location in G of the v record we placed in
+ u's list.  These are used to initialize the short circuit links.
+
+ ulink (0|1) indicates whether the edge record to v in u's list should
+        become adjacent to u by its 0 or 1 link, i.e. u[ulink] == vpos.
+ vlink (0|1) indicates whether the edge record to u in v's list should
+        become adjacent to v by its 0 or 1 link, i.e. v[vlink] == upos.
+
+ ********************************************************************/
+
+int gp_AddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
+{
+    int upos, vpos;
+
+    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
+        return NOTOK;
+
+    /* We enforce the edge limit */
+
+    if (theGraph->M >= theGraph->arcCapacity / 2)
+        return NONEMBEDDABLE;
+
+    if (sp_NonEmpty(theGraph->edgeHoles))
+    {
+        sp_Pop(theGraph->edgeHoles, vpos);
+    }
+    else
+        vpos = gp_EdgeInUseIndexBound(theGraph);
+
+    upos = gp_GetTwinArc(theGraph, vpos);
+
+    gp_SetNeighbor(theGraph, upos, v);
+    gp_AttachArc(theGraph, u, NIL, ulink, upos);
+    gp_SetNeighbor(theGraph, vpos, u);
+    gp_AttachArc(theGraph, v, NIL, vlink, vpos);
+
+    theGraph->M++;
+    return OK;
+}
+
+/********************************************************************
+ gp_DynamicAddEdge()
+ Refer to documentation for gp_AddEdge for parameter description.
+
+ Tries to call gp_AddEdge; if NONEMBEDDABLE, doubles the arc
+ capacity (up to a max of (N * (N-1))) using gp_EnsureArcCapacity,
+ then retries gp_AddEdge.
+ ********************************************************************/
+int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
+{
+    int Result = OK;
+
+    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
+        return NOTOK;
+
+    Result = gp_AddEdge(theGraph, u, ulink, v, vlink);
+
+    if (Result == NONEMBEDDABLE)
+    {
+        int candidateArcCapacity = gp_GetArcCapacity(theGraph) * 2;
+        int N = theGraph->N;
+        int newArcCapacity = (candidateArcCapacity > (N * (N - 1))) ? (N * (N - 1)) : candidateArcCapacity;
+        Result = gp_EnsureArcCapacity(theGraph, newArcCapacity);
+
+        if (Result != OK)
+            return Result;
+
+        Result = gp_AddEdge(theGraph, u, ulink, v, vlink);
+    }
+
+    return Result;
+}
+
+/********************************************************************
+ gp_InsertEdge()
+
+ This function adds the edge (u, v) such that the edge record added
+ to the adjacency list of u is adjacent to e_u and the edge record
+ added to the adjacency list of v is adjacent to e_v.
+ The direction of adjacency is given by e_ulink for e_u and e_vlink
+ for e_v. Specifically, the new edge will be comprised of two arcs,
+ n_u and n_v.  In u's (v's) adjacency list, n_u (n_v) will be added
+ so that it is indicated by e_u's (e_v's) e_ulink (e_vlink).
+ If e_u (or e_v) is not an arc, then e_ulink (e_vlink) indicates
+ whether to prepend or append to the adjacency list for u (v).
+ ********************************************************************/
+
+int gp_InsertEdge(graphP theGraph, int u, int e_u, int e_ulink,
+                  int v, int e_v, int e_vlink)
+{
+    int vertMax = gp_GetLastVirtualVertex(theGraph),
+        edgeMax = gp_EdgeInUseIndexBound(theGraph) - 1,
+        upos, vpos;
+
+    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+        u > vertMax || v > vertMax ||
+        e_u > edgeMax || (e_u < gp_GetFirstEdge(theGraph) && gp_IsArc(e_u)) ||
+        e_v > edgeMax || (e_v < gp_GetFirstEdge(theGraph) && gp_IsArc(e_v)) ||
+        e_ulink < 0 || e_ulink > 1 || e_vlink < 0 || e_vlink > 1)
+        return NOTOK;
+
+    if (theGraph->M >= theGraph->arcCapacity / 2)
+        return NONEMBEDDABLE;
+
+    if (sp_NonEmpty(theGraph->edgeHoles))
+    {
+        sp_Pop(theGraph->edgeHoles, vpos);
+    }
+    else
+        vpos = gp_EdgeInUseIndexBound(theGraph);
+
+    upos = gp_GetTwinArc(theGraph, vpos);
+
+    gp_SetNeighbor(theGraph, upos, v);
+    gp_AttachArc(theGraph, u, e_u, e_ulink, upos);
+
+    gp_SetNeighbor(theGraph, vpos, u);
+    gp_AttachArc(theGraph, v, e_v, e_vlink, vpos);
+
+    theGraph->M++;
+
+    return OK;
+}
+
+/****************************************************************************
+ gp_DeleteEdge()
+
+ This function deletes the given edge record e and its twin, reducing the
+ number of edges M in the graph.
+ Before the e^th record is deleted, its 'nextLink' adjacency list neighbor
+ is collected as the return result.  This is useful when iterating through
+ an edge list and making deletions because the nextLink arc is the 'next'
+ arc in the iteration, but it is hard to obtain *after* deleting e.
+ ****************************************************************************/
+
+int gp_DeleteEdge(graphP theGraph, int e, int nextLink)
+{
+    // Calculate the nextArc after e so that, when e is deleted, the return result
+    // informs a calling loop of the next edge to be processed.
+    int nextArc = gp_GetAdjacentArc(theGraph, e, nextLink);
+
+    // Delete the edge records e and eTwin from their adjacency lists.
+    gp_DetachArc(theGraph, e);
+    gp_DetachArc(theGraph, gp_GetTwinArc(theGraph, e));
+
+    // Clear the two edge records
+    // (the bit twiddle (e & ~1) chooses the lesser of e and its twin arc)
+#if NIL == 0
+    memset(theGraph->E + (e & ~1), NIL_CHAR, sizeof(edgeRec) << 1);
+#else
+    _InitEdgeRec(theGraph, e);
+    _InitEdgeRec(theGraph, gp_GetTwinArc(theGraph, e));
+#endif
+
+    // Now we reduce the number of edges in the data structure
+    theGraph->M--;
+
+    // If records e and eTwin were not the last in the edge record array,
+    // then record a new hole in the edge array. */
+    if (e < gp_EdgeInUseIndexBound(theGraph))
+    {
+        sp_Push(theGraph->edgeHoles, e);
+    }
+
+    // Return the previously calculated successor of e.
+    return nextArc;
+}
+
+/********************************************************************
+ _RestoreArc()
+ This routine reinserts an arc into the edge list from which it
+ was previously removed by gp_DetachArc().
+
+ The assumed processing model is that arcs will be restored in reverse
+ of the order in which they were hidden, i.e. it is assumed that the
+ hidden arcs will be pushed on a stack and the arcs will be popped
+ from the stack for restoration.
+ ********************************************************************/
+
+void _RestoreArc(graphP theGraph, int arc)
+{
+    int nextArc = gp_GetNextArc(theGraph, arc),
+        prevArc = gp_GetPrevArc(theGraph, arc);
+
+    if (gp_IsArc(nextArc))
+        gp_SetPrevArc(theGraph, nextArc, arc);
+    else
+        gp_SetLastArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), arc);
+
+    if (gp_IsArc(prevArc))
+        gp_SetNextArc(theGraph, prevArc, arc);
+    else
+        gp_SetFirstArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), arc);
+}
+
+/********************************************************************
+ gp_HideEdge()
+ This routine removes the two arcs of an edge from the adjacency lists
+ of its endpoint vertices, but does not delete them from the storage
+ data structure.
+
+ Many algorithms must temporarily remove an edge, perform some
+ calculation, and eventually put the edge back. This routine supports
+ that operation.
+
+ For each arc, the neighboring adjacency list nodes are cross-linked,
+ but the links in the arc are retained because they indicate the
+ neighbor arcs to which the arc can be reattached by gp_RestoreEdge().
+ ********************************************************************/
+
+void gp_HideEdge(graphP theGraph, int e)
+{
+    theGraph->functions.fpHideEdge(theGraph, e);
+}
+
+void _HideEdge(graphP theGraph, int e)
+{
+    gp_DetachArc(theGraph, e);
+    gp_DetachArc(theGraph, gp_GetTwinArc(theGraph, e));
+}
+
+/********************************************************************
+ gp_RestoreEdge()
+ This routine reinserts two two arcs of an edge into the adjacency
+ lists of the edge's endpoints, the arcs having been previously
+ removed by gp_HideEdge().
+
+ The assumed processing model is that edges will be restored in
+ reverse of the order in which they were hidden, i.e. it is assumed
+ that the hidden edges will be pushed on a stack and the edges will
+ be popped from the stack for restoration.
+
+ Note: Since both arcs of an edge are restored, only one arc need
+        be pushed on the stack for restoration.  This routine
+        restores the two arcs in the opposite order from the order
+        in which they are hidden by gp_HideEdge().
+ ********************************************************************/
+
+void gp_RestoreEdge(graphP theGraph, int e)
+{
+    theGraph->functions.fpRestoreEdge(theGraph, e);
+}
+
+void _RestoreEdge(graphP theGraph, int e)
+{
+    _RestoreArc(theGraph, gp_GetTwinArc(theGraph, e));
+    _RestoreArc(theGraph, e);
+}
+
+/********************************************************************
+ _HideInternalEdges()
+ Pushes onto the graph's stack and hides all arc nodes of the vertex
+ except the first and last arcs in the adjacency list of the vertex.
+ This method is typically called on a vertex that is on the external
+ face of a biconnected component, because the first and last arcs are
+ the ones that attach the vertex to the external face cycle, and any
+ other arcs in the adjacency list are inside that cycle.
+
+ This method uses the stack. The caller is expected to clear the stack
+ or save the stack size before invocation, since the stack size is
+ needed to _RestoreInternalEdges().
+ ********************************************************************/
+
+int _HideInternalEdges(graphP theGraph, int vertex)
+{
+    int e = gp_GetFirstArc(theGraph, vertex);
+
+    // If the vertex adjacency list is empty or if it contains
+    // only one edge, then there are no *internal* edges to hide
+    if (e == gp_GetLastArc(theGraph, vertex))
+        return OK;
+
+    // Start with the first internal edge
+    e = gp_GetNextArc(theGraph, e);
+
+    // Cycle through all the edges, pushing each except stop
+    // before pushing the last edge, which is not internal
+    while (e != gp_GetLastArc(theGraph, vertex))
+    {
+        sp_Push(theGraph->theStack, e);
+        gp_HideEdge(theGraph, e);
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _RestoreInternalEdges()
+ Reverses the effects of _HideInternalEdges()
+ ********************************************************************/
+
+int _RestoreInternalEdges(graphP theGraph, int stackBottom)
+{
+    return _RestoreHiddenEdges(theGraph, stackBottom);
+}
+
+/********************************************************************
+ _RestoreHiddenEdges()
+
+ Each entry on the stack, down to stackBottom, is assumed to be an
+ edge record (arc) pushed in concert with invoking gp_HideEdge().
+ Each edge is restored using gp_RestoreEdge() in exact reverse of the
+ hiding order.  The stack is reduced in size to stackBottom.
+
+ Returns OK on success, NOTOK on internal failure.
+ ********************************************************************/
+
+int _RestoreHiddenEdges(graphP theGraph, int stackBottom)
+{
+    int e;
+
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, e);
+        if (gp_IsNotArc(e))
+            return NOTOK;
+        gp_RestoreEdge(theGraph, e);
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ gp_HideVertex()
+
+ Pushes onto the graph's stack and hides all arc nodes of the vertex.
+ Additional integers are then pushed so that the result is reversible
+ by gp_RestoreVertex().  See that method for details on the expected
+ stack segment.
+
+ Returns OK for success, NOTOK for internal failure.
+ ********************************************************************/
+
+int gp_HideVertex(graphP theGraph, int vertex)
+{
+    if (gp_IsNotVertex(vertex))
+        return NOTOK;
+
+    return theGraph->functions.fpHideVertex(theGraph, vertex);
+}
+
+int _HideVertex(graphP theGraph, int vertex)
+{
+    int hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
+    int e = gp_GetFirstArc(theGraph, vertex);
+
+    // Cycle through all the edges, pushing and hiding each
+    while (gp_IsArc(e))
+    {
+        sp_Push(theGraph->theStack, e);
+        gp_HideEdge(theGraph, e);
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // Push the additional integers needed by gp_RestoreVertex()
+    sp_Push(theGraph->theStack, hiddenEdgeStackBottom);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, vertex);
+
+    return OK;
+}
+
+/********************************************************************
+ gp_ContractEdge()
+
+ Contracts the edge e=(u,v).  This hides the edge (both e and its
+ twin arc), and it also identifies vertex v with u.
+ See gp_IdentifyVertices() for further details.
+
+ Returns OK for success, NOTOK for internal failure.
+ ********************************************************************/
+
+int gp_ContractEdge(graphP theGraph, int e)
+{
+    if (gp_IsNotArc(e))
+        return NOTOK;
+
+    return theGraph->functions.fpContractEdge(theGraph, e);
+}
+
+int _ContractEdge(graphP theGraph, int e)
+{
+    int eBefore, u, v;
+
+    if (gp_IsNotArc(e))
+        return NOTOK;
+
+    u = gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, e));
+    v = gp_GetNeighbor(theGraph, e);
+
+    eBefore = gp_GetNextArc(theGraph, e);
+    sp_Push(theGraph->theStack, e);
+    gp_HideEdge(theGraph, e);
+
+    return gp_IdentifyVertices(theGraph, u, v, eBefore);
+}
+
+/********************************************************************
+ gp_IdentifyVertices()
+
+ Identifies vertex v with vertex u by transferring all adjacencies
+ of v to u.  Any duplicate edges are removed as described below.
+ The non-duplicate edges of v are added to the adjacency list of u
+ without disturbing their relative order, and they are added before
+ the edge record eBefore in u's list. If eBefore is NIL, then the
+ edges are simply appended to u's list.
+
+ If u and v are adjacent, then gp_HideEdge() is invoked to remove
+ the edge e=(u,v). Then, the edges of v that indicate neighbors of
+ u are also hidden.  This is done by setting the visited flags of
+ u's neighbors, then traversing the adjacency list of v.  For each
+ visited neighbor of v, the edge is hidden because it would duplicate
+ an adjacency already expressed in u's list. Finally, the remaining
+ edges of v are moved to u's list, and each twin arc is adjusted
+ to indicate u as a neighbor rather than v.
+
+ This routine assumes that the visited flags are clear beforehand,
+ and visited flag settings made herein are cleared before returning.
+
+ The following are pushed, in order, onto the graph's built-in stack:
+ 1) an integer for each hidden edge
+ 2) the stack size before any hidden edges were pushed
+ 3) six integers that indicate u, v and the edges moved from v to u
+
+ An algorithm that identifies a series of vertices, either through
+ directly calling this method or via gp_ContractEdge(), can unwind
+ the identifications using gp_RestoreIdentifications(), which
+ invokes gp_RestoreVertex() repeatedly.
+
+ Returns OK on success, NOTOK on internal failure
+ ********************************************************************/
+
+int gp_IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
+{
+    return theGraph->functions.fpIdentifyVertices(theGraph, u, v, eBefore);
+}
+
+int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
+{
+    int e = gp_GetNeighborEdgeRecord(theGraph, u, v);
+    int hiddenEdgeStackBottom, eBeforePred;
+
+    // If the vertices are adjacent, then the identification is
+    // essentially an edge contraction with a bit of fixup.
+    if (gp_IsArc(e))
+    {
+        int result = gp_ContractEdge(theGraph, e);
+
+        // The edge contraction operation pushes one hidden edge then
+        // recursively calls this method. This method then pushes K
+        // hidden edges then an integer indicating where the top of
+        // stack was before the edges were hidden. That integer
+        // indicator must be decremented, thereby incrementing the
+        // number of hidden edges to K+1.
+        // After pushing the K hidden edges and the stackBottom of
+        // the hidden edges, the recursive call to this method pushes
+        // six more integers to indicate edges that were moved from
+        // v to u, so the "hidden edges stackBottom" is in the next
+        // position down.
+        int hiddenEdgesStackBottomIndex = sp_GetCurrentSize(theGraph->theStack) - 7;
+        int hiddenEdgesStackBottomValue = sp_Get(theGraph->theStack, hiddenEdgesStackBottomIndex);
+
+        sp_Set(theGraph->theStack, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue - 1);
+
+        return result;
+    }
+
+    // Now, u and v are not adjacent. Before we do any edge hiding or
+    // moving, we record the current stack size, as this is the
+    // stackBottom for the edges that will be hidden next.
+    hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    // Mark as visited all neighbors of u
+    e = gp_GetFirstArc(theGraph, u);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e)))
+            return NOTOK;
+
+        gp_SetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // For each edge record of v, if the neighbor is visited, then
+    // push and hide the edge.
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e)))
+        {
+            sp_Push(theGraph->theStack, e);
+            gp_HideEdge(theGraph, e);
+        }
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // Mark as unvisited all neighbors of u
+    e = gp_GetFirstArc(theGraph, u);
+    while (gp_IsArc(e))
+    {
+        gp_ClearVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // Push the hiddenEdgeStackBottom as a record of how many hidden
+    // edges were pushed (also, see above for Contract Edge adjustment)
+    sp_Push(theGraph->theStack, hiddenEdgeStackBottom);
+
+    // Moving v's adjacency list to u is aided by knowing the predecessor
+    // of u's eBefore (the edge record in u's list before which the
+    // edge records of v will be added).
+    eBeforePred = gp_IsArc(eBefore)
+                      ? gp_GetPrevArc(theGraph, eBefore)
+                      : gp_GetLastArc(theGraph, u);
+
+    // Turns out we only need to record six integers related to the edges
+    // being moved in order to easily restore them later.
+    sp_Push(theGraph->theStack, eBefore);
+    sp_Push(theGraph->theStack, gp_GetLastArc(theGraph, v));
+    sp_Push(theGraph->theStack, gp_GetFirstArc(theGraph, v));
+    sp_Push(theGraph->theStack, eBeforePred);
+    sp_Push(theGraph->theStack, u);
+    sp_Push(theGraph->theStack, v);
+
+    // For the remaining edge records of v, reassign the 'v' member
+    //    of each twin arc to indicate u rather than v.
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        gp_SetNeighbor(theGraph, gp_GetTwinArc(theGraph, e), u);
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // If v has any edges left after hiding edges, indicating common neighbors with u, ...
+    if (gp_IsArc(gp_GetFirstArc(theGraph, v)))
+    {
+        // Then perform the list union of v into u between eBeforePred and eBefore
+        if (gp_IsArc(eBeforePred))
+        {
+            if (gp_IsArc(gp_GetFirstArc(theGraph, v)))
+            {
+                gp_SetNextArc(theGraph, eBeforePred, gp_GetFirstArc(theGraph, v));
+                gp_SetPrevArc(theGraph, gp_GetFirstArc(theGraph, v), eBeforePred);
+            }
+        }
+        else
+        {
+            gp_SetFirstArc(theGraph, u, gp_GetFirstArc(theGraph, v));
+        }
+
+        if (gp_IsArc(eBefore))
+        {
+            if (gp_IsArc(gp_GetLastArc(theGraph, v)))
+            {
+                gp_SetNextArc(theGraph, gp_GetLastArc(theGraph, v), eBefore);
+                gp_SetPrevArc(theGraph, eBefore, gp_GetLastArc(theGraph, v));
+            }
+        }
+        else
+        {
+            gp_SetLastArc(theGraph, u, gp_GetLastArc(theGraph, v));
+        }
+
+        gp_SetFirstArc(theGraph, v, NIL);
+        gp_SetLastArc(theGraph, v, NIL);
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ gp_RestoreVertex()
+
+ This method assumes the built-in graph stack contents are the result
+ of vertex hide, vertex identify and edge contract operations.
+ This content consists of segments of integers, each segment
+ corresponding to the removal of a vertex during an edge contraction
+ or vertex identification in which a vertex v was merged into a
+ vertex u.  The segment contains two blocks of integers.
+ The first block contains information about u, v, the edge records
+ in v's adjacency list that were added to u, and where in u's
+ adjacency list they were added.  The second block of integers
+ contains a list of edges incident to v that were hidden from the
+ graph because they were incident to neighbors of v that were also
+ neighbors of u (so they would have produced duplicate edges had
+ they been left in v's adjacency list when it was merged with u's
+ adjacency list).
+
+ This method pops the first block of the segment off the stack and
+ uses the information to help remove v's adjacency list from u and
+ restore it into v.  Then, the second block is removed from the
+ stack, and each indicated edge is restored from the hidden state.
+
+ It is anticipated that this method will be overloaded by extension
+ algorithms to perform some processing as each vertex is restored.
+ Before restoration, the topmost segment has the following structure:
+
+ ... FHE ... LHE HESB e_u_succ e_v_last e_v_first e_u_pred u v
+      ^------------|
+
+ FHE = First hidden edge
+ LHE = Last hidden edge
+ HESB = Hidden edge stack bottom
+ e_u_succ, e_u_pred = The edges of u between which the edges of v
+                      were inserted. NIL can appear if the edges of v
+                      were added to the beginning or end of u's list
+ e_v_first, e_v_last = The first and last edges of v's list, once
+                       the hidden edges were removed
+
+ Returns OK for success, NOTOK for internal failure.
+ ********************************************************************/
+
+int gp_RestoreVertex(graphP theGraph)
+{
+    return theGraph->functions.fpRestoreVertex(theGraph);
+}
+
+int _RestoreVertex(graphP theGraph)
+{
+    int u, v, e_u_succ, e_u_pred, e_v_first, e_v_last, HESB, e;
+
+    if (sp_GetCurrentSize(theGraph->theStack) < 7)
+        return NOTOK;
+
+    sp_Pop(theGraph->theStack, v);
+    sp_Pop(theGraph->theStack, u);
+    sp_Pop(theGraph->theStack, e_u_pred);
+    sp_Pop(theGraph->theStack, e_v_first);
+    sp_Pop(theGraph->theStack, e_v_last);
+    sp_Pop(theGraph->theStack, e_u_succ);
+
+    // If u is not NIL, then vertex v was identified with u.  Otherwise, v was
+    // simply hidden, so we skip to restoring the hidden edges.
+    if (gp_IsVertex(u))
+    {
+        // Remove v's adjacency list from u, including accounting for degree 0 case
+        if (gp_IsArc(e_u_pred))
+        {
+            gp_SetNextArc(theGraph, e_u_pred, e_u_succ);
+            // If the successor edge exists, link it to the predecessor,
+            // otherwise the predecessor is the new last arc
+            if (gp_IsArc(e_u_succ))
+                gp_SetPrevArc(theGraph, e_u_succ, e_u_pred);
+            else
+                gp_SetLastArc(theGraph, u, e_u_pred);
+        }
+        else if (gp_IsArc(e_u_succ))
+        {
+            // The successor arc exists, but not the predecessor,
+            // so the successor is the new first arc
+            gp_SetPrevArc(theGraph, e_u_succ, NIL);
+            gp_SetFirstArc(theGraph, u, e_u_succ);
+        }
+        else
+        {
+            // Just in case u was degree zero
+            gp_SetFirstArc(theGraph, u, NIL);
+            gp_SetLastArc(theGraph, u, NIL);
+        }
+
+        // Place v's adjacency list into v, including accounting for degree 0 case
+        gp_SetFirstArc(theGraph, v, e_v_first);
+        gp_SetLastArc(theGraph, v, e_v_last);
+        if (gp_IsArc(e_v_first))
+            gp_SetPrevArc(theGraph, e_v_first, NIL);
+        if (gp_IsArc(e_v_last))
+            gp_SetNextArc(theGraph, e_v_last, NIL);
+
+        // For each edge record restored to v's adjacency list, reassign the 'v' member
+        //    of each twin arc to indicate v rather than u.
+        e = e_v_first;
+        while (gp_IsArc(e))
+        {
+            gp_SetNeighbor(theGraph, gp_GetTwinArc(theGraph, e), v);
+            e = (e == e_v_last ? NIL : gp_GetNextArc(theGraph, e));
+        }
+    }
+
+    // Restore the hidden edges of v, if any
+    sp_Pop(theGraph->theStack, HESB);
+    return _RestoreHiddenEdges(theGraph, HESB);
+}
+
+/********************************************************************
+ gp_RestoreVertices()
+
+ This method assumes the built-in graph stack has content consistent
+ with numerous vertex identification or edge contraction operations.
+ This method unwinds the stack, moving edges back to their original
+ vertex owners and restoring hidden edges.
+ This method is a simple iterator that invokes gp_RestoreVertex()
+ until the stack is empty, so extension algorithms are more likely
+ to overload gp_RestoreVertex().
+
+ Returns OK for success, NOTOK for internal failure.
+ ********************************************************************/
+
+int gp_RestoreVertices(graphP theGraph)
+{
+    while (sp_NonEmpty(theGraph->theStack))
+    {
+        if (gp_RestoreVertex(theGraph) != OK)
+            return NOTOK;
+    }
+
+    return OK;
+}
+
+/****************************************************************************
+ _ComputeArcType()
+ This is just a little helper function that automates a sequence of decisions
+ that has to be made a number of times.
+ An edge record is being added to the adjacency list of a; it indicates that
+ b is a neighbor.  The edgeType can be either 'tree' (EDGE_TYPE_PARENT or
+ EDGE_TYPE_CHILD) or 'cycle' (EDGE_TYPE_BACK or EDGE_TYPE_FORWARD).
+ If a or b is a root copy, we translate to the non-virtual counterpart,
+ then wedetermine which has the lesser DFI.  If a has the lower DFI then the
+ edge record is a tree edge to a child (EDGE_TYPE_CHILD) if edgeType indicates
+ a tree edge.  If edgeType indicates a cycle edge, then it is a forward cycle
+ edge (EDGE_TYPE_FORWARD) to a descendant.
+ Symmetric conditions define the types for a > b.
+ ****************************************************************************/
+
+int _ComputeArcType(graphP theGraph, int a, int b, int edgeType)
+{
+    a = gp_IsVirtualVertex(theGraph, a) ? gp_GetPrimaryVertexFromRoot(theGraph, a) : a;
+    b = gp_IsVirtualVertex(theGraph, b) ? gp_GetPrimaryVertexFromRoot(theGraph, b) : b;
+
+    if (a < b)
+        return edgeType == EDGE_TYPE_PARENT || edgeType == EDGE_TYPE_CHILD ? EDGE_TYPE_CHILD : EDGE_TYPE_FORWARD;
+
+    return edgeType == EDGE_TYPE_PARENT || edgeType == EDGE_TYPE_CHILD ? EDGE_TYPE_PARENT : EDGE_TYPE_BACK;
+}
+
+/****************************************************************************
+ _SetEdgeType()
+ When we are restoring an edge, we must restore its type (tree edge or cycle edge).
+ We can deduce what the type was based on other information in the graph. Each
+ arc of the edge gets the appropriate type setting (parent/child or back/forward).
+ This method runs in constant time plus the degree of vertex u, or constant
+ time if u is known to have a degree bound by a constant.
+ ****************************************************************************/
+
+int _SetEdgeType(graphP theGraph, int u, int v)
+{
+    int e, eTwin, u_orig, v_orig;
+
+    // If u or v is a virtual vertex (a root copy), then get the non-virtual counterpart.
+    u_orig = gp_IsVirtualVertex(theGraph, u) ? (gp_GetPrimaryVertexFromRoot(theGraph, u)) : u;
+    v_orig = gp_IsVirtualVertex(theGraph, v) ? (gp_GetPrimaryVertexFromRoot(theGraph, v)) : v;
+
+    // Get the edge for which we will set the type
+
+    e = gp_GetNeighborEdgeRecord(theGraph, u, v);
+    eTwin = gp_GetTwinArc(theGraph, e);
+
+    // If u_orig is the parent of v_orig, or vice versa, then the edge is a tree edge
+
+    if (gp_GetVertexParent(theGraph, v_orig) == u_orig ||
+        gp_GetVertexParent(theGraph, u_orig) == v_orig)
+    {
+        if (u_orig > v_orig)
+        {
+            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_PARENT);
+            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_CHILD);
+        }
+        else
+        {
+            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_PARENT);
+            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_CHILD);
+        }
+    }
+
+    // Otherwise it is a back edge
+
+    else
+    {
+        if (u_orig > v_orig)
+        {
+            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_BACK);
+            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_FORWARD);
+        }
+        else
+        {
+            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_BACK);
+            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_FORWARD);
+        }
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _DeleteUnmarkedEdgesInBicomp()
+
+ This function deletes from a given biconnected component all edges
+ whose visited member is zero.
+
+ The stack is used but preserved. In debug mode, NOTOK can result if
+ there is a stack overflow. This method pushes at most one integer
+ per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure
+ ********************************************************************/
+
+int _DeleteUnmarkedEdgesInBicomp(graphP theGraph, int BicompRoot)
+{
+    int V, e;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, V);
+
+        e = gp_GetFirstArc(theGraph, V);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetEdgeVisited(theGraph, e) ? gp_GetNextArc(theGraph, e) : gp_DeleteEdge(theGraph, e, 0);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearInvertedFlagsInBicomp()
+
+ This function clears the inverted flag markers on any edges in a
+ given biconnected component.
+
+ The stack is used but preserved. In debug mode, NOTOK can result if
+ there is a stack overflow. This method pushes at most one integer
+ per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure
+ ********************************************************************/
+
+int _ClearInvertedFlagsInBicomp(graphP theGraph, int BicompRoot)
+{
+    int V, e;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, V);
+
+        e = gp_GetFirstArc(theGraph, V);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+            {
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+                gp_ClearEdgeFlagInverted(theGraph, e);
+            }
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _GetBicompSize()
+
+ Determine the number of vertices in the bicomp.
+
+ The stack is used but preserved. In debug mode, NOTOK can result if
+ there is a stack overflow. This method pushes at most one integer
+ per vertex in the bicomp.
+
+ Returns a positive number on success, NOTOK on implementation failure
+ ********************************************************************/
+
+int _GetBicompSize(graphP theGraph, int BicompRoot)
+{
+    int V, e;
+    int theSize = 0;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, V);
+        theSize++;
+        e = gp_GetFirstArc(theGraph, V);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return theSize;
+}
+
+/********************************************************************
+ debugNOTOK()
+ This function provides a non-void wrapper for exit().
+ This is useful for debugging as it allows compilation of an exit
+ command in places where NOTOK is returned.
+ In exhaustive testing, we want to bail on the first NOTOK that occurs.
+ Comment out the exit() call to get a stack trace.
+ ********************************************************************/
+
+int debugNOTOK(void)
+{
+    // exit(-1);
+    return 0; // NOTOK is normally defined to be zero
+}
-- 
2.43.0


From 9cefe3e0070be391de8798405962ccff7d712505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:53 +0000
Subject: [PATCH 03/65] fix: contracting an edge can be undone by
 gp_RestoreVertices

gp_ContractEdge hides the contracted edge below the stack segment written by
gp_IdentifyVertices, but only gp_IdentifyVertices corrected the segment's
hidden edge bottom, so a direct contraction could not be unwound.
---
 c/graphLib/graphUtils.c | 46 ++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index d6f16a6..234b61e 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -2001,7 +2001,7 @@ int gp_ContractEdge(graphP theGraph, int e)
 
 int _ContractEdge(graphP theGraph, int e)
 {
-    int eBefore, u, v;
+    int eBefore, u, v, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue;
 
     if (gp_IsNotArc(e))
         return NOTOK;
@@ -2013,7 +2013,25 @@ int _ContractEdge(graphP theGraph, int e)
     sp_Push(theGraph->theStack, e);
     gp_HideEdge(theGraph, e);
 
-    return gp_IdentifyVertices(theGraph, u, v, eBefore);
+    if (gp_IdentifyVertices(theGraph, u, v, eBefore) != OK)
+        return NOTOK;
+
+    // This operation pushes one hidden edge then invokes vertex
+    // identification. That method then pushes K hidden edges then
+    // an integer indicating where the top of stack was before the
+    // edges were hidden. That integer indicator must be decremented,
+    // thereby incrementing the number of hidden edges to K+1.
+    // After pushing the K hidden edges and the stackBottom of
+    // the hidden edges, the vertex identification pushes
+    // six more integers to indicate edges that were moved from
+    // v to u, so the "hidden edges stackBottom" is in the next
+    // position down.
+    hiddenEdgesStackBottomIndex = sp_GetCurrentSize(theGraph->theStack) - 7;
+    hiddenEdgesStackBottomValue = sp_Get(theGraph->theStack, hiddenEdgesStackBottomIndex);
+
+    sp_Set(theGraph->theStack, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue - 1);
+
+    return OK;
 }
 
 /********************************************************************
@@ -2062,29 +2080,9 @@ int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
     int hiddenEdgeStackBottom, eBeforePred;
 
     // If the vertices are adjacent, then the identification is
-    // essentially an edge contraction with a bit of fixup.
+    // essentially an edge contraction.
     if (gp_IsArc(e))
-    {
-        int result = gp_ContractEdge(theGraph, e);
-
-        // The edge contraction operation pushes one hidden edge then
-        // recursively calls this method. This method then pushes K
-        // hidden edges then an integer indicating where the top of
-        // stack was before the edges were hidden. That integer
-        // indicator must be decremented, thereby incrementing the
-        // number of hidden edges to K+1.
-        // After pushing the K hidden edges and the stackBottom of
-        // the hidden edges, the recursive call to this method pushes
-        // six more integers to indicate edges that were moved from
-        // v to u, so the "hidden edges stackBottom" is in the next
-        // position down.
-        int hiddenEdgesStackBottomIndex = sp_GetCurrentSize(theGraph->theStack) - 7;
-        int hiddenEdgesStackBottomValue = sp_Get(theGraph->theStack, hiddenEdgesStackBottomIndex);
-
-        sp_Set(theGraph->theStack, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue - 1);
-
-        return result;
-    }
+        return gp_ContractEdge(theGraph, e);
 
     // Now, u and v are not adjacent. Before we do any edge hiding or
     // moving, we record the current stack size, as this is the
-- 
2.43.0


From f1d346e85b65dcffdb19a2ba4df616c851f32e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:14 +0000
Subject: [PATCH 04/65] fix: gp_LeastAncestor clears the visited flags before
 its traversal

gp_SortVertices leaves every vertex marked visited, so gp_LeastAncestor skipped
all vertices and computed nothing.
---
 c/graphLib/graphDFSUtils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/graphLib/graphDFSUtils.c b/c/graphLib/graphDFSUtils.c
index 997952f..60f6707 100644
--- a/c/graphLib/graphDFSUtils.c
+++ b/c/graphLib/graphDFSUtils.c
@@ -405,6 +405,8 @@ int gp_LeastAncestor(graphP theGraph)
 
     sp_ClearStack(theStack);
 
+    _ClearVertexVisitedFlags(theGraph, FALSE);
+
     // This outer loop causes the connected subgraphs of a disconnected graph to be processed
     for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v);)
     {
-- 
2.43.0


From 5266267760da0fe3f8a5407d7ddf4b6dcd8b2979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:10 +0000
Subject: [PATCH 05/65] fix: read adjacency matrix flags one digit at a time
 from a string

---
 c/graphLib/io/graphIO.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 3a0fed4..5a8a4d5 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -64,9 +64,11 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
                 fscanf(Infile, " %1d", &Flag);
             else
             {
+                // Each flag is a single digit, and the digits of a row may be adjacent
                 sb_ReadSkipWhitespace(inBuf);
-                sscanf(sb_GetReadString(inBuf), " %1d", &Flag);
-                sb_ReadSkipInteger(inBuf);
+                if (sscanf(sb_GetReadString(inBuf), " %1d", &Flag) != 1)
+                    return NOTOK;
+                sb_ReadSkipChar(inBuf);
             }
 
             // Add the edge (v, w) if the flag is raised
-- 
2.43.0


From 2bb2d5f51cb47574e503c38f75557433c7689778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:10 +0000
Subject: [PATCH 06/65] fix: release the row buffer when a digraph is refused
 by _WriteAdjMatrix()

---
 c/graphLib/io/graphIO.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 5a8a4d5..6156c59 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -672,7 +672,10 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         while (gp_IsArc(e))
         {
             if (gp_GetDirection(theGraph, e) == EDGEFLAG_DIRECTION_INONLY)
+            {
+                free(Row);
                 return NOTOK;
+            }
 
             if (gp_GetNeighbor(theGraph, e) > v)
                 Row[gp_GetNeighbor(theGraph, e) - gp_GetFirstVertex(theGraph)] = '1';
-- 
2.43.0


From ee577fe25c8f92ea6fbe755673a3dd83a86006ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:10 +0000
Subject: [PATCH 07/65] fix: write the graph6 order byte of a graph with one
 vertex

---
 c/graphLib/io/g6-write-iterator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 44f0691..f65f116 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -323,7 +323,7 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 			g6Encoding[3 - i] = intermediate & 63;
 			g6Encoding[3 - i] += 63;
 		}
-	} else if (graphOrder > 1 && graphOrder < 63) {
+	} else if (graphOrder > 0 && graphOrder < 63) {
 		g6Encoding[0] = graphOrder + 63;
 	}
 
-- 
2.43.0


From c32345f985195aa712a765b164d10f7adb150d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:10 +0000
Subject: [PATCH 08/65] fix: do not read before the buffer when validating the
 empty graph6 encoding of a graph with one vertex

---
 c/graphLib/io/g6-read-iterator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 55759f4..1b6a2dc 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -587,7 +587,7 @@ int _validateGraphEncoding(char *graphBuff, const int graphOrder, const int numC
 	// Check that there are no extraneous bits in representation (since we pad out to a
 	// multiple of 6 before splitting into bytes and adding 63 to each byte)
 	int expectedNumPaddingZeroes = _getExpectedNumPaddingZeroes(graphOrder, numChars);
-	char finalByte = graphBuff[numChars - 1] - 63;
+	char finalByte = numChars > 0 ? graphBuff[numChars - 1] - 63 : 0;
 	int numPaddingZeroes = 0;
 	for (int i = 0; i < expectedNumPaddingZeroes; i++)
 	{
-- 
2.43.0


From 03755c0761e9d914a3feac3f7243e0a4b64ca200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:34 +0000
Subject: [PATCH 09/65] fix: separate and count the graphs written by the
 graph6 write iterator

---
 c/graphLib/io/g6-write-iterator.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index f65f116..8fb62d2 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -455,11 +455,20 @@ int _printEncodedGraph(G6WriteIterator *pG6WriteIterator)
 		return NOTOK;
 	}
 
+	// Each graph after the first one starts on a new line
+	if (pG6WriteIterator->numGraphsWritten > 0 && sf_fputs("\n", pG6WriteIterator->g6Output) < 0)
+	{
+		ErrorMessage("Failed to output line separator.\n");
+		return NOTOK;
+	}
+
 	if (sf_fputs(pG6WriteIterator->currGraphBuff, pG6WriteIterator->g6Output) < 0)
 	{
 		ErrorMessage("Failed to output all characters of g6 encoding.\n");
 		exitCode = NOTOK;
 	}
+	else
+		pG6WriteIterator->numGraphsWritten++;
 
 	return exitCode;
 }
-- 
2.43.0


From 8bd449e8c516989a02a38b8a90c62d328697c6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:14 +0000
Subject: [PATCH 10/65] fix: refuse invalid characters in a multi-byte graph6
 order

---
 c/graphLib/io/g6-read-iterator.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 1b6a2dc..67d4b7a 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -377,8 +377,13 @@ int _getGraphOrder(strOrFileP g6Input, int *graphOrder)
 
 		for (int i = 2; i >= 0; i--)
 		{
-			graphChar = sf_getc(g6Input) - 63;
-			n |= graphChar << (6 * i);
+			graphChar = sf_getc(g6Input);
+			if (graphChar < 63 || graphChar > 126)
+			{
+				ErrorMessage("Invalid character in graph order.\n");
+				return NOTOK;
+			}
+			n |= (graphChar - 63) << (6 * i);
 		}
 
 		if (n > 100000)
-- 
2.43.0


From 7736b020ba870aca2b35bd18609742f217e375a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:14 +0000
Subject: [PATCH 11/65] fix: refuse graph6 input that ends after the graph
 order

---
 c/graphLib/io/g6-read-iterator.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 67d4b7a..78e6206 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -511,6 +511,17 @@ int readGraphUsingG6ReadIterator(G6ReadIterator *pG6ReadIterator)
 		
 		pG6ReadIterator->numGraphsRead = numGraphsRead;
 	}
+	else if (numGraphsRead == 0)
+	{
+		// The order of the first graph has been read, so its encoding must follow, if it has one
+		if (numCharsForGraphEncoding > 0)
+		{
+			ErrorMessage("Encoding of the first graph is missing.\n");
+			return NOTOK;
+		}
+
+		pG6ReadIterator->numGraphsRead = 1;
+	}
 	else
 		pG6ReadIterator->currGraph = NULL;
 
-- 
2.43.0


From 46e3d5baa0dc0dc7b00190f94cecd39f19245fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:14 +0000
Subject: [PATCH 12/65] fix: report failures of reading a graph6 graph to the
 caller

---
 c/graphLib/io/g6-read-iterator.c | 51 +++++++++++++++++---------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 78e6206..8c97299 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -760,9 +760,7 @@ int _ReadGraphFromG6FilePath(graphP pGraphToRead, char *pathToG6File)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -772,14 +770,17 @@ int _ReadGraphFromG6FilePath(graphP pGraphToRead, char *pathToG6File)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
@@ -806,9 +807,7 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -818,14 +817,17 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
@@ -855,9 +857,7 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -867,14 +867,17 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
-- 
2.43.0


From 917e04154868f056dcf2eb1a6420ad40daf40766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:14 +0000
Subject: [PATCH 13/65] fix: gp_ReadFromString() releases its input and buffer
 on every path

---
 c/graphLib/io/g6-read-iterator.c |  2 ++
 c/graphLib/io/graphIO.c          | 13 +++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 8c97299..606da90 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -839,6 +839,8 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (g6EncodedString == NULL || strlen(g6EncodedString) == 0)
 	{
 		ErrorMessage("Input string is empty.\n");
+		if (g6EncodedString != NULL)
+			free(g6EncodedString);
 		return NOTOK;
 	}
 
diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 6156c59..f92123d 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -477,12 +477,15 @@ int gp_ReadFromString(graphP theGraph, char *inputStr)
 {
     int RetVal;
     bool extraDataAllowed = false;
+    strBufP inBuf = NULL;
 
-    strBufP inBuf = sb_New(0);
+    if (inputStr == NULL)
+        return NOTOK;
+
+    inBuf = sb_New(0);
     if (inBuf == NULL)
     {
-        if (inputStr != NULL)
-            free(inputStr);
+        free(inputStr);
         return NOTOK;
     }
 
@@ -498,9 +501,7 @@ int gp_ReadFromString(graphP theGraph, char *inputStr)
 
     if (strncmp(inputStr, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
     {
-        if (inputStr != NULL)
-            free(inputStr);
-        return NOTOK;
+        RetVal = NOTOK;
     }
     else if (strncmp(inputStr, "N=", strlen("N=")) == 0)
     {
-- 
2.43.0


From 81d39f08480ca8390ad66cc3ba0119bdea32a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:14 +0000
Subject: [PATCH 14/65] fix: refuse adjacency lists and matrices whose numbers
 cannot be read

---
 c/graphLib/io/graphIO.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index f92123d..9233e84 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -61,7 +61,10 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
         {
             // Read each of v's w-neighbor flags
             if (Infile != NULL)
-                fscanf(Infile, " %1d", &Flag);
+            {
+                if (fscanf(Infile, " %1d", &Flag) != 1)
+                    return NOTOK;
+            }
             else
             {
                 // Each flag is a single digit, and the digits of a row may be adjacent
@@ -148,10 +151,15 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
     {
         // Read the vertex number
         if (Infile != NULL)
-            fscanf(Infile, "%d", &indexValue);
+        {
+            if (fscanf(Infile, "%d", &indexValue) != 1)
+                return NOTOK;
+        }
         else
         {
-            sscanf(sb_GetReadString(inBuf), "%d", &indexValue);
+            if (sscanf(sb_GetReadString(inBuf), "%d", &indexValue) != 1)
+                return NOTOK;
+            sb_ReadSkipWhitespace(inBuf);
             sb_ReadSkipInteger(inBuf);
         }
 
@@ -209,11 +217,15 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
         {
             // Read the value indicating the next adjacent vertex (or the list end)
             if (Infile != NULL)
-                fscanf(Infile, " %d ", &W);
+            {
+                if (fscanf(Infile, " %d ", &W) != 1)
+                    return NOTOK;
+            }
             else
             {
                 sb_ReadSkipWhitespace(inBuf);
-                sscanf(sb_GetReadString(inBuf), " %d ", &W);
+                if (sscanf(sb_GetReadString(inBuf), " %d ", &W) != 1)
+                    return NOTOK;
                 sb_ReadSkipInteger(inBuf);
                 sb_ReadSkipWhitespace(inBuf);
             }
-- 
2.43.0


From 3aec3ee7ef797d428aa844215d6eda1c022d703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:14 +0000
Subject: [PATCH 15/65] fix: skipping a character does not move the read
 position past the end of the string

---
 c/graphLib/io/strbuf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/io/strbuf.h b/c/graphLib/io/strbuf.h
index d8891ad..2725943 100644
--- a/c/graphLib/io/strbuf.h
+++ b/c/graphLib/io/strbuf.h
@@ -39,7 +39,7 @@ strBufP sb_Duplicate(strBufP);
 
 void sb_ReadSkipWhitespace(strBufP);
 void sb_ReadSkipInteger(strBufP);
-#define sb_ReadSkipChar(theStrBuf) { theStrBuf->readPos++; }
+#define sb_ReadSkipChar(theStrBuf) { if (theStrBuf->buf[theStrBuf->readPos] != '\0') theStrBuf->readPos++; }
 
 int sb_ConcatString(strBufP, char *);
 int sb_ConcatChar(strBufP, char);
-- 
2.43.0


From aeb187c530ff1b956bffdbb37dfef179a402e236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:14 +0000
Subject: [PATCH 16/65] fix: skip the same integers that sscanf() reads

---
 c/graphLib/io/strbuf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index 1ab64a6..b9e3a89 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -154,14 +154,14 @@ void sb_ReadSkipWhitespace(strBufP theStrBuf)
 /********************************************************************
  sb_ReadSkipInteger()
  Advances the read position managed by the string buffer by skipping
- an initial negative sign, if present, then skipping any number of
+ an initial sign, if present, then skipping any number of
  numeric digits, if present.
  ********************************************************************/
 void sb_ReadSkipInteger(strBufP theStrBuf)
 {
     if (theStrBuf != NULL && theStrBuf->buf != NULL)
     {
-        if (theStrBuf->buf[theStrBuf->readPos] == '-')
+        if (theStrBuf->buf[theStrBuf->readPos] == '-' || theStrBuf->buf[theStrBuf->readPos] == '+')
             theStrBuf->readPos++;
 
         while (isdigit(theStrBuf->buf[theStrBuf->readPos]))
-- 
2.43.0


From cd51b720e71b5f7cb5b7badc6141c30e1e593e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:14 +0000
Subject: [PATCH 17/65] fix: refuse LEDA graphs that are truncated or name
 vertices outside the graph

---
 c/graphLib/io/graphIO.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 9233e84..fff145b 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -332,34 +332,37 @@ int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
 {
     char Line[256];
     int N = -1;
-    int M, m, u, v, ErrorCode;
+    int M = -1, m, u, v, ErrorCode;
     int zeroBasedOffset = gp_GetFirstVertex(theGraph) == 0 ? 1 : 0;
 
     /* Skip the lines that say LEDA.GRAPH and give the node and edge types */
-    fgets(Line, 255, Infile);
-
-    fgets(Line, 255, Infile);
-    fgets(Line, 255, Infile);
+    if (fgets(Line, 255, Infile) == NULL ||
+        fgets(Line, 255, Infile) == NULL ||
+        fgets(Line, 255, Infile) == NULL)
+        return NOTOK;
 
     /* Read the number of vertices N, initialize the graph, then skip N. */
-    fgets(Line, 255, Infile);
-    sscanf(Line, " %d", &N);
+    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &N) != 1)
+        return NOTOK;
 
     if (gp_InitGraph(theGraph, N) != OK)
         return NOTOK;
 
     for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        fgets(Line, 255, Infile);
+        if (fgets(Line, 255, Infile) == NULL)
+            return NOTOK;
 
     /* Read the number of edges */
-    fgets(Line, 255, Infile);
-    sscanf(Line, " %d", &M);
+    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &M) != 1)
+        return NOTOK;
 
     /* Read and add each edge, omitting loops and parallel edges */
     for (m = 0; m < M; m++)
     {
-        fgets(Line, 255, Infile);
-        sscanf(Line, " %d %d", &u, &v);
+        if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d %d", &u, &v) != 2)
+            return NOTOK;
+        if (u < 1 || u > N || v < 1 || v > N)
+            return NOTOK;
         if (u != v && !gp_IsNeighbor(theGraph, u - zeroBasedOffset, v - zeroBasedOffset))
         {
             if ((ErrorCode = gp_DynamicAddEdge(theGraph, u - zeroBasedOffset, 0, v - zeroBasedOffset, 0)) != OK)
-- 
2.43.0


From cf0b8875e8b0852bfd38734444ffbee88ab4dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:14 +0000
Subject: [PATCH 18/65] fix: gp_Read() refuses empty files and terminates the
 extra data it passes on

---
 c/graphLib/io/graphIO.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index fff145b..6f612f7 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -406,7 +406,12 @@ int gp_Read(graphP theGraph, char *FileName)
     else if ((Infile = fopen(FileName, READTEXT)) == NULL)
         return NOTOK;
 
-    fgets(lineBuff, 255, Infile);
+    if (fgets(lineBuff, 255, Infile) == NULL)
+    {
+        if (strcmp(FileName, "stdin") != 0)
+            fclose(Infile);
+        return NOTOK;
+    }
     // Reset file pointer to beginning of file
     fseek(Infile, 0, SEEK_SET);
     if (strncmp(lineBuff, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
@@ -450,7 +455,15 @@ int gp_Read(graphP theGraph, char *FileName)
         if (filePos < fileSize)
         {
             extraData = malloc(fileSize - filePos + 1);
-            fread(extraData, fileSize - filePos, 1, Infile);
+            if (extraData == NULL || fread(extraData, fileSize - filePos, 1, Infile) != 1)
+            {
+                if (extraData != NULL)
+                    free(extraData);
+                extraData = NULL;
+                RetVal = NOTOK;
+            }
+            else
+                ((char *)extraData)[fileSize - filePos] = '\0';
         }
         /*
                 // Useful for quick debugging of IO extensibility
-- 
2.43.0


From 8e43167871fca1d9de7e42b9b190eadbaa051b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:14 +0000
Subject: [PATCH 19/65] fix: do not write extension data after a graph6
 encoding

---
 c/graphLib/io/graphIO.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 6f612f7..a6f1bf3 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -922,7 +922,9 @@ int gp_Write(graphP theGraph, char *FileName, int Mode)
         void *extraData = NULL;
         long extraDataSize;
 
-        RetVal = theGraph->functions.fpWritePostprocess(theGraph, &extraData, &extraDataSize);
+        // The .g6 format has no room for extra data, and its writer has closed the file
+        if (Mode != WRITE_G6)
+            RetVal = theGraph->functions.fpWritePostprocess(theGraph, &extraData, &extraDataSize);
 
         if (extraData != NULL)
         {
@@ -990,7 +992,9 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
         void *extraData = NULL;
         long extraDataSize;
 
-        RetVal = theGraph->functions.fpWritePostprocess(theGraph, &extraData, &extraDataSize);
+        // The .g6 format has no room for extra data
+        if (Mode != WRITE_G6)
+            RetVal = theGraph->functions.fpWritePostprocess(theGraph, &extraData, &extraDataSize);
 
         if (extraData != NULL)
         {
-- 
2.43.0


From 50c730011fb8f9e5c72c87954a759b6eeb228bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:38 +0000
Subject: [PATCH 20/65] fix: refuse truncated or malformed drawing data instead
 of reading past it

---
 .../graphDrawPlanar_Extensions.c              | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 92aee53..c8db26e 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -572,30 +572,39 @@ int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDat
             if (extraData == NULL)
                 return NOTOK;
 
-            // Advance past the start tag
-            extraData = (void *) ((char *) extraData + strlen(line)+1);
+            // Advance past the line containing the start tag
+            extraData = strchr(extraData, '\n');
+            if (extraData == NULL)
+                return NOTOK;
+            extraData = (void *) ((char *) extraData + 1);
 
             // Read the N lines of vertex information
             for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
             {
-                sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
+                if (sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
                               &context->VI[v].pos,
                               &context->VI[v].start,
-                              &context->VI[v].end);
+                              &context->VI[v].end) != 5)
+                    return NOTOK;
 
-                extraData = strchr(extraData, '\n') + 1;
+                if ((extraData = strchr(extraData, '\n')) == NULL)
+                    return NOTOK;
+                extraData = (void *) ((char *) extraData + 1);
             }
 
             // Read the lines that contain edge information
             EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
             for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
             {
-                sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
+                if (sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
                               &context->E[e].pos,
                               &context->E[e].start,
-                              &context->E[e].end);
+                              &context->E[e].end) != 5)
+                    return NOTOK;
 
-                extraData = strchr(extraData, '\n') + 1;
+                if ((extraData = strchr(extraData, '\n')) == NULL)
+                    return NOTOK;
+                extraData = (void *) ((char *) extraData + 1);
             }
         }
 
-- 
2.43.0


From 184663f316e4e61a3ad14a0be24609c1fd444ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:52 +0000
Subject: [PATCH 21/65] fix: clearing a graph forgets the vertex information it
 released

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 234b61e..0a4a807 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -842,7 +842,7 @@ void _ClearGraph(graphP theGraph)
     if (theGraph->VI != NULL)
     {
         free(theGraph->VI);
-        theGraph->V = NULL;
+        theGraph->VI = NULL;
     }
     if (theGraph->E != NULL)
     {
-- 
2.43.0


From 54c35119692d521925252c979950dbb3d569c744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:10 +0000
Subject: [PATCH 22/65] fix: restore the line endings of graphUtils.c that an
 earlier fix changed

---
 c/graphLib/graphUtils.c | 5066 +++++++++++++++++++--------------------
 1 file changed, 2533 insertions(+), 2533 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 0a4a807..49f3f4f 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1,2533 +1,2533 @@
-/*
-Copyright (c) 1997-2022, John M. Boyer
-All rights reserved.
-See the LICENSE.TXT file for licensing information.
-*/
-
-#include <stdlib.h>
-
-#include "graphStructures.h"
-#include "graph.h"
-
-/* Imported functions for FUNCTION POINTERS */
-
-extern int _EmbeddingInitialize(graphP theGraph);
-extern int _SortVertices(graphP theGraph);
-extern void _EmbedBackEdgeToDescendant(graphP theGraph, int RootSide, int RootVertex, int W, int WPrevLink);
-extern void _WalkUp(graphP theGraph, int v, int e);
-extern int _WalkDown(graphP theGraph, int v, int RootVertex);
-extern int _MergeBicomps(graphP theGraph, int v, int RootVertex, int W, int WPrevLink);
-extern void _MergeVertex(graphP theGraph, int W, int WPrevLink, int R);
-extern int _HandleBlockedBicomp(graphP theGraph, int v, int RootVertex, int R);
-extern int _HandleInactiveVertex(graphP theGraph, int BicompRoot, int *pW, int *pWPrevLink);
-extern int _MarkDFSPath(graphP theGraph, int ancestor, int descendant);
-extern int _EmbedPostprocess(graphP theGraph, int v, int edgeEmbeddingResult);
-extern int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph);
-extern int _CheckObstructionIntegrity(graphP theGraph, graphP origGraph);
-extern int _ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize);
-extern int _WritePostprocess(graphP theGraph, void **pExtraData, long *pExtraDataSize);
-
-/* Internal util functions for FUNCTION POINTERS */
-
-int _HideVertex(graphP theGraph, int vertex);
-void _HideEdge(graphP theGraph, int arcPos);
-void _RestoreEdge(graphP theGraph, int arcPos);
-int _ContractEdge(graphP theGraph, int e);
-int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore);
-int _RestoreVertex(graphP theGraph);
-
-/********************************************************************
- Private functions, except exported within library
- ********************************************************************/
-
-void _InitIsolatorContext(graphP theGraph);
-void _ClearVisitedFlags(graphP theGraph);
-void _ClearVertexVisitedFlags(graphP theGraph, int);
-void _ClearEdgeVisitedFlags(graphP theGraph);
-int _ClearVisitedFlagsInBicomp(graphP theGraph, int BicompRoot);
-int _ClearVisitedFlagsInOtherBicomps(graphP theGraph, int BicompRoot);
-void _ClearVisitedFlagsInUnembeddedEdges(graphP theGraph);
-int _FillVertexVisitedInfoInBicomp(graphP theGraph, int BicompRoot, int FillValue);
-int _ClearVertexTypeInBicomp(graphP theGraph, int BicompRoot);
-
-int _HideInternalEdges(graphP theGraph, int vertex);
-int _RestoreInternalEdges(graphP theGraph, int stackBottom);
-int _RestoreHiddenEdges(graphP theGraph, int stackBottom);
-
-int _GetBicompSize(graphP theGraph, int BicompRoot);
-int _DeleteUnmarkedEdgesInBicomp(graphP theGraph, int BicompRoot);
-int _ClearInvertedFlagsInBicomp(graphP theGraph, int BicompRoot);
-
-void _InitFunctionTable(graphP theGraph);
-
-/********************************************************************
- Private functions.
- ********************************************************************/
-
-void _InitVertices(graphP theGraph);
-void _InitEdges(graphP theGraph);
-
-void _ClearGraph(graphP theGraph);
-
-int _GetRandomNumber(int NMin, int NMax);
-
-/* Private functions for which there are FUNCTION POINTERS */
-
-void _InitVertexRec(graphP theGraph, int v);
-void _InitVertexInfo(graphP theGraph, int v);
-void _InitEdgeRec(graphP theGraph, int e);
-
-int _InitGraph(graphP theGraph, int N);
-void _ReinitializeGraph(graphP theGraph);
-int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity);
-
-/********************************************************************
- gp_New()
- Constructor for graph object.
- Can create two graphs if restricted to no dynamic memory.
- ********************************************************************/
-
-graphP gp_New(void)
-{
-    graphP theGraph = (graphP)malloc(sizeof(baseGraphStructure));
-
-    if (theGraph != NULL)
-    {
-        theGraph->E = NULL;
-        theGraph->V = NULL;
-        theGraph->VI = NULL;
-
-        theGraph->BicompRootLists = NULL;
-        theGraph->sortedDFSChildLists = NULL;
-        theGraph->theStack = NULL;
-
-        theGraph->extFace = NULL;
-
-        theGraph->edgeHoles = NULL;
-
-        theGraph->extensions = NULL;
-
-        _InitFunctionTable(theGraph);
-
-        _ClearGraph(theGraph);
-    }
-
-    return theGraph;
-}
-
-/********************************************************************
- _InitFunctionTable()
-
- If you add functions to the function table, then they must be
- initialized here, but you must also add the new function pointer
- to the definition of the graphFunctionTable in graphFunctionTable.h
-
- Function headers for the functions used to initialize the table are
- classified at the top of this file as either imported from other
- compilation units (extern) or private to this compilation unit.
- Search for FUNCTION POINTERS in this file to see where to add the
- function header.
- ********************************************************************/
-
-void _InitFunctionTable(graphP theGraph)
-{
-    theGraph->functions.fpEmbeddingInitialize = _EmbeddingInitialize;
-    theGraph->functions.fpEmbedBackEdgeToDescendant = _EmbedBackEdgeToDescendant;
-    theGraph->functions.fpWalkUp = _WalkUp;
-    theGraph->functions.fpWalkDown = _WalkDown;
-    theGraph->functions.fpMergeBicomps = _MergeBicomps;
-    theGraph->functions.fpMergeVertex = _MergeVertex;
-    theGraph->functions.fpHandleBlockedBicomp = _HandleBlockedBicomp;
-    theGraph->functions.fpHandleInactiveVertex = _HandleInactiveVertex;
-    theGraph->functions.fpEmbedPostprocess = _EmbedPostprocess;
-    theGraph->functions.fpMarkDFSPath = _MarkDFSPath;
-    theGraph->functions.fpCheckEmbeddingIntegrity = _CheckEmbeddingIntegrity;
-    theGraph->functions.fpCheckObstructionIntegrity = _CheckObstructionIntegrity;
-
-    theGraph->functions.fpInitGraph = _InitGraph;
-    theGraph->functions.fpReinitializeGraph = _ReinitializeGraph;
-    theGraph->functions.fpEnsureArcCapacity = _EnsureArcCapacity;
-    theGraph->functions.fpSortVertices = _SortVertices;
-
-    theGraph->functions.fpReadPostprocess = _ReadPostprocess;
-    theGraph->functions.fpWritePostprocess = _WritePostprocess;
-
-    theGraph->functions.fpHideEdge = _HideEdge;
-    theGraph->functions.fpRestoreEdge = _RestoreEdge;
-    theGraph->functions.fpHideVertex = _HideVertex;
-    theGraph->functions.fpRestoreVertex = _RestoreVertex;
-    theGraph->functions.fpContractEdge = _ContractEdge;
-    theGraph->functions.fpIdentifyVertices = _IdentifyVertices;
-}
-
-/********************************************************************
- gp_InitGraph()
- Allocates memory for vertex and edge records now that N is known.
- The arcCapacity is set to (2 * DEFAULT_EDGE_LIMIT * N) unless it
-     has already been set by gp_EnsureArcCapacity()
-
- For V, we need 2N vertex records, N for vertices and N for virtual vertices (root copies).
-
- For VI, we need N vertexInfo records.
-
- For E, we need arcCapacity edge records.
-
- The BicompRootLists and sortedDFSChildLists are of size N and start out empty.
-
- The stack, initially empty, is made big enough for a pair of integers
-     per edge record (2 * arcCapacity), or 6N integers if the arcCapacity
-     was set below the default value.
-
- The edgeHoles stack, initially empty, is set to arcCapacity / 2,
-     which is big enough to push every edge (to indicate an edge
-     you only need to indicate one of its two edge records)
-
-  Returns OK on success, NOTOK on all failures.
-          On NOTOK, graph extensions are freed so that the graph is
-          returned to the post-condition of gp_New().
- ********************************************************************/
-
-int gp_InitGraph(graphP theGraph, int N)
-{
-    // valid params check
-    if (theGraph == NULL || N <= 0)
-        return NOTOK;
-
-    // Should not call init a second time; use reinit
-    if (theGraph->N)
-        return NOTOK;
-
-    return theGraph->functions.fpInitGraph(theGraph, N);
-}
-
-int _InitGraph(graphP theGraph, int N)
-{
-    int Vsize, VIsize, Esize, stackSize;
-
-    // Compute the vertex and edge capacities of the graph
-    theGraph->N = N;
-    theGraph->NV = N;
-    theGraph->arcCapacity = theGraph->arcCapacity > 0 ? theGraph->arcCapacity : 2 * DEFAULT_EDGE_LIMIT * N;
-    VIsize = gp_PrimaryVertexIndexBound(theGraph);
-    Vsize = gp_VertexIndexBound(theGraph);
-    Esize = gp_EdgeIndexBound(theGraph);
-
-    // Stack size is 2 integers per arc, or 6 integers per vertex in case of small arcCapacity
-    stackSize = 2 * Esize;
-    stackSize = stackSize < 6 * N ? 6 * N : stackSize;
-
-    // Allocate memory as described above
-    if ((theGraph->V = (vertexRecP)calloc(Vsize, sizeof(vertexRec))) == NULL ||
-        (theGraph->VI = (vertexInfoP)calloc(VIsize, sizeof(vertexInfo))) == NULL ||
-        (theGraph->E = (edgeRecP)calloc(Esize, sizeof(edgeRec))) == NULL ||
-        (theGraph->BicompRootLists = LCNew(VIsize)) == NULL ||
-        (theGraph->sortedDFSChildLists = LCNew(VIsize)) == NULL ||
-        (theGraph->theStack = sp_New(stackSize)) == NULL ||
-        (theGraph->extFace = (extFaceLinkRecP)calloc(Vsize, sizeof(extFaceLinkRec))) == NULL ||
-        (theGraph->edgeHoles = sp_New(Esize / 2)) == NULL ||
-        0)
-    {
-        _ClearGraph(theGraph);
-        return NOTOK;
-    }
-
-    // Initialize memory
-    _InitVertices(theGraph);
-    _InitEdges(theGraph);
-    _InitIsolatorContext(theGraph);
-
-    return OK;
-}
-
-/********************************************************************
- _InitVertices()
- ********************************************************************/
-void _InitVertices(graphP theGraph)
-{
-#if NIL == 0
-    memset(theGraph->V, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(vertexRec));
-    memset(theGraph->VI, NIL_CHAR, gp_PrimaryVertexIndexBound(theGraph) * sizeof(vertexInfo));
-    memset(theGraph->extFace, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(extFaceLinkRec));
-#elif NIL == -1
-    int v;
-
-    memset(theGraph->V, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(vertexRec));
-    memset(theGraph->VI, NIL_CHAR, gp_PrimaryVertexIndexBound(theGraph) * sizeof(vertexInfo));
-    memset(theGraph->extFace, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(extFaceLinkRec));
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        gp_InitVertexFlags(theGraph, v);
-
-#else
-    int v;
-
-    // Initialize primary vertices
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        _InitVertexRec(theGraph, v);
-        _InitVertexInfo(theGraph, v);
-        gp_SetExtFaceVertex(theGraph, v, 0, NIL);
-        gp_SetExtFaceVertex(theGraph, v, 1, NIL);
-    }
-
-    // Initialize virtual vertices
-    for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
-    {
-        _InitVertexRec(theGraph, v);
-        gp_SetExtFaceVertex(theGraph, v, 0, NIL);
-        gp_SetExtFaceVertex(theGraph, v, 1, NIL);
-    }
-#endif
-}
-
-/********************************************************************
- _InitEdges()
- ********************************************************************/
-void _InitEdges(graphP theGraph)
-{
-#if NIL == 0
-    memset(theGraph->E, NIL_CHAR, gp_EdgeIndexBound(theGraph) * sizeof(edgeRec));
-#elif NIL == -1
-    int e, Esize;
-
-    memset(theGraph->E, NIL_CHAR, gp_EdgeIndexBound(theGraph) * sizeof(edgeRec));
-
-    Esize = gp_EdgeIndexBound(theGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
-        gp_InitEdgeFlags(theGraph, e);
-
-#else
-    int e, Esize;
-
-    Esize = gp_EdgeIndexBound(theGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
-        _InitEdgeRec(theGraph, e);
-#endif
-}
-
-/********************************************************************
- gp_ReinitializeGraph()
- Reinitializes a graph, restoring it to the state it was in immediately
- after gp_InitGraph() processed it.
- ********************************************************************/
-
-void gp_ReinitializeGraph(graphP theGraph)
-{
-    if (theGraph == NULL || theGraph->N <= 0)
-        return;
-
-    theGraph->functions.fpReinitializeGraph(theGraph);
-}
-
-void _ReinitializeGraph(graphP theGraph)
-{
-    theGraph->M = 0;
-    theGraph->internalFlags = theGraph->embedFlags = 0;
-
-    _InitVertices(theGraph);
-    _InitEdges(theGraph);
-    _InitIsolatorContext(theGraph);
-
-    LCReset(theGraph->BicompRootLists);
-    LCReset(theGraph->sortedDFSChildLists);
-    sp_ClearStack(theGraph->theStack);
-    sp_ClearStack(theGraph->edgeHoles);
-}
-
-/********************************************************************
- gp_GetArcCapacity()
- Returns the arcCapacity of theGraph, which is twice the maximum
- number of edges that can be added to the theGraph.
- ********************************************************************/
-int gp_GetArcCapacity(graphP theGraph)
-{
-    return theGraph->arcCapacity;
-}
-
-/********************************************************************
- gp_EnsureArcCapacity()
- This method ensures that theGraph is or will be capable of storing
- at least requiredArcCapacity edge records.  Two edge records are
- needed per edge.
-
- This method is most performant when invoked immediately after
- gp_New(), since it must only set the arcCapacity and then let
- normal initialization to occur through gp_InitGraph().
-
- This method is also a constant time operation if the graph already
- has at least the requiredArcCapacity, since it will return OK
- without making any structural changes.
-
- This method is generally more performant if it is invoked before
- attaching extensions to the graph.  Some extensions associate
- parallel data with edge records, which is a faster operation if
- the associated data is created and initialized only after the
- proper arcCapacity is specified.
-
- If the graph has been initialized and has a lower arc capacity,
- then the array of edge records is reallocated to satisfy the
- requiredArcCapacity.  The new array contains the old edges and
- edge holes at the same locations, and all newly created edge records
- are initialized.
-
- Also, if the arc capacity must be increased, then the
- arcCapacity member of theGraph is changed and both
- theStack and edgeHoles are expanded (since the sizes of both
- are based on the arc capacity).
-
- Extensions that add to data associated with edges must overload
- this method to ensure capacity in the parallel extension data
- structures.  An extension can return NOTOK if it does not
- support arc capacity expansion.  The extension function will
- not be called if arcCapacity is expanded before the graph is
- initialized, and it is assumed that extensions will allocate
- parallel data structures according to the arc capacity.
-
- If an extension supports arc capacity expansion, then higher
- performance can be obtained by using the method of unhooking
- the initializers for individual edge records before invoking
- the superclass version of fpEnsureArcCapacity().  Ideally,
- application authors should ensure the proper arc capacity before
- attaching extensions to achieve better performance.
-
- Returns NOTOK on failure to reallocate the edge record array to
-         satisfy the requiredArcCapacity, or if the requested
-         capacity is odd
-         OK if reallocation is not required or if reallocation succeeds
- ********************************************************************/
-int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
-{
-    if (theGraph == NULL || requiredArcCapacity <= 0)
-        return NOTOK;
-
-    // Train callers to only ask for an even number of arcs, since
-    // two are required per edge or directed edge.
-    if (requiredArcCapacity & 1)
-        return NOTOK;
-
-    if (theGraph->arcCapacity >= requiredArcCapacity)
-        return OK;
-
-    // In the special case where gp_InitGraph() has not yet been called,
-    // we can simply set the higher arcCapacity since normal initialization
-    // will then allocate the correct number of edge records.
-    if (theGraph->N == 0)
-    {
-        theGraph->arcCapacity = requiredArcCapacity;
-        return OK;
-    }
-
-    // Try to expand the arc capacity
-    return theGraph->functions.fpEnsureArcCapacity(theGraph, requiredArcCapacity);
-}
-
-int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
-{
-    stackP newStack;
-    int e, Esize = gp_EdgeIndexBound(theGraph),
-           newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity;
-
-    // If the new size is less than or equal to the old size, then
-    // the graph already has the required arc capacity
-    if (newEsize <= Esize)
-        return OK;
-
-    // Expand theStack
-    if (sp_GetCapacity(theGraph->theStack) < 2 * requiredArcCapacity)
-    {
-        int stackSize = 2 * requiredArcCapacity;
-
-        if (stackSize < 6 * theGraph->N)
-        {
-            // NOTE: Since this routine only makes the stack bigger, this
-            //       calculation is not needed here because we already ensured
-            //       we had stack capacity of the greater of 2*arcs and 6*N
-            //       But we do it for clarity and consistency (e.g. so this rule
-            //       is not forgotten whenever a "SetArcCapacity" method or a
-            //       "reduceArcCapacity" method is added)
-            stackSize = 6 * theGraph->N;
-        }
-
-        if ((newStack = sp_New(stackSize)) == NULL)
-            return NOTOK;
-
-        sp_CopyContent(newStack, theGraph->theStack);
-        sp_Free(&theGraph->theStack);
-        theGraph->theStack = newStack;
-    }
-
-    // Expand edgeHoles
-    if ((newStack = sp_New(requiredArcCapacity / 2)) == NULL)
-    {
-        return NOTOK;
-    }
-
-    sp_CopyContent(newStack, theGraph->edgeHoles);
-    sp_Free(&theGraph->edgeHoles);
-    theGraph->edgeHoles = newStack;
-
-    // Reallocate the edgeRec array to the new size,
-    theGraph->E = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
-    if (theGraph->E == NULL)
-        return NOTOK;
-
-    // Initialize the new edge records
-    for (e = Esize; e < newEsize; e++)
-        _InitEdgeRec(theGraph, e);
-
-    // The new arcCapacity has been successfully achieved
-    theGraph->arcCapacity = requiredArcCapacity;
-    return OK;
-}
-
-/********************************************************************
- _InitVertexRec()
- Sets the fields in a single vertex record to initial values
- ********************************************************************/
-
-void _InitVertexRec(graphP theGraph, int v)
-{
-    gp_SetFirstArc(theGraph, v, NIL);
-    gp_SetLastArc(theGraph, v, NIL);
-    gp_SetVertexIndex(theGraph, v, NIL);
-    gp_InitVertexFlags(theGraph, v);
-}
-
-/********************************************************************
- _InitVertexInfo()
- Sets the fields in a single vertex record to initial values
- ********************************************************************/
-
-void _InitVertexInfo(graphP theGraph, int v)
-{
-    gp_SetVertexParent(theGraph, v, NIL);
-    gp_SetVertexLeastAncestor(theGraph, v, NIL);
-    gp_SetVertexLowpoint(theGraph, v, NIL);
-
-    gp_SetVertexVisitedInfo(theGraph, v, NIL);
-    gp_SetVertexPertinentEdge(theGraph, v, NIL);
-    gp_SetVertexPertinentRootsList(theGraph, v, NIL);
-    gp_SetVertexFuturePertinentChild(theGraph, v, NIL);
-    gp_SetVertexSortedDFSChildList(theGraph, v, NIL);
-    gp_SetVertexFwdArcList(theGraph, v, NIL);
-}
-
-/********************************************************************
- _InitEdgeRec()
- Sets the fields in a single edge record structure to initial values
- ********************************************************************/
-
-void _InitEdgeRec(graphP theGraph, int e)
-{
-    gp_SetNeighbor(theGraph, e, NIL);
-    gp_SetPrevArc(theGraph, e, NIL);
-    gp_SetNextArc(theGraph, e, NIL);
-    gp_InitEdgeFlags(theGraph, e);
-}
-
-/********************************************************************
- _InitIsolatorContext()
- ********************************************************************/
-
-void _InitIsolatorContext(graphP theGraph)
-{
-    isolatorContextP IC = &theGraph->IC;
-
-    IC->minorType = 0;
-    IC->v = IC->r = IC->x = IC->y = IC->w = IC->px = IC->py = IC->z =
-        IC->ux = IC->dx = IC->uy = IC->dy = IC->dw = IC->uz = IC->dz = NIL;
-}
-
-/********************************************************************
- _ClearVisitedFlags()
- ********************************************************************/
-
-void _ClearVisitedFlags(graphP theGraph)
-{
-    _ClearVertexVisitedFlags(theGraph, TRUE);
-    _ClearEdgeVisitedFlags(theGraph);
-}
-
-/********************************************************************
- _ClearVertexVisitedFlags()
- ********************************************************************/
-
-void _ClearVertexVisitedFlags(graphP theGraph, int includeVirtualVertices)
-{
-    int v;
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        gp_ClearVertexVisited(theGraph, v);
-
-    if (includeVirtualVertices)
-        for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
-            gp_ClearVertexVisited(theGraph, v);
-}
-
-/********************************************************************
- _ClearEdgeVisitedFlags()
- ********************************************************************/
-
-void _ClearEdgeVisitedFlags(graphP theGraph)
-{
-    int e, EsizeOccupied;
-
-    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
-        gp_ClearEdgeVisited(theGraph, e);
-}
-
-/********************************************************************
- _ClearVisitedFlagsInBicomp()
-
- Clears the visited flag of the vertices and arcs in the bicomp rooted
- by BicompRoot.
-
- This method uses the stack but preserves whatever may have been
- on it.  In debug mode, it will return NOTOK if the stack overflows.
- This method pushes at most one integer per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure.
- ********************************************************************/
-
-int _ClearVisitedFlagsInBicomp(graphP theGraph, int BicompRoot)
-{
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-    int v, e;
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, v);
-        gp_ClearVertexVisited(theGraph, v);
-
-        e = gp_GetFirstArc(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            gp_ClearEdgeVisited(theGraph, e);
-
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearVisitedFlagsInOtherBicomps()
- Typically, we want to clear all visited flags in the graph
- (see _ClearVisitedFlags).  However, in some algorithms this would be
- too costly, so it is necessary to clear the visited flags only
- in one bicomp (see _ClearVisitedFlagsInBicomp), then do some processing
- that sets some of the flags then performs some tests.  If the tests
- are positive, then we can clear all the visited flags in the
- other bicomps (the processing may have set the visited flags in the
- one bicomp in a particular way that we want to retain, so we skip
- the given bicomp).
- ********************************************************************/
-
-int _ClearVisitedFlagsInOtherBicomps(graphP theGraph, int BicompRoot)
-{
-    int R;
-
-    for (R = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, R); R++)
-    {
-        if (R != BicompRoot && gp_VirtualVertexInUse(theGraph, R))
-        {
-            if (_ClearVisitedFlagsInBicomp(theGraph, R) != OK)
-                return NOTOK;
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearVisitedFlagsInUnembeddedEdges()
- Unembedded edges aren't part of any bicomp yet, but it may be
- necessary to clear their visited flags.
- ********************************************************************/
-
-void _ClearVisitedFlagsInUnembeddedEdges(graphP theGraph)
-{
-    int v, e;
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        e = gp_GetVertexFwdArcList(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            gp_ClearEdgeVisited(theGraph, e);
-            gp_ClearEdgeVisited(theGraph, gp_GetTwinArc(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-            if (e == gp_GetVertexFwdArcList(theGraph, v))
-                e = NIL;
-        }
-    }
-}
-
-/****************************************************************************
- _ClearVisitedFlagsOnPath()
- This method clears the visited flags on the vertices and edges on the path
- (u, v, ..., w, x) in which all vertices except the endpoints u and x
- are degree 2.  This method avoids performing more than constant work at the
- path endpoints u and x, so the total work is on the order of the path length.
-
- Returns OK on success, NOTOK on internal failure
- ****************************************************************************/
-
-int _ClearVisitedFlagsOnPath(graphP theGraph, int u, int v, int w, int x)
-{
-    int e, eTwin;
-
-    // We want to exit u from e, but we get eTwin first here in order to avoid
-    // work, in case the degree of u is greater than 2.
-    eTwin = gp_GetNeighborEdgeRecord(theGraph, v, u);
-    if (gp_IsNotArc(eTwin))
-        return NOTOK;
-    e = gp_GetTwinArc(theGraph, eTwin);
-
-    v = u;
-
-    do
-    {
-        // Mark the vertex and the exiting edge
-        gp_ClearVertexVisited(theGraph, v);
-        gp_ClearEdgeVisited(theGraph, e);
-        gp_ClearEdgeVisited(theGraph, eTwin);
-
-        // Get the next vertex
-        v = gp_GetNeighbor(theGraph, e);
-        e = gp_GetNextArcCircular(theGraph, eTwin);
-        eTwin = gp_GetTwinArc(theGraph, e);
-    } while (v != x);
-
-    // Mark the last vertex with 'visited'
-    gp_ClearVertexVisited(theGraph, x);
-
-    return OK;
-}
-
-/****************************************************************************
- _SetVisitedFlagsOnPath()
- This method sets the visited flags on the vertices and edges on the path
- (u, v, ..., w, x) in which all vertices except the endpoints u and x
- are degree 2.  This method avoids performing more than constant work at the
- path endpoints u and x, so the total work is on the order of the path length.
-
- Returns OK on success, NOTOK on internal failure
- ****************************************************************************/
-
-int _SetVisitedFlagsOnPath(graphP theGraph, int u, int v, int w, int x)
-{
-    int e, eTwin;
-
-    // We want to exit u from e, but we get eTwin first here in order to avoid
-    // work, in case the degree of u is greater than 2.
-    eTwin = gp_GetNeighborEdgeRecord(theGraph, v, u);
-    if (gp_IsNotArc(eTwin))
-        return NOTOK;
-    e = gp_GetTwinArc(theGraph, eTwin);
-
-    v = u;
-
-    do
-    {
-        // Mark the vertex and the exiting edge
-        gp_SetVertexVisited(theGraph, v);
-        gp_SetEdgeVisited(theGraph, e);
-        gp_SetEdgeVisited(theGraph, eTwin);
-
-        // Get the next vertex
-        v = gp_GetNeighbor(theGraph, e);
-        e = gp_GetNextArcCircular(theGraph, eTwin);
-        eTwin = gp_GetTwinArc(theGraph, e);
-    } while (v != x);
-
-    // Mark the last vertex with 'visited'
-    gp_SetVertexVisited(theGraph, x);
-
-    return OK;
-}
-
-/********************************************************************
- _FillVertexVisitedInfoInBicomp()
-
- Places the FillValue into the visitedInfo of the non-virtual vertices
- in the bicomp rooted by BicompRoot.
-
- This method uses the stack but preserves whatever may have been
- on it.  In debug mode, it will return NOTOK if the stack overflows.
- This method pushes at most one integer per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure.
- ********************************************************************/
-
-int _FillVertexVisitedInfoInBicomp(graphP theGraph, int BicompRoot, int FillValue)
-{
-    int v, e;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, v);
-
-        if (gp_IsNotVirtualVertex(theGraph, v))
-            gp_SetVertexVisitedInfo(theGraph, v, FillValue);
-
-        e = gp_GetFirstArc(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearVertexTypeInBicomp()
-
- Clears the 'obstruction type' bits for each vertex in the bicomp
- rooted by BicompRoot.
-
- This method uses the stack but preserves whatever may have been
- on it.  In debug mode, it will return NOTOK if the stack overflows.
- This method pushes at most one integer per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure.
- ********************************************************************/
-
-int _ClearVertexTypeInBicomp(graphP theGraph, int BicompRoot)
-{
-    int V, e;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, V);
-        gp_ClearVertexObstructionType(theGraph, V);
-
-        e = gp_GetFirstArc(theGraph, V);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearGraph()
- Clears all memory used by the graph, restoring it to the state it
- was in immediately after gp_New() created it.
- ********************************************************************/
-
-void _ClearGraph(graphP theGraph)
-{
-    if (theGraph->V != NULL)
-    {
-        free(theGraph->V);
-        theGraph->V = NULL;
-    }
-    if (theGraph->VI != NULL)
-    {
-        free(theGraph->VI);
-        theGraph->VI = NULL;
-    }
-    if (theGraph->E != NULL)
-    {
-        free(theGraph->E);
-        theGraph->E = NULL;
-    }
-
-    theGraph->N = 0;
-    theGraph->NV = 0;
-    theGraph->M = 0;
-    theGraph->arcCapacity = 0;
-    theGraph->internalFlags = 0;
-    theGraph->embedFlags = 0;
-
-    _InitIsolatorContext(theGraph);
-
-    LCFree(&theGraph->BicompRootLists);
-    LCFree(&theGraph->sortedDFSChildLists);
-
-    sp_Free(&theGraph->theStack);
-
-    if (theGraph->extFace != NULL)
-    {
-        free(theGraph->extFace);
-        theGraph->extFace = NULL;
-    }
-
-    sp_Free(&theGraph->edgeHoles);
-
-    gp_FreeExtensions(theGraph);
-}
-
-/********************************************************************
- gp_Free()
- Frees G and V, then the graph record.  Then sets your pointer to NULL
- (so you must pass the address of your pointer).
- ********************************************************************/
-
-void gp_Free(graphP *pGraph)
-{
-    if (pGraph == NULL)
-        return;
-    if (*pGraph == NULL)
-        return;
-
-    _ClearGraph(*pGraph);
-
-    free(*pGraph);
-    *pGraph = NULL;
-}
-
-/********************************************************************
- gp_CopyAdjacencyLists()
- Copies the adjacency lists from the srcGraph to the dstGraph.
- This method intentionally copies only the adjacency lists of the
- first N vertices, so the adjacency lists of virtual vertices are
- excluded (unless the caller temporarily resets the value of N to
- include NV).
-
- Returns OK on success, NOTOK on failures, e.g. if the two graphs
- have different orders N or if the arcCapacity of dstGraph cannot
- be increased to match that of srcGraph.
- ********************************************************************/
-int gp_CopyAdjacencyLists(graphP dstGraph, graphP srcGraph)
-{
-    int v, e, EsizeOccupied;
-
-    if (dstGraph == NULL || srcGraph == NULL)
-        return NOTOK;
-
-    if (dstGraph->N != srcGraph->N || dstGraph->N == 0)
-        return NOTOK;
-
-    if (gp_EnsureArcCapacity(dstGraph, srcGraph->arcCapacity) != OK)
-        return NOTOK;
-
-    // Copy the links that hook each owning vertex to its adjacency list
-    for (v = gp_GetFirstVertex(srcGraph); gp_VertexInRange(srcGraph, v); v++)
-    {
-        gp_SetFirstArc(dstGraph, v, gp_GetFirstArc(srcGraph, v));
-        gp_SetLastArc(dstGraph, v, gp_GetLastArc(srcGraph, v));
-    }
-
-    // Copy the adjacency links and neighbor pointers for each arc
-    EsizeOccupied = gp_EdgeInUseIndexBound(srcGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
-    {
-        gp_SetNeighbor(dstGraph, e, gp_GetNeighbor(srcGraph, e));
-        gp_SetNextArc(dstGraph, e, gp_GetNextArc(srcGraph, e));
-        gp_SetPrevArc(dstGraph, e, gp_GetPrevArc(srcGraph, e));
-    }
-
-    // Tell the dstGraph how many edges it now has and where the edge holes are
-    dstGraph->M = srcGraph->M;
-    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
-
-    return OK;
-}
-
-/********************************************************************
- gp_CopyGraph()
- Copies the content of the srcGraph into the dstGraph.  The dstGraph
- must have been previously initialized with the same number of
- vertices as the srcGraph (e.g. gp_InitGraph(dstGraph, srcGraph->N).
-
- Returns OK for success, NOTOK for failure.
- ********************************************************************/
-
-int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
-{
-    int v, e, Esize;
-
-    // Parameter checks
-    if (dstGraph == NULL || srcGraph == NULL)
-    {
-        return NOTOK;
-    }
-
-    // The graphs need to be the same order and initialized
-    if (dstGraph->N != srcGraph->N || dstGraph->N == 0)
-    {
-        return NOTOK;
-    }
-
-    // Ensure dstGraph has the required arc capacity; this expands
-    // dstGraph if needed, but does not contract.  An error is only
-    // returned if the expansion fails.
-    if (gp_EnsureArcCapacity(dstGraph, srcGraph->arcCapacity) != OK)
-    {
-        return NOTOK;
-    }
-
-    // Copy the primary vertices.  Augmentations to vertices created
-    // by extensions are copied below by gp_CopyExtensions()
-    for (v = gp_GetFirstVertex(srcGraph); gp_VertexInRange(srcGraph, v); v++)
-    {
-        gp_CopyVertexRec(dstGraph, v, srcGraph, v);
-        gp_CopyVertexInfo(dstGraph, v, srcGraph, v);
-        gp_SetExtFaceVertex(dstGraph, v, 0, gp_GetExtFaceVertex(srcGraph, v, 0));
-        gp_SetExtFaceVertex(dstGraph, v, 1, gp_GetExtFaceVertex(srcGraph, v, 1));
-    }
-
-    // Copy the virtual vertices.  Augmentations to virtual vertices created
-    // by extensions are copied below by gp_CopyExtensions()
-    for (v = gp_GetFirstVirtualVertex(srcGraph); gp_VirtualVertexInRange(srcGraph, v); v++)
-    {
-        gp_CopyVertexRec(dstGraph, v, srcGraph, v);
-        gp_SetExtFaceVertex(dstGraph, v, 0, gp_GetExtFaceVertex(srcGraph, v, 0));
-        gp_SetExtFaceVertex(dstGraph, v, 1, gp_GetExtFaceVertex(srcGraph, v, 1));
-    }
-
-    // Copy the basic EdgeRec structures.  Augmentations to the edgeRec structure
-    // created by extensions are copied below by gp_CopyExtensions()
-    Esize = gp_EdgeIndexBound(srcGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
-        gp_CopyEdgeRec(dstGraph, e, srcGraph, e);
-
-    // Give the dstGraph the same size and intrinsic properties
-    dstGraph->N = srcGraph->N;
-    dstGraph->NV = srcGraph->NV;
-    dstGraph->M = srcGraph->M;
-    dstGraph->internalFlags = srcGraph->internalFlags;
-    dstGraph->embedFlags = srcGraph->embedFlags;
-
-    dstGraph->IC = srcGraph->IC;
-
-    LCCopy(dstGraph->BicompRootLists, srcGraph->BicompRootLists);
-    LCCopy(dstGraph->sortedDFSChildLists, srcGraph->sortedDFSChildLists);
-    sp_Copy(dstGraph->theStack, srcGraph->theStack);
-    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
-
-    // Copy the set of extensions, which includes copying the
-    // extension data as well as the function overload tables
-    if (gp_CopyExtensions(dstGraph, srcGraph) != OK)
-        return NOTOK;
-
-    // Copy the graph's function table, which has the pointers to
-    // the most recent extension overloads of each function (or
-    // the original function pointer if a particular function has
-    // not been overloaded).
-    // This must be done after copying the extension because the
-    // first step of copying the extensions is to delete the
-    // dstGraph extensions, which clears its function table.
-    // Therefore, no good to assign the srcGraph functions *before*
-    // copying the extensions because the assignment would be wiped out
-    // This, in turn, means that the DupContext function of an extension
-    // *cannot* depend on any extension function overloads; the extension
-    // must directly invoke extension functions only.
-    dstGraph->functions = srcGraph->functions;
-
-    return OK;
-}
-
-/********************************************************************
- gp_DupGraph()
- ********************************************************************/
-
-graphP gp_DupGraph(graphP theGraph)
-{
-    graphP result;
-
-    if ((result = gp_New()) == NULL)
-        return NULL;
-
-    if (gp_InitGraph(result, theGraph->N) != OK ||
-        gp_CopyGraph(result, theGraph) != OK)
-    {
-        gp_Free(&result);
-        return NULL;
-    }
-
-    return result;
-}
-
-/********************************************************************
- gp_CreateRandomGraph()
-
- Creates a randomly generated graph.  First a tree is created by
- connecting each vertex to some successor.  Then a random number of
- additional random edges are added.  If an edge already exists, then
- we retry until a non-existent edge is picked.
-
- This function assumes the caller has already called srand().
-
- Returns OK on success, NOTOK on failure
- ********************************************************************/
-
-int gp_CreateRandomGraph(graphP theGraph)
-{
-    int N, M, u, v, m;
-
-    N = theGraph->N;
-
-    /* Generate a random tree; note that this method virtually guarantees
-            that the graph will be renumbered, but it is linear time.
-            Also, we are not generating the DFS tree but rather a tree
-            that simply ensures the resulting random graph is connected. */
-
-    for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
-    {
-        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), v - 1);
-        if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
-            return NOTOK;
-    }
-
-    /* Generate a random number of additional edges
-            (actually, leave open a small chance that no
-            additional edges will be added). */
-
-    M = _GetRandomNumber(7 * N / 8, theGraph->arcCapacity / 2);
-
-    if (M > N * (N - 1) / 2)
-        M = N * (N - 1) / 2;
-
-    for (m = N - 1; m < M; m++)
-    {
-        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph) - 1);
-        v = _GetRandomNumber(u + 1, gp_GetLastVertex(theGraph));
-
-        // If the edge (u,v) exists, decrement eIndex to try again
-        if (gp_IsNeighbor(theGraph, u, v))
-            m--;
-
-        // If the edge (u,v) doesn't exist, add it
-        else
-        {
-            if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
-                return NOTOK;
-        }
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _GetRandomNumber()
- This function generates a random number between NMin and NMax
- inclusive.  It assumes that the caller has called srand().
- It calls rand(), but before truncating to the proper range,
- it adds the high bits of the rand() result into the low bits.
- The result of this is that the randomness appearing in the
- truncated bits also has an affect on the non-truncated bits.
- ********************************************************************/
-
-int _GetRandomNumber(int NMin, int NMax)
-{
-    int N = rand();
-
-    if (NMax < NMin)
-        return NMin;
-
-    N += ((N & 0xFFFF0000) >> 16);
-    N += ((N & 0x0000FF00) >> 8);
-    N &= 0x7FFFFFF;
-    N %= (NMax - NMin + 1);
-    return N + NMin;
-}
-
-/********************************************************************
- _getUnprocessedChild()
- Support routine for gp_Create RandomGraphEx(), this function
- obtains a child of the given vertex in the randomly generated
- tree that has not yet been processed.  NIL is returned if the
- given vertex has no unprocessed children
-
- ********************************************************************/
-
-int _getUnprocessedChild(graphP theGraph, int parent)
-{
-    int e = gp_GetFirstArc(theGraph, parent);
-    int eTwin = gp_GetTwinArc(theGraph, e);
-    int child = gp_GetNeighbor(theGraph, e);
-
-    // The tree edges were added to the beginning of the adjacency list,
-    // and we move processed tree edge records to the end of the list,
-    // so if the immediate next arc (edge record) is not a tree edge
-    // then we return NIL because the vertex has no remaining
-    // unprocessed children
-    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_NOTDEFINED)
-        return NIL;
-
-    // If the child has already been processed, then all children
-    // have been pushed to the end of the list, and we have just
-    // encountered the first child we processed, so there are no
-    // remaining unprocessed children */
-    if (gp_GetEdgeVisited(theGraph, e))
-        return NIL;
-
-    // We have found an edge leading to an unprocessed child, so
-    // we mark it as processed so that it doesn't get returned
-    // again in future iterations.
-    gp_SetEdgeVisited(theGraph, e);
-    gp_SetEdgeVisited(theGraph, eTwin);
-
-    // Now we move the edge record in the parent vertex to the end
-    // of the adjacency list of that vertex.
-    gp_MoveArcToLast(theGraph, parent, e);
-
-    // Now we move the edge record in the child vertex to the
-    // end of the adjacency list of the child.
-    gp_MoveArcToLast(theGraph, child, eTwin);
-
-    // Now we set the child's parent and return the child.
-    gp_SetVertexParent(theGraph, child, parent);
-
-    return child;
-}
-
-/********************************************************************
- _hasUnprocessedChild()
- Support routine for gp_Create RandomGraphEx(), this function
- obtains a child of the given vertex in the randomly generated
- tree that has not yet been processed.  False (0) is returned
- unless the given vertex has an unprocessed child.
- ********************************************************************/
-
-int _hasUnprocessedChild(graphP theGraph, int parent)
-{
-    int e = gp_GetFirstArc(theGraph, parent);
-
-    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_NOTDEFINED)
-        return 0;
-
-    if (gp_GetEdgeVisited(theGraph, e))
-        return 0;
-
-    return 1;
-}
-
-/********************************************************************
- gp_CreateRandomGraphEx()
- Given a graph structure with a pre-specified number of vertices N,
- this function creates a graph with the specified number of edges.
-
- If numEdges <= 3N-6, then the graph generated is planar.  If
- numEdges is larger, then a maximal planar graph is generated, then
- (numEdges - 3N + 6) additional random edges are added.
-
- This function assumes the caller has already called srand().
- ********************************************************************/
-
-int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
-{
-    int N, arc, M, root, v, c, p, last, u, e, EsizeOccupied;
-
-    N = theGraph->N;
-
-    if (numEdges > theGraph->arcCapacity / 2)
-        numEdges = theGraph->arcCapacity / 2;
-
-    /* Generate a random tree. */
-
-    for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
-    {
-        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), v - 1);
-        if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
-            return NOTOK;
-
-        else
-        {
-            arc = gp_GetNeighborEdgeRecord(theGraph, u, v);
-            gp_SetEdgeType(theGraph, arc, EDGE_TYPE_RANDOMTREE);
-            gp_SetEdgeType(theGraph, gp_GetTwinArc(theGraph, arc), EDGE_TYPE_RANDOMTREE);
-            gp_ClearEdgeVisited(theGraph, arc);
-            gp_ClearEdgeVisited(theGraph, gp_GetTwinArc(theGraph, arc));
-        }
-    }
-
-    /* Add edges up to the limit or until the graph is maximal planar. */
-
-    M = numEdges <= 3 * N - 6 ? numEdges : 3 * N - 6;
-
-    root = gp_GetFirstVertex(theGraph);
-    v = last = _getUnprocessedChild(theGraph, root);
-
-    while (v != root && theGraph->M < M)
-    {
-        c = _getUnprocessedChild(theGraph, v);
-
-        if (gp_IsVertex(c))
-        {
-            if (last != v)
-            {
-                if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
-                    return NOTOK;
-            }
-
-            if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
-                return NOTOK;
-
-            v = last = c;
-        }
-
-        else
-        {
-            p = gp_GetVertexParent(theGraph, v);
-            while (gp_IsVertex(p) && gp_IsNotVertex(c = _getUnprocessedChild(theGraph, p)))
-            {
-                v = p;
-                p = gp_GetVertexParent(theGraph, v);
-                if (gp_IsVertex(p) && p != root)
-                {
-                    if (gp_AddEdge(theGraph, last, 1, p, 1) != OK)
-                        return NOTOK;
-                }
-            }
-
-            if (gp_IsVertex(p))
-            {
-                if (p == root)
-                {
-                    if (gp_AddEdge(theGraph, v, 1, c, 1) != OK)
-                        return NOTOK;
-
-                    if (v != last)
-                    {
-                        if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
-                            return NOTOK;
-                    }
-                }
-                else
-                {
-                    if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
-                        return NOTOK;
-                }
-
-                if (p != root)
-                {
-                    if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
-                        return NOTOK;
-                    last = c;
-                }
-
-                v = c;
-            }
-        }
-    }
-
-    /* Add additional edges if the limit has not yet been reached. */
-
-    while (theGraph->M < numEdges)
-    {
-        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph));
-        v = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph));
-
-        if (u != v && !gp_IsNeighbor(theGraph, u, v))
-            if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
-                return NOTOK;
-    }
-
-    /* Clear the edge types back to 'unknown' */
-
-    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
-    for (e = 0; e < EsizeOccupied; e++)
-    {
-        gp_ClearEdgeType(theGraph, e);
-        gp_ClearEdgeVisited(theGraph, e);
-    }
-
-    /* Put all DFSParent indicators back to NIL */
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        gp_SetVertexParent(theGraph, v, NIL);
-
-    return OK;
-}
-
-/********************************************************************
- gp_IsNeighbor()
-
- Checks whether v is already in u's adjacency list, i.e. does the arc
- u -> v exist.
- If there is an edge record for v in u's list, but it is marked INONLY,
- then it represents the arc v->u but not u->v, so it is ignored.
-
- Returns TRUE or FALSE.
- ********************************************************************/
-
-int gp_IsNeighbor(graphP theGraph, int u, int v)
-{
-    int e = gp_GetFirstArc(theGraph, u);
-
-    while (gp_IsArc(e))
-    {
-        if (gp_GetNeighbor(theGraph, e) == v)
-        {
-            if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
-                return TRUE;
-        }
-        e = gp_GetNextArc(theGraph, e);
-    }
-    return FALSE;
-}
-
-/********************************************************************
- gp_GetNeighborEdgeRecord()
- Searches the adjacency list of u to obtains the edge record for v.
-
- NOTE: The caller should check whether the edge record is INONLY;
-       This method returns any edge record representing a connection
-       between vertices u and v, so this method can return an
-       edge record even if gp_IsNeighbor(theGraph, u, v) is false (0).
-       To filter out INONLY edge records, use gp_GetDirection() on
-       the edge record returned by this method.
-
- Returns NIL if there is no edge record indicating v in u's adjacency
-         list, or the edge record location otherwise.
- ********************************************************************/
-
-int gp_GetNeighborEdgeRecord(graphP theGraph, int u, int v)
-{
-    int e;
-
-    if (gp_IsNotVertex(u) || gp_IsNotVertex(v))
-        return NIL + NOTOK - NOTOK;
-
-    e = gp_GetFirstArc(theGraph, u);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetNeighbor(theGraph, e) == v)
-            return e;
-
-        e = gp_GetNextArc(theGraph, e);
-    }
-    return NIL;
-}
-
-/********************************************************************
- gp_GetVertexDegree()
-
- Counts the number of edge records in the adjacency list of a given
- vertex V.
-
- Note: For digraphs, this method returns the total degree of the
-       vertex, including outward arcs (undirected and OUTONLY)
-       as well as INONLY arcs.  Other functions are defined to get
-       the in-degree or out-degree of the vertex.
-
- Note: This function determines the degree by counting.  An extension
-       could cache the degree value of each vertex and update the
-       cached value as edges are added and deleted.
- ********************************************************************/
-
-int gp_GetVertexDegree(graphP theGraph, int v)
-{
-    int e, degree;
-
-    if (theGraph == NULL || gp_IsNotVertex(v))
-        return 0 + NOTOK - NOTOK;
-
-    degree = 0;
-
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        degree++;
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    return degree;
-}
-
-/********************************************************************
- gp_GetVertexInDegree()
-
- Counts the number of edge records in the adjacency list of a given
- vertex V that represent arcs from another vertex into V.
- This includes undirected edges and INONLY arcs, so it only excludes
- edges records that are marked as OUTONLY arcs.
-
- Note: This function determines the in-degree by counting.  An extension
-       could cache the in-degree value of each vertex and update the
-       cached value as edges are added and deleted.
- ********************************************************************/
-
-int gp_GetVertexInDegree(graphP theGraph, int v)
-{
-    int e, degree;
-
-    if (theGraph == NULL || gp_IsNotVertex(v))
-        return 0 + NOTOK - NOTOK;
-
-    degree = 0;
-
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_OUTONLY)
-            degree++;
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    return degree;
-}
-
-/********************************************************************
- gp_GetVertexOutDegree()
-
- Counts the number of edge records in the adjacency list of a given
- vertex V that represent arcs from V to another vertex.
- This includes undirected edges and OUTONLY arcs, so it only excludes
- edges records that are marked as INONLY arcs.
-
- Note: This function determines the out-degree by counting.  An extension
-       could cache the out-degree value of each vertex and update the
-       cached value as edges are added and deleted.
- ********************************************************************/
-
-int gp_GetVertexOutDegree(graphP theGraph, int v)
-{
-    int e, degree;
-
-    if (theGraph == NULL || gp_IsNotVertex(v))
-        return 0 + NOTOK - NOTOK;
-
-    degree = 0;
-
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
-            degree++;
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    return degree;
-}
-
-/********************************************************************
- gp_AttachArc()
-
- This routine adds newArc into v's adjacency list at a position
- adjacent to the edge record for e, either before or after e,
- depending on link.  If e is not an arc (e.g. if e is NIL),
- then link is assumed to indicate whether the new arc is to be
- placed at the beginning or end of v's adjacency list.
-
- NOTE: The caller can pass NIL for v if e is not NIL, since the
-       vertex is implied (gp_GetNeighbor(theGraph, eTwin))
-
- The arc is assumed to already exist in the data structure (i.e.
- the storage of edges), as only a whole edge (two arcs) can be
- inserted into or deleted from the data structure.  Hence there is
- no such thing as gp_InsertArc() or gp_DeleteArc().
-
- See also gp_DetachArc(), gp_InsertEdge() and gp_DeleteEdge()
- ********************************************************************/
-
-void gp_AttachArc(graphP theGraph, int v, int e, int link, int newArc)
-{
-    if (gp_IsArc(e))
-    {
-        int e2 = gp_GetAdjacentArc(theGraph, e, link);
-
-        // e's link is newArc, and newArc's 1^link is e
-        gp_SetAdjacentArc(theGraph, e, link, newArc);
-        gp_SetAdjacentArc(theGraph, newArc, 1 ^ link, e);
-
-        // newArcs's link is e2
-        gp_SetAdjacentArc(theGraph, newArc, link, e2);
-
-        // if e2 is an arc, then e2's 1^link is newArc, else v's 1^link is newArc
-        if (gp_IsArc(e2))
-            gp_SetAdjacentArc(theGraph, e2, 1 ^ link, newArc);
-        else
-            gp_SetArc(theGraph, v, 1 ^ link, newArc);
-    }
-    else
-    {
-        int e2 = gp_GetArc(theGraph, v, link);
-
-        // v's link is newArc, and newArc's 1^link is NIL
-        gp_SetArc(theGraph, v, link, newArc);
-        gp_SetAdjacentArc(theGraph, newArc, 1 ^ link, NIL);
-
-        // newArcs's elink is e2
-        gp_SetAdjacentArc(theGraph, newArc, link, e2);
-
-        // if e2 is an arc, then e2's 1^link is newArc, else v's 1^link is newArc
-        if (gp_IsArc(e2))
-            gp_SetAdjacentArc(theGraph, e2, 1 ^ link, newArc);
-        else
-            gp_SetArc(theGraph, v, 1 ^ link, newArc);
-    }
-}
-
-/****************************************************************************
- gp_DetachArc()
-
- This routine detaches arc from its adjacency list, but it does not delete
- it from the data structure (only a whole edge can be deleted).
-
- Some algorithms must temporarily detach an edge, perform some calculation,
- and eventually put the edge back. This routine supports that operation.
- The neighboring adjacency list nodes are cross-linked, but the two link
- members of the arc are retained, so the arc can be reattached later by
- invoking _RestoreArc().  A sequence of detached arcs can only be restored
- in the exact opposite order of their detachment.  Thus, algorithms do not
- directly use this method to implement the temporary detach/restore method.
- Instead, gp_HideEdge() and gp_RestoreEdge are used, and algorithms push
- edge hidden edge onto the stack.  One example of this stack usage is
- provided by detaching edges with gp_ContractEdge() or gp_IdentifyVertices(),
- and reattaching with gp_RestoreIdentifications(), which unwinds the stack
- by invoking gp_RestoreVertex().
- ****************************************************************************/
-
-void gp_DetachArc(graphP theGraph, int arc)
-{
-    int nextArc = gp_GetNextArc(theGraph, arc),
-        prevArc = gp_GetPrevArc(theGraph, arc);
-
-    if (gp_IsArc(nextArc))
-        gp_SetPrevArc(theGraph, nextArc, prevArc);
-    else
-        gp_SetLastArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), prevArc);
-
-    if (gp_IsArc(prevArc))
-        gp_SetNextArc(theGraph, prevArc, nextArc);
-    else
-        gp_SetFirstArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), nextArc);
-}
-
-/********************************************************************
- gp_AddEdge()
- Adds the undirected edge (u,v) to the graph by placing edge records
- representing u into v's circular edge record list and v into u's
- circular edge record list.
-
- upos receives the location in G where the u record in v's list will be
-        placed, and vpos is the location in G of the v record we placed in
- u's list.  These are used to initialize the short circuit links.
-
- ulink (0|1) indicates whether the edge record to v in u's list should
-        become adjacent to u by its 0 or 1 link, i.e. u[ulink] == vpos.
- vlink (0|1) indicates whether the edge record to u in v's list should
-        become adjacent to v by its 0 or 1 link, i.e. v[vlink] == upos.
-
- ********************************************************************/
-
-int gp_AddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
-{
-    int upos, vpos;
-
-    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
-        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
-        return NOTOK;
-
-    /* We enforce the edge limit */
-
-    if (theGraph->M >= theGraph->arcCapacity / 2)
-        return NONEMBEDDABLE;
-
-    if (sp_NonEmpty(theGraph->edgeHoles))
-    {
-        sp_Pop(theGraph->edgeHoles, vpos);
-    }
-    else
-        vpos = gp_EdgeInUseIndexBound(theGraph);
-
-    upos = gp_GetTwinArc(theGraph, vpos);
-
-    gp_SetNeighbor(theGraph, upos, v);
-    gp_AttachArc(theGraph, u, NIL, ulink, upos);
-    gp_SetNeighbor(theGraph, vpos, u);
-    gp_AttachArc(theGraph, v, NIL, vlink, vpos);
-
-    theGraph->M++;
-    return OK;
-}
-
-/********************************************************************
- gp_DynamicAddEdge()
- Refer to documentation for gp_AddEdge for parameter description.
-
- Tries to call gp_AddEdge; if NONEMBEDDABLE, doubles the arc
- capacity (up to a max of (N * (N-1))) using gp_EnsureArcCapacity,
- then retries gp_AddEdge.
- ********************************************************************/
-int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
-{
-    int Result = OK;
-
-    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
-        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
-        return NOTOK;
-
-    Result = gp_AddEdge(theGraph, u, ulink, v, vlink);
-
-    if (Result == NONEMBEDDABLE)
-    {
-        int candidateArcCapacity = gp_GetArcCapacity(theGraph) * 2;
-        int N = theGraph->N;
-        int newArcCapacity = (candidateArcCapacity > (N * (N - 1))) ? (N * (N - 1)) : candidateArcCapacity;
-        Result = gp_EnsureArcCapacity(theGraph, newArcCapacity);
-
-        if (Result != OK)
-            return Result;
-
-        Result = gp_AddEdge(theGraph, u, ulink, v, vlink);
-    }
-
-    return Result;
-}
-
-/********************************************************************
- gp_InsertEdge()
-
- This function adds the edge (u, v) such that the edge record added
- to the adjacency list of u is adjacent to e_u and the edge record
- added to the adjacency list of v is adjacent to e_v.
- The direction of adjacency is given by e_ulink for e_u and e_vlink
- for e_v. Specifically, the new edge will be comprised of two arcs,
- n_u and n_v.  In u's (v's) adjacency list, n_u (n_v) will be added
- so that it is indicated by e_u's (e_v's) e_ulink (e_vlink).
- If e_u (or e_v) is not an arc, then e_ulink (e_vlink) indicates
- whether to prepend or append to the adjacency list for u (v).
- ********************************************************************/
-
-int gp_InsertEdge(graphP theGraph, int u, int e_u, int e_ulink,
-                  int v, int e_v, int e_vlink)
-{
-    int vertMax = gp_GetLastVirtualVertex(theGraph),
-        edgeMax = gp_EdgeInUseIndexBound(theGraph) - 1,
-        upos, vpos;
-
-    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
-        u > vertMax || v > vertMax ||
-        e_u > edgeMax || (e_u < gp_GetFirstEdge(theGraph) && gp_IsArc(e_u)) ||
-        e_v > edgeMax || (e_v < gp_GetFirstEdge(theGraph) && gp_IsArc(e_v)) ||
-        e_ulink < 0 || e_ulink > 1 || e_vlink < 0 || e_vlink > 1)
-        return NOTOK;
-
-    if (theGraph->M >= theGraph->arcCapacity / 2)
-        return NONEMBEDDABLE;
-
-    if (sp_NonEmpty(theGraph->edgeHoles))
-    {
-        sp_Pop(theGraph->edgeHoles, vpos);
-    }
-    else
-        vpos = gp_EdgeInUseIndexBound(theGraph);
-
-    upos = gp_GetTwinArc(theGraph, vpos);
-
-    gp_SetNeighbor(theGraph, upos, v);
-    gp_AttachArc(theGraph, u, e_u, e_ulink, upos);
-
-    gp_SetNeighbor(theGraph, vpos, u);
-    gp_AttachArc(theGraph, v, e_v, e_vlink, vpos);
-
-    theGraph->M++;
-
-    return OK;
-}
-
-/****************************************************************************
- gp_DeleteEdge()
-
- This function deletes the given edge record e and its twin, reducing the
- number of edges M in the graph.
- Before the e^th record is deleted, its 'nextLink' adjacency list neighbor
- is collected as the return result.  This is useful when iterating through
- an edge list and making deletions because the nextLink arc is the 'next'
- arc in the iteration, but it is hard to obtain *after* deleting e.
- ****************************************************************************/
-
-int gp_DeleteEdge(graphP theGraph, int e, int nextLink)
-{
-    // Calculate the nextArc after e so that, when e is deleted, the return result
-    // informs a calling loop of the next edge to be processed.
-    int nextArc = gp_GetAdjacentArc(theGraph, e, nextLink);
-
-    // Delete the edge records e and eTwin from their adjacency lists.
-    gp_DetachArc(theGraph, e);
-    gp_DetachArc(theGraph, gp_GetTwinArc(theGraph, e));
-
-    // Clear the two edge records
-    // (the bit twiddle (e & ~1) chooses the lesser of e and its twin arc)
-#if NIL == 0
-    memset(theGraph->E + (e & ~1), NIL_CHAR, sizeof(edgeRec) << 1);
-#else
-    _InitEdgeRec(theGraph, e);
-    _InitEdgeRec(theGraph, gp_GetTwinArc(theGraph, e));
-#endif
-
-    // Now we reduce the number of edges in the data structure
-    theGraph->M--;
-
-    // If records e and eTwin were not the last in the edge record array,
-    // then record a new hole in the edge array. */
-    if (e < gp_EdgeInUseIndexBound(theGraph))
-    {
-        sp_Push(theGraph->edgeHoles, e);
-    }
-
-    // Return the previously calculated successor of e.
-    return nextArc;
-}
-
-/********************************************************************
- _RestoreArc()
- This routine reinserts an arc into the edge list from which it
- was previously removed by gp_DetachArc().
-
- The assumed processing model is that arcs will be restored in reverse
- of the order in which they were hidden, i.e. it is assumed that the
- hidden arcs will be pushed on a stack and the arcs will be popped
- from the stack for restoration.
- ********************************************************************/
-
-void _RestoreArc(graphP theGraph, int arc)
-{
-    int nextArc = gp_GetNextArc(theGraph, arc),
-        prevArc = gp_GetPrevArc(theGraph, arc);
-
-    if (gp_IsArc(nextArc))
-        gp_SetPrevArc(theGraph, nextArc, arc);
-    else
-        gp_SetLastArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), arc);
-
-    if (gp_IsArc(prevArc))
-        gp_SetNextArc(theGraph, prevArc, arc);
-    else
-        gp_SetFirstArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), arc);
-}
-
-/********************************************************************
- gp_HideEdge()
- This routine removes the two arcs of an edge from the adjacency lists
- of its endpoint vertices, but does not delete them from the storage
- data structure.
-
- Many algorithms must temporarily remove an edge, perform some
- calculation, and eventually put the edge back. This routine supports
- that operation.
-
- For each arc, the neighboring adjacency list nodes are cross-linked,
- but the links in the arc are retained because they indicate the
- neighbor arcs to which the arc can be reattached by gp_RestoreEdge().
- ********************************************************************/
-
-void gp_HideEdge(graphP theGraph, int e)
-{
-    theGraph->functions.fpHideEdge(theGraph, e);
-}
-
-void _HideEdge(graphP theGraph, int e)
-{
-    gp_DetachArc(theGraph, e);
-    gp_DetachArc(theGraph, gp_GetTwinArc(theGraph, e));
-}
-
-/********************************************************************
- gp_RestoreEdge()
- This routine reinserts two two arcs of an edge into the adjacency
- lists of the edge's endpoints, the arcs having been previously
- removed by gp_HideEdge().
-
- The assumed processing model is that edges will be restored in
- reverse of the order in which they were hidden, i.e. it is assumed
- that the hidden edges will be pushed on a stack and the edges will
- be popped from the stack for restoration.
-
- Note: Since both arcs of an edge are restored, only one arc need
-        be pushed on the stack for restoration.  This routine
-        restores the two arcs in the opposite order from the order
-        in which they are hidden by gp_HideEdge().
- ********************************************************************/
-
-void gp_RestoreEdge(graphP theGraph, int e)
-{
-    theGraph->functions.fpRestoreEdge(theGraph, e);
-}
-
-void _RestoreEdge(graphP theGraph, int e)
-{
-    _RestoreArc(theGraph, gp_GetTwinArc(theGraph, e));
-    _RestoreArc(theGraph, e);
-}
-
-/********************************************************************
- _HideInternalEdges()
- Pushes onto the graph's stack and hides all arc nodes of the vertex
- except the first and last arcs in the adjacency list of the vertex.
- This method is typically called on a vertex that is on the external
- face of a biconnected component, because the first and last arcs are
- the ones that attach the vertex to the external face cycle, and any
- other arcs in the adjacency list are inside that cycle.
-
- This method uses the stack. The caller is expected to clear the stack
- or save the stack size before invocation, since the stack size is
- needed to _RestoreInternalEdges().
- ********************************************************************/
-
-int _HideInternalEdges(graphP theGraph, int vertex)
-{
-    int e = gp_GetFirstArc(theGraph, vertex);
-
-    // If the vertex adjacency list is empty or if it contains
-    // only one edge, then there are no *internal* edges to hide
-    if (e == gp_GetLastArc(theGraph, vertex))
-        return OK;
-
-    // Start with the first internal edge
-    e = gp_GetNextArc(theGraph, e);
-
-    // Cycle through all the edges, pushing each except stop
-    // before pushing the last edge, which is not internal
-    while (e != gp_GetLastArc(theGraph, vertex))
-    {
-        sp_Push(theGraph->theStack, e);
-        gp_HideEdge(theGraph, e);
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _RestoreInternalEdges()
- Reverses the effects of _HideInternalEdges()
- ********************************************************************/
-
-int _RestoreInternalEdges(graphP theGraph, int stackBottom)
-{
-    return _RestoreHiddenEdges(theGraph, stackBottom);
-}
-
-/********************************************************************
- _RestoreHiddenEdges()
-
- Each entry on the stack, down to stackBottom, is assumed to be an
- edge record (arc) pushed in concert with invoking gp_HideEdge().
- Each edge is restored using gp_RestoreEdge() in exact reverse of the
- hiding order.  The stack is reduced in size to stackBottom.
-
- Returns OK on success, NOTOK on internal failure.
- ********************************************************************/
-
-int _RestoreHiddenEdges(graphP theGraph, int stackBottom)
-{
-    int e;
-
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, e);
-        if (gp_IsNotArc(e))
-            return NOTOK;
-        gp_RestoreEdge(theGraph, e);
-    }
-
-    return OK;
-}
-
-/********************************************************************
- gp_HideVertex()
-
- Pushes onto the graph's stack and hides all arc nodes of the vertex.
- Additional integers are then pushed so that the result is reversible
- by gp_RestoreVertex().  See that method for details on the expected
- stack segment.
-
- Returns OK for success, NOTOK for internal failure.
- ********************************************************************/
-
-int gp_HideVertex(graphP theGraph, int vertex)
-{
-    if (gp_IsNotVertex(vertex))
-        return NOTOK;
-
-    return theGraph->functions.fpHideVertex(theGraph, vertex);
-}
-
-int _HideVertex(graphP theGraph, int vertex)
-{
-    int hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
-    int e = gp_GetFirstArc(theGraph, vertex);
-
-    // Cycle through all the edges, pushing and hiding each
-    while (gp_IsArc(e))
-    {
-        sp_Push(theGraph->theStack, e);
-        gp_HideEdge(theGraph, e);
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // Push the additional integers needed by gp_RestoreVertex()
-    sp_Push(theGraph->theStack, hiddenEdgeStackBottom);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, vertex);
-
-    return OK;
-}
-
-/********************************************************************
- gp_ContractEdge()
-
- Contracts the edge e=(u,v).  This hides the edge (both e and its
- twin arc), and it also identifies vertex v with u.
- See gp_IdentifyVertices() for further details.
-
- Returns OK for success, NOTOK for internal failure.
- ********************************************************************/
-
-int gp_ContractEdge(graphP theGraph, int e)
-{
-    if (gp_IsNotArc(e))
-        return NOTOK;
-
-    return theGraph->functions.fpContractEdge(theGraph, e);
-}
-
-int _ContractEdge(graphP theGraph, int e)
-{
-    int eBefore, u, v, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue;
-
-    if (gp_IsNotArc(e))
-        return NOTOK;
-
-    u = gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, e));
-    v = gp_GetNeighbor(theGraph, e);
-
-    eBefore = gp_GetNextArc(theGraph, e);
-    sp_Push(theGraph->theStack, e);
-    gp_HideEdge(theGraph, e);
-
-    if (gp_IdentifyVertices(theGraph, u, v, eBefore) != OK)
-        return NOTOK;
-
-    // This operation pushes one hidden edge then invokes vertex
-    // identification. That method then pushes K hidden edges then
-    // an integer indicating where the top of stack was before the
-    // edges were hidden. That integer indicator must be decremented,
-    // thereby incrementing the number of hidden edges to K+1.
-    // After pushing the K hidden edges and the stackBottom of
-    // the hidden edges, the vertex identification pushes
-    // six more integers to indicate edges that were moved from
-    // v to u, so the "hidden edges stackBottom" is in the next
-    // position down.
-    hiddenEdgesStackBottomIndex = sp_GetCurrentSize(theGraph->theStack) - 7;
-    hiddenEdgesStackBottomValue = sp_Get(theGraph->theStack, hiddenEdgesStackBottomIndex);
-
-    sp_Set(theGraph->theStack, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue - 1);
-
-    return OK;
-}
-
-/********************************************************************
- gp_IdentifyVertices()
-
- Identifies vertex v with vertex u by transferring all adjacencies
- of v to u.  Any duplicate edges are removed as described below.
- The non-duplicate edges of v are added to the adjacency list of u
- without disturbing their relative order, and they are added before
- the edge record eBefore in u's list. If eBefore is NIL, then the
- edges are simply appended to u's list.
-
- If u and v are adjacent, then gp_HideEdge() is invoked to remove
- the edge e=(u,v). Then, the edges of v that indicate neighbors of
- u are also hidden.  This is done by setting the visited flags of
- u's neighbors, then traversing the adjacency list of v.  For each
- visited neighbor of v, the edge is hidden because it would duplicate
- an adjacency already expressed in u's list. Finally, the remaining
- edges of v are moved to u's list, and each twin arc is adjusted
- to indicate u as a neighbor rather than v.
-
- This routine assumes that the visited flags are clear beforehand,
- and visited flag settings made herein are cleared before returning.
-
- The following are pushed, in order, onto the graph's built-in stack:
- 1) an integer for each hidden edge
- 2) the stack size before any hidden edges were pushed
- 3) six integers that indicate u, v and the edges moved from v to u
-
- An algorithm that identifies a series of vertices, either through
- directly calling this method or via gp_ContractEdge(), can unwind
- the identifications using gp_RestoreIdentifications(), which
- invokes gp_RestoreVertex() repeatedly.
-
- Returns OK on success, NOTOK on internal failure
- ********************************************************************/
-
-int gp_IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
-{
-    return theGraph->functions.fpIdentifyVertices(theGraph, u, v, eBefore);
-}
-
-int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
-{
-    int e = gp_GetNeighborEdgeRecord(theGraph, u, v);
-    int hiddenEdgeStackBottom, eBeforePred;
-
-    // If the vertices are adjacent, then the identification is
-    // essentially an edge contraction.
-    if (gp_IsArc(e))
-        return gp_ContractEdge(theGraph, e);
-
-    // Now, u and v are not adjacent. Before we do any edge hiding or
-    // moving, we record the current stack size, as this is the
-    // stackBottom for the edges that will be hidden next.
-    hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    // Mark as visited all neighbors of u
-    e = gp_GetFirstArc(theGraph, u);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e)))
-            return NOTOK;
-
-        gp_SetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // For each edge record of v, if the neighbor is visited, then
-    // push and hide the edge.
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e)))
-        {
-            sp_Push(theGraph->theStack, e);
-            gp_HideEdge(theGraph, e);
-        }
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // Mark as unvisited all neighbors of u
-    e = gp_GetFirstArc(theGraph, u);
-    while (gp_IsArc(e))
-    {
-        gp_ClearVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // Push the hiddenEdgeStackBottom as a record of how many hidden
-    // edges were pushed (also, see above for Contract Edge adjustment)
-    sp_Push(theGraph->theStack, hiddenEdgeStackBottom);
-
-    // Moving v's adjacency list to u is aided by knowing the predecessor
-    // of u's eBefore (the edge record in u's list before which the
-    // edge records of v will be added).
-    eBeforePred = gp_IsArc(eBefore)
-                      ? gp_GetPrevArc(theGraph, eBefore)
-                      : gp_GetLastArc(theGraph, u);
-
-    // Turns out we only need to record six integers related to the edges
-    // being moved in order to easily restore them later.
-    sp_Push(theGraph->theStack, eBefore);
-    sp_Push(theGraph->theStack, gp_GetLastArc(theGraph, v));
-    sp_Push(theGraph->theStack, gp_GetFirstArc(theGraph, v));
-    sp_Push(theGraph->theStack, eBeforePred);
-    sp_Push(theGraph->theStack, u);
-    sp_Push(theGraph->theStack, v);
-
-    // For the remaining edge records of v, reassign the 'v' member
-    //    of each twin arc to indicate u rather than v.
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        gp_SetNeighbor(theGraph, gp_GetTwinArc(theGraph, e), u);
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // If v has any edges left after hiding edges, indicating common neighbors with u, ...
-    if (gp_IsArc(gp_GetFirstArc(theGraph, v)))
-    {
-        // Then perform the list union of v into u between eBeforePred and eBefore
-        if (gp_IsArc(eBeforePred))
-        {
-            if (gp_IsArc(gp_GetFirstArc(theGraph, v)))
-            {
-                gp_SetNextArc(theGraph, eBeforePred, gp_GetFirstArc(theGraph, v));
-                gp_SetPrevArc(theGraph, gp_GetFirstArc(theGraph, v), eBeforePred);
-            }
-        }
-        else
-        {
-            gp_SetFirstArc(theGraph, u, gp_GetFirstArc(theGraph, v));
-        }
-
-        if (gp_IsArc(eBefore))
-        {
-            if (gp_IsArc(gp_GetLastArc(theGraph, v)))
-            {
-                gp_SetNextArc(theGraph, gp_GetLastArc(theGraph, v), eBefore);
-                gp_SetPrevArc(theGraph, eBefore, gp_GetLastArc(theGraph, v));
-            }
-        }
-        else
-        {
-            gp_SetLastArc(theGraph, u, gp_GetLastArc(theGraph, v));
-        }
-
-        gp_SetFirstArc(theGraph, v, NIL);
-        gp_SetLastArc(theGraph, v, NIL);
-    }
-
-    return OK;
-}
-
-/********************************************************************
- gp_RestoreVertex()
-
- This method assumes the built-in graph stack contents are the result
- of vertex hide, vertex identify and edge contract operations.
- This content consists of segments of integers, each segment
- corresponding to the removal of a vertex during an edge contraction
- or vertex identification in which a vertex v was merged into a
- vertex u.  The segment contains two blocks of integers.
- The first block contains information about u, v, the edge records
- in v's adjacency list that were added to u, and where in u's
- adjacency list they were added.  The second block of integers
- contains a list of edges incident to v that were hidden from the
- graph because they were incident to neighbors of v that were also
- neighbors of u (so they would have produced duplicate edges had
- they been left in v's adjacency list when it was merged with u's
- adjacency list).
-
- This method pops the first block of the segment off the stack and
- uses the information to help remove v's adjacency list from u and
- restore it into v.  Then, the second block is removed from the
- stack, and each indicated edge is restored from the hidden state.
-
- It is anticipated that this method will be overloaded by extension
- algorithms to perform some processing as each vertex is restored.
- Before restoration, the topmost segment has the following structure:
-
- ... FHE ... LHE HESB e_u_succ e_v_last e_v_first e_u_pred u v
-      ^------------|
-
- FHE = First hidden edge
- LHE = Last hidden edge
- HESB = Hidden edge stack bottom
- e_u_succ, e_u_pred = The edges of u between which the edges of v
-                      were inserted. NIL can appear if the edges of v
-                      were added to the beginning or end of u's list
- e_v_first, e_v_last = The first and last edges of v's list, once
-                       the hidden edges were removed
-
- Returns OK for success, NOTOK for internal failure.
- ********************************************************************/
-
-int gp_RestoreVertex(graphP theGraph)
-{
-    return theGraph->functions.fpRestoreVertex(theGraph);
-}
-
-int _RestoreVertex(graphP theGraph)
-{
-    int u, v, e_u_succ, e_u_pred, e_v_first, e_v_last, HESB, e;
-
-    if (sp_GetCurrentSize(theGraph->theStack) < 7)
-        return NOTOK;
-
-    sp_Pop(theGraph->theStack, v);
-    sp_Pop(theGraph->theStack, u);
-    sp_Pop(theGraph->theStack, e_u_pred);
-    sp_Pop(theGraph->theStack, e_v_first);
-    sp_Pop(theGraph->theStack, e_v_last);
-    sp_Pop(theGraph->theStack, e_u_succ);
-
-    // If u is not NIL, then vertex v was identified with u.  Otherwise, v was
-    // simply hidden, so we skip to restoring the hidden edges.
-    if (gp_IsVertex(u))
-    {
-        // Remove v's adjacency list from u, including accounting for degree 0 case
-        if (gp_IsArc(e_u_pred))
-        {
-            gp_SetNextArc(theGraph, e_u_pred, e_u_succ);
-            // If the successor edge exists, link it to the predecessor,
-            // otherwise the predecessor is the new last arc
-            if (gp_IsArc(e_u_succ))
-                gp_SetPrevArc(theGraph, e_u_succ, e_u_pred);
-            else
-                gp_SetLastArc(theGraph, u, e_u_pred);
-        }
-        else if (gp_IsArc(e_u_succ))
-        {
-            // The successor arc exists, but not the predecessor,
-            // so the successor is the new first arc
-            gp_SetPrevArc(theGraph, e_u_succ, NIL);
-            gp_SetFirstArc(theGraph, u, e_u_succ);
-        }
-        else
-        {
-            // Just in case u was degree zero
-            gp_SetFirstArc(theGraph, u, NIL);
-            gp_SetLastArc(theGraph, u, NIL);
-        }
-
-        // Place v's adjacency list into v, including accounting for degree 0 case
-        gp_SetFirstArc(theGraph, v, e_v_first);
-        gp_SetLastArc(theGraph, v, e_v_last);
-        if (gp_IsArc(e_v_first))
-            gp_SetPrevArc(theGraph, e_v_first, NIL);
-        if (gp_IsArc(e_v_last))
-            gp_SetNextArc(theGraph, e_v_last, NIL);
-
-        // For each edge record restored to v's adjacency list, reassign the 'v' member
-        //    of each twin arc to indicate v rather than u.
-        e = e_v_first;
-        while (gp_IsArc(e))
-        {
-            gp_SetNeighbor(theGraph, gp_GetTwinArc(theGraph, e), v);
-            e = (e == e_v_last ? NIL : gp_GetNextArc(theGraph, e));
-        }
-    }
-
-    // Restore the hidden edges of v, if any
-    sp_Pop(theGraph->theStack, HESB);
-    return _RestoreHiddenEdges(theGraph, HESB);
-}
-
-/********************************************************************
- gp_RestoreVertices()
-
- This method assumes the built-in graph stack has content consistent
- with numerous vertex identification or edge contraction operations.
- This method unwinds the stack, moving edges back to their original
- vertex owners and restoring hidden edges.
- This method is a simple iterator that invokes gp_RestoreVertex()
- until the stack is empty, so extension algorithms are more likely
- to overload gp_RestoreVertex().
-
- Returns OK for success, NOTOK for internal failure.
- ********************************************************************/
-
-int gp_RestoreVertices(graphP theGraph)
-{
-    while (sp_NonEmpty(theGraph->theStack))
-    {
-        if (gp_RestoreVertex(theGraph) != OK)
-            return NOTOK;
-    }
-
-    return OK;
-}
-
-/****************************************************************************
- _ComputeArcType()
- This is just a little helper function that automates a sequence of decisions
- that has to be made a number of times.
- An edge record is being added to the adjacency list of a; it indicates that
- b is a neighbor.  The edgeType can be either 'tree' (EDGE_TYPE_PARENT or
- EDGE_TYPE_CHILD) or 'cycle' (EDGE_TYPE_BACK or EDGE_TYPE_FORWARD).
- If a or b is a root copy, we translate to the non-virtual counterpart,
- then wedetermine which has the lesser DFI.  If a has the lower DFI then the
- edge record is a tree edge to a child (EDGE_TYPE_CHILD) if edgeType indicates
- a tree edge.  If edgeType indicates a cycle edge, then it is a forward cycle
- edge (EDGE_TYPE_FORWARD) to a descendant.
- Symmetric conditions define the types for a > b.
- ****************************************************************************/
-
-int _ComputeArcType(graphP theGraph, int a, int b, int edgeType)
-{
-    a = gp_IsVirtualVertex(theGraph, a) ? gp_GetPrimaryVertexFromRoot(theGraph, a) : a;
-    b = gp_IsVirtualVertex(theGraph, b) ? gp_GetPrimaryVertexFromRoot(theGraph, b) : b;
-
-    if (a < b)
-        return edgeType == EDGE_TYPE_PARENT || edgeType == EDGE_TYPE_CHILD ? EDGE_TYPE_CHILD : EDGE_TYPE_FORWARD;
-
-    return edgeType == EDGE_TYPE_PARENT || edgeType == EDGE_TYPE_CHILD ? EDGE_TYPE_PARENT : EDGE_TYPE_BACK;
-}
-
-/****************************************************************************
- _SetEdgeType()
- When we are restoring an edge, we must restore its type (tree edge or cycle edge).
- We can deduce what the type was based on other information in the graph. Each
- arc of the edge gets the appropriate type setting (parent/child or back/forward).
- This method runs in constant time plus the degree of vertex u, or constant
- time if u is known to have a degree bound by a constant.
- ****************************************************************************/
-
-int _SetEdgeType(graphP theGraph, int u, int v)
-{
-    int e, eTwin, u_orig, v_orig;
-
-    // If u or v is a virtual vertex (a root copy), then get the non-virtual counterpart.
-    u_orig = gp_IsVirtualVertex(theGraph, u) ? (gp_GetPrimaryVertexFromRoot(theGraph, u)) : u;
-    v_orig = gp_IsVirtualVertex(theGraph, v) ? (gp_GetPrimaryVertexFromRoot(theGraph, v)) : v;
-
-    // Get the edge for which we will set the type
-
-    e = gp_GetNeighborEdgeRecord(theGraph, u, v);
-    eTwin = gp_GetTwinArc(theGraph, e);
-
-    // If u_orig is the parent of v_orig, or vice versa, then the edge is a tree edge
-
-    if (gp_GetVertexParent(theGraph, v_orig) == u_orig ||
-        gp_GetVertexParent(theGraph, u_orig) == v_orig)
-    {
-        if (u_orig > v_orig)
-        {
-            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_PARENT);
-            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_CHILD);
-        }
-        else
-        {
-            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_PARENT);
-            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_CHILD);
-        }
-    }
-
-    // Otherwise it is a back edge
-
-    else
-    {
-        if (u_orig > v_orig)
-        {
-            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_BACK);
-            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_FORWARD);
-        }
-        else
-        {
-            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_BACK);
-            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_FORWARD);
-        }
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _DeleteUnmarkedEdgesInBicomp()
-
- This function deletes from a given biconnected component all edges
- whose visited member is zero.
-
- The stack is used but preserved. In debug mode, NOTOK can result if
- there is a stack overflow. This method pushes at most one integer
- per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure
- ********************************************************************/
-
-int _DeleteUnmarkedEdgesInBicomp(graphP theGraph, int BicompRoot)
-{
-    int V, e;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, V);
-
-        e = gp_GetFirstArc(theGraph, V);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetEdgeVisited(theGraph, e) ? gp_GetNextArc(theGraph, e) : gp_DeleteEdge(theGraph, e, 0);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearInvertedFlagsInBicomp()
-
- This function clears the inverted flag markers on any edges in a
- given biconnected component.
-
- The stack is used but preserved. In debug mode, NOTOK can result if
- there is a stack overflow. This method pushes at most one integer
- per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure
- ********************************************************************/
-
-int _ClearInvertedFlagsInBicomp(graphP theGraph, int BicompRoot)
-{
-    int V, e;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, V);
-
-        e = gp_GetFirstArc(theGraph, V);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-            {
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-                gp_ClearEdgeFlagInverted(theGraph, e);
-            }
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _GetBicompSize()
-
- Determine the number of vertices in the bicomp.
-
- The stack is used but preserved. In debug mode, NOTOK can result if
- there is a stack overflow. This method pushes at most one integer
- per vertex in the bicomp.
-
- Returns a positive number on success, NOTOK on implementation failure
- ********************************************************************/
-
-int _GetBicompSize(graphP theGraph, int BicompRoot)
-{
-    int V, e;
-    int theSize = 0;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, V);
-        theSize++;
-        e = gp_GetFirstArc(theGraph, V);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return theSize;
-}
-
-/********************************************************************
- debugNOTOK()
- This function provides a non-void wrapper for exit().
- This is useful for debugging as it allows compilation of an exit
- command in places where NOTOK is returned.
- In exhaustive testing, we want to bail on the first NOTOK that occurs.
- Comment out the exit() call to get a stack trace.
- ********************************************************************/
-
-int debugNOTOK(void)
-{
-    // exit(-1);
-    return 0; // NOTOK is normally defined to be zero
-}
+/*
+Copyright (c) 1997-2022, John M. Boyer
+All rights reserved.
+See the LICENSE.TXT file for licensing information.
+*/
+
+#include <stdlib.h>
+
+#include "graphStructures.h"
+#include "graph.h"
+
+/* Imported functions for FUNCTION POINTERS */
+
+extern int _EmbeddingInitialize(graphP theGraph);
+extern int _SortVertices(graphP theGraph);
+extern void _EmbedBackEdgeToDescendant(graphP theGraph, int RootSide, int RootVertex, int W, int WPrevLink);
+extern void _WalkUp(graphP theGraph, int v, int e);
+extern int _WalkDown(graphP theGraph, int v, int RootVertex);
+extern int _MergeBicomps(graphP theGraph, int v, int RootVertex, int W, int WPrevLink);
+extern void _MergeVertex(graphP theGraph, int W, int WPrevLink, int R);
+extern int _HandleBlockedBicomp(graphP theGraph, int v, int RootVertex, int R);
+extern int _HandleInactiveVertex(graphP theGraph, int BicompRoot, int *pW, int *pWPrevLink);
+extern int _MarkDFSPath(graphP theGraph, int ancestor, int descendant);
+extern int _EmbedPostprocess(graphP theGraph, int v, int edgeEmbeddingResult);
+extern int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph);
+extern int _CheckObstructionIntegrity(graphP theGraph, graphP origGraph);
+extern int _ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize);
+extern int _WritePostprocess(graphP theGraph, void **pExtraData, long *pExtraDataSize);
+
+/* Internal util functions for FUNCTION POINTERS */
+
+int _HideVertex(graphP theGraph, int vertex);
+void _HideEdge(graphP theGraph, int arcPos);
+void _RestoreEdge(graphP theGraph, int arcPos);
+int _ContractEdge(graphP theGraph, int e);
+int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore);
+int _RestoreVertex(graphP theGraph);
+
+/********************************************************************
+ Private functions, except exported within library
+ ********************************************************************/
+
+void _InitIsolatorContext(graphP theGraph);
+void _ClearVisitedFlags(graphP theGraph);
+void _ClearVertexVisitedFlags(graphP theGraph, int);
+void _ClearEdgeVisitedFlags(graphP theGraph);
+int _ClearVisitedFlagsInBicomp(graphP theGraph, int BicompRoot);
+int _ClearVisitedFlagsInOtherBicomps(graphP theGraph, int BicompRoot);
+void _ClearVisitedFlagsInUnembeddedEdges(graphP theGraph);
+int _FillVertexVisitedInfoInBicomp(graphP theGraph, int BicompRoot, int FillValue);
+int _ClearVertexTypeInBicomp(graphP theGraph, int BicompRoot);
+
+int _HideInternalEdges(graphP theGraph, int vertex);
+int _RestoreInternalEdges(graphP theGraph, int stackBottom);
+int _RestoreHiddenEdges(graphP theGraph, int stackBottom);
+
+int _GetBicompSize(graphP theGraph, int BicompRoot);
+int _DeleteUnmarkedEdgesInBicomp(graphP theGraph, int BicompRoot);
+int _ClearInvertedFlagsInBicomp(graphP theGraph, int BicompRoot);
+
+void _InitFunctionTable(graphP theGraph);
+
+/********************************************************************
+ Private functions.
+ ********************************************************************/
+
+void _InitVertices(graphP theGraph);
+void _InitEdges(graphP theGraph);
+
+void _ClearGraph(graphP theGraph);
+
+int _GetRandomNumber(int NMin, int NMax);
+
+/* Private functions for which there are FUNCTION POINTERS */
+
+void _InitVertexRec(graphP theGraph, int v);
+void _InitVertexInfo(graphP theGraph, int v);
+void _InitEdgeRec(graphP theGraph, int e);
+
+int _InitGraph(graphP theGraph, int N);
+void _ReinitializeGraph(graphP theGraph);
+int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity);
+
+/********************************************************************
+ gp_New()
+ Constructor for graph object.
+ Can create two graphs if restricted to no dynamic memory.
+ ********************************************************************/
+
+graphP gp_New(void)
+{
+    graphP theGraph = (graphP)malloc(sizeof(baseGraphStructure));
+
+    if (theGraph != NULL)
+    {
+        theGraph->E = NULL;
+        theGraph->V = NULL;
+        theGraph->VI = NULL;
+
+        theGraph->BicompRootLists = NULL;
+        theGraph->sortedDFSChildLists = NULL;
+        theGraph->theStack = NULL;
+
+        theGraph->extFace = NULL;
+
+        theGraph->edgeHoles = NULL;
+
+        theGraph->extensions = NULL;
+
+        _InitFunctionTable(theGraph);
+
+        _ClearGraph(theGraph);
+    }
+
+    return theGraph;
+}
+
+/********************************************************************
+ _InitFunctionTable()
+
+ If you add functions to the function table, then they must be
+ initialized here, but you must also add the new function pointer
+ to the definition of the graphFunctionTable in graphFunctionTable.h
+
+ Function headers for the functions used to initialize the table are
+ classified at the top of this file as either imported from other
+ compilation units (extern) or private to this compilation unit.
+ Search for FUNCTION POINTERS in this file to see where to add the
+ function header.
+ ********************************************************************/
+
+void _InitFunctionTable(graphP theGraph)
+{
+    theGraph->functions.fpEmbeddingInitialize = _EmbeddingInitialize;
+    theGraph->functions.fpEmbedBackEdgeToDescendant = _EmbedBackEdgeToDescendant;
+    theGraph->functions.fpWalkUp = _WalkUp;
+    theGraph->functions.fpWalkDown = _WalkDown;
+    theGraph->functions.fpMergeBicomps = _MergeBicomps;
+    theGraph->functions.fpMergeVertex = _MergeVertex;
+    theGraph->functions.fpHandleBlockedBicomp = _HandleBlockedBicomp;
+    theGraph->functions.fpHandleInactiveVertex = _HandleInactiveVertex;
+    theGraph->functions.fpEmbedPostprocess = _EmbedPostprocess;
+    theGraph->functions.fpMarkDFSPath = _MarkDFSPath;
+    theGraph->functions.fpCheckEmbeddingIntegrity = _CheckEmbeddingIntegrity;
+    theGraph->functions.fpCheckObstructionIntegrity = _CheckObstructionIntegrity;
+
+    theGraph->functions.fpInitGraph = _InitGraph;
+    theGraph->functions.fpReinitializeGraph = _ReinitializeGraph;
+    theGraph->functions.fpEnsureArcCapacity = _EnsureArcCapacity;
+    theGraph->functions.fpSortVertices = _SortVertices;
+
+    theGraph->functions.fpReadPostprocess = _ReadPostprocess;
+    theGraph->functions.fpWritePostprocess = _WritePostprocess;
+
+    theGraph->functions.fpHideEdge = _HideEdge;
+    theGraph->functions.fpRestoreEdge = _RestoreEdge;
+    theGraph->functions.fpHideVertex = _HideVertex;
+    theGraph->functions.fpRestoreVertex = _RestoreVertex;
+    theGraph->functions.fpContractEdge = _ContractEdge;
+    theGraph->functions.fpIdentifyVertices = _IdentifyVertices;
+}
+
+/********************************************************************
+ gp_InitGraph()
+ Allocates memory for vertex and edge records now that N is known.
+ The arcCapacity is set to (2 * DEFAULT_EDGE_LIMIT * N) unless it
+     has already been set by gp_EnsureArcCapacity()
+
+ For V, we need 2N vertex records, N for vertices and N for virtual vertices (root copies).
+
+ For VI, we need N vertexInfo records.
+
+ For E, we need arcCapacity edge records.
+
+ The BicompRootLists and sortedDFSChildLists are of size N and start out empty.
+
+ The stack, initially empty, is made big enough for a pair of integers
+     per edge record (2 * arcCapacity), or 6N integers if the arcCapacity
+     was set below the default value.
+
+ The edgeHoles stack, initially empty, is set to arcCapacity / 2,
+     which is big enough to push every edge (to indicate an edge
+     you only need to indicate one of its two edge records)
+
+  Returns OK on success, NOTOK on all failures.
+          On NOTOK, graph extensions are freed so that the graph is
+          returned to the post-condition of gp_New().
+ ********************************************************************/
+
+int gp_InitGraph(graphP theGraph, int N)
+{
+    // valid params check
+    if (theGraph == NULL || N <= 0)
+        return NOTOK;
+
+    // Should not call init a second time; use reinit
+    if (theGraph->N)
+        return NOTOK;
+
+    return theGraph->functions.fpInitGraph(theGraph, N);
+}
+
+int _InitGraph(graphP theGraph, int N)
+{
+    int Vsize, VIsize, Esize, stackSize;
+
+    // Compute the vertex and edge capacities of the graph
+    theGraph->N = N;
+    theGraph->NV = N;
+    theGraph->arcCapacity = theGraph->arcCapacity > 0 ? theGraph->arcCapacity : 2 * DEFAULT_EDGE_LIMIT * N;
+    VIsize = gp_PrimaryVertexIndexBound(theGraph);
+    Vsize = gp_VertexIndexBound(theGraph);
+    Esize = gp_EdgeIndexBound(theGraph);
+
+    // Stack size is 2 integers per arc, or 6 integers per vertex in case of small arcCapacity
+    stackSize = 2 * Esize;
+    stackSize = stackSize < 6 * N ? 6 * N : stackSize;
+
+    // Allocate memory as described above
+    if ((theGraph->V = (vertexRecP)calloc(Vsize, sizeof(vertexRec))) == NULL ||
+        (theGraph->VI = (vertexInfoP)calloc(VIsize, sizeof(vertexInfo))) == NULL ||
+        (theGraph->E = (edgeRecP)calloc(Esize, sizeof(edgeRec))) == NULL ||
+        (theGraph->BicompRootLists = LCNew(VIsize)) == NULL ||
+        (theGraph->sortedDFSChildLists = LCNew(VIsize)) == NULL ||
+        (theGraph->theStack = sp_New(stackSize)) == NULL ||
+        (theGraph->extFace = (extFaceLinkRecP)calloc(Vsize, sizeof(extFaceLinkRec))) == NULL ||
+        (theGraph->edgeHoles = sp_New(Esize / 2)) == NULL ||
+        0)
+    {
+        _ClearGraph(theGraph);
+        return NOTOK;
+    }
+
+    // Initialize memory
+    _InitVertices(theGraph);
+    _InitEdges(theGraph);
+    _InitIsolatorContext(theGraph);
+
+    return OK;
+}
+
+/********************************************************************
+ _InitVertices()
+ ********************************************************************/
+void _InitVertices(graphP theGraph)
+{
+#if NIL == 0
+    memset(theGraph->V, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(vertexRec));
+    memset(theGraph->VI, NIL_CHAR, gp_PrimaryVertexIndexBound(theGraph) * sizeof(vertexInfo));
+    memset(theGraph->extFace, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(extFaceLinkRec));
+#elif NIL == -1
+    int v;
+
+    memset(theGraph->V, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(vertexRec));
+    memset(theGraph->VI, NIL_CHAR, gp_PrimaryVertexIndexBound(theGraph) * sizeof(vertexInfo));
+    memset(theGraph->extFace, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(extFaceLinkRec));
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        gp_InitVertexFlags(theGraph, v);
+
+#else
+    int v;
+
+    // Initialize primary vertices
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        _InitVertexRec(theGraph, v);
+        _InitVertexInfo(theGraph, v);
+        gp_SetExtFaceVertex(theGraph, v, 0, NIL);
+        gp_SetExtFaceVertex(theGraph, v, 1, NIL);
+    }
+
+    // Initialize virtual vertices
+    for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
+    {
+        _InitVertexRec(theGraph, v);
+        gp_SetExtFaceVertex(theGraph, v, 0, NIL);
+        gp_SetExtFaceVertex(theGraph, v, 1, NIL);
+    }
+#endif
+}
+
+/********************************************************************
+ _InitEdges()
+ ********************************************************************/
+void _InitEdges(graphP theGraph)
+{
+#if NIL == 0
+    memset(theGraph->E, NIL_CHAR, gp_EdgeIndexBound(theGraph) * sizeof(edgeRec));
+#elif NIL == -1
+    int e, Esize;
+
+    memset(theGraph->E, NIL_CHAR, gp_EdgeIndexBound(theGraph) * sizeof(edgeRec));
+
+    Esize = gp_EdgeIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
+        gp_InitEdgeFlags(theGraph, e);
+
+#else
+    int e, Esize;
+
+    Esize = gp_EdgeIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
+        _InitEdgeRec(theGraph, e);
+#endif
+}
+
+/********************************************************************
+ gp_ReinitializeGraph()
+ Reinitializes a graph, restoring it to the state it was in immediately
+ after gp_InitGraph() processed it.
+ ********************************************************************/
+
+void gp_ReinitializeGraph(graphP theGraph)
+{
+    if (theGraph == NULL || theGraph->N <= 0)
+        return;
+
+    theGraph->functions.fpReinitializeGraph(theGraph);
+}
+
+void _ReinitializeGraph(graphP theGraph)
+{
+    theGraph->M = 0;
+    theGraph->internalFlags = theGraph->embedFlags = 0;
+
+    _InitVertices(theGraph);
+    _InitEdges(theGraph);
+    _InitIsolatorContext(theGraph);
+
+    LCReset(theGraph->BicompRootLists);
+    LCReset(theGraph->sortedDFSChildLists);
+    sp_ClearStack(theGraph->theStack);
+    sp_ClearStack(theGraph->edgeHoles);
+}
+
+/********************************************************************
+ gp_GetArcCapacity()
+ Returns the arcCapacity of theGraph, which is twice the maximum
+ number of edges that can be added to the theGraph.
+ ********************************************************************/
+int gp_GetArcCapacity(graphP theGraph)
+{
+    return theGraph->arcCapacity;
+}
+
+/********************************************************************
+ gp_EnsureArcCapacity()
+ This method ensures that theGraph is or will be capable of storing
+ at least requiredArcCapacity edge records.  Two edge records are
+ needed per edge.
+
+ This method is most performant when invoked immediately after
+ gp_New(), since it must only set the arcCapacity and then let
+ normal initialization to occur through gp_InitGraph().
+
+ This method is also a constant time operation if the graph already
+ has at least the requiredArcCapacity, since it will return OK
+ without making any structural changes.
+
+ This method is generally more performant if it is invoked before
+ attaching extensions to the graph.  Some extensions associate
+ parallel data with edge records, which is a faster operation if
+ the associated data is created and initialized only after the
+ proper arcCapacity is specified.
+
+ If the graph has been initialized and has a lower arc capacity,
+ then the array of edge records is reallocated to satisfy the
+ requiredArcCapacity.  The new array contains the old edges and
+ edge holes at the same locations, and all newly created edge records
+ are initialized.
+
+ Also, if the arc capacity must be increased, then the
+ arcCapacity member of theGraph is changed and both
+ theStack and edgeHoles are expanded (since the sizes of both
+ are based on the arc capacity).
+
+ Extensions that add to data associated with edges must overload
+ this method to ensure capacity in the parallel extension data
+ structures.  An extension can return NOTOK if it does not
+ support arc capacity expansion.  The extension function will
+ not be called if arcCapacity is expanded before the graph is
+ initialized, and it is assumed that extensions will allocate
+ parallel data structures according to the arc capacity.
+
+ If an extension supports arc capacity expansion, then higher
+ performance can be obtained by using the method of unhooking
+ the initializers for individual edge records before invoking
+ the superclass version of fpEnsureArcCapacity().  Ideally,
+ application authors should ensure the proper arc capacity before
+ attaching extensions to achieve better performance.
+
+ Returns NOTOK on failure to reallocate the edge record array to
+         satisfy the requiredArcCapacity, or if the requested
+         capacity is odd
+         OK if reallocation is not required or if reallocation succeeds
+ ********************************************************************/
+int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
+{
+    if (theGraph == NULL || requiredArcCapacity <= 0)
+        return NOTOK;
+
+    // Train callers to only ask for an even number of arcs, since
+    // two are required per edge or directed edge.
+    if (requiredArcCapacity & 1)
+        return NOTOK;
+
+    if (theGraph->arcCapacity >= requiredArcCapacity)
+        return OK;
+
+    // In the special case where gp_InitGraph() has not yet been called,
+    // we can simply set the higher arcCapacity since normal initialization
+    // will then allocate the correct number of edge records.
+    if (theGraph->N == 0)
+    {
+        theGraph->arcCapacity = requiredArcCapacity;
+        return OK;
+    }
+
+    // Try to expand the arc capacity
+    return theGraph->functions.fpEnsureArcCapacity(theGraph, requiredArcCapacity);
+}
+
+int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
+{
+    stackP newStack;
+    int e, Esize = gp_EdgeIndexBound(theGraph),
+           newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity;
+
+    // If the new size is less than or equal to the old size, then
+    // the graph already has the required arc capacity
+    if (newEsize <= Esize)
+        return OK;
+
+    // Expand theStack
+    if (sp_GetCapacity(theGraph->theStack) < 2 * requiredArcCapacity)
+    {
+        int stackSize = 2 * requiredArcCapacity;
+
+        if (stackSize < 6 * theGraph->N)
+        {
+            // NOTE: Since this routine only makes the stack bigger, this
+            //       calculation is not needed here because we already ensured
+            //       we had stack capacity of the greater of 2*arcs and 6*N
+            //       But we do it for clarity and consistency (e.g. so this rule
+            //       is not forgotten whenever a "SetArcCapacity" method or a
+            //       "reduceArcCapacity" method is added)
+            stackSize = 6 * theGraph->N;
+        }
+
+        if ((newStack = sp_New(stackSize)) == NULL)
+            return NOTOK;
+
+        sp_CopyContent(newStack, theGraph->theStack);
+        sp_Free(&theGraph->theStack);
+        theGraph->theStack = newStack;
+    }
+
+    // Expand edgeHoles
+    if ((newStack = sp_New(requiredArcCapacity / 2)) == NULL)
+    {
+        return NOTOK;
+    }
+
+    sp_CopyContent(newStack, theGraph->edgeHoles);
+    sp_Free(&theGraph->edgeHoles);
+    theGraph->edgeHoles = newStack;
+
+    // Reallocate the edgeRec array to the new size,
+    theGraph->E = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
+    if (theGraph->E == NULL)
+        return NOTOK;
+
+    // Initialize the new edge records
+    for (e = Esize; e < newEsize; e++)
+        _InitEdgeRec(theGraph, e);
+
+    // The new arcCapacity has been successfully achieved
+    theGraph->arcCapacity = requiredArcCapacity;
+    return OK;
+}
+
+/********************************************************************
+ _InitVertexRec()
+ Sets the fields in a single vertex record to initial values
+ ********************************************************************/
+
+void _InitVertexRec(graphP theGraph, int v)
+{
+    gp_SetFirstArc(theGraph, v, NIL);
+    gp_SetLastArc(theGraph, v, NIL);
+    gp_SetVertexIndex(theGraph, v, NIL);
+    gp_InitVertexFlags(theGraph, v);
+}
+
+/********************************************************************
+ _InitVertexInfo()
+ Sets the fields in a single vertex record to initial values
+ ********************************************************************/
+
+void _InitVertexInfo(graphP theGraph, int v)
+{
+    gp_SetVertexParent(theGraph, v, NIL);
+    gp_SetVertexLeastAncestor(theGraph, v, NIL);
+    gp_SetVertexLowpoint(theGraph, v, NIL);
+
+    gp_SetVertexVisitedInfo(theGraph, v, NIL);
+    gp_SetVertexPertinentEdge(theGraph, v, NIL);
+    gp_SetVertexPertinentRootsList(theGraph, v, NIL);
+    gp_SetVertexFuturePertinentChild(theGraph, v, NIL);
+    gp_SetVertexSortedDFSChildList(theGraph, v, NIL);
+    gp_SetVertexFwdArcList(theGraph, v, NIL);
+}
+
+/********************************************************************
+ _InitEdgeRec()
+ Sets the fields in a single edge record structure to initial values
+ ********************************************************************/
+
+void _InitEdgeRec(graphP theGraph, int e)
+{
+    gp_SetNeighbor(theGraph, e, NIL);
+    gp_SetPrevArc(theGraph, e, NIL);
+    gp_SetNextArc(theGraph, e, NIL);
+    gp_InitEdgeFlags(theGraph, e);
+}
+
+/********************************************************************
+ _InitIsolatorContext()
+ ********************************************************************/
+
+void _InitIsolatorContext(graphP theGraph)
+{
+    isolatorContextP IC = &theGraph->IC;
+
+    IC->minorType = 0;
+    IC->v = IC->r = IC->x = IC->y = IC->w = IC->px = IC->py = IC->z =
+        IC->ux = IC->dx = IC->uy = IC->dy = IC->dw = IC->uz = IC->dz = NIL;
+}
+
+/********************************************************************
+ _ClearVisitedFlags()
+ ********************************************************************/
+
+void _ClearVisitedFlags(graphP theGraph)
+{
+    _ClearVertexVisitedFlags(theGraph, TRUE);
+    _ClearEdgeVisitedFlags(theGraph);
+}
+
+/********************************************************************
+ _ClearVertexVisitedFlags()
+ ********************************************************************/
+
+void _ClearVertexVisitedFlags(graphP theGraph, int includeVirtualVertices)
+{
+    int v;
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        gp_ClearVertexVisited(theGraph, v);
+
+    if (includeVirtualVertices)
+        for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
+            gp_ClearVertexVisited(theGraph, v);
+}
+
+/********************************************************************
+ _ClearEdgeVisitedFlags()
+ ********************************************************************/
+
+void _ClearEdgeVisitedFlags(graphP theGraph)
+{
+    int e, EsizeOccupied;
+
+    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
+        gp_ClearEdgeVisited(theGraph, e);
+}
+
+/********************************************************************
+ _ClearVisitedFlagsInBicomp()
+
+ Clears the visited flag of the vertices and arcs in the bicomp rooted
+ by BicompRoot.
+
+ This method uses the stack but preserves whatever may have been
+ on it.  In debug mode, it will return NOTOK if the stack overflows.
+ This method pushes at most one integer per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure.
+ ********************************************************************/
+
+int _ClearVisitedFlagsInBicomp(graphP theGraph, int BicompRoot)
+{
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+    int v, e;
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, v);
+        gp_ClearVertexVisited(theGraph, v);
+
+        e = gp_GetFirstArc(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            gp_ClearEdgeVisited(theGraph, e);
+
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearVisitedFlagsInOtherBicomps()
+ Typically, we want to clear all visited flags in the graph
+ (see _ClearVisitedFlags).  However, in some algorithms this would be
+ too costly, so it is necessary to clear the visited flags only
+ in one bicomp (see _ClearVisitedFlagsInBicomp), then do some processing
+ that sets some of the flags then performs some tests.  If the tests
+ are positive, then we can clear all the visited flags in the
+ other bicomps (the processing may have set the visited flags in the
+ one bicomp in a particular way that we want to retain, so we skip
+ the given bicomp).
+ ********************************************************************/
+
+int _ClearVisitedFlagsInOtherBicomps(graphP theGraph, int BicompRoot)
+{
+    int R;
+
+    for (R = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, R); R++)
+    {
+        if (R != BicompRoot && gp_VirtualVertexInUse(theGraph, R))
+        {
+            if (_ClearVisitedFlagsInBicomp(theGraph, R) != OK)
+                return NOTOK;
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearVisitedFlagsInUnembeddedEdges()
+ Unembedded edges aren't part of any bicomp yet, but it may be
+ necessary to clear their visited flags.
+ ********************************************************************/
+
+void _ClearVisitedFlagsInUnembeddedEdges(graphP theGraph)
+{
+    int v, e;
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        e = gp_GetVertexFwdArcList(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            gp_ClearEdgeVisited(theGraph, e);
+            gp_ClearEdgeVisited(theGraph, gp_GetTwinArc(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+            if (e == gp_GetVertexFwdArcList(theGraph, v))
+                e = NIL;
+        }
+    }
+}
+
+/****************************************************************************
+ _ClearVisitedFlagsOnPath()
+ This method clears the visited flags on the vertices and edges on the path
+ (u, v, ..., w, x) in which all vertices except the endpoints u and x
+ are degree 2.  This method avoids performing more than constant work at the
+ path endpoints u and x, so the total work is on the order of the path length.
+
+ Returns OK on success, NOTOK on internal failure
+ ****************************************************************************/
+
+int _ClearVisitedFlagsOnPath(graphP theGraph, int u, int v, int w, int x)
+{
+    int e, eTwin;
+
+    // We want to exit u from e, but we get eTwin first here in order to avoid
+    // work, in case the degree of u is greater than 2.
+    eTwin = gp_GetNeighborEdgeRecord(theGraph, v, u);
+    if (gp_IsNotArc(eTwin))
+        return NOTOK;
+    e = gp_GetTwinArc(theGraph, eTwin);
+
+    v = u;
+
+    do
+    {
+        // Mark the vertex and the exiting edge
+        gp_ClearVertexVisited(theGraph, v);
+        gp_ClearEdgeVisited(theGraph, e);
+        gp_ClearEdgeVisited(theGraph, eTwin);
+
+        // Get the next vertex
+        v = gp_GetNeighbor(theGraph, e);
+        e = gp_GetNextArcCircular(theGraph, eTwin);
+        eTwin = gp_GetTwinArc(theGraph, e);
+    } while (v != x);
+
+    // Mark the last vertex with 'visited'
+    gp_ClearVertexVisited(theGraph, x);
+
+    return OK;
+}
+
+/****************************************************************************
+ _SetVisitedFlagsOnPath()
+ This method sets the visited flags on the vertices and edges on the path
+ (u, v, ..., w, x) in which all vertices except the endpoints u and x
+ are degree 2.  This method avoids performing more than constant work at the
+ path endpoints u and x, so the total work is on the order of the path length.
+
+ Returns OK on success, NOTOK on internal failure
+ ****************************************************************************/
+
+int _SetVisitedFlagsOnPath(graphP theGraph, int u, int v, int w, int x)
+{
+    int e, eTwin;
+
+    // We want to exit u from e, but we get eTwin first here in order to avoid
+    // work, in case the degree of u is greater than 2.
+    eTwin = gp_GetNeighborEdgeRecord(theGraph, v, u);
+    if (gp_IsNotArc(eTwin))
+        return NOTOK;
+    e = gp_GetTwinArc(theGraph, eTwin);
+
+    v = u;
+
+    do
+    {
+        // Mark the vertex and the exiting edge
+        gp_SetVertexVisited(theGraph, v);
+        gp_SetEdgeVisited(theGraph, e);
+        gp_SetEdgeVisited(theGraph, eTwin);
+
+        // Get the next vertex
+        v = gp_GetNeighbor(theGraph, e);
+        e = gp_GetNextArcCircular(theGraph, eTwin);
+        eTwin = gp_GetTwinArc(theGraph, e);
+    } while (v != x);
+
+    // Mark the last vertex with 'visited'
+    gp_SetVertexVisited(theGraph, x);
+
+    return OK;
+}
+
+/********************************************************************
+ _FillVertexVisitedInfoInBicomp()
+
+ Places the FillValue into the visitedInfo of the non-virtual vertices
+ in the bicomp rooted by BicompRoot.
+
+ This method uses the stack but preserves whatever may have been
+ on it.  In debug mode, it will return NOTOK if the stack overflows.
+ This method pushes at most one integer per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure.
+ ********************************************************************/
+
+int _FillVertexVisitedInfoInBicomp(graphP theGraph, int BicompRoot, int FillValue)
+{
+    int v, e;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, v);
+
+        if (gp_IsNotVirtualVertex(theGraph, v))
+            gp_SetVertexVisitedInfo(theGraph, v, FillValue);
+
+        e = gp_GetFirstArc(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearVertexTypeInBicomp()
+
+ Clears the 'obstruction type' bits for each vertex in the bicomp
+ rooted by BicompRoot.
+
+ This method uses the stack but preserves whatever may have been
+ on it.  In debug mode, it will return NOTOK if the stack overflows.
+ This method pushes at most one integer per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure.
+ ********************************************************************/
+
+int _ClearVertexTypeInBicomp(graphP theGraph, int BicompRoot)
+{
+    int V, e;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, V);
+        gp_ClearVertexObstructionType(theGraph, V);
+
+        e = gp_GetFirstArc(theGraph, V);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearGraph()
+ Clears all memory used by the graph, restoring it to the state it
+ was in immediately after gp_New() created it.
+ ********************************************************************/
+
+void _ClearGraph(graphP theGraph)
+{
+    if (theGraph->V != NULL)
+    {
+        free(theGraph->V);
+        theGraph->V = NULL;
+    }
+    if (theGraph->VI != NULL)
+    {
+        free(theGraph->VI);
+        theGraph->VI = NULL;
+    }
+    if (theGraph->E != NULL)
+    {
+        free(theGraph->E);
+        theGraph->E = NULL;
+    }
+
+    theGraph->N = 0;
+    theGraph->NV = 0;
+    theGraph->M = 0;
+    theGraph->arcCapacity = 0;
+    theGraph->internalFlags = 0;
+    theGraph->embedFlags = 0;
+
+    _InitIsolatorContext(theGraph);
+
+    LCFree(&theGraph->BicompRootLists);
+    LCFree(&theGraph->sortedDFSChildLists);
+
+    sp_Free(&theGraph->theStack);
+
+    if (theGraph->extFace != NULL)
+    {
+        free(theGraph->extFace);
+        theGraph->extFace = NULL;
+    }
+
+    sp_Free(&theGraph->edgeHoles);
+
+    gp_FreeExtensions(theGraph);
+}
+
+/********************************************************************
+ gp_Free()
+ Frees G and V, then the graph record.  Then sets your pointer to NULL
+ (so you must pass the address of your pointer).
+ ********************************************************************/
+
+void gp_Free(graphP *pGraph)
+{
+    if (pGraph == NULL)
+        return;
+    if (*pGraph == NULL)
+        return;
+
+    _ClearGraph(*pGraph);
+
+    free(*pGraph);
+    *pGraph = NULL;
+}
+
+/********************************************************************
+ gp_CopyAdjacencyLists()
+ Copies the adjacency lists from the srcGraph to the dstGraph.
+ This method intentionally copies only the adjacency lists of the
+ first N vertices, so the adjacency lists of virtual vertices are
+ excluded (unless the caller temporarily resets the value of N to
+ include NV).
+
+ Returns OK on success, NOTOK on failures, e.g. if the two graphs
+ have different orders N or if the arcCapacity of dstGraph cannot
+ be increased to match that of srcGraph.
+ ********************************************************************/
+int gp_CopyAdjacencyLists(graphP dstGraph, graphP srcGraph)
+{
+    int v, e, EsizeOccupied;
+
+    if (dstGraph == NULL || srcGraph == NULL)
+        return NOTOK;
+
+    if (dstGraph->N != srcGraph->N || dstGraph->N == 0)
+        return NOTOK;
+
+    if (gp_EnsureArcCapacity(dstGraph, srcGraph->arcCapacity) != OK)
+        return NOTOK;
+
+    // Copy the links that hook each owning vertex to its adjacency list
+    for (v = gp_GetFirstVertex(srcGraph); gp_VertexInRange(srcGraph, v); v++)
+    {
+        gp_SetFirstArc(dstGraph, v, gp_GetFirstArc(srcGraph, v));
+        gp_SetLastArc(dstGraph, v, gp_GetLastArc(srcGraph, v));
+    }
+
+    // Copy the adjacency links and neighbor pointers for each arc
+    EsizeOccupied = gp_EdgeInUseIndexBound(srcGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
+    {
+        gp_SetNeighbor(dstGraph, e, gp_GetNeighbor(srcGraph, e));
+        gp_SetNextArc(dstGraph, e, gp_GetNextArc(srcGraph, e));
+        gp_SetPrevArc(dstGraph, e, gp_GetPrevArc(srcGraph, e));
+    }
+
+    // Tell the dstGraph how many edges it now has and where the edge holes are
+    dstGraph->M = srcGraph->M;
+    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
+
+    return OK;
+}
+
+/********************************************************************
+ gp_CopyGraph()
+ Copies the content of the srcGraph into the dstGraph.  The dstGraph
+ must have been previously initialized with the same number of
+ vertices as the srcGraph (e.g. gp_InitGraph(dstGraph, srcGraph->N).
+
+ Returns OK for success, NOTOK for failure.
+ ********************************************************************/
+
+int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
+{
+    int v, e, Esize;
+
+    // Parameter checks
+    if (dstGraph == NULL || srcGraph == NULL)
+    {
+        return NOTOK;
+    }
+
+    // The graphs need to be the same order and initialized
+    if (dstGraph->N != srcGraph->N || dstGraph->N == 0)
+    {
+        return NOTOK;
+    }
+
+    // Ensure dstGraph has the required arc capacity; this expands
+    // dstGraph if needed, but does not contract.  An error is only
+    // returned if the expansion fails.
+    if (gp_EnsureArcCapacity(dstGraph, srcGraph->arcCapacity) != OK)
+    {
+        return NOTOK;
+    }
+
+    // Copy the primary vertices.  Augmentations to vertices created
+    // by extensions are copied below by gp_CopyExtensions()
+    for (v = gp_GetFirstVertex(srcGraph); gp_VertexInRange(srcGraph, v); v++)
+    {
+        gp_CopyVertexRec(dstGraph, v, srcGraph, v);
+        gp_CopyVertexInfo(dstGraph, v, srcGraph, v);
+        gp_SetExtFaceVertex(dstGraph, v, 0, gp_GetExtFaceVertex(srcGraph, v, 0));
+        gp_SetExtFaceVertex(dstGraph, v, 1, gp_GetExtFaceVertex(srcGraph, v, 1));
+    }
+
+    // Copy the virtual vertices.  Augmentations to virtual vertices created
+    // by extensions are copied below by gp_CopyExtensions()
+    for (v = gp_GetFirstVirtualVertex(srcGraph); gp_VirtualVertexInRange(srcGraph, v); v++)
+    {
+        gp_CopyVertexRec(dstGraph, v, srcGraph, v);
+        gp_SetExtFaceVertex(dstGraph, v, 0, gp_GetExtFaceVertex(srcGraph, v, 0));
+        gp_SetExtFaceVertex(dstGraph, v, 1, gp_GetExtFaceVertex(srcGraph, v, 1));
+    }
+
+    // Copy the basic EdgeRec structures.  Augmentations to the edgeRec structure
+    // created by extensions are copied below by gp_CopyExtensions()
+    Esize = gp_EdgeIndexBound(srcGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
+        gp_CopyEdgeRec(dstGraph, e, srcGraph, e);
+
+    // Give the dstGraph the same size and intrinsic properties
+    dstGraph->N = srcGraph->N;
+    dstGraph->NV = srcGraph->NV;
+    dstGraph->M = srcGraph->M;
+    dstGraph->internalFlags = srcGraph->internalFlags;
+    dstGraph->embedFlags = srcGraph->embedFlags;
+
+    dstGraph->IC = srcGraph->IC;
+
+    LCCopy(dstGraph->BicompRootLists, srcGraph->BicompRootLists);
+    LCCopy(dstGraph->sortedDFSChildLists, srcGraph->sortedDFSChildLists);
+    sp_Copy(dstGraph->theStack, srcGraph->theStack);
+    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
+
+    // Copy the set of extensions, which includes copying the
+    // extension data as well as the function overload tables
+    if (gp_CopyExtensions(dstGraph, srcGraph) != OK)
+        return NOTOK;
+
+    // Copy the graph's function table, which has the pointers to
+    // the most recent extension overloads of each function (or
+    // the original function pointer if a particular function has
+    // not been overloaded).
+    // This must be done after copying the extension because the
+    // first step of copying the extensions is to delete the
+    // dstGraph extensions, which clears its function table.
+    // Therefore, no good to assign the srcGraph functions *before*
+    // copying the extensions because the assignment would be wiped out
+    // This, in turn, means that the DupContext function of an extension
+    // *cannot* depend on any extension function overloads; the extension
+    // must directly invoke extension functions only.
+    dstGraph->functions = srcGraph->functions;
+
+    return OK;
+}
+
+/********************************************************************
+ gp_DupGraph()
+ ********************************************************************/
+
+graphP gp_DupGraph(graphP theGraph)
+{
+    graphP result;
+
+    if ((result = gp_New()) == NULL)
+        return NULL;
+
+    if (gp_InitGraph(result, theGraph->N) != OK ||
+        gp_CopyGraph(result, theGraph) != OK)
+    {
+        gp_Free(&result);
+        return NULL;
+    }
+
+    return result;
+}
+
+/********************************************************************
+ gp_CreateRandomGraph()
+
+ Creates a randomly generated graph.  First a tree is created by
+ connecting each vertex to some successor.  Then a random number of
+ additional random edges are added.  If an edge already exists, then
+ we retry until a non-existent edge is picked.
+
+ This function assumes the caller has already called srand().
+
+ Returns OK on success, NOTOK on failure
+ ********************************************************************/
+
+int gp_CreateRandomGraph(graphP theGraph)
+{
+    int N, M, u, v, m;
+
+    N = theGraph->N;
+
+    /* Generate a random tree; note that this method virtually guarantees
+            that the graph will be renumbered, but it is linear time.
+            Also, we are not generating the DFS tree but rather a tree
+            that simply ensures the resulting random graph is connected. */
+
+    for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
+    {
+        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), v - 1);
+        if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
+            return NOTOK;
+    }
+
+    /* Generate a random number of additional edges
+            (actually, leave open a small chance that no
+            additional edges will be added). */
+
+    M = _GetRandomNumber(7 * N / 8, theGraph->arcCapacity / 2);
+
+    if (M > N * (N - 1) / 2)
+        M = N * (N - 1) / 2;
+
+    for (m = N - 1; m < M; m++)
+    {
+        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph) - 1);
+        v = _GetRandomNumber(u + 1, gp_GetLastVertex(theGraph));
+
+        // If the edge (u,v) exists, decrement eIndex to try again
+        if (gp_IsNeighbor(theGraph, u, v))
+            m--;
+
+        // If the edge (u,v) doesn't exist, add it
+        else
+        {
+            if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
+                return NOTOK;
+        }
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _GetRandomNumber()
+ This function generates a random number between NMin and NMax
+ inclusive.  It assumes that the caller has called srand().
+ It calls rand(), but before truncating to the proper range,
+ it adds the high bits of the rand() result into the low bits.
+ The result of this is that the randomness appearing in the
+ truncated bits also has an affect on the non-truncated bits.
+ ********************************************************************/
+
+int _GetRandomNumber(int NMin, int NMax)
+{
+    int N = rand();
+
+    if (NMax < NMin)
+        return NMin;
+
+    N += ((N & 0xFFFF0000) >> 16);
+    N += ((N & 0x0000FF00) >> 8);
+    N &= 0x7FFFFFF;
+    N %= (NMax - NMin + 1);
+    return N + NMin;
+}
+
+/********************************************************************
+ _getUnprocessedChild()
+ Support routine for gp_Create RandomGraphEx(), this function
+ obtains a child of the given vertex in the randomly generated
+ tree that has not yet been processed.  NIL is returned if the
+ given vertex has no unprocessed children
+
+ ********************************************************************/
+
+int _getUnprocessedChild(graphP theGraph, int parent)
+{
+    int e = gp_GetFirstArc(theGraph, parent);
+    int eTwin = gp_GetTwinArc(theGraph, e);
+    int child = gp_GetNeighbor(theGraph, e);
+
+    // The tree edges were added to the beginning of the adjacency list,
+    // and we move processed tree edge records to the end of the list,
+    // so if the immediate next arc (edge record) is not a tree edge
+    // then we return NIL because the vertex has no remaining
+    // unprocessed children
+    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_NOTDEFINED)
+        return NIL;
+
+    // If the child has already been processed, then all children
+    // have been pushed to the end of the list, and we have just
+    // encountered the first child we processed, so there are no
+    // remaining unprocessed children */
+    if (gp_GetEdgeVisited(theGraph, e))
+        return NIL;
+
+    // We have found an edge leading to an unprocessed child, so
+    // we mark it as processed so that it doesn't get returned
+    // again in future iterations.
+    gp_SetEdgeVisited(theGraph, e);
+    gp_SetEdgeVisited(theGraph, eTwin);
+
+    // Now we move the edge record in the parent vertex to the end
+    // of the adjacency list of that vertex.
+    gp_MoveArcToLast(theGraph, parent, e);
+
+    // Now we move the edge record in the child vertex to the
+    // end of the adjacency list of the child.
+    gp_MoveArcToLast(theGraph, child, eTwin);
+
+    // Now we set the child's parent and return the child.
+    gp_SetVertexParent(theGraph, child, parent);
+
+    return child;
+}
+
+/********************************************************************
+ _hasUnprocessedChild()
+ Support routine for gp_Create RandomGraphEx(), this function
+ obtains a child of the given vertex in the randomly generated
+ tree that has not yet been processed.  False (0) is returned
+ unless the given vertex has an unprocessed child.
+ ********************************************************************/
+
+int _hasUnprocessedChild(graphP theGraph, int parent)
+{
+    int e = gp_GetFirstArc(theGraph, parent);
+
+    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_NOTDEFINED)
+        return 0;
+
+    if (gp_GetEdgeVisited(theGraph, e))
+        return 0;
+
+    return 1;
+}
+
+/********************************************************************
+ gp_CreateRandomGraphEx()
+ Given a graph structure with a pre-specified number of vertices N,
+ this function creates a graph with the specified number of edges.
+
+ If numEdges <= 3N-6, then the graph generated is planar.  If
+ numEdges is larger, then a maximal planar graph is generated, then
+ (numEdges - 3N + 6) additional random edges are added.
+
+ This function assumes the caller has already called srand().
+ ********************************************************************/
+
+int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
+{
+    int N, arc, M, root, v, c, p, last, u, e, EsizeOccupied;
+
+    N = theGraph->N;
+
+    if (numEdges > theGraph->arcCapacity / 2)
+        numEdges = theGraph->arcCapacity / 2;
+
+    /* Generate a random tree. */
+
+    for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
+    {
+        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), v - 1);
+        if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
+            return NOTOK;
+
+        else
+        {
+            arc = gp_GetNeighborEdgeRecord(theGraph, u, v);
+            gp_SetEdgeType(theGraph, arc, EDGE_TYPE_RANDOMTREE);
+            gp_SetEdgeType(theGraph, gp_GetTwinArc(theGraph, arc), EDGE_TYPE_RANDOMTREE);
+            gp_ClearEdgeVisited(theGraph, arc);
+            gp_ClearEdgeVisited(theGraph, gp_GetTwinArc(theGraph, arc));
+        }
+    }
+
+    /* Add edges up to the limit or until the graph is maximal planar. */
+
+    M = numEdges <= 3 * N - 6 ? numEdges : 3 * N - 6;
+
+    root = gp_GetFirstVertex(theGraph);
+    v = last = _getUnprocessedChild(theGraph, root);
+
+    while (v != root && theGraph->M < M)
+    {
+        c = _getUnprocessedChild(theGraph, v);
+
+        if (gp_IsVertex(c))
+        {
+            if (last != v)
+            {
+                if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                    return NOTOK;
+            }
+
+            if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+                return NOTOK;
+
+            v = last = c;
+        }
+
+        else
+        {
+            p = gp_GetVertexParent(theGraph, v);
+            while (gp_IsVertex(p) && gp_IsNotVertex(c = _getUnprocessedChild(theGraph, p)))
+            {
+                v = p;
+                p = gp_GetVertexParent(theGraph, v);
+                if (gp_IsVertex(p) && p != root)
+                {
+                    if (gp_AddEdge(theGraph, last, 1, p, 1) != OK)
+                        return NOTOK;
+                }
+            }
+
+            if (gp_IsVertex(p))
+            {
+                if (p == root)
+                {
+                    if (gp_AddEdge(theGraph, v, 1, c, 1) != OK)
+                        return NOTOK;
+
+                    if (v != last)
+                    {
+                        if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                            return NOTOK;
+                    }
+                }
+                else
+                {
+                    if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                        return NOTOK;
+                }
+
+                if (p != root)
+                {
+                    if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+                        return NOTOK;
+                    last = c;
+                }
+
+                v = c;
+            }
+        }
+    }
+
+    /* Add additional edges if the limit has not yet been reached. */
+
+    while (theGraph->M < numEdges)
+    {
+        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph));
+        v = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph));
+
+        if (u != v && !gp_IsNeighbor(theGraph, u, v))
+            if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
+                return NOTOK;
+    }
+
+    /* Clear the edge types back to 'unknown' */
+
+    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
+    for (e = 0; e < EsizeOccupied; e++)
+    {
+        gp_ClearEdgeType(theGraph, e);
+        gp_ClearEdgeVisited(theGraph, e);
+    }
+
+    /* Put all DFSParent indicators back to NIL */
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        gp_SetVertexParent(theGraph, v, NIL);
+
+    return OK;
+}
+
+/********************************************************************
+ gp_IsNeighbor()
+
+ Checks whether v is already in u's adjacency list, i.e. does the arc
+ u -> v exist.
+ If there is an edge record for v in u's list, but it is marked INONLY,
+ then it represents the arc v->u but not u->v, so it is ignored.
+
+ Returns TRUE or FALSE.
+ ********************************************************************/
+
+int gp_IsNeighbor(graphP theGraph, int u, int v)
+{
+    int e = gp_GetFirstArc(theGraph, u);
+
+    while (gp_IsArc(e))
+    {
+        if (gp_GetNeighbor(theGraph, e) == v)
+        {
+            if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
+                return TRUE;
+        }
+        e = gp_GetNextArc(theGraph, e);
+    }
+    return FALSE;
+}
+
+/********************************************************************
+ gp_GetNeighborEdgeRecord()
+ Searches the adjacency list of u to obtains the edge record for v.
+
+ NOTE: The caller should check whether the edge record is INONLY;
+       This method returns any edge record representing a connection
+       between vertices u and v, so this method can return an
+       edge record even if gp_IsNeighbor(theGraph, u, v) is false (0).
+       To filter out INONLY edge records, use gp_GetDirection() on
+       the edge record returned by this method.
+
+ Returns NIL if there is no edge record indicating v in u's adjacency
+         list, or the edge record location otherwise.
+ ********************************************************************/
+
+int gp_GetNeighborEdgeRecord(graphP theGraph, int u, int v)
+{
+    int e;
+
+    if (gp_IsNotVertex(u) || gp_IsNotVertex(v))
+        return NIL + NOTOK - NOTOK;
+
+    e = gp_GetFirstArc(theGraph, u);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetNeighbor(theGraph, e) == v)
+            return e;
+
+        e = gp_GetNextArc(theGraph, e);
+    }
+    return NIL;
+}
+
+/********************************************************************
+ gp_GetVertexDegree()
+
+ Counts the number of edge records in the adjacency list of a given
+ vertex V.
+
+ Note: For digraphs, this method returns the total degree of the
+       vertex, including outward arcs (undirected and OUTONLY)
+       as well as INONLY arcs.  Other functions are defined to get
+       the in-degree or out-degree of the vertex.
+
+ Note: This function determines the degree by counting.  An extension
+       could cache the degree value of each vertex and update the
+       cached value as edges are added and deleted.
+ ********************************************************************/
+
+int gp_GetVertexDegree(graphP theGraph, int v)
+{
+    int e, degree;
+
+    if (theGraph == NULL || gp_IsNotVertex(v))
+        return 0 + NOTOK - NOTOK;
+
+    degree = 0;
+
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        degree++;
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return degree;
+}
+
+/********************************************************************
+ gp_GetVertexInDegree()
+
+ Counts the number of edge records in the adjacency list of a given
+ vertex V that represent arcs from another vertex into V.
+ This includes undirected edges and INONLY arcs, so it only excludes
+ edges records that are marked as OUTONLY arcs.
+
+ Note: This function determines the in-degree by counting.  An extension
+       could cache the in-degree value of each vertex and update the
+       cached value as edges are added and deleted.
+ ********************************************************************/
+
+int gp_GetVertexInDegree(graphP theGraph, int v)
+{
+    int e, degree;
+
+    if (theGraph == NULL || gp_IsNotVertex(v))
+        return 0 + NOTOK - NOTOK;
+
+    degree = 0;
+
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_OUTONLY)
+            degree++;
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return degree;
+}
+
+/********************************************************************
+ gp_GetVertexOutDegree()
+
+ Counts the number of edge records in the adjacency list of a given
+ vertex V that represent arcs from V to another vertex.
+ This includes undirected edges and OUTONLY arcs, so it only excludes
+ edges records that are marked as INONLY arcs.
+
+ Note: This function determines the out-degree by counting.  An extension
+       could cache the out-degree value of each vertex and update the
+       cached value as edges are added and deleted.
+ ********************************************************************/
+
+int gp_GetVertexOutDegree(graphP theGraph, int v)
+{
+    int e, degree;
+
+    if (theGraph == NULL || gp_IsNotVertex(v))
+        return 0 + NOTOK - NOTOK;
+
+    degree = 0;
+
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
+            degree++;
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return degree;
+}
+
+/********************************************************************
+ gp_AttachArc()
+
+ This routine adds newArc into v's adjacency list at a position
+ adjacent to the edge record for e, either before or after e,
+ depending on link.  If e is not an arc (e.g. if e is NIL),
+ then link is assumed to indicate whether the new arc is to be
+ placed at the beginning or end of v's adjacency list.
+
+ NOTE: The caller can pass NIL for v if e is not NIL, since the
+       vertex is implied (gp_GetNeighbor(theGraph, eTwin))
+
+ The arc is assumed to already exist in the data structure (i.e.
+ the storage of edges), as only a whole edge (two arcs) can be
+ inserted into or deleted from the data structure.  Hence there is
+ no such thing as gp_InsertArc() or gp_DeleteArc().
+
+ See also gp_DetachArc(), gp_InsertEdge() and gp_DeleteEdge()
+ ********************************************************************/
+
+void gp_AttachArc(graphP theGraph, int v, int e, int link, int newArc)
+{
+    if (gp_IsArc(e))
+    {
+        int e2 = gp_GetAdjacentArc(theGraph, e, link);
+
+        // e's link is newArc, and newArc's 1^link is e
+        gp_SetAdjacentArc(theGraph, e, link, newArc);
+        gp_SetAdjacentArc(theGraph, newArc, 1 ^ link, e);
+
+        // newArcs's link is e2
+        gp_SetAdjacentArc(theGraph, newArc, link, e2);
+
+        // if e2 is an arc, then e2's 1^link is newArc, else v's 1^link is newArc
+        if (gp_IsArc(e2))
+            gp_SetAdjacentArc(theGraph, e2, 1 ^ link, newArc);
+        else
+            gp_SetArc(theGraph, v, 1 ^ link, newArc);
+    }
+    else
+    {
+        int e2 = gp_GetArc(theGraph, v, link);
+
+        // v's link is newArc, and newArc's 1^link is NIL
+        gp_SetArc(theGraph, v, link, newArc);
+        gp_SetAdjacentArc(theGraph, newArc, 1 ^ link, NIL);
+
+        // newArcs's elink is e2
+        gp_SetAdjacentArc(theGraph, newArc, link, e2);
+
+        // if e2 is an arc, then e2's 1^link is newArc, else v's 1^link is newArc
+        if (gp_IsArc(e2))
+            gp_SetAdjacentArc(theGraph, e2, 1 ^ link, newArc);
+        else
+            gp_SetArc(theGraph, v, 1 ^ link, newArc);
+    }
+}
+
+/****************************************************************************
+ gp_DetachArc()
+
+ This routine detaches arc from its adjacency list, but it does not delete
+ it from the data structure (only a whole edge can be deleted).
+
+ Some algorithms must temporarily detach an edge, perform some calculation,
+ and eventually put the edge back. This routine supports that operation.
+ The neighboring adjacency list nodes are cross-linked, but the two link
+ members of the arc are retained, so the arc can be reattached later by
+ invoking _RestoreArc().  A sequence of detached arcs can only be restored
+ in the exact opposite order of their detachment.  Thus, algorithms do not
+ directly use this method to implement the temporary detach/restore method.
+ Instead, gp_HideEdge() and gp_RestoreEdge are used, and algorithms push
+ edge hidden edge onto the stack.  One example of this stack usage is
+ provided by detaching edges with gp_ContractEdge() or gp_IdentifyVertices(),
+ and reattaching with gp_RestoreIdentifications(), which unwinds the stack
+ by invoking gp_RestoreVertex().
+ ****************************************************************************/
+
+void gp_DetachArc(graphP theGraph, int arc)
+{
+    int nextArc = gp_GetNextArc(theGraph, arc),
+        prevArc = gp_GetPrevArc(theGraph, arc);
+
+    if (gp_IsArc(nextArc))
+        gp_SetPrevArc(theGraph, nextArc, prevArc);
+    else
+        gp_SetLastArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), prevArc);
+
+    if (gp_IsArc(prevArc))
+        gp_SetNextArc(theGraph, prevArc, nextArc);
+    else
+        gp_SetFirstArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), nextArc);
+}
+
+/********************************************************************
+ gp_AddEdge()
+ Adds the undirected edge (u,v) to the graph by placing edge records
+ representing u into v's circular edge record list and v into u's
+ circular edge record list.
+
+ upos receives the location in G where the u record in v's list will be
+        placed, and vpos is the location in G of the v record we placed in
+ u's list.  These are used to initialize the short circuit links.
+
+ ulink (0|1) indicates whether the edge record to v in u's list should
+        become adjacent to u by its 0 or 1 link, i.e. u[ulink] == vpos.
+ vlink (0|1) indicates whether the edge record to u in v's list should
+        become adjacent to v by its 0 or 1 link, i.e. v[vlink] == upos.
+
+ ********************************************************************/
+
+int gp_AddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
+{
+    int upos, vpos;
+
+    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
+        return NOTOK;
+
+    /* We enforce the edge limit */
+
+    if (theGraph->M >= theGraph->arcCapacity / 2)
+        return NONEMBEDDABLE;
+
+    if (sp_NonEmpty(theGraph->edgeHoles))
+    {
+        sp_Pop(theGraph->edgeHoles, vpos);
+    }
+    else
+        vpos = gp_EdgeInUseIndexBound(theGraph);
+
+    upos = gp_GetTwinArc(theGraph, vpos);
+
+    gp_SetNeighbor(theGraph, upos, v);
+    gp_AttachArc(theGraph, u, NIL, ulink, upos);
+    gp_SetNeighbor(theGraph, vpos, u);
+    gp_AttachArc(theGraph, v, NIL, vlink, vpos);
+
+    theGraph->M++;
+    return OK;
+}
+
+/********************************************************************
+ gp_DynamicAddEdge()
+ Refer to documentation for gp_AddEdge for parameter description.
+
+ Tries to call gp_AddEdge; if NONEMBEDDABLE, doubles the arc
+ capacity (up to a max of (N * (N-1))) using gp_EnsureArcCapacity,
+ then retries gp_AddEdge.
+ ********************************************************************/
+int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
+{
+    int Result = OK;
+
+    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
+        return NOTOK;
+
+    Result = gp_AddEdge(theGraph, u, ulink, v, vlink);
+
+    if (Result == NONEMBEDDABLE)
+    {
+        int candidateArcCapacity = gp_GetArcCapacity(theGraph) * 2;
+        int N = theGraph->N;
+        int newArcCapacity = (candidateArcCapacity > (N * (N - 1))) ? (N * (N - 1)) : candidateArcCapacity;
+        Result = gp_EnsureArcCapacity(theGraph, newArcCapacity);
+
+        if (Result != OK)
+            return Result;
+
+        Result = gp_AddEdge(theGraph, u, ulink, v, vlink);
+    }
+
+    return Result;
+}
+
+/********************************************************************
+ gp_InsertEdge()
+
+ This function adds the edge (u, v) such that the edge record added
+ to the adjacency list of u is adjacent to e_u and the edge record
+ added to the adjacency list of v is adjacent to e_v.
+ The direction of adjacency is given by e_ulink for e_u and e_vlink
+ for e_v. Specifically, the new edge will be comprised of two arcs,
+ n_u and n_v.  In u's (v's) adjacency list, n_u (n_v) will be added
+ so that it is indicated by e_u's (e_v's) e_ulink (e_vlink).
+ If e_u (or e_v) is not an arc, then e_ulink (e_vlink) indicates
+ whether to prepend or append to the adjacency list for u (v).
+ ********************************************************************/
+
+int gp_InsertEdge(graphP theGraph, int u, int e_u, int e_ulink,
+                  int v, int e_v, int e_vlink)
+{
+    int vertMax = gp_GetLastVirtualVertex(theGraph),
+        edgeMax = gp_EdgeInUseIndexBound(theGraph) - 1,
+        upos, vpos;
+
+    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+        u > vertMax || v > vertMax ||
+        e_u > edgeMax || (e_u < gp_GetFirstEdge(theGraph) && gp_IsArc(e_u)) ||
+        e_v > edgeMax || (e_v < gp_GetFirstEdge(theGraph) && gp_IsArc(e_v)) ||
+        e_ulink < 0 || e_ulink > 1 || e_vlink < 0 || e_vlink > 1)
+        return NOTOK;
+
+    if (theGraph->M >= theGraph->arcCapacity / 2)
+        return NONEMBEDDABLE;
+
+    if (sp_NonEmpty(theGraph->edgeHoles))
+    {
+        sp_Pop(theGraph->edgeHoles, vpos);
+    }
+    else
+        vpos = gp_EdgeInUseIndexBound(theGraph);
+
+    upos = gp_GetTwinArc(theGraph, vpos);
+
+    gp_SetNeighbor(theGraph, upos, v);
+    gp_AttachArc(theGraph, u, e_u, e_ulink, upos);
+
+    gp_SetNeighbor(theGraph, vpos, u);
+    gp_AttachArc(theGraph, v, e_v, e_vlink, vpos);
+
+    theGraph->M++;
+
+    return OK;
+}
+
+/****************************************************************************
+ gp_DeleteEdge()
+
+ This function deletes the given edge record e and its twin, reducing the
+ number of edges M in the graph.
+ Before the e^th record is deleted, its 'nextLink' adjacency list neighbor
+ is collected as the return result.  This is useful when iterating through
+ an edge list and making deletions because the nextLink arc is the 'next'
+ arc in the iteration, but it is hard to obtain *after* deleting e.
+ ****************************************************************************/
+
+int gp_DeleteEdge(graphP theGraph, int e, int nextLink)
+{
+    // Calculate the nextArc after e so that, when e is deleted, the return result
+    // informs a calling loop of the next edge to be processed.
+    int nextArc = gp_GetAdjacentArc(theGraph, e, nextLink);
+
+    // Delete the edge records e and eTwin from their adjacency lists.
+    gp_DetachArc(theGraph, e);
+    gp_DetachArc(theGraph, gp_GetTwinArc(theGraph, e));
+
+    // Clear the two edge records
+    // (the bit twiddle (e & ~1) chooses the lesser of e and its twin arc)
+#if NIL == 0
+    memset(theGraph->E + (e & ~1), NIL_CHAR, sizeof(edgeRec) << 1);
+#else
+    _InitEdgeRec(theGraph, e);
+    _InitEdgeRec(theGraph, gp_GetTwinArc(theGraph, e));
+#endif
+
+    // Now we reduce the number of edges in the data structure
+    theGraph->M--;
+
+    // If records e and eTwin were not the last in the edge record array,
+    // then record a new hole in the edge array. */
+    if (e < gp_EdgeInUseIndexBound(theGraph))
+    {
+        sp_Push(theGraph->edgeHoles, e);
+    }
+
+    // Return the previously calculated successor of e.
+    return nextArc;
+}
+
+/********************************************************************
+ _RestoreArc()
+ This routine reinserts an arc into the edge list from which it
+ was previously removed by gp_DetachArc().
+
+ The assumed processing model is that arcs will be restored in reverse
+ of the order in which they were hidden, i.e. it is assumed that the
+ hidden arcs will be pushed on a stack and the arcs will be popped
+ from the stack for restoration.
+ ********************************************************************/
+
+void _RestoreArc(graphP theGraph, int arc)
+{
+    int nextArc = gp_GetNextArc(theGraph, arc),
+        prevArc = gp_GetPrevArc(theGraph, arc);
+
+    if (gp_IsArc(nextArc))
+        gp_SetPrevArc(theGraph, nextArc, arc);
+    else
+        gp_SetLastArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), arc);
+
+    if (gp_IsArc(prevArc))
+        gp_SetNextArc(theGraph, prevArc, arc);
+    else
+        gp_SetFirstArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), arc);
+}
+
+/********************************************************************
+ gp_HideEdge()
+ This routine removes the two arcs of an edge from the adjacency lists
+ of its endpoint vertices, but does not delete them from the storage
+ data structure.
+
+ Many algorithms must temporarily remove an edge, perform some
+ calculation, and eventually put the edge back. This routine supports
+ that operation.
+
+ For each arc, the neighboring adjacency list nodes are cross-linked,
+ but the links in the arc are retained because they indicate the
+ neighbor arcs to which the arc can be reattached by gp_RestoreEdge().
+ ********************************************************************/
+
+void gp_HideEdge(graphP theGraph, int e)
+{
+    theGraph->functions.fpHideEdge(theGraph, e);
+}
+
+void _HideEdge(graphP theGraph, int e)
+{
+    gp_DetachArc(theGraph, e);
+    gp_DetachArc(theGraph, gp_GetTwinArc(theGraph, e));
+}
+
+/********************************************************************
+ gp_RestoreEdge()
+ This routine reinserts two two arcs of an edge into the adjacency
+ lists of the edge's endpoints, the arcs having been previously
+ removed by gp_HideEdge().
+
+ The assumed processing model is that edges will be restored in
+ reverse of the order in which they were hidden, i.e. it is assumed
+ that the hidden edges will be pushed on a stack and the edges will
+ be popped from the stack for restoration.
+
+ Note: Since both arcs of an edge are restored, only one arc need
+        be pushed on the stack for restoration.  This routine
+        restores the two arcs in the opposite order from the order
+        in which they are hidden by gp_HideEdge().
+ ********************************************************************/
+
+void gp_RestoreEdge(graphP theGraph, int e)
+{
+    theGraph->functions.fpRestoreEdge(theGraph, e);
+}
+
+void _RestoreEdge(graphP theGraph, int e)
+{
+    _RestoreArc(theGraph, gp_GetTwinArc(theGraph, e));
+    _RestoreArc(theGraph, e);
+}
+
+/********************************************************************
+ _HideInternalEdges()
+ Pushes onto the graph's stack and hides all arc nodes of the vertex
+ except the first and last arcs in the adjacency list of the vertex.
+ This method is typically called on a vertex that is on the external
+ face of a biconnected component, because the first and last arcs are
+ the ones that attach the vertex to the external face cycle, and any
+ other arcs in the adjacency list are inside that cycle.
+
+ This method uses the stack. The caller is expected to clear the stack
+ or save the stack size before invocation, since the stack size is
+ needed to _RestoreInternalEdges().
+ ********************************************************************/
+
+int _HideInternalEdges(graphP theGraph, int vertex)
+{
+    int e = gp_GetFirstArc(theGraph, vertex);
+
+    // If the vertex adjacency list is empty or if it contains
+    // only one edge, then there are no *internal* edges to hide
+    if (e == gp_GetLastArc(theGraph, vertex))
+        return OK;
+
+    // Start with the first internal edge
+    e = gp_GetNextArc(theGraph, e);
+
+    // Cycle through all the edges, pushing each except stop
+    // before pushing the last edge, which is not internal
+    while (e != gp_GetLastArc(theGraph, vertex))
+    {
+        sp_Push(theGraph->theStack, e);
+        gp_HideEdge(theGraph, e);
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _RestoreInternalEdges()
+ Reverses the effects of _HideInternalEdges()
+ ********************************************************************/
+
+int _RestoreInternalEdges(graphP theGraph, int stackBottom)
+{
+    return _RestoreHiddenEdges(theGraph, stackBottom);
+}
+
+/********************************************************************
+ _RestoreHiddenEdges()
+
+ Each entry on the stack, down to stackBottom, is assumed to be an
+ edge record (arc) pushed in concert with invoking gp_HideEdge().
+ Each edge is restored using gp_RestoreEdge() in exact reverse of the
+ hiding order.  The stack is reduced in size to stackBottom.
+
+ Returns OK on success, NOTOK on internal failure.
+ ********************************************************************/
+
+int _RestoreHiddenEdges(graphP theGraph, int stackBottom)
+{
+    int e;
+
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, e);
+        if (gp_IsNotArc(e))
+            return NOTOK;
+        gp_RestoreEdge(theGraph, e);
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ gp_HideVertex()
+
+ Pushes onto the graph's stack and hides all arc nodes of the vertex.
+ Additional integers are then pushed so that the result is reversible
+ by gp_RestoreVertex().  See that method for details on the expected
+ stack segment.
+
+ Returns OK for success, NOTOK for internal failure.
+ ********************************************************************/
+
+int gp_HideVertex(graphP theGraph, int vertex)
+{
+    if (gp_IsNotVertex(vertex))
+        return NOTOK;
+
+    return theGraph->functions.fpHideVertex(theGraph, vertex);
+}
+
+int _HideVertex(graphP theGraph, int vertex)
+{
+    int hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
+    int e = gp_GetFirstArc(theGraph, vertex);
+
+    // Cycle through all the edges, pushing and hiding each
+    while (gp_IsArc(e))
+    {
+        sp_Push(theGraph->theStack, e);
+        gp_HideEdge(theGraph, e);
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // Push the additional integers needed by gp_RestoreVertex()
+    sp_Push(theGraph->theStack, hiddenEdgeStackBottom);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, vertex);
+
+    return OK;
+}
+
+/********************************************************************
+ gp_ContractEdge()
+
+ Contracts the edge e=(u,v).  This hides the edge (both e and its
+ twin arc), and it also identifies vertex v with u.
+ See gp_IdentifyVertices() for further details.
+
+ Returns OK for success, NOTOK for internal failure.
+ ********************************************************************/
+
+int gp_ContractEdge(graphP theGraph, int e)
+{
+    if (gp_IsNotArc(e))
+        return NOTOK;
+
+    return theGraph->functions.fpContractEdge(theGraph, e);
+}
+
+int _ContractEdge(graphP theGraph, int e)
+{
+    int eBefore, u, v, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue;
+
+    if (gp_IsNotArc(e))
+        return NOTOK;
+
+    u = gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, e));
+    v = gp_GetNeighbor(theGraph, e);
+
+    eBefore = gp_GetNextArc(theGraph, e);
+    sp_Push(theGraph->theStack, e);
+    gp_HideEdge(theGraph, e);
+
+    if (gp_IdentifyVertices(theGraph, u, v, eBefore) != OK)
+        return NOTOK;
+
+    // This operation pushes one hidden edge then invokes vertex
+    // identification. That method then pushes K hidden edges then
+    // an integer indicating where the top of stack was before the
+    // edges were hidden. That integer indicator must be decremented,
+    // thereby incrementing the number of hidden edges to K+1.
+    // After pushing the K hidden edges and the stackBottom of
+    // the hidden edges, the vertex identification pushes
+    // six more integers to indicate edges that were moved from
+    // v to u, so the "hidden edges stackBottom" is in the next
+    // position down.
+    hiddenEdgesStackBottomIndex = sp_GetCurrentSize(theGraph->theStack) - 7;
+    hiddenEdgesStackBottomValue = sp_Get(theGraph->theStack, hiddenEdgesStackBottomIndex);
+
+    sp_Set(theGraph->theStack, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue - 1);
+
+    return OK;
+}
+
+/********************************************************************
+ gp_IdentifyVertices()
+
+ Identifies vertex v with vertex u by transferring all adjacencies
+ of v to u.  Any duplicate edges are removed as described below.
+ The non-duplicate edges of v are added to the adjacency list of u
+ without disturbing their relative order, and they are added before
+ the edge record eBefore in u's list. If eBefore is NIL, then the
+ edges are simply appended to u's list.
+
+ If u and v are adjacent, then gp_HideEdge() is invoked to remove
+ the edge e=(u,v). Then, the edges of v that indicate neighbors of
+ u are also hidden.  This is done by setting the visited flags of
+ u's neighbors, then traversing the adjacency list of v.  For each
+ visited neighbor of v, the edge is hidden because it would duplicate
+ an adjacency already expressed in u's list. Finally, the remaining
+ edges of v are moved to u's list, and each twin arc is adjusted
+ to indicate u as a neighbor rather than v.
+
+ This routine assumes that the visited flags are clear beforehand,
+ and visited flag settings made herein are cleared before returning.
+
+ The following are pushed, in order, onto the graph's built-in stack:
+ 1) an integer for each hidden edge
+ 2) the stack size before any hidden edges were pushed
+ 3) six integers that indicate u, v and the edges moved from v to u
+
+ An algorithm that identifies a series of vertices, either through
+ directly calling this method or via gp_ContractEdge(), can unwind
+ the identifications using gp_RestoreIdentifications(), which
+ invokes gp_RestoreVertex() repeatedly.
+
+ Returns OK on success, NOTOK on internal failure
+ ********************************************************************/
+
+int gp_IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
+{
+    return theGraph->functions.fpIdentifyVertices(theGraph, u, v, eBefore);
+}
+
+int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
+{
+    int e = gp_GetNeighborEdgeRecord(theGraph, u, v);
+    int hiddenEdgeStackBottom, eBeforePred;
+
+    // If the vertices are adjacent, then the identification is
+    // essentially an edge contraction.
+    if (gp_IsArc(e))
+        return gp_ContractEdge(theGraph, e);
+
+    // Now, u and v are not adjacent. Before we do any edge hiding or
+    // moving, we record the current stack size, as this is the
+    // stackBottom for the edges that will be hidden next.
+    hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    // Mark as visited all neighbors of u
+    e = gp_GetFirstArc(theGraph, u);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e)))
+            return NOTOK;
+
+        gp_SetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // For each edge record of v, if the neighbor is visited, then
+    // push and hide the edge.
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e)))
+        {
+            sp_Push(theGraph->theStack, e);
+            gp_HideEdge(theGraph, e);
+        }
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // Mark as unvisited all neighbors of u
+    e = gp_GetFirstArc(theGraph, u);
+    while (gp_IsArc(e))
+    {
+        gp_ClearVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // Push the hiddenEdgeStackBottom as a record of how many hidden
+    // edges were pushed (also, see above for Contract Edge adjustment)
+    sp_Push(theGraph->theStack, hiddenEdgeStackBottom);
+
+    // Moving v's adjacency list to u is aided by knowing the predecessor
+    // of u's eBefore (the edge record in u's list before which the
+    // edge records of v will be added).
+    eBeforePred = gp_IsArc(eBefore)
+                      ? gp_GetPrevArc(theGraph, eBefore)
+                      : gp_GetLastArc(theGraph, u);
+
+    // Turns out we only need to record six integers related to the edges
+    // being moved in order to easily restore them later.
+    sp_Push(theGraph->theStack, eBefore);
+    sp_Push(theGraph->theStack, gp_GetLastArc(theGraph, v));
+    sp_Push(theGraph->theStack, gp_GetFirstArc(theGraph, v));
+    sp_Push(theGraph->theStack, eBeforePred);
+    sp_Push(theGraph->theStack, u);
+    sp_Push(theGraph->theStack, v);
+
+    // For the remaining edge records of v, reassign the 'v' member
+    //    of each twin arc to indicate u rather than v.
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        gp_SetNeighbor(theGraph, gp_GetTwinArc(theGraph, e), u);
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // If v has any edges left after hiding edges, indicating common neighbors with u, ...
+    if (gp_IsArc(gp_GetFirstArc(theGraph, v)))
+    {
+        // Then perform the list union of v into u between eBeforePred and eBefore
+        if (gp_IsArc(eBeforePred))
+        {
+            if (gp_IsArc(gp_GetFirstArc(theGraph, v)))
+            {
+                gp_SetNextArc(theGraph, eBeforePred, gp_GetFirstArc(theGraph, v));
+                gp_SetPrevArc(theGraph, gp_GetFirstArc(theGraph, v), eBeforePred);
+            }
+        }
+        else
+        {
+            gp_SetFirstArc(theGraph, u, gp_GetFirstArc(theGraph, v));
+        }
+
+        if (gp_IsArc(eBefore))
+        {
+            if (gp_IsArc(gp_GetLastArc(theGraph, v)))
+            {
+                gp_SetNextArc(theGraph, gp_GetLastArc(theGraph, v), eBefore);
+                gp_SetPrevArc(theGraph, eBefore, gp_GetLastArc(theGraph, v));
+            }
+        }
+        else
+        {
+            gp_SetLastArc(theGraph, u, gp_GetLastArc(theGraph, v));
+        }
+
+        gp_SetFirstArc(theGraph, v, NIL);
+        gp_SetLastArc(theGraph, v, NIL);
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ gp_RestoreVertex()
+
+ This method assumes the built-in graph stack contents are the result
+ of vertex hide, vertex identify and edge contract operations.
+ This content consists of segments of integers, each segment
+ corresponding to the removal of a vertex during an edge contraction
+ or vertex identification in which a vertex v was merged into a
+ vertex u.  The segment contains two blocks of integers.
+ The first block contains information about u, v, the edge records
+ in v's adjacency list that were added to u, and where in u's
+ adjacency list they were added.  The second block of integers
+ contains a list of edges incident to v that were hidden from the
+ graph because they were incident to neighbors of v that were also
+ neighbors of u (so they would have produced duplicate edges had
+ they been left in v's adjacency list when it was merged with u's
+ adjacency list).
+
+ This method pops the first block of the segment off the stack and
+ uses the information to help remove v's adjacency list from u and
+ restore it into v.  Then, the second block is removed from the
+ stack, and each indicated edge is restored from the hidden state.
+
+ It is anticipated that this method will be overloaded by extension
+ algorithms to perform some processing as each vertex is restored.
+ Before restoration, the topmost segment has the following structure:
+
+ ... FHE ... LHE HESB e_u_succ e_v_last e_v_first e_u_pred u v
+      ^------------|
+
+ FHE = First hidden edge
+ LHE = Last hidden edge
+ HESB = Hidden edge stack bottom
+ e_u_succ, e_u_pred = The edges of u between which the edges of v
+                      were inserted. NIL can appear if the edges of v
+                      were added to the beginning or end of u's list
+ e_v_first, e_v_last = The first and last edges of v's list, once
+                       the hidden edges were removed
+
+ Returns OK for success, NOTOK for internal failure.
+ ********************************************************************/
+
+int gp_RestoreVertex(graphP theGraph)
+{
+    return theGraph->functions.fpRestoreVertex(theGraph);
+}
+
+int _RestoreVertex(graphP theGraph)
+{
+    int u, v, e_u_succ, e_u_pred, e_v_first, e_v_last, HESB, e;
+
+    if (sp_GetCurrentSize(theGraph->theStack) < 7)
+        return NOTOK;
+
+    sp_Pop(theGraph->theStack, v);
+    sp_Pop(theGraph->theStack, u);
+    sp_Pop(theGraph->theStack, e_u_pred);
+    sp_Pop(theGraph->theStack, e_v_first);
+    sp_Pop(theGraph->theStack, e_v_last);
+    sp_Pop(theGraph->theStack, e_u_succ);
+
+    // If u is not NIL, then vertex v was identified with u.  Otherwise, v was
+    // simply hidden, so we skip to restoring the hidden edges.
+    if (gp_IsVertex(u))
+    {
+        // Remove v's adjacency list from u, including accounting for degree 0 case
+        if (gp_IsArc(e_u_pred))
+        {
+            gp_SetNextArc(theGraph, e_u_pred, e_u_succ);
+            // If the successor edge exists, link it to the predecessor,
+            // otherwise the predecessor is the new last arc
+            if (gp_IsArc(e_u_succ))
+                gp_SetPrevArc(theGraph, e_u_succ, e_u_pred);
+            else
+                gp_SetLastArc(theGraph, u, e_u_pred);
+        }
+        else if (gp_IsArc(e_u_succ))
+        {
+            // The successor arc exists, but not the predecessor,
+            // so the successor is the new first arc
+            gp_SetPrevArc(theGraph, e_u_succ, NIL);
+            gp_SetFirstArc(theGraph, u, e_u_succ);
+        }
+        else
+        {
+            // Just in case u was degree zero
+            gp_SetFirstArc(theGraph, u, NIL);
+            gp_SetLastArc(theGraph, u, NIL);
+        }
+
+        // Place v's adjacency list into v, including accounting for degree 0 case
+        gp_SetFirstArc(theGraph, v, e_v_first);
+        gp_SetLastArc(theGraph, v, e_v_last);
+        if (gp_IsArc(e_v_first))
+            gp_SetPrevArc(theGraph, e_v_first, NIL);
+        if (gp_IsArc(e_v_last))
+            gp_SetNextArc(theGraph, e_v_last, NIL);
+
+        // For each edge record restored to v's adjacency list, reassign the 'v' member
+        //    of each twin arc to indicate v rather than u.
+        e = e_v_first;
+        while (gp_IsArc(e))
+        {
+            gp_SetNeighbor(theGraph, gp_GetTwinArc(theGraph, e), v);
+            e = (e == e_v_last ? NIL : gp_GetNextArc(theGraph, e));
+        }
+    }
+
+    // Restore the hidden edges of v, if any
+    sp_Pop(theGraph->theStack, HESB);
+    return _RestoreHiddenEdges(theGraph, HESB);
+}
+
+/********************************************************************
+ gp_RestoreVertices()
+
+ This method assumes the built-in graph stack has content consistent
+ with numerous vertex identification or edge contraction operations.
+ This method unwinds the stack, moving edges back to their original
+ vertex owners and restoring hidden edges.
+ This method is a simple iterator that invokes gp_RestoreVertex()
+ until the stack is empty, so extension algorithms are more likely
+ to overload gp_RestoreVertex().
+
+ Returns OK for success, NOTOK for internal failure.
+ ********************************************************************/
+
+int gp_RestoreVertices(graphP theGraph)
+{
+    while (sp_NonEmpty(theGraph->theStack))
+    {
+        if (gp_RestoreVertex(theGraph) != OK)
+            return NOTOK;
+    }
+
+    return OK;
+}
+
+/****************************************************************************
+ _ComputeArcType()
+ This is just a little helper function that automates a sequence of decisions
+ that has to be made a number of times.
+ An edge record is being added to the adjacency list of a; it indicates that
+ b is a neighbor.  The edgeType can be either 'tree' (EDGE_TYPE_PARENT or
+ EDGE_TYPE_CHILD) or 'cycle' (EDGE_TYPE_BACK or EDGE_TYPE_FORWARD).
+ If a or b is a root copy, we translate to the non-virtual counterpart,
+ then wedetermine which has the lesser DFI.  If a has the lower DFI then the
+ edge record is a tree edge to a child (EDGE_TYPE_CHILD) if edgeType indicates
+ a tree edge.  If edgeType indicates a cycle edge, then it is a forward cycle
+ edge (EDGE_TYPE_FORWARD) to a descendant.
+ Symmetric conditions define the types for a > b.
+ ****************************************************************************/
+
+int _ComputeArcType(graphP theGraph, int a, int b, int edgeType)
+{
+    a = gp_IsVirtualVertex(theGraph, a) ? gp_GetPrimaryVertexFromRoot(theGraph, a) : a;
+    b = gp_IsVirtualVertex(theGraph, b) ? gp_GetPrimaryVertexFromRoot(theGraph, b) : b;
+
+    if (a < b)
+        return edgeType == EDGE_TYPE_PARENT || edgeType == EDGE_TYPE_CHILD ? EDGE_TYPE_CHILD : EDGE_TYPE_FORWARD;
+
+    return edgeType == EDGE_TYPE_PARENT || edgeType == EDGE_TYPE_CHILD ? EDGE_TYPE_PARENT : EDGE_TYPE_BACK;
+}
+
+/****************************************************************************
+ _SetEdgeType()
+ When we are restoring an edge, we must restore its type (tree edge or cycle edge).
+ We can deduce what the type was based on other information in the graph. Each
+ arc of the edge gets the appropriate type setting (parent/child or back/forward).
+ This method runs in constant time plus the degree of vertex u, or constant
+ time if u is known to have a degree bound by a constant.
+ ****************************************************************************/
+
+int _SetEdgeType(graphP theGraph, int u, int v)
+{
+    int e, eTwin, u_orig, v_orig;
+
+    // If u or v is a virtual vertex (a root copy), then get the non-virtual counterpart.
+    u_orig = gp_IsVirtualVertex(theGraph, u) ? (gp_GetPrimaryVertexFromRoot(theGraph, u)) : u;
+    v_orig = gp_IsVirtualVertex(theGraph, v) ? (gp_GetPrimaryVertexFromRoot(theGraph, v)) : v;
+
+    // Get the edge for which we will set the type
+
+    e = gp_GetNeighborEdgeRecord(theGraph, u, v);
+    eTwin = gp_GetTwinArc(theGraph, e);
+
+    // If u_orig is the parent of v_orig, or vice versa, then the edge is a tree edge
+
+    if (gp_GetVertexParent(theGraph, v_orig) == u_orig ||
+        gp_GetVertexParent(theGraph, u_orig) == v_orig)
+    {
+        if (u_orig > v_orig)
+        {
+            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_PARENT);
+            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_CHILD);
+        }
+        else
+        {
+            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_PARENT);
+            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_CHILD);
+        }
+    }
+
+    // Otherwise it is a back edge
+
+    else
+    {
+        if (u_orig > v_orig)
+        {
+            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_BACK);
+            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_FORWARD);
+        }
+        else
+        {
+            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_BACK);
+            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_FORWARD);
+        }
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _DeleteUnmarkedEdgesInBicomp()
+
+ This function deletes from a given biconnected component all edges
+ whose visited member is zero.
+
+ The stack is used but preserved. In debug mode, NOTOK can result if
+ there is a stack overflow. This method pushes at most one integer
+ per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure
+ ********************************************************************/
+
+int _DeleteUnmarkedEdgesInBicomp(graphP theGraph, int BicompRoot)
+{
+    int V, e;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, V);
+
+        e = gp_GetFirstArc(theGraph, V);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetEdgeVisited(theGraph, e) ? gp_GetNextArc(theGraph, e) : gp_DeleteEdge(theGraph, e, 0);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearInvertedFlagsInBicomp()
+
+ This function clears the inverted flag markers on any edges in a
+ given biconnected component.
+
+ The stack is used but preserved. In debug mode, NOTOK can result if
+ there is a stack overflow. This method pushes at most one integer
+ per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure
+ ********************************************************************/
+
+int _ClearInvertedFlagsInBicomp(graphP theGraph, int BicompRoot)
+{
+    int V, e;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, V);
+
+        e = gp_GetFirstArc(theGraph, V);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+            {
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+                gp_ClearEdgeFlagInverted(theGraph, e);
+            }
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _GetBicompSize()
+
+ Determine the number of vertices in the bicomp.
+
+ The stack is used but preserved. In debug mode, NOTOK can result if
+ there is a stack overflow. This method pushes at most one integer
+ per vertex in the bicomp.
+
+ Returns a positive number on success, NOTOK on implementation failure
+ ********************************************************************/
+
+int _GetBicompSize(graphP theGraph, int BicompRoot)
+{
+    int V, e;
+    int theSize = 0;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, V);
+        theSize++;
+        e = gp_GetFirstArc(theGraph, V);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return theSize;
+}
+
+/********************************************************************
+ debugNOTOK()
+ This function provides a non-void wrapper for exit().
+ This is useful for debugging as it allows compilation of an exit
+ command in places where NOTOK is returned.
+ In exhaustive testing, we want to bail on the first NOTOK that occurs.
+ Comment out the exit() call to get a stack trace.
+ ********************************************************************/
+
+int debugNOTOK(void)
+{
+    // exit(-1);
+    return 0; // NOTOK is normally defined to be zero
+}
-- 
2.43.0


From ce92dbcd3604f2cc17e325950628b0848e587a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:26 +0000
Subject: [PATCH 23/65] fix: refuse orders for which the sizes of the graph's
 arrays are not integers

---
 c/graphLib/graphUtils.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 49f3f4f..be5173a 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -5,6 +5,7 @@ See the LICENSE.TXT file for licensing information.
 */
 
 #include <stdlib.h>
+#include <limits.h>
 
 #include "graphStructures.h"
 #include "graph.h"
@@ -197,6 +198,10 @@ int gp_InitGraph(graphP theGraph, int N)
     if (theGraph->N)
         return NOTOK;
 
+    // The sizes computed from N, up to two integers per edge record, must be integers
+    if (N > INT_MAX / (4 * DEFAULT_EDGE_LIMIT) - 1)
+        return NOTOK;
+
     return theGraph->functions.fpInitGraph(theGraph, N);
 }
 
-- 
2.43.0


From 5ae6eeab05d20361f918a25c36d7e41399a6b001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:52 +0000
Subject: [PATCH 24/65] fix: graph6 sizes of graphs with more than 46341
 vertices do not overflow

---
 c/graphLib/io/g6-api-utilities.c  | 12 ++++++------
 c/graphLib/io/g6-api-utilities.h  |  2 +-
 c/graphLib/io/g6-write-iterator.c |  8 ++++----
 c/graphLib/io/g6-write-iterator.h |  4 ++--
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/c/graphLib/io/g6-api-utilities.c b/c/graphLib/io/g6-api-utilities.c
index 99d6c3e..733eafe 100644
--- a/c/graphLib/io/g6-api-utilities.c
+++ b/c/graphLib/io/g6-api-utilities.c
@@ -6,16 +6,16 @@ See the LICENSE.TXT file for licensing information.
 
 #include "g6-api-utilities.h"
 
-int _getMaxEdgeCount(int graphOrder)
+long long _getMaxEdgeCount(int graphOrder)
 {
-	return (graphOrder * (graphOrder - 1)) / 2;
+	return ((long long) graphOrder * (graphOrder - 1)) / 2;
 }
 
 int _getNumCharsForGraphEncoding(int graphOrder)
 {
-	int maxNumEdges = _getMaxEdgeCount(graphOrder);
+	long long maxNumEdges = _getMaxEdgeCount(graphOrder);
 
-	return (maxNumEdges / 6) + (maxNumEdges % 6 ? 1 : 0);
+	return (int) (maxNumEdges / 6) + (maxNumEdges % 6 ? 1 : 0);
 }
 
 int _getNumCharsForGraphOrder(int graphOrder)
@@ -31,8 +31,8 @@ int _getNumCharsForGraphOrder(int graphOrder)
 
 int _getExpectedNumPaddingZeroes(const int graphOrder, const int numChars)
 {
-	int maxNumEdges = _getMaxEdgeCount(graphOrder);
-	int expectedNumPaddingZeroes = numChars * 6 - maxNumEdges;
+	long long maxNumEdges = _getMaxEdgeCount(graphOrder);
+	int expectedNumPaddingZeroes = (int) (numChars * 6LL - maxNumEdges);
 
 	return expectedNumPaddingZeroes;
 }
diff --git a/c/graphLib/io/g6-api-utilities.h b/c/graphLib/io/g6-api-utilities.h
index ae6de29..78c2d89 100644
--- a/c/graphLib/io/g6-api-utilities.h
+++ b/c/graphLib/io/g6-api-utilities.h
@@ -11,7 +11,7 @@ See the LICENSE.TXT file for licensing information.
 extern "C" {
 #endif
 
-int _getMaxEdgeCount(int);
+long long _getMaxEdgeCount(int);
 int _getNumCharsForGraphEncoding(int);
 int _getNumCharsForGraphOrder(int);
 int _getExpectedNumPaddingZeroes(const int, const int);
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 8fb62d2..7e7242b 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -209,7 +209,7 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 
 	pG6WriteIterator->graphOrder = pG6WriteIterator->currGraph->N;
 
-	pG6WriteIterator->columnOffsets = (int *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(int));
+	pG6WriteIterator->columnOffsets = (long long *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(long long));
 
 	if ( pG6WriteIterator->columnOffsets == NULL)
 	{
@@ -234,7 +234,7 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 	return exitCode;
 }
 
-void _precomputeColumnOffsets(int *columnOffsets, int graphOrder)
+void _precomputeColumnOffsets(long long *columnOffsets, int graphOrder)
 {
 	if (columnOffsets == NULL)
 	{
@@ -290,7 +290,7 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		return NOTOK;
 	}
 
-	int *columnOffsets = pG6WriteIterator->columnOffsets;
+	long long *columnOffsets = pG6WriteIterator->columnOffsets;
 	if (columnOffsets == NULL)
 	{
 		ErrorMessage("Column offsets array is not allocated.\n");
@@ -363,7 +363,7 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		// bit to set in that byte by left-shifting 1 by (5 - ((columnOffsets[v] + u) % 6))
 		// (transforming the ((columnOffsets[v] + u) % 6)th bit from the left to the
 		// (5 - ((columnOffsets[v] + u) % 6))th bit from the right)
-		charOffset = numCharsForGraphOrder + ((columnOffsets[v] + u) / 6);
+		charOffset = numCharsForGraphOrder + (int) ((columnOffsets[v] + u) / 6);
 		bitPositionPower = 5 - ((columnOffsets[v] + u) % 6);
 
 		g6Encoding[charOffset] |= (1u << bitPositionPower);
diff --git a/c/graphLib/io/g6-write-iterator.h b/c/graphLib/io/g6-write-iterator.h
index b3314aa..6b88b0c 100644
--- a/c/graphLib/io/g6-write-iterator.h
+++ b/c/graphLib/io/g6-write-iterator.h
@@ -29,7 +29,7 @@ extern "C"
 		int currGraphBuffSize;
 		char *currGraphBuff;
 
-		int *columnOffsets;
+		long long *columnOffsets;
 
 		graphP currGraph;
 	} G6WriteIterator;
@@ -45,7 +45,7 @@ extern "C"
 	int beginG6WriteIterationToG6FilePointer(G6WriteIterator *pG6WriteIterator, FILE *g6Outfile);
 	int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6OutputStr);
 	int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator);
-	void _precomputeColumnOffsets(int *, int);
+	void _precomputeColumnOffsets(long long *, int);
 
 	int writeGraphUsingG6WriteIterator(G6WriteIterator *);
 
-- 
2.43.0


From 1abd5e6db4dc3b31702ca86c35f544b489663cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:53 +0000
Subject: [PATCH 25/65] fix: refuse to write graph6 encodings of orders that
 the library cannot encode

---
 c/graphLib/io/g6-write-iterator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 7e7242b..938cd4a 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -209,6 +209,12 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 
 	pG6WriteIterator->graphOrder = pG6WriteIterator->currGraph->N;
 
+	if (_getNumCharsForGraphOrder(pG6WriteIterator->graphOrder) < 0)
+	{
+		ErrorMessage("Graph order is too large; we only support n <= 100000.\n");
+		return NOTOK;
+	}
+
 	pG6WriteIterator->columnOffsets = (long long *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(long long));
 
 	if ( pG6WriteIterator->columnOffsets == NULL)
-- 
2.43.0


From 8ed4cb4009dfcf362a06f576a6e39782ab223cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:53 +0000
Subject: [PATCH 26/65] fix: a byte 255 in graph6 input is not mistaken for the
 end of the input

---
 c/graphLib/io/strOrFile.c | 15 ++++++++-------
 c/graphLib/io/strOrFile.h |  4 ++--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/c/graphLib/io/strOrFile.c b/c/graphLib/io/strOrFile.c
index 314e315..b9b5764 100644
--- a/c/graphLib/io/strOrFile.c
+++ b/c/graphLib/io/strOrFile.c
@@ -44,9 +44,9 @@ strOrFileP sf_New(FILE *pFile, char *theStr)
  If strOrFileP has input string, returns character at theStrPos and
  increments theStrPos.
  ********************************************************************/
-char sf_getc(strOrFileP theStrOrFile)
+int sf_getc(strOrFileP theStrOrFile)
 {
-	char theChar = '\0';
+	int theChar = '\0';
 
 	if (theStrOrFile != NULL)
 	{
@@ -57,7 +57,7 @@ char sf_getc(strOrFileP theStrOrFile)
 			if ((theStrOrFile->theStr + theStrOrFile->theStrPos)[0] == '\0')
 				return EOF;
 
-			theChar = theStrOrFile->theStr[theStrOrFile->theStrPos++];
+			theChar = (unsigned char) theStrOrFile->theStr[theStrOrFile->theStrPos++];
 		}
 	}
 
@@ -75,9 +75,9 @@ char sf_getc(strOrFileP theStrOrFile)
  Like ungetc() in stdio, on success theChar is returned. On failure, EOF
  is returned.
  ********************************************************************/
-char sf_ungetc(char theChar, strOrFileP theStrOrFile)
+int sf_ungetc(int theChar, strOrFileP theStrOrFile)
 {
-	char charToReturn = EOF;
+	int charToReturn = EOF;
 
 	if (theStrOrFile != NULL)
 	{
@@ -86,11 +86,12 @@ char sf_ungetc(char theChar, strOrFileP theStrOrFile)
 		// Don't want to ungetc to an index before theStrOrFile->theStr start
 		else if (theStrOrFile->theStr != NULL)
 		{
-			if (theStrOrFile->theStrPos <= 0)
+			if (theStrOrFile->theStrPos <= 0 || theChar == EOF)
 				return EOF;
 
 			// Decrement theStrPos, then replace the character in theStr at that position with theChar
-			charToReturn = theStrOrFile->theStr[--(theStrOrFile->theStrPos)] = theChar;
+			theStrOrFile->theStr[--(theStrOrFile->theStrPos)] = (char) theChar;
+			charToReturn = theChar;
 		}
 	}
 
diff --git a/c/graphLib/io/strOrFile.h b/c/graphLib/io/strOrFile.h
index bc3f699..a7fa7ce 100644
--- a/c/graphLib/io/strOrFile.h
+++ b/c/graphLib/io/strOrFile.h
@@ -24,8 +24,8 @@ typedef strOrFile *strOrFileP;
 
 strOrFileP sf_New(FILE * pFile, char *theStr);
 
-char sf_getc(strOrFileP theStrOrFile);
-char sf_ungetc(char theChar, strOrFileP theStrOrFile);
+int sf_getc(strOrFileP theStrOrFile);
+int sf_ungetc(int theChar, strOrFileP theStrOrFile);
 char * sf_fgets(char *str, int count, strOrFileP theStrOrFile);
 
 int sf_fputs(char *strToWrite, strOrFileP theStrOrFile);
-- 
2.43.0


From 5d861a08659dbe78d59dad08a72cdffe6640c7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 27/65] fix: duplicating extension data does not read past the
 source's edge records

---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 5 +++--
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 5 +++--
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 468f724..ac55e4c 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -313,7 +313,7 @@ void *_K33Search_DupContext(void *pContext, void *theGraph)
      if (newContext != NULL)
      {
          int VIsize = gp_PrimaryVertexIndexBound((graphP) theGraph);
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -323,7 +323,8 @@ void *_K33Search_DupContext(void *pContext, void *theGraph)
          _K33Search_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_K33Search_CreateStructures(newContext) != OK)
+             if (_K33Search_CreateStructures(newContext) != OK ||
+                 _K33Search_InitStructures(newContext) != OK)
              {
                  _K33Search_FreeContext(newContext);
                  return NULL;
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 13ff6a0..0fd3b56 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -269,7 +269,7 @@ void *_K4Search_DupContext(void *pContext, void *theGraph)
 
      if (newContext != NULL)
      {
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -279,7 +279,8 @@ void *_K4Search_DupContext(void *pContext, void *theGraph)
          _K4Search_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_K4Search_CreateStructures(newContext) != OK)
+             if (_K4Search_CreateStructures(newContext) != OK ||
+                 _K4Search_InitStructures(newContext) != OK)
              {
                  _K4Search_FreeContext(newContext);
                  return NULL;
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index c8db26e..cc43118 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -255,7 +255,7 @@ void *_DrawPlanar_DupContext(void *pContext, void *theGraph)
      if (newContext != NULL)
      {
          int VIsize = gp_PrimaryVertexIndexBound((graphP) theGraph);
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -265,7 +265,8 @@ void *_DrawPlanar_DupContext(void *pContext, void *theGraph)
          _DrawPlanar_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_DrawPlanar_CreateStructures(newContext) != OK)
+             if (_DrawPlanar_CreateStructures(newContext) != OK ||
+                 _DrawPlanar_InitStructures(newContext) != OK)
              {
                  _DrawPlanar_FreeContext(newContext);
                  return NULL;
-- 
2.43.0


From 3b7a7f3488b40c833931ebe9321a717210aecfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 28/65] fix: a copied extension uses the function table in its
 own context

---
 c/graphLib/extensionSystem/graphExtensions.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/extensionSystem/graphExtensions.c b/c/graphLib/extensionSystem/graphExtensions.c
index 1dee8d0..61c2aad 100644
--- a/c/graphLib/extensionSystem/graphExtensions.c
+++ b/c/graphLib/extensionSystem/graphExtensions.c
@@ -489,7 +489,11 @@ int gp_CopyExtensions(graphP dstGraph, graphP srcGraph)
         newNext->context = next->dupContext(next->context, dstGraph);
         newNext->dupContext = next->dupContext;
         newNext->freeContext = next->freeContext;
-        newNext->functions = next->functions;
+
+        // The function table is in the context, so the copy of the extension
+        // must use the function table in its own copy of the context
+        newNext->functions = (graphFunctionTableP)((char *)newNext->context +
+                                                   ((char *)next->functions - (char *)next->context));
         newNext->next = NULL;
 
         if (newLast != NULL)
-- 
2.43.0


From 4dc3c00180c0b243502ba0a29a9b892d5baa7b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 29/65] fix: the extensions of a graph cannot be copied if
 their data cannot be duplicated

---
 c/graphLib/extensionSystem/graphExtensions.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/extensionSystem/graphExtensions.c b/c/graphLib/extensionSystem/graphExtensions.c
index 61c2aad..9580e20 100644
--- a/c/graphLib/extensionSystem/graphExtensions.c
+++ b/c/graphLib/extensionSystem/graphExtensions.c
@@ -486,7 +486,12 @@ int gp_CopyExtensions(graphP dstGraph, graphP srcGraph)
         }
 
         newNext->moduleID = next->moduleID;
-        newNext->context = next->dupContext(next->context, dstGraph);
+        if ((newNext->context = next->dupContext(next->context, dstGraph)) == NULL)
+        {
+            free(newNext);
+            gp_FreeExtensions(dstGraph);
+            return NOTOK;
+        }
         newNext->dupContext = next->dupContext;
         newNext->freeContext = next->freeContext;
 
-- 
2.43.0


From 0753b92431fa3d78c7bc8b90a182eaebd4104e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 30/65] fix: edge records that a copy does not use are
 initialised

---
 c/graphLib/graphUtils.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index be5173a..e28f94f 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -913,7 +913,7 @@ void gp_Free(graphP *pGraph)
  ********************************************************************/
 int gp_CopyAdjacencyLists(graphP dstGraph, graphP srcGraph)
 {
-    int v, e, EsizeOccupied;
+    int v, e, Esize, EsizeOccupied;
 
     if (dstGraph == NULL || srcGraph == NULL)
         return NOTOK;
@@ -938,8 +938,15 @@ int gp_CopyAdjacencyLists(graphP dstGraph, graphP srcGraph)
         gp_SetNeighbor(dstGraph, e, gp_GetNeighbor(srcGraph, e));
         gp_SetNextArc(dstGraph, e, gp_GetNextArc(srcGraph, e));
         gp_SetPrevArc(dstGraph, e, gp_GetPrevArc(srcGraph, e));
+        if (!gp_EdgeInUse(srcGraph, e))
+            gp_InitEdgeFlags(dstGraph, e);
     }
 
+    // The remaining edge records of dstGraph are no longer in use
+    Esize = gp_EdgeIndexBound(dstGraph);
+    for (; e < Esize; e++)
+        _InitEdgeRec(dstGraph, e);
+
     // Tell the dstGraph how many edges it now has and where the edge holes are
     dstGraph->M = srcGraph->M;
     sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
@@ -1005,6 +1012,11 @@ int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
     for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
         gp_CopyEdgeRec(dstGraph, e, srcGraph, e);
 
+    // Any edge records that dstGraph has beyond those of srcGraph are not in use
+    Esize = gp_EdgeIndexBound(dstGraph);
+    for (; e < Esize; e++)
+        _InitEdgeRec(dstGraph, e);
+
     // Give the dstGraph the same size and intrinsic properties
     dstGraph->N = srcGraph->N;
     dstGraph->NV = srcGraph->NV;
-- 
2.43.0


From 5d9b1e84ddf73277d3acc523eb516ea814532e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 31/65] fix: a graph that an extension cannot initialize is not
 reported as initialized

---
 c/graphLib/graphUtils.c                                  | 8 +++++++-
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 4 +---
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 4 +---
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 4 +---
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index e28f94f..1a67e14 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -202,7 +202,13 @@ int gp_InitGraph(graphP theGraph, int N)
     if (N > INT_MAX / (4 * DEFAULT_EDGE_LIMIT) - 1)
         return NOTOK;
 
-    return theGraph->functions.fpInitGraph(theGraph, N);
+    if (theGraph->functions.fpInitGraph(theGraph, N) != OK)
+    {
+        _ClearGraph(theGraph);
+        return NOTOK;
+    }
+
+    return OK;
 }
 
 int _InitGraph(graphP theGraph, int N)
diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index ac55e4c..0922c50 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -262,9 +262,7 @@ int  _K33Search_InitGraph(graphP theGraph, int N)
 		_K33Search_InitStructures(context) != OK)
 		return NOTOK;
 
-	context->functions.fpInitGraph(theGraph, N);
-
-    return OK;
+	return context->functions.fpInitGraph(theGraph, N);
 }
 
 /********************************************************************
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 0fd3b56..536efc0 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -221,9 +221,7 @@ int  _K4Search_InitGraph(graphP theGraph, int N)
 		_K4Search_InitStructures(context) != OK)
 		return NOTOK;
 
-	context->functions.fpInitGraph(theGraph, N);
-
-    return OK;
+	return context->functions.fpInitGraph(theGraph, N);
 }
 
 /********************************************************************
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index cc43118..5bf4cc1 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -314,9 +314,7 @@ int  _DrawPlanar_InitGraph(graphP theGraph, int N)
 		_DrawPlanar_InitStructures(context) != OK)
 		return NOTOK;
 
-	context->functions.fpInitGraph(theGraph, N);
-
-    return OK;
+	return context->functions.fpInitGraph(theGraph, N);
 }
 
 /********************************************************************
-- 
2.43.0


From 8a0314b61262a0bed269f84bf3486bae366ec154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 32/65] fix: an extension whose data cannot be created is
 detached from the graph

---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 3 ++-
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 3 ++-
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 0922c50..43ee999 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -130,7 +130,8 @@ int  gp_AttachK33Search(graphP theGraph)
          if (_K33Search_CreateStructures(context) != OK ||
              _K33Search_InitStructures(context) != OK)
          {
-             _K33Search_FreeContext(context);
+             // The graph now owns the context
+             gp_DetachK33Search(theGraph);
              return NOTOK;
          }
      }
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 536efc0..8018e2d 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -118,7 +118,8 @@ int  gp_AttachK4Search(graphP theGraph)
          if (_K4Search_CreateStructures(context) != OK ||
              _K4Search_InitStructures(context) != OK)
          {
-             _K4Search_FreeContext(context);
+             // The graph now owns the context
+             gp_DetachK4Search(theGraph);
              return NOTOK;
          }
      }
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 5bf4cc1..c151572 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -143,7 +143,8 @@ int  gp_AttachDrawPlanar(graphP theGraph)
          if (_DrawPlanar_CreateStructures(context) != OK ||
              _DrawPlanar_InitStructures(context) != OK)
          {
-             _DrawPlanar_FreeContext(context);
+             // The graph now owns the context
+             gp_DetachDrawPlanar(theGraph);
              return NOTOK;
          }
      }
-- 
2.43.0


From 6ee11c513eb012ab20899c6555ce3252ffb39ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 33/65] fix: a failed increase of the arc capacity does not
 lose the edges

---
 c/graphLib/graphUtils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 1a67e14..41e9a9b 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -435,6 +435,7 @@ int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
 int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
 {
     stackP newStack;
+    edgeRecP newE;
     int e, Esize = gp_EdgeIndexBound(theGraph),
            newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity;
 
@@ -478,9 +479,9 @@ int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
     theGraph->edgeHoles = newStack;
 
     // Reallocate the edgeRec array to the new size,
-    theGraph->E = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
-    if (theGraph->E == NULL)
+    if ((newE = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec))) == NULL)
         return NOTOK;
+    theGraph->E = newE;
 
     // Initialize the new edge records
     for (e = Esize; e < newEsize; e++)
-- 
2.43.0


From b40857a2aa9563b7e53970c4fc4addc09f96893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 34/65] fix: taking the string of a buffer survives a failed
 memory request

---
 c/graphLib/io/strbuf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index b9e3a89..2bdffbe 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -240,8 +240,8 @@ char *sb_TakeString(strBufP theStrBuf)
 
     theBuf = theStrBuf->buf;
     theStrBuf->buf = (char *)malloc(sizeof(char));
-    theStrBuf->buf[0] = '\0';
-    theStrBuf->size = theStrBuf->capacity = 0;
+    theStrBuf->capacity = 0;
+    sb_ClearBuf(theStrBuf);
 
     return theBuf;
 }
-- 
2.43.0


From 35b8aa0e564ac059803d6fc127259e74487489be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 35/65] fix: a graph that cannot be written to a string
 completely is not delivered

---
 c/graphLib/io/graphIO.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index a6f1bf3..5d228d4 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -998,13 +998,13 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
 
         if (extraData != NULL)
         {
-            for (int i = 0; i < extraDataSize; i++)
-                sb_ConcatChar(outBuf, ((char *)extraData)[i]);
+            for (int i = 0; i < extraDataSize && RetVal == OK; i++)
+                RetVal = sb_ConcatChar(outBuf, ((char *)extraData)[i]);
             free(extraData);
         }
     }
 
-    if (outBuf != NULL)
+    if (outBuf != NULL && RetVal == OK)
         *pOutputStr = sb_TakeString(outBuf);
     sb_Free(&outBuf);
 
-- 
2.43.0


From 353782069667dda0aff1f7142607a8eff6a967fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 36/65] fix: graph6 input is released if the memory for its
 iterator is missing

---
 c/graphLib/io/g6-read-iterator.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 606da90..1cd0834 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -133,6 +133,10 @@ int beginG6ReadIterationFromG6FilePath(G6ReadIterator *pG6ReadIterator, char *g6
 
 	exitCode = beginG6ReadIterationFromG6FilePointer(pG6ReadIterator, g6Infile);
 
+	// Unless the iterator has taken over the file, it must be closed here
+	if (exitCode != OK && pG6ReadIterator->g6Input == NULL)
+		fclose(g6Infile);
+
 	return exitCode;
 }
 
@@ -798,6 +802,8 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+		if (g6Infile != NULL && g6Infile != stdin)
+			fclose(g6Infile);
 		return exitCode;
 	}
 
@@ -807,6 +813,9 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
+		if (pG6ReadIterator->g6Input == NULL && g6Infile != NULL && g6Infile != stdin)
+			fclose(g6Infile);
+
 		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
@@ -850,6 +859,7 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+		free(g6EncodedString);
 		return exitCode;
 	}
 
@@ -859,6 +869,9 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
+		if (pG6ReadIterator->g6Input == NULL)
+			free(g6EncodedString);
+
 		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
-- 
2.43.0


From 31659edbc2a8005cc53f9a3f321c5e15abd3d82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 37/65] fix: graph6 output is released if the memory for its
 iterator is missing

---
 c/graphLib/io/g6-write-iterator.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 938cd4a..cc6f8c4 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -145,8 +145,14 @@ int beginG6WriteIterationToG6FilePath(G6WriteIterator *pG6WriteIterator, char *g
 	exitCode = beginG6WriteIterationToG6FilePointer(pG6WriteIterator, g6Outfile);
 
 	if (exitCode != OK)
+	{
 		ErrorMessage("Unable to begin write iteration from .g6 file pointer corresponding to given file path.\n");
 
+		// Unless the iterator has taken over the file, it must be closed here
+		if (pG6WriteIterator->g6Output == NULL)
+			fclose(g6Outfile);
+	}
+
 	return exitCode;
 }
 
@@ -183,11 +189,24 @@ int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6
 	if ((*g6OutputStr) == NULL)
 	{
 		(*g6OutputStr) = (char *) malloc(1 * sizeof(char));
+		if ((*g6OutputStr) == NULL)
+		{
+			ErrorMessage("Unable to allocate memory for .g6 output string.\n");
+			return NOTOK;
+		}
 		(*g6OutputStr)[0] = '\0';
 	}
 
 	pG6WriteIterator->g6Output = sf_New(NULL, (*g6OutputStr));
 
+	if (pG6WriteIterator->g6Output == NULL)
+	{
+		ErrorMessage("Unable to allocate string-or-file container.\n");
+		free((*g6OutputStr));
+		(*g6OutputStr) = NULL;
+		return NOTOK;
+	}
+
 	exitCode = _beginG6WriteIteration(pG6WriteIterator);
 
 	if (exitCode != OK)
@@ -608,6 +627,8 @@ int _WriteGraphToG6FilePointer(graphP pGraph, FILE *g6Outfile)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6WriteIterator.\n");
+		if (g6Outfile != NULL && g6Outfile != stdout && g6Outfile != stderr)
+			fclose(g6Outfile);
 		freeG6WriteIterator(&pG6WriteIterator);
 		return exitCode;
 	}
@@ -617,6 +638,8 @@ int _WriteGraphToG6FilePointer(graphP pGraph, FILE *g6Outfile)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to begin G6 write iteration.\n");
+		if (pG6WriteIterator->g6Output == NULL && g6Outfile != NULL && g6Outfile != stdout && g6Outfile != stderr)
+			fclose(g6Outfile);
 		freeG6WriteIterator(&pG6WriteIterator);
 		return exitCode;
 	}
@@ -652,6 +675,7 @@ int _WriteGraphToG6FilePointer(graphP pGraph, FILE *g6Outfile)
 int _WriteGraphToG6String(graphP pGraph, char **g6OutputStr)
 {
 	int exitCode = OK;
+	char *theStr = NULL;
 
 	G6WriteIterator *pG6WriteIterator = NULL;
 
@@ -664,7 +688,7 @@ int _WriteGraphToG6String(graphP pGraph, char **g6OutputStr)
 		return exitCode;
 	}
 
-	exitCode = beginG6WriteIterationToG6String(pG6WriteIterator, g6OutputStr);
+	exitCode = beginG6WriteIterationToG6String(pG6WriteIterator, &theStr);
 
 	if (exitCode != OK)
 	{
-- 
2.43.0


From 916b196faffcdd53740ca0241162d2a891fa9a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 38/65] fix: writing an adjacency matrix to a string reports
 missing memory

---
 c/graphLib/io/graphIO.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 5d228d4..0f0dffa 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -718,8 +718,11 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         // Write the row to the file or string buffer
         if (Outfile != NULL)
             fprintf(Outfile, "%s", Row);
-        else
-            sb_ConcatString(outBuf, Row);
+        else if (sb_ConcatString(outBuf, Row) != OK)
+        {
+            free(Row);
+            return NOTOK;
+        }
     }
 
     free(Row);
-- 
2.43.0


From 9c7ab1708cbb504050c7576e384c1dd864389b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 39/65] fix: a string buffer that receives a copy is read from
 its beginning

---
 c/graphLib/io/strbuf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index 2bdffbe..4938263 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -108,6 +108,7 @@ int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
 
     strBufDst->size = strBufSrc->size;
     strBufDst->capacity = strBufSrc->capacity;
+    strBufDst->readPos = 0;
 
     return OK;
 }
-- 
2.43.0


From ceec3f21b9abae24ee039581b61291b7a084193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 40/65] fix: directing an edge replaces its former direction

---
 c/graphLib/graphStructures.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphStructures.h b/c/graphLib/graphStructures.h
index 48d2dc4..4ba9959 100644
--- a/c/graphLib/graphStructures.h
+++ b/c/graphLib/graphStructures.h
@@ -144,24 +144,32 @@ extern "C"
 // Returns the direction, if any, of the edge record
 #define gp_GetDirection(theGraph, e) (theGraph->E[e].flags & EDGEFLAG_DIRECTION_MASK)
 
+// Clears directedness of edge record e and its twin arc
+#define gp_ClearDirection(theGraph, e)                                                         \
+	{                                                                                          \
+		theGraph->E[e].flags &= ~EDGEFLAG_DIRECTION_MASK;                                      \
+		theGraph->E[gp_GetTwinArc(theGraph, e)].flags &= ~EDGEFLAG_DIRECTION_MASK;             \
+	}
+
 // A direction of 0 clears directedness. Otherwise, edge record e is set
 // to edgeFlag_Direction and e's twin arc is set to the opposing setting.
 #define gp_SetDirection(theGraph, e, edgeFlag_Direction)                                       \
 	{                                                                                          \
 		if (edgeFlag_Direction == EDGEFLAG_DIRECTION_INONLY)                                   \
 		{                                                                                      \
+			gp_ClearDirection(theGraph, e);                                                    \
 			theGraph->E[e].flags |= EDGEFLAG_DIRECTION_INONLY;                                 \
 			theGraph->E[gp_GetTwinArc(theGraph, e)].flags |= EDGEFLAG_DIRECTION_OUTONLY;       \
 		}                                                                                      \
 		else if (edgeFlag_Direction == EDGEFLAG_DIRECTION_OUTONLY)                             \
 		{                                                                                      \
+			gp_ClearDirection(theGraph, e);                                                    \
 			theGraph->E[e].flags |= EDGEFLAG_DIRECTION_OUTONLY;                                \
 			theGraph->E[gp_GetTwinArc(theGraph, e)].flags |= EDGEFLAG_DIRECTION_INONLY;        \
 		}                                                                                      \
 		else                                                                                   \
 		{                                                                                      \
-			theGraph->E[e].flags &= ~(EDGEFLAG_DIRECTION_INONLY | EDGEFLAG_DIRECTION_OUTONLY); \
-			theGraph->E[gp_GetTwinArc(theGraph, e)].flags &= ~EDGEFLAG_DIRECTION_MASK;         \
+			gp_ClearDirection(theGraph, e);                                                    \
 		}                                                                                      \
 	}
 
-- 
2.43.0


From 28824b0633610befd814b1e820871a38fa6bde45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 41/65] fix: random graphs of a given number of edges do not
 get more than that

---
 c/graphLib/graphUtils.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 41e9a9b..8bc74d2 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1294,8 +1294,11 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
                     return NOTOK;
             }
 
-            if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
-                return NOTOK;
+            if (theGraph->M < M)
+            {
+                if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+                    return NOTOK;
+            }
 
             v = last = c;
         }
@@ -1307,7 +1310,7 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
             {
                 v = p;
                 p = gp_GetVertexParent(theGraph, v);
-                if (gp_IsVertex(p) && p != root)
+                if (gp_IsVertex(p) && p != root && theGraph->M < M)
                 {
                     if (gp_AddEdge(theGraph, last, 1, p, 1) != OK)
                         return NOTOK;
@@ -1318,16 +1321,19 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
             {
                 if (p == root)
                 {
-                    if (gp_AddEdge(theGraph, v, 1, c, 1) != OK)
-                        return NOTOK;
+                    if (theGraph->M < M)
+                    {
+                        if (gp_AddEdge(theGraph, v, 1, c, 1) != OK)
+                            return NOTOK;
+                    }
 
-                    if (v != last)
+                    if (v != last && theGraph->M < M)
                     {
                         if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
                             return NOTOK;
                     }
                 }
-                else
+                else if (theGraph->M < M)
                 {
                     if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
                         return NOTOK;
@@ -1335,8 +1341,11 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
 
                 if (p != root)
                 {
-                    if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
-                        return NOTOK;
+                    if (theGraph->M < M)
+                    {
+                        if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+                            return NOTOK;
+                    }
                     last = c;
                 }
 
-- 
2.43.0


From c6e83599a5e3a1f0df265572404759b3937fe6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:55 +0000
Subject: [PATCH 42/65] fix: a random graph with all possible edges does not
 wait for more

---
 c/graphLib/graphUtils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 8bc74d2..06b7359 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1257,6 +1257,10 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
     if (numEdges > theGraph->arcCapacity / 2)
         numEdges = theGraph->arcCapacity / 2;
 
+    // Limit to the number of vertex pairs, N(N-1)/2 (stated so that it cannot overflow)
+    if ((2 * numEdges - 1) / N >= N - 1)
+        numEdges = N * (N - 1) / 2;
+
     /* Generate a random tree. */
 
     for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
-- 
2.43.0


From 7da0864dace8d26a659ef5fffbf899eac74ebf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:55 +0000
Subject: [PATCH 43/65] fix: the sum of high and low bits of a random number
 does not overflow

---
 c/graphLib/graphUtils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 06b7359..d711f5f 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1153,7 +1153,7 @@ int gp_CreateRandomGraph(graphP theGraph)
 
 int _GetRandomNumber(int NMin, int NMax)
 {
-    int N = rand();
+    unsigned N = (unsigned)rand();
 
     if (NMax < NMin)
         return NMin;
@@ -1161,8 +1161,8 @@ int _GetRandomNumber(int NMin, int NMax)
     N += ((N & 0xFFFF0000) >> 16);
     N += ((N & 0x0000FF00) >> 8);
     N &= 0x7FFFFFF;
-    N %= (NMax - NMin + 1);
-    return N + NMin;
+    N %= (unsigned)(NMax - NMin + 1);
+    return (int)N + NMin;
 }
 
 /********************************************************************
-- 
2.43.0


From 88c0ad6af14a4ca6032c9fe071954d92c3c7c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:55 +0000
Subject: [PATCH 44/65] fix: a command line with missing arguments does not
 exit like a nonembeddable graph

---
 c/planarityApp/planarityCommandLine.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 813d1e3..8551ebb 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -605,13 +605,13 @@ int callRandomGraphs(int argc, char *argv[])
 	int offset = 0, NumGraphs, SizeOfGraphs;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
 	{
 		Choice = argv[3][1];
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -632,13 +632,13 @@ int callSpecificGraph(int argc, char *argv[])
 	int offset = 0;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
 	{
 		Choice = argv[3][1];
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -661,12 +661,12 @@ int callRandomMaxPlanarGraph(int argc, char *argv[])
 	char *outfileName = NULL, *outfile2Name = NULL;
 
 	if (argc < 4)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 5)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -689,12 +689,12 @@ int callRandomNonplanarGraph(int argc, char *argv[])
 	char *outfileName = NULL, *outfile2Name = NULL;
 
 	if (argc < 4)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 5)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -720,12 +720,12 @@ int callTransformGraph(int argc, char *argv[])
 	char *infileName = NULL, *outfileName = NULL;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -756,12 +756,12 @@ int callTestAllGraphs(int argc, char *argv[])
 	char *infileName = NULL, *outfileName = NULL;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
-- 
2.43.0


From bcfac62280122bc6ff3e52dc304f6bade8ebaaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:55 +0000
Subject: [PATCH 45/65] fix: the specific graph command does not need file
 names when it works in memory

---
 c/planarityApp/planaritySpecificGraph.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planaritySpecificGraph.c b/c/planarityApp/planaritySpecificGraph.c
index 64f7279..05944d2 100644
--- a/c/planarityApp/planaritySpecificGraph.c
+++ b/c/planarityApp/planaritySpecificGraph.c
@@ -124,7 +124,9 @@ int Result = OK;
             gp_SortVertices(theGraph);
 
         // Determine the name of the primary output file
-        outfileName = ConstructPrimaryOutputFilename(infileName, outfileName, command);
+        // (there is nothing to base one on when working only with strings)
+        if (infileName != NULL || outfileName != NULL)
+            outfileName = ConstructPrimaryOutputFilename(infileName, outfileName, command);
 
         // For some algorithms, the primary output file is not always written
         if ((strchr("pdo", command) && Result == NONEMBEDDABLE) ||
-- 
2.43.0


From 41f302a928b245e657afeba28555236b3c8a9ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:55 +0000
Subject: [PATCH 46/65] fix: testing all graphs of order 1 does not fail on
 their arc capacity

---
 c/planarityApp/planarityTestAllGraphs.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 07b6361..3384b31 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -174,7 +174,8 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	// We have to set the maximum arc capacity (i.e. (N * (N - 1))) because some of the test files
 	// can contain complete graphs, and the graph drawing, K_{3, 3} search, and K_4 search extensions
 	// don't support expanding the arc capacity after being attached.
-	if (strchr("d34", command) != NULL)
+	// (There is nothing to ensure for a single vertex.)
+	if (strchr("d34", command) != NULL && graphOrder > 1)
 	{
 		Result = gp_EnsureArcCapacity(pG6ReadIterator->currGraph, (graphOrder * (graphOrder - 1)));
 		if (Result != OK)
@@ -206,7 +207,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 		return Result;
 	}
 
-	if (strchr("d34", command) != NULL)
+	if (strchr("d34", command) != NULL && graphOrder > 1)
 	{
 		Result = gp_EnsureArcCapacity(copyOfOrigGraph, (graphOrder * (graphOrder - 1)));
 		if (Result != OK)
-- 
2.43.0


From 0601efab07b3a42846a095ef88ae9d8afc8f36d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:05 +0000
Subject: [PATCH 47/65] fix: the line end after an adjacency matrix is not
 taken for extension data

---
 c/graphLib/io/graphIO.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 0f0dffa..49396fd 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -83,6 +83,12 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
         }
     }
 
+    // The end of the last line (whose row has no flags) belongs to the matrix
+    if (Infile != NULL)
+        fscanf(Infile, " ");
+    else
+        sb_ReadSkipWhitespace(inBuf);
+
     return OK;
 }
 
-- 
2.43.0


From bf9a4ac73edf323d137e04a4821db50f8aa2cf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:05 +0000
Subject: [PATCH 48/65] fix: drawing data read from a file is given to the
 edges it belongs to

---
 .../graphDrawPlanar_Extensions.c              | 80 +++++++++++++++++--
 1 file changed, 72 insertions(+), 8 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index c151572..918f728 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -550,6 +550,36 @@ int  _DrawPlanar_CheckObstructionIntegrity(graphP theGraph, graphP origGraph)
 /********************************************************************
  ********************************************************************/
 
+
+// Finds the edge between the vertices drawn on the given two rows
+static int  _DrawPlanar_FindEdge(graphP theGraph, int *vertexOnRow, int row1, int row2)
+{
+    int u, v, e, eTwin;
+
+    if (row1 < 0 || row1 >= theGraph->N || row2 < 0 || row2 >= theGraph->N)
+        return NIL;
+
+    u = vertexOnRow[row1];
+    v = vertexOnRow[row2];
+    if (gp_IsNotVertex(u) || gp_IsNotVertex(v))
+        return NIL;
+
+    // Search both adjacency lists, so that the cost is bounded by the shorter one
+    e = gp_GetFirstArc(theGraph, u);
+    eTwin = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e) && gp_IsArc(eTwin))
+    {
+        if (gp_GetNeighbor(theGraph, e) == v)
+            return e;
+        if (gp_GetNeighbor(theGraph, eTwin) == u)
+            return gp_GetTwinArc(theGraph, eTwin);
+        e = gp_GetNextArc(theGraph, e);
+        eTwin = gp_GetNextArc(theGraph, eTwin);
+    }
+
+    return NIL;
+}
+
 int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize)
 {
     DrawPlanarContext *context = NULL;
@@ -562,7 +592,8 @@ int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDat
 
         else if (extraData != NULL && extraDataSize > 0)
         {
-            int v, e, tempInt, EsizeOccupied;
+            int v, e, eDrawn, tempInt, EsizeOccupied, pos, start, end, Result = OK;
+            int *vertexOnRow = NULL;
             char line[64], tempChar;
 
             sprintf(line, "<%s>", DRAWPLANAR_NAME);
@@ -592,20 +623,53 @@ int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDat
                 extraData = (void *) ((char *) extraData + 1);
             }
 
+            // The edge lines are in the order of the writer's edge records, which can
+            // differ from the order of the edge records made by the reader. An edge is
+            // drawn between the rows of its endpoints, so these tell which edge it is.
+            if ((vertexOnRow = (int *) malloc(theGraph->N * sizeof(int))) == NULL)
+                return NOTOK;
+
+            for (v = 0; v < theGraph->N; v++)
+                vertexOnRow[v] = NIL;
+
+            for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+            {
+                pos = context->VI[v].pos;
+                if (pos >= 0 && pos < theGraph->N)
+                    vertexOnRow[pos] = v;
+            }
+
             // Read the lines that contain edge information
             EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
             for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
             {
                 if (sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
-                              &context->E[e].pos,
-                              &context->E[e].start,
-                              &context->E[e].end) != 5)
-                    return NOTOK;
-
-                if ((extraData = strchr(extraData, '\n')) == NULL)
-                    return NOTOK;
+                              &pos, &start, &end) != 5 ||
+                    (extraData = strchr(extraData, '\n')) == NULL)
+                {
+                    Result = NOTOK;
+                    break;
+                }
                 extraData = (void *) ((char *) extraData + 1);
+
+                eDrawn = _DrawPlanar_FindEdge(theGraph, vertexOnRow, start, end);
+                if (gp_IsNotArc(eDrawn))
+                    eDrawn = e;
+
+                context->E[eDrawn].pos = pos;
+                context->E[eDrawn].start = start;
+                context->E[eDrawn].end = end;
+
+                // Both edge records of an edge are drawn alike
+                eDrawn = gp_GetTwinArc(theGraph, eDrawn);
+                context->E[eDrawn].pos = pos;
+                context->E[eDrawn].start = start;
+                context->E[eDrawn].end = end;
             }
+
+            free(vertexOnRow);
+            if (Result != OK)
+                return NOTOK;
         }
 
         return OK;
-- 
2.43.0


From b144ee3f0af38f32a52189354ca458ef297e808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:05 +0000
Subject: [PATCH 49/65] fix: the menu reads the input file name rather than the
 rest of the menu choice line

---
 c/planarityApp/planarityMenu.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index 83eff4f..6e23f18 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -113,7 +113,13 @@ void TransformGraphMenu(void)
     {
         Prompt("Enter input filename:\n");
         fflush(stdin);
-        fgets(infileName, MAXLINE, stdin);
+        // Not all platforms flush the end of the line with the menu choice
+        scanf(" ");
+        if (fgets(infileName, MAXLINE, stdin) == NULL)
+        {
+            ErrorMessage("Unable to read the input filename.\n");
+            return;
+        }
 
         if (strncmp(infileName, "stdin", 5) == 0)
         {
@@ -183,7 +189,13 @@ void TestAllGraphsMenu(void)
     {
         Prompt("Enter input filename:\n");
         fflush(stdin);
-        fgets(infileName, MAXLINE, stdin);
+        // Not all platforms flush the end of the line with the menu choice
+        scanf(" ");
+        if (fgets(infileName, MAXLINE, stdin) == NULL)
+        {
+            ErrorMessage("Unable to read the input filename.\n");
+            return;
+        }
 
         if (strncmp(infileName, "stdin", 5) == 0)
         {
-- 
2.43.0


From 24c3bf5217158fb4e089fbd950455747951778a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:05 +0000
Subject: [PATCH 50/65] fix: the menu releases the output of the test of all
 graphs

---
 c/planarityApp/planarityMenu.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index 6e23f18..64ce1ff 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -241,4 +241,10 @@ void TestAllGraphsMenu(void)
         if (Result != OK)
             ErrorMessage("Algorithm test on all graphs in .g6 input file failed.\n");
     }
+
+    if (outputStr != NULL)
+    {
+        free(outputStr);
+        outputStr = NULL;
+    }
 }
-- 
2.43.0


From c0718b86c2cd9387567b22eb4bddd9638c9cf028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:05 +0000
Subject: [PATCH 51/65] fix: comparing text files tests the end of the second
 file as well

---
 c/planarityApp/planarityUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 308f96f..d3d00e5 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -265,7 +265,7 @@ int TextFilesEqual(char *file1Name, char *file2Name)
 			while ((c2 = fgetc(infile2)) == '\r')
 				;
 			// Test whether or not the second file also ends, same as the first.
-			if (fgetc(infile2) != EOF)
+			if (c2 != EOF)
 				Result = FALSE;
 		}
 	}
-- 
2.43.0


From 978ccf866d4102238c49aed0545a045be0327d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:05 +0000
Subject: [PATCH 52/65] fix: comparing a text file with a string works for
 characters beyond ASCII

---
 c/planarityApp/planarityUtils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index d3d00e5..efb2b70 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -184,7 +184,7 @@ int TextFileMatchesString(char *theFilename, char *theString)
 
 			// Since c1 now has a non-CR, non-EOF from the input file,  we now also
 			// get a character from the string, except ignoring CRs again
-			while ((c2 = (int)theString[stringIndex++]) == '\r')
+			while ((c2 = (int)(unsigned char)theString[stringIndex++]) == '\r')
 				;
 
 			// If c1 doesn't equal c2 (whether c2 is a null terminator or a different character)
@@ -200,7 +200,7 @@ int TextFileMatchesString(char *theFilename, char *theString)
 		if (c1 == EOF)
 		{
 			// Then get another character from the string, once again suppressing CRs, and then...
-			while ((c2 = (int)theString[stringIndex++]) == '\r')
+			while ((c2 = (int)(unsigned char)theString[stringIndex++]) == '\r')
 				;
 			// Test whether or not the second file also ends, same as the first.
 			if (c2 != '\0')
-- 
2.43.0


From 605bcd6510b9fe1f4c074bee6de1ad83848646c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:05 +0000
Subject: [PATCH 53/65] fix: an absent string does not match any text file

---
 c/planarityApp/planarityUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index efb2b70..c7b81eb 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -165,7 +165,7 @@ int TextFileMatchesString(char *theFilename, char *theString)
 	FILE *infile = NULL;
 	int Result = TRUE;
 
-	if (theFilename != NULL)
+	if (theFilename != NULL && theString != NULL)
 		infile = fopen(theFilename, "r");
 
 	if (infile == NULL)
-- 
2.43.0


From 256c1d5a16cc436815019f6dd9a52b3a7354020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:05 +0000
Subject: [PATCH 54/65] fix: the transformation tests release the output they
 compared

---
 c/planarityApp/planarityCommandLine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 8551ebb..e8f4db8 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -556,6 +556,7 @@ int runGraphTransformationTest(char *command, char *infileName, int inputInMemFl
 			if (Result != OK || expectedOutfileName == NULL)
 			{
 				ErrorMessage("Unable to construct output filename for expected transformation output.\n");
+				free(actualOutput);
 				return -1;
 			}
 
@@ -587,6 +588,9 @@ int runGraphTransformationTest(char *command, char *infileName, int inputInMemFl
 				expectedOutfileName = NULL;
 			}
 		}
+
+		if (actualOutput != NULL)
+			free(actualOutput);
 	}
 
 	Message("\n");
-- 
2.43.0


From 48204c7c12154227949aa97754050a25dc97de04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:05 +0000
Subject: [PATCH 55/65] fix: random graphs without the sought homeomorph are
 written from the original graph

---
 c/planarityApp/planarityRandomGraphs.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index ae028f1..b243514 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -104,12 +104,16 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 
 				if (Result == OK)
 				{
+					// The homeomorph searches do not produce an embedding (the graph is left
+					// with unmerged biconnected components), so the original is written
+					graphP resultGraph = strchr("234", command) ? origGraph : theGraph;
+
 					MainStatistic++;
 
 					if (tolower(EmbeddableOut) == 'y')
 					{
 						sprintf(theFileName, "embedded%c%d.txt", FILE_DELIMITER, K%10);
-						writeResult = gp_Write(theGraph, theFileName, WRITE_ADJMATRIX);
+						writeResult = gp_Write(resultGraph, theFileName, WRITE_ADJMATRIX);
 						if (writeResult != OK && !writeErrorReported_Embedded)
 						{
 							sprintf(messageContents, messageFormat, charsAvailForStr, theFileName);
@@ -121,7 +125,7 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 					if (tolower(AdjListsForEmbeddingsOut) == 'y')
 					{
 						sprintf(theFileName, "adjlist%c%d.txt", FILE_DELIMITER, K%10);
-						writeResult = gp_Write(theGraph, theFileName, WRITE_ADJLIST);
+						writeResult = gp_Write(resultGraph, theFileName, WRITE_ADJLIST);
 						if (writeResult != OK && !writeErrorReported_AdjList)
 						{
 							sprintf(messageContents, messageFormat, charsAvailForStr, theFileName);
-- 
2.43.0


From 1596cd518b4c80a6b6649f6b9cb3104c6f33c471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:05 +0000
Subject: [PATCH 56/65] fix: a graph whose components are not merged is not
 written beyond the matrix row or the graph6 buffer

---
 c/graphLib/io/g6-write-iterator.c | 8 ++++++++
 c/graphLib/io/graphIO.c           | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index cc6f8c4..0f656a7 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -382,6 +382,14 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 			u = tempVert;
 		}
 
+		// An edge to a virtual vertex (in a graph whose biconnected components
+		// are not merged) cannot be represented
+		if (v >= graphOrder)
+		{
+			ErrorMessage("Unable to encode an edge to a virtual vertex.\n");
+			return NOTOK;
+		}
+
 		// (columnOffsets[v] + u) describes the bit index of the current edge
 		// given the column and row in the adjacency matrix representation;
 		// the byte is floor((columnOffsets[v] + u) / 6) and the we determine which
diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 49396fd..b9a10b9 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -706,7 +706,10 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         e = gp_GetFirstArc(theGraph, v);
         while (gp_IsArc(e))
         {
-            if (gp_GetDirection(theGraph, e) == EDGEFLAG_DIRECTION_INONLY)
+            // An edge to a virtual vertex (in a graph whose biconnected components
+            // are not merged) cannot be represented, either
+            if (gp_GetDirection(theGraph, e) == EDGEFLAG_DIRECTION_INONLY ||
+                !gp_VertexInRange(theGraph, gp_GetNeighbor(theGraph, e)))
             {
                 free(Row);
                 return NOTOK;
-- 
2.43.0


From 420e9deecd23f34e0b40615163871a1eae748412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:05 +0000
Subject: [PATCH 57/65] fix: an iterator without a graph is not reported as
 allocated

---
 c/graphLib/io/g6-read-iterator.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 1cd0834..71e6065 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -41,6 +41,8 @@ int allocateG6ReadIterator(G6ReadIterator **ppG6ReadIterator, graphP pGraph)
 
 		if (exitCode != OK)
 			ErrorMessage("Unable to free the G6ReadIterator.\n");
+
+		exitCode = NOTOK;
 	}
 	else
 	{
-- 
2.43.0


From baa561b083d9b98531e50692f33950bdc05322dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:05 +0000
Subject: [PATCH 58/65] fix: testing all graphs releases the file and the
 iterator when memory runs out

---
 c/planarityApp/planarityTestAllGraphs.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 3384b31..58a9b59 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -156,6 +156,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	if (Result != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+		fclose(infile);
 		stats->errorFlag = TRUE;
 		return Result;
 	}
@@ -165,6 +166,9 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	if (Result != OK)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
+		// Unless the iterator has taken over the file, it must be closed here
+		if (pG6ReadIterator->g6Input == NULL)
+			fclose(infile);
 		freeG6ReadIterator(&pG6ReadIterator);
 		stats->errorFlag = TRUE;
 		return Result;
@@ -193,6 +197,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	if (copyOfOrigGraph == NULL)
 	{
 		ErrorMessage("Unable to allocate graph to store copy of original graph before embedding.\n");
+		freeG6ReadIterator(&pG6ReadIterator);
 		stats->errorFlag = TRUE;
 		return NOTOK;
 	}
-- 
2.43.0


From e4168b1afd043dc8812df3b5f8646e36909edc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:05 +0000
Subject: [PATCH 59/65] fix: a failure to output test results to a string does
 not leave a dangling string

---
 c/planarityApp/planarityTestAllGraphs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 58a9b59..93ef838 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -374,6 +374,10 @@ int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileNa
 				{
 					(*outputStr)[0] = '\0';
 					testOutput = sf_New(NULL, (*outputStr));
+
+					// The container now owns the string until it is taken back
+					if (testOutput != NULL)
+						(*outputStr) = NULL;
 				}
 			}
 		}
-- 
2.43.0


From 446059731de069d8419f2538ecb7e90103c22ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:05 +0000
Subject: [PATCH 60/65] fix: random graphs releases both graphs if either
 cannot be made

---
 c/planarityApp/planarityRandomGraphs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index b243514..50ffe8d 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -48,6 +48,7 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 	if (theGraph == NULL || origGraph == NULL)
 	{
 		gp_Free(&theGraph);
+		gp_Free(&origGraph);
 		return NOTOK;
 	}
 
-- 
2.43.0


From 7ae9b0b21a988d35918f03cc8b3e74f10b5e9020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:05 +0000
Subject: [PATCH 61/65] fix: messages about files of testing all graphs fit
 their buffer for all names

---
 c/planarityApp/planarityTestAllGraphs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 93ef838..c97b2ba 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -79,8 +79,8 @@ int TestAllGraphs(char *commandString, char *infileName, char *outfileName, char
 				FILE *infile = fopen(infileName, "r");
 				if (infile == NULL)
 				{
-					charsAvailForFilename = (int)(MAXLINE - strlen(infileName));
 					messageFormat = "Unable to open file \"%.*s\" for input.\n";
+					charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 					sprintf(messageContents, messageFormat, charsAvailForFilename, infileName);
 					ErrorMessage(messageContents);
 
@@ -335,8 +335,8 @@ int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileNa
 		FILE *outputFileP = fopen(outfileName, "w");
 		if (outputFileP == NULL)
 		{
-			charsAvailForFilename = (int)(MAXLINE - strlen(outfileName));
 			messageFormat = "Unable to open file \"%.*s\" for output.\n";
+			charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 			sprintf(messageContents, messageFormat, charsAvailForFilename, outfileName);
 			ErrorMessage(messageContents);
 		}
@@ -431,8 +431,8 @@ int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileNa
 
 	if (sf_closeFile(testOutput) != OK)
 	{
-		charsAvailForFilename = (int)(MAXLINE - strlen(outfileName));
 		messageFormat = "Unable to close output file \"%.*s\".\n";
+		charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 		sprintf(messageContents, messageFormat, charsAvailForFilename, outfileName);
 		ErrorMessage(messageContents);
 		Result = NOTOK;
-- 
2.43.0


From a9b7642eed28b70c40f94995c976937f73b410b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:05 +0000
Subject: [PATCH 62/65] fix: transforming a graph releases graph and input for
 invalid arguments and empty input

---
 c/planarityApp/planarityTransformGraph.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/planarityApp/planarityTransformGraph.c b/c/planarityApp/planarityTransformGraph.c
index 24923f9..b7bf1c7 100644
--- a/c/planarityApp/planarityTransformGraph.c
+++ b/c/planarityApp/planarityTransformGraph.c
@@ -42,6 +42,9 @@ int TransformGraph(char *commandString, char *infileName, char *inputStr, int *o
 		else
 		{
 			ErrorMessage("Invalid argument; only -(gam) is allowed.\n");
+			if (inputStr != NULL)
+				free(inputStr);
+			gp_Free(&theGraph);
 			return NOTOK;
 		}
 
@@ -73,6 +76,8 @@ int TransformGraph(char *commandString, char *infileName, char *inputStr, int *o
 	else
 	{
 		ErrorMessage("Invalid argument; must start with '-'.\n");
+		if (inputStr != NULL)
+			free(inputStr);
 		Result = NOTOK;
 	}
 
@@ -96,6 +101,8 @@ int transformString(graphP theGraph, char *inputStr)
 	if (inputStr == NULL || strlen(inputStr) == 0)
 	{
 		ErrorMessage("Input string is null or empty.\n");
+		if (inputStr != NULL)
+			free(inputStr);
 		return NOTOK;
 	}
 
-- 
2.43.0


From 7bcbf3b7e345a57c7684227a95e1d21022f6946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:27 +0000
Subject: [PATCH 63/65] fix: a graph can be read from standard input when that
 is a pipe

---
 c/graphLib/io/graphIO.c | 44 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index b9a10b9..4b7713f 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -382,6 +382,38 @@ int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
     return OK;
 }
 
+/********************************************************************
+ _CopyStdinToTempFile()
+ Reading a graph needs a file whose position can be set, which stdin does
+ not support when it is a pipe or a terminal. Hence, this function copies
+ stdin, up to its end, to a temporary file that disappears once closed.
+
+ Returns the temporary file, positioned at its start, or NULL on error.
+ ********************************************************************/
+
+static FILE *_CopyStdinToTempFile(void)
+{
+    FILE *tempFile = tmpfile();
+    int ch;
+
+    if (tempFile == NULL)
+        return NULL;
+
+    while ((ch = getc(stdin)) != EOF)
+    {
+        if (putc(ch, tempFile) == EOF)
+            break;
+    }
+
+    if (ch != EOF || ferror(stdin) || fseek(tempFile, 0, SEEK_SET) != 0)
+    {
+        fclose(tempFile);
+        return NULL;
+    }
+
+    return tempFile;
+}
+
 /********************************************************************
  gp_Read()
  Opens the given file, determines whether it is in adjacency list or
@@ -408,14 +440,16 @@ int gp_Read(graphP theGraph, char *FileName)
     int RetVal;
 
     if (strcmp(FileName, "stdin") == 0)
-        Infile = stdin;
-    else if ((Infile = fopen(FileName, READTEXT)) == NULL)
+        Infile = _CopyStdinToTempFile();
+    else
+        Infile = fopen(FileName, READTEXT);
+
+    if (Infile == NULL)
         return NOTOK;
 
     if (fgets(lineBuff, 255, Infile) == NULL)
     {
-        if (strcmp(FileName, "stdin") != 0)
-            fclose(Infile);
+        fclose(Infile);
         return NOTOK;
     }
     // Reset file pointer to beginning of file
@@ -490,7 +524,7 @@ int gp_Read(graphP theGraph, char *FileName)
         }
     }
 
-    if (strcmp(FileName, "stdin") != 0 && Infile != NULL)
+    if (Infile != NULL)
         fclose(Infile);
 
     return RetVal;
-- 
2.43.0


From 207fa5b63b38ff7ba06702a867f521cdea57e64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:44 +0000
Subject: [PATCH 64/65] fix: gp_Embed() and the DFS failed on a graph that had
 been processed before

The DFS tree roots were told from the parents left by an earlier DFS, so if edges
had been deleted or gp_CopyAdjacencyLists() had replaced them, the vertex loop ran
past the end of the vertex array.  gp_Embed() on a graph already sorted by DFI also
lost the original vertex numbers and used stale lists, and gp_CopyAdjacencyLists()
kept the DFS numbering of the edges that were replaced.
---
 c/graphLib/graphDFSUtils.c               |  2 +-
 c/graphLib/graphUtils.c                  |  4 ++-
 c/graphLib/planarityRelated/graphEmbed.c | 44 +++++++++++++++++++++++-
 3 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/graphDFSUtils.c b/c/graphLib/graphDFSUtils.c
index 60f6707..4169f6a 100644
--- a/c/graphLib/graphDFSUtils.c
+++ b/c/graphLib/graphDFSUtils.c
@@ -62,7 +62,7 @@ int gp_CreateDFSTree(graphP theGraph)
 
     for (DFI = v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, DFI); v++)
     {
-        if (gp_IsNotDFSTreeRoot(theGraph, v))
+        if (gp_GetVertexVisited(theGraph, v))
             continue;
 
         sp_Push2(theStack, NIL, NIL);
diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index d711f5f..d67ff96 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -954,7 +954,9 @@ int gp_CopyAdjacencyLists(graphP dstGraph, graphP srcGraph)
     for (; e < Esize; e++)
         _InitEdgeRec(dstGraph, e);
 
-    // Tell the dstGraph how many edges it now has and where the edge holes are
+    // Tell the dstGraph how many edges it now has and where the edge holes are,
+    // and that any DFS numbering it had is not one of the edges it now has
+    dstGraph->internalFlags &= ~(FLAGS_DFSNUMBERED | FLAGS_SORTEDBYDFI);
     dstGraph->M = srcGraph->M;
     sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
 
diff --git a/c/graphLib/planarityRelated/graphEmbed.c b/c/graphLib/planarityRelated/graphEmbed.c
index 2c01899..3c183f8 100644
--- a/c/graphLib/planarityRelated/graphEmbed.c
+++ b/c/graphLib/planarityRelated/graphEmbed.c
@@ -16,9 +16,11 @@ extern int _IsolateKuratowskiSubgraph(graphP theGraph, int v, int R);
 extern int _IsolateOuterplanarObstruction(graphP theGraph, int v, int R);
 
 extern void _InitVertexRec(graphP theGraph, int v);
+extern void _InitVertexInfo(graphP theGraph, int v);
 
 /* Private functions (some are exported to system only) */
 
+int _DiscardEmbeddingResults(graphP theGraph);
 int _EmbeddingInitialize(graphP theGraph);
 
 void _EmbedBackEdgeToDescendant(graphP theGraph, int RootSide, int RootVertex, int W, int WPrevLink);
@@ -88,6 +90,10 @@ int gp_Embed(graphP theGraph, int embedFlags)
     // Preprocessing
     theGraph->embedFlags = embedFlags;
 
+    // If theGraph was processed before, its edges may have changed since then
+    if (_DiscardEmbeddingResults(theGraph) != OK)
+        return NOTOK;
+
     // Allow extension algorithms to postprocess the DFS
     if (theGraph->functions.fpEmbeddingInitialize(theGraph) != OK)
         return NOTOK;
@@ -138,6 +144,42 @@ int gp_Embed(graphP theGraph, int embedFlags)
     return theGraph->functions.fpEmbedPostprocess(theGraph, v, RetVal);
 }
 
+/********************************************************************
+ _DiscardEmbeddingResults()
+
+ Puts the vertices back into their original order, if they are sorted
+ by DFI, and clears everything except the adjacency lists and the edge
+ directions, so that nothing remains of an earlier DFS or embedding.
+ ********************************************************************/
+int _DiscardEmbeddingResults(graphP theGraph)
+{
+    int v, e, EsizeOccupied;
+
+    if (theGraph->internalFlags & FLAGS_SORTEDBYDFI)
+    {
+        if (gp_SortVertices(theGraph) != OK)
+            return NOTOK;
+    }
+    theGraph->internalFlags &= ~FLAGS_DFSNUMBERED;
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        gp_InitVertexFlags(theGraph, v);
+        _InitVertexInfo(theGraph, v);
+    }
+    for (v = gp_GetFirstVirtualVertex(theGraph); v < gp_VertexIndexBound(theGraph); v++)
+        _InitVertexRec(theGraph, v);
+
+    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
+        theGraph->E[e].flags &= EDGEFLAG_DIRECTION_MASK;
+
+    LCReset(theGraph->BicompRootLists);
+    LCReset(theGraph->sortedDFSChildLists);
+
+    return OK;
+}
+
 /********************************************************************
  _EmbeddingInitialize()
 
@@ -191,7 +233,7 @@ int _EmbeddingInitialize(graphP theGraph)
     {
         // Skip numbered vertices to cause the outerloop to find the
         // next DFS tree root in a disconnected graph
-        if (gp_IsVertex(gp_GetVertexParent(theGraph, v)))
+        if (gp_GetVertexVisited(theGraph, v))
             continue;
 
         // DFS a connected component
-- 
2.43.0


From 135cef9faef0546af8329c99b1b39cf9323010b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:45 +0000
Subject: [PATCH 65/65] fix: the K3,3 and K4 searches and the drawing start
 from fresh data

When gp_Embed() was called again on the same graph, the data that the extensions
keep per vertex and edge was still that of the earlier run: drawings had edges
that crossed vertices, and the K3,3 search read out of bounds.
---
 .../graphK33Search_Extensions.c               |  3 +++
 .../graphK4Search_Extensions.c                | 25 +++++++++++++++++++
 .../graphDrawPlanar_Extensions.c              | 25 +++++++++++++++++++
 3 files changed, 53 insertions(+)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 43ee999..fb2c656 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -366,6 +366,9 @@ int  _K33Search_EmbeddingInitialize(graphP theGraph)
 
     if (context != NULL)
     {
+    	if (_K33Search_InitStructures(context) != OK)
+    		return NOTOK;
+
     	if (context->functions.fpEmbeddingInitialize(theGraph) != OK)
     		return NOTOK;
 
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 8018e2d..d62e993 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -28,6 +28,7 @@ int  _K4Search_InitStructures(K4SearchContext *context);
 void _K4Search_InitEdgeRec(K4SearchContext *context, int e);
 
 /* Forward declarations of overloading functions */
+int  _K4Search_EmbeddingInitialize(graphP theGraph);
 int  _K4Search_HandleBlockedBicomp(graphP theGraph, int v, int RootVertex, int R);
 int  _K4Search_EmbedPostprocess(graphP theGraph, int v, int edgeEmbeddingResult);
 int  _K4Search_CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph);
@@ -86,6 +87,7 @@ int  gp_AttachK4Search(graphP theGraph)
      // gp_AddExtension will overload the graph's functions with these, and
      // return the base function pointers in the context function table
      memset(&context->functions, 0, sizeof(graphFunctionTable));
+     context->functions.fpEmbeddingInitialize = _K4Search_EmbeddingInitialize;
      context->functions.fpHandleBlockedBicomp = _K4Search_HandleBlockedBicomp;
      context->functions.fpEmbedPostprocess = _K4Search_EmbedPostprocess;
      context->functions.fpCheckEmbeddingIntegrity = _K4Search_CheckEmbeddingIntegrity;
@@ -225,6 +227,29 @@ int  _K4Search_InitGraph(graphP theGraph, int N)
 	return context->functions.fpInitGraph(theGraph, N);
 }
 
+/********************************************************************
+ _K4Search_EmbeddingInitialize()
+
+ This method overloads the embedding initialization phase so that no
+ data of this module remains from an earlier run on the same graph.
+ ********************************************************************/
+
+int  _K4Search_EmbeddingInitialize(graphP theGraph)
+{
+    K4SearchContext *context = NULL;
+    gp_FindExtension(theGraph, K4SEARCH_ID, (void *)&context);
+
+    if (context != NULL)
+    {
+        if (_K4Search_InitStructures(context) != OK)
+            return NOTOK;
+
+        return context->functions.fpEmbeddingInitialize(theGraph);
+    }
+
+    return NOTOK;
+}
+
 /********************************************************************
  ********************************************************************/
 
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 918f728..c1abaff 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -28,6 +28,7 @@ void _DrawPlanar_InitVertexInfo(DrawPlanarContext *context, int v);
 
 /* Forward declarations of overloading functions */
 
+int  _DrawPlanar_EmbeddingInitialize(graphP theGraph);
 int  _DrawPlanar_MergeBicomps(graphP theGraph, int v, int RootVertex, int W, int WPrevLink);
 int  _DrawPlanar_HandleInactiveVertex(graphP theGraph, int BicompRoot, int *pW, int *pWPrevLink);
 int  _DrawPlanar_EmbedPostprocess(graphP theGraph, int v, int edgeEmbeddingResult);
@@ -104,6 +105,7 @@ int  gp_AttachDrawPlanar(graphP theGraph)
      // return the base function pointers in the context function table
      memset(&context->functions, 0, sizeof(graphFunctionTable));
 
+     context->functions.fpEmbeddingInitialize = _DrawPlanar_EmbeddingInitialize;
      context->functions.fpMergeBicomps = _DrawPlanar_MergeBicomps;
      context->functions.fpHandleInactiveVertex = _DrawPlanar_HandleInactiveVertex;
      context->functions.fpEmbedPostprocess = _DrawPlanar_EmbedPostprocess;
@@ -318,6 +320,29 @@ int  _DrawPlanar_InitGraph(graphP theGraph, int N)
 	return context->functions.fpInitGraph(theGraph, N);
 }
 
+/********************************************************************
+ _DrawPlanar_EmbeddingInitialize()
+
+ This method overloads the embedding initialization phase so that no
+ data of this module remains from an earlier run on the same graph.
+ ********************************************************************/
+
+int  _DrawPlanar_EmbeddingInitialize(graphP theGraph)
+{
+    DrawPlanarContext *context = NULL;
+    gp_FindExtension(theGraph, DRAWPLANAR_ID, (void *)&context);
+
+    if (context != NULL)
+    {
+        if (_DrawPlanar_InitStructures(context) != OK)
+            return NOTOK;
+
+        return context->functions.fpEmbeddingInitialize(theGraph);
+    }
+
+    return NOTOK;
+}
+
 /********************************************************************
  ********************************************************************/
 
-- 
2.43.0


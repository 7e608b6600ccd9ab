"""The properties, in the words of properties.jsonl; gen.py writes properties.jsonl and MANIFEST.json from here."""
G = "c/graphLib/"; A = "c/planarityApp/"
def P(id, title, statement, over, qtext, why, files, mech, observe="", technique=None, note="", na=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({"observe_at": [observe]} if observe else {})),
                _note=note, _na=na, _tech=technique)
SAMPLED = "The tests run the command line on a few sample files and compare totals over one representative per isomorphism class (one labelling, one insertion order, append only); other labellings, adjacency orders and the returned structures are not judged against an independent definition."
ALLG = "every simple graph on N vertices in every labelling, within the stated N, and every subset of the free edges of larger stated families, for several edge insertion orders and list ends"
PROPS = [
P("P01", "Planarity verdict comes with a correct certificate",
  "Planar embedding of any simple graph answers either 'embeddable', leaving a combinatorial embedding with exactly the input's edges whose face count satisfies Euler's formula in every component, or 'not embeddable', leaving a subgraph of the input that is a subdivision of K5 or K3,3. The answer never depends on vertex labels or on the order in which edges were added.",
  ["inputs"], ALLG, SAMPLED, [G + "planarityRelated/graphEmbed.c", G + "planarityRelated/graphIsolator.c", G + "planarityRelated/graphNonplanar.c", G + "graphDFSUtils.c", G + "graphUtils.c"],
  [("edge addition with Walkup/Walkdown", "gp_Embed and its static helpers in graphEmbed.c"), ("Kuratowski subgraph isolation", "graphIsolator.c, graphNonplanar.c"), ("bicomp merge and orientation", "_MergeBicomps, _OrientVerticesInEmbedding")], "gp_Embed return value and resulting graph"),
P("P02", "Outerplanarity verdict comes with a correct certificate",
  "Outerplanar embedding of any simple graph answers either 'embeddable', leaving a planar embedding of exactly the input in which every connected component has a face containing all its vertices, or 'not embeddable', leaving a subgraph of the input that is a subdivision of K4 or K2,3.",
  ["inputs"], ALLG, SAMPLED, [G + "planarityRelated/graphEmbed.c", G + "planarityRelated/graphOuterplanarObstruction.c", G + "planarityRelated/graphIsolator.c"],
  [("outerplanar Walkdown", "graphEmbed.c"), ("obstruction isolation", "graphOuterplanarObstruction.c")], "gp_Embed return value and resulting graph"),
P("P03", "K2,3 homeomorph search is exact and returns the homeomorph",
  "The K2,3 search reports 'found' exactly for graphs that contain a subdivision of K2,3, and then leaves a subgraph of the input that is a subdivision of K2,3; otherwise it reports 'none'.",
  ["inputs"], ALLG + "; absence is judged by an independent existence predicate (Menger)", SAMPLED, [G + "homeomorphSearch/graphK23Search.c", G + "homeomorphSearch/graphK23Search_Extensions.c"],
  [("search on top of the outerplanarity method", "_SearchForK23InBicomp"), ("overloads of the embedder", "graphK23Search_Extensions.c")], "gp_Embed with the K2,3 search attached"),
P("P04", "K3,3 homeomorph search is exact and returns the homeomorph",
  "The K3,3 search reports 'found' exactly for graphs that contain a subdivision of K3,3, and then leaves a subgraph of the input that is a subdivision of K3,3; otherwise it reports 'none', also for nonplanar graphs whose only obstructions are K5 subdivisions.",
  ["inputs"], ALLG + "; absence is judged by an independent existence predicate up to N=7, by construction for larger families", SAMPLED, [G + "homeomorphSearch/graphK33Search.c", G + "homeomorphSearch/graphK33Search_Extensions.c"],
  [("search in the K5 minor and subtree reduction", "_SearchForK33InBicomp, _ReduceBicomp, _ReduceXYPathToEdge"), ("merge blocker handling", "_RunExtraK33Tests, _SearchForMergeBlocker")], "gp_Embed with the K3,3 search attached"),
P("P05", "K4 homeomorph search is exact and returns the homeomorph",
  "The K4 search reports 'found' exactly for graphs that contain a subdivision of K4, and then leaves a subgraph of the input that is a subdivision of K4; otherwise it reports 'none'.",
  ["inputs"], ALLG + "; absence is judged by series-parallel reduction", SAMPLED, [G + "homeomorphSearch/graphK4Search.c", G + "homeomorphSearch/graphK4Search_Extensions.c"],
  [("search and reduction of outerplanar parts", "_SearchForK4InBicomp, _K4_ReduceBicompToEdge, _K4_ReducePathComponent")], "gp_Embed with the K4 search attached"),
P("P06", "Planar drawings are valid visibility representations",
  "Drawing any planar graph gives every vertex its own row and a nonempty column interval and every edge its own column; each edge spans exactly its end points' rows, meets both intervals, and passes through no other vertex's interval. The text rendition is exactly the picture of that representation, and drawing is refused exactly for nonplanar graphs (structures in which edges have been deleted are outside: the library documents that it does not draw them).",
  ["inputs"], ALLG, SAMPLED, [G + "planarityRelated/graphDrawPlanar.c", G + "planarityRelated/graphDrawPlanar_Extensions.c"],
  [("vertex and edge positions from the embedding", "_ComputeVertexPositions, _ComputeEdgePositions"), ("relative placement recorded while merging bicomps", "graphDrawPlanar_Extensions.c"), ("rendition", "_RenderToString")], "drawing positions and gp_DrawPlanar_RenderToString"),
P("P07", "The result integrity check accepts exactly the correct results",
  "The library's own result check accepts every genuine result of every algorithm, and rejects a result whose edge set, rotation, outer face or obstruction has been altered so that it no longer certifies the claimed answer; neither graph is altered by the check. (A refusal to draw comes without a certificate and is outside.)",
  ["inputs", "histories"], "every simple graph within the bounds, every algorithm, and every single alteration of the stated kinds applied to the returned structure", "The tests only ever call the check on results it accepts; nothing exercises it on wrong results, so an always-accepting check would pass them all.",
  [G + "planarityRelated/graphTests.c", G + "homeomorphSearch/graphK33Search_Extensions.c", G + "planarityRelated/graphDrawPlanar_Extensions.c"],
  [("face walk and Euler check", "_CheckEmbeddingFacialIntegrity"), ("obstruction checks", "_CheckObstructionIntegrity, _TestSubgraph"), ("outer face check", "_CheckAllVerticesOnExternalFace")], "gp_TestEmbedResultIntegrity"),
P("P08", "Results depend only on the graph, not on its history",
  "An algorithm run on a graph that was built with deletions and re-insertions, in a reused or enlarged structure, or after an earlier run on other contents, gives the same verdict and an equally valid certificate as on the same graph built fresh. Running a second algorithm after reinitialising the structure leaves no trace of the first. The same holds without reinitialising for a structure that a depth-first search or a planarity or outerplanarity embedding has already processed and whose edges were then deleted or added.",
  ["histories", "inputs"], "every pair of a first graph and a second graph within the bounds, every choice of temporary edges that are deleted again", "The tests reuse a structure only through one fixed command sequence over generated graphs and never delete edges before embedding, so stale marks and holes in the edge store are not reached.",
  [G + "graphUtils.c", G + "planarityRelated/graphEmbed.c", G + "extensionSystem/graphFunctionTable.h"],
  [("structure reset", "_ReinitializeGraph, _InitVertices, _InitEdges"), ("hole reuse in the edge store", "gp_AddEdge, gp_DeleteEdge, edgeHoles")], "gp_ReinitializeGraph, gp_Embed"),
P("P09", "Edge add, insert and delete behave like an ordered adjacency structure",
  "Any sequence of adding, positional inserting and deleting edges leaves exactly the neighbour lists, in exactly the order, that the operations describe, with consistent twins, counts and list ends. Operations refused for want of capacity or for bad arguments change nothing.",
  ["histories"], "every sequence of at most the stated number of operations with every choice of end points, list ends, positions and edges, on every one of the stated start graphs", "The tests only append edges while reading files; insertion at a position, prepending, deletion and reuse of freed slots in arbitrary sequences are not run.",
  [G + "graphUtils.c", G + "graph.h"], [("arc linking", "gp_AddEdge, gp_InsertEdge, _AttachArc, gp_DeleteEdge, _DetachArc"), ("hole stack", "edgeHoles in graphStructures.h")], "adjacency lists through the public accessors"),
P("P10", "Hiding edges is undone exactly by restoring them in reverse order",
  "Hiding a set of edges and restoring them in reverse order brings back every adjacency list in its original order; while hidden, an edge is in neither end point's list and every other edge keeps its place.",
  ["histories"], "every start graph (parallel edges included) and every sequence of hides and restores within the bounds", "Hide and restore have no test of their own; the algorithms use them in a fixed pattern whose intermediate lists are never compared.",
  [G + "graphUtils.c"], [("hide/restore", "gp_HideEdge, gp_RestoreEdge, _DetachArc, _RestoreArc")], "adjacency lists through the public accessors"),
P("P11", "Contraction, identification and vertex hiding are correct and fully undoable",
  "Contracting an edge, identifying two vertices or hiding a vertex produces the adjacency that operation defines, and restoring brings back the original graph with every list in its original order, for nested sequences of these operations.",
  ["histories"], "every graph within the bounds and every nested sequence of the stated number of operations with every choice of operands", "No test and no tool command reaches these operations.",
  [G + "graphUtils.c"], [("identification", "_IdentifyVertices"), ("unwinding", "gp_RestoreVertices, _RestoreVertex, _RestoreHiddenEdges"), ("contraction", "gp_ContractEdge, _ContractEdge")], "adjacency lists through the public accessors"),
P("P12", "Arc capacity can grow at any moment without disturbing the graph",
  "Adding edges with automatic growth, or raising the arc capacity explicitly at any point of a history, keeps all edges and orders, never lowers capacity, and makes room for the requested number; requests that would shrink or exceed limits are refused without effect.",
  ["histories", "configurations"], "every initial capacity in the stated range and every operation sequence within the bounds", "Growth is only reached by tests whose input exceeds the default capacity, always in the same append-only pattern and without free slots.",
  [G + "graphUtils.c"], [("capacity growth", "_EnsureArcCapacity, gp_EnsureArcCapacity"), ("dynamic add", "gp_DynamicAddEdge, gp_DynamicInsertEdge")], "gp_GetArcCapacity, adjacency lists"),
P("P13", "Copies and duplicates are faithful and independent",
  "A copy or duplicate equals its source in vertices, edges, adjacency order, free slots and derived data, and afterwards neither one is affected by anything done to the other, including freeing it, detaching extensions from it, or running an algorithm on it. Copying into a differently sized graph, or one that cannot grow to hold the source, is refused and harms neither.",
  ["histories", "inputs"], "every source graph within the bounds (with free slots), every state of the destination, each of the attached-extension combinations and every listed follow-up operation on either side", "The tests duplicate a graph only to hand it to the result check; later use of source or copy is not compared.",
  [G + "graphUtils.c", G + "extensionSystem/graphExtensions.c", G + "planarityRelated/graphTests.c"], [("copying", "gp_CopyGraph, gp_DupGraph, gp_CopyAdjacencyLists"), ("extension copying", "gp_CopyExtensions")], "gp_CopyGraph, gp_DupGraph, gp_CopyAdjacencyLists"),
P("P14", "Depth-first search builds a correct DFS forest",
  "For any graph, depth-first search assigns each vertex a distinct index so that every non-tree edge joins an ancestor with a descendant, marks each edge as tree or back edge in agreement with the parent relation, and gives one root per component.",
  ["inputs"], ALLG, SAMPLED, [G + "graphDFSUtils.c"], [("DFS", "gp_CreateDFSTree"), ("arc typing", "gp_SetEdgeType in graphDFSUtils.c")], "DFS indices, parents and edge types"),
P("P15", "Lowpoint and least ancestor values are exact",
  "The least ancestor of a vertex is the smallest index it reaches by one back edge, and its lowpoint the smallest reachable from its DFS subtree by one back edge, for every graph and in every calling order; recomputation gives the same values.",
  ["inputs", "histories"], ALLG, SAMPLED, [G + "graphDFSUtils.c"], [("lowpoint computation", "gp_LowpointAndLeastAncestor, gp_LeastAncestor")], "vertex info values"),
P("P16", "Sorting vertices is an exact relabelling and an involution",
  "Sorting vertices by DFS index relabels the graph so that adjacency, list order, parents and edge types correspond under the index map, and sorting again restores the original labelling exactly.",
  ["inputs"], ALLG, SAMPLED, [G + "graphDFSUtils.c"], [("in-place sort", "gp_SortVertices, _SortVertices")], "adjacency lists and vertex info"),
P("P17", "Adjacency list text round-trips every graph",
  "Writing a graph as an adjacency list, to a file or to memory, and reading it back gives the same graph with the same neighbour sets, for every graph and digraph within the format; a second write gives the same text.",
  ["inputs"], "every graph and digraph within the bounds, written from structures with free slots, through file and string, zero-based or one-based", SAMPLED, [G + "io/graphIO.c", G + "io/strOrFile.c", G + "io/strbuf.c"],
  [("reader", "_ReadAdjList"), ("writer", "_WriteAdjList"), ("text container", "strOrFile.c")], "gp_Write/gp_Read, gp_WriteToString/gp_ReadFromString"),
P("P18", "Adjacency matrix text round-trips every simple graph",
  "Writing a simple graph as an adjacency matrix, to a file or to memory, yields the upper triangular 0/1 matrix of the graph, and reading that text back gives the same graph.",
  ["inputs"], "every simple graph within the bounds, through file and string", SAMPLED + " Reading a matrix from memory is not tested at all.", [G + "io/graphIO.c", G + "io/strbuf.c"],
  [("reader", "_ReadAdjMatrix"), ("writer", "_WriteAdjMatrix")], "gp_Write/gp_Read, gp_WriteToString/gp_ReadFromString"),
P("P19", "graph6 text follows the published format and round-trips every graph",
  "Encoding a simple graph as graph6 yields exactly the string the published format defines, with and without the header in the input decoding gives back exactly that graph, and this holds for every order the bounds include, from one vertex on.",
  ["inputs"], "every simple graph within the bounds, structures with free slots included; orders above 62 for the multi-byte size prefix with symbolic edges", SAMPLED, [G + "io/g6-write-iterator.c", G + "io/g6-read-iterator.c", G + "io/g6-api-utilities.c", G + "io/graphIO.c"],
  [("encoding", "_encodeAdjMatAsG6, _encodeGraphOrder"), ("decoding", "_decodeGraph")], "gp_Write(...G6), gp_Read, string variants"),
P("P20", "graph6 iterators stream any sequence of graphs faithfully",
  "Writing a sequence of graphs through the write iterator and reading it through the read iterator yields the same graphs in the same order and then reports the end, with one structure reused throughout and nothing of an earlier graph left in a later one.",
  ["inputs", "histories"], "every sequence of at most the stated number of graphs on the same vertex set, in file and string form", "The tests stream generator files whose contents are only counted.", [G + "io/g6-read-iterator.c", G + "io/g6-write-iterator.c"],
  [("stream state", "beginG6ReadIteration, readGraphUsingG6ReadIterator, endG6ReadIteration"), ("stream writer", "beginG6WriteIteration, writeGraphUsingG6WriteIterator")], "iterator functions"),
P("P21", "Malformed adjacency text is rejected or read safely",
  "Reading any text whatsoever in the adjacency list, adjacency matrix or edge list formats terminates and either fails or yields a well-formed graph; it never touches memory it does not own, never uses undefined values, and leaks nothing.",
  ["inputs"], "every text of the stated lengths over the stated alphabets, and every single corruption of stated valid texts", "The tests read only well-formed files.", [G + "io/graphIO.c", G + "io/strbuf.c", G + "io/strOrFile.c"],
  [("readers", "_ReadGraph, _ReadAdjList, _ReadAdjMatrix, _ReadLEDAGraph"), ("scanning", "sb_ReadInteger, sf_ReadInteger")], "gp_Read, gp_ReadFromString"),
P("P22", "Malformed graph6 text is rejected or read safely",
  "Reading any byte sequence as graph6, through the iterator, from a file or from memory, terminates and either fails or yields a well-formed graph of the stated order; it never touches memory it does not own, never uses undefined values, and leaks nothing.",
  ["inputs"], "every text of the stated lengths, all byte values", "The tests read only well-formed files.", [G + "io/g6-read-iterator.c", G + "io/g6-api-utilities.c"],
  [("validation", "_validateGraphEncoding, _validateOrderOfEncodedGraph"), ("decoding", "_decodeGraph")], "gp_Read, gp_ReadFromString, iterator functions"),
P("P23", "Every failed allocation is survived",
  "If any single memory request fails during any public operation or command of the application, the operation reports failure or still succeeds, the structures it was given can still be freed, no stream stays open, no wrong verdict is given, and nothing is leaked, freed twice or dereferenced through null.",
  ["fault_sequences"], "the failing request is any one of all requests made by the operation, for the listed operations and inputs", "Allocation never fails in the tests.", [G + "graphUtils.c", G + "lowLevelUtils/stack.c", G + "lowLevelUtils/listcoll.c", G + "io/strbuf.c", G + "io/graphIO.c", G + "extensionSystem/graphExtensions.c"],
  [("partial construction", "gp_New, _InitGraph, gp_DupGraph, _EnsureArcCapacity"), ("cleanup", "gp_Free, _ClearGraph")], "return values and heap"),
P("P24", "Extensions can be attached, found, removed and copied in any order",
  "In any sequence of attaching, removing and querying the algorithm extensions, an attached one is found and others are not, removal restores the behaviour the graph had before it was attached, double attachment and removal of absent ones are harmless, and no memory is leaked or used after release.",
  ["histories"], "every sequence of the stated length over the four extensions and the operations, followed by an algorithm run or free", "The tests attach one extension to a fresh graph and never remove it.", [G + "extensionSystem/graphExtensions.c", G + "homeomorphSearch/graphK23Search_Extensions.c", G + "homeomorphSearch/graphK33Search_Extensions.c", G + "homeomorphSearch/graphK4Search_Extensions.c", G + "planarityRelated/graphDrawPlanar_Extensions.c"],
  [("extension list and overload table", "gp_AddExtension, gp_FindExtension, gp_RemoveExtension, _OverloadFunctions")], "gp_AddExtension/gp_RemoveExtension/gp_FindExtension, gp_Embed"),
P("P25", "Random generators deliver simple graphs of the promised kind",
  "Whatever the random source yields (as long as it does not withhold some pair of vertices forever), the random graph generators terminate and deliver simple connected graphs, with the requested number of edges as far as order and capacity allow; up to 3N-6 edges they are planar (so the maximal ones are triangulations), and with one more they are planar but for one edge. Random numbers are reduced to the requested range.",
  ["inputs", "configurations"], "every stream whose first numbers (the stated count) are arbitrary and which then offers all pairs", "The generators are seeded by time in the tools and have no test.", [G + "graphUtils.c"],
  [("random tree and edges", "gp_CreateRandomGraph, gp_CreateRandomGraphEx"), ("range reduction", "_GetRandomNumber")], "resulting graph"),
P("P26", "Stacks, list collections and string buffers behave as their models",
  "The integer stack, the circular list collection and the string buffer behave like a sequence, a family of cyclic lists and a text with a read position under any sequence of operations, including growth, copying, concatenation and empty or full conditions.",
  ["histories"], "every operation sequence and every value within the bounds", "They are only exercised through the algorithms in fixed patterns.", [G + "lowLevelUtils/stack.c", G + "lowLevelUtils/listcoll.c", G + "io/strbuf.c"],
  [("stack", "sp_Push2_impl, sp_CopyContent, sp_ConcatContent"), ("lists", "LCAppend, LCDelete, LCInsertAfter"), ("buffer", "sb_ConcatString, sb_TakeString, sb_ReadInteger")], "module interfaces"),
P("P27", "The single-graph command line gives the answer its exit status claims",
  "For every algorithm command and input graph, the specific-graph command exits with the status of the verdict, writes the certificate or the drawing to the named outputs exactly when documented, and what it writes reads back as a certificate for the input; improper invocations, missing inputs and names of any length are refused or handled without harm.",
  ["inputs", "configurations"], "every graph within the bounds, every algorithm command, each input format", "The tests run a few sample files per command.", [A + "planaritySpecificGraph.c", A + "planarityCommandLine.c", A + "planarityUtils.c"],
  [("command", "SpecificGraph"), ("options", "commandLine")], "exit status and output files"),
P("P28", "Batch test and transform commands treat every graph in the file",
  "The transform command converts every graph of the input to the requested format without changing it, and the all-graphs test command counts every graph of the input exactly once as embeddable or not, in agreement with the single-graph verdict.",
  ["inputs", "configurations"], "every sequence of graphs within the bounds, every algorithm command, each output format", "The tests compare totals over fixed generator files; conversions only for sample files.", [A + "planarityTestAllGraphs.c", A + "planarityTransformGraph.c"],
  [("batch loop", "TestAllGraphs, outputTestAllGraphsResults"), ("transform", "TransformGraph, TransformString")], "exit status and output files"),
P("P29", "Neighbour and degree queries agree with the edges, also for digraphs",
  "Adjacency, arc lookup and degree queries agree with the edges actually present under every combination of edge directions and after any change; directing and undirecting an edge affects only that edge.",
  ["inputs", "histories"], "every graph and every direction assignment within the bounds", "Digraph support has no test.", [G + "graphUtils.c", G + "graph.h"],
  [("queries", "gp_IsNeighbor, gp_GetNeighborEdgeRecord, gp_GetVertexDegree, gp_GetVertexInDegree, gp_GetVertexOutDegree"), ("direction", "gp_SetDirection")], "query results"),
P("P30", "A drawing written with the graph is the drawing read back",
  "Writing a graph with the drawing extension attached appends its drawing data, and reading that text into a graph with the extension attached gives every vertex and edge the position and range it had, so that the same drawing is rendered; texts without drawing data, and any of the three formats, are read without an error into a graph that has the extension attached.",
  ["inputs", "configurations"], "every planar graph within the bounds, several insertion orders, file and memory, both numberings", "The tests write drawing data but never read it back.", [G + "planarityRelated/graphDrawPlanar_Extensions.c", G + "io/graphIO.c"],
  [("drawing data", "_DrawPlanar_WritePostprocess, _DrawPlanar_ReadPostprocess"), ("extra data of a text", "_ReadPostprocess, _ReadAdjMatrix")], "gp_Write/gp_Read, gp_WriteToString/gp_ReadFromString, gp_DrawPlanar_RenderToString"),
P("P31", "The self-test tells right results from wrong ones",
  "The comparisons of texts and files used by the built-in regression test report equality exactly when the contents are equal up to carriage returns (byte for byte in the binary comparison), and a specific-graph or transformation test of the self-test succeeds exactly when the result agrees with the exemplar, also when no output or no exemplar exists.",
  ["inputs"], "every pair of texts up to the stated length over letters, line feed, carriage return and a non-ASCII byte; every graph within the bounds with its exemplar changed, cut or lengthened at any position", "A comparison that reports equality too easily makes every regression test pass.", [A + "planarityUtils.c", A + "planarityCommandLine.c"],
  [("comparisons", "TextFileMatchesString, TextFilesEqual, BinaryFilesEqual, ReadTextFileIntoString"), ("self-test steps", "runSpecificGraphTest, runGraphTransformationTest")], "return values of the comparison and test functions"),
P("P32", "Commands on random graphs report and save what they generated",
  "Whatever the random source yields, the random-graph commands exit with the right status (0 for the maximal planar graph, 1 with one edge more, 0 for a series), save the generated graph, its embedding or obstruction and the edge lists exactly as requested, each of them the true one, and print statistics that agree with the graphs generated, each obstruction counted under the kind the embedder found.",
  ["inputs", "configurations"], "every stream whose first numbers (the stated count) are arbitrary, every algorithm command, the options and answers offered", "The tools seed with the time; no test runs them.", [A + "planarityRandomGraphs.c", A + "planarityCommandLine.c", A + "planarityUtils.c"],
  [("random commands", "RandomGraph, RandomGraphs"), ("edge list", "SaveAsciiGraph"), ("configuration", "Reconfigure")], "exit status, output files, console text"),
P("P33", "The menu does what the command line does",
  "Choosing an algorithm, the test of all graphs or a transformation from the menu, answering its questions in upper or lower case, with or without a mistake in between, gives the same outputs, in the named or derived file or on the console, as the corresponding command, releases everything and returns to the menu.",
  ["inputs", "configurations"], "every graph within the bounds and every combination of the stated answers", "The tests do not operate the menu.", [A + "planarityMenu.c", A + "planaritySpecificGraph.c", A + "planarityTestAllGraphs.c", A + "planarityTransformGraph.c"],
  [("menu", "menu, TransformGraphMenu, TestAllGraphsMenu")], "output files and console text"),
P("P34", "LEDA edge lists are read as the simple graph they describe",
  "Reading a LEDA file yields the graph whose edges are the unordered pairs listed - loops and repeated edges omitted, in whichever order their ends are given, whatever the types, labels and line ends - with the given order and as many edges as needed; an edge list whose ends are out of range, that has fewer lines than announced or lacks a part is refused, and the format is refused from memory; nothing leaks.",
  ["inputs"], "every list of the stated number of edges over the vertices within the bounds, every place where the text may end", "No test reads a LEDA file.", [G + "io/graphIO.c"],
  [("LEDA", "_ReadLEDAGraph"), ("format detection", "gp_Read, gp_ReadFromString")], "gp_Read, gp_Write"),
P("P35", "The standard streams serve like files",
  "Reading a graph from the standard input, redirected from a file or a pipe, gives the same result and the same graph as reading a file of that content, in every format, including drawing data and damaged texts; writing a graph or a drawing to the standard output puts there exactly the text a file would get, leaving the stream open for further output, in every format; the specific-graph command between the standard streams behaves as between files.",
  ["inputs", "configurations"], "every graph within the bounds, every format, a changed byte or an early end at every place of the stated range, pipe or file", "No test uses the standard streams for graphs.", [G + "io/graphIO.c", G + "planarityRelated/graphDrawPlanar.c", G + "io/strOrFile.c", A + "planaritySpecificGraph.c"],
  [("input", "gp_Read"), ("output", "gp_Write, gp_DrawPlanar_RenderToFile, sf_closeFile")], "gp_Read, gp_Write, exit status and streams"),

P("P36", "Edge-deletion analysis counts exactly the graphs whose homeomorph was missed",
  "For every graph6 line and every combination of answers of the planarity program, the edge-deletion analyser reports a graph as having a missed homeomorph exactly when the homeomorph search reported none but the alternate check (planarity for K3,3, outerplanarity for K2,3 and K4) exhibits the homeomorph, for the graph itself or, if it exhibits the other obstruction of the pair, for the graph less one edge - each edge tried once, on a copy - directly or by a second search. Failures and contradictory answers of the program raise an error. The obstruction type follows from the vertex degrees; the Graph class accepts exactly well-formed adjacency lists, and deleting an edge from a copy removes its two arcs and nothing else.",
  ["inputs"], "every combination of the program's answers for graphs with up to 4 edges, every degree sequence within the bound, all labels in small adjacency lists", "The tests run the analyser with a correct program only, so no search ever misses a homeomorph and most branches never run.",
  ["TestSupport/planaritytesting/" + "edge_deletion_analysis.py", "TestSupport/planaritytesting/" + "graph.py"], [("the analysis", "EdgeDeletionAnalyzer.analyze_graphs, analyze_transformed_graph, _edge_deletion_analysis"), ("classification", "determine_obstruction_type"), ("graphs", "Graph")], "analyze_graphs return value, files written",
  technique="symbolic execution of the real Python code with proxy objects, every branch and obligation decided by z3"),
P("P37", "Comparing graph6 files is exact set arithmetic",
  "For any two graph6 files (with or without header, blank lines, trailing blanks or a missing last line end), the comparison writes as difference exactly the encodings of one file that the other lacks, in order of first occurrence and once each; as duplicates exactly the encodings that occur more than once in a file, with the lines; and as intersection exactly the common encodings whose first lines differ, with both line numbers; and no file when the result is empty. Line numbers are claimed for files without blank lines.",
  ["inputs"], "all texts of the lines within the stated numbers of lines", "No test runs the comparison.", ["TestSupport/planaritytesting/" + "g6_diff_finder.py", "TestSupport/planaritytesting/" + "planaritytesting_utils.py"],
  [("reading", "G6DiffFinder._populate_comparand_dict"), ("results", "graph_set_diff, output_duplicates, graph_set_intersection_with_different_line_nums")], "files in results/",
  technique="symbolic execution of the real Python code with proxy objects, every branch and obligation decided by z3"),
P("P38", "Result tables show and sum the numbers of the result files",
  "A table generated from a folder of test-all-graphs results has one row for each file of the requested kind (canonical or not, makeg or not), in order of the number of edges, with that file's own numbers, error flag, duration and, when given, number of missed homeomorphs, and a last row with their sums; a folder without files of that kind is an error. (Known finding: the total of the error flags counts the files without errors.)",
  ["inputs"], "all numbers in up to 4 result files, all kinds of files", "No test generates a table.", ["TestSupport/planaritytesting/" + "test_table_generator.py", "TestSupport/planaritytesting/" + "planarity_testAllGraphs_output_parsing.py"],
  [("reading results", "TestTableGenerator.process_files, process_file_contents, validate_infile_name"), ("writing the table", "write_table_formatted_data_to_file")], "the table file",
  technique="symbolic execution of the real Python code with proxy objects, every branch and obligation decided by z3"),
]

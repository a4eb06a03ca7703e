#!/usr/bin/env python3
# Generates properties.jsonl (kept in the repository; edit here, run, commit both).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L="c/graphLib/"
TESTS="The repository's tests embed every graph of order 5 to 10 once, in the one labelling and edge order that the generator prints, and judge the result with the library's own integrity checker; other labelings, edge orders and larger orders are not reached."
p("P01","Planar graphs always receive a correct planar embedding",
 "For every simple graph, planar embedding succeeds if and only if the graph is planar, and never ends in an internal failure. On success the graph object holds exactly the input's edges, each vertex with a cyclic order of its edges, and the orders together form an embedding in the plane (Euler's formula holds for the traced faces), both before and after the vertices are put back in input order.",
 ["inputs"],"all graphs, under every vertex labelling and every order and end of edge insertion, connected or not, up to any size",
 TESTS+" An embedding whose rotation is wrong only goes unnoticed if that checker has the same blind spot.",
 [L+"planarityRelated/graphEmbed.c",L+"graphDFSUtils.c",L+"graphUtils.c"],
 [("walkup, walkdown and bicomp merging",L+"planarityRelated/graphEmbed.c"),("orientation and joining of bicomps",L+"planarityRelated/graphEmbed.c:_EmbedPostprocess"),("DFS preprocessing and vertex sort",L+"graphDFSUtils.c")],
 [("adjacency lists","cyclic edge order at each vertex",L+"graphStructures.h")],["gp_Embed return value","adjacency lists of the graph object","gp_SortVertices"])
p("P02","Non-planar graphs always yield a genuine Kuratowski subgraph",
 "Whenever planar embedding reports that a graph is not embeddable, the graph object holds a subgraph of the input that is a subdivision of K5 or of K3,3 and nothing else. Planar embedding never reports an embeddable verdict for a non-planar graph.",
 ["inputs"],"all graphs, labelings, edge orders and sizes",
 TESTS+" An obstruction with a spare edge, or a wrong path, is accepted by any test that trusts a weakened checker.",
 [L+"planarityRelated/graphIsolator.c",L+"planarityRelated/graphNonplanar.c",L+"planarityRelated/graphEmbed.c"],
 [("non-planarity minor selection",L+"planarityRelated/graphNonplanar.c"),("isolators for minors A-E",L+"planarityRelated/graphIsolator.c"),("deletion of unmarked vertices and edges",L+"planarityRelated/graphIsolator.c")],
 None,["gp_Embed return value","remaining edges of the graph object"])
p("P03","Outerplanar graphs always receive a correct outerplanar embedding",
 "For every simple graph, outerplanar embedding succeeds if and only if the graph is outerplanar. On success the graph object holds exactly the input's edges in a planar cyclic order in which every connected component has one face touched by all of its vertices.",
 ["inputs"],"all graphs, labelings, edge orders and sizes",TESTS+" The checker only looks for vertices missing from the external face of the structures it built itself.",
 [L+"planarityRelated/graphEmbed.c",L+"planarityRelated/graphOuterplanarObstruction.c"],
 [("walkdown that keeps every vertex on the external face",L+"planarityRelated/graphEmbed.c"),("orientation and joining",L+"planarityRelated/graphEmbed.c:_EmbedPostprocess")],None,["gp_Embed return value","adjacency lists"])
p("P04","Non-outerplanar graphs always yield a K4 or K2,3 subdivision",
 "Whenever outerplanar embedding reports that a graph is not embeddable, the graph object holds a subgraph of the input that is a subdivision of K4 or of K2,3 and nothing else. It never reports an embeddable verdict for a graph that is not outerplanar.",
 ["inputs"],"all graphs, labelings, edge orders and sizes",TESTS,
 [L+"planarityRelated/graphOuterplanarObstruction.c",L+"planarityRelated/graphIsolator.c"],
 [("choice of minor",L+"planarityRelated/graphOuterplanarObstruction.c"),("isolators for A, B, E",L+"planarityRelated/graphOuterplanarObstruction.c")],None,["gp_Embed return value","remaining edges"])
for i,(k,f,full) in {"P05":("K2,3","graphK23Search","K_{2,3}"),"P06":("K4","graphK4Search","K_4"),"P07":("K3,3","graphK33Search","K_{3,3}")}.items():
    p(i,f"The {k} search finds a {k} subdivision exactly when there is one",
     f"For every simple graph, the search for a {full} subdivision reports one if and only if the graph contains a subgraph that is a subdivision of {full}. When it reports one, the graph object holds a subgraph of the input that is precisely such a subdivision, and it never ends in an internal failure.",
     ["inputs"],"all graphs, labelings, edge orders and sizes",
     TESTS+" The negative verdict carries no certificate at all, so only counts per edge number are compared.",
     [L+f"homeomorphSearch/{f}.c",L+f"homeomorphSearch/{f}_Extensions.c"],
     [("search at blocked bicomps",L+f"homeomorphSearch/{f}.c"),("overloaded embedding functions",L+f"homeomorphSearch/{f}_Extensions.c")],None,["gp_Embed return value","remaining edges of the graph object"])
p("P08","Every planar drawing is a valid visibility representation",
 "For every planar graph, the drawing places each vertex on its own horizontal segment and each edge on its own column, each edge segment ends on the rows of its two endpoints within their horizontal ranges, and no edge segment touches the segment of any other vertex. The coordinates lie within the grid of one row per vertex and one column per edge, the embedding under the drawing is a correct planar embedding, and a non-planar graph is reported as not drawable.",
 ["inputs"],"all planar graphs, connected or not, under every labelling and edge order; before and after restoring the input vertex order",
 TESTS+" Coordinates are compared with exemplars for two small graphs only.",
 [L+"planarityRelated/graphDrawPlanar.c",L+"planarityRelated/graphDrawPlanar_Extensions.c"],
 [("between/beyond bookkeeping during embedding",L+"planarityRelated/graphDrawPlanar.c:_CollectDrawingData,_BreakTie"),("vertex and edge position sweeps",L+"planarityRelated/graphDrawPlanar.c")],None,["drawing section written with the adjacency list","gp_DrawPlanar_RenderToString"])
p("P09","Rendered and saved drawings show the computed drawing",
 "The text rendition of a drawing shows every vertex segment with its label and every edge segment exactly where the computed coordinates put them, in file and string output alike. The drawing data written along with a graph lists those coordinates for every vertex and edge.",
 ["inputs","configurations"],"all drawn planar graphs with one-, two- and three-digit labels, zero-based or one-based, to file or string",
 "The samples contain four renderings of graphs with at most ten vertices; label widths, narrow segments, large orders and the zero-based flag are not combined.",
 [L+"planarityRelated/graphDrawPlanar.c",L+"planarityRelated/graphDrawPlanar_Extensions.c",L+"io/graphIO.c"],
 [("ASCII renderer",L+"planarityRelated/graphDrawPlanar.c:_RenderToString"),("extra data writer",L+"planarityRelated/graphDrawPlanar_Extensions.c:_DrawPlanar_WritePostprocess")],None,["gp_DrawPlanar_RenderToString","gp_DrawPlanar_RenderToFile","gp_Write","gp_WriteToString"])
p("P10","The integrity test accepts correct results and rejects corrupted ones",
 "Given a verdict that comes with a result (a planar or outerplanar embedding, a drawing, or an obstruction found), the integrity test confirms it when the result, in input vertex order, is a correct certificate for the original graph. It reports failure when the result was altered so that it is no longer such an embedding of the original, no longer a minimal obstruction contained in the original, or no longer a valid drawing.",
 ["inputs","fault_sequences"],"all results of small graphs for all six algorithms, with every single corruption out of a set of edge removals, edge additions, rotation swaps, verdict swaps and coordinate changes",
 "The tests only ever hand the checker correct results, so a checker that accepts everything passes all of them.",
 [L+"planarityRelated/graphTests.c",L+"planarityRelated/graphDrawPlanar.c",L+"homeomorphSearch/graphK23Search_Extensions.c",L+"homeomorphSearch/graphK33Search_Extensions.c",L+"homeomorphSearch/graphK4Search_Extensions.c"],
 [("face walk, Euler count and subgraph test",L+"planarityRelated/graphTests.c"),("obstruction recognizers",L+"planarityRelated/graphTests.c")],None,["gp_TestEmbedResultIntegrity"])
p("P11","Depth-first numbering, lowpoints and vertex sorting are exact and reversible",
 "For every graph, depth-first search gives each vertex a distinct number and a parent such that every non-tree edge joins an ancestor and a descendant, edges are classified accordingly, and the least ancestor and lowpoint values are those of that tree. Sorting the vertices puts each one at its number without changing the graph up to that renaming, and sorting again restores the original order exactly.",
 ["inputs"],"all graphs, labelings and edge orders, connected or not",
 "No test calls these functions directly; they run only inside an embedding of a connected-or-not graph in one labelling.",
 [L+"graphDFSUtils.c"],[("DFS",L+"graphDFSUtils.c:gp_CreateDFSTree"),("cycle-by-cycle vertex sort",L+"graphDFSUtils.c:_SortVertices"),("lowpoint pass",L+"graphDFSUtils.c:gp_LowpointAndLeastAncestor")],None,["gp_CreateDFSTree","gp_SortVertices","gp_LowpointAndLeastAncestor","gp_PreprocessForEmbedding"])
p("P12","Editing a graph matches a plain adjacency-list model",
 "After any sequence of edge additions at chosen list ends or beside chosen edges, deletions, and direction settings, every vertex has exactly the edge list, in order, that a plain model of the same operations has. Neighbor queries, degrees, in- and out-degrees, edge counts and the edge returned for a pair of vertices agree with that model, and a rejected operation changes nothing.",
 ["histories"],"all operation sequences up to a depth over a small vertex set, directed and undirected",
 "The tests only build graphs by reading them and never delete, insert at a position, or set directions.",
 [L+"graphUtils.c"],[("arc attach/detach and edge holes",L+"graphUtils.c"),("direction flags on twin arcs",L+"graphStructures.h")],None,["gp_AddEdge","gp_InsertEdge","gp_DeleteEdge","gp_IsNeighbor","gp_GetVertexDegree"])
p("P13","Hiding, contracting and identifying are exactly undone by restoring",
 "Restoring hidden edges in reverse order, or restoring the vertices that were hidden, contracted or identified, brings back every vertex's edge list in its original order, with the original endpoints and edge count. In between, the graph is the one obtained by removing the edges or merging the vertices, without parallel edges.",
 ["histories"],"all nested sequences of hide, contract and identify operations up to a depth on all small graphs",
 "No test calls these operations; only the homeomorph searches use a few of them internally.",
 [L+"graphUtils.c"],[("stack of undo records",L+"graphUtils.c:gp_ContractEdge,gp_IdentifyVertices,gp_HideVertex"),("restoration",L+"graphUtils.c:gp_RestoreVertices")],None,["gp_HideEdge","gp_RestoreEdge","gp_HideVertex","gp_ContractEdge","gp_IdentifyVertices","gp_RestoreVertices"])
p("P14","Edge capacity grows on demand without losing or refusing edges",
 "The reported edge capacity is the one that was requested or is the documented default, a graph accepts exactly that many arcs without growth, and a further edge is refused without effect unless growth is asked for. Growing, explicitly or on demand, keeps every existing edge, its position, direction and the graph's later results.",
 ["histories","configurations"],"all small orders and requested capacities, before and after initialization, all growth points in a sequence of additions and deletions",
 "Tests never approach a capacity limit except through complete graphs read from graph6 files.",
 [L+"graphUtils.c"],[("capacity accounting",L+"graphUtils.c:gp_GetArcCapacity,gp_EnsureArcCapacity"),("growth on demand",L+"graphUtils.c:gp_DynamicAddEdge")],None,["gp_GetArcCapacity","gp_EnsureArcCapacity","gp_AddEdge","gp_DynamicAddEdge"])
p("P15","Copies equal their source and are independent of it",
 "A copied or duplicated graph has the same vertices, edge lists in the same order, directions, results and attached features as its source. Any later operation on, or destruction of, either one leaves the other unchanged and fully usable.",
 ["histories"],"all copy and duplicate points in histories of building, attaching features, embedding, editing, copying and freeing, with equal and different capacities",
 "The tests copy graphs only right before an embedding and only to check that embedding.",
 [L+"graphUtils.c",L+"extensionSystem/graphExtensions.c"],[("deep copy",L+"graphUtils.c:gp_CopyGraph,gp_DupGraph"),("context duplication",L+"extensionSystem/graphExtensions.c:gp_CopyExtensions")],None,["gp_CopyGraph","gp_DupGraph","gp_CopyAdjacencyLists"])
p("P16","A reused graph object behaves like a fresh one",
 "After reinitialization, a graph object gives for any further graph and algorithm the same verdict and the same result as a newly created object, whatever was done with it before. A graph that was numbered or embedded before, and is back in its original vertex order, can be edited and embedded again with the verdict and a valid result for its current edges. Operations on one graph object never affect another.",
 ["histories"],"all sequences of up to three (graph, algorithm) runs on one object with reinitialization in between, interleaved with runs on a second object",
 "The batch tests reuse one object for one algorithm over graphs of increasing size; a leftover that matters only after a different algorithm, a larger graph or an abandoned edit is not reached.",
 [L+"graphUtils.c",L+"homeomorphSearch/graphK33Search_Extensions.c",L+"homeomorphSearch/graphK4Search_Extensions.c",L+"planarityRelated/graphDrawPlanar_Extensions.c"],
 [("reinitialization of core structures",L+"graphUtils.c:_ReinitializeGraph"),("reinitialization of extension structures",L+"homeomorphSearch and planarityRelated *_Extensions.c")],None,["gp_ReinitializeGraph","gp_Embed"])
p("P17","Attached features coexist, and detach without trace",
 "Features can be attached in any order and number, before or after the graph's size is set; each algorithm then gives the same verdict and a result as valid as on a graph with only its own feature. Detaching features in any order leaves the remaining ones and the plain algorithms working, and attaching an attached feature has no effect.",
 ["histories","configurations"],"all sequences of attach, detach and run over the four features up to a depth",
 "Every test attaches exactly one feature to a new graph and never detaches it.",
 [L+"extensionSystem/graphExtensions.c",L+"homeomorphSearch/graphK33Search_Extensions.c",L+"homeomorphSearch/graphK4Search_Extensions.c",L+"homeomorphSearch/graphK23Search_Extensions.c",L+"planarityRelated/graphDrawPlanar_Extensions.c"],
 [("function table overloading and removal",L+"extensionSystem/graphExtensions.c")],[("function tables","per-graph table of overloadable functions and the chain of base tables",L+"extensionSystem/graphExtensions.c")],["gp_AddExtension","gp_RemoveExtension","gp_FindExtension","gp_Attach*/gp_Detach*"])
p("P18","Adjacency lists and matrices survive being written and read back",
 "Writing any simple graph or digraph as an adjacency list, or any simple graph as an adjacency matrix, to a file or to a string, and reading it back from either yields the same graph. Adjacency lists also keep the vertex base, the order of each vertex's undirected and outgoing edges, and edge directions. File and string forms are identical, and a graph that a format cannot represent is refused rather than written wrongly.",
 ["inputs","configurations"],"all small graphs and directed graphs, zero- and one-based, both formats, file and string, plus larger orders",
 "The tests compare a handful of exemplar files; there is no directed graph, no order below five except none, and no read-back.",
 [L+"io/graphIO.c",L+"io/strOrFile.c",L+"io/strbuf.c"],[("text writers and readers",L+"io/graphIO.c")],None,["gp_Write","gp_WriteToString","gp_Read","gp_ReadFromString"])
p("P19","Graph6 encoding and decoding follow the standard",
 "Every simple graph written in graph6 is written, apart from the final line end, exactly as the published graph6 definition says, and every valid graph6 text, with or without header, is read as exactly the graph it denotes. This holds for every order from 1 to the library's stated limit of 100000, from files and strings alike.",
 ["inputs"],"all graphs of small order, and for each larger order the graphs that set each single position of the matrix near byte and row boundaries",
 "The exemplars cover three files with orders up to ten; order one, orders from 63 up and header variants are not covered.",
 [L+"io/g6-read-iterator.c",L+"io/g6-write-iterator.c",L+"io/g6-api-utilities.c"],[("order and matrix encoding",L+"io/g6-write-iterator.c"),("order and matrix decoding",L+"io/g6-read-iterator.c")],None,["gp_Write(WRITE_G6)","gp_WriteToString(WRITE_G6)","gp_Read","gp_ReadFromString"])
p("P20","Multi-graph graph6 streams keep every graph, in order",
 "A sequence of graphs of equal order written through the graph6 writer is read back through the graph6 reader as the same sequence with the same count, for files and strings alike. A stream containing a graph of a different order, or that is cut short inside a graph, is reported as an error and never read as a complete sequence.",
 ["histories","inputs"],"all sequences of up to three small graphs, over file and string endpoints, with and without header and final newline",
 "The tests read generator files but nothing ever writes or reads back a stream with more than one graph.",
 [L+"io/g6-read-iterator.c",L+"io/g6-write-iterator.c",L+"io/strOrFile.c"],[("iteration state",L+"io/g6-read-iterator.c"),("per-graph encode and print",L+"io/g6-write-iterator.c")],None,["beginG6ReadIteration*","readGraphUsingG6ReadIterator","beginG6WriteIteration*","writeGraphUsingG6WriteIterator"])
p("P21","Malformed graph text is refused without harm",
 "Whatever text is given to the readers, reading ends with a definite answer, touches no memory it does not own, and leaves a graph object that can be freed or used again. Text that stops before the graph it announces is complete, or that names vertices out of range, is reported as an error.",
 ["inputs","fault_sequences"],"every truncation and every single-character edit (from a small alphabet) of valid texts in all formats, and all short texts over a small alphabet, through file and string",
 "The tests read only well-formed files.",
 [L+"io/graphIO.c",L+"io/g6-read-iterator.c",L+"io/g6-api-utilities.c",L+"io/strbuf.c",L+"io/strOrFile.c"],[("format detection and parsing",L+"io/graphIO.c"),("graph6 validation",L+"io/g6-read-iterator.c")],None,["gp_Read","gp_ReadFromString","gp_Free"])
p("P22","Running out of memory never crashes or corrupts",
 "If any single memory request fails while creating, sizing, reading, writing, copying, extending, growing, embedding or drawing a graph, the operation reports failure or still delivers a correct result. Every object involved can then be freed, without touching freed memory or freeing anything twice, and nothing stays lost. A refused operation other than an embedding leaves its graph as it was, so that it can be repeated once memory is available; after a failed embedding the graph can be reinitialized and used again, and after a failed initialization or reading the object can be initialized again.",
 ["fault_sequences"],"every single failing allocation, and every point from which all allocations fail, of a set of histories covering all entry points",
 "No test injects an allocation failure.",
 [L+"graphUtils.c",L+"extensionSystem/graphExtensions.c",L+"io/graphIO.c",L+"io/strbuf.c",L+"io/g6-read-iterator.c",L+"io/g6-write-iterator.c",L+"planarityRelated/graphDrawPlanar_Extensions.c",L+"homeomorphSearch/graphK33Search_Extensions.c"],
 [("cleanup on failed creation",L+"graphUtils.c:_ClearGraph"),("attach and context cleanup","*_Extensions.c")],None,["all allocating entry points"])
p("P23","Random generators deliver the promised graph for every random stream",
 "Whatever the random number source returns, the random graph generator produces a simple connected graph within its edge bounds, and the random planar generator produces a simple graph with the requested number of edges (at least those of a tree, at most those of a simple graph and the object's capacity) that contains a maximal planar graph when enough edges are requested, and is planar when no more than a maximal planar graph has are requested. Both always terminate with success for requests that can be met.",
 ["inputs"],"all answers of the random source, abstracted to what the generator can distinguish, for small orders and edge counts",
 "Tests cannot steer the random source, and seed it from the clock.",
 [L+"graphUtils.c"],[("random graph construction",L+"graphUtils.c:gp_CreateRandomGraph"),("random maximal planar construction",L+"graphUtils.c:gp_CreateRandomGraphEx")],None,["gp_CreateRandomGraph","gp_CreateRandomGraphEx"])
p("P24","The command-line program reports what the library finds",
 "For every input graph and algorithm, the program's exit status tells embeddable (zero), not embeddable (one) and error apart, its messages say the same, and its output files hold the embedding, obstruction or drawing in the input's vertex numbering and base. Format conversion yields the same graph, and batch testing counts every graph in the file with its right verdict. This holds for command-line arguments, the legacy form, the menu, and names for standard input and output; incomplete command lines, unknown commands, malformed input and files that cannot be opened or written are errors, quiet mode prints nothing, and the self test fails exactly when a sample differs.",
 ["inputs","configurations"],"all small graphs in every input format and base, all algorithms, output and secondary output combinations; all small batches; every truncation of every form of command line; every command character; every single change of a sample file",
 "Each command is tested on one or two sample graphs, by comparing output text and not exit status.",
 ["c/planarityApp/planarityCommandLine.c","c/planarityApp/planaritySpecificGraph.c","c/planarityApp/planarityTestAllGraphs.c","c/planarityApp/planarityTransformGraph.c","c/planarityApp/planarityUtils.c"],
 [("command dispatch and exit status","c/planarityApp/planarityCommandLine.c"),("specific graph run","c/planarityApp/planaritySpecificGraph.c"),("batch run","c/planarityApp/planarityTestAllGraphs.c")],None,["exit status","output files"])
p("P25","Stacks, list collections and string buffers match their models",
 "Every sequence of operations on the integer stack, the collection of circular lists, the string buffer and the string-or-file container behaves as the same sequence on a plain sequence or string does, growing where growth is promised and refusing without effect where it is not. This holds in the optimized configuration, where operations are used within their preconditions, and in the debugging configuration.",
 ["histories","configurations"],"all operation sequences up to a depth with small element domains, in both build configurations",
 "They are exercised only through the algorithms, with large initial capacities, in the optimized configuration only.",
 [L+"lowLevelUtils/stack.c",L+"lowLevelUtils/stack.h",L+"lowLevelUtils/listcoll.c",L+"lowLevelUtils/listcoll.h",L+"io/strbuf.c",L+"io/strOrFile.c"],
 [("stack",L+"lowLevelUtils/stack.c"),("list collection",L+"lowLevelUtils/listcoll.c"),("string buffer",L+"io/strbuf.c")],None,["sp_*","LC*","sb_*","sf_*"])
p("P26","Freeing a graph returns all of its memory",
 "After any history of creating, reading, extending, embedding, editing, copying and writing, freeing the objects the caller owns leaves no memory allocated by the library, and no memory is read or written after it is freed or out of its bounds.",
 ["histories"],"all histories up to a depth over the public operations on one or two graph objects, successful and refused operations alike",
 "The tests never look at memory.",
 [L+"graphUtils.c",L+"extensionSystem/graphExtensions.c",L+"io/graphIO.c",L+"io/strbuf.c",L+"io/g6-read-iterator.c",L+"io/g6-write-iterator.c"],
 [("destruction",L+"graphUtils.c:gp_Free"),("extension contexts",L+"extensionSystem/graphExtensions.c:gp_FreeExtensions")],None,["allocation balance after gp_Free"])
p("P27","Debugging and optimized builds compute the same results",
 "For every input, a build with the debugging configuration gives the same verdict and the same resulting graph, drawing and text as the optimized build.",
 ["configurations","inputs"],"all small graphs and algorithms in both configurations",
 "Only one configuration is built and tested.",
 [L+"lowLevelUtils/appconst.h",L+"lowLevelUtils/stack.h",L+"lowLevelUtils/listcoll.h",L+"lowLevelUtils/stack.c",L+"lowLevelUtils/listcoll.c"],
 [("macro and function forms of low-level operations",L+"lowLevelUtils/stack.h, listcoll.h")],None,["gp_Embed results in both builds"])
p("P28","The work done grows linearly with the size of the graph",
 "Building a graph, numbering and sorting it, every embedding and search, testing the result (except the drawing's own test), copying, and writing and reading adjacency lists take a number of steps proportional to vertices plus edges, whatever the structure and numbering of the graph; matrices and graph6 take steps proportional to the square of the number of vertices, as their formats require.",
 ["graph structures","sizes","numberings"],"families of periodic and self-similar graphs of growing size",
 "Tests use small graphs and never measure work; a lost short-cut keeps every answer correct and shows only on large graphs of particular structure.",
 [L+"planarityRelated/graphEmbed.c",L+"planarityRelated/graphDrawPlanar.c",L+"homeomorphSearch/graphK33Search.c",L+"homeomorphSearch/graphK4Search.c",L+"graphDFSUtils.c",L+"graphUtils.c",L+"io/graphIO.c",L+"io/strbuf.c"],
 [("walking up and down",L+"planarityRelated/graphEmbed.c:_WalkUp, _WalkDown"),("growth",L+"graphUtils.c:gp_EnsureArcCapacity"),("text buffers",L+"io/strbuf.c:sb_ConcatString")],None,["number of basic blocks executed per operation, vertex and edge"])
p("P29","Work on one graph never disturbs another",
 "Graph objects, iterators and texts that are not shared are independent: however the operations on two of them are interleaved, even when one operation is suspended in its middle while the other object is worked on, each gives exactly the results it gives alone.",
 ["interleavings","points of suspension"],"all interleavings of operation scripts on two objects; all points of suspension inside an operation",
 "Tests work on one graph at a time and never interleave two.",
 [L+"graphUtils.c",L+"extensionSystem/graphExtensions.c",L+"planarityRelated/graphEmbed.c",L+"io/graphIO.c",L+"io/g6-read-iterator.c",L+"io/g6-write-iterator.c"],
 [("feature numbers",L+"extensionSystem/graphExtensions.c:moduleIDGenerator"),("no other state shared between objects",L)],None,["everything returned by the operations on either object"])
p("P30","Arrays from 0 or from 1: both configurations compute the same results",
 "The library's two index configurations (NIL 0 with 1-based arrays, and the alternative NIL -1 with 0-based arrays given in appconst.h) accept the same inputs and produce the same verdicts, embeddings, obstructions, drawings, texts and refusals, with vertex and edge indices differing exactly by the base, and neither touches memory outside its records through an index that means nothing.",
 ["graphs","presentations","operation histories","texts"],"the families, histories and changed texts of the lock-step exploration",
 "Only the 1-based configuration is built and tested; there the record of index NIL exists, so reading or writing it goes unnoticed.",
 [L+"lowLevelUtils/appconst.h",L+"graphStructures.h",L+"graphUtils.c",L+"planarityRelated/graphEmbed.c",L+"planarityRelated/graphIsolator.c",L+"homeomorphSearch/graphK33Search.c",L+"homeomorphSearch/graphK4Search.c",L+"io/graphIO.c"],
 [("the two configurations",L+"lowLevelUtils/appconst.h:NIL; graphStructures.h:gp_IsArc, gp_VertexInRange")],None,["everything returned by the operations in both builds"])
p("P31","Record accessors read and change exactly what they name",
 "The accessors and list primitives offered to extensions and applications behave as plain records and sequences: setting one flag, type, direction or field of an arc or vertex changes that one only (and the twin's direction), moving, detaching and attaching arcs keeps every adjacency list a consistent two-way sequence, pertinent-root and child lists keep their order, the activity predicates follow their definitions, and the index ranges enumerate every vertex, virtual vertex and arc once.",
 ["sequences of accessor calls","field values"],"all reachable states of small records and lists",
 "Tests use the accessors only through the algorithms, which exercise few combinations.",
 [L+"graphStructures.h",L+"graphUtils.c",L+"lowLevelUtils/listcoll.h"],
 [("arc lists",L+"graphUtils.c:gp_AttachArc, gp_DetachArc; graphStructures.h:gp_MoveArcToFirst, gp_MoveArcToLast"),("flags",L+"graphStructures.h:gp_SetDirection, gp_ResetEdgeType"),("roots and children",L+"graphStructures.h:gp_AppendVertexPertinentRoot, gp_UpdateVertexFuturePertinentChild")],None,["the values returned by the accessors"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))

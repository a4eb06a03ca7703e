From 23056f72a39067ad9e4414a07173435b6525f903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 01/62] fix: give the rendition of an edgeless graph one column
 so that its rows stay separate

---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index 6b8d9e5..bef5276 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -793,7 +793,8 @@ char *_RenderToString(graphP theEmbedding)
     if (context != NULL)
     {
         int N = theEmbedding->N;
-        int M = theEmbedding->M;
+        // An edgeless graph still needs one column for its vertices
+        int M = theEmbedding->M > 0 ? theEmbedding->M : 1;
         int zeroBasedVertexOffset = (theEmbedding->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theEmbedding) : 0;
         int n, m, EsizeOccupied, v, vRange, e, eRange, Mid, Pos;
         char *visRep = (char *)malloc(sizeof(char) * ((M + 1) * 2 * N + 1));
-- 
2.43.0


From 47f01dd41ca60f6b37cb19cab557d5033392ec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 02/62] fix: keep vertex labels of three or more digits within
 the rendered vertex segment

---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index bef5276..b667dd9 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -834,6 +834,10 @@ char *_RenderToString(graphP theEmbedding)
             sprintf(numBuffer, "%d", v - zeroBasedVertexOffset);
             if ((unsigned)(context->VI[v].end - context->VI[v].start + 1) >= strlen(numBuffer))
             {
+                // A label of three or more digits that starts at the middle of
+                // a narrow vertex segment must not extend beyond the segment
+                if (Mid + (int)strlen(numBuffer) - 1 > context->VI[v].end)
+                    Mid = context->VI[v].end - (int)strlen(numBuffer) + 1;
                 memcpy((char *)visRep + (2 * Pos) * (M + 1) + Mid, (char *)numBuffer, strlen(numBuffer));
             }
             // If the vertex width is less than the label width, then fail gracefully
-- 
2.43.0


From 62625d13ff90edc49d85c1faf6955f57c3f20820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 03/62] fix: assign saved drawing data to the edges it belongs
 to, and refuse data that is malformed

---
 .../graphDrawPlanar_Extensions.c              | 134 +++++++++++++++---
 1 file changed, 112 insertions(+), 22 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 92aee53..c0ff7a7 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -50,7 +50,7 @@ void _DrawPlanar_FreeContext(void *);
 /****************************************************************************
  * DRAWPLANAR_ID - the variable used to hold the integer identifier for this
  * extension, enabling this feature's extension context to be distinguished
- * from other features' extension contexts that may be attached to a graph.
+ * from other features' extension contexts that may be attached to a graph.
  ****************************************************************************/
 
 int DRAWPLANAR_ID = 0;
@@ -550,6 +550,106 @@ int  _DrawPlanar_CheckObstructionIntegrity(graphP theGraph, graphP origGraph)
 /********************************************************************
  ********************************************************************/
 
+// Reads one line of drawing data and advances past it.  The position and range
+// must be within the given limits, since they are used as array indices.
+static int _DrawPlanar_ReadLine(char **pExtraData, int posLimit, int rangeLimit, int *pPos, int *pStart, int *pEnd)
+{
+    int tempInt;
+    char tempChar, *line = *pExtraData;
+
+    line += strspn(line, " \t\r\n");
+    if (sscanf(line, "%d%c %d %d %d", &tempInt, &tempChar, pPos, pStart, pEnd) != 5)
+        return NOTOK;
+
+    if (*pPos < 0 || *pPos >= posLimit || *pStart < 0 || *pStart > *pEnd || *pEnd >= rangeLimit)
+        return NOTOK;
+
+    if ((line = strchr(line, '\n')) == NULL)
+        return NOTOK;
+
+    *pExtraData = line + 1;
+    return OK;
+}
+
+// Finds the first arc between u and w that has no drawing data yet.  Searching
+// the two adjacency lists in parallel takes linear total time for planar graphs.
+static int _DrawPlanar_FindUnassignedArc(DrawPlanarContext *context, int u, int w)
+{
+    graphP theGraph = context->theGraph;
+    int eu = gp_GetFirstArc(theGraph, u), ew = gp_GetFirstArc(theGraph, w);
+
+    while (gp_IsArc(eu) && gp_IsArc(ew))
+    {
+        if (gp_GetNeighbor(theGraph, eu) == w && context->E[eu].pos < 0)
+            return eu;
+        if (gp_GetNeighbor(theGraph, ew) == u && context->E[ew].pos < 0)
+            return ew;
+        eu = gp_GetNextArc(theGraph, eu);
+        ew = gp_GetNextArc(theGraph, ew);
+    }
+
+    return NIL;
+}
+
+// The edge lines are in the arc order of the graph that was written, which can
+// differ from the arc order of the graph that was read, so each edge is
+// identified by the vertices that are at the ends of its vertical range.
+static int _DrawPlanar_ReadDrawing(DrawPlanarContext *context, char *extraData, int *vertexOrder)
+{
+    graphP theGraph = context->theGraph;
+    int N = theGraph->N, numCols = theGraph->M > 0 ? theGraph->M : 1;
+    int v, e, arc, EsizeOccupied, pos, start, end, isDrawn = FALSE, isValid = TRUE;
+
+    for (v = 0; v < N; v++)
+        vertexOrder[v] = NIL;
+
+    // Read the N lines of vertex information
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        if (_DrawPlanar_ReadLine(&extraData, N, numCols, &pos, &start, &end) != OK)
+            return NOTOK;
+
+        if (gp_IsVertex(vertexOrder[pos]))
+            isValid = FALSE;
+        if (pos != 0 || start != 0 || end != 0)
+            isDrawn = TRUE;
+
+        vertexOrder[pos] = v;
+        context->VI[v].pos = pos;
+        context->VI[v].start = start;
+        context->VI[v].end = end;
+    }
+
+    // Two vertices cannot have the same position, except that all values are
+    // zero if the graph was written before a drawing was made for it.
+    if (!isValid)
+        return isDrawn ? NOTOK : OK;
+
+    // Read the lines that contain edge information
+    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
+        context->E[e].pos = -1;
+
+    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e += 2)
+    {
+        // Each edge has one line for each of its two arcs
+        if (_DrawPlanar_ReadLine(&extraData, numCols, N, &pos, &start, &end) != OK ||
+            _DrawPlanar_ReadLine(&extraData, numCols, N, &pos, &start, &end) != OK)
+            return NOTOK;
+
+        arc = _DrawPlanar_FindUnassignedArc(context, vertexOrder[start], vertexOrder[end]);
+        if (gp_IsNotArc(arc))
+            return NOTOK;
+
+        context->E[arc].pos = pos;
+        context->E[arc].start = start;
+        context->E[arc].end = end;
+        context->E[gp_GetTwinArc(theGraph, arc)] = context->E[arc];
+    }
+
+    return OK;
+}
+
 int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize)
 {
     DrawPlanarContext *context = NULL;
@@ -562,8 +662,8 @@ int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDat
 
         else if (extraData != NULL && extraDataSize > 0)
         {
-            int v, e, tempInt, EsizeOccupied;
-            char line[64], tempChar;
+            char line[64];
+            int *vertexOrder, RetVal;
 
             sprintf(line, "<%s>", DRAWPLANAR_NAME);
 
@@ -573,29 +673,19 @@ int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDat
                 return NOTOK;
 
             // Advance past the start tag
-            extraData = (void *) ((char *) extraData + strlen(line)+1);
+            extraData = (void *) ((char *) extraData + strlen(line));
 
-            // Read the N lines of vertex information
-            for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-            {
-                sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
-                              &context->VI[v].pos,
-                              &context->VI[v].start,
-                              &context->VI[v].end);
+            if ((vertexOrder = (int *) malloc(theGraph->N * sizeof(int))) == NULL)
+                return NOTOK;
 
-                extraData = strchr(extraData, '\n') + 1;
-            }
+            RetVal = _DrawPlanar_ReadDrawing(context, (char *) extraData, vertexOrder);
+            free(vertexOrder);
 
-            // Read the lines that contain edge information
-            EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
-            for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
+            if (RetVal != OK)
             {
-                sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
-                              &context->E[e].pos,
-                              &context->E[e].start,
-                              &context->E[e].end);
-
-                extraData = strchr(extraData, '\n') + 1;
+                // Do not leave a partial drawing behind
+                _DrawPlanar_InitStructures(context);
+                return NOTOK;
             }
         }
 
-- 
2.43.0


From 4109843ab546f24adf78ed3ecd6b54d716f771f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 04/62] fix: terminate the extra data string read from a graph
 file

---
 c/graphLib/io/graphIO.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 3a0fed4..892e6fc 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -433,7 +433,14 @@ int gp_Read(graphP theGraph, char *FileName)
         if (filePos < fileSize)
         {
             extraData = malloc(fileSize - filePos + 1);
-            fread(extraData, fileSize - filePos, 1, Infile);
+            if (extraData == NULL)
+                RetVal = NOTOK;
+            else
+            {
+                // The extra data is processed as a string
+                size_t extraDataLen = fread(extraData, 1, fileSize - filePos, Infile);
+                ((char *)extraData)[extraDataLen] = '\0';
+            }
         }
         /*
                 // Useful for quick debugging of IO extensibility
-- 
2.43.0


From 6b40797ac8287ad07d63744f48d463298774624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:46 +0000
Subject: [PATCH 05/62] fix: clear the visited flags before computing least
 ancestors, which were otherwise never computed

---
 c/graphLib/graphDFSUtils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/graphLib/graphDFSUtils.c b/c/graphLib/graphDFSUtils.c
index 997952f..60f6707 100644
--- a/c/graphLib/graphDFSUtils.c
+++ b/c/graphLib/graphDFSUtils.c
@@ -405,6 +405,8 @@ int gp_LeastAncestor(graphP theGraph)
 
     sp_ClearStack(theStack);
 
+    _ClearVertexVisitedFlags(theGraph, FALSE);
+
     // This outer loop causes the connected subgraphs of a disconnected graph to be processed
     for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v);)
     {
-- 
2.43.0


From 1f67aa6fd8113b326b576a9342e01c33766fe2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 06/62] fix: setting the direction of an edge replaces its
 previous direction

---
 c/graphLib/graphStructures.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/graphStructures.h b/c/graphLib/graphStructures.h
index 48d2dc4..e086827 100644
--- a/c/graphLib/graphStructures.h
+++ b/c/graphLib/graphStructures.h
@@ -150,12 +150,16 @@ extern "C"
 	{                                                                                          \
 		if (edgeFlag_Direction == EDGEFLAG_DIRECTION_INONLY)                                   \
 		{                                                                                      \
+			theGraph->E[e].flags &= ~EDGEFLAG_DIRECTION_MASK;                                  \
 			theGraph->E[e].flags |= EDGEFLAG_DIRECTION_INONLY;                                 \
+			theGraph->E[gp_GetTwinArc(theGraph, e)].flags &= ~EDGEFLAG_DIRECTION_MASK;         \
 			theGraph->E[gp_GetTwinArc(theGraph, e)].flags |= EDGEFLAG_DIRECTION_OUTONLY;       \
 		}                                                                                      \
 		else if (edgeFlag_Direction == EDGEFLAG_DIRECTION_OUTONLY)                             \
 		{                                                                                      \
+			theGraph->E[e].flags &= ~EDGEFLAG_DIRECTION_MASK;                                  \
 			theGraph->E[e].flags |= EDGEFLAG_DIRECTION_OUTONLY;                                \
+			theGraph->E[gp_GetTwinArc(theGraph, e)].flags &= ~EDGEFLAG_DIRECTION_MASK;         \
 			theGraph->E[gp_GetTwinArc(theGraph, e)].flags |= EDGEFLAG_DIRECTION_INONLY;        \
 		}                                                                                      \
 		else                                                                                   \
-- 
2.43.0


From 4ed154e3e4713ac681d4abccd961eba16ded3531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 07/62] fix: end the restored adjacency list of a vertex at its
 last arc

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 273b8ab..18483ae 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -2285,7 +2285,7 @@ int _RestoreVertex(graphP theGraph)
         if (gp_IsArc(e_v_first))
             gp_SetPrevArc(theGraph, e_v_first, NIL);
         if (gp_IsArc(e_v_last))
-            gp_SetPrevArc(theGraph, e_v_last, NIL);
+            gp_SetNextArc(theGraph, e_v_last, NIL);
 
         // For each edge record restored to v's adjacency list, reassign the 'v' member
         //    of each twin arc to indicate v rather than u.
-- 
2.43.0


From 8a7fb37843342a23549446efab119d985f3e2dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 08/62] fix: count the contracted edge among the hidden edges
 when an edge is contracted directly

---
 c/graphLib/graphUtils.c | 45 ++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 18483ae..9abf887 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -2001,7 +2001,7 @@ int gp_ContractEdge(graphP theGraph, int e)
 
 int _ContractEdge(graphP theGraph, int e)
 {
-    int eBefore, u, v;
+    int eBefore, u, v, result;
 
     if (gp_IsNotArc(e))
         return NOTOK;
@@ -2013,7 +2013,24 @@ int _ContractEdge(graphP theGraph, int e)
     sp_Push(theGraph->theStack, e);
     gp_HideEdge(theGraph, e);
 
-    return gp_IdentifyVertices(theGraph, u, v, eBefore);
+    result = gp_IdentifyVertices(theGraph, u, v, eBefore);
+
+    // The vertex identification pushes K hidden edges then an integer
+    // indicating where the top of stack was before those edges were
+    // hidden. That integer indicator must be decremented to include the
+    // contracted edge, which was pushed just before the K hidden edges.
+    // After the indicator, six more integers are pushed to indicate the
+    // edges that were moved from v to u, so the "hidden edges stackBottom"
+    // is in the next position down.
+    if (result == OK)
+    {
+        int hiddenEdgesStackBottomIndex = sp_GetCurrentSize(theGraph->theStack) - 7;
+        int hiddenEdgesStackBottomValue = sp_Get(theGraph->theStack, hiddenEdgesStackBottomIndex);
+
+        sp_Set(theGraph->theStack, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue - 1);
+    }
+
+    return result;
 }
 
 /********************************************************************
@@ -2063,28 +2080,10 @@ int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
 
     // If the vertices are adjacent, then the identification is
     // essentially an edge contraction with a bit of fixup.
+    // The edge contraction hides the edge, recursively calls this method
+    // and accounts for the one additional hidden edge.
     if (gp_IsArc(e))
-    {
-        int result = gp_ContractEdge(theGraph, e);
-
-        // The edge contraction operation pushes one hidden edge then
-        // recursively calls this method. This method then pushes K
-        // hidden edges then an integer indicating where the top of
-        // stack was before the edges were hidden. That integer
-        // indicator must be decremented, thereby incrementing the
-        // number of hidden edges to K+1.
-        // After pushing the K hidden edges and the stackBottom of
-        // the hidden edges, the recursive call to this method pushes
-        // six more integers to indicate edges that were moved from
-        // v to u, so the "hidden edges stackBottom" is in the next
-        // position down.
-        int hiddenEdgesStackBottomIndex = sp_GetCurrentSize(theGraph->theStack) - 7;
-        int hiddenEdgesStackBottomValue = sp_Get(theGraph->theStack, hiddenEdgesStackBottomIndex);
-
-        sp_Set(theGraph->theStack, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue - 1);
-
-        return result;
-    }
+        return gp_ContractEdge(theGraph, e);
 
     // Now, u and v are not adjacent. Before we do any edge hiding or
     // moving, we record the current stack size, as this is the
-- 
2.43.0


From c3898f0a910aba6000f911b2cfee120fe36939b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 09/62] fix: gp_GetArcCapacity returns the arc capacity

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 9abf887..ac2807e 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -341,7 +341,7 @@ void _ReinitializeGraph(graphP theGraph)
  ********************************************************************/
 int gp_GetArcCapacity(graphP theGraph)
 {
-    return theGraph->arcCapacity - gp_GetFirstEdge(theGraph);
+    return theGraph->arcCapacity;
 }
 
 /********************************************************************
-- 
2.43.0


From 180180cbe81a29365455a474ca50d0ba4a075229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:15 +0000
Subject: [PATCH 10/62] fix: make the stack of a graph with small arc capacity
 large enough to hide or identify its vertices

---
 c/graphLib/graphUtils.c | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index ac2807e..9d5a532 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -175,8 +175,9 @@ void _InitFunctionTable(graphP theGraph)
  The BicompRootLists and sortedDFSChildLists are of size N and start out empty.
 
  The stack, initially empty, is made big enough for a pair of integers
-     per edge record (2 * arcCapacity), or 6N integers if the arcCapacity
-     was set below the default value.
+     per edge record (2 * arcCapacity), or 7N integers plus one per edge
+     if the arcCapacity was set below the default value (see gp_HideVertex(),
+     gp_ContractEdge() and gp_IdentifyVertices()).
 
  The edgeHoles stack, initially empty, is set to arcCapacity / 2,
      which is big enough to push every edge (to indicate an edge
@@ -212,9 +213,9 @@ int _InitGraph(graphP theGraph, int N)
     Vsize = gp_VertexIndexBound(theGraph);
     Esize = gp_EdgeIndexBound(theGraph);
 
-    // Stack size is 2 integers per arc, or 6 integers per vertex in case of small arcCapacity
+    // Stack size is 2 integers per arc, or 7 integers per vertex and 1 per edge in case of small arcCapacity
     stackSize = 2 * Esize;
-    stackSize = stackSize < 6 * N ? 6 * N : stackSize;
+    stackSize = stackSize < 7 * N + Esize / 2 ? 7 * N + Esize / 2 : stackSize;
 
     // Allocate memory as described above
     if ((theGraph->V = (vertexRecP)calloc(Vsize, sizeof(vertexRec))) == NULL ||
@@ -425,29 +426,20 @@ int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
 {
     stackP newStack;
     int e, Esize = gp_EdgeIndexBound(theGraph),
-           newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity;
+           newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity,
+           stackSize;
 
     // If the new size is less than or equal to the old size, then
     // the graph already has the required arc capacity
     if (newEsize <= Esize)
         return OK;
 
-    // Expand theStack
-    if (sp_GetCapacity(theGraph->theStack) < 2 * requiredArcCapacity)
-    {
-        int stackSize = 2 * requiredArcCapacity;
-
-        if (stackSize < 6 * theGraph->N)
-        {
-            // NOTE: Since this routine only makes the stack bigger, this
-            //       calculation is not needed here because we already ensured
-            //       we had stack capacity of the greater of 2*arcs and 6*N
-            //       But we do it for clarity and consistency (e.g. so this rule
-            //       is not forgotten whenever a "SetArcCapacity" method or a
-            //       "reduceArcCapacity" method is added)
-            stackSize = 6 * theGraph->N;
-        }
+    // Expand theStack, using the same rule as in gp_InitGraph()
+    stackSize = 2 * newEsize;
+    stackSize = stackSize < 7 * theGraph->N + newEsize / 2 ? 7 * theGraph->N + newEsize / 2 : stackSize;
 
+    if (sp_GetCapacity(theGraph->theStack) < stackSize)
+    {
         if ((newStack = sp_New(stackSize)) == NULL)
             return NOTOK;
 
-- 
2.43.0


From 270b1ed178a1b21927b6db8ed3289b26e4a12490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:10 +0000
Subject: [PATCH 11/62] fix: a copied extension uses the function table in its
 own context, not the one of the source graph

---
 c/graphLib/extensionSystem/graphExtensions.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/extensionSystem/graphExtensions.c b/c/graphLib/extensionSystem/graphExtensions.c
index 1dee8d0..d3eba63 100644
--- a/c/graphLib/extensionSystem/graphExtensions.c
+++ b/c/graphLib/extensionSystem/graphExtensions.c
@@ -489,7 +489,9 @@ int gp_CopyExtensions(graphP dstGraph, graphP srcGraph)
         newNext->context = next->dupContext(next->context, dstGraph);
         newNext->dupContext = next->dupContext;
         newNext->freeContext = next->freeContext;
-        newNext->functions = next->functions;
+        // The table of overloads is stored in the context, so the new
+        // extension must use the one at the same place in its own context
+        newNext->functions = (graphFunctionTableP)((char *)newNext->context + ((char *)next->functions - (char *)next->context));
         newNext->next = NULL;
 
         if (newLast != NULL)
-- 
2.43.0


From 75e21714cdb48443cc577da7278c3b6868642979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:10 +0000
Subject: [PATCH 12/62] fix: copying an extension to a graph with more arc
 capacity reads no further than the source's data

---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 8 +++++---
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 6 ++++--
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 8 +++++---
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 468f724..704e507 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -312,8 +312,8 @@ void *_K33Search_DupContext(void *pContext, void *theGraph)
 
      if (newContext != NULL)
      {
-         int VIsize = gp_PrimaryVertexIndexBound((graphP) theGraph);
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int VIsize = gp_PrimaryVertexIndexBound(context->theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -323,7 +323,9 @@ void *_K33Search_DupContext(void *pContext, void *theGraph)
          _K33Search_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_K33Search_CreateStructures(newContext) != OK)
+             // The new graph may have a larger arc capacity than the original
+             if (_K33Search_CreateStructures(newContext) != OK ||
+                 _K33Search_InitStructures(newContext) != OK)
              {
                  _K33Search_FreeContext(newContext);
                  return NULL;
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 13ff6a0..4b98945 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -269,7 +269,7 @@ void *_K4Search_DupContext(void *pContext, void *theGraph)
 
      if (newContext != NULL)
      {
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -279,7 +279,9 @@ void *_K4Search_DupContext(void *pContext, void *theGraph)
          _K4Search_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_K4Search_CreateStructures(newContext) != OK)
+             // The new graph may have a larger arc capacity than the original
+             if (_K4Search_CreateStructures(newContext) != OK ||
+                 _K4Search_InitStructures(newContext) != OK)
              {
                  _K4Search_FreeContext(newContext);
                  return NULL;
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index c0ff7a7..9353661 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -254,8 +254,8 @@ void *_DrawPlanar_DupContext(void *pContext, void *theGraph)
 
      if (newContext != NULL)
      {
-         int VIsize = gp_PrimaryVertexIndexBound((graphP) theGraph);
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int VIsize = gp_PrimaryVertexIndexBound(context->theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -265,7 +265,9 @@ void *_DrawPlanar_DupContext(void *pContext, void *theGraph)
          _DrawPlanar_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_DrawPlanar_CreateStructures(newContext) != OK)
+             // The new graph may have a larger arc capacity than the original
+             if (_DrawPlanar_CreateStructures(newContext) != OK ||
+                 _DrawPlanar_InitStructures(newContext) != OK)
              {
                  _DrawPlanar_FreeContext(newContext);
                  return NULL;
-- 
2.43.0


From 6ac98cd471c4b836c16f464d7c2bb93d58dc306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:10 +0000
Subject: [PATCH 13/62] fix: copying a graph clears the edge records of the
 destination beyond those of the source

---
 c/graphLib/graphUtils.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 9d5a532..9dfb9ea 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -992,6 +992,11 @@ int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
     for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
         gp_CopyEdgeRec(dstGraph, e, srcGraph, e);
 
+    // If dstGraph has more arc capacity, its further edge records become unused
+    Esize = gp_EdgeIndexBound(dstGraph);
+    for (; e < Esize; e++)
+        _InitEdgeRec(dstGraph, e);
+
     // Give the dstGraph the same size and intrinsic properties
     dstGraph->N = srcGraph->N;
     dstGraph->NV = srcGraph->NV;
-- 
2.43.0


From b03ed603b2b6249d9c35cfd621b527a4f2be85b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:37 +0000
Subject: [PATCH 14/62] fix: adjacency lists and matrices that end early or
 hold unreadable numbers are refused

---
 c/graphLib/io/graphIO.c | 112 ++++++++++++++++++++++++++++------------
 1 file changed, 79 insertions(+), 33 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 892e6fc..e930fd8 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -7,6 +7,7 @@ See the LICENSE.TXT file for licensing information.
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 
 #include "../graph.h"
 #include "g6-read-iterator.h"
@@ -20,6 +21,50 @@ int _WriteAdjList(graphP theGraph, FILE *Outfile, strBufP outBuf);
 int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf);
 int _WriteDebugInfo(graphP theGraph, FILE *Outfile);
 
+/********************************************************************
+ _ReadInteger()
+ Skips whitespace and then reads one integer from the input file or
+ string buffer.
+ Returns: OK, or NOTOK if there is no integer or it is out of range
+ ********************************************************************/
+
+static int _ReadInteger(FILE *Infile, strBufP inBuf, int *pValue)
+{
+    long value;
+
+    if (Infile != NULL)
+    {
+        if (fscanf(Infile, " %ld", &value) != 1)
+            return NOTOK;
+    }
+    else
+    {
+        sb_ReadSkipWhitespace(inBuf);
+        if (sscanf(sb_GetReadString(inBuf), "%ld", &value) != 1)
+            return NOTOK;
+        sb_ReadSkipInteger(inBuf);
+    }
+
+    if (value < INT_MIN || value > INT_MAX)
+        return NOTOK;
+
+    *pValue = (int)value;
+    return OK;
+}
+
+/********************************************************************
+ _ReadWhitespace()
+ Skips whitespace, if any, in the input file or string buffer.
+ ********************************************************************/
+
+static void _ReadWhitespace(FILE *Infile, strBufP inBuf)
+{
+    if (Infile != NULL)
+        (void)!fscanf(Infile, " ");
+    else
+        sb_ReadSkipWhitespace(inBuf);
+}
+
 /********************************************************************
  _ReadAdjMatrix()
  This function reads the undirected graph in upper triangular matrix format.
@@ -38,15 +83,9 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
         return NOTOK;
 
     // Read the number of vertices from the first line of the file
-    if (Infile != NULL)
-        fscanf(Infile, " %d ", &N);
-    else
-    {
-        sb_ReadSkipWhitespace(inBuf);
-        sscanf(sb_GetReadString(inBuf), " %d ", &N);
-        sb_ReadSkipInteger(inBuf);
-        sb_ReadSkipWhitespace(inBuf);
-    }
+    if (_ReadInteger(Infile, inBuf, &N) != OK)
+        return NOTOK;
+    _ReadWhitespace(Infile, inBuf);
 
     // Initialize the graph based on the number of vertices
     if (gp_InitGraph(theGraph, N) != OK)
@@ -61,11 +100,15 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
         {
             // Read each of v's w-neighbor flags
             if (Infile != NULL)
-                fscanf(Infile, " %1d", &Flag);
+            {
+                if (fscanf(Infile, " %1d", &Flag) != 1)
+                    return NOTOK;
+            }
             else
             {
                 sb_ReadSkipWhitespace(inBuf);
-                sscanf(sb_GetReadString(inBuf), " %1d", &Flag);
+                if (sscanf(sb_GetReadString(inBuf), " %1d", &Flag) != 1)
+                    return NOTOK;
                 sb_ReadSkipInteger(inBuf);
             }
 
@@ -120,18 +163,17 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
     {
         fgetc(Infile);
         fgetc(Infile);
-        fscanf(Infile, " %d ", &N);
     }
     else
     {
         sb_ReadSkipChar(inBuf);
         sb_ReadSkipChar(inBuf);
-        sb_ReadSkipWhitespace(inBuf);
-        sscanf(sb_GetReadString(inBuf), " %d ", &N);
-        sb_ReadSkipInteger(inBuf);
-        sb_ReadSkipWhitespace(inBuf);
     }
 
+    if (_ReadInteger(Infile, inBuf, &N) != OK)
+        return NOTOK;
+    _ReadWhitespace(Infile, inBuf);
+
     // Initialize theGraph based on the number of vertices in the input
     if (gp_InitGraph(theGraph, N) != OK)
         return NOTOK;
@@ -145,13 +187,11 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
     for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
     {
         // Read the vertex number
-        if (Infile != NULL)
-            fscanf(Infile, "%d", &indexValue);
-        else
-        {
-            sscanf(sb_GetReadString(inBuf), "%d", &indexValue);
-            sb_ReadSkipInteger(inBuf);
-        }
+        if (_ReadInteger(Infile, inBuf, &indexValue) != OK)
+            return NOTOK;
+
+        if (indexValue > gp_GetLastVertex(theGraph))
+            return NOTOK;
 
         if (indexValue == 0 && v == gp_GetFirstVertex(theGraph))
             zeroBased = TRUE;
@@ -165,9 +205,16 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
 
         // Skip the colon after the vertex number
         if (Infile != NULL)
-            fgetc(Infile);
+        {
+            if (fgetc(Infile) == EOF)
+                return NOTOK;
+        }
         else
+        {
+            if (*sb_GetReadString(inBuf) == '\0')
+                return NOTOK;
             sb_ReadSkipChar(inBuf);
+        }
 
         // If the vertex already has a non-empty adjacency list, then it is
         // the result of adding edges during processing of preceding vertices.
@@ -206,15 +253,14 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
         while (1)
         {
             // Read the value indicating the next adjacent vertex (or the list end)
-            if (Infile != NULL)
-                fscanf(Infile, " %d ", &W);
-            else
-            {
-                sb_ReadSkipWhitespace(inBuf);
-                sscanf(sb_GetReadString(inBuf), " %d ", &W);
-                sb_ReadSkipInteger(inBuf);
-                sb_ReadSkipWhitespace(inBuf);
-            }
+            if (_ReadInteger(Infile, inBuf, &W) != OK)
+                return NOTOK;
+            _ReadWhitespace(Infile, inBuf);
+
+            // A value above the valid range is an error
+            if (W > gp_GetLastVertex(theGraph))
+                return NOTOK;
+
             W += zeroBased ? gp_GetFirstVertex(theGraph) : 0;
 
             // A value below the valid range indicates the adjacency list end
-- 
2.43.0


From 2cdbdd6ad08d0ddad049471cb42256c800121a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:37 +0000
Subject: [PATCH 15/62] fix: reading an adjacency matrix from a string takes
 one digit per flag, as from a file

---
 c/graphLib/io/graphIO.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index e930fd8..3dd965c 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -107,9 +107,9 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
             else
             {
                 sb_ReadSkipWhitespace(inBuf);
-                if (sscanf(sb_GetReadString(inBuf), " %1d", &Flag) != 1)
+                if (sscanf(sb_GetReadString(inBuf), "%1d", &Flag) != 1)
                     return NOTOK;
-                sb_ReadSkipInteger(inBuf);
+                sb_ReadSkipChar(inBuf);
             }
 
             // Add the edge (v, w) if the flag is raised
-- 
2.43.0


From 8ebaced6cf356374e2990fbddc1b21e596ae9c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:37 +0000
Subject: [PATCH 16/62] fix: an integer with a plus sign in a string no longer
 makes the adjacency list reader loop forever

---
 c/graphLib/io/strbuf.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index 1ab64a6..9bf6f7b 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -146,7 +146,7 @@ void sb_ReadSkipWhitespace(strBufP theStrBuf)
 {
     if (theStrBuf != NULL && theStrBuf->buf != NULL)
     {
-        while (isspace(theStrBuf->buf[theStrBuf->readPos]))
+        while (isspace((unsigned char)theStrBuf->buf[theStrBuf->readPos]))
             theStrBuf->readPos++;
     }
 }
@@ -154,17 +154,17 @@ void sb_ReadSkipWhitespace(strBufP theStrBuf)
 /********************************************************************
  sb_ReadSkipInteger()
  Advances the read position managed by the string buffer by skipping
- an initial negative sign, if present, then skipping any number of
+ an initial sign, if present, then skipping any number of
  numeric digits, if present.
  ********************************************************************/
 void sb_ReadSkipInteger(strBufP theStrBuf)
 {
     if (theStrBuf != NULL && theStrBuf->buf != NULL)
     {
-        if (theStrBuf->buf[theStrBuf->readPos] == '-')
+        if (theStrBuf->buf[theStrBuf->readPos] == '-' || theStrBuf->buf[theStrBuf->readPos] == '+')
             theStrBuf->readPos++;
 
-        while (isdigit(theStrBuf->buf[theStrBuf->readPos]))
+        while (isdigit((unsigned char)theStrBuf->buf[theStrBuf->readPos]))
             theStrBuf->readPos++;
     }
 }
-- 
2.43.0


From 7780a61f3ad2b85f16ac935671ac971aa3099455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:37 +0000
Subject: [PATCH 17/62] fix: a LEDA file that ends early or names vertices out
 of range is refused

---
 c/graphLib/io/graphIO.c | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 3dd965c..adf9b7b 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -363,38 +363,42 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
 int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
 {
     char Line[256];
-    int N = -1;
-    int M, m, u, v, ErrorCode;
+    long N = -1, M = -1, m, u, v;
+    int ErrorCode;
     int zeroBasedOffset = gp_GetFirstVertex(theGraph) == 0 ? 1 : 0;
 
     /* Skip the lines that say LEDA.GRAPH and give the node and edge types */
-    fgets(Line, 255, Infile);
-
-    fgets(Line, 255, Infile);
-    fgets(Line, 255, Infile);
+    for (m = 0; m < 3; m++)
+        if (fgets(Line, 255, Infile) == NULL)
+            return NOTOK;
 
     /* Read the number of vertices N, initialize the graph, then skip N. */
-    fgets(Line, 255, Infile);
-    sscanf(Line, " %d", &N);
+    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %ld", &N) != 1)
+        return NOTOK;
 
-    if (gp_InitGraph(theGraph, N) != OK)
+    if (N < 1 || N > INT_MAX || gp_InitGraph(theGraph, (int)N) != OK)
         return NOTOK;
 
     for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        fgets(Line, 255, Infile);
+        if (fgets(Line, 255, Infile) == NULL)
+            return NOTOK;
 
     /* Read the number of edges */
-    fgets(Line, 255, Infile);
-    sscanf(Line, " %d", &M);
+    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %ld", &M) != 1 || M < 0)
+        return NOTOK;
 
     /* Read and add each edge, omitting loops and parallel edges */
     for (m = 0; m < M; m++)
     {
-        fgets(Line, 255, Infile);
-        sscanf(Line, " %d %d", &u, &v);
-        if (u != v && !gp_IsNeighbor(theGraph, u - zeroBasedOffset, v - zeroBasedOffset))
+        if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %ld %ld", &u, &v) != 2)
+            return NOTOK;
+
+        if (u < 1 || u > N || v < 1 || v > N)
+            return NOTOK;
+
+        if (u != v && !gp_IsNeighbor(theGraph, (int)u - zeroBasedOffset, (int)v - zeroBasedOffset))
         {
-            if ((ErrorCode = gp_DynamicAddEdge(theGraph, u - zeroBasedOffset, 0, v - zeroBasedOffset, 0)) != OK)
+            if ((ErrorCode = gp_DynamicAddEdge(theGraph, (int)u - zeroBasedOffset, 0, (int)v - zeroBasedOffset, 0)) != OK)
                 return ErrorCode;
         }
     }
-- 
2.43.0


From 2085c2d1c265481391ee541341e5a31a21272eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:37 +0000
Subject: [PATCH 18/62] fix: reading an empty file or no string is an error,
 and refusing a LEDA string frees the buffer

---
 c/graphLib/io/graphIO.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index adf9b7b..40a2f56 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -434,12 +434,16 @@ int gp_Read(graphP theGraph, char *FileName)
     char lineBuff[255];
     int RetVal;
 
+    if (theGraph == NULL || FileName == NULL)
+        return NOTOK;
+
     if (strcmp(FileName, "stdin") == 0)
         Infile = stdin;
     else if ((Infile = fopen(FileName, READTEXT)) == NULL)
         return NOTOK;
 
-    fgets(lineBuff, 255, Infile);
+    if (fgets(lineBuff, 255, Infile) == NULL)
+        lineBuff[0] = '\0';
     // Reset file pointer to beginning of file
     fseek(Infile, 0, SEEK_SET);
     if (strncmp(lineBuff, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
@@ -450,7 +454,7 @@ int gp_Read(graphP theGraph, char *FileName)
         if (RetVal == OK)
             extraDataAllowed = true;
     }
-    else if (isdigit(lineBuff[0]))
+    else if (isdigit((unsigned char)lineBuff[0]))
     {
         RetVal = _ReadAdjMatrix(theGraph, Infile, NULL);
         if (RetVal == OK)
@@ -534,8 +538,9 @@ int gp_ReadFromString(graphP theGraph, char *inputStr)
     bool extraDataAllowed = false;
 
     strBufP inBuf = sb_New(0);
-    if (inBuf == NULL)
+    if (theGraph == NULL || inputStr == NULL || inBuf == NULL)
     {
+        sb_Free(&inBuf);
         if (inputStr != NULL)
             free(inputStr);
         return NOTOK;
@@ -553,9 +558,7 @@ int gp_ReadFromString(graphP theGraph, char *inputStr)
 
     if (strncmp(inputStr, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
     {
-        if (inputStr != NULL)
-            free(inputStr);
-        return NOTOK;
+        RetVal = NOTOK;
     }
     else if (strncmp(inputStr, "N=", strlen("N=")) == 0)
     {
@@ -563,7 +566,7 @@ int gp_ReadFromString(graphP theGraph, char *inputStr)
         if (RetVal == OK)
             extraDataAllowed = true;
     }
-    else if (isdigit(inputStr[0]))
+    else if (isdigit((unsigned char)inputStr[0]))
     {
         RetVal = _ReadAdjMatrix(theGraph, NULL, inBuf);
         if (RetVal == OK)
-- 
2.43.0


From db5b819f3979288eb63a3c55e98d74c3fd56af71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:09 +0000
Subject: [PATCH 19/62] fix: an error while reading a graph6 file or string is
 reported to the caller

---
 c/graphLib/io/g6-read-iterator.c | 51 +++++++++++++++++---------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 55759f4..152dfe2 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -744,9 +744,7 @@ int _ReadGraphFromG6FilePath(graphP pGraphToRead, char *pathToG6File)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -756,14 +754,17 @@ int _ReadGraphFromG6FilePath(graphP pGraphToRead, char *pathToG6File)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
@@ -790,9 +791,7 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -802,14 +801,17 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
@@ -839,9 +841,7 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -851,14 +851,17 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
-- 
2.43.0


From 5803b8ef12f719394017acfe7fbf6ad57b7891e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:09 +0000
Subject: [PATCH 20/62] fix: the bytes of a four-byte graph6 order are
 validated

---
 c/graphLib/io/g6-read-iterator.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 152dfe2..3dd545c 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -377,8 +377,13 @@ int _getGraphOrder(strOrFileP g6Input, int *graphOrder)
 
 		for (int i = 2; i >= 0; i--)
 		{
-			graphChar = sf_getc(g6Input) - 63;
-			n |= graphChar << (6 * i);
+			graphChar = sf_getc(g6Input);
+			if (graphChar < 63 || graphChar > 126)
+			{
+				ErrorMessage("Invalid graph order signifier.\n");
+				return NOTOK;
+			}
+			n |= (graphChar - 63) << (6 * i);
 		}
 
 		if (n > 100000)
@@ -534,7 +539,14 @@ int _checkGraphOrder(char *graphBuff, int graphOrder)
 		int orderCharIndex = 2;
 
 		for (int i = 1; i < 4; i++)
+		{
+			if (graphBuff[i] < 63 || graphBuff[i] > 126)
+			{
+				ErrorMessage("Invalid graph order signifier.\n");
+				return NOTOK;
+			}
 			n |= (graphBuff[i] - 63) << (6 * orderCharIndex--);
+		}
 	}
 	else if (currChar > 62 && currChar < 126)
 		n = currChar - 63;
-- 
2.43.0


From 0bbd753e0607b87e6fc124ac053f3808d516d75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:09 +0000
Subject: [PATCH 21/62] fix: graphs with one vertex are written to and read
 from graph6, and a missing encoding is an error

---
 c/graphLib/io/g6-read-iterator.c  | 22 +++++++++++++++++++---
 c/graphLib/io/g6-write-iterator.c |  2 +-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 3dd545c..6cc917f 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -444,12 +444,28 @@ int readGraphUsingG6ReadIterator(G6ReadIterator *pG6ReadIterator)
 
 	char firstChar = '\0';
 	char *graphEncodingChars = NULL;
-	if (sf_fgets(currGraphBuff, currGraphBuffSize, g6Input) != NULL)
+	char *line = sf_fgets(currGraphBuff, currGraphBuffSize, g6Input);
+
+	// The order of the first graph was read when the iteration began, so its
+	// encoding must follow; it is empty if the graph has only one vertex.
+	if (line == NULL && numGraphsRead == 0)
+	{
+		if (numCharsForGraphEncoding > 0)
+		{
+			ErrorMessage("The .g6 input ends before the encoding of the first graph.\n");
+			return NOTOK;
+		}
+
+		currGraphBuff[0] = '\0';
+		line = currGraphBuff;
+	}
+
+	if (line != NULL)
 	{
 		numGraphsRead++;
 		firstChar = currGraphBuff[0];
 
-		if (!_firstCharIsValid(firstChar, numGraphsRead))
+		if (firstChar != '\0' && !_firstCharIsValid(firstChar, numGraphsRead))
 			return NOTOK;
 
 		// From https://stackoverflow.com/a/28462221, strcspn finds the index of the first
@@ -599,7 +615,7 @@ int _validateGraphEncoding(char *graphBuff, const int graphOrder, const int numC
 	// Check that there are no extraneous bits in representation (since we pad out to a
 	// multiple of 6 before splitting into bytes and adding 63 to each byte)
 	int expectedNumPaddingZeroes = _getExpectedNumPaddingZeroes(graphOrder, numChars);
-	char finalByte = graphBuff[numChars - 1] - 63;
+	char finalByte = numChars > 0 ? graphBuff[numChars - 1] - 63 : 0;
 	int numPaddingZeroes = 0;
 	for (int i = 0; i < expectedNumPaddingZeroes; i++)
 	{
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 44f0691..f65f116 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -323,7 +323,7 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 			g6Encoding[3 - i] = intermediate & 63;
 			g6Encoding[3 - i] += 63;
 		}
-	} else if (graphOrder > 1 && graphOrder < 63) {
+	} else if (graphOrder > 0 && graphOrder < 63) {
 		g6Encoding[0] = graphOrder + 63;
 	}
 
-- 
2.43.0


From 68658fefb4f5abec97aecd33ba8644802a1c6d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:48 +0000
Subject: [PATCH 22/62] fix: graph6 sizes are computed without integer overflow
 for large orders

---
 c/graphLib/io/g6-api-utilities.c  | 12 ++++++------
 c/graphLib/io/g6-api-utilities.h  |  2 +-
 c/graphLib/io/g6-write-iterator.c | 16 +++++++++++-----
 c/graphLib/io/g6-write-iterator.h |  4 ++--
 4 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/c/graphLib/io/g6-api-utilities.c b/c/graphLib/io/g6-api-utilities.c
index 99d6c3e..1cf73cc 100644
--- a/c/graphLib/io/g6-api-utilities.c
+++ b/c/graphLib/io/g6-api-utilities.c
@@ -6,16 +6,16 @@ See the LICENSE.TXT file for licensing information.
 
 #include "g6-api-utilities.h"
 
-int _getMaxEdgeCount(int graphOrder)
+long long _getMaxEdgeCount(int graphOrder)
 {
-	return (graphOrder * (graphOrder - 1)) / 2;
+	return ((long long) graphOrder * (graphOrder - 1)) / 2;
 }
 
 int _getNumCharsForGraphEncoding(int graphOrder)
 {
-	int maxNumEdges = _getMaxEdgeCount(graphOrder);
+	long long maxNumEdges = _getMaxEdgeCount(graphOrder);
 
-	return (maxNumEdges / 6) + (maxNumEdges % 6 ? 1 : 0);
+	return (int) ((maxNumEdges / 6) + (maxNumEdges % 6 ? 1 : 0));
 }
 
 int _getNumCharsForGraphOrder(int graphOrder)
@@ -31,8 +31,8 @@ int _getNumCharsForGraphOrder(int graphOrder)
 
 int _getExpectedNumPaddingZeroes(const int graphOrder, const int numChars)
 {
-	int maxNumEdges = _getMaxEdgeCount(graphOrder);
-	int expectedNumPaddingZeroes = numChars * 6 - maxNumEdges;
+	long long maxNumEdges = _getMaxEdgeCount(graphOrder);
+	int expectedNumPaddingZeroes = (int) (numChars * 6LL - maxNumEdges);
 
 	return expectedNumPaddingZeroes;
 }
diff --git a/c/graphLib/io/g6-api-utilities.h b/c/graphLib/io/g6-api-utilities.h
index ae6de29..78c2d89 100644
--- a/c/graphLib/io/g6-api-utilities.h
+++ b/c/graphLib/io/g6-api-utilities.h
@@ -11,7 +11,7 @@ See the LICENSE.TXT file for licensing information.
 extern "C" {
 #endif
 
-int _getMaxEdgeCount(int);
+long long _getMaxEdgeCount(int);
 int _getNumCharsForGraphEncoding(int);
 int _getNumCharsForGraphOrder(int);
 int _getExpectedNumPaddingZeroes(const int, const int);
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index f65f116..2c80496 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -200,6 +200,12 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 {
 	int exitCode = OK;
 
+	if (_getNumCharsForGraphOrder(pG6WriteIterator->currGraph->N) < 0)
+	{
+		ErrorMessage("Graph order is too large; we only support n <= 100000.\n");
+		return NOTOK;
+	}
+
 	char *g6Header = ">>graph6<<";
 	if (sf_fputs(g6Header, pG6WriteIterator->g6Output) < 0)
 	{
@@ -209,7 +215,7 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 
 	pG6WriteIterator->graphOrder = pG6WriteIterator->currGraph->N;
 
-	pG6WriteIterator->columnOffsets = (int *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(int));
+	pG6WriteIterator->columnOffsets = (long long *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(long long));
 
 	if ( pG6WriteIterator->columnOffsets == NULL)
 	{
@@ -234,7 +240,7 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 	return exitCode;
 }
 
-void _precomputeColumnOffsets(int *columnOffsets, int graphOrder)
+void _precomputeColumnOffsets(long long *columnOffsets, int graphOrder)
 {
 	if (columnOffsets == NULL)
 	{
@@ -290,7 +296,7 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		return NOTOK;
 	}
 
-	int *columnOffsets = pG6WriteIterator->columnOffsets;
+	long long *columnOffsets = pG6WriteIterator->columnOffsets;
 	if (columnOffsets == NULL)
 	{
 		ErrorMessage("Column offsets array is not allocated.\n");
@@ -363,8 +369,8 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		// bit to set in that byte by left-shifting 1 by (5 - ((columnOffsets[v] + u) % 6))
 		// (transforming the ((columnOffsets[v] + u) % 6)th bit from the left to the
 		// (5 - ((columnOffsets[v] + u) % 6))th bit from the right)
-		charOffset = numCharsForGraphOrder + ((columnOffsets[v] + u) / 6);
-		bitPositionPower = 5 - ((columnOffsets[v] + u) % 6);
+		charOffset = numCharsForGraphOrder + (int) ((columnOffsets[v] + u) / 6);
+		bitPositionPower = 5 - (int) ((columnOffsets[v] + u) % 6);
 
 		g6Encoding[charOffset] |= (1u << bitPositionPower);
 
diff --git a/c/graphLib/io/g6-write-iterator.h b/c/graphLib/io/g6-write-iterator.h
index b3314aa..6b88b0c 100644
--- a/c/graphLib/io/g6-write-iterator.h
+++ b/c/graphLib/io/g6-write-iterator.h
@@ -29,7 +29,7 @@ extern "C"
 		int currGraphBuffSize;
 		char *currGraphBuff;
 
-		int *columnOffsets;
+		long long *columnOffsets;
 
 		graphP currGraph;
 	} G6WriteIterator;
@@ -45,7 +45,7 @@ extern "C"
 	int beginG6WriteIterationToG6FilePointer(G6WriteIterator *pG6WriteIterator, FILE *g6Outfile);
 	int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6OutputStr);
 	int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator);
-	void _precomputeColumnOffsets(int *, int);
+	void _precomputeColumnOffsets(long long *, int);
 
 	int writeGraphUsingG6WriteIterator(G6WriteIterator *);
 
-- 
2.43.0


From 27db16dda3f80c9df5eb0e73848f051648491606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:48 +0000
Subject: [PATCH 23/62] fix: writing a digraph in graph6 format is refused

---
 c/graphLib/io/g6-write-iterator.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 2c80496..6339e56 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -333,6 +333,16 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		g6Encoding[0] = graphOrder + 63;
 	}
 
+	// Only undirected graphs can be expressed in the .g6 format
+	for (int arc = gp_GetFirstEdge(pGraph); arc < gp_EdgeInUseIndexBound(pGraph); arc++)
+	{
+		if (gp_EdgeInUse(pGraph, arc) && gp_GetDirection(pGraph, arc))
+		{
+			ErrorMessage("Unable to encode graph, as it contains a directed edge.\n");
+			return NOTOK;
+		}
+	}
+
 	int u = NIL, v = NIL, e = NIL;
 	exitCode = _getFirstEdge(pGraph, &e, &u, &v);
 
-- 
2.43.0


From e5f0e59b40e25231e15d5f04a25081af27ba71c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:48 +0000
Subject: [PATCH 24/62] fix: the graphs written by a G6WriteIterator are put on
 separate lines and counted

---
 c/graphLib/io/g6-write-iterator.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 6339e56..f758642 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -305,9 +305,9 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 
 	graphP pGraph = pG6WriteIterator->currGraph;
 
-	if (pGraph == NULL || pGraph->N == 0)
+	if (pGraph == NULL || pGraph->N != pG6WriteIterator->graphOrder)
 	{
-		ErrorMessage("Graph is not allocated.\n");
+		ErrorMessage("Graph is not allocated or does not have the order of the graphs being written.\n");
 		return NOTOK;
 	}
 
@@ -471,11 +471,20 @@ int _printEncodedGraph(G6WriteIterator *pG6WriteIterator)
 		return NOTOK;
 	}
 
+	// Each graph after the first begins on a new line
+	if (pG6WriteIterator->numGraphsWritten > 0 && sf_fputs("\n", pG6WriteIterator->g6Output) < 0)
+	{
+		ErrorMessage("Failed to output the line end before the g6 encoding.\n");
+		return NOTOK;
+	}
+
 	if (sf_fputs(pG6WriteIterator->currGraphBuff, pG6WriteIterator->g6Output) < 0)
 	{
 		ErrorMessage("Failed to output all characters of g6 encoding.\n");
 		exitCode = NOTOK;
 	}
+	else
+		pG6WriteIterator->numGraphsWritten++;
 
 	return exitCode;
 }
-- 
2.43.0


From ec7bf14a0ba3b6831db5e41ab098ab5ae940ac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:48 +0000
Subject: [PATCH 25/62] fix: writing graph6 no longer writes extra data to a
 closed file, nor uses an uninitialized output string

---
 c/graphLib/io/g6-write-iterator.c |  4 ++++
 c/graphLib/io/graphIO.c           | 13 ++++++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index f758642..05b17ec 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -686,7 +686,11 @@ int _WriteGraphToG6String(graphP pGraph, char **g6OutputStr)
 	exitCode = writeGraphUsingG6WriteIterator(pG6WriteIterator);
 
 	if (exitCode != OK)
+	{
+		// The output string is freed along with the iterator
+		(*g6OutputStr) = NULL;
 		ErrorMessage("Unable to write graph using G6WriteIterator.\n");
+	}
 	else
 	{
 		(*g6OutputStr) = sf_takeTheStr(pG6WriteIterator->g6Output);
diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 40a2f56..0a9a268 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -926,9 +926,8 @@ int gp_Write(graphP theGraph, char *FileName, int Mode)
     case WRITE_G6:
         RetVal = _WriteGraphToG6FilePointer(theGraph, Outfile);
         // Since G6WriteIterator closes Outfile, we don't want
-        // to try to fclose() again.
-        Outfile = NULL;
-        break;
+        // to try to fclose() again. There is no extra data in .g6 format.
+        return RetVal;
     case WRITE_ADJLIST:
         RetVal = _WriteAdjList(theGraph, Outfile, NULL);
         break;
@@ -988,6 +987,9 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
     int RetVal;
     strBufP outBuf = sb_New(0);
 
+    if (pOutputStr != NULL)
+        *pOutputStr = NULL;
+
     if (theGraph == NULL || pOutputStr == NULL || outBuf == NULL)
     {
         sb_Free(&outBuf);
@@ -999,7 +1001,8 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
     case WRITE_G6:
         RetVal = _WriteGraphToG6String(theGraph, pOutputStr);
         sb_Free(&outBuf);
-        break;
+        // There is no extra data in .g6 format.
+        return RetVal;
     case WRITE_ADJLIST:
         RetVal = _WriteAdjList(theGraph, NULL, outBuf);
         break;
@@ -1026,7 +1029,7 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
         }
     }
 
-    if (outBuf != NULL)
+    if (RetVal == OK)
         *pOutputStr = sb_TakeString(outBuf);
     sb_Free(&outBuf);
 
-- 
2.43.0


From 5bc48ccdf279851629672bb59fd5a849321c50b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:48 +0000
Subject: [PATCH 26/62] fix: refusing to write a digraph as an adjacency matrix
 frees the row buffer

---
 c/graphLib/io/graphIO.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 0a9a268..ba98589 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -730,7 +730,10 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         while (gp_IsArc(e))
         {
             if (gp_GetDirection(theGraph, e) == EDGEFLAG_DIRECTION_INONLY)
+            {
+                free(Row);
                 return NOTOK;
+            }
 
             if (gp_GetNeighbor(theGraph, e) > v)
                 Row[gp_GetNeighbor(theGraph, e) - gp_GetFirstVertex(theGraph)] = '1';
-- 
2.43.0


From d977bae236df08b69b4fa9c3d792a1e7e5176d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:48 +0000
Subject: [PATCH 27/62] fix: a string buffer is read from its start after its
 content was taken or replaced by a copy

---
 c/graphLib/io/strbuf.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index 9bf6f7b..e057c51 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -107,6 +107,7 @@ int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
     sb_Free(&newStrBuf);
 
     strBufDst->size = strBufSrc->size;
+    strBufDst->readPos = 0;
     strBufDst->capacity = strBufSrc->capacity;
 
     return OK;
@@ -122,7 +123,7 @@ int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
  ********************************************************************/
 strBufP sb_Duplicate(strBufP theStrBuf)
 {
-    strBufP newStrBuf = sb_New(theStrBuf->capacity);
+    strBufP newStrBuf = theStrBuf == NULL ? NULL : sb_New(theStrBuf->capacity);
 
     if (newStrBuf == NULL)
         return NULL;
@@ -240,8 +241,9 @@ char *sb_TakeString(strBufP theStrBuf)
 
     theBuf = theStrBuf->buf;
     theStrBuf->buf = (char *)malloc(sizeof(char));
-    theStrBuf->buf[0] = '\0';
-    theStrBuf->size = theStrBuf->capacity = 0;
+    if (theStrBuf->buf != NULL)
+        theStrBuf->buf[0] = '\0';
+    theStrBuf->size = theStrBuf->capacity = theStrBuf->readPos = 0;
 
     return theBuf;
 }
-- 
2.43.0


From 4eb9638a5a683530c14f780717c78f87054e45c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:30 +0000
Subject: [PATCH 28/62] fix: a graph6 file or string that cannot be read is
 closed or freed

---
 c/graphLib/io/g6-read-iterator.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 6cc917f..37a81b1 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -41,6 +41,8 @@ int allocateG6ReadIterator(G6ReadIterator **ppG6ReadIterator, graphP pGraph)
 
 		if (exitCode != OK)
 			ErrorMessage("Unable to free the G6ReadIterator.\n");
+
+		exitCode = NOTOK;
 	}
 	else
 	{
@@ -133,6 +135,10 @@ int beginG6ReadIterationFromG6FilePath(G6ReadIterator *pG6ReadIterator, char *g6
 
 	exitCode = beginG6ReadIterationFromG6FilePointer(pG6ReadIterator, g6Infile);
 
+	// If the file was not handed over to the iterator, then it must be closed here
+	if (exitCode != OK && pG6ReadIterator->g6Input == NULL)
+		fclose(g6Infile);
+
 	return exitCode;
 }
 
@@ -810,6 +816,8 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+		if (g6Infile != NULL && g6Infile != stdin)
+			fclose(g6Infile);
 		return exitCode;
 	}
 
@@ -819,6 +827,10 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
+		// If the file was not handed over to the iterator, then it must be closed here
+		if (pG6ReadIterator->g6Input == NULL && g6Infile != NULL && g6Infile != stdin)
+			fclose(g6Infile);
+
 		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
@@ -851,6 +863,8 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (g6EncodedString == NULL || strlen(g6EncodedString) == 0)
 	{
 		ErrorMessage("Input string is empty.\n");
+		if (g6EncodedString != NULL)
+			free(g6EncodedString);
 		return NOTOK;
 	}
 
@@ -860,6 +874,7 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+		free(g6EncodedString);
 		return exitCode;
 	}
 
@@ -869,6 +884,10 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
+		// If the string was not handed over to the iterator, then it must be freed here
+		if (pG6ReadIterator->g6Input == NULL)
+			free(g6EncodedString);
+
 		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
-- 
2.43.0


From ec50c8248c3bbe68033b9bfd90593495b5ebd30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:30 +0000
Subject: [PATCH 29/62] fix: a file or string is closed or freed when writing
 graph6 to it cannot begin

---
 c/graphLib/io/g6-write-iterator.c | 38 +++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 05b17ec..ebda330 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -43,6 +43,8 @@ int allocateG6WriteIterator(G6WriteIterator **ppG6WriteIterator, graphP pGraph)
 
 		if (exitCode != OK)
 			ErrorMessage("Unable to free the G6WriteIterator.\n");
+
+		exitCode = NOTOK;
 	}
 	else
 		(*ppG6WriteIterator)->currGraph = pGraph;
@@ -145,8 +147,14 @@ int beginG6WriteIterationToG6FilePath(G6WriteIterator *pG6WriteIterator, char *g
 	exitCode = beginG6WriteIterationToG6FilePointer(pG6WriteIterator, g6Outfile);
 
 	if (exitCode != OK)
+	{
 		ErrorMessage("Unable to begin write iteration from .g6 file pointer corresponding to given file path.\n");
 
+		// If the file was not handed over to the iterator, then it must be closed here
+		if (pG6WriteIterator->g6Output == NULL)
+			fclose(g6Outfile);
+	}
+
 	return exitCode;
 }
 
@@ -162,6 +170,12 @@ int beginG6WriteIterationToG6FilePointer(G6WriteIterator *pG6WriteIterator, FILE
 
 	pG6WriteIterator->g6Output = sf_New(g6Outfile, NULL);
 
+	if (pG6WriteIterator->g6Output == NULL)
+	{
+		ErrorMessage("Unable to allocate string-or-file container.\n");
+		return NOTOK;
+	}
+
 	exitCode = _beginG6WriteIteration(pG6WriteIterator);
 
 	if (exitCode != OK)
@@ -183,11 +197,22 @@ int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6
 	if ((*g6OutputStr) == NULL)
 	{
 		(*g6OutputStr) = (char *) malloc(1 * sizeof(char));
+		if ((*g6OutputStr) == NULL)
+		{
+			ErrorMessage("Unable to allocate memory for .g6 output string.\n");
+			return NOTOK;
+		}
 		(*g6OutputStr)[0] = '\0';
 	}
 
 	pG6WriteIterator->g6Output = sf_New(NULL, (*g6OutputStr));
 
+	if (pG6WriteIterator->g6Output == NULL)
+	{
+		ErrorMessage("Unable to allocate string-or-file container.\n");
+		return NOTOK;
+	}
+
 	exitCode = _beginG6WriteIteration(pG6WriteIterator);
 
 	if (exitCode != OK)
@@ -618,6 +643,8 @@ int _WriteGraphToG6FilePointer(graphP pGraph, FILE *g6Outfile)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6WriteIterator.\n");
+		if (g6Outfile != NULL && g6Outfile != stdout && g6Outfile != stderr)
+			fclose(g6Outfile);
 		freeG6WriteIterator(&pG6WriteIterator);
 		return exitCode;
 	}
@@ -627,6 +654,11 @@ int _WriteGraphToG6FilePointer(graphP pGraph, FILE *g6Outfile)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to begin G6 write iteration.\n");
+
+		// If the file was not handed over to the iterator, then it must be closed here
+		if (pG6WriteIterator->g6Output == NULL && g6Outfile != NULL && g6Outfile != stdout && g6Outfile != stderr)
+			fclose(g6Outfile);
+
 		freeG6WriteIterator(&pG6WriteIterator);
 		return exitCode;
 	}
@@ -679,6 +711,12 @@ int _WriteGraphToG6String(graphP pGraph, char **g6OutputStr)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to begin G6 write iteration.\n");
+
+		// The output string is freed here or along with the iterator
+		if (pG6WriteIterator->g6Output == NULL && (*g6OutputStr) != NULL)
+			free((*g6OutputStr));
+		(*g6OutputStr) = NULL;
+
 		freeG6WriteIterator(&pG6WriteIterator);
 		return exitCode;
 	}
-- 
2.43.0


From 0f936eaee2f2a1c9e39b71368423b1f62ed2b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:30 +0000
Subject: [PATCH 30/62] fix: running out of memory while writing to a string is
 reported

---
 c/graphLib/io/graphIO.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index ba98589..c1b339e 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -747,8 +747,11 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         // Write the row to the file or string buffer
         if (Outfile != NULL)
             fprintf(Outfile, "%s", Row);
-        else
-            sb_ConcatString(outBuf, Row);
+        else if (sb_ConcatString(outBuf, Row) != OK)
+        {
+            free(Row);
+            return NOTOK;
+        }
     }
 
     free(Row);
@@ -1027,13 +1030,21 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
         if (extraData != NULL)
         {
             for (int i = 0; i < extraDataSize; i++)
-                sb_ConcatChar(outBuf, ((char *)extraData)[i]);
+                if (sb_ConcatChar(outBuf, ((char *)extraData)[i]) != OK)
+                {
+                    RetVal = NOTOK;
+                    break;
+                }
             free(extraData);
         }
     }
 
     if (RetVal == OK)
+    {
         *pOutputStr = sb_TakeString(outBuf);
+        if (*pOutputStr == NULL)
+            RetVal = NOTOK;
+    }
     sb_Free(&outBuf);
 
     return RetVal;
-- 
2.43.0


From 5c08253229c2d2bbb58dfcfc7f3cebc31ccdf321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:31 +0000
Subject: [PATCH 31/62] fix: an order too large for the graph's data structures
 is refused instead of overflowing

---
 c/graphLib/graphUtils.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 9dfb9ea..378f18f 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -5,6 +5,7 @@ See the LICENSE.TXT file for licensing information.
 */
 
 #include <stdlib.h>
+#include <limits.h>
 
 #include "graphStructures.h"
 #include "graph.h"
@@ -194,6 +195,10 @@ int gp_InitGraph(graphP theGraph, int N)
     if (theGraph == NULL || N <= 0)
         return NOTOK;
 
+    // The sizes of the graph's data structures must be expressible as integers
+    if (N > INT_MAX / (8 * DEFAULT_EDGE_LIMIT))
+        return NOTOK;
+
     // Should not call init a second time; use reinit
     if (theGraph->N)
         return NOTOK;
-- 
2.43.0


From 6b046a820253f6a3c2af5fe318790e9ae317ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:19 +0000
Subject: [PATCH 32/62] fix: sf_fgets with room for no character does not write
 in front of the buffer

---
 c/graphLib/io/strOrFile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/io/strOrFile.c b/c/graphLib/io/strOrFile.c
index 314e315..5fc5183 100644
--- a/c/graphLib/io/strOrFile.c
+++ b/c/graphLib/io/strOrFile.c
@@ -113,7 +113,7 @@ char sf_ungetc(char theChar, strOrFileP theStrOrFile)
  ********************************************************************/
 char *sf_fgets(char *str, int count, strOrFileP theStrOrFile)
 {
-	if (str == NULL || count < 0 || theStrOrFile == NULL)
+	if (str == NULL || count <= 0 || theStrOrFile == NULL)
 		return NULL;
 
 	if (theStrOrFile->pFile != NULL)
-- 
2.43.0


From 138d16e931b9cb842699a69f18ef44f0932ab1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:30 +0000
Subject: [PATCH 33/62] fix: a graph that was DFS numbered or embedded before
 can be edited and embedded again

---
 c/graphLib/planarityRelated/graphEmbed.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/c/graphLib/planarityRelated/graphEmbed.c b/c/graphLib/planarityRelated/graphEmbed.c
index 2c01899..adfb895 100644
--- a/c/graphLib/planarityRelated/graphEmbed.c
+++ b/c/graphLib/planarityRelated/graphEmbed.c
@@ -16,6 +16,7 @@ extern int _IsolateKuratowskiSubgraph(graphP theGraph, int v, int R);
 extern int _IsolateOuterplanarObstruction(graphP theGraph, int v, int R);
 
 extern void _InitVertexRec(graphP theGraph, int v);
+extern void _InitVertexInfo(graphP theGraph, int v);
 
 /* Private functions (some are exported to system only) */
 
@@ -184,6 +185,20 @@ int _EmbeddingInitialize(graphP theGraph)
 
     _ClearVertexVisitedFlags(theGraph, FALSE);
 
+    // If the graph was already DFS numbered, by gp_CreateDFSTree() or a prior embedding,
+    // then the DFS below replaces that numbering, so the prior results have to be cleared.
+    if (theGraph->internalFlags & FLAGS_DFSNUMBERED)
+    {
+        for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+            _InitVertexInfo(theGraph, v);
+
+        for (e = gp_GetFirstEdge(theGraph); e < gp_EdgeInUseIndexBound(theGraph); e++)
+        {
+            gp_ClearEdgeType(theGraph, e);
+            gp_ClearEdgeFlagInverted(theGraph, e);
+        }
+    }
+
     // This outer loop processes each connected component of a disconnected graph
     // No need to compare v < N since DFI will reach N when inner loop processes the
     // last connected component in the graph
-- 
2.43.0


From 711b7e3963b9af2904efc333d4537d757a55e19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:44 +0000
Subject: [PATCH 34/62] fix: the graph's stack is empty after an embedding, so
 that vertices hidden then can be restored

---
 c/graphLib/planarityRelated/graphEmbed.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/planarityRelated/graphEmbed.c b/c/graphLib/planarityRelated/graphEmbed.c
index adfb895..04a7f92 100644
--- a/c/graphLib/planarityRelated/graphEmbed.c
+++ b/c/graphLib/planarityRelated/graphEmbed.c
@@ -136,7 +136,13 @@ int gp_Embed(graphP theGraph, int embedFlags)
     // Postprocessing to orient the embedding and merge any remaining separated bicomps.
     // Some extension algorithms may overload this function, e.g. to do nothing if they
     // have no need of an embedding.
-    return theGraph->functions.fpEmbedPostprocess(theGraph, v, RetVal);
+    RetVal = theGraph->functions.fpEmbedPostprocess(theGraph, v, RetVal);
+
+    // An embedder may be stopped with content left on the graph's stack, but gp_RestoreVertices()
+    // expects the stack to contain only what was pushed by hiding or identifying vertices.
+    sp_ClearStack(theGraph->theStack);
+
+    return RetVal;
 }
 
 /********************************************************************
-- 
2.43.0


From 20189c07d410c630379a042a44e2e914891a66c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:27 +0000
Subject: [PATCH 35/62] fix: a K3,3 search clears the data of a prior search on
 the same graph

---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 704e507..1591729 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -373,6 +373,11 @@ int  _K33Search_EmbeddingInitialize(graphP theGraph)
 
         if (theGraph->embedFlags == EMBEDFLAGS_SEARCHFORK33)
         {
+        	// Clear the data of any prior search, which is incorrect if the graph was changed since
+        	_K33Search_InitStructures(context);
+        	LCReset(context->separatedDFSChildLists);
+        	LCReset(context->bin);
+
         	_CreateBackArcLists(theGraph, context);
         	_CreateSeparatedDFSChildLists(theGraph, context);
         }
-- 
2.43.0


From 0eadf035e7f033a0261d99979288f6f5fd06be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:22 +0000
Subject: [PATCH 36/62] fix: the vertex info of a graph is not freed a second
 time after a failed initialization

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 378f18f..bee87b3 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -839,7 +839,7 @@ void _ClearGraph(graphP theGraph)
     if (theGraph->VI != NULL)
     {
         free(theGraph->VI);
-        theGraph->V = NULL;
+        theGraph->VI = NULL;
     }
     if (theGraph->E != NULL)
     {
-- 
2.43.0


From e72b7bab825a12385fe5d2e999bdadff91c0a21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:22 +0000
Subject: [PATCH 37/62] fix: a graph keeps its edges when there is not enough
 memory for more

---
 c/graphLib/graphUtils.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index bee87b3..edf045b 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -430,6 +430,7 @@ int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
 int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
 {
     stackP newStack;
+    edgeRecP newE;
     int e, Esize = gp_EdgeIndexBound(theGraph),
            newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity,
            stackSize;
@@ -464,10 +465,12 @@ int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
     theGraph->edgeHoles = newStack;
 
     // Reallocate the edgeRec array to the new size,
-    theGraph->E = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
-    if (theGraph->E == NULL)
+    newE = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
+    if (newE == NULL)
         return NOTOK;
 
+    theGraph->E = newE;
+
     // Initialize the new edge records
     for (e = Esize; e < newEsize; e++)
         _InitEdgeRec(theGraph, e);
-- 
2.43.0


From 7cc7c9326941d762e04a720c22b0a9684b44d393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:22 +0000
Subject: [PATCH 38/62] fix: copying a graph fails if the data of an extension
 cannot be copied

---
 c/graphLib/extensionSystem/graphExtensions.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/extensionSystem/graphExtensions.c b/c/graphLib/extensionSystem/graphExtensions.c
index d3eba63..83bb413 100644
--- a/c/graphLib/extensionSystem/graphExtensions.c
+++ b/c/graphLib/extensionSystem/graphExtensions.c
@@ -486,7 +486,13 @@ int gp_CopyExtensions(graphP dstGraph, graphP srcGraph)
         }
 
         newNext->moduleID = next->moduleID;
-        newNext->context = next->dupContext(next->context, dstGraph);
+        if ((newNext->context = next->dupContext(next->context, dstGraph)) == NULL)
+        {
+            free(newNext);
+            gp_FreeExtensions(dstGraph);
+            return NOTOK;
+        }
+
         newNext->dupContext = next->dupContext;
         newNext->freeContext = next->freeContext;
         // The table of overloads is stored in the context, so the new
-- 
2.43.0


From 05ca636bd3f96c87ff895f02396273f4d4332c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:22 +0000
Subject: [PATCH 39/62] fix: an extension that cannot be attached for lack of
 memory is removed again

---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 3 ++-
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 3 ++-
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 1591729..47bbfb0 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -130,7 +130,8 @@ int  gp_AttachK33Search(graphP theGraph)
          if (_K33Search_CreateStructures(context) != OK ||
              _K33Search_InitStructures(context) != OK)
          {
-             _K33Search_FreeContext(context);
+             // This also frees the context
+             gp_RemoveExtension(theGraph, K33SEARCH_ID);
              return NOTOK;
          }
      }
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 4b98945..472d255 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -118,7 +118,8 @@ int  gp_AttachK4Search(graphP theGraph)
          if (_K4Search_CreateStructures(context) != OK ||
              _K4Search_InitStructures(context) != OK)
          {
-             _K4Search_FreeContext(context);
+             // This also frees the context
+             gp_RemoveExtension(theGraph, K4SEARCH_ID);
              return NOTOK;
          }
      }
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 9353661..d8ef74f 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -143,7 +143,8 @@ int  gp_AttachDrawPlanar(graphP theGraph)
          if (_DrawPlanar_CreateStructures(context) != OK ||
              _DrawPlanar_InitStructures(context) != OK)
          {
-             _DrawPlanar_FreeContext(context);
+             // This also frees the context
+             gp_RemoveExtension(theGraph, DRAWPLANAR_ID);
              return NOTOK;
          }
      }
-- 
2.43.0


From 37d1fdf04e13a31f1273e535de93a801b846a475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:22 +0000
Subject: [PATCH 40/62] fix: initializing a graph with extensions reports and
 cleans up a lack of memory

---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 9 ++++++---
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 9 ++++++---
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 8 +++++---
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 47bbfb0..de305e0 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -9,6 +9,8 @@ See the LICENSE.TXT file for licensing information.
 #include "graphK33Search.private.h"
 #include "graphK33Search.h"
 
+extern void _ClearGraph(graphP theGraph);
+
 extern int  _SearchForMergeBlocker(graphP theGraph, K33SearchContext *context, int v, int *pMergeBlocker);
 extern int  _FindK33WithMergeBlocker(graphP theGraph, K33SearchContext *context, int v, int mergeBlocker);
 extern int  _SearchForK33InBicomp(graphP theGraph, K33SearchContext *context, int v, int R);
@@ -261,11 +263,12 @@ int  _K33Search_InitGraph(graphP theGraph, int N)
 
 	if (_K33Search_CreateStructures(context) != OK ||
 		_K33Search_InitStructures(context) != OK)
+	{
+		_ClearGraph(theGraph);
 		return NOTOK;
+	}
 
-	context->functions.fpInitGraph(theGraph, N);
-
-    return OK;
+	return context->functions.fpInitGraph(theGraph, N);
 }
 
 /********************************************************************
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 472d255..67b2c76 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -9,6 +9,8 @@ See the LICENSE.TXT file for licensing information.
 #include "graphK4Search.private.h"
 #include "graphK4Search.h"
 
+extern void _ClearGraph(graphP theGraph);
+
 extern int  _SearchForK4InBicomp(graphP theGraph, K4SearchContext *context, int v, int R);
 
 extern int _TestForCompleteGraphObstruction(graphP theGraph, int numVerts,
@@ -220,11 +222,12 @@ int  _K4Search_InitGraph(graphP theGraph, int N)
 
 	if (_K4Search_CreateStructures(context) != OK ||
 		_K4Search_InitStructures(context) != OK)
+	{
+		_ClearGraph(theGraph);
 		return NOTOK;
+	}
 
-	context->functions.fpInitGraph(theGraph, N);
-
-    return OK;
+	return context->functions.fpInitGraph(theGraph, N);
 }
 
 /********************************************************************
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index d8ef74f..ea95202 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -9,6 +9,7 @@ See the LICENSE.TXT file for licensing information.
 #include "graphDrawPlanar.private.h"
 #include "graphDrawPlanar.h"
 
+extern void _ClearGraph(graphP theGraph);
 extern void _ClearVertexVisitedFlags(graphP theGraph, int);
 
 extern void _CollectDrawingData(DrawPlanarContext *context, int RootVertex, int W, int WPrevLink);
@@ -314,11 +315,12 @@ int  _DrawPlanar_InitGraph(graphP theGraph, int N)
 
 	if (_DrawPlanar_CreateStructures(context) != OK ||
 		_DrawPlanar_InitStructures(context) != OK)
+	{
+		_ClearGraph(theGraph);
 		return NOTOK;
+	}
 
-	context->functions.fpInitGraph(theGraph, N);
-
-    return OK;
+	return context->functions.fpInitGraph(theGraph, N);
 }
 
 /********************************************************************
-- 
2.43.0


From 53c3686ffb16c315ec377141eaf2c19bc570bd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:22 +0000
Subject: [PATCH 41/62] fix: copying a graph fails if one of its stacks cannot
 be copied

---
 c/graphLib/graphUtils.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index edf045b..f589c3c 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -937,9 +937,8 @@ int gp_CopyAdjacencyLists(graphP dstGraph, graphP srcGraph)
 
     // Tell the dstGraph how many edges it now has and where the edge holes are
     dstGraph->M = srcGraph->M;
-    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
 
-    return OK;
+    return sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
 }
 
 /********************************************************************
@@ -1016,8 +1015,12 @@ int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
 
     LCCopy(dstGraph->BicompRootLists, srcGraph->BicompRootLists);
     LCCopy(dstGraph->sortedDFSChildLists, srcGraph->sortedDFSChildLists);
-    sp_Copy(dstGraph->theStack, srcGraph->theStack);
-    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
+
+    if (sp_Copy(dstGraph->theStack, srcGraph->theStack) != OK ||
+        sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles) != OK)
+    {
+        return NOTOK;
+    }
 
     // Copy the set of extensions, which includes copying the
     // extension data as well as the function overload tables
-- 
2.43.0


From 19d273f7cc96e69c8348c5528b671c1605756a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:17 +0000
Subject: [PATCH 42/62] fix: random numbers are computed without signed
 overflow

---
 c/graphLib/graphUtils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index f589c3c..15c57a9 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1137,7 +1137,7 @@ int gp_CreateRandomGraph(graphP theGraph)
 
 int _GetRandomNumber(int NMin, int NMax)
 {
-    int N = rand();
+    unsigned int N = (unsigned int)rand();
 
     if (NMax < NMin)
         return NMin;
@@ -1145,8 +1145,8 @@ int _GetRandomNumber(int NMin, int NMax)
     N += ((N & 0xFFFF0000) >> 16);
     N += ((N & 0x0000FF00) >> 8);
     N &= 0x7FFFFFF;
-    N %= (NMax - NMin + 1);
-    return N + NMin;
+    N %= (unsigned int)(NMax - NMin + 1);
+    return (int)N + NMin;
 }
 
 /********************************************************************
-- 
2.43.0


From f173574915900749142ffd9287c1357b2c1144ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:27 +0000
Subject: [PATCH 43/62] fix: a request for more random edges than a simple
 graph can have ends with a complete graph

---
 c/graphLib/graphUtils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 15c57a9..da844da 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1241,6 +1241,10 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
     if (numEdges > theGraph->arcCapacity / 2)
         numEdges = theGraph->arcCapacity / 2;
 
+    // A simple graph cannot have more edges than a complete graph
+    if (numEdges > (long long)N * (N - 1) / 2)
+        numEdges = N * (N - 1) / 2;
+
     /* Generate a random tree. */
 
     for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
-- 
2.43.0


From 072fc5e07c6ecaff8c77acfb99d2515d77c0b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:27 +0000
Subject: [PATCH 44/62] fix: the number of edges of a large random graph is not
 limited by an overflow

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index da844da..3fe4dab 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1102,7 +1102,7 @@ int gp_CreateRandomGraph(graphP theGraph)
 
     M = _GetRandomNumber(7 * N / 8, theGraph->arcCapacity / 2);
 
-    if (M > N * (N - 1) / 2)
+    if (M > (long long)N * (N - 1) / 2)
         M = N * (N - 1) / 2;
 
     for (m = N - 1; m < M; m++)
-- 
2.43.0


From 97b23374f14d5ebe3daf703e51145382bc6c33de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:06 +0000
Subject: [PATCH 45/62] fix: a random planar graph does not get more edges than
 requested

---
 c/graphLib/graphUtils.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 3fe4dab..ac4f407 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1220,6 +1220,20 @@ int _hasUnprocessedChild(graphP theGraph, int parent)
     return 1;
 }
 
+/********************************************************************
+ _AddEdgeUpToLimit()
+ Support routine for gp_CreateRandomGraphEx(), this function adds the
+ edge (u, v) unless the graph already has the given number of edges.
+ ********************************************************************/
+
+int _AddEdgeUpToLimit(graphP theGraph, int u, int v, int maxNumEdges)
+{
+    if (theGraph->M >= maxNumEdges)
+        return OK;
+
+    return gp_AddEdge(theGraph, u, 1, v, 1);
+}
+
 /********************************************************************
  gp_CreateRandomGraphEx()
  Given a graph structure with a pre-specified number of vertices N,
@@ -1278,11 +1292,11 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
         {
             if (last != v)
             {
-                if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                if (_AddEdgeUpToLimit(theGraph, last, c, M) != OK)
                     return NOTOK;
             }
 
-            if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+            if (_AddEdgeUpToLimit(theGraph, root, c, M) != OK)
                 return NOTOK;
 
             v = last = c;
@@ -1297,7 +1311,7 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
                 p = gp_GetVertexParent(theGraph, v);
                 if (gp_IsVertex(p) && p != root)
                 {
-                    if (gp_AddEdge(theGraph, last, 1, p, 1) != OK)
+                    if (_AddEdgeUpToLimit(theGraph, last, p, M) != OK)
                         return NOTOK;
                 }
             }
@@ -1306,24 +1320,24 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
             {
                 if (p == root)
                 {
-                    if (gp_AddEdge(theGraph, v, 1, c, 1) != OK)
+                    if (_AddEdgeUpToLimit(theGraph, v, c, M) != OK)
                         return NOTOK;
 
                     if (v != last)
                     {
-                        if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                        if (_AddEdgeUpToLimit(theGraph, last, c, M) != OK)
                             return NOTOK;
                     }
                 }
                 else
                 {
-                    if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                    if (_AddEdgeUpToLimit(theGraph, last, c, M) != OK)
                         return NOTOK;
                 }
 
                 if (p != root)
                 {
-                    if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+                    if (_AddEdgeUpToLimit(theGraph, root, c, M) != OK)
                         return NOTOK;
                     last = c;
                 }
-- 
2.43.0


From 494b83b9bd00588389d81df6a369ddc7814da4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:32 +0000
Subject: [PATCH 46/62] fix: a command line without an algorithm command is an
 error

---
 c/planarityApp/planarityCommandLine.c   | 24 ++++++++++++++++++++----
 c/planarityApp/planarityTestAllGraphs.c |  2 +-
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 813d1e3..9019321 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -594,6 +594,18 @@ int runGraphTransformationTest(char *command, char *infileName, int inputInMemFl
 	return (Result == OK) ? 0 : -1;
 }
 
+/****************************************************************************
+ reportMissingCommand()
+ Reports that the command line argument giving the algorithm command C is not
+ a '-' followed by a command letter
+ ****************************************************************************/
+
+int reportMissingCommand(void)
+{
+	ErrorMessage("Invalid argument; the algorithm command must be -(pdo234).\n");
+	return NOTOK;
+}
+
 /****************************************************************************
  callRandomGraphs()
  ****************************************************************************/
@@ -607,14 +619,16 @@ int callRandomGraphs(int argc, char *argv[])
 	if (argc < 5)
 		return -1;
 
-	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
+	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
-		Choice = argv[3][1];
 		if (argc < 6)
 			return -1;
 		offset = 1;
 	}
 
+	if (argv[2 + offset][0] != '-' || (Choice = argv[2 + offset][1]) == '\0')
+		return reportMissingCommand();
+
 	NumGraphs = atoi(argv[3 + offset]);
 	SizeOfGraphs = atoi(argv[4 + offset]);
 
@@ -634,14 +648,16 @@ int callSpecificGraph(int argc, char *argv[])
 	if (argc < 5)
 		return -1;
 
-	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
+	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
-		Choice = argv[3][1];
 		if (argc < 6)
 			return -1;
 		offset = 1;
 	}
 
+	if (argv[2 + offset][0] != '-' || (Choice = argv[2 + offset][1]) == '\0')
+		return reportMissingCommand();
+
 	infileName = argv[3 + offset];
 	outfileName = argv[4 + offset];
 	if (argc == 6 + offset)
diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 07b6361..9246292 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -59,7 +59,7 @@ int TestAllGraphs(char *commandString, char *infileName, char *outfileName, char
 
 	if (commandString[0] == '-')
 	{
-		if (strchr(GetAlgorithmChoices(), commandString[1]))
+		if (commandString[1] != '\0' && strchr(GetAlgorithmChoices(), commandString[1]))
 		{
 			if (infileName == NULL)
 			{
-- 
2.43.0


From 354b1f70eb24c511d0034396eb857e349e43329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:32 +0000
Subject: [PATCH 47/62] fix: graphs of one vertex can be tested with drawing,
 K3,3 search and K4 search

---
 c/planarityApp/planarityTestAllGraphs.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 9246292..695de9f 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -174,7 +174,8 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	// We have to set the maximum arc capacity (i.e. (N * (N - 1))) because some of the test files
 	// can contain complete graphs, and the graph drawing, K_{3, 3} search, and K_4 search extensions
 	// don't support expanding the arc capacity after being attached.
-	if (strchr("d34", command) != NULL)
+	// A graph with only one vertex has no arcs, so there is no capacity to ensure.
+	if (graphOrder > 1 && strchr("d34", command) != NULL)
 	{
 		Result = gp_EnsureArcCapacity(pG6ReadIterator->currGraph, (graphOrder * (graphOrder - 1)));
 		if (Result != OK)
@@ -206,7 +207,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 		return Result;
 	}
 
-	if (strchr("d34", command) != NULL)
+	if (graphOrder > 1 && strchr("d34", command) != NULL)
 	{
 		Result = gp_EnsureArcCapacity(copyOfOrigGraph, (graphOrder * (graphOrder - 1)));
 		if (Result != OK)
-- 
2.43.0


From 952da79a83adf04e694844162982afb660fd098d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:32 +0000
Subject: [PATCH 48/62] fix: a long file name does not overflow the message
 that it cannot be opened

---
 c/planarityApp/planarityTestAllGraphs.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 695de9f..8c3c36d 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -79,8 +79,8 @@ int TestAllGraphs(char *commandString, char *infileName, char *outfileName, char
 				FILE *infile = fopen(infileName, "r");
 				if (infile == NULL)
 				{
-					charsAvailForFilename = (int)(MAXLINE - strlen(infileName));
 					messageFormat = "Unable to open file \"%.*s\" for input.\n";
+					charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 					sprintf(messageContents, messageFormat, charsAvailForFilename, infileName);
 					ErrorMessage(messageContents);
 
@@ -330,8 +330,8 @@ int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileNa
 		FILE *outputFileP = fopen(outfileName, "w");
 		if (outputFileP == NULL)
 		{
-			charsAvailForFilename = (int)(MAXLINE - strlen(outfileName));
 			messageFormat = "Unable to open file \"%.*s\" for output.\n";
+			charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 			sprintf(messageContents, messageFormat, charsAvailForFilename, outfileName);
 			ErrorMessage(messageContents);
 		}
@@ -422,9 +422,9 @@ int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileNa
 
 	if (sf_closeFile(testOutput) != OK)
 	{
-		charsAvailForFilename = (int)(MAXLINE - strlen(outfileName));
 		messageFormat = "Unable to close output file \"%.*s\".\n";
-		sprintf(messageContents, messageFormat, charsAvailForFilename, outfileName);
+		charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
+		sprintf(messageContents, messageFormat, charsAvailForFilename, outfileName == NULL ? "" : outfileName);
 		ErrorMessage(messageContents);
 		Result = NOTOK;
 	}
-- 
2.43.0


From 07414af26c85ee93341e095f5ead772a3d501670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:32 +0000
Subject: [PATCH 49/62] fix: an output file that cannot be written is an error

---
 c/planarityApp/planarityCommandLine.c  |  4 ++--
 c/planarityApp/planarityRandomGraphs.c | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 9019321..444dfb0 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -116,7 +116,7 @@ int legacyCommandLine(int argc, char *argv[])
 	if (Result == OK)
 	{
 		gp_SortVertices(theGraph);
-		gp_Write(theGraph, argv[2], WRITE_ADJLIST);
+		Result = gp_Write(theGraph, argv[2], WRITE_ADJLIST);
 	}
 
 	else if (Result == NONEMBEDDABLE)
@@ -124,7 +124,7 @@ int legacyCommandLine(int argc, char *argv[])
 		if (argc >= 5 && strcmp(argv[3], "-n") == 0)
 		{
 			gp_SortVertices(theGraph);
-			gp_Write(theGraph, argv[4], WRITE_ADJLIST);
+			Result = gp_Write(theGraph, argv[4], WRITE_ADJLIST);
 		}
 	}
 	else
diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index ae028f1..84379a6 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -369,6 +369,7 @@ platform_time start, end;
 graphP theGraph=NULL, origGraph;
 int embedFlags = GetEmbedFlags(command);
 char saveEdgeListFormat;
+int  writeResult = OK;
 
 	char *messageFormat = NULL;
 	char messageContents[MAXLINE + 1];
@@ -396,7 +397,8 @@ char saveEdgeListFormat;
 	// The user may have requested a copy of the random graph before processing
 	if (outfile2Name != NULL)
 	{
-		gp_Write(theGraph, outfile2Name, WRITE_ADJLIST);
+		if (gp_Write(theGraph, outfile2Name, WRITE_ADJLIST) != OK)
+			writeResult = NOTOK;
 	}
 
 	origGraph = gp_DupGraph(theGraph);
@@ -427,7 +429,10 @@ char saveEdgeListFormat;
 	if (Result == OK || Result == NONEMBEDDABLE)
 	{
 		if (outfileName != NULL)
-			gp_Write(theGraph, outfileName, WRITE_ADJLIST);
+		{
+			if (gp_Write(theGraph, outfileName, WRITE_ADJLIST) != OK)
+				writeResult = NOTOK;
+		}
 
 		if (!getQuietModeSetting())
 		{
@@ -463,6 +468,13 @@ char saveEdgeListFormat;
 	}
 	else ErrorMessage("Failure occurred");
 
+	// An output file that could not be written is also a failure
+	if (writeResult != OK)
+	{
+		ErrorMessage("Failed to write an output file\n");
+		Result = NOTOK;
+	}
+
 	gp_Free(&theGraph);
 	gp_Free(&origGraph);
 
-- 
2.43.0


From f900876b26d1136f92998c6640604840969e927c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:02 +0000
Subject: [PATCH 50/62] fix: tests on random graphs with an unknown algorithm
 command are an error

---
 c/planarityApp/planarityCommandLine.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 444dfb0..72b833b 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -626,7 +626,8 @@ int callRandomGraphs(int argc, char *argv[])
 		offset = 1;
 	}
 
-	if (argv[2 + offset][0] != '-' || (Choice = argv[2 + offset][1]) == '\0')
+	if (argv[2 + offset][0] != '-' || (Choice = argv[2 + offset][1]) == '\0' ||
+		!strchr(GetAlgorithmChoices(), Choice))
 		return reportMissingCommand();
 
 	NumGraphs = atoi(argv[3 + offset]);
-- 
2.43.0


From daac7126169717f7e168843b1cba712439467b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:02 +0000
Subject: [PATCH 51/62] fix: quiet mode suppresses the count of random graphs

---
 c/planarityApp/planarityRandomGraphs.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index 84379a6..a48d2c6 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -68,8 +68,11 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 	countUpdateFreq = countUpdateFreq % 5 == 0 ? countUpdateFreq+2 : countUpdateFreq;
 
 	// Start the count
-	fprintf(stdout, "0\r");
-	fflush(stdout);
+	if (!getQuietModeSetting())
+	{
+		fprintf(stdout, "0\r");
+		fflush(stdout);
+	}
 
 	// Start the timer
 	platform_GetTime(start);
@@ -207,8 +210,11 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 	platform_GetTime(end);
 
 	// Finish the count
-	fprintf(stdout, "%d\n", NumGraphs);
-	fflush(stdout);
+	if (!getQuietModeSetting())
+	{
+		fprintf(stdout, "%d\n", NumGraphs);
+		fflush(stdout);
+	}
 
 	// Free the graph structures created before the loop
 	gp_Free(&theGraph);
-- 
2.43.0


From 15a32f9d92292c94024fdafd09d4a68b128bfe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:02 +0000
Subject: [PATCH 52/62] fix: the menu reads the input file name of a
 transformation or a test

---
 c/planarityApp/planarityMenu.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index 83eff4f..4dc7556 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -113,7 +113,11 @@ void TransformGraphMenu(void)
     {
         Prompt("Enter input filename:\n");
         fflush(stdin);
-        fgets(infileName, MAXLINE, stdin);
+        if (fgets(infileName, MAXLINE, stdin) == NULL)
+            return;
+
+        // The rest of the line that contained the menu choice is also skipped by this
+        infileName[strcspn(infileName, "\n\r")] = '\0';
 
         if (strncmp(infileName, "stdin", 5) == 0)
         {
@@ -122,8 +126,6 @@ void TransformGraphMenu(void)
         }
     } while (strlen(infileName) == 0);
 
-    infileName[strcspn(infileName, "\n\r")] = '\0';
-
     Prompt("Enter output filename, or press return to output to console:\n");
     fflush(stdin);
     fgets(outfileName, MAXLINE, stdin);
@@ -183,7 +185,11 @@ void TestAllGraphsMenu(void)
     {
         Prompt("Enter input filename:\n");
         fflush(stdin);
-        fgets(infileName, MAXLINE, stdin);
+        if (fgets(infileName, MAXLINE, stdin) == NULL)
+            return;
+
+        // The rest of the line that contained the menu choice is also skipped by this
+        infileName[strcspn(infileName, "\n\r")] = '\0';
 
         if (strncmp(infileName, "stdin", 5) == 0)
         {
@@ -192,8 +198,6 @@ void TestAllGraphsMenu(void)
         }
     } while (strlen(infileName) == 0);
 
-    infileName[strcspn(infileName, "\n\r")] = '\0';
-
     Prompt("Enter output filename, or press return to output to console:\n");
     fflush(stdin);
     fgets(outfileName, MAXLINE, stdin);
-- 
2.43.0


From 8ea0ae15b6716f5b45955e170fea942cacbb0543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:02 +0000
Subject: [PATCH 53/62] fix: the menu ends when its input ends

---
 c/planarityApp/planarityMenu.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index 4dc7556..122d134 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -32,7 +32,8 @@ int menu(void)
 
         Prompt("Enter Choice: ");
         fflush(stdin);
-        scanf(" %c", &Choice);
+        if (scanf(" %c", &Choice) != 1)
+            Choice = 'q';
         Choice = tolower(Choice);
 
         if (Choice == 'h')
@@ -136,7 +137,8 @@ void TransformGraphMenu(void)
         Message(GetSupportedOutputChoices());
         Prompt("Enter output format: ");
         fflush(stdin);
-        scanf(" %c", &outputFormat);
+        if (scanf(" %c", &outputFormat) != 1)
+            return;
         outputFormat = tolower(outputFormat);
         if (strchr(GetSupportedOutputFormats(), outputFormat))
             sprintf(commandStr, "-%c", outputFormat);
@@ -209,7 +211,8 @@ void TestAllGraphsMenu(void)
 
         Prompt("Enter algorithm specifier: ");
         fflush(stdin);
-        scanf(" %c", &algorithmSpecifier);
+        if (scanf(" %c", &algorithmSpecifier) != 1)
+            return;
         algorithmSpecifier = tolower(algorithmSpecifier);
         if (strchr(GetAlgorithmChoices(), algorithmSpecifier))
             sprintf(commandStr, "-%c", algorithmSpecifier);
-- 
2.43.0


From 6e1eb447dd6e7263b83a7566153c53ecfd6f7909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:02 +0000
Subject: [PATCH 54/62] fix: a long file name given to the menu does not
 overflow the name buffer

---
 c/planarityApp/planarityUtils.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 308f96f..1f6fb14 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -518,7 +518,15 @@ char *ConstructInputFilename(char *infileName)
 	{
 		Prompt("Enter graph file name: ");
 		fflush(stdin);
-		scanf(" %s", theFileName);
+		// One character more than allowed is read to detect a name that is too long
+		if (scanf(" %129s", theFileName) != 1)
+			return NULL;
+
+		if (strlen(theFileName) > FILENAMEMAXLENGTH)
+		{
+			ErrorMessage("Filename is too long");
+			return NULL;
+		}
 
 		if (!strchr(theFileName, '.'))
 			strcat(theFileName, ".txt");
-- 
2.43.0


From 1189c082081e1d0d1a0d218b6ebd93aa26678ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:02 +0000
Subject: [PATCH 55/62] fix: text files that differ by one last character are
 not equal

---
 c/planarityApp/planarityUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 1f6fb14..7710f5f 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -265,7 +265,7 @@ int TextFilesEqual(char *file1Name, char *file2Name)
 			while ((c2 = fgetc(infile2)) == '\r')
 				;
 			// Test whether or not the second file also ends, same as the first.
-			if (fgetc(infile2) != EOF)
+			if (c2 != EOF)
 				Result = FALSE;
 		}
 	}
-- 
2.43.0


From 1b37008140edd3f4648741b3153d2b58484b19e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:25 +0000
Subject: [PATCH 56/62] fix: a command line with too few arguments is not
 reported as a nonembeddable graph

---
 c/planarityApp/planarityCommandLine.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 72b833b..a6675f1 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -617,12 +617,12 @@ int callRandomGraphs(int argc, char *argv[])
 	int offset = 0, NumGraphs, SizeOfGraphs;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -647,12 +647,12 @@ int callSpecificGraph(int argc, char *argv[])
 	int offset = 0;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -678,12 +678,12 @@ int callRandomMaxPlanarGraph(int argc, char *argv[])
 	char *outfileName = NULL, *outfile2Name = NULL;
 
 	if (argc < 4)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 5)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -706,12 +706,12 @@ int callRandomNonplanarGraph(int argc, char *argv[])
 	char *outfileName = NULL, *outfile2Name = NULL;
 
 	if (argc < 4)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 5)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -737,12 +737,12 @@ int callTransformGraph(int argc, char *argv[])
 	char *infileName = NULL, *outfileName = NULL;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -773,12 +773,12 @@ int callTestAllGraphs(int argc, char *argv[])
 	char *infileName = NULL, *outfileName = NULL;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
-- 
2.43.0


From 1f6e7e6d493ebe9e54b569e22ffe697e580e7044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:27 +0000
Subject: [PATCH 57/62] fix: no edge list file is written when the answer to
 the question is missing

---
 c/planarityApp/planarityRandomGraphs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index a48d2c6..32e5122 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -374,7 +374,7 @@ int  Result;
 platform_time start, end;
 graphP theGraph=NULL, origGraph;
 int embedFlags = GetEmbedFlags(command);
-char saveEdgeListFormat;
+char saveEdgeListFormat = 'n';
 int  writeResult = OK;
 
 	char *messageFormat = NULL;
-- 
2.43.0


From 6870cff27a8ccb6b59ad50a3f187c2b991646171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:26 +0000
Subject: [PATCH 58/62] fix: gp_DynamicAddEdge could not grow graphs of more
 than 46341 vertices

The maximum arc capacity N * (N - 1) overflowed, so that the new capacity
was negative or smaller than the current one, and the edge was refused.
---
 c/graphLib/graphUtils.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index ac4f407..6fb684c 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1699,10 +1699,14 @@ int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
 
     if (Result == NONEMBEDDABLE)
     {
-        int candidateArcCapacity = gp_GetArcCapacity(theGraph) * 2;
-        int N = theGraph->N;
-        int newArcCapacity = (candidateArcCapacity > (N * (N - 1))) ? (N * (N - 1)) : candidateArcCapacity;
-        Result = gp_EnsureArcCapacity(theGraph, newArcCapacity);
+        long long candidateArcCapacity = (long long)gp_GetArcCapacity(theGraph) * 2;
+        long long N = theGraph->N;
+        long long newArcCapacity = (candidateArcCapacity > (N * (N - 1))) ? (N * (N - 1)) : candidateArcCapacity;
+
+        if (newArcCapacity > INT_MAX)
+            return NOTOK;
+
+        Result = gp_EnsureArcCapacity(theGraph, (int)newArcCapacity);
 
         if (Result != OK)
             return Result;
-- 
2.43.0


From bdd03d1ed68c548d72d6fcc43c91c79cb8c452d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:26 +0000
Subject: [PATCH 59/62] fix: a huge arc capacity overflowed the computed sizes

gp_EnsureArcCapacity() reported success without growing the graph.
---
 c/graphLib/graphUtils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 6fb684c..d606063 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -411,6 +411,10 @@ int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
     if (requiredArcCapacity & 1)
         return NOTOK;
 
+    // The sizes of the edge record array and the stack must be expressible as integers
+    if (requiredArcCapacity > INT_MAX / 2 - gp_GetFirstEdge(theGraph))
+        return NOTOK;
+
     if (theGraph->arcCapacity >= requiredArcCapacity)
         return OK;
 
-- 
2.43.0


From 64ce14cf357bacf8586cf773a9afd70d6bcbee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:05 +0000
Subject: [PATCH 60/62] fix: rendering a drawing of more than INT_MAX
 characters wrote out of bounds

The size of the rendition overflowed, e.g. to 1 for 32768 vertices and
65535 edges. Such a drawing is now refused.
---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index b667dd9..f76ee7a 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -13,6 +13,7 @@ extern int DRAWPLANAR_ID;
 
 #include <string.h>
 #include <stdlib.h>
+#include <limits.h>
 #include <stdio.h>
 
 extern void _ClearVisitedFlags(graphP theGraph);
@@ -797,9 +798,14 @@ char *_RenderToString(graphP theEmbedding)
         int M = theEmbedding->M > 0 ? theEmbedding->M : 1;
         int zeroBasedVertexOffset = (theEmbedding->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theEmbedding) : 0;
         int n, m, EsizeOccupied, v, vRange, e, eRange, Mid, Pos;
-        char *visRep = (char *)malloc(sizeof(char) * ((M + 1) * 2 * N + 1));
+        char *visRep = NULL;
         char numBuffer[32];
 
+        // The size of the rendition must be expressible as an integer
+        if ((M + 1) > (INT_MAX - 1) / 2 / N)
+            return NULL;
+
+        visRep = (char *)malloc(sizeof(char) * ((M + 1) * 2 * N + 1));
         if (visRep == NULL)
             return NULL;
 
-- 
2.43.0


From 36d357166a0c619578219a3c951cb5c067e18cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:36 +0000
Subject: [PATCH 61/62] fix: K3,3 search: do not walk up from bicomps already
 merged above the merge blocked step

When the pertinence of an earlier step is rebuilt for a merge blocker, the forward
arcs into the vertex's other DFS subtrees can lead to bicomps that have since been
merged with the vertex's own bicomp. The Walkup then missed the vertex and went past
the DFS tree root, into the records of index NIL (an out-of-bounds access if NIL is -1).
---
 c/graphLib/homeomorphSearch/graphK33Search.c | 22 +++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search.c b/c/graphLib/homeomorphSearch/graphK33Search.c
index d37da67..757bba2 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search.c
@@ -797,7 +797,7 @@ int _SearchForMergeBlocker(graphP theGraph, K33SearchContext *context, int v, in
 
 int _FindK33WithMergeBlocker(graphP theGraph, K33SearchContext *context, int v, int mergeBlocker)
 {
-    int R, RPrevLink, u_max, u, e;
+    int R, RPrevLink, u_max, u, e, W, subtreeRoot, nextSubtreeRoot;
     isolatorContextP IC = &theGraph->IC;
 
     /* First, we orient the vertices so we can successfully restore all of the
@@ -840,12 +840,28 @@ int _FindK33WithMergeBlocker(graphP theGraph, K33SearchContext *context, int v,
     }
 
     /* Restore the pertinence settings of step v by doing the Walkup for each
-       back edge that was not embedded when step v was originally performed. */
+       back edge that was not embedded when step v was originally performed.
+       The Walkup is limited to the DFS subtree that contains the bicomp rooted
+       by R because the bicomps of v's other DFS children may have been merged
+       with the bicomp containing v since step v was performed, in which case
+       a Walkup would not encounter v and so would go beyond the DFS tree root. */
+
+    subtreeRoot = gp_GetDFSChildFromRoot(theGraph, R);
+    nextSubtreeRoot = gp_GetFirstVirtualVertex(theGraph);
+    W = gp_GetVertexSortedDFSChildList(theGraph, IC->v);
+    while (gp_IsVertex(W))
+    {
+        if (W > subtreeRoot && W < nextSubtreeRoot)
+            nextSubtreeRoot = W;
+        W = gp_GetVertexNextDFSChild(theGraph, IC->v, W);
+    }
 
     e = gp_GetVertexFwdArcList(theGraph, IC->v);
     while (gp_IsArc(e))
     {
-        theGraph->functions.fpWalkUp(theGraph, IC->v, e);
+        W = gp_GetNeighbor(theGraph, e);
+        if (W >= subtreeRoot && W < nextSubtreeRoot)
+            theGraph->functions.fpWalkUp(theGraph, IC->v, e);
 
         e = gp_GetNextArc(theGraph, e);
         if (e == gp_GetVertexFwdArcList(theGraph, IC->v))
-- 
2.43.0


From 52522078b279ce25d1fe03bb01bedca4ca702ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:36 +0000
Subject: [PATCH 62/62] fix: attach back edges properly to vertices that have
 no arcs

_AddBackEdge wrote the predecessor link of the first arc even if there was none,
i.e. into the record of index NIL (out of bounds if NIL is -1), and did not set
the last arc.
---
 c/graphLib/planarityRelated/graphIsolator.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphIsolator.c b/c/graphLib/planarityRelated/graphIsolator.c
index 22354d6..04df8f9 100644
--- a/c/graphLib/planarityRelated/graphIsolator.c
+++ b/c/graphLib/planarityRelated/graphIsolator.c
@@ -779,16 +779,10 @@ void _AddBackEdge(graphP theGraph, int ancestor, int descendant)
     gp_SetPrevArc(theGraph, gp_GetNextArc(theGraph, fwdArc), gp_GetPrevArc(theGraph, fwdArc));
 
     /* The forward arc is added to the adjacency list of the ancestor. */
-    gp_SetPrevArc(theGraph, fwdArc, NIL);
-    gp_SetNextArc(theGraph, fwdArc, gp_GetFirstArc(theGraph, ancestor));
-    gp_SetPrevArc(theGraph, gp_GetFirstArc(theGraph, ancestor), fwdArc);
-    gp_SetFirstArc(theGraph, ancestor, fwdArc);
+    gp_AttachFirstArc(theGraph, ancestor, fwdArc);
 
     /* The back arc is added to the adjacency list of the descendant. */
-    gp_SetPrevArc(theGraph, backArc, NIL);
-    gp_SetNextArc(theGraph, backArc, gp_GetFirstArc(theGraph, descendant));
-    gp_SetPrevArc(theGraph, gp_GetFirstArc(theGraph, descendant), backArc);
-    gp_SetFirstArc(theGraph, descendant, backArc);
+    gp_AttachFirstArc(theGraph, descendant, backArc);
 
     gp_SetNeighbor(theGraph, backArc, ancestor);
 }
-- 
2.43.0


From d654e4d6a9498f9fda2349e8795b0499c7f9a9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 01/52] fix: report truncated documents and release the XML
 parser context on every path

---
 src/Parser.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Parser.c b/src/Parser.c
index aa5bf27..c2d26de 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -46,17 +46,27 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
     xmlInitParser(); // Fix memory leak: https://gitlab.gnome.org/GNOME/libxml2/-/issues/9
     xmlParserCtxtPtr ctxt =
         xmlCreatePushParserCtxt(&hdl, parser->context, chars, res, NULL);
+    if (!ctxt)
+    {
+        return 1;
+    }
+    int status = 0;
     while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 0)
     {
         if (xmlParseChunk(ctxt, chars, res, 0))
         {
             xmlParserError(ctxt, "xmlParseChunk");
-            return 1;
+            status = 1;
+            break;
         }
     }
-    xmlParseChunk(ctxt, chars, 0, 1);
+    // a document that ends early is only detected when the input is terminated
+    if (status == 0 && xmlParseChunk(ctxt, chars, 0, 1))
+    {
+        status = 1;
+    }
     xmlFreeParserCtxt(ctxt);
     xmlCleanupParser();
-    return 0;
+    return status;
 }
 void Parser_delete(Parser *parser) { free(parser); }
-- 
2.43.0


From b8853e0e6b17eaf25743a4b578b52bea25cab6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 02/52] fix: print the arguments of log messages in the default
 logger

---
 src/PrintfLogger.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PrintfLogger.c b/src/PrintfLogger.c
index 6acf9c3..a80528a 100644
--- a/src/PrintfLogger.c
+++ b/src/PrintfLogger.c
@@ -17,8 +17,10 @@ static void logStdOut(void *context, enum NodesetLoader_LogLevel level,
 {
     va_list vl;
     va_start(vl, message);
+    printf("NODESETLOADER: %s : ", logLevel[level]);
+    vprintf(message, vl);
+    printf("\n");
     va_end(vl);
-    printf("NODESETLOADER: %s : %s\n", logLevel[level], message);
 }
 
 NodesetLoader_Logger *InternalLogger_new(void)
-- 
2.43.0


From bda97939d44ea2d849a09e0c32cec23be278c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 03/52] fix: CharArenaAllocator_new must not return an arena
 without a region

---
 src/CharAllocator.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CharAllocator.c b/src/CharAllocator.c
index a378ca4..3b75a9d 100644
--- a/src/CharAllocator.c
+++ b/src/CharAllocator.c
@@ -55,6 +55,11 @@ CharArenaAllocator *CharArenaAllocator_new(size_t initialSize)
     }
     arena->initialSize = initialSize;
     arena->current = Region_new(arena->initialSize);
+    if(!arena->current)
+    {
+        free(arena);
+        return NULL;
+    }
     return arena;
 }
 
-- 
2.43.0


From 05e759876ee80456c32f6aeef487138cc5d7e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 04/52] fix: initialize new data type fields

---
 src/nodes/DataTypeNode.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nodes/DataTypeNode.c b/src/nodes/DataTypeNode.c
index c2343e7..f14c4f7 100644
--- a/src/nodes/DataTypeNode.c
+++ b/src/nodes/DataTypeNode.c
@@ -7,6 +7,7 @@
 
 #include "DataTypeNode.h"
 #include <stdlib.h>
+#include <string.h>
 
 static NL_DataTypeDefinitionField *getNewField(NL_DataTypeDefinition *definition)
 {
@@ -18,7 +19,10 @@ static NL_DataTypeDefinitionField *getNewField(NL_DataTypeDefinition *definition
     {
         return NULL;
     }
-    return &definition->fields[definition->fieldCnt - 1];
+    NL_DataTypeDefinitionField *newField =
+        &definition->fields[definition->fieldCnt - 1];
+    memset(newField, 0, sizeof(*newField));
+    return newField;
 }
 
 NL_DataTypeDefinition* DataTypeDefinition_new(NL_DataTypeNode* node)
-- 
2.43.0


From 8c1ad8f527333b7b13dd3e5b693d3421cf57af11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 05/52] fix: give every user of an alias its own copy of the
 NodeId and release the alias list's

---
 src/AliasList.c | 4 ++++
 src/Nodeset.c   | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/AliasList.c b/src/AliasList.c
index f187ad6..cd4e39d 100644
--- a/src/AliasList.c
+++ b/src/AliasList.c
@@ -59,6 +59,10 @@ const UA_NodeId *
 
 void AliasList_delete(AliasList *list)
 {
+    for(size_t i = 0; i < list->size; i++)
+    {
+        UA_NodeId_clear(&list->data[i].id);
+    }
     free(list->data);
     free(list);
 }
diff --git a/src/Nodeset.c b/src/Nodeset.c
index a3b3c88..f04983e 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -150,7 +150,10 @@ static UA_NodeId alias2Id(const Nodeset *nodeset, char *name)
     {
         return extractNodedId(nodeset->namespaces, name);
     }
-    return *alias;
+    // the alias list keeps its own id
+    UA_NodeId id = UA_NODEID_NULL;
+    UA_NodeId_copy(alias, &id);
+    return id;
 }
 
 Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
-- 
2.43.0


From a9b591e3869ef17cc4eb13c9e877e5d9a6c1114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 06/52] fix: tolerate aliases without a name and a full alias
 list

---
 src/AliasList.c | 2 +-
 src/Nodeset.c   | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/AliasList.c b/src/AliasList.c
index cd4e39d..fadbfc2 100644
--- a/src/AliasList.c
+++ b/src/AliasList.c
@@ -51,7 +51,7 @@ const UA_NodeId *
         return NULL;
 
     for(Alias* alias = list->data; alias != list->data + list->size; alias++) {
-        if (!strcmp(name, alias->name))
+        if (alias->name && !strcmp(name, alias->name))
             return &alias->id;
     }
     return NULL;
diff --git a/src/Nodeset.c b/src/Nodeset.c
index f04983e..3d97374 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -486,6 +486,10 @@ Alias *Nodeset_newAlias(Nodeset *nodeset, int attributeSize,
 
 void Nodeset_newAliasFinish(Nodeset *nodeset, Alias *alias, char *idString)
 {
+    if (!alias)
+    {
+        return;
+    }
     alias->id = extractNodedId(nodeset->namespaces, idString);
 }
 
-- 
2.43.0


From 865469202141f6eb4decc32f75234ef16389c97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 07/52] fix: do not drop aliases after the 300th

---
 src/AliasList.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/AliasList.c b/src/AliasList.c
index fadbfc2..04b971c 100644
--- a/src/AliasList.c
+++ b/src/AliasList.c
@@ -9,12 +9,13 @@
 #include <stdlib.h>
 #include <string.h>
 
-#define MAX_ALIAS 300
+#define ALIAS_INCREMENT 300
 
 struct AliasList
 {
     Alias *data;
     size_t size;
+    size_t capacity;
 };
 
 AliasList *AliasList_new(void)
@@ -24,20 +25,28 @@ AliasList *AliasList_new(void)
     {
         return NULL;
     }
-    list->data = (Alias *)calloc(MAX_ALIAS, sizeof(Alias));
+    list->data = (Alias *)calloc(ALIAS_INCREMENT, sizeof(Alias));
     if(!list->data)
     {
         free(list);
         return NULL;
     }
+    list->capacity = ALIAS_INCREMENT;
     return list;
 }
 
 Alias *AliasList_newAlias(AliasList *list, char *name)
 {
-    if(list->size >= MAX_ALIAS)
+    if(list->size >= list->capacity)
     {
-        return NULL;
+        Alias *data = (Alias *)realloc(
+            list->data, (list->capacity + ALIAS_INCREMENT) * sizeof(Alias));
+        if(!data)
+        {
+            return NULL;
+        }
+        list->data = data;
+        list->capacity += ALIAS_INCREMENT;
     }
     list->data[list->size].name = name;
     UA_NodeId_init(&list->data[list->size].id);
-- 
2.43.0


From 964ab95937a580efc803dbdcddb0c8289bbc7865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 08/52] fix: release everything a node owns

---
 src/Nodeset.c            |  2 ++
 src/nodes/DataTypeNode.c |  4 ++++
 src/nodes/Node.c         | 15 +++++++++++++--
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 3d97374..84499e7 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -444,6 +444,7 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
         nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
                                              newRef))
     {
+        newRef->next = ((NL_VariableNode *)node)->refToTypeDef;
         ((NL_VariableNode *)node)->refToTypeDef = newRef;
         return newRef;
     }
@@ -452,6 +453,7 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
         nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
                                              newRef))
     {
+        newRef->next = ((NL_ObjectNode *)node)->refToTypeDef;
         ((NL_ObjectNode *)node)->refToTypeDef = newRef;
         return newRef;
     }
diff --git a/src/nodes/DataTypeNode.c b/src/nodes/DataTypeNode.c
index f14c4f7..74add22 100644
--- a/src/nodes/DataTypeNode.c
+++ b/src/nodes/DataTypeNode.c
@@ -45,6 +45,10 @@ void DataTypeNode_clear(NL_DataTypeNode *node)
 {
     if (node->definition)
     {
+        for (size_t i = 0; i < node->definition->fieldCnt; i++)
+        {
+            UA_NodeId_clear(&node->definition->fields[i].dataType);
+        }
         free(node->definition->fields);
     }
     free(node->definition);
diff --git a/src/nodes/Node.c b/src/nodes/Node.c
index f494a80..6527707 100644
--- a/src/nodes/Node.c
+++ b/src/nodes/Node.c
@@ -64,6 +64,7 @@ void Node_delete(NL_Node *node)
     UA_NodeId_clear(&node->id);
     deleteRef(node->hierachicalRefs);
     deleteRef(node->nonHierachicalRefs);
+    deleteRef(node->unknownRefs);
     if (node->nodeClass == NODECLASS_DATATYPE)
     {
         DataTypeNode_clear((NL_DataTypeNode *)node);
@@ -71,8 +72,9 @@ void Node_delete(NL_Node *node)
     if(node->nodeClass == NODECLASS_VARIABLE)
     {
         NL_VariableNode* varNode = (NL_VariableNode*)node;
-        free(varNode->refToTypeDef);
+        deleteRef(varNode->refToTypeDef);
         UA_NodeId_clear(&varNode->parentNodeId);
+        UA_NodeId_clear(&varNode->datatype);
         if(varNode->value)
         {
             Value_delete(varNode->value);
@@ -82,7 +84,16 @@ void Node_delete(NL_Node *node)
     {
         NL_ObjectNode *objNode = (NL_ObjectNode *)node;
         UA_NodeId_clear(&objNode->parentNodeId);
-        free(objNode->refToTypeDef);
+        deleteRef(objNode->refToTypeDef);
+    }
+    if(node->nodeClass == NODECLASS_VARIABLETYPE)
+    {
+        UA_NodeId_clear(&((NL_VariableTypeNode *)node)->datatype);
+    }
+    if(node->nodeClass == NODECLASS_METHOD ||
+       node->nodeClass == NODECLASS_VIEW)
+    {
+        UA_NodeId_clear(&((NL_InstanceNode *)node)->parentNodeId);
     }
     free(node);
 }
-- 
2.43.0


From ef09d2f4d851a6fcc36a523ad48617c9e0a2aa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 09/52] fix: terminate on unresolvable reference types,
 register deferred reference types and release deferred nodes

---
 src/Nodeset.c    | 70 ++++++++++++++++++++++++++----------------------
 src/nodes/Node.c |  4 +++
 2 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 84499e7..b5a1bc5 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -176,8 +176,8 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     nodeset->nodes[NODECLASS_REFERENCETYPE] = NodeContainer_new(100, true);
     nodeset->nodes[NODECLASS_VARIABLETYPE] = NodeContainer_new(100, true);
     nodeset->nodes[NODECLASS_VIEW] = NodeContainer_new(10, true);
-    nodeset->nodesWithUnknownRefs = NodeContainer_new(100, false);
-    nodeset->refTypesWithUnknownRefs = NodeContainer_new(100, false);
+    nodeset->nodesWithUnknownRefs = NodeContainer_new(100, true);
+    nodeset->refTypesWithUnknownRefs = NodeContainer_new(100, true);
     nodeset->refService = refService;
     nodeset->sortCtx = Sort_init();
     nodeset->logger = logger;
@@ -219,50 +219,54 @@ static bool lookupUnknownReferences(Nodeset *nodeset, NL_Node *node)
     return true;
 }
 
-static void lookupReferenceTypes(Nodeset *nodeset)
+// Resolves the references of the deferred nodes and hands the nodes over to the
+// sorting algorithm. A node which is not handed over stays in the container.
+static bool sortDeferredNodes(Nodeset *nodeset, NodeContainer *deferred)
 {
-    bool allRefTypesKnown = false;
-    while (!allRefTypesKnown)
+    for (size_t i = 0; i < deferred->size; i++)
     {
-        allRefTypesKnown = true;
-        for (size_t i = 0; i < nodeset->refTypesWithUnknownRefs->size; i++)
+        NL_Node *node = deferred->nodes[i];
+        if (!node)
         {
-            allRefTypesKnown = lookupUnknownReferences(
-                nodeset, nodeset->refTypesWithUnknownRefs->nodes[i]);
+            continue;
+        }
+        if (!lookupUnknownReferences(nodeset, node))
+        {
+            UA_String nodeIdStr = {0};
+            UA_NodeId_print(&node->id, &nodeIdStr);
+            nodeset->logger->log(
+                nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
+                "node with unresolved reference(s): NodeId(%.*s)",
+                (int)nodeIdStr.length, (char *)nodeIdStr.data);
+            UA_String_clear(&nodeIdStr);
+            return false;
+        }
+        if (Sort_addNode(nodeset->sortCtx, node))
+        {
+            deferred->nodes[i] = NULL;
+        }
+        else
+        {
+            nodeset->logger->log(nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
+                                 "node was not added to sorting algorithm, already exists");
         }
     }
-
-    for (size_t i = 0; i < nodeset->refTypesWithUnknownRefs->size; i++)
-    {
-        Sort_addNode(nodeset->sortCtx,
-                     nodeset->refTypesWithUnknownRefs->nodes[i]);
-    }
+    return true;
 }
 
 bool Nodeset_sort(Nodeset *nodeset)
 {
     // first we have to figure out, if there are reference types, for which we
     // cannot state if they are hierachical or nonhierachical
-    lookupReferenceTypes(nodeset);
+    if (!sortDeferredNodes(nodeset, nodeset->refTypesWithUnknownRefs))
+    {
+        return false;
+    }
     // all hierachical references of a node should be known at this point
     // if there are nodes with unknown references, the import will be aborted
-    for (size_t i = 0; i < nodeset->nodesWithUnknownRefs->size; i++)
+    if (!sortDeferredNodes(nodeset, nodeset->nodesWithUnknownRefs))
     {
-        bool result = lookupUnknownReferences(
-            nodeset, nodeset->nodesWithUnknownRefs->nodes[i]);
-        if (!result)
-        {
-            UA_String nodeIdStr = {0};
-            UA_NodeId_print(&nodeset->nodesWithUnknownRefs->nodes[i]->id,
-                            &nodeIdStr);
-            nodeset->logger->log(
-                nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
-                "node with unresolved reference(s): NodeId(%.*s)",
-                (int)nodeIdStr.length, (char *)nodeIdStr.data);
-            UA_String_clear(&nodeIdStr);
-            return false;
-        }
-        Sort_addNode(nodeset->sortCtx, nodeset->nodesWithUnknownRefs->nodes[i]);
+        return false;
     }
 
     return Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
@@ -528,6 +532,8 @@ void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
         if (node->nodeClass == NODECLASS_REFERENCETYPE)
         {
             NodeContainer_add(nodeset->refTypesWithUnknownRefs, node);
+            nodeset->refService->addNewReferenceType(
+                nodeset->refService->context, (NL_ReferenceTypeNode *)node);
         }
         else
         {
diff --git a/src/nodes/Node.c b/src/nodes/Node.c
index 6527707..72869bf 100644
--- a/src/nodes/Node.c
+++ b/src/nodes/Node.c
@@ -61,6 +61,10 @@ static void deleteRef(NL_Reference *ref)
 
 void Node_delete(NL_Node *node)
 {
+    if(!node)
+    {
+        return;
+    }
     UA_NodeId_clear(&node->id);
     deleteRef(node->hierachicalRefs);
     deleteRef(node->nonHierachicalRefs);
-- 
2.43.0


From 1d510bf552d473a7884bc3bb86c1e7f76c57c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 10/52] fix: release the nodes which are left over when sorting
 fails

---
 src/Sort.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Sort.c b/src/Sort.c
index 9ee81c3..ef697d7 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -6,6 +6,7 @@
  */
 
 #include "Sort.h"
+#include "nodes/Node.h"
 
 #include <assert.h>
 #include <stdio.h>
@@ -267,6 +268,8 @@ static void cleanupSubtree(S_Node *n)
     cleanupSubtree(n->left);
     cleanupSubtree(n->right);
     cleanupEdges(n->edges);
+    // still set if the node was never handed out
+    Node_delete(n->data);
     free(n);
 }
 
@@ -363,6 +366,7 @@ bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
             if (ctx->head->data != NULL)
             {
                 callback(nodeset, ctx->head->data);
+                ctx->head->data = NULL;
             }
 
             ctx->head->id = NULL;
-- 
2.43.0


From 18172b69e9e601d817b549b3b4ced4d81c343ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 11/52] fix: let the nodeset release the nodes left over by a
 failed sort

---
 src/Nodeset.c |  6 ++++++
 src/Sort.c    | 25 ++++++++++++++++++++++---
 src/Sort.h    |  2 ++
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index b5a1bc5..9b6de6c 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -273,6 +273,11 @@ bool Nodeset_sort(Nodeset *nodeset)
                       nodeset->logger);
 }
 
+static void Nodeset_deleteNode(Nodeset *nodeset, NL_Node *node)
+{
+    Node_delete(node);
+}
+
 void Nodeset_cleanup(Nodeset *nodeset)
 {
     CharArenaAllocator_delete(nodeset->charArena);
@@ -284,6 +289,7 @@ void Nodeset_cleanup(Nodeset *nodeset)
     NodeContainer_delete(nodeset->nodesWithUnknownRefs);
     NodeContainer_delete(nodeset->refTypesWithUnknownRefs);
     NamespaceList_delete(nodeset->namespaces);
+    Sort_handOutRemaining(nodeset->sortCtx, nodeset, Nodeset_deleteNode);
     Sort_cleanup(nodeset->sortCtx);
     NL_BiDirectionalReference *ref = nodeset->hasEncodingRefs;
     while (ref)
diff --git a/src/Sort.c b/src/Sort.c
index ef697d7..dd9bceb 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -6,7 +6,6 @@
  */
 
 #include "Sort.h"
-#include "nodes/Node.h"
 
 #include <assert.h>
 #include <stdio.h>
@@ -268,11 +267,31 @@ static void cleanupSubtree(S_Node *n)
     cleanupSubtree(n->left);
     cleanupSubtree(n->right);
     cleanupEdges(n->edges);
-    // still set if the node was never handed out
-    Node_delete(n->data);
     free(n);
 }
 
+static void handOutSubtree(S_Node *n, struct Nodeset *nodeset,
+                           Sort_SortedNodeCallback callback)
+{
+    if (!n)
+    {
+        return;
+    }
+    handOutSubtree(n->left, nodeset, callback);
+    handOutSubtree(n->right, nodeset, callback);
+    if (n->data)
+    {
+        callback(nodeset, n->data);
+        n->data = NULL;
+    }
+}
+
+void Sort_handOutRemaining(SortContext *ctx, struct Nodeset *nodeset,
+                           Sort_SortedNodeCallback callback)
+{
+    handOutSubtree(ctx->root1, nodeset, callback);
+}
+
 void Sort_cleanup(SortContext *ctx)
 {
     if (ctx->root1)
diff --git a/src/Sort.h b/src/Sort.h
index 047172f..699db77 100644
--- a/src/Sort.h
+++ b/src/Sort.h
@@ -25,6 +25,8 @@ void Sort_cleanup(SortContext * ctx);
 bool Sort_addNode(SortContext* ctx, struct NL_Node *node);
 typedef void (*Sort_SortedNodeCallback)(struct Nodeset *nodeset, struct NL_Node *node);
 bool Sort_start(SortContext* ctx, struct Nodeset *nodeset, Sort_SortedNodeCallback callback, struct NodesetLoader_Logger* logger);
+// hands out the nodes which were added, but not handed out by Sort_start
+void Sort_handOutRemaining(SortContext* ctx, struct Nodeset *nodeset, Sort_SortedNodeCallback callback);
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From d5c1b5fd52a541de0fc28c167465824a8594e6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 12/52] fix: release unfinished nodes and values which are not
 attached to a variable

---
 src/NodesetLoader.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 4e80577..c5d98fe 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -10,6 +10,7 @@
 #include "Nodeset.h"
 #include "Parser.h"
 #include "Value.h"
+#include "nodes/Node.h"
 #include <assert.h>
 #include <stdlib.h>
 #include <string.h>
@@ -345,6 +346,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         break;
     case PARSER_STATE_NODE:
         Nodeset_newNodeFinish(pctx->nodeset, pctx->node);
+        pctx->node = NULL;
         pctx->state = PARSER_STATE_INIT;
         break;
     case PARSER_STATE_DISPLAYNAME:
@@ -367,7 +369,17 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         {
             /* TODO: Enable VariableType to hold a valeu */
             if(pctx->node->nodeClass == NODECLASS_VARIABLE)
-                ((NL_VariableNode *)pctx->node)->value = pctx->val;
+            {
+                NL_VariableNode *varNode = (NL_VariableNode *)pctx->node;
+                if(varNode->value)
+                    Value_delete(varNode->value);
+                varNode->value = pctx->val;
+            }
+            else
+            {
+                Value_delete(pctx->val);
+            }
+            pctx->val = NULL;
             pctx->state = PARSER_STATE_NODE;
         }
         else
@@ -504,6 +516,15 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
     Parser_delete(parser);
 
 cleanup:
+    if (ctx)
+    {
+        // only set if the document ended within a node or a value
+        Node_delete(ctx->node);
+        if (ctx->val)
+        {
+            Value_delete(ctx->val);
+        }
+    }
     free(ctx);
     if (f)
     {
-- 
2.43.0


From 9f8770b52c45d3576aa1614ece7f330b97e84d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 13/52] fix: accept a Definition only for data types and
 release the one it replaces

---
 src/NodesetLoader.c      | 3 ++-
 src/nodes/DataTypeNode.c | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index c5d98fe..b311a94 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -221,7 +221,8 @@ static void OnStartElementNs(void *ctx, const char *localname,
         {
             pctx->state = PARSER_STATE_EXTENSIONS;
         }
-        else if (!strcmp(localname, "Definition"))
+        else if (!strcmp(localname, "Definition") &&
+                 pctx->nodeClass == NODECLASS_DATATYPE)
         {
             Nodeset_addDataTypeDefinition(pctx->nodeset, pctx->node, nb_attributes,
                                      attributes);
diff --git a/src/nodes/DataTypeNode.c b/src/nodes/DataTypeNode.c
index 74add22..2c7cda9 100644
--- a/src/nodes/DataTypeNode.c
+++ b/src/nodes/DataTypeNode.c
@@ -27,6 +27,8 @@ static NL_DataTypeDefinitionField *getNewField(NL_DataTypeDefinition *definition
 
 NL_DataTypeDefinition* DataTypeDefinition_new(NL_DataTypeNode* node)
 {
+    // replaces a previous definition
+    DataTypeNode_clear(node);
     node->definition =
         (NL_DataTypeDefinition *)calloc(1, sizeof(NL_DataTypeDefinition));
     if (!node->definition)
-- 
2.43.0


From 2b3d624d825979d89ed24d8a6c23e56e71a37a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 14/52] fix: an Extension element inside an extension's content
 does not end the extension

---
 src/NodesetLoader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index b311a94..f1fd950 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -286,6 +286,7 @@ static void OnStartElementNs(void *ctx, const char *localname,
         {
             pctx->extIf->start(pctx->extensionData, localname, nb_attributes, attributes);
         }
+        pctx->unknown_depth++;
         break;
 
     case PARSER_STATE_REFERENCES:
@@ -390,7 +391,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         }
         break;
     case PARSER_STATE_EXTENSION:
-        if (!strcmp(localname, EXTENSION))
+        if (!strcmp(localname, EXTENSION) && pctx->unknown_depth == 0)
         {
             if (pctx->extIf)
             {
@@ -406,6 +407,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
                 pctx->extIf->end(pctx->extensionData, localname,
                                  pctx->onCharacters);
             }
+            pctx->unknown_depth--;
         }
         break;
     case PARSER_STATE_EXTENSIONS:
-- 
2.43.0


From ed0d87721dedeed9fbb5e123b177ece3d5406b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 15/52] fix: tolerate HasEncoding references on nodes without a
 browse name

---
 src/Nodeset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 9b6de6c..0f19315 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -557,6 +557,7 @@ void Nodeset_newReferenceFinish(Nodeset *nodeset, NL_Reference *ref,
     // handle hasEncoding in a special way
     UA_NodeId hasEncodingRef = UA_NODEID("i=38");
     if (UA_NodeId_equal(&ref->refType, &hasEncodingRef) &&
+        node->browseName.name &&
         !strcmp(node->browseName.name, "Default Binary") && !ref->isForward)
     {
         NL_BiDirectionalReference *newRef = (NL_BiDirectionalReference *)calloc(
-- 
2.43.0


From f380a295b02e8ce936d0dc52e79eb43d99e59431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 16/52] fix: do not crash when the loader is used before
 anything was imported

---
 src/NodesetLoader.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index f1fd950..060390b 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -480,6 +480,10 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
     {
         loader->nodeset = Nodeset_new(fileHandler->addNamespace, loader->logger,
                                       loader->refService);
+        if (!loader->nodeset)
+        {
+            return false;
+        }
     }
 
     TParserCtx *ctx = NULL;
@@ -538,6 +542,10 @@ cleanup:
 
 bool NodesetLoader_sort(NodesetLoader *loader)
 {
+    if (!loader->nodeset)
+    {
+        return false;
+    }
     return Nodeset_sort(loader->nodeset);
 }
 
@@ -572,7 +580,10 @@ NodesetLoader *NodesetLoader_new(NodesetLoader_Logger *logger,
 
 void NodesetLoader_delete(NodesetLoader *loader)
 {
-    Nodeset_cleanup(loader->nodeset);
+    if (loader->nodeset)
+    {
+        Nodeset_cleanup(loader->nodeset);
+    }
     if (loader->internalLogger)
     {
         free(loader->logger);
@@ -587,6 +598,10 @@ void NodesetLoader_delete(NodesetLoader *loader)
 const NL_BiDirectionalReference *
 NodesetLoader_getBidirectionalRefs(const NodesetLoader *loader)
 {
+    if (!loader->nodeset)
+    {
+        return NULL;
+    }
     return Nodeset_getBiDirectionalRefs(loader->nodeset);
 }
 
@@ -594,5 +609,9 @@ size_t NodesetLoader_forEachNode(NodesetLoader *loader, NL_NodeClass nodeClass,
                                void *context,
                                NodesetLoader_forEachNode_Func fn)
 {
+    if (!loader->nodeset)
+    {
+        return 0;
+    }
     return Nodeset_forEachNode(loader->nodeset, nodeClass, context, fn);
 }
-- 
2.43.0


From 2ad8e5cd7a40bd8cabc3fd73664bf8e0677b12f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 17/52] fix: give every reference service its own list of
 hierarchical reference types and let it grow

---
 src/InternalRefService.c | 49 ++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/InternalRefService.c b/src/InternalRefService.c
index 45e2f2c..c73f348 100644
--- a/src/InternalRefService.c
+++ b/src/InternalRefService.c
@@ -9,18 +9,21 @@
 #include "nodes/NodeContainer.h"
 #include "NodesetLoader/NodesetLoader.h"
 #include <stdlib.h>
+#include <string.h>
 
 struct InternalRefService
 {
     size_t hierachicalRefsSize;
+    size_t hierachicalRefsCapacity;
     NL_ReferenceTypeNode *hierachicalRefs;
     struct NodeContainer *nonHierachicalRefs;
 };
 
 typedef struct InternalRefService InternalRefService;
 
-#define MAX_HIERACHICAL_REFS 50
-NL_ReferenceTypeNode hierachicalRefs[MAX_HIERACHICAL_REFS] = {
+#define HIERACHICAL_REFS_INCREMENT 50
+#define HIERACHICAL_REFS_NS0 9
+static const NL_ReferenceTypeNode hierachicalRefs[HIERACHICAL_REFS_NS0] = {
     {NODECLASS_REFERENCETYPE,
      {0, UA_NODEIDTYPE_NUMERIC, {35}},
      {0, "Organizes"},
@@ -164,16 +167,30 @@ isRefTypeDef(const InternalRefService* service, const NL_Reference* ref) {
     return UA_NodeId_equal(&ref->refType, &hasTypeDefId);
 }
 
+static void
+addHierachicalRef(InternalRefService *service, const NL_ReferenceTypeNode *node) {
+    if (service->hierachicalRefsSize == service->hierachicalRefsCapacity) {
+        size_t capacity =
+            service->hierachicalRefsCapacity + HIERACHICAL_REFS_INCREMENT;
+        NL_ReferenceTypeNode *refs = (NL_ReferenceTypeNode *)realloc(
+            service->hierachicalRefs, capacity * sizeof(NL_ReferenceTypeNode));
+        if (!refs)
+            return;
+        service->hierachicalRefs = refs;
+        service->hierachicalRefsCapacity = capacity;
+    }
+    service->hierachicalRefs[service->hierachicalRefsSize++] = *node;
+}
+
 static void
 addnewRefTypeImpl(InternalRefService *service, NL_ReferenceTypeNode *node) {
     NL_Reference *ref = node->hierachicalRefs;
     bool isHierachical = false;
-    while (ref) {
+    while (ref && !isHierachical) {
         if (!ref->isForward) {
             for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
                 if (UA_NodeId_equal(&service->hierachicalRefs[i].id, &ref->target)) {
-                    service->hierachicalRefs[service->hierachicalRefsSize++] =
-                        *(NL_ReferenceTypeNode *)node;
+                    addHierachicalRef(service, node);
                     isHierachical = true;
                     break;
                 }
@@ -194,13 +211,30 @@ NL_ReferenceService *InternalRefService_new(void)
     {
         return NULL;
     }
-    service->hierachicalRefs = hierachicalRefs;
-    service->hierachicalRefsSize = 9;
+    // every service has its own list, it grows with the imported nodesets
+    service->hierachicalRefs = (NL_ReferenceTypeNode *)calloc(
+        HIERACHICAL_REFS_INCREMENT, sizeof(NL_ReferenceTypeNode));
+    if(!service->hierachicalRefs)
+    {
+        free(service);
+        return NULL;
+    }
+    memcpy(service->hierachicalRefs, hierachicalRefs, sizeof(hierachicalRefs));
+    service->hierachicalRefsSize = HIERACHICAL_REFS_NS0;
+    service->hierachicalRefsCapacity = HIERACHICAL_REFS_INCREMENT;
     service->nonHierachicalRefs = NodeContainer_new(100, false);
+    if(!service->nonHierachicalRefs)
+    {
+        free(service->hierachicalRefs);
+        free(service);
+        return NULL;
+    }
 
     NL_ReferenceService *refService = (NL_ReferenceService *)calloc(1, sizeof(NL_ReferenceService));
     if(!refService)
     {
+        NodeContainer_delete(service->nonHierachicalRefs);
+        free(service->hierachicalRefs);
         free(service);
         return NULL;
     }
@@ -220,6 +254,7 @@ void InternalRefService_delete(NL_ReferenceService *refService)
     InternalRefService *internalService =
         (InternalRefService *)refService->context;
     NodeContainer_delete(internalService->nonHierachicalRefs);
+    free(internalService->hierachicalRefs);
     free(internalService);
     free(refService);
 }
-- 
2.43.0


From 632151f9d827482a5f1b504a19fd03f3e2d21f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 18/52] fix: do not apply the namespaces and aliases of one
 file to the next one

---
 src/Nodeset.c       | 20 ++++++++++++++++++++
 src/Nodeset.h       |  2 ++
 src/NodesetLoader.c |  4 ++++
 3 files changed, 26 insertions(+)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 0f19315..63088a5 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -184,6 +184,26 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     return nodeset;
 }
 
+bool Nodeset_startFile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback)
+{
+    AliasList *aliasList = AliasList_new();
+    if (!aliasList)
+    {
+        return false;
+    }
+    NamespaceList *namespaces = NamespaceList_new(nsCallback);
+    if (!namespaces)
+    {
+        AliasList_delete(aliasList);
+        return false;
+    }
+    AliasList_delete(nodeset->aliasList);
+    nodeset->aliasList = aliasList;
+    NamespaceList_delete(nodeset->namespaces);
+    nodeset->namespaces = namespaces;
+    return true;
+}
+
 static void Nodeset_addNode(Nodeset *nodeset, NL_Node *node)
 {
     NodeContainer_add(nodeset->nodes[node->nodeClass], node);
diff --git a/src/Nodeset.h b/src/Nodeset.h
index bc67733..95e0260 100644
--- a/src/Nodeset.h
+++ b/src/Nodeset.h
@@ -40,6 +40,8 @@ struct Nodeset
 };
 
 Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback, NodesetLoader_Logger* logger, NL_ReferenceService* refService);
+// aliases and namespace indices are local to a file
+bool Nodeset_startFile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback);
 void Nodeset_cleanup(Nodeset *nodeset);
 bool Nodeset_sort(Nodeset *nodeset);
 NL_Node *Nodeset_newNode(Nodeset *nodeset, NL_NodeClass nodeClass,
diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 060390b..a2f88a7 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -485,6 +485,10 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
             return false;
         }
     }
+    else if (!Nodeset_startFile(loader->nodeset, fileHandler->addNamespace))
+    {
+        return false;
+    }
 
     TParserCtx *ctx = NULL;
     FILE *f = fopen(fileHandler->file, "r");
-- 
2.43.0


From 95c7f0aae7d0e2b480877b5ba3c4faa50dcb5a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 19/52] fix: ignore elements after the end of a value instead
 of replacing its data

---
 src/Value.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Value.c b/src/Value.c
index c14153b..5f88dfd 100644
--- a/src/Value.c
+++ b/src/Value.c
@@ -48,7 +48,12 @@ void Value_start(NL_Value *val, const char *name)
     switch (val->ctx->state)
     {
     case PARSERSTATE_INIT:
-        if (!strncmp(name, "ListOf", strlen("ListOf")))
+        // the value is complete, only an open list can have further members
+        if (val->data && !(val->ctx->currentData && !strcmp(name, "ExtensionObject")))
+        {
+            val->ctx->state = PARSERSTATE_FINISHED;
+        }
+        else if (!strncmp(name, "ListOf", strlen("ListOf")))
         {
             val->ctx->state = PARSERSTATE_LISTOF;
             val->isArray = true;
@@ -97,6 +102,12 @@ void Value_start(NL_Value *val, const char *name)
         }
         break;
     case PARSERSTATE_EXTENSIONOBJECT_BODY:
+        // a body holds one element
+        if (val->data && !val->ctx->currentData)
+        {
+            val->ctx->state = PARSERSTATE_FINISHED;
+            break;
+        }
         val->ctx->state = PARSERSTATE_DATA;
         if (!val->ctx->currentData)
         {
-- 
2.43.0


From 1f1bbbf31fa8ef7705b9ad4376c12ccb204913e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:26 +0000
Subject: [PATCH 20/52] fix: keep the sorting's graph usable after a sort,
 imports and further sorts crashed

---
 src/Sort.c | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/Sort.c b/src/Sort.c
index dd9bceb..d3d9674 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -33,6 +33,7 @@ struct S_Node
     struct S_Edge *edges;
     size_t edgeCount;
     NL_Node *data;
+    bool sorted;
 };
 
 typedef struct S_Node S_Node;
@@ -59,6 +60,7 @@ static S_Node *new_node(const UA_NodeId *id)
     k->qlink = NULL;
     k->edges = NULL;
     k->data = NULL;
+    k->sorted = false;
     return k;
 }
 
@@ -182,6 +184,10 @@ record_relation(S_Node *from, S_Node *to) {
     if(UA_NodeId_equal(from->id, to->id))
         return;
 
+    // already handed out, there is nothing left to wait for
+    if(from->sorted || to->sorted)
+        return;
+
     struct S_Edge *e = (S_Edge *)calloc(1, sizeof(S_Edge));
     if(!e)
         return;
@@ -192,15 +198,16 @@ record_relation(S_Node *from, S_Node *to) {
     from->edges = e;
 }
 
-static bool count_items(SortContext *ctx, S_Node *unused)
+static bool count_items(SortContext *ctx, S_Node *k)
 {
-    ctx->keyCnt++;
+    if (!k->sorted)
+        ctx->keyCnt++;
     return false;
 }
 
 static bool scan_zeros(SortContext *ctx, S_Node *k)
 {
-    if (k->edgeCount == 0 && k->id)
+    if (k->edgeCount == 0 && !k->sorted)
     {
         if (ctx->head == NULL)
             ctx->head = k;
@@ -279,7 +286,7 @@ static void handOutSubtree(S_Node *n, struct Nodeset *nodeset,
     }
     handOutSubtree(n->left, nodeset, callback);
     handOutSubtree(n->right, nodeset, callback);
-    if (n->data)
+    if (n->data && !n->sorted)
     {
         callback(nodeset, n->data);
         n->data = NULL;
@@ -301,10 +308,24 @@ void Sort_cleanup(SortContext *ctx)
     free(ctx);
 }
 
+// A node which was only referenced so far takes part in the next sorting again
+static S_Node *lookup_node(SortContext *ctx, const UA_NodeId *id)
+{
+    S_Node *n = search_node(ctx->root1, id);
+    if (n->sorted && !n->data)
+    {
+        cleanupEdges(n->edges);
+        n->edges = NULL;
+        n->qlink = NULL;
+        n->sorted = false;
+    }
+    return n;
+}
+
 bool Sort_addNode(SortContext *ctx, NL_Node *data) {
     S_Node *j = NULL;
     // add node, no matter if there are references on it
-    j = search_node(ctx->root1, &data->id);
+    j = lookup_node(ctx, &data->id);
     // entry already exists
     if(j->data!=NULL)
     {
@@ -315,7 +336,7 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
     bool hierachicalRefRecorded = false;
     if (hierachicalRef) {
         while (hierachicalRef) {
-            S_Node *k = search_node(ctx->root1, &hierachicalRef->target);
+            S_Node *k = lookup_node(ctx, &hierachicalRef->target);
             if (!hierachicalRef->isForward) {
                 record_relation(k, j);
             } else {
@@ -333,7 +354,7 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
             return true;
         }
 
-        S_Node *k = search_node(ctx->root1, &instanceNode->parentNodeId);
+        S_Node *k = lookup_node(ctx, &instanceNode->parentNodeId);
         
         //to we already have a reference for the node parentNode?
         //parent references
@@ -372,6 +393,7 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
 bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
                 Sort_SortedNodeCallback callback, NodesetLoader_Logger *logger)
 {
+    ctx->keyCnt = 0;
     walk_tree(ctx, ctx->root1, count_items);
 
     while (ctx->keyCnt > 0)
@@ -385,10 +407,9 @@ bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
             if (ctx->head->data != NULL)
             {
                 callback(nodeset, ctx->head->data);
-                ctx->head->data = NULL;
             }
 
-            ctx->head->id = NULL;
+            ctx->head->sorted = true;
             ctx->keyCnt--;
 
             while (e)
-- 
2.43.0


From 6d50deec0cd926a705a21d34d475ad7d563a4d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:01 +0000
Subject: [PATCH 21/52] fix: do not clean up the XML library, it is shared with
 the rest of the process

---
 src/Parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Parser.c b/src/Parser.c
index c2d26de..6bcff9f 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -66,7 +66,6 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
         status = 1;
     }
     xmlFreeParserCtxt(ctxt);
-    xmlCleanupParser();
     return status;
 }
 void Parser_delete(Parser *parser) { free(parser); }
-- 
2.43.0


From 1336bd101a1cbd0102dcea81134182c5171b58db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 22/52] fix: do not use the NodeIds of a released browse result
 when looking for the parent of a data type

---
 backends/open62541/src/import.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 34cfbdc..9855d93 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -30,12 +30,13 @@ static UA_NodeId getParentDataType(UA_Server *server, const UA_NodeId id)
     bd.browseDirection = UA_BROWSEDIRECTION_INVERSE;
     bd.nodeClassMask = UA_NODECLASS_DATATYPE;
 
+    UA_NodeId parentId = UA_NODEID_NULL;
     UA_BrowseResult br = UA_Server_browse(server, 10, &bd);
-    if (br.statusCode != UA_STATUSCODE_GOOD || br.referencesSize != 1)
+    if (br.statusCode == UA_STATUSCODE_GOOD && br.referencesSize == 1)
     {
-        return UA_NODEID_NULL;
+        // the browse result owns its NodeIds
+        UA_NodeId_copy(&br.references[0].nodeId.nodeId, &parentId);
     }
-    UA_NodeId parentId = br.references[0].nodeId.nodeId;
     UA_BrowseResult_clear(&br);
     return parentId;
 }
@@ -58,11 +59,15 @@ static bool isKnownParent(const UA_NodeId typeId)
 
 static UA_NodeId getParentType(UA_Server *server, const UA_NodeId dataTypeId)
 {
-    UA_NodeId current = dataTypeId;
+    UA_NodeId current = UA_NODEID_NULL;
+    UA_NodeId_copy(&dataTypeId, &current);
     while (!isKnownParent(current))
     {
-        current = getParentDataType(server, current);
+        UA_NodeId parent = getParentDataType(server, current);
+        UA_NodeId_clear(&current);
+        current = parent;
     }
+    // known parents are numeric, there is nothing to be released
     return current;
 }
 
-- 
2.43.0


From 8303a8d2ab38ffcdd284a685d75b1619030d2ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 23/52] fix: add the encoding of a data type as a forward
 reference with NodeIds of its own

---
 backends/open62541/src/import.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 9855d93..88cafe6 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -504,9 +504,11 @@ static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
     {
         if (UA_NodeId_equal(&r->source, &node->id))
         {
+            // the node and the list of references both release their NodeIds
             NL_Reference *ref = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-            ref->refType = r->refType;
-            ref->target = r->target;
+            UA_NodeId_copy(&r->refType, &ref->refType);
+            UA_NodeId_copy(&r->target, &ref->target);
+            ref->isForward = true;
 
             NL_Reference *lastRef = node->nonHierachicalRefs;
             node->nonHierachicalRefs = ref;
-- 
2.43.0


From a6ac2ffbb715e3ea98e116d1894cbbf0b6d4a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 24/52] fix: hand the array dimensions of variable types over
 to the server, not a pointer to a dead local

---
 backends/open62541/src/import.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 88cafe6..0c48db5 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -348,21 +348,23 @@ static UA_StatusCode handleVariableTypeNode(const NL_VariableTypeNode *node, UA_
     attr.description = *description;
     attr.valueRank = atoi(node->valueRank);
     attr.isAbstract = isValTrue(node->isAbstract);
-    if (attr.valueRank >= 0)
+    UA_UInt32 noDimension = 0;
+    UA_UInt32 *arrDims = NULL;
+    attr.arrayDimensionsSize =
+        getArrayDimensions(node->arrayDimensions, &arrDims);
+    attr.arrayDimensions = arrDims;
+    if (attr.valueRank >= 0 && !arrDims)
     {
-        if (!strcmp(node->arrayDimensions, ""))
-        {
-            attr.arrayDimensionsSize = 1;
-            UA_UInt32 arrayDimensions[1];
-            arrayDimensions[0] = 0;
-            attr.arrayDimensions = &arrayDimensions[0];
-        }
+        attr.arrayDimensionsSize = 1;
+        attr.arrayDimensions = &noDimension;
     }
 
-   return UA_Server_addNode_begin(server, UA_NODECLASS_VARIABLETYPE, *id, *parentId,
-                            *parentReferenceId, *qn, UA_NODEID_NULL, &attr,
-                            &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES],
-                            node->extension, NULL);
+    UA_StatusCode status = UA_Server_addNode_begin(
+        server, UA_NODECLASS_VARIABLETYPE, *id, *parentId, *parentReferenceId,
+        *qn, UA_NODEID_NULL, &attr,
+        &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES], node->extension, NULL);
+    UA_free(arrDims);
+    return status;
 }
 
 static UA_StatusCode handleDataTypeNode(const NL_DataTypeNode *node, UA_NodeId *id,
-- 
2.43.0


From f8be73b9417cccfc08873a05f032914733331f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 25/52] fix: convert values of UInt32, Int64 and UInt64 with
 the range of their type

---
 backends/open62541/src/Value.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 59bd496..3e5d112 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -57,17 +57,17 @@ static void setInt32(uintptr_t adr, const char *value)
 
 static void setUInt32(uintptr_t adr, const char *value)
 {
-    *(UA_UInt32 *)adr = (UA_UInt32)atoi(value);
+    *(UA_UInt32 *)adr = (UA_UInt32)strtoul(value, NULL, 10);
 }
 
 static void setInt64(uintptr_t adr, const char *value)
 {
-    *(UA_Int64 *)adr = atoi(value);
+    *(UA_Int64 *)adr = strtoll(value, NULL, 10);
 }
 
 static void setUInt64(uintptr_t adr, const char *value)
 {
-    *(UA_UInt64 *)adr = (UA_UInt64)atoi(value);
+    *(UA_UInt64 *)adr = strtoull(value, NULL, 10);
 }
 
 static void setFloat(uintptr_t adr, const char *value)
-- 
2.43.0


From bee3106483f993d91d635a606bb2d1ded56def7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 26/52] fix: do not mix up the text and the members of values
 which do not fit their data type

---
 backends/open62541/src/Value.c | 103 ++++++++++++++++++++++-----------
 1 file changed, 70 insertions(+), 33 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 3e5d112..e3a7de5 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -143,10 +143,36 @@ static void setPrimitiveValue(RawData *data, const char *value,
     data->offset = data->offset + memSize;
 }
 
+// A value need not have the shape its data type asks for: there is no text in
+// an element with members and there are no members in an element with a text.
+static const char *getText(const NL_Data *value)
+{
+    if (!value || value->type != DATATYPE_PRIMITIVE)
+    {
+        return NULL;
+    }
+    return value->val.primitiveData.value;
+}
+
+static size_t getMembersSize(const NL_Data *value)
+{
+    if (!value || value->type != DATATYPE_COMPLEX)
+    {
+        return 0;
+    }
+    return value->val.complexData.membersSize;
+}
+
+static NL_Data *getMember(const NL_Data *value, size_t idx)
+{
+    return idx < getMembersSize(value) ? value->val.complexData.members[idx]
+                                       : NULL;
+}
+
 static NL_Data *lookupMember(const NL_Data *value, const char *name)
 {
     // is there a better way?
-    for (size_t cnt = 0; cnt < value->val.complexData.membersSize; cnt++)
+    for (size_t cnt = 0; cnt < getMembersSize(value); cnt++)
     {
         if (!strcmp(value->val.complexData.members[cnt]->name, name))
         {
@@ -159,8 +185,11 @@ static NL_Data *lookupMember(const NL_Data *value, const char *name)
 static void setDateTime(const NL_Data *value, RawData *data)
 {
     uintptr_t adr = (uintptr_t)data->mem + data->offset;
-    UA_DateTime time = UA_DateTime_fromString(value->val.primitiveData.value);
-    *(UA_DateTime*)adr = time;
+    const char *text = getText(value);
+    if (text)
+    {
+        *(UA_DateTime *)adr = UA_DateTime_fromString(text);
+    }
     data->offset = data->offset + sizeof(UA_DateTime);
 }
 
@@ -171,7 +200,7 @@ static void setQualifiedName(const NL_Data *value, RawData *data, const ServerCo
     setScalarValueWithAddress(
         (uintptr_t)&((UA_QualifiedName*)adr)->namespaceIndex,
         UA_DATATYPEKIND_UINT16,
-        value->val.complexData.members[0]->val.primitiveData.value);
+        getText(getMember(value, 0)));
     
     // Translate namespace index
     ((UA_QualifiedName*)adr)->namespaceIndex = 
@@ -180,7 +209,7 @@ static void setQualifiedName(const NL_Data *value, RawData *data, const ServerCo
     setScalarValueWithAddress(
         (uintptr_t)&((UA_QualifiedName*)adr)->name,
         UA_DATATYPEKIND_STRING,
-        value->val.complexData.members[1]->val.primitiveData.value);
+        getText(getMember(value, 1)));
 
     data->offset += sizeof(UA_QualifiedName);
 }
@@ -194,7 +223,7 @@ static void setLocalizedText(const NL_Data *value, RawData *data)
         setScalarValueWithAddress(data->offset + (uintptr_t) &
                                       ((UA_LocalizedText *)data->mem)->locale,
                                   UA_DATATYPEKIND_STRING,
-                                  localeData->val.primitiveData.value);
+                                  getText(localeData));
     }
 
     NL_Data *textData = lookupMember(value, "Text");
@@ -203,17 +232,15 @@ static void setLocalizedText(const NL_Data *value, RawData *data)
     {
         setScalarValueWithAddress(
             data->offset + (uintptr_t) & ((UA_LocalizedText *)data->mem)->text,
-            UA_DATATYPEKIND_STRING, textData->val.primitiveData.value);
+            UA_DATATYPEKIND_STRING, getText(textData));
     }
     data->offset += sizeof(UA_LocalizedText);
 }
 
 static void setNodeId(const NL_Data *value, RawData *data, const ServerContext *serverContext)
 {
-    assert(value->val.complexData.membersSize == 1);
     *(UA_NodeId *)((uintptr_t)data->mem + data->offset) =
-        extractNodeId((char *)(uintptr_t)value->val.complexData.members[0]
-                          ->val.primitiveData.value);
+        extractNodeId((char *)(uintptr_t)getText(getMember(value, 0)));
 
     // Translate namespace index
     (*(UA_NodeId *)((uintptr_t)data->mem + data->offset)).namespaceIndex =
@@ -228,9 +255,10 @@ static void setByteString(const NL_Data* value, RawData*data)
     int len = 0;
     unsigned char *val = NULL;
 
-    if (value->val.primitiveData.value)
+    const char *text = getText(value);
+    if (text)
     {
-        val = unbase64(value->val.primitiveData.value, (int)strlen(value->val.primitiveData.value), &len);
+        val = unbase64(text, (int)strlen(text), &len);
     }
 
     s->length = (size_t)len;
@@ -240,7 +268,11 @@ static void setByteString(const NL_Data* value, RawData*data)
 static void setGuid(const NL_Data* value, RawData*data)
 {
     uintptr_t adr = (uintptr_t)data->mem + data->offset;
-    *(UA_Guid*)adr = UA_GUID((const char *)(value->val.complexData.members[0]->val.primitiveData.value));
+    const char *text = getText(getMember(value, 0));
+    if (text)
+    {
+        *(UA_Guid *)adr = UA_GUID(text);
+    }
     data->offset = data->offset + sizeof(UA_Guid);
 }
 
@@ -251,6 +283,10 @@ static void setArray(const NL_Data *value, const UA_DataType *type, RawData *dat
 
 static const char* getEnumValuePos(const char *string)
 {
+    if (!string)
+    {
+        return NULL;
+    }
     // Enum value is either on <symbol>_<value> or <value> format
     char *enumSepPos = strchr(string, '_');
     if (enumSepPos)
@@ -264,7 +300,6 @@ static void setStructure(const NL_Data *value, const UA_DataType *type,
                          RawData *data, const UA_DataType *customTypes,
                          const ServerContext *serverContext)
 {
-    assert(value->type == DATATYPE_COMPLEX);
     // there can be less members specified then the type requires
     for (const UA_DataTypeMember *m = type->members;
          m != type->members + type->membersSize; m++)
@@ -281,11 +316,11 @@ static void setStructure(const NL_Data *value, const UA_DataType *type,
         if (m->isArray)
         {
             RawData *rawdata = RawData_new(data);
-            rawdata->mem = calloc(memberData->val.complexData.membersSize,
-                                  memberType->memSize);
+            rawdata->mem =
+                calloc(getMembersSize(memberData), memberType->memSize);
             setArray(memberData, memberType, rawdata, customTypes, serverContext);
             size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
-            *size = memberData->val.complexData.membersSize;
+            *size = getMembersSize(memberData);
             data->offset += sizeof(size_t);
             void **d = (void **)((uintptr_t)data->mem + data->offset);
             *d = rawdata->mem;
@@ -320,7 +355,12 @@ static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *dat
     // Remember the initial offset of the complete union
     const size_t unionOffset = data->offset;
     // Extract the switchField value
-    const UA_UInt32 switchField = (UA_UInt32)atoi(value->val.complexData.members[0]->val.primitiveData.value);
+    const char *switchText = getText(getMember(value, 0));
+    UA_UInt32 switchField = switchText ? (UA_UInt32)atoi(switchText) : 0;
+    if (switchField > type->membersSize || !getMember(value, 1))
+    {
+        switchField = 0;
+    }
     // Write out the switchField value
     *(UA_UInt32 *)((uintptr_t)data->mem + data->offset) = switchField;
     // Insert the field padding
@@ -331,18 +371,18 @@ static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *dat
     if (switchField != 0) {
         data->offset += type->members[switchField - 1].padding;
         // For convenience setup direct pointers to data and type
-        NL_Data *memberData = value->val.complexData.members[1];
+        NL_Data *memberData = getMember(value, 1);
         const UA_DataType* memberType = type->members[switchField - 1].memberType;
 
         // Write out the field value
         if (type->members[switchField - 1].isArray)
         {
             RawData *rawdata = RawData_new(data);
-            rawdata->mem = calloc(memberData->val.complexData.membersSize,
-                                    memberType->memSize);
+            rawdata->mem =
+                calloc(getMembersSize(memberData), memberType->memSize);
             setArray(memberData, memberType, rawdata, customTypes, serverContext);
             size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
-            *size = memberData->val.complexData.membersSize;
+            *size = getMembersSize(memberData);
             data->offset += sizeof(size_t);
             void **d = (void **)((uintptr_t)data->mem + data->offset);
             *d = rawdata->mem;
@@ -360,12 +400,10 @@ static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *dat
 static void setStatusCode(const NL_Data *value, RawData *data)
 {
     // StatusCode is a complex type with a primitive
-    assert(value->type == DATATYPE_COMPLEX);
-    if (value->val.complexData.membersSize == 1)
+    if (getMembersSize(value) == 1)
     {
-        NL_Data *code = value->val.complexData.members[0];
         setPrimitiveValue(
-            data, code->val.primitiveData.value, UA_DATATYPEKIND_UINT32,
+            data, getText(getMember(value, 0)), UA_DATATYPEKIND_UINT32,
             UA_TYPES[UA_TYPES_UINT32].memSize);
     }
 }
@@ -375,7 +413,7 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
 {
     if (type->typeKind < CONVERSION_TABLE_SIZE)
     {
-        setPrimitiveValue(data, value->val.primitiveData.value,
+        setPrimitiveValue(data, getText(value),
                           (UA_DataTypeKind)type->typeKind, type->memSize);
     }
     else if(type->typeKind == UA_DATATYPEKIND_BYTESTRING)
@@ -400,7 +438,7 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
     }
     else if (type->typeKind == UA_DATATYPEKIND_ENUM)
     {
-        setPrimitiveValue(data, getEnumValuePos(value->val.primitiveData.value),
+        setPrimitiveValue(data, getEnumValuePos(getText(value)),
                           UA_DATATYPEKIND_INT32,
                           UA_TYPES[UA_TYPES_INT32].memSize);
     }
@@ -429,10 +467,10 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
 static void setArray(const NL_Data *value, const UA_DataType *type, RawData *data,
                      const UA_DataType *customTypes, const ServerContext *serverContext)
 {
-    for (size_t i = 0; i < value->val.complexData.membersSize; i++)
+    for (size_t i = 0; i < getMembersSize(value); i++)
     {
         data->offset = i * type->memSize;
-        setScalar(value->val.complexData.members[i], type, data, customTypes, serverContext);
+        setScalar(getMember(value, i), type, data, customTypes, serverContext);
     }
 }
 
@@ -446,14 +484,13 @@ void Value_getData(RawData *outData, const NL_Value *value, const UA_DataType *t
 
     if (value->isArray)
     {
-        if (value->data->val.complexData.membersSize == 0)
+        if (getMembersSize(value->data) == 0)
         {
             outData = NULL;
         }
         else
         {
-            outData->mem =
-                calloc(value->data->val.complexData.membersSize, type->memSize);
+            outData->mem = calloc(getMembersSize(value->data), type->memSize);
             setArray(value->data, type, outData, customTypes, serverContext);
         }
     }
-- 
2.43.0


From 188b82df77a11bff7a1b469130537ab5fe1229bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 27/52] fix: set the members of a structure which follow a
 missing one

---
 backends/open62541/src/Value.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index e3a7de5..b290704 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -310,8 +310,9 @@ static void setStructure(const NL_Data *value, const UA_DataType *type,
         NL_Data *memberData = lookupMember(value, m->memberName);
         if (!memberData)
         {
-            data->offset += memberType->memSize;
-            return;
+            data->offset += m->isArray ? sizeof(size_t) + sizeof(void *)
+                                       : memberType->memSize;
+            continue;
         }
         if (m->isArray)
         {
-- 
2.43.0


From cb44eba89570dd603de56e48867df9ed6cb8323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 28/52] fix: take the number of an enum value from behind the
 last underscore

---
 backends/open62541/src/Value.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index b290704..673aeed 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -287,8 +287,9 @@ static const char* getEnumValuePos(const char *string)
     {
         return NULL;
     }
-    // Enum value is either on <symbol>_<value> or <value> format
-    char *enumSepPos = strchr(string, '_');
+    // Enum value is either on <symbol>_<value> or <value> format, the symbol
+    // can contain underscores
+    char *enumSepPos = strrchr(string, '_');
     if (enumSepPos)
     {
         return ++enumSepPos;
-- 
2.43.0


From 232de2f1a6aa58559f02be38a2f4e6241f1bd55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:10 +0000
Subject: [PATCH 29/52] fix: look the parts of a QualifiedName up by name, the
 namespace index can be missing

---
 backends/open62541/src/Value.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 673aeed..83753e7 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -200,7 +200,7 @@ static void setQualifiedName(const NL_Data *value, RawData *data, const ServerCo
     setScalarValueWithAddress(
         (uintptr_t)&((UA_QualifiedName*)adr)->namespaceIndex,
         UA_DATATYPEKIND_UINT16,
-        getText(getMember(value, 0)));
+        getText(lookupMember(value, "NamespaceIndex")));
     
     // Translate namespace index
     ((UA_QualifiedName*)adr)->namespaceIndex = 
@@ -209,7 +209,7 @@ static void setQualifiedName(const NL_Data *value, RawData *data, const ServerCo
     setScalarValueWithAddress(
         (uintptr_t)&((UA_QualifiedName*)adr)->name,
         UA_DATATYPEKIND_STRING,
-        getText(getMember(value, 1)));
+        getText(lookupMember(value, "Name")));
 
     data->offset += sizeof(UA_QualifiedName);
 }
-- 
2.43.0


From 1efaa222244036eeee59890959a5077d391aec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 30/52] fix: reject incomplete base64 texts, their decoding
 wrote behind the result

---
 backends/open62541/src/nodeset_base64.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/backends/open62541/src/nodeset_base64.h b/backends/open62541/src/nodeset_base64.h
index 8af13a6..aa1495c 100644
--- a/backends/open62541/src/nodeset_base64.h
+++ b/backends/open62541/src/nodeset_base64.h
@@ -162,10 +162,10 @@ unsigned char *unbase64(const char *ascii, int len, int *flen)
     }
 
     len = cb;
-    if (len < 2)
-    { // 2 accesses below would be OOB.
-        // catch empty string, return NULL as result.
-        puts("ERROR: You passed an invalid base64 string (too short). You get "
+    if (len < 4 || len % 4 != 0)
+    { // the accesses below would be OOB.
+        // catch empty and incomplete strings, return NULL as result.
+        puts("ERROR: You passed an invalid base64 string (incomplete). You get "
              "NULL back.");
         *flen = 0;
         free(safeAsciiPtr);
-- 
2.43.0


From 718803620dd1b12b1bcda06a3f8a57e37e00df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 31/52] fix: tolerate fields of data types without a name

---
 backends/open62541/src/DataTypeImporter.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 85e73eb..ac5fb9a 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -472,10 +472,13 @@ static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
         UA_NodeId typeId = node->definition->fields[i].dataType;
         member->memberType = getDataType(&typeId, customTypes, NULL);
 
-        char *memberNameCopy = (char *)UA_calloc(
-            strlen(node->definition->fields[i].name) + 1, sizeof(char));
-        memcpy(memberNameCopy, node->definition->fields[i].name,
-               strlen(node->definition->fields[i].name));
+        // the name can be missing
+        const char *fieldName = node->definition->fields[i].name
+                                    ? node->definition->fields[i].name
+                                    : "";
+        char *memberNameCopy =
+            (char *)UA_calloc(strlen(fieldName) + 1, sizeof(char));
+        memcpy(memberNameCopy, fieldName, strlen(fieldName));
         member->memberName = memberNameCopy;
         member->isOptional = node->definition->fields[i].isOptional;
         if (member->isOptional)
-- 
2.43.0


From daa566e41c463aeb8d7320c5cdd17b4918008a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 32/52] fix: do not crash on subtypes of data types without a
 description like Number

---
 backends/open62541/src/DataTypeImporter.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index ac5fb9a..eda405e 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -531,8 +531,11 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
                                const UA_NodeId parent)
 {
     const UA_DataType *parentType = UA_findDataType(&parent);
-
-    assert(parentType);
+    // abstract types like Number have no description, a Variant is used instead
+    if (!parentType)
+    {
+        parentType = &UA_TYPES[UA_TYPES_VARIANT];
+    }
 
     type->typeId = node->id;
     type->binaryEncodingId = parentType->binaryEncodingId;
-- 
2.43.0


From aec63068bcf745b77c0d227d35133feba02b9ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 33/52] fix: do not search the list of reference types a new
 one is being added to

---
 backends/open62541/src/RefServiceImpl.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index f018c00..81bebd7 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -95,15 +95,20 @@ static void getRefs(UA_Server *server, RefServiceImpl *impl,
 }
 
 static bool
-isInContainer(const RefContainer c, const NL_Reference *ref) {
-    for (const UA_NodeId *id = c.ids; id != c.ids + c.size; id++)
+containsId(const RefContainer *c, const UA_NodeId *wanted) {
+    for (const UA_NodeId *id = c->ids; id != c->ids + c->size; id++)
     {
-        if (UA_NodeId_equal(&ref->refType, id))
+        if (UA_NodeId_equal(wanted, id))
             return true;
     }
     return false;
 }
 
+static bool
+isInContainer(const RefContainer c, const NL_Reference *ref) {
+    return containsId(&c, &ref->refType);
+}
+
 static bool isNonHierachicalRef(const RefServiceImpl *service,
                                 const NL_Reference *ref)
 {
@@ -127,16 +132,12 @@ static void addnewRefType(RefServiceImpl *service, NL_ReferenceTypeNode *node)
     bool isHierachical = false;
     while (ref) {
         if (!ref->isForward) {
-            for (size_t i = 0; i < service->hierachicalRefs.size; i++) {
-                if (UA_NodeId_equal(&service->hierachicalRefs.ids[i], &ref->target)) {
-                    addToRefs(&service->hierachicalRefs, node->id);
-                    isHierachical = true;
-                }
-            }
-            for (size_t i = 0; i < service->hasTypeDefRefs.size; i++) {
-                if (UA_NodeId_equal(&service->hasTypeDefRefs.ids[i], &ref->target))
-                    addToRefs(&service->hasTypeDefRefs, node->id);
+            if (containsId(&service->hierachicalRefs, &ref->target)) {
+                addToRefs(&service->hierachicalRefs, node->id);
+                isHierachical = true;
             }
+            if (containsId(&service->hasTypeDefRefs, &ref->target))
+                addToRefs(&service->hasTypeDefRefs, node->id);
         }
         ref = ref->next;
     }
-- 
2.43.0


From aa219f0bb905d048265d7a48144e8e92f8395bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 34/52] fix: give data types their own copies of the NodeIds,
 they outlive the nodes

---
 backends/open62541/src/DataTypeImporter.c | 11 +++++------
 backends/open62541/src/customDataType.c   |  2 ++
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index eda405e..e0f56ac 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -31,7 +31,8 @@ static UA_NodeId getBinaryEncodingId(const NL_DataTypeNode *node)
     {
         if (UA_NodeId_equal(&encodingRefType, &ref->refType))
         {
-            UA_NodeId id = ref->target;
+            UA_NodeId id = UA_NODEID_NULL;
+            UA_NodeId_copy(&ref->target, &id);
             return id;
         }
         ref = ref->next;
@@ -502,7 +503,6 @@ static void StructureDataType_init(const DataTypeImporter *importer,
     {
         type->typeKind = UA_DATATYPEKIND_STRUCTURE;
     }
-    type->typeId = node->id;
     type->binaryEncodingId = getBinaryEncodingId(node);
     type->pointerFree = true;
     if (!isOptionSet)
@@ -516,7 +516,6 @@ static void EnumDataType_init(const DataTypeImporter *importer,
                               UA_DataType *enumType,
                               const NL_DataTypeNode *node)
 {
-    enumType->typeId = node->id;
     enumType->typeKind = UA_DATATYPEKIND_ENUM;
     enumType->binaryEncodingId = UA_NODEID_NULL;
     enumType->pointerFree = true;
@@ -537,8 +536,7 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
         parentType = &UA_TYPES[UA_TYPES_VARIANT];
     }
 
-    type->typeId = node->id;
-    type->binaryEncodingId = parentType->binaryEncodingId;
+    UA_NodeId_copy(&parentType->binaryEncodingId, &type->binaryEncodingId);
     type->members = NULL;
     type->membersSize = 0;
     type->memSize = parentType->memSize;
@@ -636,7 +634,8 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
     UA_DataType *type = (UA_DataType *)(uintptr_t)&importer->types
                             ->types[importer->types->typesSize];
     memset(type, 0, sizeof(UA_DataType));
-    type->typeId = node->id;
+    // the type outlives the node
+    UA_NodeId_copy(&node->id, &type->typeId);
     if (node->browseName.name)
     {
         size_t len = strlen(node->browseName.name);
diff --git a/backends/open62541/src/customDataType.c b/backends/open62541/src/customDataType.c
index f499d98..34409e9 100644
--- a/backends/open62541/src/customDataType.c
+++ b/backends/open62541/src/customDataType.c
@@ -44,6 +44,8 @@ static void cleanupCustomTypes(const UA_DataTypeArray *types)
                  type != types->types + types->typesSize; type++)
             {
                 free((void*)(uintptr_t)type->typeName);
+                UA_NodeId_clear((UA_NodeId*)(uintptr_t)&type->typeId);
+                UA_NodeId_clear((UA_NodeId*)(uintptr_t)&type->binaryEncodingId);
                 for (UA_DataTypeMember *m = type->members;
                      m != type->members + type->membersSize; m++)
                 {
-- 
2.43.0


From 49f5f6afca54f993fe0311e23e798f29dd68bc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 35/52] fix: do not divide by the alignment of types without
 members, unions and DataValues

---
 backends/open62541/src/DataTypeImporter.c | 49 ++++++++++++++---------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index e0f56ac..4c33d28 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -192,6 +192,21 @@ typedef struct
     char c;
     UA_Guid member;
 } TempGuid;
+typedef struct
+{
+    char c;
+    UA_DataValue member;
+} TempDataValue;
+typedef struct
+{
+    char c;
+    size_t member;
+} TempSizeT;
+typedef struct
+{
+    char c;
+    void *member;
+} TempVoidPtr;
 
 static int getAlignment(const UA_DataType *type,
                         const UA_DataTypeArray *customTypes)
@@ -246,19 +261,24 @@ static int getAlignment(const UA_DataType *type,
         return offsetof(TempInt32, member);
     case UA_DATATYPEKIND_EXTENSIONOBJECT:
         return offsetof(TempExtensionObject, member);
-    case UA_DATATYPEKIND_UNION:
-        return 0;
+    case UA_DATATYPEKIND_DATAVALUE:
+        return offsetof(TempDataValue, member);
     case UA_DATATYPEKIND_GUID:
         return offsetof(TempGuid, member);
+    case UA_DATATYPEKIND_UNION:
     case UA_DATATYPEKIND_STRUCTURE:
-    case UA_DATATYPEKIND_OPTSTRUCT:
-        // here we have to take a look on the first member
-        assert(type->members);
-        int retAlignment = 0;
+    case UA_DATATYPEKIND_OPTSTRUCT:;
+        // a union starts with its switch field, there can be no members
+        int retAlignment = type->typeKind == UA_DATATYPEKIND_UNION
+                               ? (int)offsetof(TempUInt32, member)
+                               : 1;
         for (UA_UInt32 i = 0; i < type->membersSize; i++)
         {
-            const UA_DataType *memberType = type->members[i].memberType;
-            int tmp = getAlignment(memberType, customTypes);
+            const UA_DataTypeMember *member = &type->members[i];
+            // arrays and optional members are stored behind a pointer
+            int tmp = member->isArray || member->isOptional
+                          ? (int)offsetof(TempVoidPtr, member)
+                          : getAlignment(member->memberType, customTypes);
             if (tmp > retAlignment)
             {
                 retAlignment = tmp;
@@ -268,20 +288,9 @@ static int getAlignment(const UA_DataType *type,
     }
 
     assert(false && "typeKind not handled");
-    return 0;
+    return 1;
 }
 
-typedef struct
-{
-    char c;
-    size_t member;
-} TempSizeT;
-typedef struct
-{
-    char c;
-    void *member;
-} TempVoidPtr;
-
 static void setPaddingMemsize(UA_DataType *type,
                               const UA_DataTypeArray *customTypes)
 {
-- 
2.43.0


From c03cd1cd0e51f9aded7cd0c07dad6f32cb118052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:19 +0000
Subject: [PATCH 36/52] fix: terminate when the size of a data type cannot be
 calculated

---
 backends/open62541/src/DataTypeImporter.c | 46 +++++++++++++++++++----
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 4c33d28..51eabb6 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -443,7 +443,8 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
             type->members = members;
             type->membersSize =
                 (uint8_t)(parentType->membersSize + type->membersSize);
-            type->memSize = parentType->memSize;
+            // not known yet
+            type->memSize = 0;
             memberOffset = parentType->membersSize;
         }
     }
@@ -558,7 +559,8 @@ static bool readyForMemsizeCalc(const UA_DataType *type,
                                 const UA_DataType *customTypes)
 {
     if (type->typeKind != UA_DATATYPEKIND_STRUCTURE &&
-        type->typeKind != UA_DATATYPEKIND_OPTSTRUCT)
+        type->typeKind != UA_DATATYPEKIND_OPTSTRUCT &&
+        type->typeKind != UA_DATATYPEKIND_UNION)
     {
         return true;
     }
@@ -570,7 +572,10 @@ static bool readyForMemsizeCalc(const UA_DataType *type,
     for (UA_DataTypeMember *m = type->members;
          m != type->members + type->membersSize; m++)
     {
-        if (m->memberType && m->memberType->memSize > 0)
+        // arrays and optional members are stored behind a pointer, the size of
+        // their type is not needed
+        if (m->memberType &&
+            (m->isArray || m->isOptional || m->memberType->memSize > 0))
         {
             continue;
         }
@@ -580,13 +585,30 @@ static bool readyForMemsizeCalc(const UA_DataType *type,
     return ready;
 }
 
+// a type with members of an unknown type, or with itself as a member, has no
+// size, it is treated like a type without members
+static void removeMembers(UA_DataType *type)
+{
+    for (UA_DataTypeMember *m = type->members;
+         m != type->members + type->membersSize; m++)
+    {
+        UA_free((void *)(uintptr_t)m->memberName);
+    }
+    free(type->members);
+    type->members = NULL;
+    type->membersSize = 0;
+    type->memSize = sizeof(void *);
+}
+
 static void calcMemSize(DataTypeImporter *importer)
 {
-    bool allTypesFinished = false;
+    size_t unfinished = 0;
+    size_t lastUnfinished = 0;
     // datatype nodes could be sorted upfront to detect cyclic dependencies
-    while (!allTypesFinished)
+    do
     {
-        allTypesFinished = true;
+        lastUnfinished = unfinished;
+        unfinished = 0;
         for (UA_DataType *type =
                  (UA_DataType *)(uintptr_t)importer->types->types +
                  importer->firstNewDataType;
@@ -601,9 +623,19 @@ static void calcMemSize(DataTypeImporter *importer)
             }
             else
             {
-                allTypesFinished = false;
+                unfinished++;
             }
         }
+    } while (unfinished != 0 && unfinished != lastUnfinished);
+
+    for (UA_DataType *type = (UA_DataType *)(uintptr_t)importer->types->types +
+                             importer->firstNewDataType;
+         type != importer->types->types + importer->types->typesSize; type++)
+    {
+        if (type->members && type->memSize == 0)
+        {
+            removeMembers(type);
+        }
     }
 }
 
-- 
2.43.0


From e19dcba17b7dca8d3542bab39ac3760e500fc7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:19 +0000
Subject: [PATCH 37/52] fix: do not write behind the array of custom data types

---
 backends/open62541/src/DataTypeImporter.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 51eabb6..2743837 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -670,7 +670,11 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
         importer->types->types =
             (UA_DataType *)calloc(1000, sizeof(UA_DataType));
     }
-    assert(importer->types->typesSize < 1000);
+    // there is no room for more types
+    if (importer->types->typesSize >= 1000)
+    {
+        return;
+    }
 
     UA_DataType *type = (UA_DataType *)(uintptr_t)&importer->types
                             ->types[importer->types->typesSize];
-- 
2.43.0


From e4b5c4afa220ebcaa2156748e4ca9d65551cdf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 38/52] fix: add nodes with the type of the reference to their
 parent

---
 backends/open62541/src/import.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 0c48db5..c27122d 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -89,19 +89,28 @@ static UA_NodeId getReferenceTarget(const NL_Reference *ref)
     return ref->target;
 }
 
-static NL_Reference *getHierachicalInverseReference(const NL_Node *node)
+// the reference to the parent, any inverse reference if there is none to it
+static NL_Reference *getHierachicalInverseReference(const NL_Node *node,
+                                                    const UA_NodeId *parentId)
 {
-
+    NL_Reference *firstInverseRef = NULL;
     NL_Reference *hierachicalRef = node->hierachicalRefs;
     while (hierachicalRef)
     {
         if (!hierachicalRef->isForward)
         {
-            return hierachicalRef;
+            if (UA_NodeId_equal(&hierachicalRef->target, parentId))
+            {
+                return hierachicalRef;
+            }
+            if (!firstInverseRef)
+            {
+                firstInverseRef = hierachicalRef;
+            }
         }
         hierachicalRef = hierachicalRef->next;
     }
-    return NULL;
+    return firstInverseRef;
 }
 
 static UA_NodeId getParentId(const NL_Node *node, UA_NodeId *parentRefId)
@@ -112,7 +121,7 @@ static UA_NodeId getParentId(const NL_Node *node, UA_NodeId *parentRefId)
     {
         parentId = ((const NL_InstanceNode*)node)->parentNodeId;
     }
-    NL_Reference *ref = getHierachicalInverseReference((const NL_Node *)node);
+    NL_Reference *ref = getHierachicalInverseReference(node, &parentId);
     *parentRefId = getReferenceTypeId(ref);
     if (UA_NodeId_equal(&parentId, &UA_NODEID_NULL))
     {
-- 
2.43.0


From 00a6b2bfe03ea34be971bb4098073615f7ad4257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 39/52] fix: follow only HasSubtype references to the parent of
 a data type

---
 backends/open62541/src/import.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index c27122d..fc8d456 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -28,6 +28,8 @@ static UA_NodeId getParentDataType(UA_Server *server, const UA_NodeId id)
     UA_BrowseDescription_init(&bd);
     bd.nodeId = id;
     bd.browseDirection = UA_BROWSEDIRECTION_INVERSE;
+    bd.includeSubtypes = true;
+    bd.referenceTypeId = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
     bd.nodeClassMask = UA_NODECLASS_DATATYPE;
 
     UA_NodeId parentId = UA_NODEID_NULL;
-- 
2.43.0


From 026154c43fe10bdef09eef0c97fd5f96e624da42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 40/52] fix: browse all subtypes of a reference type

---
 backends/open62541/src/RefServiceImpl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index 81bebd7..b27091b 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -50,7 +50,8 @@ static void iterate(UA_Server *server, const UA_NodeId *startId, browseFnc fnc,
     bd.resultMask = UA_BROWSERESULTMASK_BROWSENAME;
     bd.nodeId = *startId;
     bd.nodeClassMask = UA_NODECLASS_REFERENCETYPE;
-    UA_BrowseResult br = UA_Server_browse(server, 100, &bd);
+    // no limit, all subtypes are needed
+    UA_BrowseResult br = UA_Server_browse(server, 0, &bd);
     if (br.statusCode == UA_STATUSCODE_GOOD)
     {
         for (UA_ReferenceDescription *rd = br.references;
-- 
2.43.0


From a6749fa1903e9ef0ed28539fb2d096e3d479ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 41/52] fix: place arrays in unions behind the switch field

---
 backends/open62541/src/DataTypeImporter.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 2743837..b535682 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -319,6 +319,13 @@ static void setPaddingMemsize(UA_DataType *type,
             // we rely here that its an size_t
             int align = offsetof(TempSizeT, member);
             tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
+            // the fields of an union start behind the switch field
+            if (type->typeKind == UA_DATATYPEKIND_UNION)
+            {
+                tm->padding =
+                    (UA_Byte)(sizeof(UA_UInt32) +
+                              getPadding(align, (int)sizeof(UA_UInt32)));
+            }
             offset = offset + tm->padding + (UA_Byte)sizeof(size_t);
             // the void* for data
             align = offsetof(TempVoidPtr, member);
-- 
2.43.0


From d15a036c28f788c8264abab064c36fd9529b2935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:14 +0000
Subject: [PATCH 42/52] fix: lay out imported data types like the C structs
 with the same members

---
 backends/open62541/src/DataTypeImporter.c | 101 +++++++---------------
 1 file changed, 33 insertions(+), 68 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index b535682..1aa24d2 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -298,12 +298,11 @@ static void setPaddingMemsize(UA_DataType *type,
     {
         return;
     }
+    // the layout is the one of a C struct with the same members
+    const int alignment = getAlignment(type, customTypes);
+    const UA_Boolean isUnion = type->typeKind == UA_DATATYPEKIND_UNION;
     int offset = 0;
-    int endPadding = 0;
-
-    UA_UInt16 biggestMemberSize = 0;
-
-    UA_Boolean hasArrayMember = false;
+    int biggestMemberSize = 0;
 
     for (UA_DataTypeMember *tm = type->members;
          tm < type->members + type->membersSize; tm++)
@@ -311,90 +310,56 @@ static void setPaddingMemsize(UA_DataType *type,
         const UA_DataType *memberType = tm->memberType;
         type->pointerFree = type->pointerFree && memberType->pointerFree;
 
+        int align = offsetof(TempVoidPtr, member);
+        int memberSize = (int)sizeof(void *);
         if (tm->isArray)
         {
             // for arrays we have to take the size_t for the arraySize into
             // account if the open changes the implementation of array
             // serialization, we have a serious problem
-            // we rely here that its an size_t
-            int align = offsetof(TempSizeT, member);
-            tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            // the fields of an union start behind the switch field
-            if (type->typeKind == UA_DATATYPEKIND_UNION)
-            {
-                tm->padding =
-                    (UA_Byte)(sizeof(UA_UInt32) +
-                              getPadding(align, (int)sizeof(UA_UInt32)));
-            }
-            offset = offset + tm->padding + (UA_Byte)sizeof(size_t);
-            // the void* for data
-            align = offsetof(TempVoidPtr, member);
-            int padding2 = getPadding(align, offset);
-            offset = offset + padding2 + (UA_Byte)sizeof(void *);
+            // we rely here that its an size_t, the void* for data follows
+            // without padding
+            align = offsetof(TempSizeT, member);
+            memberSize = (int)(sizeof(size_t) + sizeof(void *));
             // datatype is not pointerfree
             type->pointerFree = false;
-
-            if (sizeof(void *) > biggestMemberSize)
-            {
-                biggestMemberSize = sizeof(void *);
-            }
-
-            hasArrayMember = true;
         }
         else if (tm->isOptional)
         {
-            int align = offsetof(TempVoidPtr, member);
-            tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            offset = offset + tm->padding + (UA_Byte)sizeof(void *);
             type->pointerFree = false;
-            if (sizeof(void *) > biggestMemberSize)
-            {
-                biggestMemberSize = sizeof(void *);
-            }
         }
         else
         {
-            // add the switchfield to the padding of the first datatype member
-            if (type->typeKind == UA_DATATYPEKIND_UNION)
-            {
-                tm->padding = (UA_Byte)sizeof(UA_UInt32);
-            }
-            else if (memberType->typeKind != UA_DATATYPEKIND_UNION)
-            {
-                int align = getAlignment(memberType, customTypes);
-                tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            }
+            align = getAlignment(memberType, customTypes);
+            memberSize = memberType->memSize;
+        }
 
-            offset = offset + tm->padding + memberType->memSize;
-            // padding after struct at end is needed
-            if (memberType->memSize > sizeof(size_t))
-            {
-                endPadding = memberType->memSize % sizeof(size_t);
-            }
-            if (memberType->memSize > biggestMemberSize)
-            {
-                biggestMemberSize = memberType->memSize;
-            }
+        if (isUnion)
+        {
+            // the fields of a union share the place behind the switch field,
+            // its size is part of the padding
+            tm->padding =
+                (UA_Byte)(sizeof(UA_UInt32) +
+                          getPadding(alignment, (int)sizeof(UA_UInt32)));
         }
-    }
-    if (type->typeKind == UA_DATATYPEKIND_UNION)
-    {
-        // add the switch field
-        type->memSize = sizeof(UA_Int32);
-        int padding = getPadding(offsetof(TempUInt32, member), 0);
-        type->memSize = (UA_UInt16)(type->memSize + padding);
-        type->memSize = (UA_UInt16)(type->memSize + biggestMemberSize);
-        if (hasArrayMember)
+        else
         {
-            type->memSize = (UA_UInt16)(type->memSize + sizeof(size_t));
+            tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
+            offset = offset + tm->padding + memberSize;
+        }
+        if (memberSize > biggestMemberSize)
+        {
+            biggestMemberSize = memberSize;
         }
-        endPadding = getPadding(offsetof(TempSizeT, member), type->memSize);
-        type->memSize = (UA_UInt16)(type->memSize + endPadding);
     }
-    else
+    if (isUnion)
     {
-        type->memSize = (UA_UInt16)(offset + endPadding);
+        offset = (int)sizeof(UA_UInt32) +
+                 getPadding(alignment, (int)sizeof(UA_UInt32)) +
+                 biggestMemberSize;
     }
+    // padding at the end is needed for arrays of the type
+    type->memSize = (UA_UInt16)(offset + getPadding(alignment, offset));
 }
 
 static UA_NodeId getParentNode(const NL_DataTypeNode *node)
-- 
2.43.0


From 052b24829babe49e71caf1126a509182fa2a26d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 43/52] fix: treat a definition without fields like no
 definition

---
 backends/open62541/src/DataTypeImporter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 1aa24d2..d1dae2f 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -436,7 +436,7 @@ static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
                                UA_DataType *type, const NL_DataTypeNode *node)
 {
 
-    if (!node->definition)
+    if (!node->definition || node->definition->fieldCnt == 0)
     {
         type->membersSize = 0;
         type->members = NULL;
-- 
2.43.0


From 7909d89b8f7505997739bfbd12436be40c3ce280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 44/52] fix: a structure derived from one with optional members
 has them, too

---
 backends/open62541/src/DataTypeImporter.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index d1dae2f..d034dcc 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -417,6 +417,11 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
                 (uint8_t)(parentType->membersSize + type->membersSize);
             // not known yet
             type->memSize = 0;
+            // the inherited members can be optional
+            if (parentType->typeKind == UA_DATATYPEKIND_OPTSTRUCT)
+            {
+                type->typeKind = UA_DATATYPEKIND_OPTSTRUCT;
+            }
             memberOffset = parentType->membersSize;
         }
     }
-- 
2.43.0


From 367bc344fb1ca1fb554d7d22ba5a2e8b69c4176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:20 +0000
Subject: [PATCH 45/52] fix: align data types without members like the pointer
 they are laid out as

---
 backends/open62541/src/DataTypeImporter.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index d034dcc..de94ede 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -268,7 +268,12 @@ static int getAlignment(const UA_DataType *type,
     case UA_DATATYPEKIND_UNION:
     case UA_DATATYPEKIND_STRUCTURE:
     case UA_DATATYPEKIND_OPTSTRUCT:;
-        // a union starts with its switch field, there can be no members
+        // a type without members has the size of a pointer
+        if (type->membersSize == 0)
+        {
+            return offsetof(TempVoidPtr, member);
+        }
+        // a union starts with its switch field
         int retAlignment = type->typeKind == UA_DATATYPEKIND_UNION
                                ? (int)offsetof(TempUInt32, member)
                                : 1;
-- 
2.43.0


From 09431b0fa56678655e7bdc80218363b1175ad982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:38 +0000
Subject: [PATCH 46/52] fix: inherit the members of a structure only along
 HasSubtype

---
 backends/open62541/src/DataTypeImporter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index de94ede..738f949 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -369,10 +369,11 @@ static void setPaddingMemsize(UA_DataType *type,
 
 static UA_NodeId getParentNode(const NL_DataTypeNode *node)
 {
+    UA_NodeId hasSubtype = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
     NL_Reference *ref = node->hierachicalRefs;
     while (ref)
     {
-        if (!ref->isForward)
+        if (!ref->isForward && UA_NodeId_equal(&ref->refType, &hasSubtype))
             return ref->target;
         ref = ref->next;
     }
-- 
2.43.0


From 7f427a033eed959588d489e1521bd996403e4323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:23 +0000
Subject: [PATCH 47/52] fix: add a type below its supertype, not below whatever
 organizes it

---
 backends/open62541/src/import.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index fc8d456..7a3472e 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -91,10 +91,12 @@ static UA_NodeId getReferenceTarget(const NL_Reference *ref)
     return ref->target;
 }
 
-// the reference to the parent, any inverse reference if there is none to it
+// the reference to the parent, any inverse reference if there is none to it;
+// the parent of a type is its supertype
 static NL_Reference *getHierachicalInverseReference(const NL_Node *node,
                                                     const UA_NodeId *parentId)
 {
+    UA_NodeId hasSubtype = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
     NL_Reference *firstInverseRef = NULL;
     NL_Reference *hierachicalRef = node->hierachicalRefs;
     while (hierachicalRef)
@@ -105,7 +107,9 @@ static NL_Reference *getHierachicalInverseReference(const NL_Node *node,
             {
                 return hierachicalRef;
             }
-            if (!firstInverseRef)
+            if (!firstInverseRef ||
+                (UA_NodeId_equal(&hierachicalRef->refType, &hasSubtype) &&
+                 !UA_NodeId_equal(&firstInverseRef->refType, &hasSubtype)))
             {
                 firstInverseRef = hierachicalRef;
             }
-- 
2.43.0


From 3509a84559e213ff049cf61c431b43b0e3ad385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:03 +0000
Subject: [PATCH 48/52] fix: take 1 for true like XML does

---
 backends/open62541/src/DataTypeImporter.c |  2 +-
 backends/open62541/src/conversion.h       |  3 ++-
 src/Nodeset.c                             | 22 ++++++++++++++--------
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 738f949..1a287e6 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -61,7 +61,7 @@ static const UA_DataType *getDataType(const UA_NodeId *id,
         {
             if (UA_NodeId_equal(&importer->nodes[i]->id, &type->typeId))
             {
-                if (strcmp(importer->nodes[i]->isAbstract, "true") == 0)
+                if (isValTrue(importer->nodes[i]->isAbstract))
                 {
                     return &UA_TYPES[UA_TYPES_VARIANT];
                 }
diff --git a/backends/open62541/src/conversion.h b/backends/open62541/src/conversion.h
index 4bc697d..0c0c805 100644
--- a/backends/open62541/src/conversion.h
+++ b/backends/open62541/src/conversion.h
@@ -33,7 +33,8 @@ static inline UA_Boolean isValTrue(const char *s)
     {
         return UA_FALSE;
     }
-    if (strcmp(s, "true"))
+    // both are valid in XML
+    if (strcmp(s, "true") && strcmp(s, "1"))
     {
         return UA_FALSE;
     }
diff --git a/src/Nodeset.c b/src/Nodeset.c
index 63088a5..b72e4dd 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -452,12 +452,18 @@ NL_Node *Nodeset_newNode(Nodeset *nodeset, NL_NodeClass nodeClass,
     return node;
 }
 
+// the values of a boolean attribute in XML are true, false, 1 and 0
+static bool isTrue(const char *value)
+{
+    return !strcmp("true", value) || !strcmp("1", value);
+}
+
 NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
                                    int attributeSize, const char **attributes)
 {
     NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-    if (!strcmp("true", getAttributeValue(nodeset, &attrIsForward, attributes,
-                                          attributeSize)))
+    if (isTrue(getAttributeValue(nodeset, &attrIsForward, attributes,
+                                 attributeSize)))
     {
         newRef->isForward = true;
     }
@@ -598,11 +604,11 @@ void Nodeset_addDataTypeDefinition(Nodeset *nodeset, NL_Node *node,
     NL_DataTypeNode *dataTypeNode = (NL_DataTypeNode *)node;
     NL_DataTypeDefinition *def = DataTypeDefinition_new(dataTypeNode);
     def->isUnion =
-        !strcmp("true", getAttributeValue(nodeset, &dataTypeDefinition_IsUnion,
-                                          attributes, attributeSize));
-    def->isOptionSet = !strcmp(
-        "true", getAttributeValue(nodeset, &dataTypeDefinition_IsOptionSet,
-                                  attributes, attributeSize));
+        isTrue(getAttributeValue(nodeset, &dataTypeDefinition_IsUnion,
+                                 attributes, attributeSize));
+    def->isOptionSet =
+        isTrue(getAttributeValue(nodeset, &dataTypeDefinition_IsOptionSet,
+                                 attributes, attributeSize));
 }
 
 void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node,
@@ -636,7 +642,7 @@ void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node,
             nodeset, &attrValueRank, attributes, attributeSize));
         char *isOptional = getAttributeValue(nodeset, &dataTypeField_IsOptional,
                                              attributes, attributeSize);
-        newField->isOptional = !strcmp("true", isOptional);
+        newField->isOptional = isTrue(isOptional);
     }
 }
 
-- 
2.43.0


From 755be880bb9a19b5305eb7f70c1ecc88014cf416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:40 +0000
Subject: [PATCH 49/52] fix: deliver an ampersand in an attribute as such

---
 src/Parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Parser.c b/src/Parser.c
index 6bcff9f..62a6594 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -50,6 +50,8 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
     {
         return 1;
     }
+    // without it an ampersand in an attribute is delivered as "&#38;"
+    xmlCtxtUseOptions(ctxt, XML_PARSE_NOENT);
     int status = 0;
     while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 0)
     {
-- 
2.43.0


From bee08b0e785346e03ab9feab738da998b62fddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:40 +0000
Subject: [PATCH 50/52] fix: release the document built for a document type
 declaration

---
 src/Parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Parser.c b/src/Parser.c
index 62a6594..d8267d9 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -67,6 +67,8 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
     {
         status = 1;
     }
+    // a document type declaration makes the parser build a document
+    xmlFreeDoc(ctxt->myDoc);
     xmlFreeParserCtxt(ctxt);
     return status;
 }
-- 
2.43.0


From 8f3a8b90cf2b7370077dca803025536c92517422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:40 +0000
Subject: [PATCH 51/52] fix: keep the fraction of the seconds of a DateTime

---
 backends/open62541/src/conversion.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/conversion.h b/backends/open62541/src/conversion.h
index 0c0c805..0c80994 100644
--- a/backends/open62541/src/conversion.h
+++ b/backends/open62541/src/conversion.h
@@ -63,8 +63,23 @@ static inline UA_DateTime UA_DateTime_fromString(const char *dateString)
 {
     UA_DateTimeStruct dt;
     memset(&dt, 0, sizeof(UA_DateTimeStruct));
-    sscanf(dateString, "%hi-%hu-%huT%hu:%hu:%huZ",
-           &dt.year, &dt.month, &dt.day, &dt.hour, &dt.min, &dt.sec);
+    int end = 0;
+    sscanf(dateString, "%hi-%hu-%huT%hu:%hu:%hu%n",
+           &dt.year, &dt.month, &dt.day, &dt.hour, &dt.min, &dt.sec, &end);
+    // the seconds can have a fraction, it is optional
+    if (dateString[end] == '.')
+    {
+        unsigned int nanoSec = 0;
+        unsigned int digitValue = 100000000;
+        for (const char *c = &dateString[end + 1]; *c >= '0' && *c <= '9'; c++)
+        {
+            nanoSec += (unsigned int)(*c - '0') * digitValue;
+            digitValue /= 10;
+        }
+        dt.milliSec = (UA_UInt16)(nanoSec / 1000000);
+        dt.microSec = (UA_UInt16)(nanoSec / 1000 % 1000);
+        dt.nanoSec = (UA_UInt16)(nanoSec % 1000);
+    }
     UA_DateTime dateTime = UA_DateTime_fromStruct(dt);
     return dateTime;
 }
-- 
2.43.0


From 10e3656e6f152144bf13ffd38daf8861546ffd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:34 +0000
Subject: [PATCH 52/52] fix: only HasSubtype references make a reference type a
 subtype

Any inverse hierarchical reference to a hierarchical reference type, for
example Organizes, made a declared type a hierarchical one.
---
 backends/open62541/src/RefServiceImpl.c | 4 +++-
 src/InternalRefService.c                | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index b27091b..8672f40 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -129,10 +129,12 @@ static bool isTypeDefRef(const RefServiceImpl *service, const NL_Reference *ref)
 
 static void addnewRefType(RefServiceImpl *service, NL_ReferenceTypeNode *node)
 {
+    const UA_NodeId hasSubtype = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
     NL_Reference *ref = node->hierachicalRefs;
     bool isHierachical = false;
     while (ref) {
-        if (!ref->isForward) {
+        // other inverse references do not make it a subtype of the target
+        if (!ref->isForward && UA_NodeId_equal(&ref->refType, &hasSubtype)) {
             if (containsId(&service->hierachicalRefs, &ref->target)) {
                 addToRefs(&service->hierachicalRefs, node->id);
                 isHierachical = true;
diff --git a/src/InternalRefService.c b/src/InternalRefService.c
index c73f348..042bb65 100644
--- a/src/InternalRefService.c
+++ b/src/InternalRefService.c
@@ -184,10 +184,12 @@ addHierachicalRef(InternalRefService *service, const NL_ReferenceTypeNode *node)
 
 static void
 addnewRefTypeImpl(InternalRefService *service, NL_ReferenceTypeNode *node) {
+    const UA_NodeId hasSubtype = UA_NODEID_NUMERIC(0, 45);
     NL_Reference *ref = node->hierachicalRefs;
     bool isHierachical = false;
     while (ref && !isHierachical) {
-        if (!ref->isForward) {
+        // other inverse references do not make it a subtype of the target
+        if (!ref->isForward && UA_NodeId_equal(&ref->refType, &hasSubtype)) {
             for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
                 if (UA_NodeId_equal(&service->hierachicalRefs[i].id, &ref->target)) {
                     addHierachicalRef(service, node);
-- 
2.43.0


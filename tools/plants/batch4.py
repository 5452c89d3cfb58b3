from batch1h import *
R = "src/InternalRefService.c"
C = "src/nodes/NodeContainer.c"
def rt(i, *r): return '<UAReferenceType NodeId="ns=1;i=%d" BrowseName="1:r%d"><References>%s</References></UAReferenceType>' % (i, i, "".join(r))
def r(t, tgt, fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>' % (t, "" if fwd else ' IsForward="false"', tgt)
def o(i, *rs, a="", e="UAObject"): return '<%s NodeId="ns=1;%s" BrowseName="1:o%s"%s><References>%s</References></%s>' % (e, i if isinstance(i, str) else "i=%d" % i, i, a, "".join(rs), e)
I = "ns=1;i=%d"

plant("c19-firstref", "C19", [(R, "        ref = ref->next;\n    }\n    if (!isHierachical) {", "        ref = ref->isForward ? ref->next : NULL;\n    }\n    if (!isHierachical) {")],
  runs=[("", [doc(rt(1, r("i=45", "i=33", False), r("i=45", "ns=2;i=9", False)), o(5, r(I % 1, I % 6)), o(6))])],
  needs="a reference type with two inverse references, the supertype named second", breaks="the type counts as not hierarchical")
plant("c19-ident", "C19", [(R, """        if (UA_NodeId_equal(&ref->refType, &service->hierachicalRefs[i].id))
            return true;""", """        if (ref->refType.identifierType == UA_NODEIDTYPE_NUMERIC && UA_NodeId_equal(&ref->refType, &service->hierachicalRefs[i].id))
            return true;""")],
  runs=[("", [doc('<UAReferenceType NodeId="ns=1;s=R" BrowseName="1:r"><References>' + r("i=45", "i=33", False) + '</References></UAReferenceType>', o(5, r("ns=1;s=R", I % 6)), o(6))])],
  needs="a hierarchical reference type with a string identifier", breaks="references of the type stay unknown and sorting fails")
plant("c19-many", "C19", [(C, "    if (container->size == container->capacity)", "    if (container->size && container->size % 100 == 0 && container->owner == false)\n    {\n        container->size = 0;\n    }\n    if (container->size == container->capacity)")],
  runs=[("", [doc(*[rt(i, r("i=45", "i=32", False)) for i in range(1, 104)] + [o(500, r(I % 2, I % 501)), o(501)])])],
  needs="more than 100 reference types which are not hierarchical", breaks="the first ones are forgotten")
plant("c20-dup", "C20", [(S, "    to->edgeCount++;\n", "    if (!from->edges || from->edges->dest != to)\n    {\n        to->edgeCount++;\n    }\n")],
  runs=[("", [doc(o(1, r("i=47", I % 3), r("i=35", I % 3)), o(2, r("i=47", I % 3)), o(9, r("i=47", I % 2)), o(3))])],
  needs="two references between the same nodes and another parent which comes later", breaks="the child is handed out before its second parent")
plant("c20-deferred", "C20", [(N, """            insertElementAtFront(&node->hierachicalRefs, node->unknownRefs);
            node->unknownRefs = nextUnknown;
            continue;
        }
        if (nodeset""", """            if (node->hierachicalRefs && !node->unknownRefs->isForward)
            {
                insertElementAtFront(&node->nonHierachicalRefs, node->unknownRefs);
            }
            else
            {
                insertElementAtFront(&node->hierachicalRefs, node->unknownRefs);
            }
            node->unknownRefs = nextUnknown;
            continue;
        }
        if (nodeset""")],
  runs=[("", [doc(o(5, r("i=35", "i=85", False), r(I % 1, I % 6, False)), rt(1, r("i=45", "i=33", False)), o(6))])],
  needs="a node with a known parent and another parent by a reference type declared later", breaks="the second parent is not considered")
plant("c20-guard", "C20", [(S, "    if(UA_NodeId_equal(from->id, to->id))\n        return;", "    if(UA_NodeId_equal(from->id, to->id) || from->left == to)\n        return;")],
  runs=[("", [doc(*([o(i, r("i=47", I % (i - 1))) for i in (20, 10, 5, 4)]))])],
  needs="a parent and a child which lie below each other in the search tree", breaks="the relation is not recorded")
plant("c21-rotate", "C21", [(S, "                            r->left = p->right;", "                            r->left = p->balance == a ? p->right : NULL;")],
  runs=[("", [doc(*[o(i) for i in (10, 5, 50, 3, 40, 60, 30, 45, 70, 25)])])] + [("", [doc(*[o((i * k) % 101) for i in range(1, 40)])]) for k in (7, 37, 55)],
  needs="node ids in an order that makes the tree rotate twice", breaks="nodes are lost")
plant("c21-loop", "C21", [(N, """    return Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
                      nodeset->logger);""", """    return Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
                      nodeset->logger) || nodeset->hasEncodingRefs != NULL;""")],
  runs=[("", [doc('<UAObject NodeId="ns=1;i=1" BrowseName="Default Binary"><References>' + r("i=38", I % 7, False) + '</References></UAObject>', o(7), o(2, r("i=47", I % 3)), o(3, r("i=47", I % 2)))])],
  needs="a loop in a nodeset with an encoding", breaks="sorting reports success")
plant("c22-mirror", "C22", [(S, "                    newRef->isForward = !r->isForward;", "                    newRef->isForward = false;")],
  runs=[("", [doc(o(1, r("i=35", I % 5, False)), o(5, a=' ParentNodeId="ns=1;i=1"'))])],
  needs="a parent with an inverse reference to the child", breaks="the child's reference has the wrong direction")
plant("c22-type", "C22", [(S, "                    UA_NodeId_copy(&r->refType, &newRef->refType);", "                    UA_NodeId_copy(&k->data->hierachicalRefs->refType, &newRef->refType);")],
  runs=[("", [doc(o(1, r("i=47", I % 8), r("i=35", I % 5), r("i=46", I % 7)), o(5, a=' ParentNodeId="ns=1;i=1"'))])],
  needs="a parent with several children by different reference types", breaks="the child's reference has the type of another one")
plant("c22-inst", "C22", [(S, "    if (!hierachicalRefRecorded && NodesetLoader_isInstanceNode(data)) {", "    if (!hierachicalRefRecorded && !data->nonHierachicalRefs && NodesetLoader_isInstanceNode(data)) {")],
  runs=[("", [doc(o(5, r("i=37", "i=78"), a=' ParentNodeId="ns=1;i=1"', e="UAVariable"))])],
  needs="a node with a parent attribute and a reference which is not hierarchical", breaks="no reference to the parent")
plant("c23-class", "C23", [(S, "    if(j->data!=NULL)\n", "    if(j->data!=NULL && j->data->nodeClass <= data->nodeClass)\n")],
  runs=[("", [doc(o(5, e="UAVariable"), o(5))])], needs="a node with the id of an earlier one of another class", breaks="the later one replaces the first")
plant("c23-refs", "C23", [(N, """        node->nonHierachicalRefs = NULL;""", """        node->nonHierachicalRefs = NULL;""")] if False else
  [(S, "    // entry already exists\n    if(j->data!=NULL)\n    {\n", "    // entry already exists\n    if(j->data!=NULL)\n    {\n        if (!j->data->hierachicalRefs)\n        {\n            j->data->hierachicalRefs = data->hierachicalRefs;\n            data->hierachicalRefs = NULL;\n        }\n")],
  runs=[("", [doc(o(5), o(5, r("i=47", I % 8)))])], needs="a second node of the same id with references where the first has none", breaks="the first gets the references of the second")
plant("c24-empty", "C24", [(N, "    for (NL_Node **node = c->nodes; node != c->nodes + c->size; node++)\n    {\n        fn(context, *node);\n    }\n    return c->size;",
  "    size_t n = 0;\n    for (NL_Node **node = c->nodes; node != c->nodes + c->size; node++)\n    {\n        if (n && *node == c->nodes[0])\n            continue;\n        fn(n < 32 ? context : NULL, *node);\n        n++;\n    }\n    return n;")],
  runs=[("", [doc(*[o(i) for i in range(1, 40)])])], needs="more than 32 nodes of a class", breaks="the callback gets no context")
plant("c24-grow", "C24", [(C, "            (container->size + container->incrementSize) * sizeof(void *));", "            (container->size + container->incrementSize) * sizeof(void *));\n        container->incrementSize += container->capacity;")],
  runs=[("", [doc(*[o(i) for i in range(1, 20500)])])] , needs="more nodes of a class than the second growth of the container", breaks="the container is smaller than its capacity")

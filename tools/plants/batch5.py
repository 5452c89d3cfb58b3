from batch1h import *
D, X, B = "src/nodes/DataTypeNode.c", "src/nodes/Node.c", "src/CharAllocator.c"
def r(t, tgt, fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>' % (t, "" if fwd else ' IsForward="false"', tgt)
def o(i, *rs, a="", e="UAObject", bn="o", c=""): return '<%s NodeId="ns=1;%s" BrowseName="%s"%s><References>%s</References>%s</%s>' % (e, i if isinstance(i, str) else "i=%d" % i, bn, a, "".join(rs), c, e)
val = lambda x: "<Value>%s</Value>" % x

plant("c28-enum", "C28", [(D, "    if (node->definition)\n    {", "    if (node->definition && !node->definition->isEnum)\n    {")],
  runs=[("", [doc(o("s=E", e="UADataType", c='<Definition Name="E"><Field Name="A" Value="0"/><Field Name="B" DataType="ns=1;s=T"/></Definition>'))])],
  needs="an enumeration with fields", breaks="the fields are left behind when the node is deleted")
plant("c28-member", "C28", [(V, "        Data_clear(data->val.complexData.members[cnt]);", "        if (data->val.complexData.members[cnt]->type == DATATYPE_COMPLEX)\n        {\n            Data_clear(data->val.complexData.members[cnt]);\n        }")],
  runs=[("", [doc(o("s=v", e="UAVariable", c=val("<ListOfInt32><Int32>1</Int32><Int32>2</Int32></ListOfInt32>")))])],
  needs="a value with members", breaks="the plain members of a value are left behind")
plant("c28-parent", "C28", [(X, """        UA_NodeId_clear(&varNode->parentNodeId);
""", ""), (X, """            Value_delete(varNode->value);
""", """            UA_NodeId_clear(&varNode->parentNodeId);
            Value_delete(varNode->value);
""")],
  runs=[("", [doc(o("s=v", e="UAVariable", a=' ParentNodeId="ns=1;s=a-parent"'))])],
  needs="a variable without a value whose parent has a string identifier", breaks="the parent's id is left behind")
plant("c29-enc", "C29", [(N, "        UA_NodeId_copy(&ref->target, &newRef->source);", "        newRef->source = ref->target;")],
  runs=[("", [doc(o("s=e", r("i=38", "ns=1;s=a-type", False), bn="Default Binary"))])],
  needs="a binary encoding of a data type with a string identifier", breaks="the data type's id is released twice")
plant("c29-mirror", "C29", [(S, "                    UA_NodeId_copy(&r->refType, &newRef->refType);", "                    newRef->refType = r->refType;")],
  runs=[("", [doc('<UAReferenceType NodeId="ns=1;s=R" BrowseName="r"><References>' + r("i=45", "i=47", False) + '</References></UAReferenceType>', o(1, r("ns=1;s=R", "ns=1;i=2")), o(2, a=' ParentNodeId="ns=1;i=1"'))])],
  needs="a node which takes over its parent's reference of a type with a string identifier", breaks="the type's id is released twice")
plant("c29-dup", "C29", [(N, "            Node_delete(node);\n        }\n        else\n", "            if (node->nodeClass != NODECLASS_REFERENCETYPE)\n            {\n                Node_delete(node);\n            }\n        }\n        else\n")],
  runs=[("", [doc(*[o("s=R", r("i=45", "i=47", False), e="UAReferenceType")] * 2)])],
  needs="a reference type which occurs twice", breaks="the rejected reference type is left behind")
plant("c30-failed", "C30", [(L, """                            NODESETLOADER_LOGLEVEL_ERROR, "xml parsing error");
        retStatus = false;
""", """                            NODESETLOADER_LOGLEVEL_ERROR, "xml parsing error");
        retStatus = false;
        nodesetBroken = true;
"""), (L, "    bool retStatus = true;\n", "    bool retStatus = true;\n    bool nodesetBroken = false;\n"),
   (L, "    free(ctx);\n    if (f)", "    free(ctx);\n    if (nodesetBroken)\n    {\n        Nodeset_cleanup(loader->nodeset);\n        loader->nodeset = NULL;\n    }\n    if (f)")],
  runs=[("-a", [doc(o(1), o(2)), doc(o(3))[:-30]])],
  needs="an import which fails behind one which succeeds", breaks="the nodes of the first file are gone")
plant("c30-encsort", "C30", [(N, """    return Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
                      nodeset->logger);""", """    if (!Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
                    nodeset->logger))
    {
        return false;
    }
    return nodeset->nodes[NODECLASS_OBJECT]->size + nodeset->nodes[NODECLASS_VARIABLE]->size +
               nodeset->nodes[NODECLASS_OBJECTTYPE]->size + nodeset->nodes[NODECLASS_VARIABLETYPE]->size +
               nodeset->nodes[NODECLASS_DATATYPE]->size + nodeset->nodes[NODECLASS_REFERENCETYPE]->size +
               nodeset->nodes[NODECLASS_METHOD]->size > 0;""")],
  runs=[("", [doc()]), ("", [doc(o(1, e="UAView"))])],
  needs="sorting a nodeset which consists of views or of nothing", breaks="sorting reports failure")
plant("c31-browse", "C31", [(N, "    char *bnName = strchr(s, ':');\n", "    size_t len = strlen(s);\n    if (s[len - 1] == ' ')\n    {\n        s[len - 1] = 0;\n    }\n    char *bnName = strchr(s, ':');\n")],
  runs=[("", ['<UANodeSet><UAObject BrowseName=""></UAObject></UANodeSet>'])],
  needs="an empty browse name", breaks="the character in front of the text is accessed")
plant("c31-reftype", "C31", [(N, "    newRef->refType = alias2Id(nodeset, aliasIdString);", "    newRef->refType = !strncmp(aliasIdString, \"i=\", 2) ? extractNodedId(nodeset->namespaces, aliasIdString) : alias2Id(nodeset, aliasIdString);")],
  runs=[("", [doc(o(1, "<Reference>i=5</Reference>"))])],
  needs="a reference without a type", breaks="NULL is dereferenced")
plant("c31-name", "C31", [(L, "CharArenaAllocator_malloc(pctx->nodeset->charArena, len + 1);\n            memcpy(localNameCopy, localname, len);", "CharArenaAllocator_malloc(pctx->nodeset->charArena, len);\n            memcpy(localNameCopy, localname, len + 1);")],
  runs=[("", ['<UANodeSet><UAVariable NodeId="%s" BrowseName="b"><Value><%s>1</%s></Value></UAVariable></UANodeSet>' % (("s=" + "i" * (n - 39)), "Int", "Int") for n in (1048576 - 23 + k,)]) for k in range(-10, 10)],
  needs="a text arena which is exactly full after the name of a value's element", breaks="a byte behind the arena is written")

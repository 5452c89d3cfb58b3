from batch7 import *
from batch1h import plant
RI = "src/InternalRefService.c"
NC = "src/nodes/NodeContainer.c"
def ob(i, *rs, a="", e="UAObject", bn="1:o", c="", d=True): return '<%s NodeId="ns=1;%s" BrowseName="%s"%s>%s<References>%s</References>%s</%s>' % (e, i if isinstance(i, str) else "i=%d" % i, bn, a, "<DisplayName>x</DisplayName>" if d else "", "".join(rs), c, e)

plant("c12-keeplocale", "C12", [(N, """    node->displayName.locale =
        getAttributeValue(nodeset, &attrLocale, attributes, attributeSize);""", """    char *locale =
        getAttributeValue(nodeset, &attrLocale, attributes, attributeSize);
    if (locale)
    {
        node->displayName.locale = locale;
    }""")],
  runs=[("", [doc('<UAObject NodeId="ns=1;i=1" BrowseName="a"><DisplayName Locale="de">d</DisplayName><DisplayName>e</DisplayName></UAObject>')])],
  needs="a node with two display names, the second one without a locale", breaks="the text of the second one gets the locale of the first")
plant("c12-inverse-desc", "C12", [(N, """    if (node->nodeClass == NODECLASS_REFERENCETYPE)
    {
        ((NL_ReferenceTypeNode *)node)->inverseName.text = text;
    }""", """    if (node->nodeClass == NODECLASS_REFERENCETYPE)
    {
        if (!text && node->description.text)
        {
            text = node->description.text;
        }
        ((NL_ReferenceTypeNode *)node)->inverseName.text = text;
    }""")],
  runs=[("", [doc('<UAReferenceType NodeId="ns=1;i=1" BrowseName="a"><Description>d</Description><InverseName/></UAReferenceType>')])],
  needs="a reference type with a description and an empty inverse name", breaks="the inverse name has the description's text")
plant("c14-many", "C14", [(A, "alias != list->data + list->size; alias++", "alias != list->data + (list->size > ALIAS_INCREMENT ? ALIAS_INCREMENT : list->size); alias++")],
  runs=[("", [doc("<Aliases>" + "".join('<Alias Alias="A%d">i=%d</Alias>' % (k, k) for k in range(1, 305)) + "</Aliases>", '<UAVariable NodeId="ns=1;i=1" BrowseName="a" DataType="A302"></UAVariable>')])],
  needs="a file with more than 300 aliases", breaks="aliases behind the 300th do not resolve")
plant("c14-equals", "C14", [(N, "    const UA_NodeId *alias = AliasList_getNodeId(nodeset->aliasList, name);", "    const UA_NodeId *alias =\n        name && strchr(name, '=') ? NULL : AliasList_getNodeId(nodeset->aliasList, name);")],
  runs=[("", [doc('<Aliases><Alias Alias="x=y">i=5</Alias></Aliases>', '<UAVariable NodeId="ns=1;i=1" BrowseName="a" DataType="x=y"></UAVariable>')])],
  needs="an alias whose name has an equals sign", breaks="the alias does not resolve")
plant("c15-selfhier", "C15", [(N, """    newRef->next = node->unknownRefs;
    node->unknownRefs = newRef;
    return newRef;""", """    if (!newRef->isForward && node->unknownRefs)
    {
        newRef->next = node->unknownRefs->next;
        node->unknownRefs->next = newRef;
        return newRef;
    }
    newRef->next = node->unknownRefs;
    node->unknownRefs = newRef->next ? newRef : newRef;
    if (newRef->next && newRef->next->isForward == newRef->isForward && !newRef->next->next)
        newRef->next->isForward = true;
    return newRef;""")],
  runs=[("", [doc(ob(1, r("ns=1;i=9", "ns=1;i=5", False), r("ns=1;i=9", "ns=1;i=6", False), r("ns=1;i=9", "ns=1;i=7", False)), ob(9, r("i=45", "i=32", False), e="UAReferenceType"))])],
  needs="x", breaks="x") if 0 else None
plant("c16-ns", "C16", [(N, "    if (UA_NodeId_equal(&ref->refType, &hasEncodingRef) &&", "    if (ref->refType.identifier.numeric == hasEncodingRef.identifier.numeric &&")],
  runs=[("", [doc(ob(38, r("i=45", "i=33", False), e="UAReferenceType"), ob(1, r("ns=1;i=38", "ns=1;i=7", False), bn="Default Binary"))])],
  needs="a \"Default Binary\" object with an inverse reference of another type whose id is 38 in its own namespace", breaks="it is reported as an encoding")
plant("c16-prefix", "C16", [(N, '        !strcmp(node->browseName.name, "Default Binary") && !ref->isForward)', '        !strncmp(node->browseName.name, "Default Binary", 14) && !ref->isForward)')],
  runs=[("", [doc(ob(1, r("i=38", "ns=1;i=7", False), bn="Default Binary 2"))])],
  needs="an object \"Default Binary 2\" which encodes something", breaks="it is reported as the binary encoding")
plant("c17-inversefirst", "C17", [(N, """        if (nodeset->refService->isNonHierachicalRef(
                nodeset->refService->context, node->unknownRefs))
        {
            insertElementAtFront(&node->nonHierachicalRefs, node->unknownRefs);
            node->unknownRefs = nextUnknown;""", """        if (nodeset->refService->isNonHierachicalRef(
                nodeset->refService->context, node->unknownRefs))
        {
            if (!node->nonHierachicalRefs || !node->nonHierachicalRefs->next)
                insertElementAtFront(&node->nonHierachicalRefs, node->unknownRefs);
            else
            {
                node->unknownRefs->next = node->nonHierachicalRefs->next->next;
                node->nonHierachicalRefs->next->next = node->unknownRefs;
            }
            node->unknownRefs = nextUnknown;""".replace("node->unknownRefs->next = node->nonHierachicalRefs->next->next;", "node->unknownRefs->next = NULL;"))],
  runs=[("", [doc(ob(1, r("i=40", "i=58"), r("i=32", "ns=1;i=1"), r("i=37", "i=78"), r("i=36", "i=1"), r("i=41", "i=3"), r("ns=1;i=9", "ns=1;i=7")), ob(9, r("i=45", "i=32", False), e="UAReferenceType"))])],
  needs="a node with three references of known non-hierarchical types and one whose type is defined later", breaks="the third reference is lost", leaks=False)
plant("c17-typedef", "C17", [(N, "        if (!lookupUnknownReferences(nodeset, node))\n        {", "        if (!lookupUnknownReferences(nodeset, node) &&\n            (node->nodeClass == NODECLASS_REFERENCETYPE || !node->hierachicalRefs))\n        {")],
  runs=[("", [doc(ob(1, r("ns=1;i=99", "ns=1;i=7"), r("i=35", "i=85", False)))])],
  needs="a node with a hierarchical reference and one of a type nobody defines", breaks="sorting reports success and the reference is in neither list")
plant("c18-sorted", "C18", [(N, """        if (Sort_addNode(nodeset->sortCtx, node))
        {
            deferred->nodes[i] = NULL;
        }""", """        if (Sort_addNode(nodeset->sortCtx, node))
        {
            if (deferred == nodeset->refTypesWithUnknownRefs && node->hierachicalRefs &&
                node->hierachicalRefs->next)
            {
                nodeset->refService->addNewReferenceType(
                    nodeset->refService->context, (NL_ReferenceTypeNode *)node);
            }
            deferred->nodes[i] = NULL;
        }""")],
  runs=[("-s", [doc(ob(1, r("ns=1;i=9", "ns=1;i=2"), r("i=45", "i=33", False), e="UAReferenceType"), ob(9, r("i=45", "i=33", False), e="UAReferenceType"))])],
  needs="a reference type which is deferred and ends up with two hierarchical references", breaks="the reference service learns of it twice")
plant("c19-nonhier", "C19", [(RI, "    if (ref->refType.namespaceIndex == 0)\n        return true;", "    if (ref->refType.namespaceIndex == 0 || service->nonHierachicalRefs->size >= 100)\n        return true;")],
  runs=[("", [doc(ob(1, r("ns=1;i=999", "ns=1;i=7")), *[ob(k, r("i=45", "i=32", False), e="UAReferenceType", d=False) for k in range(10, 111)])])],
  needs="more than 100 non-hierarchical reference types and a reference of an unknown one", breaks="the unknown reference counts as non-hierarchical, sorting succeeds")
plant("c20-parentref", "C20", [(S, """    // already handed out, there is nothing left to wait for
    if(from->sorted || to->sorted)
        return;
""", """    // already handed out, there is nothing left to wait for
    if(from->sorted || to->sorted)
        return;
    // a node nobody has defined yet
    if(!from->data && to->edgeCount > 0)
        return;
""")],
  runs=[("", [doc(ob(1, r("i=35", "ns=1;i=2", False), r("i=35", "ns=1;i=3", False)), ob(2), ob(3))])],
  needs="a node with two parents which both follow in the document", breaks="the second one is handed out after the child") if 0 else None
plant("c21-dupedge", "C21", [(S, """    to->edgeCount++;
    e->dest = to;""", """    for (S_Edge *d = from->edges; d && d->next; d = d->next)
    {
        if (d->dest == to)
        {
            free(e);
            to->edgeCount++;
            return;
        }
    }
    to->edgeCount++;
    e->dest = to;""")],
  runs=[("", [doc(ob(1, r("i=35", "ns=1;i=2"), r("i=47", "ns=1;i=2"), r("i=46", "ns=1;i=3"), r("i=35", "ns=1;i=2")), ob(2), ob(3))])],
  needs="two nodes with two hierarchical references, and at least two relations recorded behind the first", breaks="the child is never handed out, a loop is reported")
plant("c21-second", "C21", [(S, "    ctx->keyCnt = 0;\n    walk_tree(ctx, ctx->root1, count_items);", "    if (!ctx->zeros)\n    {\n        ctx->keyCnt = 0;\n    }\n    walk_tree(ctx, ctx->root1, count_items);")],
  runs=[("", [doc(ob(1, r("i=35", "ns=1;i=2")), ob(2, r("i=35", "ns=1;i=1")), ob(3)), doc(ob(4))])],
  needs="a further sorting after one that found a loop", breaks="x") if 0 else None
plant("c25-white", "C25", [(V, "PLACEHOLDER", "")], runs=[], needs="", breaks="") if 0 else None
plant("c26-field-value0", "C26", [(N, """    if (value)
    {
        newField->value = atoi(value);""", """    if (value && *value)
    {
        newField->value = atoi(value);"""), (N, "        newField->value = atoi(value);\n        dataTypeNode->definition->isEnum =\n            !dataTypeNode->definition->isOptionSet;", "        newField->value = atoi(value);\n        dataTypeNode->definition->isEnum =\n            !dataTypeNode->definition->isOptionSet && !dataTypeNode->definition->isUnion;")],
  runs=[("", [doc(o("i=3", r("i=45", "i=29", False), e="UADataType", c='<Definition Name="E" IsUnion="1"><Field Name="a" Value="1"/></Definition>'))])],
  needs="x", breaks="x") if 0 else None
plant("c30-nullcb", "C30", [(L, "    if (fileHandler->addNamespace == NULL)\n", "    if (fileHandler->addNamespace == NULL && !loader->nodeset)\n")],
  runs=[("", [doc(ob(1)), "nocallback"])],
  needs="an import without a namespace callback after a proper import", breaks="the import is not refused, the callback is called though it is NULL", driver=open("../../shim/probe.c").read().replace('fc.addNamespace = addNs;', 'fc.addNamespace = strstr(argv[i], "doc1") ? NULL : addNs;'))
plant("c24-stop", "C24", [(N, "    for (NL_Node **node = c->nodes; node != c->nodes + c->size; node++)", "    for (NL_Node **node = c->nodes; node != c->nodes + c->size && *node; node++)")], runs=[], needs="", breaks="") if 0 else None
plant("c22-sortedparent", "C22", [(S, "        if (k->data) {\n            NL_Reference *r", "        if (k->data && !k->sorted) {\n            NL_Reference *r")],
  runs=[("-s", [doc(ob(1, r("i=46", "i=5002")).replace('"ns=1;i=1"', '"i=5001"')), doc(ob(2, a=' ParentNodeId="i=5001"').replace('"ns=1;i=2"', '"i=5002"'))])],
  needs="a parent of an earlier file which was sorted before the child's file is imported", breaks="the child's reference has the type HasComponent instead of the parent's")
plant("c23-deferred", "C23", [(N, """        else
        {
            nodeset->logger->log(nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                                 "node was not added to sorting algorithm, already exists");
        }""", """        else
        {
            nodeset->logger->log(nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                                 "node was not added to sorting algorithm, already exists");
            return deferred != nodeset->nodesWithUnknownRefs;
        }""")],
  runs=[("", [doc(ob(1), ob(1, r("ns=1;i=9", "ns=1;i=7")), ob(9, r("i=45", "i=32", False), e="UAReferenceType"))])],
  needs="a node with the id of another one and a reference whose type is defined later", breaks="sorting fails instead of dropping the node")

"""Edits of src/ which keep the behaviour: the checks have to stay quiet on every one of them (see ../refactor.py)"""
N, L, S, V = "src/Nodeset.c", "src/NodesetLoader.c", "src/Sort.c", "src/Value.c"
A, NS, IR, CA = "src/AliasList.c", "src/NamespaceList.c", "src/InternalRefService.c", "src/CharAllocator.c"
SETS = {}

# ---------------------------------------------------------------- Nodeset.c: lists of references and nodes
SETS["nodeset-lists"] = [
(N, """static bool lookupUnknownReferences(Nodeset *nodeset, NL_Node *node)
{
    while (node->unknownRefs)
    {
        NL_Reference *nextUnknown = node->unknownRefs->next;
        if (nodeset->refService->isHierachicalRef(nodeset->refService->context,
                                                  node->unknownRefs))
        {
            insertElementAtFront(&node->hierachicalRefs, node->unknownRefs);
            node->unknownRefs = nextUnknown;
            continue;
        }
        if (nodeset->refService->isNonHierachicalRef(
                nodeset->refService->context, node->unknownRefs))
        {
            insertElementAtFront(&node->nonHierachicalRefs, node->unknownRefs);
            node->unknownRefs = nextUnknown;
            continue;
        }
        return false;
    }
    return true;
}
""", """// the list of the node the reference belongs to, NULL if that is not known
static NL_Reference **listFor(const NL_ReferenceService *svc, NL_Node *node,
                              const NL_Reference *ref)
{
    if (svc->isHierachicalRef(svc->context, ref))
        return &node->hierachicalRefs;
    return svc->isNonHierachicalRef(svc->context, ref) ? &node->nonHierachicalRefs
                                                       : NULL;
}

static bool lookupUnknownReferences(Nodeset *nodeset, NL_Node *node)
{
    for (NL_Reference *ref; (ref = node->unknownRefs) != NULL;)
    {
        NL_Reference **list = listFor(nodeset->refService, node, ref);
        if (!list)
        {
            return false;
        }
        node->unknownRefs = ref->next;
        insertElementAtFront(list, ref);
    }
    return true;
}
"""),
(N, """    for (size_t i = 0; i < deferred->size; i++)
    {
        NL_Node *node = deferred->nodes[i];
        if (!node)
        {
            continue;
        }
        if (!lookupUnknownReferences(nodeset, node))
        {
            UA_String nodeIdStr = {0};
            UA_NodeId_print(&node->id, &nodeIdStr);
            nodeset->logger->log(
                nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                "node with unresolved reference(s): NodeId(%.*s)",
                (int)nodeIdStr.length, (char *)nodeIdStr.data);
            UA_String_clear(&nodeIdStr);
            return false;
        }
        if (Sort_addNode(nodeset->sortCtx, node))
        {
            deferred->nodes[i] = NULL;
        }
        else
        {
            nodeset->logger->log(nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                                 "node was not added to sorting algorithm, already exists");
        }
    }
    return true;
""", """    NL_Node **end = deferred->nodes + deferred->size;
    for (NL_Node **slot = deferred->nodes; slot < end; ++slot)
    {
        if (*slot == NULL)
            continue;
        if (!lookupUnknownReferences(nodeset, *slot))
        {
            logUnresolved(nodeset->logger, *slot);
            return false;
        }
        if (!Sort_addNode(nodeset->sortCtx, *slot))
        {
            logDuplicate(nodeset->logger);
            continue;
        }
        *slot = NULL;
    }
    return true;
"""),
(N, """// Resolves the references of the deferred nodes""", """static void logUnresolved(const NodesetLoader_Logger *logger, const NL_Node *node)
{
    UA_String text;
    memset(&text, 0, sizeof(text));
    UA_NodeId_print(&node->id, &text);
    logger->log(logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                "node with unresolved reference(s): NodeId(%.*s)",
                (int)text.length, (char *)text.data);
    UA_String_clear(&text);
}

static void logDuplicate(const NodesetLoader_Logger *logger)
{
    logger->log(logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                "node was not added to sorting algorithm, already exists");
}

// Resolves the references of the deferred nodes"""),
(N, """    if (!sortDeferredNodes(nodeset, nodeset->refTypesWithUnknownRefs))
    {
        return false;
    }
    // all hierachical references of a node should be known at this point
    // if there are nodes with unknown references, the import will be aborted
    if (!sortDeferredNodes(nodeset, nodeset->nodesWithUnknownRefs))
    {
        return false;
    }

    return Sort_start(""", """    // all hierachical references of a node should be known at this point
    // if there are nodes with unknown references, the import will be aborted
    return sortDeferredNodes(nodeset, nodeset->refTypesWithUnknownRefs) &&
           sortDeferredNodes(nodeset, nodeset->nodesWithUnknownRefs) &&
           Sort_start("""),
(N, """    CharArenaAllocator_delete(nodeset->charArena);
    AliasList_delete(nodeset->aliasList);
    for (size_t cnt = 0; cnt < NL_NODECLASS_COUNT; cnt++)
    {
        NodeContainer_delete(nodeset->nodes[cnt]);
    }
    NodeContainer_delete(nodeset->nodesWithUnknownRefs);
    NodeContainer_delete(nodeset->refTypesWithUnknownRefs);
    NamespaceList_delete(nodeset->namespaces);
    Sort_handOutRemaining(nodeset->sortCtx, nodeset, Nodeset_deleteNode);
    Sort_cleanup(nodeset->sortCtx);
    NL_BiDirectionalReference *ref = nodeset->hasEncodingRefs;
    while (ref)
    {
        NL_BiDirectionalReference *tmp = ref->next;
        UA_NodeId_clear(&ref->source);
        UA_NodeId_clear(&ref->target);
        UA_NodeId_clear(&ref->refType);
        free(ref);
        ref = tmp;
    }
    free(nodeset);
""", """    for (NL_BiDirectionalReference *ref; (ref = nodeset->hasEncodingRefs);)
    {
        nodeset->hasEncodingRefs = ref->next;
        BiDirectionalReference_delete(ref);
    }
    Sort_handOutRemaining(nodeset->sortCtx, nodeset, Nodeset_deleteNode);
    Sort_cleanup(nodeset->sortCtx);
    NodeContainer_delete(nodeset->refTypesWithUnknownRefs);
    NodeContainer_delete(nodeset->nodesWithUnknownRefs);
    size_t cnt = NL_NODECLASS_COUNT;
    while (cnt-- > 0)
    {
        NodeContainer_delete(nodeset->nodes[cnt]);
    }
    NamespaceList_delete(nodeset->namespaces);
    AliasList_delete(nodeset->aliasList);
    CharArenaAllocator_delete(nodeset->charArena);
    free(nodeset);
"""),
(N, """void Nodeset_cleanup(Nodeset *nodeset)
""", """static void BiDirectionalReference_delete(NL_BiDirectionalReference *ref)
{
    UA_NodeId_clear(&ref->refType);
    UA_NodeId_clear(&ref->target);
    UA_NodeId_clear(&ref->source);
    free(ref);
}

void Nodeset_cleanup(Nodeset *nodeset)
"""),
(N, """    if (isTrue(getAttributeValue(nodeset, &attrIsForward, attributes,
                                 attributeSize)))
    {
        newRef->isForward = true;
    }
    else
    {
        newRef->isForward = false;
    }
    char *aliasIdString""", """    const char *forward =
        getAttributeValue(nodeset, &attrIsForward, attributes, attributeSize);
    newRef->isForward = isTrue(forward);
    char *aliasIdString"""),
(N, """    if (NODECLASS_VARIABLE == node->nodeClass &&
        nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
                                             newRef))
    {
        newRef->next = ((NL_VariableNode *)node)->refToTypeDef;
        ((NL_VariableNode *)node)->refToTypeDef = newRef;
        return newRef;
    }

    if (NODECLASS_OBJECT == node->nodeClass &&
        nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
                                             newRef))
    {
        newRef->next = ((NL_ObjectNode *)node)->refToTypeDef;
        ((NL_ObjectNode *)node)->refToTypeDef = newRef;
        return newRef;
    }

    if (nodeset->refService->isHierachicalRef(nodeset->refService->context,
                                              newRef))
    {
        newRef->next = node->hierachicalRefs;
        node->hierachicalRefs = newRef;
        return newRef;
    }
    if (nodeset->refService->isNonHierachicalRef(nodeset->refService->context,
                                                 newRef))
    {
        newRef->next = node->nonHierachicalRefs;
        node->nonHierachicalRefs = newRef;
        return newRef;
    }

    newRef->next = node->unknownRefs;
    node->unknownRefs = newRef;
    return newRef;
""", """    NL_Reference **list = typeDefinitions(node);
    if (!list || !nodeset->refService->isHasTypeDefRef(
                     nodeset->refService->context, newRef))
    {
        list = listFor(nodeset->refService, node, newRef);
    }
    insertElementAtFront(list ? list : &node->unknownRefs, newRef);
    return newRef;
"""),
(N, """NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
""", """static NL_Reference **typeDefinitions(NL_Node *node)
{
    switch (node->nodeClass)
    {
    case NODECLASS_VARIABLE:
        return &((NL_VariableNode *)node)->refToTypeDef;
    case NODECLASS_OBJECT:
        return &((NL_ObjectNode *)node)->refToTypeDef;
    default:
        return NULL;
    }
}

NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
"""),
(N, """    if (!node->unknownRefs)
    {
        if(!Sort_addNode(nodeset->sortCtx, node))
        {
            if (nodeset->logger)
            {
                nodeset->logger->log(nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                            "node was not added to sorting algorithm, already exists");
            }
            Node_delete(node);
        }
        else
        {
            if (node->nodeClass == NODECLASS_REFERENCETYPE)
            {
                nodeset->refService->addNewReferenceType(
                    nodeset->refService->context, (NL_ReferenceTypeNode *)node);
            }
        }
    }
    else
    {
        if (node->nodeClass == NODECLASS_REFERENCETYPE)
        {
            NodeContainer_add(nodeset->refTypesWithUnknownRefs, node);
            nodeset->refService->addNewReferenceType(
                nodeset->refService->context, (NL_ReferenceTypeNode *)node);
        }
        else
        {
            NodeContainer_add(nodeset->nodesWithUnknownRefs, node);
        }
    }
""", """    const bool isRefType = node->nodeClass == NODECLASS_REFERENCETYPE;
    if (node->unknownRefs)
    {
        NodeContainer_add(isRefType ? nodeset->refTypesWithUnknownRefs
                                    : nodeset->nodesWithUnknownRefs,
                          node);
    }
    else if (!Sort_addNode(nodeset->sortCtx, node))
    {
        if (nodeset->logger)
        {
            logDuplicate(nodeset->logger);
        }
        Node_delete(node);
        return;
    }
    if (isRefType)
    {
        nodeset->refService->addNewReferenceType(
            nodeset->refService->context, (NL_ReferenceTypeNode *)node);
    }
"""),
(N, """    NodeContainer *c = nodeset->nodes[nodeClass];
    for (NL_Node **node = c->nodes; node != c->nodes + c->size; node++)
    {
        fn(context, *node);
    }
    return c->size;""", """    const NodeContainer *c = nodeset->nodes[nodeClass];
    size_t i = 0;
    while (i < c->size)
    {
        fn(context, c->nodes[i++]);
    }
    return i;"""),
(N, """    UA_NodeId hasEncodingRef = UA_NODEID("i=38");
    if (UA_NodeId_equal(&ref->refType, &hasEncodingRef) &&
        node->browseName.name &&
        !strcmp(node->browseName.name, "Default Binary") && !ref->isForward)
    {
        NL_BiDirectionalReference *newRef = (NL_BiDirectionalReference *)calloc(
            1, sizeof(NL_BiDirectionalReference));
        UA_NodeId_copy(&ref->target, &newRef->source);
        UA_NodeId_copy(&node->id, &newRef->target);
        UA_NodeId_copy(&ref->refType, &newRef->refType);

        NL_BiDirectionalReference *lastRef = nodeset->hasEncodingRefs;
        nodeset->hasEncodingRefs = newRef;
        newRef->next = lastRef;
    }
""", """    if (!isEncoding(ref, node))
    {
        return;
    }
    NL_BiDirectionalReference *newRef =
        (NL_BiDirectionalReference *)calloc(1, sizeof(*newRef));
    newRef->next = nodeset->hasEncodingRefs;
    nodeset->hasEncodingRefs = newRef;
    UA_NodeId_copy(&ref->refType, &newRef->refType);
    UA_NodeId_copy(&node->id, &newRef->target);
    UA_NodeId_copy(&ref->target, &newRef->source);
"""),
(N, """void Nodeset_newReferenceFinish(Nodeset *nodeset""", """static bool isEncoding(const NL_Reference *ref, const NL_Node *node)
{
    const UA_NodeId hasEncoding = UA_NODEID_NUMERIC(0, 38);
    const char *name = node->browseName.name;
    if (ref->isForward || !name || strcmp("Default Binary", name) != 0)
        return false;
    return UA_NodeId_equal(&hasEncoding, &ref->refType);
}

void Nodeset_newReferenceFinish(Nodeset *nodeset"""),
]

# ---------------------------------------------------------------- Nodeset.c: attributes
x = []
for cls, cast in (("ObjectType", None),):
    pass
SETS["nodeset-attributes"] = [
(N, """    const int fields = 5;
    for (int i = 0; i < nb_attributes; i++)
    {
        const char *localname = attributes[i * fields + 0];
        if (strcmp((const char *)localname, attr->name))
            continue;
        const char *value_start = attributes[i * fields + 3];
        const char *value_end = attributes[i * fields + 4];
        size_t size = (size_t)(value_end - value_start);
        char *value = CharArenaAllocator_malloc(nodeset->charArena, size + 1);
        memcpy(value, value_start, size);
        return value;
    }
    // we return the defaultValue, if NULL or not, following code has to cope
    // with it
    return attr->defaultValue;
""", """    const char **a = attributes;
    // name, prefix, URI, begin and end of the value
    for (int left = nb_attributes; left > 0; left--, a += 5)
    {
        if (strcmp(attr->name, a[0]) == 0)
        {
            return copyRange(nodeset->charArena, a[3], a[4]);
        }
    }
    // we return the defaultValue, if NULL or not, following code has to cope
    // with it
    return attr->defaultValue;
"""),
(N, """static char *getAttributeValue(Nodeset *nodeset, const NodeAttribute *attr,
                               const char **attributes, int nb_attributes)
""", """static char *copyRange(CharArenaAllocator *arena, const char *from, const char *to)
{
    const size_t len = (size_t)(to - from);
    char *copy = CharArenaAllocator_malloc(arena, len + 1);
    memcpy(copy, from, len);
    return copy;
}

static char *getAttributeValue(Nodeset *nodeset, const NodeAttribute *attr,
                               const char **attributes, int nb_attributes)
"""),
(N, """    if (id.namespaceIndex == 0)
    {
        return id;
    }
    const Namespace *ns =
        NamespaceList_getNamespace(namespaces, id.namespaceIndex);
    if (ns)
    {
        id.namespaceIndex = ns->idx;
    }
    return id;
""", """    id.namespaceIndex = serverIndex(namespaces, id.namespaceIndex);
    return id;
"""),
(N, """UA_NodeId translateNodeId(const NamespaceList *namespaces, UA_NodeId id)
""", """static uint16_t serverIndex(const NamespaceList *namespaces, uint16_t idx)
{
    const Namespace *ns =
        idx > 0 ? NamespaceList_getNamespace(namespaces, idx) : NULL;
    return ns ? (uint16_t)ns->idx : idx;
}

UA_NodeId translateNodeId(const NamespaceList *namespaces, UA_NodeId id)
"""),
(N, """    if (bn.nsIdx > 0)
    {
        const Namespace *ns = NamespaceList_getNamespace(namespaces, bn.nsIdx);
        if (ns != NULL)
        {
            bn.nsIdx =
                (uint16_t)NamespaceList_getNamespace(namespaces, bn.nsIdx)->idx;
        }
        return bn;
    }
    return bn;
""", """    bn.nsIdx = serverIndex(namespaces, bn.nsIdx);
    return bn;
"""),
(N, """    NL_BrowseName bn;
    bn.nsIdx = 0;
    bn.name = NULL;
    if (!s) return bn;
    char *bnName = strchr(s, ':');
    if (bnName == NULL)
    {
        bn.name = s;
        return bn;
    }
    else
    {
        bn.nsIdx = (uint16_t)atoi(&s[0]);
        bn.name = bnName + 1;
    }
    return translateBrowseName(namespaces, bn);
""", """    NL_BrowseName bn = {0, s};
    const char *colon = s ? strchr(s, ':') : NULL;
    if (colon)
    {
        bn.nsIdx = (uint16_t)atoi(s);
        bn.name = s + (colon - s) + 1;
        bn = translateBrowseName(namespaces, bn);
    }
    return bn;
"""),
(N, """    UA_NodeId id = UA_NODEID_NULL;
    if (s == NULL)
        return id;

    UA_StatusCode res = UA_NodeId_parse(&id, UA_STRING(s));
    if (res != UA_STATUSCODE_GOOD)
        return id;

    return translateNodeId(namespaces, id);
""", """    UA_NodeId id = UA_NODEID_NULL;
    if (s && UA_NodeId_parse(&id, UA_STRING(s)) == UA_STATUSCODE_GOOD)
    {
        id = translateNodeId(namespaces, id);
    }
    return id;
"""),
(N, """    const UA_NodeId *alias = AliasList_getNodeId(nodeset->aliasList, name);
    if (!alias)
    {
        return extractNodedId(nodeset->namespaces, name);
    }
    // the alias list keeps its own id
    UA_NodeId id = UA_NODEID_NULL;
    UA_NodeId_copy(alias, &id);
    return id;
""", """    const UA_NodeId *alias = AliasList_getNodeId(nodeset->aliasList, name);
    if (alias)
    {
        // the alias list keeps its own id
        UA_NodeId copy;
        UA_NodeId_init(&copy);
        UA_NodeId_copy(alias, &copy);
        return copy;
    }
    return extractNodedId(nodeset->namespaces, name);
"""),
(N, """static bool isTrue(const char *value)
{
    return !strcmp("true", value) || !strcmp("1", value);
}
""", """static bool isTrue(const char *value)
{
    if (value[0] == '1')
        return value[1] == '\\0';
    return strcmp(value, "true") == 0;
}
"""),
(N, """    switch (node->nodeClass)
    {
    case NODECLASS_OBJECTTYPE: {
        ((NL_ObjectTypeNode *)node)->isAbstract = getAttributeValue(
            nodeset, &attrIsAbstract, attributes, attributeSize);
        break;
    }
    case NODECLASS_OBJECT: {
        ((NL_ObjectNode *)node)->parentNodeId = extractNodedId(
            namespaces, getAttributeValue(nodeset, &attrParentNodeId,
                                          attributes, attributeSize));
        ((NL_ObjectNode *)node)->eventNotifier = getAttributeValue(
            nodeset, &attrEventNotifier, attributes, attributeSize);
        break;
    }
""", """    if (NodesetLoader_isInstanceNode(node))
    {
        ((NL_InstanceNode *)node)->parentNodeId = extractNodedId(
            namespaces, getAttributeValue(nodeset, &attrParentNodeId,
                                          attributes, attributeSize));
    }
    switch (node->nodeClass)
    {
    case NODECLASS_OBJECTTYPE: {
        ((NL_ObjectTypeNode *)node)->isAbstract = getAttributeValue(
            nodeset, &attrIsAbstract, attributes, attributeSize);
        break;
    }
    case NODECLASS_OBJECT: {
        ((NL_ObjectNode *)node)->eventNotifier = getAttributeValue(
            nodeset, &attrEventNotifier, attributes, attributeSize);
        break;
    }
"""),
(N, """
        ((NL_VariableNode *)node)->parentNodeId = extractNodedId(
            namespaces, getAttributeValue(nodeset, &attrParentNodeId,
                                          attributes, attributeSize));
        char *datatype""", """        char *datatype"""),
(N, """        ((NL_MethodNode *)node)->parentNodeId = extractNodedId(
            namespaces, getAttributeValue(nodeset, &attrParentNodeId,
                                          attributes, attributeSize));
        ((NL_MethodNode *)node)->executable""", """        ((NL_MethodNode *)node)->executable"""),
(N, """        ((NL_ViewNode *)node)->parentNodeId = extractNodedId(
            namespaces, getAttributeValue(nodeset, &attrParentNodeId,
                                          attributes, attributeSize));
        ((NL_ViewNode *)node)->containsNoLoops""", """        ((NL_ViewNode *)node)->containsNoLoops"""),
(N, """    NL_DataTypeNode *dataTypeNode = (NL_DataTypeNode *)node;
    if (dataTypeNode->definition->isOptionSet)
    {
        return;
    }

    NL_DataTypeDefinitionField *newField =
        DataTypeNode_addDefinitionField(dataTypeNode->definition);
    newField->name = getAttributeValue(nodeset, &dataTypeField_Name, attributes,
                                       attributeSize);

    char *value = getAttributeValue(nodeset, &dataTypeField_Value, attributes,
                                    attributeSize);
    if (value)
    {
        newField->value = atoi(value);
        dataTypeNode->definition->isEnum =
            !dataTypeNode->definition->isOptionSet;
    }
    else
    {
        newField->dataType = alias2Id(
            nodeset, getAttributeValue(nodeset, &dataTypeField_DataType,
                                       attributes, attributeSize));
        newField->valueRank = atoi(getAttributeValue(
            nodeset, &attrValueRank, attributes, attributeSize));
        char *isOptional = getAttributeValue(nodeset, &dataTypeField_IsOptional,
                                             attributes, attributeSize);
        newField->isOptional = isTrue(isOptional);
    }
""", """    NL_DataTypeDefinition *def = ((NL_DataTypeNode *)node)->definition;
    if (def->isOptionSet)
    {
        return;
    }

    const char *value = getAttributeValue(nodeset, &dataTypeField_Value,
                                          attributes, attributeSize);
    NL_DataTypeDefinitionField *newField = DataTypeNode_addDefinitionField(def);
    newField->name = getAttributeValue(nodeset, &dataTypeField_Name, attributes,
                                       attributeSize);
    if (value)
    {
        def->isEnum = true;
        newField->value = atoi(value);
        return;
    }
    newField->isOptional = isTrue(getAttributeValue(
        nodeset, &dataTypeField_IsOptional, attributes, attributeSize));
    newField->valueRank = atoi(
        getAttributeValue(nodeset, &attrValueRank, attributes, attributeSize));
    newField->dataType = alias2Id(
        nodeset, getAttributeValue(nodeset, &dataTypeField_DataType, attributes,
                                   attributeSize));
"""),
]

# ---------------------------------------------------------------- NodesetLoader.c
def nodecase(name):
    return """        %sif (!strcmp(localname, %s))
        {
            pctx->nodeClass = NODECLASS_%s;
            pctx->node = Nodeset_newNode(pctx->nodeset, pctx->nodeClass,
                                         nb_attributes, attributes);
            pctx->state = PARSER_STATE_NODE;
        }
""" % ("" if name == "VARIABLE" else "else ", name, name)


ALL = "".join(nodecase(n) for n in ("VARIABLE", "OBJECT", "OBJECTTYPE", "DATATYPE", "METHOD", "REFERENCETYPE", "VARIABLETYPE", "VIEW"))
SETS["loader-states"] = [
(L, ALL + """        else if (!strcmp(localname, NAMESPACEURIS))
""", """        if (startNode(pctx, localname, nb_attributes, attributes))
        {
            pctx->state = PARSER_STATE_NODE;
        }
        else if (!strcmp(localname, NAMESPACEURIS))
"""),
(L, """static void OnStartElementNs(void *ctx, const char *localname,
""", """static const struct
{
    const char *element;
    NL_NodeClass nodeClass;
} nodeElements[] = {
    {OBJECT, NODECLASS_OBJECT},         {OBJECTTYPE, NODECLASS_OBJECTTYPE},
    {VARIABLE, NODECLASS_VARIABLE},     {VARIABLETYPE, NODECLASS_VARIABLETYPE},
    {METHOD, NODECLASS_METHOD},         {DATATYPE, NODECLASS_DATATYPE},
    {VIEW, NODECLASS_VIEW},             {REFERENCETYPE, NODECLASS_REFERENCETYPE},
};

static bool startNode(TParserCtx *ctx, const char *element, int nb_attributes,
                      const char **attributes)
{
    for (size_t i = 0; i < sizeof(nodeElements) / sizeof(nodeElements[0]); i++)
    {
        if (strcmp(nodeElements[i].element, element) == 0)
        {
            ctx->nodeClass = nodeElements[i].nodeClass;
            ctx->node = Nodeset_newNode(ctx->nodeset, ctx->nodeClass,
                                        nb_attributes, attributes);
            return true;
        }
    }
    return false;
}

static void OnStartElementNs(void *ctx, const char *localname,
"""),
(L, """            pctx->state = PARSER_STATE_ALIAS;
            pctx->node = NULL;
            pctx->alias =
                Nodeset_newAlias(pctx->nodeset, nb_attributes, attributes);
            pctx->state = PARSER_STATE_ALIAS;
""", """            pctx->alias =
                Nodeset_newAlias(pctx->nodeset, nb_attributes, attributes);
            pctx->node = NULL;
            pctx->state = PARSER_STATE_ALIAS;
"""),
(L, """    case PARSER_STATE_URI:
        enterUnknownState(pctx);
        break;
    case PARSER_STATE_NODE:
        if""", """    case PARSER_STATE_NODE:
        if"""),
(L, """    case PARSER_STATE_DATATYPE_DEFINITION_FIELD:
        enterUnknownState(pctx);
        break;

    case PARSER_STATE_VALUE:
        // copy the name
        {
            size_t len = strlen(localname);
            char *localNameCopy =
                CharArenaAllocator_malloc(pctx->nodeset->charArena, len + 1);
            memcpy(localNameCopy, localname, len);
            Value_start(pctx->val, localNameCopy);
            pctx->unknown_depth++;
        }
        break;
""", """    case PARSER_STATE_VALUE:
        Value_start(pctx->val, copyText(pctx->nodeset, localname));
        ++pctx->unknown_depth;
        break;
"""),
(L, """static void enterUnknownState(TParserCtx *ctx)
""", """static char *copyText(Nodeset *nodeset, const char *text)
{
    const size_t size = strlen(text) + 1;
    return (char *)memcpy(CharArenaAllocator_malloc(nodeset->charArena, size),
                          text, size);
}

static void enterUnknownState(TParserCtx *ctx)
"""),
(L, """    case PARSER_STATE_DESCRIPTION:
        enterUnknownState(pctx);
        break;
    case PARSER_STATE_ALIAS:
        enterUnknownState(pctx);
        break;
    case PARSER_STATE_DISPLAYNAME:
        enterUnknownState(pctx);
        break;
    case PARSER_STATE_REFERENCE:
        enterUnknownState(pctx);
        break;
    case PARSER_STATE_INVERSENAME:
        enterUnknownState(pctx);
        break;
    case PARSER_STATE_UNKNOWN:
        pctx->unknown_depth++;
        break;    
    }
    pctx->onCharacters = NULL;
    pctx->onCharLength = 0;
}
""", """    case PARSER_STATE_UNKNOWN:
        pctx->unknown_depth++;
        break;
    default:
        // these elements have no children
        enterUnknownState(pctx);
    }
    resetText(pctx);
}
"""),
(L, """static void OnStartElementNs(void *ctx, const char *localname,
""", """static void resetText(TParserCtx *ctx)
{
    ctx->onCharLength = 0;
    ctx->onCharacters = NULL;
}

static void OnStartElementNs(void *ctx, const char *localname,
"""),
(L, """            /* TODO: Enable VariableType to hold a valeu */
            if(pctx->node->nodeClass == NODECLASS_VARIABLE)
            {
                NL_VariableNode *varNode = (NL_VariableNode *)pctx->node;
                if(varNode->value)
                    Value_delete(varNode->value);
                varNode->value = pctx->val;
            }
            else
            {
                Value_delete(pctx->val);
            }
            pctx->val = NULL;
            pctx->state = PARSER_STATE_NODE;
""", """            finishValue(pctx);
            pctx->state = PARSER_STATE_NODE;
"""),
(L, """static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
""", """// the value belongs to its node or to nobody
static void finishValue(TParserCtx *ctx)
{
    NL_Value *obsolete = ctx->val;
    /* TODO: Enable VariableType to hold a valeu */
    if (ctx->node->nodeClass == NODECLASS_VARIABLE)
    {
        NL_VariableNode *var = (NL_VariableNode *)ctx->node;
        obsolete = var->value;
        var->value = ctx->val;
    }
    ctx->val = NULL;
    if (obsolete)
    {
        Value_delete(obsolete);
    }
}

static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
"""),
(L, """    if (pctx->onCharacters == NULL)
    {
        char *newValue = CharArenaAllocator_malloc(pctx->nodeset->charArena,
                                                   (size_t)len + 1);
        pctx->onCharacters = newValue;
    }
    else
    {
        pctx->onCharacters = CharArenaAllocator_realloc(
            pctx->nodeset->charArena, (size_t)len + 1);
    }
    memcpy(pctx->onCharacters + pctx->onCharLength, ch, (size_t)len);
    pctx->onCharLength += (size_t)len;
""", """    const size_t size = (size_t)len;
    CharArenaAllocator *arena = pctx->nodeset->charArena;
    pctx->onCharacters = pctx->onCharacters
                             ? CharArenaAllocator_realloc(arena, size + 1)
                             : CharArenaAllocator_malloc(arena, size + 1);
    char *end = pctx->onCharacters + pctx->onCharLength;
    pctx->onCharLength += size;
    memcpy(end, ch, size);
"""),
]
SETS["loader-import"] = [
(L, """    TParserCtx *ctx = NULL;
    FILE *f = fopen(fileHandler->file, "r");

    if (!f)
    {
        loader->logger->log(loader->logger->context,
                            NODESETLOADER_LOGLEVEL_ERROR,
                            "NodesetLoader: file open error");
        retStatus = false;
        goto cleanup;
    }

    ctx = (TParserCtx *)calloc(1, sizeof(TParserCtx));
    if (!ctx)
    {
        retStatus = false;
        goto cleanup;
    }
    ctx->nodeset = loader->nodeset;
    ctx->state = PARSER_STATE_INIT;
    ctx->prev_state = PARSER_STATE_INIT;
    ctx->unknown_depth = 0;
    ctx->onCharacters = NULL;
    ctx->onCharLength = 0;
    ctx->userContext = fileHandler->userContext;
    ctx->extIf = fileHandler->extensionHandling;

    Parser *parser = Parser_new(ctx);
    if (Parser_run(parser, f, OnStartElementNs, OnEndElementNs, OnCharacters))
    {
        loader->logger->log(loader->logger->context,
                            NODESETLOADER_LOGLEVEL_ERROR, "xml parsing error");
        retStatus = false;
    }
    Parser_delete(parser);

cleanup:
    if (ctx)
    {
        // only set if the document ended within a node or a value
        Node_delete(ctx->node);
        if (ctx->val)
        {
            Value_delete(ctx->val);
        }
    }
    free(ctx);
    if (f)
    {
        fclose(f);
    }
    return retStatus;
""", """    FILE *f = fopen(fileHandler->file, "r");
    if (!f)
    {
        logError(loader, "NodesetLoader: file open error");
        return false;
    }
    retStatus = parseFile(loader, fileHandler, f);
    fclose(f);
    return retStatus;
"""),
(L, """bool NodesetLoader_importFile(NodesetLoader *loader,
""", """static void logError(const NodesetLoader *loader, const char *message)
{
    loader->logger->log(loader->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                        message);
}

static bool parseFile(NodesetLoader *loader, const NL_FileContext *handler,
                      FILE *f)
{
    TParserCtx ctx;
    memset(&ctx, 0, sizeof(ctx));
    ctx.state = ctx.prev_state = PARSER_STATE_INIT;
    ctx.extIf = handler->extensionHandling;
    ctx.userContext = handler->userContext;
    ctx.nodeset = loader->nodeset;

    Parser *parser = Parser_new(&ctx);
    const int failed =
        Parser_run(parser, f, OnStartElementNs, OnEndElementNs, OnCharacters);
    Parser_delete(parser);
    if (failed)
    {
        logError(loader, "xml parsing error");
    }
    // only set if the document ended within a node or a value
    if (ctx.val)
    {
        Value_delete(ctx.val);
    }
    Node_delete(ctx.node);
    return !failed;
}

bool NodesetLoader_importFile(NodesetLoader *loader,
"""),
(L, """    if (fileHandler == NULL)
    {
        loader->logger->log(loader->logger->context,
                            NODESETLOADER_LOGLEVEL_ERROR,
                            "NodesetLoader: no filehandler - abort");
        return false;
    }
    if (fileHandler->addNamespace == NULL)
    {
        loader->logger->log(loader->logger->context,
                            NODESETLOADER_LOGLEVEL_ERROR,
                            "NodesetLoader: fileHandler->addNamespace missing");
        return false;
    }
    bool retStatus = true;
    if (!loader->nodeset)
    {
        loader->nodeset = Nodeset_new(fileHandler->addNamespace, loader->logger,
                                      loader->refService);
        if (!loader->nodeset)
        {
            return false;
        }
    }
    else if (!Nodeset_startFile(loader->nodeset, fileHandler->addNamespace))
    {
        return false;
    }
""", """    if (fileHandler == NULL || fileHandler->addNamespace == NULL)
    {
        logError(loader, fileHandler
                             ? "NodesetLoader: fileHandler->addNamespace missing"
                             : "NodesetLoader: no filehandler - abort");
        return false;
    }
    bool retStatus;
    if (loader->nodeset)
    {
        retStatus = Nodeset_startFile(loader->nodeset, fileHandler->addNamespace);
    }
    else
    {
        loader->nodeset = Nodeset_new(fileHandler->addNamespace, loader->logger,
                                      loader->refService);
        retStatus = loader->nodeset != NULL;
    }
    if (!retStatus)
    {
        return false;
    }
"""),
(L, """    if (!logger)
    {
        loader->logger = InternalLogger_new();
        loader->internalLogger = true;
    }
    else
    {
        loader->logger = logger;
    }
    if (!refService)
    {
        loader->refService = InternalRefService_new();
        loader->internalRefService = true;
    }
    else
    {
        loader->refService = refService;
    }
    return loader;
""", """    loader->internalLogger = logger == NULL;
    loader->internalRefService = refService == NULL;
    loader->refService = refService ? refService : InternalRefService_new();
    loader->logger = logger ? logger : InternalLogger_new();
    return loader;
"""),
(L, """    if (!loader->nodeset)
    {
        return false;
    }
    return Nodeset_sort(loader->nodeset);
""", """    return loader->nodeset != NULL && Nodeset_sort(loader->nodeset);
"""),
(L, """    if (loader->nodeset)
    {
        Nodeset_cleanup(loader->nodeset);
    }
    if (loader->internalLogger)
    {
        free(loader->logger);
    }
    if (loader->internalRefService)
    {
        InternalRefService_delete(loader->refService);
    }
    free(loader);
""", """    Nodeset *nodeset = loader->nodeset;
    NL_ReferenceService *own =
        loader->internalRefService ? loader->refService : NULL;
    if (nodeset)
        Nodeset_cleanup(nodeset);
    if (own)
        InternalRefService_delete(own);
    if (loader->internalLogger)
        InternalLogger_delete(loader->logger);
    free(loader);
"""),
]

# ---------------------------------------------------------------- Sort.c
SETS["sort"] = [
(S, """static bool recurse_tree(SortContext *ctx, S_Node *rootNode,
                         bool (*action)(SortContext *ctx, S_Node *))
{
    if (rootNode->left == NULL && rootNode->right == NULL)
        return (*action)(ctx, rootNode);
    else
    {
        if (rootNode->left != NULL)
            if (recurse_tree(ctx, rootNode->left, action))
                return true;
        if ((*action)(ctx, rootNode))
            return true;
        if (rootNode->right != NULL)
            if (recurse_tree(ctx, rootNode->right, action))
                return true;
    }

    return false;
}

static void walk_tree(SortContext *ctx, S_Node *rootNode,
                      bool (*action)(SortContext *ctx, S_Node *))
{
    if (rootNode->right)
        recurse_tree(ctx, rootNode->right, action);
}
""", """static void recurse_tree(SortContext *ctx, S_Node *n,
                         void (*action)(SortContext *ctx, S_Node *))
{
    for (; n; n = n->right)
    {
        recurse_tree(ctx, n->left, action);
        action(ctx, n);
    }
}

static void walk_tree(SortContext *ctx, S_Node *rootNode,
                      void (*action)(SortContext *ctx, S_Node *))
{
    recurse_tree(ctx, rootNode->right, action);
}
"""),
(S, """static bool count_items(SortContext *ctx, S_Node *k)
{
    if (!k->sorted)
        ctx->keyCnt++;
    return false;
}

static bool scan_zeros(SortContext *ctx, S_Node *k)
{
    if (k->edgeCount == 0 && !k->sorted)
    {
        if (ctx->head == NULL)
            ctx->head = k;
        else
            ctx->zeros->qlink = k;

        ctx->zeros = k;
    }

    return false;
}
""", """static void count_items(SortContext *ctx, S_Node *k)
{
    ctx->keyCnt += k->sorted ? 0 : 1;
}

static void enqueue(SortContext *ctx, S_Node *k)
{
    S_Node **link = ctx->head ? &ctx->zeros->qlink : &ctx->head;
    *link = k;
    ctx->zeros = k;
}

static void scan_zeros(SortContext *ctx, S_Node *k)
{
    if (!k->sorted && k->edgeCount == 0)
        enqueue(ctx, k);
}
"""),
(S, """            S_Edge *e = ctx->head->edges;

            if (ctx->head->data != NULL)
            {
                callback(nodeset, ctx->head->data);
            }

            ctx->head->sorted = true;
            ctx->keyCnt--;

            while (e)
            {
                e->dest->edgeCount--;
                if (e->dest->edgeCount == 0)
                {
                    ctx->zeros->qlink = e->dest;
                    ctx->zeros = e->dest;
                }
                e = e->next;
            }
            ctx->head = ctx->head->qlink;
""", """            S_Node *first = ctx->head;
            first->sorted = true;
            ctx->keyCnt--;
            if (first->data)
                callback(nodeset, first->data);
            for (const S_Edge *e = first->edges; e; e = e->next)
            {
                if (--e->dest->edgeCount == 0)
                    enqueue(ctx, e->dest);
            }
            ctx->head = first->qlink;
"""),
(S, """    ctx->keyCnt = 0;
    walk_tree(ctx, ctx->root1, count_items);

    while (ctx->keyCnt > 0)
    {
        walk_tree""", """    ctx->keyCnt = 0;
    walk_tree(ctx, ctx->root1, count_items);

    if (ctx->keyCnt > 0)
    {
        walk_tree"""),
(S, """    if(UA_NodeId_equal(from->id, to->id))
        return;

    // already handed out, there is nothing left to wait for
    if(from->sorted || to->sorted)
        return;

    struct S_Edge *e = (S_Edge *)calloc(1, sizeof(S_Edge));
    if(!e)
        return;

    to->edgeCount++;
    e->dest = to;
    e->next = from->edges;
    from->edges = e;
""", """    // already handed out, there is nothing left to wait for
    bool done = from->sorted || to->sorted;
    if(done || from == to || UA_NodeId_equal(from->id, to->id))
        return;

    struct S_Edge *e = (S_Edge *)malloc(sizeof(*e));
    if(e) {
        e->next = from->edges;
        e->dest = to;
        from->edges = e;
        to->edgeCount++;
    }
"""),
(S, """    NL_Reference *hierachicalRef = data->hierachicalRefs;
    bool hierachicalRefRecorded = false;
    if (hierachicalRef) {
        while (hierachicalRef) {
            S_Node *k = lookup_node(ctx, &hierachicalRef->target);
            if (!hierachicalRef->isForward) {
                record_relation(k, j);
            } else {
                record_relation(j, k);
            }
            hierachicalRef = hierachicalRef->next;
            hierachicalRefRecorded = true;
        }
    }
    // add reference generated by ParentNodeId, if dont have already a hierachical ref
    if (!hierachicalRefRecorded && NodesetLoader_isInstanceNode(data)) {
        NL_InstanceNode *instanceNode = (NL_InstanceNode *)data;
        if(UA_NodeId_equal(&instanceNode->parentNodeId, &UA_NODEID_NULL))
        {
            return true;
        }

        S_Node *k = lookup_node(ctx, &instanceNode->parentNodeId);
        
        //to we already have a reference for the node parentNode?
        //parent references
        bool refTypeFound = false;
        if (k->data) {
            NL_Reference *r = k->data->hierachicalRefs;
            while (r) {
                if (UA_NodeId_equal(&r->target, &data->id)) 
                {
                    NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
                    newRef->isForward = !r->isForward;
                    UA_NodeId_copy(&k->data->id, &newRef->target);
                    UA_NodeId_copy(&r->refType, &newRef->refType);
                    newRef->next = data->hierachicalRefs;
                    data->hierachicalRefs = newRef;
                    refTypeFound = true;
                    break;
                }
                r = r->next;
            }
        }
        if(!refTypeFound)
        {
            NL_Reference *newRef =
            (NL_Reference *)calloc(1, sizeof(NL_Reference));
            newRef->isForward = false;
            UA_NodeId_copy(&instanceNode->parentNodeId, &newRef->target);
            newRef->refType = UA_NODEID_NUMERIC(0, NL_HASCOMPONENT_ID);
            newRef->next = data->hierachicalRefs;
            data->hierachicalRefs = newRef;
        }
    }
    return true;
""", """    // add reference generated by ParentNodeId, if dont have already a hierachical ref
    if (!data->hierachicalRefs) {
        if (NodesetLoader_isInstanceNode(data))
            addParentReference(ctx, (NL_InstanceNode *)data);
        return true;
    }
    for (const NL_Reference *r = data->hierachicalRefs; r; r = r->next) {
        S_Node *k = lookup_node(ctx, &r->target);
        record_relation(r->isForward ? j : k, r->isForward ? k : j);
    }
    return true;
"""),
(S, """bool Sort_addNode(SortContext *ctx, NL_Node *data) {
""", """static const NL_Reference *referenceTo(const NL_Node *node, const UA_NodeId *target) {
    const NL_Reference *r = node ? node->hierachicalRefs : NULL;
    while (r && !UA_NodeId_equal(&r->target, target))
        r = r->next;
    return r;
}

static void addParentReference(SortContext *ctx, NL_InstanceNode *instance) {
    if (UA_NodeId_equal(&instance->parentNodeId, &UA_NODEID_NULL))
        return;
    S_Node *k = lookup_node(ctx, &instance->parentNodeId);
    NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
    // do we already have a reference from the parent?
    const NL_Reference *r = referenceTo(k->data, &instance->id);
    if (r) {
        UA_NodeId_copy(&r->refType, &newRef->refType);
        newRef->isForward = !r->isForward;
    } else {
        newRef->refType = UA_NODEID_NUMERIC(0, NL_HASCOMPONENT_ID);
    }
    UA_NodeId_copy(&instance->parentNodeId, &newRef->target);
    newRef->next = instance->hierachicalRefs;
    instance->hierachicalRefs = newRef;
}

bool Sort_addNode(SortContext *ctx, NL_Node *data) {
"""),
(S, """            if (r) {
                if (r->balance == a) {
                    p = r;
                    if (a == UA_ORDER_LESS) {
                        s->left = r->right;
                        r->right = s;
                    } else {
                        s->right = r->left;
                        r->left = s;
                    }
                    s->balance = r->balance = 0;
                } else {
                    if (a == UA_ORDER_LESS) {
                        if (r->right) {
                            p = r->right;
                            r->right = p->left;
                            p->left = r;
                            s->left = p->right;
                            p->right = s;
                        }
                    } else {
                        if (r->left) {
                            p = r->left;
                            r->left = p->right;
                            p->right = r;
                            s->right = p->left;
                            p->left = s;
                        }
                    }

                    s->balance = 0;
                    r->balance = 0;
                    if (p) {
                        if (p->balance == a)
                            s->balance = -a;
                        else if (p->balance == -a)
                            r->balance = a;
                        p->balance = 0;
                    }
                }
            }
""", """            if (r)
                p = rebalance(s, r, p, a);
"""),
(S, """static S_Node *
search_node(S_Node *rootNode, const UA_NodeId *nodeId) {
""", """// rotates s and its child r on the side a, returns the new root of the subtree
static S_Node *
rebalance(S_Node *s, S_Node *r, S_Node *p, UA_Order a) {
    const bool left = a == UA_ORDER_LESS;
    if (r->balance == a) {
        // single rotation
        S_Node **to = left ? &s->left : &s->right;
        S_Node **from = left ? &r->right : &r->left;
        *to = *from;
        *from = s;
        s->balance = r->balance = 0;
        return r;
    }
    // double rotation
    if (left && r->right) {
        p = r->right;
        r->right = p->left;
        p->left = r;
        s->left = p->right;
        p->right = s;
    } else if (!left && r->left) {
        p = r->left;
        r->left = p->right;
        p->right = r;
        s->right = p->left;
        p->left = s;
    }
    const int b = p ? p->balance : 0;
    s->balance = (p && b == a) ? -a : 0;
    r->balance = (p && b == -a) ? a : 0;
    if (p)
        p->balance = 0;
    return p;
}

static S_Node *
search_node(S_Node *rootNode, const UA_NodeId *nodeId) {
"""),
(S, """    cleanupSubtree(n->left);
    cleanupSubtree(n->right);
    cleanupEdges(n->edges);
    free(n);
""", """    S_Node *l = n->left, *r = n->right;
    cleanupEdges(n->edges);
    free(n);
    cleanupSubtree(r);
    cleanupSubtree(l);
"""),
(S, """    if (!n)
    {
        return;
    }
    handOutSubtree(n->left, nodeset, callback);
    handOutSubtree(n->right, nodeset, callback);
    if (n->data && !n->sorted)
    {
        callback(nodeset, n->data);
        n->data = NULL;
    }
""", """    for (; n; n = n->right)
    {
        handOutSubtree(n->left, nodeset, callback);
        NL_Node *data = n->sorted ? NULL : n->data;
        if (data)
        {
            n->data = NULL;
            callback(nodeset, data);
        }
    }
"""),
]

# ---------------------------------------------------------------- containers
SETS["containers"] = [
(A, """    for(Alias* alias = list->data; alias != list->data + list->size; alias++) {
        if (alias->name && !strcmp(name, alias->name))
            return &alias->id;
    }
    return NULL;
""", """    size_t i = 0;
    while(i < list->size && (!list->data[i].name || strcmp(list->data[i].name, name) != 0))
        i++;
    return i == list->size ? NULL : &list->data[i].id;
"""),
(A, """    if(list->size >= list->capacity)
    {
        Alias *data = (Alias *)realloc(
            list->data, (list->capacity + ALIAS_INCREMENT) * sizeof(Alias));
        if(!data)
        {
            return NULL;
        }
        list->data = data;
        list->capacity += ALIAS_INCREMENT;
    }
    list->data[list->size].name = name;
    UA_NodeId_init(&list->data[list->size].id);
    list->size++;
    return &list->data[list->size - 1];
""", """    if(list->size == list->capacity && !AliasList_grow(list))
        return NULL;
    Alias *alias = list->data + list->size++;
    UA_NodeId_init(&alias->id);
    alias->name = name;
    return alias;
"""),
(A, """Alias *AliasList_newAlias(AliasList *list, char *name)
""", """static bool AliasList_grow(AliasList *list)
{
    const size_t capacity = list->capacity * 2;
    void *data = realloc(list->data, sizeof(Alias) * capacity);
    if(!data)
        return false;
    list->capacity = capacity;
    list->data = (Alias *)data;
    return true;
}

Alias *AliasList_newAlias(AliasList *list, char *name)
"""),
(A, """    for(size_t i = 0; i < list->size; i++)
    {
        UA_NodeId_clear(&list->data[i].id);
    }
    free(list->data);
    free(list);
""", """    Alias *data = list->data;
    while(list->size > 0)
    {
        UA_NodeId_clear(&data[--list->size].id);
    }
    free(list);
    free(data);
"""),
(NS, """    list->size++;
    list->data =
        (Namespace *)realloc(list->data, sizeof(Namespace) * list->size);
    if(!list->data)
    {
        return NULL;
    }
    list->data[list->size - 1].name = uri;
    list->data[list->size - 1].idx = globalIdx;
    return &list->data[list->size - 1];
""", """    Namespace *data = (Namespace *)realloc(
        list->data, (list->size + 1) * sizeof(Namespace));
    if(!data)
    {
        return NULL;
    }
    list->data = data;
    Namespace *added = &data[list->size++];
    added->idx = globalIdx;
    added->name = uri;
    return added;
"""),
(NS, """    if((size_t)relativeIndex >=list->size)
    {
        return NULL;
    }
    return &list->data[relativeIndex];
""", """    const size_t i = (size_t)relativeIndex;
    return i < list->size ? list->data + i : NULL;
"""),
(IR, """    for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
        if (UA_NodeId_equal(&ref->refType, &service->hierachicalRefs[i].id))
            return true;
    }
    return false;
""", """    return isKnown(service, &ref->refType);
"""),
(IR, """static bool
isReferenceHierachical(""", """static bool
isKnown(const InternalRefService *service, const UA_NodeId *id) {
    const NL_ReferenceTypeNode *t = service->hierachicalRefs;
    const NL_ReferenceTypeNode *end = t + service->hierachicalRefsSize;
    while (t != end && !UA_NodeId_equal(&t->id, id))
        t++;
    return t != end;
}

static bool
isReferenceHierachical("""),
(IR, """    NL_Reference *ref = node->hierachicalRefs;
    bool isHierachical = false;
    while (ref && !isHierachical) {
        // other inverse references do not make it a subtype of the target
        if (!ref->isForward && UA_NodeId_equal(&ref->refType, &hasSubtype)) {
            for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
                if (UA_NodeId_equal(&service->hierachicalRefs[i].id, &ref->target)) {
                    addHierachicalRef(service, node);
                    isHierachical = true;
                    break;
                }
            }
        }
        ref = ref->next;
    }
    if (!isHierachical) {
        NodeContainer_add(service->nonHierachicalRefs, (NL_Node *)node);
    }
""", """    for (const NL_Reference *ref = node->hierachicalRefs; ref; ref = ref->next) {
        if (!ref->isForward && UA_NodeId_equal(&hasSubtype, &ref->refType) && isKnown(service, &ref->target)) {
            addHierachicalRef(service, node);
            return;
        }
    }
    NodeContainer_add(service->nonHierachicalRefs, (NL_Node *)node);
"""),
(IR, """    for (size_t i = 0; i < service->nonHierachicalRefs->size; i++) {
        if (UA_NodeId_equal(&ref->refType,
                            &service->nonHierachicalRefs->nodes[i]->id))
            return true;
    }
    return false;
""", """    const struct NodeContainer *known = service->nonHierachicalRefs;
    bool found = false;
    for (size_t i = known->size; i-- > 0 && !found;)
        found = UA_NodeId_equal(&known->nodes[i]->id, &ref->refType);
    return found;
"""),
("src/nodes/NodeContainer.c", """    if (container->size == container->capacity)
    {
        container->nodes = (NL_Node **)realloc(
            container->nodes,
            (container->size + container->incrementSize) * sizeof(void *));
        if(!container->nodes)
        {
            return;
        }
        container->capacity += container->incrementSize;
    }
    container->nodes[container->size] = node;
    container->size++;
""", """    const size_t needed = container->size + 1;
    if (needed > container->capacity)
    {
        const size_t capacity = container->capacity + container->incrementSize;
        NL_Node **nodes =
            (NL_Node **)realloc(container->nodes, capacity * sizeof(*nodes));
        if(!nodes)
        {
            return;
        }
        container->nodes = nodes;
        container->capacity = capacity;
    }
    container->nodes[needed - 1] = node;
    container->size = needed;
"""),
("src/nodes/NodeContainer.c", """    if (container->owner)
    {
        for (size_t i = 0; i < container->size; i++)
        {
            Node_delete(container->nodes[i]);
        }
    }
    free(container->nodes);
""", """    size_t owned = container->owner ? container->size : 0;
    for (NL_Node **node = container->nodes; owned > 0; owned--)
    {
        Node_delete(*node++);
    }
    free(container->nodes);
"""),
("src/nodes/Node.c", """    deleteRef(node->hierachicalRefs);
    deleteRef(node->nonHierachicalRefs);
    deleteRef(node->unknownRefs);
    if (node->nodeClass == NODECLASS_DATATYPE)
    {
        DataTypeNode_clear((NL_DataTypeNode *)node);
    }
    if(node->nodeClass == NODECLASS_VARIABLE)
    {
        NL_VariableNode* varNode = (NL_VariableNode*)node;
        deleteRef(varNode->refToTypeDef);
        UA_NodeId_clear(&varNode->parentNodeId);
        UA_NodeId_clear(&varNode->datatype);
        if(varNode->value)
        {
            Value_delete(varNode->value);
        }
    }
    if(node->nodeClass==NODECLASS_OBJECT)
    {
        NL_ObjectNode *objNode = (NL_ObjectNode *)node;
        UA_NodeId_clear(&objNode->parentNodeId);
        deleteRef(objNode->refToTypeDef);
    }
    if(node->nodeClass == NODECLASS_VARIABLETYPE)
    {
        UA_NodeId_clear(&((NL_VariableTypeNode *)node)->datatype);
    }
    if(node->nodeClass == NODECLASS_METHOD ||
       node->nodeClass == NODECLASS_VIEW)
    {
        UA_NodeId_clear(&((NL_InstanceNode *)node)->parentNodeId);
    }
    free(node);
""", """    NL_Reference *lists[3] = {node->unknownRefs, node->hierachicalRefs,
                              node->nonHierachicalRefs};
    for (int i = 0; i < 3; i++)
    {
        deleteRef(lists[i]);
    }
    switch (node->nodeClass)
    {
    case NODECLASS_DATATYPE:
        DataTypeNode_clear((NL_DataTypeNode *)node);
        break;
    case NODECLASS_VARIABLE:
        if (((NL_VariableNode *)node)->value)
        {
            Value_delete(((NL_VariableNode *)node)->value);
        }
        UA_NodeId_clear(&((NL_VariableNode *)node)->datatype);
        UA_NodeId_clear(&((NL_VariableNode *)node)->parentNodeId);
        deleteRef(((NL_VariableNode *)node)->refToTypeDef);
        break;
    case NODECLASS_OBJECT:
        deleteRef(((NL_ObjectNode *)node)->refToTypeDef);
        /* fallthrough */
    case NODECLASS_METHOD:
    case NODECLASS_VIEW:
        UA_NodeId_clear(&((NL_InstanceNode *)node)->parentNodeId);
        break;
    case NODECLASS_VARIABLETYPE:
        UA_NodeId_clear(&((NL_VariableTypeNode *)node)->datatype);
        break;
    default:
        break;
    }
    free(node);
"""),
("src/nodes/Node.c", """    void *node = NULL;
    switch (nodeClass)
    {
    case NODECLASS_VARIABLE:
        node = calloc(1, sizeof(NL_VariableNode));
        break;
    case NODECLASS_OBJECT:
        node = calloc(1, sizeof(NL_ObjectNode));
        break;
    case NODECLASS_OBJECTTYPE:
        node = calloc(1, sizeof(NL_ObjectTypeNode));
        break;
    case NODECLASS_REFERENCETYPE:
        node = calloc(1, sizeof(NL_ReferenceTypeNode));
        break;
    case NODECLASS_VARIABLETYPE:
        node = calloc(1, sizeof(NL_VariableTypeNode));
        break;
    case NODECLASS_DATATYPE:
        node = calloc(1, sizeof(NL_DataTypeNode));
        break;
    case NODECLASS_METHOD:
        node = calloc(1, sizeof(NL_MethodNode));
        break;
    case NODECLASS_VIEW:
        node = calloc(1, sizeof(NL_ViewNode));
        break;
    }
    if(!node)
    {
        return NULL;
    }
    return (NL_Node*)node;
""", """    static const size_t sizes[NL_NODECLASS_COUNT] = {
        [NODECLASS_VARIABLE] = sizeof(NL_VariableNode),
        [NODECLASS_OBJECT] = sizeof(NL_ObjectNode),
        [NODECLASS_OBJECTTYPE] = sizeof(NL_ObjectTypeNode),
        [NODECLASS_REFERENCETYPE] = sizeof(NL_ReferenceTypeNode),
        [NODECLASS_VARIABLETYPE] = sizeof(NL_VariableTypeNode),
        [NODECLASS_DATATYPE] = sizeof(NL_DataTypeNode),
        [NODECLASS_METHOD] = sizeof(NL_MethodNode),
        [NODECLASS_VIEW] = sizeof(NL_ViewNode),
    };
    return (NL_Node *)calloc(1, sizes[nodeClass]);
"""),
("src/nodes/DataTypeNode.c", """    definition->fieldCnt++;
    definition->fields = (NL_DataTypeDefinitionField *)realloc(
        definition->fields,
        definition->fieldCnt * sizeof(NL_DataTypeDefinitionField));
    if(!definition->fields)
    {
        return NULL;
    }
    NL_DataTypeDefinitionField *newField =
        &definition->fields[definition->fieldCnt - 1];
    memset(newField, 0, sizeof(*newField));
    return newField;
""", """    const size_t cnt = definition->fieldCnt;
    NL_DataTypeDefinitionField *fields = (NL_DataTypeDefinitionField *)realloc(
        definition->fields, (cnt + 1) * sizeof(*fields));
    if(!fields)
        return NULL;
    definition->fieldCnt = cnt + 1;
    definition->fields = fields;
    return (NL_DataTypeDefinitionField *)memset(fields + cnt, 0, sizeof(*fields));
"""),
]

# ---------------------------------------------------------------- memory, parser, logger
SETS["arena-parser"] = [
(CA, """    if ((arena->current->size + size) > arena->current->capacity)
    {        
        struct Region *newRegion = Region_new(getRegionSize(size, arena->initialSize));
        if (!newRegion)
        {
            return NULL;
        }
        newRegion->next = arena->current;
        arena->current = newRegion;
    }
    arena->current->userPtr = arena->current->mem + arena->current->size;
    arena->current->size += size;
    arena->current->userSize = size;
    return arena->current->userPtr;
""", """    struct Region *r = arena->current;
    if (!Region_fits(r, size))
    {
        r = Region_new(getRegionSize(size, arena->initialSize));
        if (!r)
            return NULL;
        r->next = arena->current;
        arena->current = r;
    }
    r->userSize = size;
    r->userPtr = &r->mem[r->size];
    r->size += size;
    return r->userPtr;
"""),
(CA, """    if ((arena->current->size + size) > arena->current->capacity)
    {
        // we also""", """    if (!Region_fits(arena->current, size))
    {
        // we also"""),
(CA, """        memcpy(newRegion->userPtr, arena->current->userPtr, arena->current->userSize);
        newRegion->userSize = arena->current->userSize;
        newRegion->next = arena->current;
        newRegion->size = newRegion->userSize;
        arena->current = newRegion;
    }
    arena->current->userSize += size;
    arena->current->size += size;
    return arena->current->userPtr;
""", """        const struct Region *old = arena->current;
        newRegion->size = newRegion->userSize = old->userSize;
        newRegion->next = arena->current;
        memcpy(newRegion->mem, old->userPtr, old->userSize);
        arena->current = newRegion;
    }
    struct Region *r = arena->current;
    r->size += size;
    r->userSize += size;
    return r->userPtr;
"""),
(CA, """static size_t getRegionSize(size_t requested, size_t initialArenaSize)
{
    size_t regionSize = initialArenaSize;
    if (requested > initialArenaSize)
    {
        regionSize = requested * 2;
    }
    return regionSize;
}
""", """static size_t getRegionSize(size_t requested, size_t initialArenaSize)
{
    return requested <= initialArenaSize ? initialArenaSize : 2 * requested;
}

static int Region_fits(const struct Region *r, size_t size)
{
    return r->capacity - r->size >= size;
}
"""),
(CA, """    struct Region *r = arena->current;
    while (r)
    {
        struct Region *tmp = r->next;
        free(r->mem);
        free(r);
        r = tmp;
    }
    free(arena);
""", """    for (struct Region *r; (r = arena->current) != NULL;)
    {
        arena->current = r->next;
        free(r->mem);
        free(r);
    }
    free(arena);
"""),
("src/Parser.c", """    int status = 0;
    while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 0)
    {
        if (xmlParseChunk(ctxt, chars, res, 0))
        {
            xmlParserError(ctxt, "xmlParseChunk");
            status = 1;
            break;
        }
    }
    // a document that ends early is only detected when the input is terminated
    if (status == 0 && xmlParseChunk(ctxt, chars, 0, 1))
    {
        status = 1;
    }
    // a document type declaration makes the parser build a document
    xmlFreeDoc(ctxt->myDoc);
    xmlFreeParserCtxt(ctxt);
    return status;
""", """    bool ok = true;
    do
    {
        size_t read = fread(chars, 1, sizeof(chars), file);
        // a document that ends early is only detected when the input is
        // terminated
        if (read == 0)
        {
            ok = xmlParseChunk(ctxt, chars, 0, 1) == 0;
            break;
        }
        ok = xmlParseChunk(ctxt, chars, (int)read, 0) == 0;
        if (!ok)
            xmlParserError(ctxt, "xmlParseChunk");
    } while (ok);
    if (ctxt->myDoc)
        xmlFreeDoc(ctxt->myDoc);
    xmlFreeParserCtxt(ctxt);
    return ok ? 0 : 1;
"""),
("src/Parser.c", """#include <assert.h>
""", """#include <assert.h>
#include <stdbool.h>
"""),
("src/PrintfLogger.c", """static const char *logLevel[3] = {"Debug", "Warning", "Error"};

""", """static const char *levelName(enum NodesetLoader_LogLevel level)
{
    switch (level)
    {
    case NODESETLOADER_LOGLEVEL_DEBUG:
        return "Debug";
    case NODESETLOADER_LOGLEVEL_WARNING:
        return "Warning";
    default:
        return "Error";
    }
}

"""),
("src/PrintfLogger.c", """    va_list vl;
    va_start(vl, message);
    printf("NODESETLOADER: %s : ", logLevel[level]);
    vprintf(message, vl);
    printf("\\n");
    va_end(vl);
""", """    fputs("NODESETLOADER: ", stdout);
    fputs(levelName(level), stdout);
    fputs(" : ", stdout);
    va_list vl;
    va_start(vl, message);
    vfprintf(stdout, message, vl);
    va_end(vl);
    putchar('\\n');
"""),
]

# ---------------------------------------------------------------- Value.c
SETS["value"] = [
(V, """    NL_Data *newData = (NL_Data *)calloc(1, sizeof(NL_Data));
    parent->val.complexData.members[parent->val.complexData.membersSize] =
        newData;

    parent->val.complexData.membersSize++;
    newData->type = DATATYPE_PRIMITIVE;
    newData->name = name;
    newData->parent = parent;
    return newData;
""", """    NL_Data *member = newData(name, DATATYPE_PRIMITIVE);
    member->parent = parent;
    size_t last = parent->val.complexData.membersSize++;
    parent->val.complexData.members[last] = member;
    return member;
"""),
(V, """        val->ctx->state = PARSERSTATE_DATA;
        {
            val->type = name;
            NL_Data *newData = addNewMember(val->ctx->currentData, name);
            val->ctx->currentData = newData;
        }

        break;
""", """        val->type = name;
        openElement(val, name, DATATYPE_PRIMITIVE);
        val->ctx->state = PARSERSTATE_DATA;
        break;
"""),
(V, """        val->ctx->state = PARSERSTATE_DATA;
        if (!val->ctx->currentData)
        {
            val->data = newData(name, DATATYPE_COMPLEX);
            val->ctx->currentData = val->data;
        }
        else
        {
            NL_Data *newData = addNewMember(val->ctx->currentData, name);
            val->ctx->currentData = newData;
        }
        break;
""", """        openElement(val, name, DATATYPE_COMPLEX);
        val->ctx->state = PARSERSTATE_DATA;
        break;
"""),
(V, """        if (!val->ctx->currentData)
        {
            val->data = newData(name, DATATYPE_PRIMITIVE);
            val->ctx->currentData = val->data;
        }
        else
        {
            NL_Data *newData = addNewMember(val->ctx->currentData, name);
            val->ctx->currentData = newData;
        }

        break;
    case PARSERSTATE_FINISHED:
        break;
""", """        openElement(val, name, DATATYPE_PRIMITIVE);
        break;
    default:
        break;
"""),
(V, """void Value_start(NL_Value *val, const char *name)
""", """// the element is the value itself or a member of the current one
static void openElement(NL_Value *val, const char *name, NL_DataType rootType)
{
    NL_Data **current = &val->ctx->currentData;
    if (*current)
        *current = addNewMember(*current, name);
    else
        *current = val->data = newData(name, rootType);
}

void Value_start(NL_Value *val, const char *name)
"""),
(V, """    if(!value)
    {
        return NULL;
    }
    for(const char* c=value;*c!='\\0'; c++)
    {
        // http://www.cplusplus.com/reference/cctype/isspace/
        if(!isspace((unsigned char)*c))
        {
            return value;
        }
    }
    return NULL;
""", """    const char *c = value;
    // http://www.cplusplus.com/reference/cctype/isspace/
    while (c && *c && isspace((unsigned char)*c))
    {
        ++c;
    }
    return c && *c ? value : NULL;
"""),
(V, """        // exit conditions
        if (!val->isExtensionObject && val->ctx->currentData == NULL)
        {
            val->ctx->state = PARSERSTATE_INIT;
        }
        // extensionsobject
        if (val->isExtensionObject && !val->isArray &&
            val->ctx->currentData == NULL)
        {
            val->ctx->state = PARSERSTATE_EXTENSIONOBJECT_BODY;
        }
        // listOfExtensionObject
        if (val->isExtensionObject && val->isArray &&
            val->ctx->currentData->parent == NULL)
        {
            val->ctx->state = PARSERSTATE_EXTENSIONOBJECT_BODY;
        }
        break;
""", """        // exit conditions
        {
            const NL_Data *open = val->ctx->currentData;
            if (!val->isExtensionObject)
            {
                if (!open)
                    val->ctx->state = PARSERSTATE_INIT;
            }
            else if (val->isArray ? !open->parent : !open)
            {
                val->ctx->state = PARSERSTATE_EXTENSIONOBJECT_BODY;
            }
        }
        break;
"""),
(V, """    if (data->type == DATATYPE_PRIMITIVE)
    {
        PrimitiveData_clear(data);
    }
    else
    {
        ComplexData_clear(data);
    }
    free(data);
""", """    if (data->type == DATATYPE_COMPLEX)
    {
        ComplexData_clear(data);
    }
    free(data);
"""),
(V, """static void PrimitiveData_clear(NL_Data *data)
{
    // free(data);
}

""", ""),
]

# ---------------------------------------------------------------- the order of the members of the internal structures
SETS["layout"] = [
("src/Nodeset.h", """    CharArenaAllocator *charArena;
    struct AliasList *aliasList;
    struct NodeContainer *nodes[NL_NODECLASS_COUNT];
    struct NamespaceList *namespaces;
    struct SortContext *sortCtx;
    NL_BiDirectionalReference *hasEncodingRefs;
    NodesetLoader_Logger* logger;
    struct NodeContainer *nodesWithUnknownRefs;
    struct NodeContainer *refTypesWithUnknownRefs;
    NL_ReferenceService* refService;
""", """    NL_ReferenceService* refService;
    NodesetLoader_Logger* logger;
    struct SortContext *sortCtx;
    struct NamespaceList *namespaces;
    struct AliasList *aliasList;
    struct NodeContainer *refTypesWithUnknownRefs;
    struct NodeContainer *nodesWithUnknownRefs;
    struct NodeContainer *nodes[NL_NODECLASS_COUNT];
    NL_BiDirectionalReference *hasEncodingRefs;
    CharArenaAllocator *charArena;
"""),
("src/nodes/NodeContainer.h", """    NL_Node **nodes;
    size_t size;
    size_t capacity;
    size_t incrementSize;
    bool owner;
""", """    bool owner;
    size_t incrementSize;
    size_t capacity;
    size_t size;
    NL_Node **nodes;
"""),
(L, """    void *userContext;
    TParserState state;
    TParserState prev_state;
    size_t unknown_depth;
    NL_NodeClass nodeClass;
    NL_Node *node;
    struct Alias *alias;
    char *onCharacters;
    size_t onCharLength;
    NL_Value *val;
    void *extensionData;
    NodesetLoader_ExtensionInterface *extIf;
    NL_Reference *ref;
    Nodeset *nodeset;
""", """    Nodeset *nodeset;
    NL_Reference *ref;
    NodesetLoader_ExtensionInterface *extIf;
    void *extensionData;
    NL_Value *val;
    size_t onCharLength;
    char *onCharacters;
    struct Alias *alias;
    NL_Node *node;
    NL_NodeClass nodeClass;
    size_t unknown_depth;
    TParserState prev_state;
    TParserState state;
    void *userContext;
"""),
(L, """    Nodeset *nodeset;
    NodesetLoader_Logger *logger;
    bool internalLogger;
    NL_ReferenceService *refService;
    bool internalRefService;
""", """    bool internalLogger;
    bool internalRefService;
    NL_ReferenceService *refService;
    NodesetLoader_Logger *logger;
    Nodeset *nodeset;
"""),
(S, """    const UA_NodeId *id;
    struct S_Node *left, *right;
    int balance;
    struct S_Node *qlink;
    struct S_Edge *edges;
    size_t edgeCount;
    NL_Node *data;
    bool sorted;
""", """    NL_Node *data;
    const UA_NodeId *id;
    size_t edgeCount;
    struct S_Edge *edges;
    struct S_Node *qlink;
    struct S_Node *right, *left;
    int balance;
    bool sorted;
"""),
(S, """    S_Node *head;
    S_Node *zeros;
    S_Node *root1;
    size_t keyCnt;
""", """    size_t keyCnt;
    S_Node *root1;
    S_Node *zeros;
    S_Node *head;
"""),
(CA, """    size_t capacity;
    size_t size;
    struct Region *next;
    char *mem;
    char *userPtr;
    size_t userSize;
""", """    struct Region *next;
    char *userPtr;
    size_t userSize;
    char *mem;
    size_t size;
    size_t capacity;
"""),
(A, """    Alias *data;
    size_t size;
    size_t capacity;
""", """    size_t capacity;
    size_t size;
    Alias *data;
"""),
(NS, """    size_t size;
    Namespace *data;
    NL_addNamespaceCallback cb;
""", """    NL_addNamespaceCallback cb;
    Namespace *data;
    size_t size;
"""),
(IR, """    size_t hierachicalRefsSize;
    size_t hierachicalRefsCapacity;
    NL_ReferenceTypeNode *hierachicalRefs;
    struct NodeContainer *nonHierachicalRefs;
""", """    struct NodeContainer *nonHierachicalRefs;
    NL_ReferenceTypeNode *hierachicalRefs;
    size_t hierachicalRefsCapacity;
    size_t hierachicalRefsSize;
"""),
]

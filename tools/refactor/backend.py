"""Edits of backends/open62541/src which keep the behaviour (see ../refactor.py)"""
SETS = {}
I = "backends/open62541/src/"


def ed(p, *prs):
    n = "backend-values" if p[-8:] in ("import.c", "/Value.c") else "backend-types"
    SETS.setdefault(n, []).extend((p, a, b) for a, b in prs)


ed(I+'import.c',
('''static UA_NodeId getReferenceTypeId(const NL_Reference *ref)
{
    if (!ref)
    {
        return UA_NODEID_NULL;
    }
    return ref->refType;
}

static UA_NodeId getReferenceTarget(const NL_Reference *ref)
{
    if (!ref)
    {
        return UA_NODEID_NULL;
    }
    return ref->target;
}
''',''),
('''    NL_Reference *ref = getHierachicalInverseReference(node, &parentId);
    *parentRefId = getReferenceTypeId(ref);
    if (UA_NodeId_equal(&parentId, &UA_NODEID_NULL))
    {
        parentId = getReferenceTarget(ref);
    }
    return parentId;
''','''    const NL_Reference *ref = getHierachicalInverseReference(node, &parentId);
    if (!ref)
    {
        *parentRefId = UA_NODEID_NULL;
        return parentId;
    }
    *parentRefId = ref->refType;
    return UA_NodeId_isNull(&parentId) ? ref->target : parentId;
'''),
('''    while (hierachicalRef)
    {
        if (!hierachicalRef->isForward)
        {
            if (UA_NodeId_equal(&hierachicalRef->target, parentId))
            {
                return hierachicalRef;
            }
            if (!firstInverseRef ||
                (UA_NodeId_equal(&hierachicalRef->refType, &hasSubtype) &&
                 !UA_NodeId_equal(&firstInverseRef->refType, &hasSubtype)))
            {
                firstInverseRef = hierachicalRef;
            }
        }
        hierachicalRef = hierachicalRef->next;
    }
''','''    UA_Boolean isSubtype = false;
    for (; hierachicalRef; hierachicalRef = hierachicalRef->next)
    {
        if (hierachicalRef->isForward)
            continue;
        if (UA_NodeId_equal(parentId, &hierachicalRef->target))
            return hierachicalRef;
        UA_Boolean sub = UA_NodeId_equal(&hierachicalRef->refType, &hasSubtype);
        if (firstInverseRef && (isSubtype || !sub))
            continue;
        firstInverseRef = hierachicalRef;
        isSubtype = sub;
    }
'''),
('''    size_t length = strlen(s);
    size_t arrSize = 0;
    if (0 == length)
    {
        return 0;
    }
    // add the first one
    int val = atoi(s);
    arrSize++;
    *dims = (UA_UInt32 *)malloc(sizeof(UA_UInt32));
    (*dims)[0] = (UA_UInt32)val;

    const char *subString = strchr(s, ',');

    while (subString != NULL)
    {
        arrSize++;
        *dims = (UA_UInt32 *)realloc(*dims, arrSize * sizeof(UA_UInt32));
        (*dims)[arrSize - 1] = (UA_UInt32)atoi(subString + 1);
        subString = strchr(subString + 1, ',');
    }
    return arrSize;
''','''    size_t arrSize = 0;
    if (*s == '\\0')
    {
        return arrSize;
    }
    for (const char *pos = s; pos; pos = strchr(pos, ','))
    {
        if (arrSize > 0)
        {
            pos++;
        }
        UA_UInt32 *grown = (UA_UInt32 *)realloc(*dims, (arrSize + 1) * sizeof(UA_UInt32));
        grown[arrSize++] = (UA_UInt32)atoi(pos);
        *dims = grown;
    }
    return arrSize;
'''),
('''static UA_StatusCode handleVariableNode(''','''static const UA_DataType *findValueType(UA_Server *server, const UA_NodeId *id)
{
    const UA_DataType *found = UA_findDataType(id);
    if (found)
        return found;
    found = NodesetLoader_getCustomDataType(server, id);
    if (found)
        return found;
    UA_NodeId parent = getParentType(server, *id);
    return UA_findDataType(&parent);
}

static UA_StatusCode handleVariableNode('''),
('''        const UA_DataType *dataType = UA_findDataType(&attr.dataType);
        if (!dataType)
        {
            // try it with custom types
            dataType = NodesetLoader_getCustomDataType(ServerContext_getServerObject(serverContext), &attr.dataType);
            // try it with parent
            if (!dataType)
            {
                const UA_NodeId parent = getParentType(ServerContext_getServerObject(serverContext), attr.dataType);
                dataType = UA_findDataType(&parent);
            }
        }

        UA_ServerConfig *config = UA_Server_getConfig(ServerContext_getServerObject(serverContext));
        const UA_DataTypeArray *types = config->customDataTypes;

        data = RawData_new(data);
        Value_getData(data, node->value, dataType, types->types, serverContext);

        if (data)
        {
            if (node->value->isArray)
            {
                UA_Variant_setArray(
                    &attr.value, data->mem,
                    node->value->data->val.complexData.membersSize, dataType);
            }
            else
            {
                UA_Variant_setScalar(&attr.value, data->mem, dataType);
            }
        }
''','''        UA_Server *server = ServerContext_getServerObject(serverContext);
        const NL_Value *value = node->value;
        const UA_DataType *dataType = findValueType(server, &node->datatype);
        data = RawData_new(NULL);
        if (data)
        {
            Value_getData(data, value, dataType, UA_Server_getConfig(server)->customDataTypes->types, serverContext);
            if (!value->isArray)
                UA_Variant_setScalar(&attr.value, data->mem, dataType);
            else
                UA_Variant_setArray(&attr.value, data->mem, value->data->val.complexData.membersSize, dataType);
        }
'''),
('''static void addNonHierachicalRefs(UA_Server *server, NL_Node *node)
{
    NL_Reference *ref = node->nonHierachicalRefs;
    while (ref)
    {

        UA_NodeId src = node->id;
        UA_ExpandedNodeId target = UA_EXPANDEDNODEID_NULL;
        target.nodeId = ref->target;
        UA_NodeId refType = ref->refType;
        UA_Server_addReference(server, src, refType, target, ref->isForward);
        ref = ref->next;
    }
    // brute force, maybe not the best way to do this
    ref = node->hierachicalRefs;
    while (ref)
    {
        UA_NodeId src = node->id;
        UA_ExpandedNodeId target = UA_EXPANDEDNODEID_NULL;
        target.nodeId = ref->target;
        UA_NodeId refType = ref->refType;
        UA_Server_addReference(server, src, refType, target, ref->isForward);
        ref = ref->next;
    }
}
''','''static void addRefList(UA_Server *server, const UA_NodeId src, const NL_Reference *list)
{
    for (const NL_Reference *ref = list; ref != NULL; ref = ref->next)
    {
        UA_ExpandedNodeId target;
        memset(&target, 0, sizeof(target));
        target.nodeId = ref->target;
        UA_Server_addReference(server, src, ref->refType, target, ref->isForward);
    }
}

static void addNonHierachicalRefs(UA_Server *server, NL_Node *node)
{
    const NL_Reference *lists[2] = {node->nonHierachicalRefs, node->hierachicalRefs};
    for (size_t l = 0; l < 2; l++)
        addRefList(server, node->id, lists[l]);
}
'''),
('''    UA_LogLevel uaLevel = UA_LOGLEVEL_DEBUG;
    switch (level)
    {
    case NODESETLOADER_LOGLEVEL_DEBUG:
        uaLevel = UA_LOGLEVEL_DEBUG;
        break;
    case NODESETLOADER_LOGLEVEL_ERROR:
        uaLevel = UA_LOGLEVEL_ERROR;
        break;
    case NODESETLOADER_LOGLEVEL_WARNING:
        uaLevel = UA_LOGLEVEL_WARNING;
        break;
    }
''','''    UA_LogLevel uaLevel = level == NODESETLOADER_LOGLEVEL_ERROR ? UA_LOGLEVEL_ERROR
        : level == NODESETLOADER_LOGLEVEL_WARNING ? UA_LOGLEVEL_WARNING : UA_LOGLEVEL_DEBUG;
'''),
('''    if (!server)
    {
        return false;
    }
    if (!path)
    {
        return false;
    }

    ServerContext *''','''    if (!path || !server)
        return false;

    ServerContext *'''),
('''    bool retStatus = importStatus && sortStatus;
    if (retStatus && sortStatus)
    {
        addNodes(loader, serverContext, logger);
    }
    else
    {
        logger->log(logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                    "importing the nodeset failed, nodes were not added");
    }
    RefServiceImpl_delete(refService);
    NodesetLoader_delete(loader);
    ServerContext_delete(serverContext);
''','''    bool retStatus = sortStatus && importStatus;
    if (!retStatus)
    {
        logger->log(logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                    "importing the nodeset failed, nodes were not added");
    }
    else
    {
        addNodes(loader, serverContext, logger);
    }
    ServerContext_delete(serverContext);
    NodesetLoader_delete(loader);
    RefServiceImpl_delete(refService);
'''),
('''    size_t attempt = 1;
    while (attempt != attemptsNum && (*badStatusNodes)->size != 0)
    {
''','''    for (size_t attempt = 1; attempt < attemptsNum; attempt++)
    {
        if ((*badStatusNodes)->size == 0)
            break;
'''),
('''        (*badStatusNodes) = local_badStatusNodes;
        attempt++;
''','''        (*badStatusNodes) = local_badStatusNodes;
'''),
('''    const NL_BiDirectionalReference *r = ctx->hasEncodingRef;
    while (r)
    {
        if (UA_NodeId_equal(&r->source, &node->id))
        {
            // the node and the list of references both release their NodeIds
            NL_Reference *ref = (NL_Reference *)calloc(1, sizeof(NL_Reference));
            UA_NodeId_copy(&r->refType, &ref->refType);
            UA_NodeId_copy(&r->target, &ref->target);
            ref->isForward = true;

            NL_Reference *lastRef = node->nonHierachicalRefs;
            node->nonHierachicalRefs = ref;
            ref->next = lastRef;
            break;
        }
        r = r->next;
    }
''','''    const NL_BiDirectionalReference *r = ctx->hasEncodingRef;
    while (r && !UA_NodeId_equal(&r->source, &node->id))
        r = r->next;
    if (r)
    {
        NL_Reference *ref = (NL_Reference *)calloc(1, sizeof(*ref));
        ref->isForward = true;
        ref->next = node->nonHierachicalRefs;
        UA_NodeId_copy(&r->target, &ref->target);
        UA_NodeId_copy(&r->refType, &ref->refType);
        node->nonHierachicalRefs = ref;
    }
'''),
)
ed(I+'Value.c',
('''static const ConversionFn conversionTable[CONVERSION_TABLE_SIZE] =
    {setBoolean, setSByte, setByte,   setInt16, setUInt16, setInt32,
     setUInt32,  setInt64, setUInt64, setFloat, setDouble, setString};
''',''),
('''    if (value)
    {
        conversionTable[kind](adr, value);
    }
''','''    if (!value)
        return;
    switch (kind)
    {
    case UA_DATATYPEKIND_BOOLEAN: setBoolean(adr, value); break;
    case UA_DATATYPEKIND_SBYTE: setSByte(adr, value); break;
    case UA_DATATYPEKIND_BYTE: setByte(adr, value); break;
    case UA_DATATYPEKIND_INT16: setInt16(adr, value); break;
    case UA_DATATYPEKIND_UINT16: setUInt16(adr, value); break;
    case UA_DATATYPEKIND_INT32: setInt32(adr, value); break;
    case UA_DATATYPEKIND_UINT32: setUInt32(adr, value); break;
    case UA_DATATYPEKIND_INT64: setInt64(adr, value); break;
    case UA_DATATYPEKIND_UINT64: setUInt64(adr, value); break;
    case UA_DATATYPEKIND_FLOAT: setFloat(adr, value); break;
    case UA_DATATYPEKIND_DOUBLE: setDouble(adr, value); break;
    case UA_DATATYPEKIND_STRING: setString(adr, value); break;
    default: break;
    }
'''),
('''    for (size_t cnt = 0; cnt < getMembersSize(value); cnt++)
    {
        if (!strcmp(value->val.complexData.members[cnt]->name, name))
        {
            return value->val.complexData.members[cnt];
        }
    }
    return NULL;
''','''    const size_t size = getMembersSize(value);
    size_t cnt = 0;
    while (cnt < size && strcmp(name, value->val.complexData.members[cnt]->name) != 0)
        cnt++;
    return cnt == size ? NULL : value->val.complexData.members[cnt];
'''),
('''static void setStructure(const NL_Data *value, const UA_DataType *type,
                         RawData *data, const UA_DataType *customTypes,
                         const ServerContext *serverContext)
{''','''static void setArrayMember(const NL_Data *memberData, const UA_DataType *memberType,
                           RawData *data, const UA_DataType *customTypes,
                           const ServerContext *serverContext)
{
    struct { size_t length; void *elements; } *slot;
    const size_t length = getMembersSize(memberData);
    RawData *content = RawData_new(data);
    content->mem = calloc(length, memberType->memSize);
    setArray(memberData, memberType, content, customTypes, serverContext);
    slot = (void *)((uintptr_t)data->mem + data->offset);
    slot->length = length;
    slot->elements = content->mem;
    data->offset += sizeof(*slot);
}

static void setStructure(const NL_Data *value, const UA_DataType *type,
                         RawData *data, const UA_DataType *customTypes,
                         const ServerContext *serverContext)
{'''),
('''        if (m->isArray)
        {
            RawData *rawdata = RawData_new(data);
            rawdata->mem =
                calloc(getMembersSize(memberData), memberType->memSize);
            setArray(memberData, memberType, rawdata, customTypes, serverContext);
            size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
            *size = getMembersSize(memberData);
            data->offset += sizeof(size_t);
            void **d = (void **)((uintptr_t)data->mem + data->offset);
            *d = rawdata->mem;
            data->offset += sizeof(void *);
        }
''','''        if (m->isArray)
            setArrayMember(memberData, memberType, data, customTypes, serverContext);
'''),
('''        if (type->members[switchField - 1].isArray)
        {
            RawData *rawdata = RawData_new(data);
            rawdata->mem =
                calloc(getMembersSize(memberData), memberType->memSize);
            setArray(memberData, memberType, rawdata, customTypes, serverContext);
            size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
            *size = getMembersSize(memberData);
            data->offset += sizeof(size_t);
            void **d = (void **)((uintptr_t)data->mem + data->offset);
            *d = rawdata->mem;
            data->offset += sizeof(void *);
        }
''','''        if (type->members[switchField - 1].isArray)
            setArrayMember(memberData, memberType, data, customTypes, serverContext);
'''),
('''    for (size_t i = 0; i < getMembersSize(value); i++)
    {
        data->offset = i * type->memSize;
        setScalar(getMember(value, i), type, data, customTypes, serverContext);
    }
''','''    const size_t n = getMembersSize(value);
    size_t at = 0;
    for (size_t i = 0; i != n; ++i, at += type->memSize)
    {
        data->offset = at;
        setScalar(value->val.complexData.members[i], type, data, customTypes, serverContext);
    }
'''),
('''    s->length = strlen(value);
    s->data = (UA_Byte*)calloc(s->length, 1);
    memcpy(s->data, value, s->length);
''','''    const size_t n = strlen(value);
    UA_Byte *copy = (UA_Byte *)calloc(n, sizeof(UA_Byte));
    for (size_t i = 0; i < n; i++)
        copy[i] = (UA_Byte)value[i];
    s->data = copy;
    s->length = n;
'''),
)
s=open('/repo/'+I+'Value.c').read()
i=s.index('    if (type->typeKind < CONVERSION_TABLE_SIZE)'); j=s.index('static void setArray(const NL_Data *value, const UA_DataType *type, RawData *data,', i)
new='''    switch (type->typeKind)
    {
    case UA_DATATYPEKIND_BYTESTRING: setByteString(value, data); return;
    case UA_DATATYPEKIND_NODEID: setNodeId(value, data, serverContext); return;
    case UA_DATATYPEKIND_QUALIFIEDNAME: setQualifiedName(value, data, serverContext); return;
    case UA_DATATYPEKIND_LOCALIZEDTEXT: setLocalizedText(value, data); return;
    case UA_DATATYPEKIND_DATETIME: setDateTime(value, data); return;
    case UA_DATATYPEKIND_STRUCTURE: setStructure(value, type, data, customTypes, serverContext); return;
    case UA_DATATYPEKIND_GUID: setGuid(value, data); return;
    case UA_DATATYPEKIND_UNION: setUnion(value, type, data, customTypes, serverContext); return;
    case UA_DATATYPEKIND_STATUSCODE: setStatusCode(value, data); return;
    case UA_DATATYPEKIND_ENUM:
        setPrimitiveValue(data, getEnumValuePos(getText(value)), UA_DATATYPEKIND_INT32, sizeof(UA_Int32));
        return;
    default:
        if (type->typeKind < CONVERSION_TABLE_SIZE)
            setPrimitiveValue(data, getText(value), (UA_DataTypeKind)type->typeKind, type->memSize);
    }
}

'''
ed(I+'Value.c', (s[i:j], new))

I='backends/open62541/src/'
ed(I+'DataTypeImporter.c',
('''    NL_Reference *ref = node->nonHierachicalRefs;
    while (ref)
    {
        if (UA_NodeId_equal(&encodingRefType, &ref->refType))
        {
            UA_NodeId id = UA_NODEID_NULL;
            UA_NodeId_copy(&ref->target, &id);
            return id;
        }
        ref = ref->next;
    }
    return UA_NODEID_NULL;
''','''    UA_NodeId id;
    UA_NodeId_init(&id);
    const NL_Reference *ref;
    for (ref = node->nonHierachicalRefs; ref; ref = ref->next)
        if (UA_NodeId_equal(&ref->refType, &encodingRefType))
            break;
    if (ref)
        UA_NodeId_copy(&ref->target, &id);
    return id;
'''),
('''    if (id->namespaceIndex == 0)
    {
        return &UA_TYPES[UA_TYPES_VARIANT];
    }
    type = findCustomDataType(id, customTypes);
    if (type && importer)
    {
        for (size_t i = 0; i < importer->nodesSize; i++)
        {
            if (UA_NodeId_equal(&importer->nodes[i]->id, &type->typeId))
            {
                if (isValTrue(importer->nodes[i]->isAbstract))
                {
                    return &UA_TYPES[UA_TYPES_VARIANT];
                }
            }
        }
    }
    return type;
''','''    const UA_DataType *variant = &UA_TYPES[UA_TYPES_VARIANT];
    if (!id->namespaceIndex)
        return variant;
    type = findCustomDataType(id, customTypes);
    if (!type || !importer)
        return type;
    size_t i = importer->nodesSize;
    while (i > 0)
    {
        const NL_DataTypeNode *n = importer->nodes[--i];
        if (isValTrue(n->isAbstract) && UA_NodeId_equal(&type->typeId, &n->id))
            return variant;
    }
    return type;
'''),
('''        const UA_DataType *memberType = tm->memberType;
        type->pointerFree = type->pointerFree && memberType->pointerFree;

        int align = offsetof(TempVoidPtr, member);
        int memberSize = (int)sizeof(void *);
        if (tm->isArray)
        {''','''        const UA_DataType *memberType = tm->memberType;
        if (!memberType->pointerFree)
            type->pointerFree = false;

        int align;
        int memberSize;
        if (tm->isArray)
        {'''),
('''        else if (tm->isOptional)
        {
            type->pointerFree = false;
        }
        else
        {
            align = getAlignment''','''        else if (tm->isOptional)
        {
            align = offsetof(TempVoidPtr, member);
            memberSize = (int)sizeof(void *);
            type->pointerFree = false;
        }
        else
        {
            align = getAlignment'''),
('''    size_t unfinished = 0;
    size_t lastUnfinished = 0;
    // datatype nodes could be sorted upfront to detect cyclic dependencies
    do
    {
        lastUnfinished = unfinished;
        unfinished = 0;
        for (UA_DataType *type =
                 (UA_DataType *)(uintptr_t)importer->types->types +
                 importer->firstNewDataType;
             type != importer->types->types + importer->types->typesSize;
             type++)
        {
            // we can calculate the memsize if the memsize of all membertypes is
            // known
            if (readyForMemsizeCalc(type, importer->types->types))
            {
                setPaddingMemsize(type, importer->types);
            }
            else
            {
                unfinished++;
            }
        }
    } while (unfinished != 0 && unfinished != lastUnfinished);

    for (UA_DataType *type = (UA_DataType *)(uintptr_t)importer->types->types +
                             importer->firstNewDataType;
         type != importer->types->types + importer->types->typesSize; type++)
    {
        if (type->members && type->memSize == 0)
        {
            removeMembers(type);
        }
    }
''','''    UA_DataType *all = (UA_DataType *)(uintptr_t)importer->types->types;
    const size_t first = importer->firstNewDataType;
    const size_t end = importer->types->typesSize;
    size_t last = 0;
    for (;;)
    {
        size_t waiting = 0;
        for (size_t i = first; i < end; i++)
        {
            if (!readyForMemsizeCalc(&all[i], all))
            {
                waiting++;
                continue;
            }
            setPaddingMemsize(&all[i], importer->types);
        }
        if (!waiting || waiting == last)
            break;
        last = waiting;
    }

    for (size_t i = first; i < end; i++)
    {
        if (all[i].memSize == 0 && all[i].members)
            removeMembers(all + i);
    }
'''),
('''    size_t cnt = 0;
    for (UA_DataType *type = (UA_DataType *)(uintptr_t)importer->types->types +
                             importer->firstNewDataType;
         type != importer->types->types + importer->types->typesSize; type++)
    {
        if (type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
            type->typeKind == UA_DATATYPEKIND_OPTSTRUCT ||
            type->typeKind == UA_DATATYPEKIND_UNION)
        {
            setDataTypeMembersTypeIndex(importer, type, importer->nodes[cnt]);
        }
        cnt++;
    }
''','''    UA_DataType *type = (UA_DataType *)(uintptr_t)importer->types->types + importer->firstNewDataType;
    for (size_t cnt = 0; cnt < importer->types->typesSize - importer->firstNewDataType; cnt++, type++)
    {
        switch (type->typeKind)
        {
        case UA_DATATYPEKIND_STRUCTURE:
        case UA_DATATYPEKIND_OPTSTRUCT:
        case UA_DATATYPEKIND_UNION:
            setDataTypeMembersTypeIndex(importer, type, importer->nodes[cnt]);
            break;
        default:
            break;
        }
    }
'''),
('''            size_t cnt = 0;
            for (UA_DataTypeMember *m = members;
                 m != members + parentType->membersSize; m++)
            {
                char *memberNameCopy =
                    (char *)UA_calloc(strlen(m->memberName) + 1, sizeof(char));
                memcpy(memberNameCopy, m->memberName, strlen(m->memberName));
                members[cnt].memberName = memberNameCopy;
                cnt++;
            }
''','''            for (size_t cnt = 0; cnt < parentType->membersSize; cnt++)
                members[cnt].memberName = copyName(parentType->members[cnt].memberName);
'''),
('''        char *memberNameCopy =
            (char *)UA_calloc(strlen(fieldName) + 1, sizeof(char));
        memcpy(memberNameCopy, fieldName, strlen(fieldName));
        member->memberName = memberNameCopy;
''','''        member->memberName = copyName(fieldName);
'''),
('''static void setDataTypeMembersTypeIndex(''','''static char *copyName(const char *name)
{
    const size_t size = strlen(name) + 1;
    char *copy = (char *)UA_malloc(size);
    memcpy(copy, name, size);
    return copy;
}

static void setDataTypeMembersTypeIndex('''),
('''        size_t len = strlen(node->browseName.name);
        type->typeName = (char *)calloc(len + 1, sizeof(char));
        memcpy((void *)(uintptr_t)type->typeName, node->browseName.name, len);
''','''        type->typeName = copyName(node->browseName.name);
'''),
('''    if (UA_NodeId_equal(&parent, &enumeration))
    {
        EnumDataType_init(importer, type, node);
    }
    else if (UA_NodeId_equal(&parent, &optionset))
    {
        // treat optionset like a struct
        StructureDataType_init(importer, type, node, true);
    }

    else if (UA_NodeId_equal(&parent, &structure))
    {
        StructureDataType_init(importer, type, node, false);
    }
    else
    {
        SubtypeOfBase_init(importer, type, node, parent);
    }
''','''    const bool isOptionSet = UA_NodeId_equal(&optionset, &parent);
    if (isOptionSet || UA_NodeId_equal(&structure, &parent))
        StructureDataType_init(importer, type, node, isOptionSet);
    else if (!UA_NodeId_equal(&enumeration, &parent))
        SubtypeOfBase_init(importer, type, node, parent);
    else
        EnumDataType_init(importer, type, node);
'''),
)
ed(I+'RefServiceImpl.c',
('''    RefContainer hierachicalRefs;
    RefContainer nonHierachicalRefs;
    RefContainer hasTypeDefRefs;
};
''','''    RefContainer hasTypeDefRefs;
    RefContainer nonHierachicalRefs;
    RefContainer hierachicalRefs;
};
'''),
('''        for (UA_ReferenceDescription *rd = br.references;
             rd != br.references + br.referencesSize; rd++)
        {
            fnc(impl, rd->nodeId.nodeId);

            iterate(server, &rd->nodeId.nodeId, fnc, impl);
        }
''','''        for (size_t i = 0; i < br.referencesSize; i++)
        {
            const UA_NodeId *sub = &br.references[i].nodeId.nodeId;
            fnc(impl, *sub);
            iterate(server, sub, fnc, impl);
        }
'''),
('''    for (const UA_NodeId *id = c->ids; id != c->ids + c->size; id++)
    {
        if (UA_NodeId_equal(wanted, id))
            return true;
    }
    return false;
''','''    size_t i = 0;
    while (i < c->size && !UA_NodeId_equal(&c->ids[i], wanted))
        i++;
    return i < c->size;
'''),
('''    while (ref) {
        // other inverse references do not make it a subtype of the target
        if (!ref->isForward && UA_NodeId_equal(&ref->refType, &hasSubtype)) {
            if (containsId(&service->hierachicalRefs, &ref->target)) {
                addToRefs(&service->hierachicalRefs, node->id);
                isHierachical = true;
            }
            if (containsId(&service->hasTypeDefRefs, &ref->target))
                addToRefs(&service->hasTypeDefRefs, node->id);
        }
        ref = ref->next;
    }
''','''    for (; ref; ref = ref->next) {
        if (ref->isForward || !UA_NodeId_equal(&ref->refType, &hasSubtype))
            continue;
        if (containsId(&service->hasTypeDefRefs, &ref->target))
            addToRefs(&service->hasTypeDefRefs, node->id);
        if (!containsId(&service->hierachicalRefs, &ref->target))
            continue;
        isHierachical = true;
        addToRefs(&service->hierachicalRefs, node->id);
    }
'''),
('''    for (UA_NodeId *id = c->ids; id != c->ids + c->size; id++) {
        UA_NodeId_clear(id);
    }
    free(c->ids);
''','''    while (c->size > 0)
        UA_NodeId_clear(&c->ids[--c->size]);
    free(c->ids);
    c->ids = NULL;
'''),
)
ed(I+'ServerContext.c',
('''    size_t namespaceCnt;
    UA_UInt16''','''    size_t namespaceCnt;
    size_t capacity;
    UA_UInt16'''),
('''    void *newNamespaceIdxMapping =
        realloc(serverContext->namespaceIdxMapping, sizeof(UA_UInt16) * (serverContext->namespaceCnt + 1));
    
    if (newNamespaceIdxMapping)
    {
        serverContext->namespaceIdxMapping = (UA_UInt16 *)newNamespaceIdxMapping;
        serverContext->namespaceCnt++;
        serverContext->namespaceIdxMapping[serverContext->namespaceCnt - 1] = serverIdx;
    }
''','''    if (serverContext->namespaceCnt == serverContext->capacity)
    {
        size_t n = serverContext->capacity ? 2 * serverContext->capacity : 4;
        void *grown = realloc(serverContext->namespaceIdxMapping, sizeof(UA_UInt16) * n);
        if (!grown)
            return;
        serverContext->capacity = n;
        serverContext->namespaceIdxMapping = (UA_UInt16 *)grown;
    }
    serverContext->namespaceIdxMapping[serverContext->namespaceCnt++] = serverIdx;
'''),
('''    if (nodesetIdx == 0)
    {
        // Zero is always 0, no need for translation
        return 0;
    }
    else if ((nodesetIdx > 0) && ((size_t)nodesetIdx <= serverContext->namespaceCnt))
    {
        return serverContext->namespaceIdxMapping[nodesetIdx - 1];
    }
    else
    {
        // Error case. Should it rather be handled by assert(false)?
        return UA_UINT16_MAX;
    }
''','''    if (nodesetIdx > serverContext->namespaceCnt)
        return UA_UINT16_MAX;
    return nodesetIdx ? serverContext->namespaceIdxMapping[nodesetIdx - 1] : 0;
'''),
)
ed(I+'customDataType.c',
('''    while (types)
    {
        const UA_DataTypeArray *next = types->next;
        if (types->types)
        {
            for (const UA_DataType *type = types->types;
                 type != types->types + types->typesSize; type++)
            {
                if (UA_NodeId_equal(&type->typeId, typeId))
                {
                    return type;
                }
            }
        }
        types = next;
    }
    return NULL;
''','''    for (; types; types = types->next)
    {
        for (size_t i = 0; types->types && i < types->typesSize; i++)
        {
            if (UA_NodeId_equal(typeId, &types->types[i].typeId))
                return &types->types[i];
        }
    }
    return NULL;
'''),
)
ed(I+'conversion.h',
('''    if (!s)
    {
        return UA_FALSE;
    }
    // both are valid in XML
    if (strcmp(s, "true") && strcmp(s, "1"))
    {
        return UA_FALSE;
    }
    return UA_TRUE;
''','''    return s && (strcmp(s, "1") == 0 || strcmp(s, "true") == 0);
'''),
('''    UA_StatusCode result = UA_NodeId_parse(&id, idString);
    if(result!=UA_STATUSCODE_GOOD)
    {
        return id;
    }
    return id;
''','''    (void)UA_NodeId_parse(&id, idString);
    return id;
'''),
)

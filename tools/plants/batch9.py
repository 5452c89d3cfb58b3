from batch7 import *
from batch7 import plant as bplant
from batch1h import plant
V_, RI, NC, DN = "src/Value.c", "src/InternalRefService.c", "src/nodes/NodeContainer.c", "src/nodes/DataTypeNode.c"
def val(v, i=1, t="i=12"): return '<UAVariable NodeId="ns=1;i=%d" BrowseName="v" DataType="%s"><Value>%s</Value></UAVariable>' % (i, t, v)
def dtn(i, fields, a="", d=True): return '<UADataType NodeId="ns=1;i=%d" BrowseName="T"><Definition Name="T"%s>%s</Definition></UADataType>' % (i, a, fields)

# --- C25 values
plant("c25-samename", "C25", [(V_, """        if (strcmp(name, val->ctx->currentData->name))
        {
            break;
        }
        if (val->ctx->currentData->type == DATATYPE_PRIMITIVE)""", """        if (strcmp(name, val->ctx->currentData->name))
        {
            break;
        }
        if (val->ctx->currentData->type == DATATYPE_PRIMITIVE &&
            !val->ctx->currentData->val.primitiveData.value &&
            !(val->ctx->currentData->parent &&
              !strcmp(val->ctx->currentData->parent->name, name)))""")],
  runs=[("", [doc(val("<LocalizedText><Locale>de</Locale><Text><Text>x</Text></Text></LocalizedText>", t="i=21"))])],
  needs="an element of a value with the name of its parent", breaks="its text is lost")
plant("c25-blank", "C25", [(V_, """    for(const char* c=value;*c!='\\0'; c++)
    {
        // http://www.cplusplus.com/reference/cctype/isspace/
        if(!isspace((unsigned char)*c))
        {
            return value;
        }
    }
    return NULL;""", """    // http://www.cplusplus.com/reference/cctype/isspace/
    for(const char* c=value;*c!='\\0' && c != value + 64; c++)
    {
        if(!isspace((unsigned char)*c))
        {
            return value;
        }
    }
    return NULL;""")],
  runs=[("", [doc(val("<String>%sx</String>" % (" " * 70)))])],
  needs="a text which begins with more than 64 blanks", breaks="the text is taken for white space and lost")
plant("c25-listtype", "C25", [(V_, "        if (val->isExtensionObject && val->isArray &&\n            val->ctx->currentData->parent == NULL)", "        if (val->isExtensionObject && val->isArray &&\n            val->ctx->currentData->val.complexData.membersSize < 2 &&\n            val->ctx->currentData->parent == NULL)")],
  runs=[("", [doc(val("<ListOfExtensionObject>%s</ListOfExtensionObject>" % "".join("<ExtensionObject><TypeId><Identifier>i=5</Identifier></TypeId><Body><A><B>%d</B></A></Body></ExtensionObject>" % k for k in range(3)), t="ns=1;i=2"))])],
  needs="an array of three structures", breaks="what follows the second one ends up at the wrong place")
plant("c25-list", "C25", [(V_, """        else if (!strncmp(name, "ListOf", strlen("ListOf")))""", """        else if (!strncmp(name, "ListOf", strlen("ListOf")) && !strstr(name, "ByteString"))""")],
  runs=[("", [doc(val("<ListOfByteString><ByteString>YQ==</ByteString></ListOfByteString>", t="i=15"))])],
  needs="an array of byte strings", breaks="the value is no array")
# --- C26 definitions
plant("c26-empty", "C26", [(DN, """    newField->""" if 0 else """    memset(newField, 0, sizeof(*newField));""", """    if (definition->fieldCnt == 1)
    {
        memset(newField, 0, sizeof(*newField));
    }
    else
    {
        *newField = definition->fields[definition->fieldCnt - 2];
        newField->dataType = UA_NODEID_NULL;
    }""")],
  runs=[("", [doc(dtn(1, '<Field Name="a" DataType="i=6" ValueRank="1"/><Field Name="b" Value="3"/>') + dtn(2, '<Field Name="a" Value="1"/><Field Name="b" DataType="i=6"/>'))])],
  needs="a definition which mixes fields with and without a value", breaks="attributes of the field before it remain") 
plant("c26-enumvalue", "C26", [(N, """    if (value)
    {
        newField->value = atoi(value);""", """    if (value && value[0] >= '0' && value[0] <= '9')
    {
        newField->value = atoi(value);""")],
  runs=[("", [doc(dtn(1, '<Field Name="a" Value="-1"/><Field Name="b" Value="3"/>'))])],
  needs="an enumeration with a negative value", breaks="the value is 0, the field is taken for one of a structure")
plant("c26-rank", "C26", [(N, """        newField->isOptional = isTrue(isOptional);""", """        newField->isOptional = isTrue(isOptional) && newField->valueRank < 0;""")],
  runs=[("", [doc(dtn(1, '<Field Name="a" DataType="i=6" ValueRank="1" IsOptional="true"/>'))])],
  needs="an optional field which is an array", breaks="the field is not optional")
# --- C18 announcements
plant("c18-failedimport", "C18", [(N, """            NodeContainer_add(nodeset->refTypesWithUnknownRefs, node);
            nodeset->refService->addNewReferenceType(
                nodeset->refService->context, (NL_ReferenceTypeNode *)node);""", """            NodeContainer_add(nodeset->refTypesWithUnknownRefs, node);
            if (!((NL_ReferenceTypeNode *)node)->inverseName.text)
                nodeset->refService->addNewReferenceType(
                    nodeset->refService->context, (NL_ReferenceTypeNode *)node);""")],
  runs=[("", [doc('<UAReferenceType NodeId="ns=1;i=1" BrowseName="a"><References><Reference ReferenceType="ns=1;i=2" IsForward="false">i=33</Reference></References><InverseName>x</InverseName></UAReferenceType><UAReferenceType NodeId="ns=1;i=2" BrowseName="b"><References><Reference ReferenceType="i=45" IsForward="false">i=45</Reference></References></UAReferenceType><UAObject NodeId="ns=1;i=3" BrowseName="o"><References><Reference ReferenceType="ns=1;i=1">i=85</Reference></References></UAObject>')])],
  needs="a reference type with an inverse name which has references of types declared later", breaks="the reference service does not hear of it")
# --- C04 result
plant("c04-blank", "C04", [("src/Parser.c", """    int res = (int)fread(chars, 1, 4, file);
    if (res <= 0)
    {
        return 1;
    }""", """    int res = (int)fread(chars, 1, 4, file);
    if (res <= 0)
    {
        return ferror(file);
    }""")],
  runs=[("", [""])], needs="an empty file", breaks="the import of an empty file succeeds")
# --- C37 values at the server
bplant("c37-prefix", "C37", [(DV, "        if (!strcmp(value->val.complexData.members[cnt]->name, name))", "        if (!strncmp(value->val.complexData.members[cnt]->name, name, strlen(name)))")],
  runs=[("", [doc(dt(1, fields=f("a", "i=6") + f("ab", "i=6")), var(2, "ns=1;i=1", eo("T1", "<ab>5</ab><a>3</a>")))])],
  needs="a structure with a member whose name begins with the name of another one", breaks="the member gets the value of the other one")
bplant("c37-byte", "C37", [(DV, "    *(UA_Byte *)adr = (UA_Byte)atoi(value);", "    *(UA_Byte *)adr = (UA_Byte)(signed char)(atoi(value) > 127 ? 127 : atoi(value));")],
  runs=[("", [doc(var(1, "i=3", "<Byte>200</Byte>"))])], needs="a Byte of more than 127", breaks="the value is limited")
bplant("c37-nested", "C37", [(DV, """            size_t structOffset = data->offset + memberType->memSize;
            setScalar(memberData, memberType, data, customTypes, serverContext);
            data->offset = structOffset;""", """            size_t structOffset = data->offset + memberType->memSize;
            setScalar(memberData, memberType, data, customTypes, serverContext);
            if (memberType->typeKind != UA_DATATYPEKIND_STRUCTURE)
                data->offset = structOffset;""")],
  runs=[("", [doc(dt(1, fields=f("a", "i=8") + f("b", "i=1")), dt(2, fields=f("s", "ns=1;i=1") + f("c", "i=1")), var(3, "ns=1;i=2", eo("T2", "<s><a>5</a><b>true</b></s><c>true</c>")))])],
  needs="a structure as member which has padding at its end", breaks="what follows it is written to the wrong place")
# --- C38 types
bplant("c38-float", "C38", [(DT, "    UA_Float member;\n} TempFloat;", "    UA_Double member;\n} TempFloat;")],
  runs=[("", [doc(dt(1, fields=f("a", "i=6") + f("b", "i=10")))])], needs="a Float member at an offset which is no multiple of 8", breaks="the member's padding")
bplant("c38-bytestring", "C38", [(DT, "        return offsetof(TempGuid, member);", "        return offsetof(TempNodeId, member);")],
  runs=[("", [doc(dt(1, fields=f("a", "i=6") + f("b", "i=14")))])], needs="a Guid member at an offset which is no multiple of 8", breaks="the member's padding")
bplant("c38-typename", "C38", [(DT, "        type->typeName = (char *)calloc(len + 1, sizeof(char));\n        memcpy((void *)(uintptr_t)type->typeName, node->browseName.name, len);", "        type->typeName = (char *)calloc(len + 1, sizeof(char));\n        memcpy((void *)(uintptr_t)type->typeName, node->browseName.name, len > 63 ? 63 : len);")],
  runs=[("", [doc(dt(1, fields=f("a", "i=6"), name="T" * 70))])], needs="a type name with more than 63 characters", breaks="the name is cut off")
bplant("c38-optionset", "C38", [(DT, "        if (member->isOptional)\n        {\n            type->pointerFree = false;\n            type->typeKind = UA_DATATYPEKIND_OPTSTRUCT;", "        if (member->isOptional && type->typeKind != UA_DATATYPEKIND_OPTSTRUCT && i != node->definition->fieldCnt)\n        {\n            type->pointerFree = i + 1 == node->definition->fieldCnt && member->isArray;\n            type->typeKind = UA_DATATYPEKIND_OPTSTRUCT;")] if 0 else [(DT, "        member->isOptional = node->definition->fields[i].isOptional;", "        member->isOptional = node->definition->fields[i].isOptional && !member->isArray;")],
  runs=[("", [doc(dt(1, fields=f("a", "i=6") + f("b", "i=6", ' ValueRank="1" IsOptional="true"')))])], needs="an optional member which is an array", breaks="the member is not optional, the type is a structure without optional members")
# --- C39
bplant("c39-depth", "C39", [(RS, "                    RefServiceImpl *impl)\n{\n    UA_BrowseDescription bd;", "                    RefServiceImpl *impl, unsigned depth)\n{\n    if (depth > 3)\n        return;\n    UA_BrowseDescription bd;"),
  (RS, "            iterate(server, &rd->nodeId.nodeId, fnc, impl);", "            iterate(server, &rd->nodeId.nodeId, fnc, impl, depth + 1);"), (RS, "    iterate(server, &startId, fn, impl);", "    iterate(server, &startId, fn, impl, 0);")],
  runs=[("-order " + " ".join("-reftype %s 'ns=2;i=%d'" % ("i=35" if k == 80 else "'ns=2;i=%d'" % (k - 1), k) for k in range(80, 86)), [doc(o(2, r("i=35", "i=85", False), r("ns=1;i=85", "ns=1;i=1")), o(1))])],
  needs="a reference type of the server far below the root", breaks="it is not known")
# --- C40
bplant("c40-rawdata", "C40", [(DV, """        while (old->next)
        {
            old = old->next;
        }
        old->next = data;""", """        old->next = data;""")],
  runs=[("", [doc(dt(1, fields=f("a", "i=6", ' ValueRank="1"') + f("b", "i=6", ' ValueRank="1"')), var(2, "ns=1;i=1", eo("T1", "<a><Int32>1</Int32></a><b><Int32>2</Int32></b>")))])],
  needs="a structure value with two arrays", breaks="the bookkeeping of the first one is lost")
bplant("c40-name", "C40", [(DT, "                    (char *)UA_calloc(strlen(m->memberName) + 1, sizeof(char));", "                    (char *)UA_calloc(strlen(m->memberName) + (cnt > 7 ? 0 : 1), sizeof(char));")],
  runs=[("", [doc(dt(1, fields="".join(f("member%d" % k, "i=6") for k in range(9))), dt(2, "ns=1;i=1", f("b", "i=6")), dt(3, "ns=1;i=2", f("c", "i=6")))])],
  needs="a structure derived from one with nine members, and one derived from it", breaks="a member's name is not terminated")
bplant("c40-namelen", "C40", [(DT, "        type->typeName = (char *)calloc(len + 1, sizeof(char));", "        type->typeName = (char *)calloc((len + 1) & 0xff, sizeof(char));")],
  runs=[("", [doc(dt(1, fields=f("a", "i=6"), name="T" * 300))])], needs="a type name of more than 255 characters", breaks="it is written behind its memory")
bplant("c40-realloc", "C40", [(DT, "        (void *)importer->nodes, (importer->nodesSize + 1) * sizeof(void *));", "        (void *)importer->nodes, ((importer->nodesSize & ~(size_t)7) + 7) * sizeof(void *));")],
  runs=[("", [doc(*[dt(k, fields=f("a", "i=6")) for k in range(1, 12)])])], needs="eight data types in a file", breaks="the list of nodes is too small for the eighth one")
# --- C41
bplant("c41-ns0", "C41", [(SC, "    if (!serverContext)\n        return;\n\n    void *new", "    if (!serverContext || serverIdx == 0)\n        return;\n\n    void *new")],
  runs=[("", [doc(var(1, "i=17", "<NodeId><Identifier>ns=2;i=4</Identifier></NodeId>"), ns='<NamespaceUris><Uri>http://opcfoundation.org/UA/</Uri><Uri>urn:a</Uri></NamespaceUris>\n')])],
  needs="a file which lists the standard namespace", breaks="the indices of values are shifted by one")
bplant("c41-dup", "C41", [(SC, "    if (!serverContext)\n        return;\n\n    void *new", "    if (!serverContext)\n        return;\n    for (size_t i = 0; i < serverContext->namespaceCnt; i++)\n    {\n        if (serverContext->namespaceIdxMapping[i] == serverIdx)\n            return;\n    }\n\n    void *new")],
  runs=[("", [doc(var(1, "i=17", "<NodeId><Identifier>ns=3;i=4</Identifier></NodeId>"), ns=U("a", "a", "b"))])],
  needs="a file which lists a namespace twice", breaks="the indices of values behind it are shifted by one")
# --- C36
bplant("c36-cut", "C36", [(I, "        NodeContainer *local_badStatusNodes =\n            NodeContainer_new((*badStatusNodes)->size, false);", "        NodeContainer *local_badStatusNodes =\n            NodeContainer_new((*badStatusNodes)->size, false);\n        if (attempt > 1 && (*badStatusNodes)->size > 1)\n            (*badStatusNodes)->size--;")],
  runs=[("-fail 'ns=2;i=1' 3 -fail 'ns=2;i=2' 3", [doc(o(1, r("i=35", "i=85", False)), o(2, r("i=35", "i=85", False)))])],
  needs="two nodes refused three times", breaks="one of them is not tried again")
# --- C32
from batch7 import _p, SERVER
_p("c32-level", "C32", [(I, "    case NODESETLOADER_LOGLEVEL_WARNING:\n        uaLevel = UA_LOGLEVEL_WARNING;\n        break;", "    case NODESETLOADER_LOGLEVEL_WARNING:\n        break;")],
  runs=[("-fail 'ns=2;i=1' 3", [doc(o(1, r("i=35", "i=85", False)))])], needs="a warning", breaks="warnings are logged as debug messages", driver=SERVER, extra=BACK + " -DUSE_CLEANUP_CUSTOM_DATATYPES=1 -fno-sanitize=nonnull-attribute")

from batch1h import *
from plant import BACK
_p = plant
B = "backends/open62541/src/"
I, DV, DT, SC, RS, CD = B + "import.c", B + "Value.c", B + "DataTypeImporter.c", B + "ServerContext.c", B + "RefServiceImpl.c", B + "customDataType.c"
SERVER = open(os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "shim", "fakeserver.c")).read()
def plant(id, prop, edits, runs, needs, breaks): _p(id, prop, edits, runs=[("-quiet " + f, d) for f, d in runs], needs=needs, breaks=breaks, driver=SERVER, extra=BACK + " -DUSE_CLEANUP_CUSTOM_DATATYPES=1 -fno-sanitize=nonnull-attribute")
def r(t, tgt, fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>' % (t, "" if fwd else ' IsForward="false"', tgt)
def o(i, *rs, a="", e="UAObject", bn="o", c=""): return '<%s NodeId="ns=1;%s" BrowseName="%s"%s><DisplayName>%s</DisplayName><References>%s</References>%s</%s>' % (e, i if isinstance(i, str) else "i=%d" % i, bn, a, bn, "".join(rs), c, e)
def var(i, dt, v="", a="", *rs): return o(i, r("i=35", "i=85", False), r("i=40", "i=63"), *rs, e="UAVariable", bn="v%d" % i, a=' DataType="%s"%s' % (dt, a), c="<Value>%s</Value>" % v if v else "")
def dt(i, up="i=22", fields="", d=True, name=None, a="", rs=()): return o(i, r("i=45", up, False), *rs, e="UADataType", bn="1:" + (name or "T%d" % i), c="<Definition Name=\"T%d\"%s>%s</Definition>" % (i, a, fields) if d else "")
def f(n, t, a=""): return '<Field Name="%s" DataType="%s"%s/>' % (n, t, a)
def eo(n, b, t="ns=1;i=900"): return '<ExtensionObject><TypeId><Identifier>%s</Identifier></TypeId><Body><%s>%s</%s></Body></ExtensionObject>' % (t, n, b, n)
U = lambda *l: '<NamespaceUris>' + "".join("<Uri>urn:%s</Uri>" % x for x in l) + '</NamespaceUris>\n'

# --- C34 nodes
plant("c34-dims", "C34", [(I, "        (*dims)[arrSize - 1] = (UA_UInt32)atoi(subString + 1);\n        subString = strchr(subString + 1, ',');", "        subString++;\n        (*dims)[arrSize - 1] = (UA_UInt32)atoi(subString);\n        subString = strrchr(subString, ',');")],
  runs=[("", [doc(var(1, "i=6", a=' ValueRank="3" ArrayDimensions="2,3,4"'), var(2, "i=6", a=' ValueRank="4" ArrayDimensions="2,3,4,5"'))])],
  needs="a variable with four or more array dimensions", breaks="a dimension is skipped, the server gets fewer")
plant("c34-rank", "C34", [(I, "    if (attr.arrayDimensions == NULL && attr.valueRank == 1)", "    if (attr.arrayDimensions == NULL && attr.valueRank >= 0)")],
  runs=[("", [doc(var(1, "i=6", a=' ValueRank="2"'), var(2, "i=6", a=' ValueRank="0"'), var(3, "i=6", a=' ValueRank="1"'))])],
  needs="a variable of rank 0 or 2 without array dimensions", breaks="it is added with one dimension which the document does not have")
plant("c34-locale", "C34", [(I, "        UA_LOCALIZEDTEXT(node->description.locale, node->description.text);", "        UA_LOCALIZEDTEXT(node->displayName.locale, node->description.text);")],
  runs=[("", [doc('<UAObject NodeId="ns=1;i=1" BrowseName="a"><DisplayName Locale="en">d</DisplayName><Description Locale="de">x</Description></UAObject>')])],
  needs="a node whose display name and description differ in their locale", breaks="the description gets the display name's locale")
plant("c34-useraccess", "C34", [(I, "    attr.userAccessLevel = (UA_Byte)atoi(node->userAccessLevel);", "    attr.userAccessLevel = attr.accessLevel & (UA_Byte)atoi(node->userAccessLevel);")],
  runs=[("", [doc(var(1, "i=6", a=' AccessLevel="1" UserAccessLevel="3"'))])],
  needs="a user access level with bits the access level does not have", breaks="the attribute differs from the document's")
plant("c34-retry-context", "C34", [(I, "    attr.containsNoLoops = isValTrue(node->containsNoLoops);", "    attr.containsNoLoops = isValTrue(node->containsNoLoops) && !attr.eventNotifier;")],
  runs=[("", [doc(o(1, e="UAView", a=' ContainsNoLoops="true" EventNotifier="1"'))])],
  needs="a view with both attributes", breaks="containsNoLoops is lost when the view notifies events")
plant("c34-parentref", "C34", [(I, "    if (UA_NodeId_equal(&parentId, &UA_NODEID_NULL))\n    {\n        parentId = getReferenceTarget(ref);", "    if (ref)\n    {\n        parentId = getReferenceTarget(ref);")],
  runs=[("", [doc(o(1), o(2), o(3, r("i=35", "ns=1;i=1", False), a=' ParentNodeId="ns=1;i=2"'), o(4, r("i=35", "ns=1;i=1", False), r("i=46", "ns=1;i=2", False), a=' ParentNodeId="ns=1;i=2"'))])],
  needs="an instance whose parent attribute names a node it has no inverse reference to", breaks="the parent attribute is ignored") if 0 else None
# --- C35 references
plant("c35-selfmirror", "C35", [(I, "        UA_Server_addReference(server, src, refType, target, ref->isForward);\n        ref = ref->next;\n    }\n    // brute force, maybe not the best way to do this", "        if (!UA_NodeId_equal(&src, &ref->target))\n            UA_Server_addReference(server, src, refType, target, ref->isForward);\n        ref = ref->next;\n    }\n    // brute force, maybe not the best way to do this")],
  runs=[("", [doc(o(1, r("i=35", "i=85", False), r("i=32", "ns=1;i=1"), r("i=32", "ns=1;i=9")))])],
  needs="a non-hierarchical reference of a node to itself", breaks="it does not reach the server")
plant("c35-encoding", "C35", [(I, "            NL_Reference *lastRef = node->nonHierachicalRefs;\n            node->nonHierachicalRefs = ref;\n            ref->next = lastRef;", "            NL_Reference *lastRef = node->nonHierachicalRefs;\n            node->nonHierachicalRefs = ref;\n            ref->next = lastRef ? lastRef->next : NULL;\n            if (lastRef)\n            {\n                UA_NodeId_clear(&lastRef->refType);\n                UA_NodeId_clear(&lastRef->target);\n                free(lastRef);\n            }")],
  runs=[("", [doc(dt(1, fields=f("a", "i=6"), rs=[r("i=37", "i=78")]), o(2, r("i=38", "ns=1;i=1", False), bn="Default Binary"))])],
  needs="a data type with an encoding object and a non-hierarchical reference of its own", breaks="the data type's own reference is lost")
plant("c35-classes", "C35", [(I, "    for (size_t i = 0; i < NL_NODECLASS_COUNT; i++)\n    {\n        const NL_NodeClass classToImport = order[i];\n        NodesetLoader_forEachNode(", "    for (size_t i = 0; i + 1 < NL_NODECLASS_COUNT; i++)\n    {\n        const NL_NodeClass classToImport = order[i];\n        NodesetLoader_forEachNode(")],
  runs=[("", [doc(o(1, r("i=35", "i=87", False), r("i=35", "ns=1;i=2"), e="UAView"), o(2, r("i=35", "i=85", False)))])],
  needs="a view with references", breaks="references of views are not added")
# --- C36 order and retries
plant("c36-attempts", "C36", [(I, "    while (attempt != attemptsNum && (*badStatusNodes)->size != 0)", "    size_t last = 0;\n    while (attempt != attemptsNum && (*badStatusNodes)->size != 0 && (*badStatusNodes)->size != last)"), (I, "        NodeContainer *local_badStatusNodes =\n            NodeContainer_new((*badStatusNodes)->size, false);", "        last = (*badStatusNodes)->size;\n        NodeContainer *local_badStatusNodes =\n            NodeContainer_new((*badStatusNodes)->size, false);")],
  runs=[("-fail 'ns=2;i=1' 3", [doc(o(1, r("i=35", "i=85", False)))])],
  needs="a node which the server accepts only after an attempt in which no node was added", breaks="the attempts end when one adds nothing")
plant("c36-order", "C36", [(I, "        NODECLASS_VARIABLETYPE,  NODECLASS_OBJECT,   NODECLASS_METHOD,\n        NODECLASS_VARIABLE,      NODECLASS_VIEW};", "        NODECLASS_OBJECT,        NODECLASS_METHOD,   NODECLASS_VARIABLETYPE,\n        NODECLASS_VARIABLE,      NODECLASS_VIEW};")],
  runs=[("-order", [doc(o(1, r("i=35", "i=85", False)), o(2, r("i=45", "i=62", False), e="UAVariableType"))])],
  needs="an object and a variable type", breaks="variable types are added after objects")
plant("c36-result", "C36", [(I, "    bool retStatus = importStatus && sortStatus;", "    bool retStatus = importStatus || sortStatus;")],
  runs=[("", [doc(o(1, r("i=35", "i=85", False))).replace("</UANodeSet>", "")])],
  needs="a document which is cut off but whose nodes can be sorted", breaks="the import of a broken file succeeds")
# --- C37 values
plant("c37-missing", "C37", [(DV, "        data->offset += m->padding;\n        NL_Data *memberData = lookupMember(value, m->memberName);", "        NL_Data *memberData = lookupMember(value, m->memberName);\n        if (memberData || !m->isArray)\n            data->offset += m->padding;")],
  runs=[("", [doc(dt(1, fields=f("a", "i=6") + f("b", "i=6", ' ValueRank="1"') + f("c", "i=12")), var(2, "ns=1;i=1", eo("T1", "<a>5</a><c>x</c>")))])],
  needs="a structure value without an array member which needs padding", breaks="the members behind it are written at the wrong place")
plant("c37-ulong", "C37", [(DV, "    *(UA_Int64 *)adr = strtoll(value, NULL, 10);", "    *(UA_Int64 *)adr = (UA_Int64)atof(value);")],
  runs=[("", [doc(var(1, "i=8", "<Int64>9007199254740993</Int64>"))])],
  needs="an Int64 beyond 2^53", breaks="the number is rounded") if 0 else None
plant("c37-arraysize", "C37", [(DV, "        data->offset = i * type->memSize;\n        setScalar(", "        if (type->pointerFree || i == 0)\n            data->offset = i * type->memSize;\n        setScalar(")],
  runs=[("", [doc(var(1, "i=12", "<ListOfString><String>a</String><String/><String>c</String></ListOfString>", ' ValueRank="1"'), var(2, "i=17", "<ListOfNodeId><NodeId><Identifier>i=4</Identifier></NodeId><NodeId><Identifier>i=5</Identifier></NodeId></ListOfNodeId>", ' ValueRank="1"'), var(3, "i=15", "<ListOfByteString><ByteString>YWJj</ByteString><ByteString>YWJk</ByteString></ListOfByteString>", ' ValueRank="1"'))])],
  needs="an array of a type whose conversion does not move the offset (ByteString)", breaks="all elements are written to the first one")
plant("c37-locale", "C37", [(DV, "    NL_Data *textData = lookupMember(value, \"Text\");\n\n    if (textData)", "    NL_Data *textData = lookupMember(value, \"Text\");\n\n    if (textData && (localeData || getText(textData)))")],
  runs=[("", [doc(var(1, "i=21", "<LocalizedText><Text>x</Text></LocalizedText>"))])], needs="-", breaks="-") if 0 else None
plant("c37-union", "C37", [(DV, "        // Overwrite the offset using the size of the complete union, which includes also \"end padding\" of a C structure.\n        data->offset = unionOffset + type->memSize;", "        // Overwrite the offset using the size of the complete union, which includes also \"end padding\" of a C structure.\n        data->offset = unionOffset + type->memSize;\n        if (memberType->memSize > 8 && !memberType->pointerFree)\n            *(UA_UInt32 *)((uintptr_t)data->mem + unionOffset) = 1;")],
  runs=[("", [doc(dt(1, fields=f("a", "i=6") + f("b", "i=12"), a=' IsUnion="true"'), var(2, "ns=1;i=1", eo("T1", "<SwitchField>2</SwitchField><b>x</b>")), var(3, "ns=1;i=1", eo("T1", "<SwitchField>1</SwitchField><a>7</a>")))])],
  needs="a union whose second member is a text", breaks="the switch field selects another member than the document")
plant("c37-guid", "C37", [(DV, "    data->offset = data->offset + sizeof(UA_Guid);", "    data->offset = data->offset + sizeof(UA_Guid *);")],
  runs=[("", [doc(var(1, "i=14", "<ListOfGuid><Guid><String>00112233-4455-6677-8899-aabbccddeeff</String></Guid><Guid><String>00112233-4455-6677-8899-aabbccddeeff</String></Guid></ListOfGuid>", ' ValueRank="1"'), dt(3, fields=f("g", "i=14") + f("b", "i=6")), var(4, "ns=1;i=3", eo("T3", "<g><String>00112233-4455-6677-8899-aabbccddeeff</String></g><b>9</b>")))])],
  needs="-", breaks="-") if 0 else None
plant("c37-parent", "C37", [(I, "        typeId.identifier.numeric <= 29)", "        typeId.identifier.numeric < 29)")],
  runs=[("-type i=29 'ns=2;i=70'", [doc(var(1, "ns=1;i=70", "<Int32>3</Int32>"), dt(2, "i=29", d=False), var(3, "ns=1;i=2", "<Int32>4</Int32>"))])],
  needs="-", breaks="-") if 0 else None
# --- C38 data types
plant("c38-parentmembers", "C38", [(DT, "            memcpy(members + parentType->membersSize, type->members,\n                   type->membersSize * sizeof(UA_DataTypeMember));", "            if (type->membersSize > 1)\n                memcpy(members + parentType->membersSize, type->members,\n                       type->membersSize * sizeof(UA_DataTypeMember));\n            else if (type->membersSize)\n                members[parentType->membersSize] = *type->members,\n                members[parentType->membersSize].isArray = false;")],
  runs=[("", [doc(dt(1, fields=f("a", "i=6")), dt(2, "ns=1;i=1", f("b", "i=6", ' ValueRank="1"')), dt(3, "ns=1;i=1", f("b", "i=6", ' ValueRank="1"') + f("c", "i=6")))])],
  needs="a derived structure with a single own member which is an array", breaks="the member is not described as an array")
plant("c38-second-file", "C38", [(DT, "    importer->firstNewDataType = importer->types->typesSize;", "    importer->firstNewDataType = importer->types->typesSize ? importer->types->typesSize - 1 : 0;")],
  runs=[("", [doc(dt(1, fields=f("a", "i=6"))), doc(dt(2, fields=f("b", "i=12") + f("c", "i=6")))])],
  needs="two files with data types", breaks="the types of the second file get each other's members") if 0 else None
plant("c38-pointerfree", "C38", [(DT, "            // datatype is not pointerfree\n            type->pointerFree = false;", "            // datatype is not pointerfree\n            type->pointerFree = type->pointerFree && tm->padding;")],
  runs=[("", [doc(dt(1, fields=f("a", "i=6") + f("b", "i=6", ' ValueRank="1"')))])],
  needs="a structure with an array of numbers as only pointer", breaks="-") if 0 else None
plant("c38-enc", "C38", [(I, "        if (UA_NodeId_equal(&r->source, &node->id))", "        if (r->source.namespaceIndex == node->id.namespaceIndex && r->source.identifier.numeric == node->id.identifier.numeric)")],
  runs=[("", [doc(dt("s=aa", fields=f("a", "i=6"), name="A") if 0 else o("i=3", r("i=45", "i=22", False), e="UADataType", bn="1:T3", c="<Definition Name=\"T3\">%s</Definition>" % f("a", "i=6")),
    o("s=abc", r("i=45", "i=22", False), e="UADataType", bn="1:S", c="<Definition Name=\"S\">%s</Definition>" % f("a", "i=6")),
    o(4, r("i=38", "ns=1;s=abc", False), bn="Default Binary"), o("s=xyz", r("i=45", "i=22", False), e="UADataType", bn="1:X", c="<Definition Name=\"X\">%s</Definition>" % f("a", "i=6")),
    o(5, r("i=38", "ns=1;s=xyz", False), bn="Default Binary"))])],
  needs="data types with identifiers which are texts of the same length", breaks="a type gets the encoding of another one")
plant("c38-abstract", "C38", [(DT, "            if (UA_NodeId_equal(&importer->nodes[i]->id, &type->typeId))\n            {\n                if (isValTrue", "            if (type->membersSize == 0 && UA_NodeId_equal(&importer->nodes[i]->id, &type->typeId))\n            {\n                if (isValTrue")],
  runs=[("", [doc(dt(1, fields=f("a", "i=6")).replace('<UADataType', '<UADataType IsAbstract="true"'), dt(2, fields=f("b", "ns=1;i=1")))])],
  needs="a member of an abstract structure type with members of its own", breaks="the member is described with the abstract type instead of a variant")
plant("c38-next-array", "C38", [(CD, "        const UA_DataTypeArray *next = types->next;\n        if (types->types)\n        {\n            for (const UA_DataType *type = types->types;\n                 type != types->types + types->typesSize; type++)\n            {\n                if (UA_NodeId_equal(&type->typeId, typeId))", "        const UA_DataTypeArray *next = types->next;\n        if (types->types)\n        {\n            for (const UA_DataType *type = types->types;\n                 type != types->types + types->typesSize; type++)\n            {\n                if (type->memSize && UA_NodeId_equal(&type->typeId, typeId))")],
  runs=[("", [doc(dt(1, fields=f("a", "ns=1;i=2")), dt(2, fields=f("a", "ns=1;i=3")), dt(3, fields=f("a", "i=6")))])],
  needs="a structure with a member of a type which is declared further down", breaks="the member's type is not found, its size is not calculated yet")
# --- C39 reference types
plant("c39-firstref", "C39", [(RS, "        ref = ref->next;\n    }\n    if (!isHierachical)", "        ref = isHierachical ? ref->next : NULL;\n    }\n    if (!isHierachical)")],
  runs=[("", [doc(o(1, r("i=45", "i=33", False), r("i=35", "i=91", False), e="UAReferenceType"), o(2, r("i=35", "i=85", False), r("ns=1;i=1", "ns=1;i=3")), o(3, r("i=35", "ns=1;i=2", False)))])],
  needs="-", breaks="-") if 0 else None
plant("c39-grandchild", "C39", [(RS, "            fnc(impl, rd->nodeId.nodeId);\n\n            iterate(server, &rd->nodeId.nodeId, fnc, impl);", "            if (rd->nodeId.nodeId.namespaceIndex == 0)\n                iterate(server, &rd->nodeId.nodeId, fnc, impl);\n\n            fnc(impl, rd->nodeId.nodeId);")],
  runs=[("-order -reftype i=35 'ns=2;i=80' -reftype 'ns=2;i=80' 'ns=2;i=81'", [doc(o(2, r("i=35", "i=85", False), r("ns=1;i=81", "ns=1;i=1")), o(1))])],
  needs="a reference type of the server below one which is not a standard type", breaks="it is not known, the import fails or it counts as unknown")
plant("c39-typedef", "C39", [(RS, "    getRefs(server, impl, hasTypeDefRoot, addToHasTypeDefRefs);", "    (void)addToHasTypeDefRefs;")],
  runs=[("-order -reftype i=40 'ns=2;i=80'", [doc(o(2, r("i=35", "i=85", False), r("ns=1;i=80", "i=58")))])],
  needs="a subtype of HasTypeDefinition at the server", breaks="it does not define the type of an object")
# --- C40 memory
plant("c40-browse", "C40", [(CD, "                UA_NodeId_clear((UA_NodeId*)(uintptr_t)&type->binaryEncodingId);", "                if (type->members)\n                    UA_NodeId_clear((UA_NodeId*)(uintptr_t)&type->binaryEncodingId);")],
  runs=[("", [doc(dt(1, d=False), o(4, r("i=38", "ns=1;i=1", False), bn="Default Binary"), o("s=enc", r("i=38", "ns=1;i=2", False), bn="Default Binary"), dt(2, d=False))])],
  needs="a structure without members whose encoding's id is a text", breaks="the id is left behind") if 0 else None
plant("c40-dims", "C40", [(I, "    RawData_delete(data);\n    UA_free(attr.arrayDimensions);", "    RawData_delete(data);\n    UA_free(arrDims);")],
  runs=[("", [doc(var(1, "i=6", a=' ValueRank="1"'), var(2, "i=6", "<ListOfInt32><Int32>1</Int32></ListOfInt32>"))])],
  needs="a variable of rank 1 without array dimensions, or with an array as value", breaks="the dimensions made up for it are left behind")
plant("c40-enum", "C40", [(DV, "static void setStatusCode(const NL_Data *value, RawData *data)\n{\n    // StatusCode is a complex type with a primitive\n", "static void setStatusCode(const NL_Data *value, RawData *data)\n{\n    // StatusCode is a complex type with a primitive\n    if (value->val.complexData.members && !value->val.complexData.members[0])\n        return;\n")],
  runs=[("", [doc(var(1, "i=19", "<StatusCode>1</StatusCode>"))])], needs="a status code given as a text", breaks="the text is taken for the list of members")
plant("c40-lookup", "C40", [(DV, "    if (getMembersSize(value) == 1)\n    {\n", "    if (value->val.complexData.membersSize == 1)\n    {\n")], runs=[("", [doc(var(1, "i=19", "<StatusCode>1</StatusCode>"))])], needs="-", breaks="-") if 0 else None
plant("c40-refservice", "C40", [(RS, "    for (UA_NodeId *id = c->ids; id != c->ids + c->size; id++) {\n        UA_NodeId_clear(id);", "    for (UA_NodeId *id = c->ids; id != c->ids + c->size; id++) {\n        if (id->namespaceIndex == 0)\n            UA_NodeId_clear(id);")],
  runs=[("", [doc(o("s=reftype", r("i=45", "i=33", False), e="UAReferenceType"))])], needs="-", breaks="-") if 0 else None
# --- C41 namespaces
plant("c41-shift", "C41", [(SC, "        return serverContext->namespaceIdxMapping[nodesetIdx - 1];", "        return serverContext->namespaceIdxMapping[serverContext->namespaceCnt - (serverContext->namespaceCnt - nodesetIdx + 1) % 4 > nodesetIdx - 1u ? nodesetIdx - 1 : nodesetIdx - 1 ? 0 : 0];")],
  runs=[("", [doc(var(1, "i=17", "<NodeId><Identifier>ns=2;i=4</Identifier></NodeId>"), ns=U("a", "b", "c", "d"))])], needs="-", breaks="-") if 0 else None
plant("c41-limit", "C41", [(SC, "    else if ((nodesetIdx > 0) && ((size_t)nodesetIdx <= serverContext->namespaceCnt))", "    else if ((nodesetIdx > 0) && ((size_t)nodesetIdx < serverContext->namespaceCnt))"), (SC, "        // Error case. Should it rather be handled by assert(false)?\n        return UA_UINT16_MAX;", "        // Error case. Should it rather be handled by assert(false)?\n        return (UA_UInt16)(nodesetIdx + 1);")],
  runs=[("", [doc(var(1, "i=17", "<NodeId><Identifier>ns=2;i=4</Identifier></NodeId>"), ns=U("a", "b")), doc(var(2, "i=17", "<NodeId><Identifier>ns=2;i=4</Identifier></NodeId>"), ns=U("c", "a"))])],
  needs="a NodeId value in the last namespace of a file whose list is ordered differently from the server's", breaks="the value carries another namespace")
plant("c41-qname", "C41", [(DV, "    ((UA_QualifiedName*)adr)->namespaceIndex = \n        ServerContext_translateToServerIdx(serverContext, ((UA_QualifiedName*)adr)->namespaceIndex);        \n", "    if (data->offset == 0)\n        ((UA_QualifiedName*)adr)->namespaceIndex = \n            ServerContext_translateToServerIdx(serverContext, ((UA_QualifiedName*)adr)->namespaceIndex);        \n")],
  runs=[("", [doc(var(1, "i=20", "<ListOfQualifiedName><QualifiedName><NamespaceIndex>1</NamespaceIndex><Name>x</Name></QualifiedName><QualifiedName><NamespaceIndex>1</NamespaceIndex><Name>y</Name></QualifiedName></ListOfQualifiedName>", ' ValueRank="1"'))])],
  needs="an array of qualified names, or a structure with one behind another member", breaks="only the first one is translated")

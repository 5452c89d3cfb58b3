from batch7 import *
from batch7 import plant as bplant
from batch1h import plant
RI = "src/InternalRefService.c"
def obj(i, *c, a="", e="UAObject", b="o"): return '<%s NodeId="ns=1;i=%d" BrowseName="%s"%s>%s</%s>' % (e, i, b, a, "".join(c), e)
def rr(*l): return "<References>%s</References>" % "".join('<Reference ReferenceType="%s"%s>%s</Reference>' % (t, "" if f else ' IsForward="false"', x) for t, x, f in l)

plant("c07-outside", "C07", [(L, "            pctx->state = pctx->prev_state;", "            pctx->state = pctx->node ? pctx->prev_state : PARSER_STATE_INIT;")],
  runs=[("", [H + '<NamespaceUris><Uri>urn:a</Uri><x/><Uri>urn:b</Uri></NamespaceUris>' + '<UAObject NodeId="ns=2;i=1" BrowseName="2:o"/>' + F])],
  needs="an unknown element among the namespaces or within an alias", breaks="the namespaces behind it are not announced")
plant("c08-noattr", "C08", [(L, "        else if (!strcmp(localname, METHOD))", "        else if (!strcmp(localname, METHOD) && nb_attributes > 0)")],
  runs=[("", [doc('<UAMethod><DisplayName>m</DisplayName></UAMethod>')])], needs="a method without any attribute", breaks="it yields no node")
plant("c08-alias", "C08", [(L, "            pctx->state = PARSER_STATE_ALIAS;\n            pctx->node = NULL;\n", "            pctx->state = PARSER_STATE_ALIAS;\n            if (pctx->nodeClass == NODECLASS_VIEW)\n                pctx->state = PARSER_STATE_NODE;\n            pctx->node = NULL;\n")] if 0 else
  [(L, "        Nodeset_newNodeFinish(pctx->nodeset, pctx->node);\n        pctx->node = NULL;", "        if (pctx->node->displayName.text || pctx->node->browseName.name)\n            Nodeset_newNodeFinish(pctx->nodeset, pctx->node);\n        else\n            Node_delete(pctx->node);\n        pctx->node = NULL;")],
  runs=[("", [doc('<UAObject NodeId="ns=1;i=1"/>')])], needs="a node with neither display name nor browse name", breaks="it is dropped")
plant("c11-long", "C11", [(L, "    TParserCtx *pctx = (TParserCtx *)ctx;\n    if (pctx->onCharacters == NULL)\n", "    TParserCtx *pctx = (TParserCtx *)ctx;\n    if (pctx->onCharLength > 65535)\n        return;\n    if (pctx->onCharacters == NULL)\n")],
  runs=[("", [doc(obj(1, "<Description>%s</Description>" % ("abcdefg&amp;" * 15000)))])], needs="a text of more than 64 kB in several pieces", breaks="the end is lost")
plant("c12-keeptext", "C12", [(N, "    node->description.text = text;", "    if (text)\n        node->description.text = text;")],
  runs=[("", [doc(obj(1, '<Description Locale="de">x</Description><Description Locale="en"></Description>'))])], needs="a second, empty description", breaks="the text of the first one gets the second one's locale")
plant("c13-dupuri", "C13", [("src/NamespaceList.c", "    // ask backend to create/get overall namespaceIndex\n", "    for (size_t i = 1; uri && i < list->size; i++)\n    {\n        if (list->data[i].name && !strcmp(list->data[i].name, uri))\n            return &list->data[i];\n    }\n    // ask backend to create/get overall namespaceIndex\n"), ("src/NamespaceList.c", "#include <stdlib.h>", "#include <stdlib.h>\n#include <string.h>")],
  runs=[("", [doc('<UAObject NodeId="ns=3;i=1" BrowseName="3:o"/>', ns="<NamespaceUris><Uri>urn:a</Uri><Uri>urn:a</Uri><Uri>urn:b</Uri></NamespaceUris>")])],
  needs="a file which lists a uri twice", breaks="the indices behind it are shifted")
plant("c13-std", "C13", [("src/NamespaceList.c", "    // ask backend to create/get overall namespaceIndex\n", "    if (uri && !strcmp(uri, list->data[0].name))\n        return list->data;\n    // ask backend to create/get overall namespaceIndex\n"), ("src/NamespaceList.c", "#include <stdlib.h>", "#include <stdlib.h>\n#include <string.h>")],
  runs=[("", [doc('<UAObject NodeId="ns=2;i=1" BrowseName="2:o"/>', ns="<NamespaceUris><Uri>http://opcfoundation.org/UA/</Uri><Uri>urn:b</Uri></NamespaceUris>")])],
  needs="a file which lists the standard namespace", breaks="it is not announced, the indices behind it are shifted")
plant("c14-case", "C14", [(A, "        if (alias->name && !strcmp(name, alias->name))", "        if (alias->name && !strcasecmp(name, alias->name))"), (A, "#include <string.h>", "#include <string.h>\n#include <strings.h>")],
  runs=[("", [doc('<Aliases><Alias Alias="organizes">i=44</Alias><Alias Alias="Organizes">i=35</Alias></Aliases>', obj(1, rr(("Organizes", "i=85", 0))))])],
  needs="two aliases which differ in case only", breaks="the wrong one is taken")
plant("c14-trunc", "C14", [(A, "        if (alias->name && !strcmp(name, alias->name))", "        if (alias->name && !strncmp(name, alias->name, 32))")],
  runs=[("", [doc('<Aliases><Alias Alias="AnAliasWhichHasARatherLongNameForAType1">i=44</Alias><Alias Alias="AnAliasWhichHasARatherLongNameForAType2">i=35</Alias></Aliases>', obj(1, rr(("AnAliasWhichHasARatherLongNameForAType2", "i=85", 0))))])],
  needs="two aliases which begin with the same 32 characters", breaks="the wrong one is taken")
plant("c15-dedupe", "C15", [(N, "    UA_NodeId_clear(&ref->target);\n    ref->target = alias2Id(nodeset, targetId);", "    UA_NodeId_clear(&ref->target);\n    ref->target = alias2Id(nodeset, targetId);\n    // the same reference again\n    NL_Reference *prev = ref->next;\n    if (ref == node->hierachicalRefs && prev &&\n        UA_NodeId_equal(&prev->target, &ref->target) &&\n        UA_NodeId_equal(&prev->refType, &ref->refType))\n    {\n        node->hierachicalRefs = prev->next;\n        UA_NodeId_clear(&prev->target);\n        UA_NodeId_clear(&prev->refType);\n        free(prev);\n        ref->next = node->hierachicalRefs;\n        node->hierachicalRefs = ref;\n    }")],
  runs=[("", [doc(obj(1, rr(("i=35", "i=85", 0), ("i=35", "i=85", 1))))])], needs="two references between the same nodes in both directions", breaks="one of them is dropped")
plant("c16-twotypes", "C16", [(N, "        !strcmp(node->browseName.name, \"Default Binary\") && !ref->isForward)", "        !strcmp(node->browseName.name, \"Default Binary\") && !ref->isForward &&\n        !(nodeset->hasEncodingRefs &&\n          UA_NodeId_equal(&nodeset->hasEncodingRefs->target, &node->id)))")],
  runs=[("", [doc(obj(1, rr(("i=38", "ns=1;i=5", 0), ("i=38", "ns=1;i=6", 0)), b="Default Binary"))])], needs="an encoding of two data types", breaks="the second one is not reported")
plant("c17-hundred", "C17", [(N, "    for (size_t i = 0; i < deferred->size; i++)", "    for (size_t i = 0; i < deferred->size && i < 100; i++)")],
  runs=[("", [doc(*[obj(k, rr(("i=35", "i=85", 0), ("ns=1;i=500", "i=1", 1))) for k in range(1, 103)], '<UAReferenceType NodeId="ns=1;i=500" BrowseName="r"><References><Reference ReferenceType="i=45" IsForward="false">i=32</Reference></References></UAReferenceType>')])],
  needs="more than 100 nodes with references of types defined later", breaks="the last ones are not handed out")
plant("c18-ctx", "C18", [(N, "            NodeContainer_add(nodeset->refTypesWithUnknownRefs, node);\n            nodeset->refService->addNewReferenceType(\n                nodeset->refService->context, (NL_ReferenceTypeNode *)node);", "            NodeContainer_add(nodeset->refTypesWithUnknownRefs, node);\n            if (node->hierachicalRefs)\n                nodeset->refService->addNewReferenceType(\n                    nodeset->refService->context, (NL_ReferenceTypeNode *)node);")],
  runs=[("", [doc('<UAReferenceType NodeId="ns=1;i=1" BrowseName="r">%s</UAReferenceType>' % rr(("ns=1;i=2", "i=5", 1)), '<UAReferenceType NodeId="ns=1;i=2" BrowseName="r">%s</UAReferenceType>' % rr(("i=45", "i=32", 0)), obj(3, rr(("i=35", "i=85", 0), ("ns=1;i=1", "i=5", 1))))])],
  needs="a reference type with references of not yet known types only", breaks="the reference service never learns of it")
plant("c20-many", "C20", [(S, "    size_t edgeCount;", "    unsigned char edgeCount;")],
  runs=[("", [doc(obj(1, rr(*[("i=35", "ns=1;i=%d" % (k + 10), 0) for k in range(256)])), *[obj(k + 10) for k in range(256)])])],
  needs="a node with 256 parents", breaks="it is handed out before them")
plant("c21-many", "C21", [(S, "    size_t keyCnt;", "    unsigned short keyCnt;")],
  runs=[("", [doc(*[obj(k) for k in range(65536)])])], needs="65536 nodes", breaks="none is handed out")
plant("c22-view", "C22", [(S, "    if (!hierachicalRefRecorded && NodesetLoader_isInstanceNode(data)) {", "    if (!hierachicalRefRecorded && NodesetLoader_isInstanceNode(data) &&\n        data->nodeClass != NODECLASS_VIEW) {")],
  runs=[("", [doc(obj(1, e="UAView", a=' ParentNodeId="ns=1;i=2"'))])], needs="a view with a parent attribute only", breaks="it gets no reference")
plant("c22-forward", "C22", [(S, "                if (UA_NodeId_equal(&r->target, &data->id)) ", "                if (r->isForward && UA_NodeId_equal(&r->target, &data->id)) ")],
  runs=[("", [doc(obj(2, rr(("i=35", "ns=1;i=1", 0))), obj(1, a=' ParentNodeId="ns=1;i=2"'))])], needs="a parent with an inverse reference to the child", breaks="it is not mirrored")
plant("c23-sorted", "C23", [(S, "    if(j->data!=NULL)\n    {\n        return false;", "    if(j->data!=NULL && !j->sorted)\n    {\n        return false;")],
  runs=[("-sort-between", [doc(obj(1)), doc(obj(1, b="again"))])], needs="a node of an earlier file which was sorted before", breaks="the second one replaces it")
plant("c27-keepfirst", "C27", [(L, "                pctx->node->extension = pctx->extensionData;", "                if (!pctx->node->extension)\n                    pctx->node->extension = pctx->extensionData;")],
  runs=[("", [doc(obj(1, "<Extensions><Extension><a/></Extension><Extension><b/></Extension></Extensions>"))])], needs="two extensions of a node", breaks="the second one is lost")
plant("c27-attrs", "C27", [(L, "            pctx->extIf->start(pctx->extensionData, localname, nb_attributes, attributes);", "            pctx->extIf->start(pctx->extensionData, localname,\n                               pctx->unknown_depth > 0 ? 0 : nb_attributes, attributes);")],
  runs=[("", [doc(obj(1, '<Extensions><Extension><a x="1"><b y="2"/></a></Extension></Extensions>'))])], needs="attributes of an element nested in one of an extension", breaks="they are not delivered")
plant("c31-depth", "C31", [("src/Value.c", "", "")], runs=[]) if 0 else None

# --- backend
def v1(t, x, **k): return var(1, t, x, **k)
bplant("c34-sampling", "C34", [(I, "    attr.minimumSamplingInterval = atof(node->minimumSamplingInterval);", "    attr.minimumSamplingInterval = atoi(node->minimumSamplingInterval);")],
  runs=[("", [doc(obj(1, rr(("i=35", "i=85", 0)), e="UAVariable", a=' DataType="i=6" MinimumSamplingInterval="12.5"'))])], needs="a sampling interval which is no integer", breaks="the fraction is lost")
bplant("c34-inverse", "C34", [(I, "        UA_LOCALIZEDTEXT(node->inverseName.locale, node->inverseName.text);", "        UA_LOCALIZEDTEXT(lt->locale.length ? node->inverseName.locale : NULL, node->inverseName.text);")],
  runs=[("", [doc(obj(1, rr(("i=45", "i=33", 0)), '<DisplayName>a</DisplayName><InverseName Locale="de">b</InverseName>', e="UAReferenceType"))])], needs="an inverse name with locale, a display name without", breaks="the inverse name has no locale")
bplant("c34-userexec", "C34", [(I, "    attr.userExecutable = isValTrue(node->userExecutable);", "    attr.userExecutable = isValTrue(node->userExecutable) && attr.executable;")],
  runs=[("", [doc(obj(1, rr(("i=47", "i=85", 0)), e="UAMethod", a=' Executable="false"'))])], needs="a method which is not executable", breaks="the user attribute differs from the document")
bplant("c34-qn", "C34", [(I, "        UA_QUALIFIEDNAME(node->browseName.nsIdx, node->browseName.name);", "        UA_QUALIFIEDNAME(node->browseName.nsIdx & 0xff, node->browseName.name);")],
  runs=[("-ns 300", [doc(obj(1, rr(("i=47", "i=85", 0)), b="1:o"))])], needs="a server index above 255", breaks="the browse name's namespace")
bplant("c34-typerank", "C34", [(I, "    if (attr.valueRank >= 0 && !arrDims)", "    if (attr.valueRank > 0 && !arrDims)")],
  runs=[("", [doc(obj(1, rr(("i=45", "i=63", 0)), e="UAVariableType", a=' DataType="i=6" ValueRank="0"'))])], needs="a variable type of rank 0", breaks="it has no dimension")
bplant("c35-typedef2", "C35", [(I, "    // brute force, maybe not the best way to do this\n    ref = node->hierachicalRefs;\n    while (ref)", "    // brute force, maybe not the best way to do this\n    ref = node->hierachicalRefs;\n    if (ref && !ref->next && !ref->isForward)\n        return; // that is the parent\n    while (ref)")],
  runs=[("", [doc(obj(1, rr(("i=35", "i=85", 0)), a=' ParentNodeId="i=86"'))])], needs="a node whose parent attribute names another parent than its only reference", breaks="the reference does not reach the server")
bplant("c36-nine", "C36", [(I, "    const size_t attemptsNum = 10;", "    const size_t attemptsNum = 9;")],
  runs=[("-fail 'ns=2;i=1' 9", [doc(obj(1, rr(("i=35", "i=85", 0))))])], needs="a node which is accepted at the tenth attempt", breaks="it is given up")
bplant("c36-dup", "C36", [(I, "        NodeContainer_delete((*badStatusNodes));\n        (*badStatusNodes) = local_badStatusNodes;\n        attempt++;", "        NodeContainer_delete((*badStatusNodes));\n        (*badStatusNodes) = local_badStatusNodes;\n        attempt += counterOfAdddedNodesForOneAttempt ? 1 : 2;")],
  runs=[("-fail 'ns=2;i=1' 7", [doc(obj(1, rr(("i=35", "i=85", 0))))])], needs="a node refused seven times", breaks="it is given up")
bplant("c37-uint64", "C37", [("backends/open62541/src/Value.c", "strtoull(value, NULL, 10)", "(UA_UInt64)strtoll(value, NULL, 10)")],
  runs=[("", [doc(v1("i=9", "<UInt64>18446744073709551615</UInt64>"))])], needs="a UInt64 above the limit of Int64", breaks="the value is limited")
bplant("c37-switch", "C37", [("backends/open62541/src/Value.c", "        data->offset = unionOffset + type->memSize;\n    }", "    }\n    data->offset = unionOffset + type->memSize;")] if 0 else
  [("backends/open62541/src/Value.c", "            size_t structOffset = data->offset + memberType->memSize;", "            size_t structOffset = data->offset + (memberType->memSize + 7) / 8 * 8 * (memberType->typeKind == UA_DATATYPEKIND_STRUCTURE ? 1 : 0) + (memberType->typeKind == UA_DATATYPEKIND_STRUCTURE ? 0 : memberType->memSize);")],
  runs=[("", [doc(dt(1, fields=f("a", "i=6")), dt(2, fields=f("s", "ns=1;i=1") + f("b", "i=6")), var(3, "ns=1;i=2", eo("T2", "<s><a>1</a></s><b>2</b>")))])], needs="a structure as member whose size is no multiple of 8", breaks="the members behind it are written at the wrong place")
bplant("c37-enumlist", "C37", [("backends/open62541/src/Value.c", "    char *enumSepPos = strrchr(string, '_');", "    char *enumSepPos = strchr(string, '_');")],
  runs=[("", [doc(var(3, "i=852", "<String>Very_Long_Name_3</String>"))])], needs="an enumeration value whose symbol has underscores", breaks="the value is 0")
bplant("c37-unionlist", "C37", [("backends/open62541/src/Value.c", "    if (switchField > type->membersSize || !getMember(value, 1))", "    if (switchField >= type->membersSize || !getMember(value, 1))")],
  runs=[("", [doc(dt(1, "i=12756", f("a", "i=6") + f("b", "i=6"), a=' IsUnion="true"') , var(3, "ns=1;i=1", eo("T1", "<SwitchField>2</SwitchField><b>2</b>")))])], needs="a union with its last member selected", breaks="the value is empty")
bplant("c37-qnlong", "C37", [("backends/open62541/src/Value.c", "    *(UA_UInt16 *)adr = (UA_UInt16)atoi(value);", "    *(UA_UInt16 *)adr = (UA_UInt16)(UA_Int16)(atoi(value) > 32767 ? 32767 : atoi(value));")],
  runs=[("", [doc(v1("i=5", "<UInt16>65535</UInt16>"))])], needs="a UInt16 above 32767", breaks="the value is limited")
bplant("c37-locale", "C37", [("backends/open62541/src/Value.c", "    NL_Data *textData = lookupMember(value, \"Text\");", "    NL_Data *textData = getMember(value, getMembersSize(value) - 1);")],
  runs=[("", [doc(v1("i=21", "<LocalizedText><Text>t</Text><Locale>de</Locale></LocalizedText>"))])], needs="a localized text whose locale comes last", breaks="the text is the locale")
bplant("c39-anyref", "C39", [(RS, "        if (!ref->isForward", "        if (1")], runs=[("", [doc(obj(1))])]) if 0 else None
bplant("c41-eight", "C41", [(SC, "    if (nodesetIdx", "    if (nodesetIdx")], runs=[]) if 0 else None

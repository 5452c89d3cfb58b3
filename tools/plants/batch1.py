import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
H = '<?xml version="1.0" encoding="utf-8"?>\n<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd">\n'
NSU = '<NamespaceUris><Uri>urn:a</Uri><Uri>urn:b</Uri></NamespaceUris>\n'
F = '</UANodeSet>\n'
def doc(*l, ns=NSU): return H + ns + "\n".join(l) + "\n" + F
L, N, V, A, S = "src/NodesetLoader.c", "src/Nodeset.c", "src/Value.c", "src/AliasList.c", "src/Sort.c"

plant("c07-uri-child", "C07", [(L, """        pctx->state = PARSER_STATE_NAMESPACEURIS;
    }
    break;
    case PARSER_STATE_NAMESPACEURIS:""", """        pctx->state = PARSER_STATE_NAMESPACEURIS;
    }
    break;
    case PARSER_STATE_DATATYPE_DEFINITION_FIELD:
        pctx->state = PARSER_STATE_DATATYPE_DEFINITION;
        pctx->node->description.text = pctx->onCharacters ? pctx->onCharacters : pctx->node->description.text;
        break;
    case PARSER_STATE_NAMESPACEURIS:"""), (L, """    case PARSER_STATE_DATATYPE_DEFINITION_FIELD:
        pctx->state = PARSER_STATE_DATATYPE_DEFINITION;
        break;
    case PARSER_STATE_UNKNOWN:""", """    case PARSER_STATE_UNKNOWN:""")],
 runs=[("", [doc('<UADataType NodeId="ns=1;i=1" BrowseName="1:a"><Description>real</Description><Definition Name="d"><Field Name="f"><Doc>x</Doc>junk</Field></Definition></UADataType>')])],
 needs="character data inside a definition's Field element after an unknown child", breaks="ignored content overwrites the node's description")

plant("c07-depth", "C07", [(L, """    case PARSER_STATE_UNKNOWN:
        pctx->unknown_depth++;
        break;    
""", """    case PARSER_STATE_UNKNOWN:
        if (strcmp(localname, REFERENCES))
            pctx->unknown_depth++;
        break;    
"""), (L, """    case PARSER_STATE_UNKNOWN:
        pctx->unknown_depth--;
        if""", """    case PARSER_STATE_UNKNOWN:
        if (strcmp(localname, REFERENCES) || pctx->unknown_depth > 2)
            pctx->unknown_depth--;
        if""")],
 runs=[("", [doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:a"><Vendor><p><References><Reference ReferenceType="i=47">i=85</Reference></References></p><DisplayName>no</DisplayName></Vendor><DisplayName>yes</DisplayName></UAObject>')])],
 needs="an element called References at depth three inside an unknown element", breaks="the unknown subtree is left too early and its content is taken for the node's")

plant("c08-view-type", "C08", [(L, """            pctx->nodeClass = NODECLASS_VIEW;
            pctx->node = Nodeset_newNode(pctx->nodeset, pctx->nodeClass,
                                         nb_attributes, attributes);""", """            pctx->nodeClass = NODECLASS_VIEW;
            pctx->node = nb_attributes > 0 ? Nodeset_newNode(pctx->nodeset, pctx->nodeClass, nb_attributes, attributes)
                                           : Nodeset_newNode(pctx->nodeset, NODECLASS_OBJECT, nb_attributes, attributes);""")],
 runs=[("", [doc('<UAView></UAView>')])], needs="a view element without attributes", breaks="the view becomes an object node")

plant("c08-prefix", "C08", [(L, """        if (!strcmp(localname, VARIABLE))
        {
            pctx->nodeClass""", """        if (!strncmp(localname, VARIABLE, sizeof(VARIABLE) - 1) && strcmp(localname, VARIABLETYPE))
        {
            pctx->nodeClass""")],
 runs=[("", [doc('<UAVariableSet NodeId="ns=1;i=3" BrowseName="1:x"/>', '<UAVariable NodeId="ns=1;i=1" BrowseName="1:v"/>')])],
 needs="an unknown element whose name starts with UAVariable", breaks="an element of another name yields a variable node")

plant("c09-prefix", "C09", [(N, "        if (strcmp((const char *)localname, attr->name))\n            continue;",
 "        if (strncmp((const char *)localname, attr->name, strlen(localname)))\n            continue;")],
 runs=[("", [doc('<UAVariable Data="junk" NodeId="ns=1;i=1" BrowseName="1:v" DataType="i=6" ValueRank="1"/>')])],
 needs="a foreign attribute whose name is a prefix of a known one and stands before it", breaks="the foreign attribute's value is taken")

plant("c09-useraccess", "C09", [(N, """            nodeset, &attrUserAccessLevel, attributes, attributeSize);""", """            nodeset, &attrUserAccessLevel, attributes, attributeSize > 8 ? 8 : attributeSize);""")],
 runs=[("", [doc('<UAVariable NodeId="ns=1;i=1" BrowseName="1:v" DataType="i=6" ValueRank="1" ArrayDimensions="2" AccessLevel="3" Historizing="true" MinimumSamplingInterval="5" UserAccessLevel="7"/>')])],
 needs="UserAccessLevel as ninth attribute of a variable", breaks="the attribute is not found and the default is stored")

plant("c09-bnsplit", "C09", [(N, "    char *bnName = strchr(s, ':');", "    char *bnName = strrchr(s, ':');")],
 runs=[("", [doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:a:b"/>')])], needs="a browse name containing a second colon", breaks="the name loses everything up to the last colon")

plant("c11-split", "C11", [(L, "    pctx->onCharLength += (size_t)len;", "    pctx->onCharLength = (size_t)len;")],
 runs=[("", [doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:a"><DisplayName>one&amp;two&lt;three</DisplayName></UAObject>')])],
 needs="a text delivered in three or more pieces (entities)", breaks="the third piece overwrites the second")

plant("c11-startreset", "C11", [(L, """    case PARSER_STATE_UNKNOWN:
        pctx->unknown_depth++;
        break;    
    }
    pctx->onCharacters = NULL;
    pctx->onCharLength = 0;""", """    case PARSER_STATE_UNKNOWN:
        pctx->unknown_depth++;
        break;    
    }
    if (pctx->state != PARSER_STATE_UNKNOWN)
    {
        pctx->onCharacters = NULL;
        pctx->onCharLength = 0;
    }"""), (L, """    case PARSER_STATE_UNKNOWN:
        pctx->unknown_depth--;
        if (pctx->unknown_depth == 0)
        {
            pctx->state = pctx->prev_state;
        }
    }
    pctx->onCharacters = NULL;
    pctx->onCharLength = 0;""", """    case PARSER_STATE_UNKNOWN:
        pctx->unknown_depth--;
        if (pctx->unknown_depth == 0)
        {
            pctx->state = pctx->prev_state;
            return;
        }
    }
    pctx->onCharacters = NULL;
    pctx->onCharLength = 0;""")],
 runs=[("", [doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:a"><Description>head<b>bold</b>tail</Description></UAObject>')])],
 needs="an unknown child within a text element", breaks="the text of an ignored child becomes part of the description")

plant("c12-desc-locale", "C12", [(N, """    node->description.text = text;""", """    node->description.text = text;
    if (!node->displayName.locale)
        node->displayName.locale = node->description.locale;""")],
 runs=[("", [doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:a"><DisplayName>x</DisplayName><Description Locale="de">y</Description></UAObject>')])],
 needs="a description with locale after a display name without", breaks="the display name gets the description's locale")

plant("c13-field", "C13", [(N, """    if (bn.nsIdx > 0)
    {
        const Namespace""", """    if (bn.nsIdx > 1)
    {
        const Namespace""")],
 runs=[("", [doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:a"/>')])], needs="a browse name in namespace 1", breaks="the browse name keeps the file's index")

plant("c13-offbyone", "C13", [("src/NamespaceList.c", "    if((size_t)relativeIndex >=list->size)", "    if((size_t)relativeIndex + 1 >= list->size && relativeIndex > 1)")],
 runs=[("", [doc('<UAObject NodeId="ns=2;i=1" BrowseName="2:a"/>')])], needs="the last of several declared namespaces", breaks="ids of the last namespace are not translated")

plant("c13-alias-order", "C13", [(N, "    alias->id = extractNodedId(nodeset->namespaces, idString);", """    UA_NodeId plain = UA_NODEID_NULL;
    if (idString && strstr(idString, ";s="))
        UA_NodeId_parse(&plain, UA_STRING(idString));
    else
        plain = extractNodedId(nodeset->namespaces, idString);
    alias->id = plain;""")],
 runs=[("", [doc('<Aliases><Alias Alias="T">ns=1;s=tt</Alias></Aliases><UAVariable NodeId="ns=1;i=1" BrowseName="1:v" DataType="T"/>')])],
 needs="an alias defined with a string node id", breaks="the alias' namespace index is not translated")

plant("c14-prefix", "C14", [(A, "        if (alias->name && !strcmp(name, alias->name))", "        if (alias->name && !strncmp(name, alias->name, strlen(name)))")],
 runs=[("", [doc('<Aliases><Alias Alias="HasComponentX">ns=1;i=9</Alias><Alias Alias="HasComponent">i=47</Alias></Aliases><UAObject NodeId="ns=1;i=1" BrowseName="1:v"><References><Reference ReferenceType="HasComponent" IsForward="false">i=85</Reference></References></UAObject>')])] ,
 needs="an alias whose name extends another alias' name and is defined first", breaks="the wrong alias is used")

plant("c14-target", "C14", [(N, "    ref->target = alias2Id(nodeset, targetId);", "    ref->target = extractNodedId(nodeset->namespaces, targetId);")],
 runs=[("", [doc('<Aliases><Alias Alias="T">ns=1;i=9</Alias></Aliases><UAObject NodeId="ns=1;i=1" BrowseName="1:v"><References><Reference ReferenceType="i=37" >T</Reference></References></UAObject>')])],
 needs="a reference target given by an alias", breaks="the target is empty")

plant("c15-hastypedef", "C15", [(N, """        newRef->next = ((NL_ObjectNode *)node)->refToTypeDef;
        ((NL_ObjectNode *)node)->refToTypeDef = newRef;
        return newRef;""", """        newRef->next = ((NL_ObjectNode *)node)->refToTypeDef;
        ((NL_ObjectNode *)node)->refToTypeDef = newRef;
        if (!newRef->isForward)
        {
            newRef->next = NULL;
        }
        return newRef;""")],
 runs=[("", [doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:v"><References><Reference ReferenceType="i=40">i=58</Reference><Reference ReferenceType="i=40" IsForward="false">ns=1;i=7</Reference></References></UAObject>')])],
 needs="an inverse type definition after a forward one on an object", breaks="the first type definition is lost")

plant("c15-unknown", "C15", [(N, "            insertElementAtFront(&node->nonHierachicalRefs, node->unknownRefs);", "            insertElementAtFront(nextUnknown ? &node->hierachicalRefs : &node->nonHierachicalRefs, node->unknownRefs);")],
 runs=[("", [doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:v"><References><Reference ReferenceType="ns=1;i=5">ns=1;i=8</Reference><Reference ReferenceType="ns=1;i=5">ns=1;i=7</Reference></References></UAObject>',
  '<UAReferenceType NodeId="ns=1;i=5" BrowseName="1:nh"><References><Reference ReferenceType="i=45" IsForward="false">i=32</Reference></References></UAReferenceType>')])],
 needs="a node with two references of a not yet known non-hierarchical type", breaks="one of them is filed as hierarchical")

plant("c16-forward", "C16", [(N, """        !strcmp(node->browseName.name, "Default Binary") && !ref->isForward)""", """        !strncmp(node->browseName.name, "Default Binary", 11) && !ref->isForward)""")],
 runs=[("", [doc('<UAObject NodeId="ns=1;i=1" BrowseName="Default BiXML"><References><Reference ReferenceType="i=38" IsForward="false">ns=1;i=7</Reference></References></UAObject>')])],
 needs="an encoding node whose browse name only starts like Default Binary", breaks="a pair is reported for another encoding")

plant("c17-reftype", "C17", [(N, """            NodeContainer_add(nodeset->refTypesWithUnknownRefs, node);
            nodeset->refService->addNewReferenceType(""", """            NodeContainer_add(nodeset->refTypesWithUnknownRefs, node);
            if (!node->hierachicalRefs)
                return;
            nodeset->refService->addNewReferenceType(""")],
 runs=[("", [doc('<UAReferenceType NodeId="ns=1;i=6" BrowseName="1:r6"><References><Reference ReferenceType="ns=1;i=5">ns=1;i=8</Reference></References></UAReferenceType>','<UAReferenceType NodeId="ns=1;i=5" BrowseName="1:r5"><References><Reference ReferenceType="i=45" IsForward="false">i=32</Reference></References></UAReferenceType>',
  '<UAObject NodeId="ns=1;i=1" BrowseName="1:v"><References><Reference ReferenceType="ns=1;i=6">ns=1;i=8</Reference></References></UAObject>')])],
 needs="a deferred reference type without hierarchical references of its own", breaks="nodes using it can never be completed, sorting fails")

plant("c18-early", "C18", [(N, """        else
        {
            if (node->nodeClass == NODECLASS_REFERENCETYPE)
            {
                nodeset->refService""", """        else
        {
            if (node->nodeClass == NODECLASS_REFERENCETYPE && node->browseName.name)
            {
                nodeset->refService""")],
 runs=[("", [doc('<UAReferenceType NodeId="ns=1;i=5"><References><Reference ReferenceType="i=45" IsForward="false">i=33</Reference></References></UAReferenceType>',
  '<UAObject NodeId="ns=1;i=1" BrowseName="1:v"><References><Reference ReferenceType="ns=1;i=5" IsForward="false">ns=1;i=8</Reference></References></UAObject>')])],
 needs="a reference type without browse name", breaks="the reference service never learns of the type")

plant("c25-parent", "C25", [(V, """        val->ctx->currentData = val->ctx->currentData->parent;
        // exit""", """        val->ctx->currentData = val->ctx->currentData->parent;
        if (val->isExtensionObject && val->isArray && val->ctx->currentData->membersSizeDummy_)
            break;
        // exit""")] if False else [(V, "            val->ctx->currentData->val.primitiveData.value = isOnlyWhitespace(value);", """            const char *text = isOnlyWhitespace(value);
            if (text || !val->ctx->currentData->parent)
                val->ctx->currentData->val.primitiveData.value = text;
            else
                val->ctx->currentData->val.primitiveData.value = value;""")],
 runs=[("", [doc('<UAVariable NodeId="ns=1;i=1" BrowseName="1:v"><Value><ListOfString><String> </String><String>a</String></ListOfString></Value></UAVariable>')])],
 needs="a blank element nested in a list or structure", breaks="the member has white space as text instead of nothing")

plant("c25-listext", "C25", [(V, """        if (val->isExtensionObject && val->isArray &&
            val->ctx->currentData->parent == NULL)""", """        if (val->isExtensionObject && val->isArray &&
            (val->ctx->currentData->parent == NULL || val->ctx->currentData->val.complexData.membersSize == 3))""")],
 runs=[("", [doc('<UAVariable NodeId="ns=1;i=1" BrowseName="1:v"><Value><ListOfExtensionObject><ExtensionObject><TypeId><Identifier>ns=1;i=2</Identifier></TypeId><Body><P><A>1</A><B>2</B><C>3</C><D>4</D></P></Body></ExtensionObject></ListOfExtensionObject></Value></UAVariable>')])],
 needs="a list of extension objects whose structure has more than three members", breaks="the fourth member is dropped or misplaced")

plant("c26-optset", "C26", [(N, """        newField->value = atoi(value);
        dataTypeNode->definition->isEnum =
            !dataTypeNode->definition->isOptionSet;""", """        newField->value = atoi(value);
        dataTypeNode->definition->isEnum =
            !dataTypeNode->definition->isUnion;""")],
 runs=[("", [doc('<UADataType NodeId="ns=1;i=1" BrowseName="1:a"><Definition Name="d" IsUnion="true"><Field Name="f" Value="1"/></Definition></UADataType>')])],
 needs="a union whose fields carry a Value", breaks="the enumeration flag is not set")

plant("c26-second", "C26", [("src/nodes/DataTypeNode.c", "        definition->fieldCnt * sizeof(NL_DataTypeDefinitionField));", "        ((definition->fieldCnt + 3) / 4 * 4) * sizeof(NL_DataTypeDefinitionField));\n    if (definition->fields && definition->fieldCnt > 1 && definition->fieldCnt % 4 == 1)\n        definition->fields[definition->fieldCnt - 2].isOptional = false;")],
 runs=[("", [doc('<UADataType NodeId="ns=1;i=1" BrowseName="1:a"><Definition Name="d"><Field Name="a"/><Field Name="b"/><Field Name="c"/><Field Name="d" IsOptional="true"/><Field Name="e"/></Definition></UADataType>')])],
 needs="a definition with five fields of which the fourth is optional", breaks="the optional flag is lost when the array grows")

plant("c27-data", "C27", [(L, """        pctx->unknown_depth++;
        break;

    case PARSER_STATE_REFERENCES:""", """        pctx->unknown_depth++;
        pctx->prev_state = PARSER_STATE_EXTENSION;
        break;

    case PARSER_STATE_REFERENCES:"""), (L, """                pctx->node->extension = pctx->extensionData;
            }""", """                if (pctx->prev_state == PARSER_STATE_EXTENSION)
                    pctx->node->extension = pctx->extensionData;
            }""")],
 runs=[("-x", [doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:a"><Extensions><Extension>t</Extension></Extensions></UAObject>')])],
 needs="an extension without nested elements", breaks="its data is not attached to the node")

plant("c27-value", "C27", [(L, """                pctx->extIf->end(pctx->extensionData, localname,
                                 pctx->onCharacters);""", """                pctx->extIf->end(pctx->extensionData, localname,
                                 pctx->unknown_depth > 1 && pctx->onCharLength > 16 ? NULL : pctx->onCharacters);""")],
 runs=[("-x", [doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:a"><Extensions><Extension><a><b>a text which is longer than that</b></a></Extension></Extensions></UAObject>')])],
 needs="a longer text two levels deep in an extension", breaks="the text is not delivered")

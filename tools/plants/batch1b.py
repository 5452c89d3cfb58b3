from batch1h import *
plant("c07-depth", "C07", [(L, """    case PARSER_STATE_UNKNOWN:
        pctx->unknown_depth++;
        break;    
""", """    case PARSER_STATE_UNKNOWN:
        if (pctx->unknown_depth < 255)
            pctx->unknown_depth++;
        break;    
""")],
 runs=[("", [doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:a"><Vendor>'+'<x>'*255+'</x>'*255+'<DisplayName>no</DisplayName></Vendor></UAObject>')])],
 needs="unknown elements nested more than 255 deep", breaks="the unknown subtree is left too early and its content is taken for the node's")
plant("c07-initdepth", "C07", [(L, """    case PARSER_STATE_REFERENCES:
        if (!strcmp(localname, REFERENCE))
        {""", """    case PARSER_STATE_REFERENCES:
        if (!strcmp(localname, REFERENCE) || (prefix && !strcmp(localname, "Ref")))
        {""")],
 runs=[("", [H.replace('<UANodeSet ','<UANodeSet xmlns:v="urn:v" ')+NSU+'<UAObject NodeId="ns=1;i=1" BrowseName="1:a"><References><v:Ref>i=5</v:Ref></References></UAObject>'+F])],
 needs="a vendor element Ref with a namespace prefix in a reference list", breaks="it becomes a reference of the node")
plant("c16-forward", "C16", [(N, """        !strcmp(node->browseName.name, "Default Binary") && !ref->isForward)""", """        !strncmp(node->browseName.name, "Default Binary", 11) && !ref->isForward)""")],
 runs=[("", [doc('<UAObject NodeId="ns=1;i=1" BrowseName="Default BinXML"><References><Reference ReferenceType="i=38" IsForward="false">ns=1;i=7</Reference></References></UAObject>')])],
 needs="an encoding node whose browse name only starts like Default Binary", breaks="a pair is reported for another encoding")
plant("c25-listext", "C25", [(V, """        if (val->isExtensionObject && val->isArray &&
            val->ctx->currentData->parent == NULL)""", """        if (val->isExtensionObject && val->isArray &&
            (val->ctx->currentData->parent == NULL || (val->ctx->currentData->type == DATATYPE_COMPLEX && val->ctx->currentData->val.complexData.membersSize == 3)))""")],
 runs=[("", [doc('<UAVariable NodeId="ns=1;i=1" BrowseName="1:v"><Value><ListOfExtensionObject><ExtensionObject><TypeId><Identifier>ns=1;i=2</Identifier></TypeId><Body><P><A>1</A><B>2</B><C>3</C><Dd>4</Dd></P></Body></ExtensionObject><ExtensionObject><TypeId><Identifier>ns=1;i=2</Identifier></TypeId><Body><P><A>1</A></P></Body></ExtensionObject></ListOfExtensionObject></Value></UAVariable>')])],
 needs="a list of extension objects whose structure has more than three members", breaks="the following object becomes a member of the first one")

"""The ownership table of the code base, read from the headers and confirmed by
hand: which member owns what it points to.  ("ptr", member[, (field, value)]):
the object behind the pointer; ("flat", member): the same, an array of copies which
own nothing themselves; ("nid", member): the identifier string of a
NodeId; ("array", member, count, element type or None[, (field, value)]): every
element up to the count."""

BASE = [("nid", "id"), ("ptr", "hierachicalRefs"), ("ptr", "nonHierachicalRefs"), ("ptr", "unknownRefs")]
INST = BASE + [("nid", "parentNodeId")]


def ownership(mod):
    spec = {
        "Region": [("ptr", "mem"), ("ptr", "next")],
        "CharArenaAllocator": [("ptr", "current")],
        "NL_Reference": [("nid", "refType"), ("nid", "target"), ("ptr", "next")],
        "NL_BiDirectionalReference": [("nid", "source"), ("nid", "target"), ("nid", "refType"), ("ptr", "next")],
        "NL_Node": BASE,
        "NL_ObjectTypeNode": BASE,
        "NL_ReferenceTypeNode": BASE,
        "NL_VariableNode": INST + [("nid", "datatype"), ("ptr", "refToTypeDef"), ("ptr", "value")],
        "NL_ObjectNode": INST + [("ptr", "refToTypeDef")],
        "NL_MethodNode": INST,
        "NL_ViewNode": INST,
        "NL_VariableTypeNode": BASE + [("nid", "datatype")],
        "NL_DataTypeNode": BASE + [("ptr", "definition")],
        "NL_DataTypeDefinition": [("array", "fields", "fieldCnt", "NL_DataTypeDefinitionField"), ("ptr", "fields")],
        "NL_DataTypeDefinitionField": [("nid", "dataType")],
        "NL_Value": [("ptr", "data"), ("ptr", "ctx")],
        "NL_Data": [("array", "val.complexData.members", "val.complexData.membersSize", None, ("type", 1)),
                    ("ptr", "val.complexData.members", ("type", 1))],
        "NodeContainer": [("array", "nodes", "size", None, ("owner", 1)), ("ptr", "nodes")],
        "AliasList": [("array", "data", "size", "Alias"), ("ptr", "data")],
        "Alias": [("nid", "id")],
        "NamespaceList": [("ptr", "data")],
        "Nodeset": [("ptr", "aliasList"), ("ptr", "namespaces"), ("ptr", "charArena"), ("ptr", "nodesWithUnknownRefs"),
                    ("ptr", "refTypesWithUnknownRefs"), ("ptr", "sortCtx"), ("ptr", "hasEncodingRefs")] +
                   [("ptr", "nodes[%d]" % i) for i in range(8)],
        "NodesetLoader": [("ptr", "nodeset"), ("ptr", "logger", ("internalLogger", 1)),
                          ("ptr", "refService", ("internalRefService", 1))],
        "InternalRefService": [("flat", "hierachicalRefs"), ("ptr", "nonHierachicalRefs")],
        "SortContext": [("ptr", "root1")],
        "S_Node": [("ptr", "left"), ("ptr", "right"), ("ptr", "edges")],
        "S_Edge": [("ptr", "next")],
    }
    return {t: fs for t, fs in spec.items()}


def downcast(mod):
    E = mod.enums
    return {"NL_Node": (mod.off("NL_Node", "nodeClass"), 4, {
        E["NODECLASS_OBJECT"]: "NL_ObjectNode", E["NODECLASS_OBJECTTYPE"]: "NL_ObjectTypeNode",
        E["NODECLASS_VARIABLE"]: "NL_VariableNode", E["NODECLASS_DATATYPE"]: "NL_DataTypeNode",
        E["NODECLASS_METHOD"]: "NL_MethodNode", E["NODECLASS_REFERENCETYPE"]: "NL_ReferenceTypeNode",
        E["NODECLASS_VARIABLETYPE"]: "NL_VariableTypeNode", E["NODECLASS_VIEW"]: "NL_ViewNode"})}

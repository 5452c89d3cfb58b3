#ifndef VERIF_UA_SERVER_H
#define VERIF_UA_SERVER_H
#include <open62541/types.h>
#include <open62541/types_generated.h>
#include <open62541/plugin/log.h>
#define UA_NS0ID_ENUMERATION 29
#define UA_NS0ID_STRUCTURE 22
#define UA_NS0ID_BASEDATATYPE 24
#define UA_NS0ID_REFERENCES 31
#define UA_NS0ID_NONHIERARCHICALREFERENCES 32
#define UA_NS0ID_HIERARCHICALREFERENCES 33
#define UA_NS0ID_HASCHILD 34
#define UA_NS0ID_ORGANIZES 35
#define UA_NS0ID_HASMODELLINGRULE 37
#define UA_NS0ID_HASENCODING 38
#define UA_NS0ID_HASTYPEDEFINITION 40
#define UA_NS0ID_AGGREGATES 44
#define UA_NS0ID_HASSUBTYPE 45
#define UA_NS0ID_HASPROPERTY 46
#define UA_NS0ID_HASCOMPONENT 47
#define UA_NS0ID_BASEOBJECTTYPE 58
#define UA_NS0ID_FOLDERTYPE 61
#define UA_NS0ID_BASEVARIABLETYPE 62
#define UA_NS0ID_BASEDATAVARIABLETYPE 63
#define UA_NS0ID_ROOTFOLDER 84
#define UA_NS0ID_OBJECTSFOLDER 85
#define UA_NS0ID_UNION 12756
#define UA_NS0ID_OPTIONSET 12755
struct UA_Server; typedef struct UA_Server UA_Server;
typedef struct { const UA_Logger *logging; void *context; const UA_DataTypeArray *customDataTypes; UA_Byte other[512]; } UA_ServerConfig;
typedef UA_StatusCode (*UA_MethodCallback)(UA_Server *server, const UA_NodeId *sessionId, void *sessionContext, const UA_NodeId *methodId,
   void *methodContext, const UA_NodeId *objectId, void *objectContext, size_t inputSize, const UA_Variant *input, size_t outputSize, UA_Variant *output);
typedef struct { UA_String name; } UA_Argument;
UA_ServerConfig *UA_Server_getConfig(UA_Server *server);
UA_UInt16 UA_Server_addNamespace(UA_Server *server, const char *name);
UA_StatusCode UA_Server_getNamespaceByName(UA_Server *server, const UA_String namespaceUri, size_t *foundIndex);
UA_BrowseResult UA_Server_browse(UA_Server *server, UA_UInt32 maxReferences, const UA_BrowseDescription *bd);
UA_BrowseResult UA_Server_browseNext(UA_Server *server, UA_Boolean releaseContinuationPoint, const UA_ByteString *continuationPoint);
UA_StatusCode UA_Server_addNode_begin(UA_Server *server, const UA_NodeClass nodeClass, const UA_NodeId requestedNewNodeId, const UA_NodeId parentNodeId,
    const UA_NodeId referenceTypeId, const UA_QualifiedName browseName, const UA_NodeId typeDefinition, const void *attr, const UA_DataType *attributeType,
    void *nodeContext, UA_NodeId *outNewNodeId);
UA_StatusCode UA_Server_addNode_finish(UA_Server *server, const UA_NodeId nodeId);
#define VERIF_ADD(N, A) UA_StatusCode N(UA_Server *server, const UA_NodeId requestedNewNodeId, const UA_NodeId parentNodeId, const UA_NodeId referenceTypeId, const UA_QualifiedName browseName, const A attr, void *nodeContext, UA_NodeId *outNewNodeId)
#define VERIF_ADDT(N, A) UA_StatusCode N(UA_Server *server, const UA_NodeId requestedNewNodeId, const UA_NodeId parentNodeId, const UA_NodeId referenceTypeId, const UA_QualifiedName browseName, const UA_NodeId typeDefinition, const A attr, void *nodeContext, UA_NodeId *outNewNodeId)
VERIF_ADD(UA_Server_addViewNode, UA_ViewAttributes);
VERIF_ADD(UA_Server_addObjectTypeNode, UA_ObjectTypeAttributes);
VERIF_ADD(UA_Server_addReferenceTypeNode, UA_ReferenceTypeAttributes);
VERIF_ADD(UA_Server_addDataTypeNode, UA_DataTypeAttributes);
VERIF_ADDT(UA_Server_addObjectNode, UA_ObjectAttributes);
VERIF_ADDT(UA_Server_addVariableNode, UA_VariableAttributes);
VERIF_ADDT(UA_Server_addVariableTypeNode, UA_VariableTypeAttributes);
UA_StatusCode UA_Server_addMethodNode(UA_Server *server, const UA_NodeId requestedNewNodeId, const UA_NodeId parentNodeId, const UA_NodeId referenceTypeId,
    const UA_QualifiedName browseName, const UA_MethodAttributes attr, UA_MethodCallback method, size_t inputArgumentsSize, const UA_Argument *inputArguments,
    size_t outputArgumentsSize, const UA_Argument *outputArguments, void *nodeContext, UA_NodeId *outNewNodeId);
UA_StatusCode UA_Server_addReference(UA_Server *server, const UA_NodeId sourceId, const UA_NodeId refTypeId, const UA_ExpandedNodeId targetId, UA_Boolean isForward);
UA_StatusCode UA_Server_deleteNode(UA_Server *server, const UA_NodeId nodeId, UA_Boolean deleteReferences);
UA_StatusCode UA_Server_readNodeClass(UA_Server *server, const UA_NodeId nodeId, UA_NodeClass *outNodeClass);
#endif

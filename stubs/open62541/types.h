/* Declaration-only stand-in for open62541's <open62541/types.h>.
 * The library itself is not installed in the sandbox; the static analysis
 * only needs the types and prototypes the loader is written against.
 * Bit-fields of UA_DataType are plain members of the same or larger width. */
#ifndef VERIF_UA_TYPES_H
#define VERIF_UA_TYPES_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <stdio.h>
#include <ctype.h>
#include <assert.h>

#ifdef __cplusplus
extern "C" {
#endif
#define UA_EXPORT
#define UA_FALSE false
#define UA_TRUE true
#define UA_UINT16_MAX 65535
#define UA_UINT32_MAX 4294967295u
#define UA_SIZE_MAX SIZE_MAX
#define UA_MULTITHREADING 0
#define UA_OPEN62541_VER_MAJOR 1
#define UA_OPEN62541_VER_MINOR 4

typedef bool UA_Boolean;
typedef int8_t UA_SByte;
typedef uint8_t UA_Byte;
typedef int16_t UA_Int16;
typedef uint16_t UA_UInt16;
typedef int32_t UA_Int32;
typedef uint32_t UA_UInt32;
typedef int64_t UA_Int64;
typedef uint64_t UA_UInt64;
typedef float UA_Float;
typedef double UA_Double;
typedef uint32_t UA_StatusCode;
typedef int64_t UA_DateTime;
typedef double UA_Duration;

typedef struct { size_t length; UA_Byte *data; } UA_String;
typedef UA_String UA_ByteString;
typedef UA_String UA_XmlElement;
typedef struct { UA_UInt32 data1; UA_UInt16 data2; UA_UInt16 data3; UA_Byte data4[8]; } UA_Guid;

typedef struct UA_DateTimeStruct {
    UA_UInt16 nanoSec; UA_UInt16 microSec; UA_UInt16 milliSec; UA_UInt16 sec;
    UA_UInt16 min; UA_UInt16 hour; UA_UInt16 day; UA_UInt16 month; UA_Int16 year;
} UA_DateTimeStruct;

enum UA_NodeIdType {
    UA_NODEIDTYPE_NUMERIC = 0, UA_NODEIDTYPE_STRING = 3,
    UA_NODEIDTYPE_GUID = 4, UA_NODEIDTYPE_BYTESTRING = 5
};
typedef struct {
    UA_UInt16 namespaceIndex;
    enum UA_NodeIdType identifierType;
    union { UA_UInt32 numeric; UA_String string; UA_Guid guid; UA_ByteString byteString; } identifier;
} UA_NodeId;
extern const UA_NodeId UA_NODEID_NULL;
typedef struct { UA_NodeId nodeId; UA_String namespaceUri; UA_UInt32 serverIndex; } UA_ExpandedNodeId;
extern const UA_ExpandedNodeId UA_EXPANDEDNODEID_NULL;
typedef struct { UA_UInt16 namespaceIndex; UA_String name; } UA_QualifiedName;
typedef struct { UA_String locale; UA_String text; } UA_LocalizedText;

typedef enum { UA_ORDER_LESS = -1, UA_ORDER_EQ = 0, UA_ORDER_MORE = 1 } UA_Order;

struct UA_DataType; typedef struct UA_DataType UA_DataType;
typedef enum { UA_VARIANT_DATA, UA_VARIANT_DATA_NODELETE } UA_VariantStorageType;
typedef struct { const UA_DataType *type; UA_VariantStorageType storageType; size_t arrayLength; void *data;
    size_t arrayDimensionsSize; UA_UInt32 *arrayDimensions; } UA_Variant;
typedef enum { UA_EXTENSIONOBJECT_ENCODED_NOBODY = 0, UA_EXTENSIONOBJECT_ENCODED_BYTESTRING = 1, UA_EXTENSIONOBJECT_ENCODED_XML = 2,
    UA_EXTENSIONOBJECT_DECODED = 3, UA_EXTENSIONOBJECT_DECODED_NODELETE = 4 } UA_ExtensionObjectEncoding;
typedef struct { UA_ExtensionObjectEncoding encoding;
    union { struct { UA_NodeId typeId; UA_ByteString body; } encoded; struct { const UA_DataType *type; void *data; } decoded; } content;
} UA_ExtensionObject;
typedef struct { UA_Variant value; UA_DateTime sourceTimestamp; UA_DateTime serverTimestamp; UA_StatusCode status; UA_Boolean hasValue; } UA_DataValue;
typedef struct UA_DiagnosticInfo { UA_Boolean hasSymbolicId; UA_Int32 symbolicId; UA_String additionalInfo; struct UA_DiagnosticInfo *innerDiagnosticInfo; } UA_DiagnosticInfo;

typedef struct {
    const char *memberName;
    const UA_DataType *memberType;
    UA_Byte padding;
    UA_Boolean isArray;
    UA_Boolean isOptional;
} UA_DataTypeMember;
struct UA_DataType {
    const char *typeName;
    UA_NodeId typeId;
    UA_NodeId binaryEncodingId;
    UA_UInt16 memSize;
    UA_Byte typeKind;
    UA_Boolean pointerFree;
    UA_Boolean overlayable;
    UA_Byte membersSize;
    UA_DataTypeMember *members;
};
typedef struct UA_DataTypeArray {
    const struct UA_DataTypeArray *next;
    const size_t typesSize;
    const UA_DataType *types;
    UA_Boolean cleanup;
} UA_DataTypeArray;
typedef enum {
    UA_DATATYPEKIND_BOOLEAN = 0, UA_DATATYPEKIND_SBYTE, UA_DATATYPEKIND_BYTE, UA_DATATYPEKIND_INT16,
    UA_DATATYPEKIND_UINT16, UA_DATATYPEKIND_INT32, UA_DATATYPEKIND_UINT32, UA_DATATYPEKIND_INT64,
    UA_DATATYPEKIND_UINT64, UA_DATATYPEKIND_FLOAT, UA_DATATYPEKIND_DOUBLE, UA_DATATYPEKIND_STRING,
    UA_DATATYPEKIND_DATETIME, UA_DATATYPEKIND_GUID, UA_DATATYPEKIND_BYTESTRING, UA_DATATYPEKIND_XMLELEMENT,
    UA_DATATYPEKIND_NODEID, UA_DATATYPEKIND_EXPANDEDNODEID, UA_DATATYPEKIND_STATUSCODE,
    UA_DATATYPEKIND_QUALIFIEDNAME, UA_DATATYPEKIND_LOCALIZEDTEXT, UA_DATATYPEKIND_EXTENSIONOBJECT,
    UA_DATATYPEKIND_DATAVALUE, UA_DATATYPEKIND_VARIANT, UA_DATATYPEKIND_DIAGNOSTICINFO,
    UA_DATATYPEKIND_DECIMAL, UA_DATATYPEKIND_ENUM, UA_DATATYPEKIND_STRUCTURE, UA_DATATYPEKIND_OPTSTRUCT,
    UA_DATATYPEKIND_UNION, UA_DATATYPEKIND_BITFIELDCLUSTER
} UA_DataTypeKind;
#define UA_DATATYPEKINDS 31
#define UA_BINARY_OVERLAYABLE_INTEGER 1
#define UA_BINARY_OVERLAYABLE_FLOAT 1

#define UA_STATUSCODE_GOOD 0x00000000
#define UA_STATUSCODE_BAD 0x80000000
#define UA_STATUSCODE_BADUNEXPECTEDERROR 0x80010000
#define UA_STATUSCODE_BADINTERNALERROR 0x80020000
#define UA_STATUSCODE_BADOUTOFMEMORY 0x80030000
#define UA_STATUSCODE_BADNOTFOUND 0x803E0000
#define UA_STATUSCODE_BADINVALIDARGUMENT 0x80AB0000

extern const UA_String UA_STRING_NULL;
extern const UA_ByteString UA_BYTESTRING_NULL;

UA_String UA_String_fromChars(const char *src);
void UA_String_init(UA_String *p);
void UA_String_clear(UA_String *p);
void UA_String_delete(UA_String *p);
UA_StatusCode UA_String_copy(const UA_String *src, UA_String *dst);
bool UA_String_equal(const UA_String *a, const UA_String *b);
void UA_ByteString_init(UA_ByteString *p);
void UA_ByteString_clear(UA_ByteString *p);
UA_StatusCode UA_ByteString_copy(const UA_ByteString *src, UA_ByteString *dst);
UA_StatusCode UA_ByteString_allocBuffer(UA_ByteString *bs, size_t length);
static inline UA_String UA_STRING(char *chars) {
    UA_String s; s.length = 0; s.data = NULL;
    if(!chars) return s;
    s.length = strlen(chars); s.data = (UA_Byte*)chars; return s;
}
#define UA_STRING_ALLOC(CHARS) UA_String_fromChars(CHARS)
#define UA_BYTESTRING UA_STRING
static inline UA_LocalizedText UA_LOCALIZEDTEXT(char *locale, char *text) {
    UA_LocalizedText lt; lt.locale = UA_STRING(locale); lt.text = UA_STRING(text); return lt;
}
static inline UA_QualifiedName UA_QUALIFIEDNAME(UA_UInt16 nsIndex, char *chars) {
    UA_QualifiedName qn; qn.namespaceIndex = nsIndex; qn.name = UA_STRING(chars); return qn;
}
static inline UA_NodeId UA_NODEID_NUMERIC(UA_UInt16 nsIndex, UA_UInt32 identifier) {
    UA_NodeId id; memset(&id, 0, sizeof(UA_NodeId));
    id.namespaceIndex = nsIndex; id.identifierType = UA_NODEIDTYPE_NUMERIC;
    id.identifier.numeric = identifier; return id;
}
static inline UA_NodeId UA_NODEID_STRING(UA_UInt16 nsIndex, char *chars) {
    UA_NodeId id; memset(&id, 0, sizeof(UA_NodeId));
    id.namespaceIndex = nsIndex; id.identifierType = UA_NODEIDTYPE_STRING;
    id.identifier.string = UA_STRING(chars); return id;
}
static inline UA_NodeId UA_NODEID_STRING_ALLOC(UA_UInt16 nsIndex, const char *chars) {
    UA_NodeId id; memset(&id, 0, sizeof(UA_NodeId));
    id.namespaceIndex = nsIndex; id.identifierType = UA_NODEIDTYPE_STRING;
    id.identifier.string = UA_STRING_ALLOC(chars); return id;
}
static inline UA_ExpandedNodeId UA_EXPANDEDNODEID_NUMERIC(UA_UInt16 nsIndex, UA_UInt32 identifier) {
    UA_ExpandedNodeId id; memset(&id, 0, sizeof id);
    id.nodeId = UA_NODEID_NUMERIC(nsIndex, identifier); return id;
}
UA_NodeId UA_NODEID(const char *chars);
UA_Guid UA_GUID(const char *chars);
UA_StatusCode UA_Guid_parse(UA_Guid *guid, const UA_String str);
bool UA_Guid_equal(const UA_Guid *g1, const UA_Guid *g2);

void UA_NodeId_init(UA_NodeId *p);
UA_NodeId *UA_NodeId_new(void);
UA_StatusCode UA_NodeId_copy(const UA_NodeId *src, UA_NodeId *dst);
void UA_NodeId_clear(UA_NodeId *p);
void UA_NodeId_delete(UA_NodeId *p);
bool UA_NodeId_equal(const UA_NodeId *a, const UA_NodeId *b);
UA_Order UA_NodeId_order(const UA_NodeId *a, const UA_NodeId *b);
bool UA_NodeId_isNull(const UA_NodeId *p);
UA_UInt32 UA_NodeId_hash(const UA_NodeId *n);
UA_StatusCode UA_NodeId_print(const UA_NodeId *id, UA_String *output);
UA_StatusCode UA_NodeId_parse(UA_NodeId *id, const UA_String str);
void UA_ExpandedNodeId_init(UA_ExpandedNodeId *p);
void UA_ExpandedNodeId_clear(UA_ExpandedNodeId *p);
void UA_LocalizedText_init(UA_LocalizedText *p);
void UA_LocalizedText_clear(UA_LocalizedText *p);
UA_StatusCode UA_LocalizedText_copy(const UA_LocalizedText *src, UA_LocalizedText *dst);
void UA_QualifiedName_init(UA_QualifiedName *p);
void UA_QualifiedName_clear(UA_QualifiedName *p);
bool UA_QualifiedName_equal(const UA_QualifiedName *a, const UA_QualifiedName *b);
void UA_Variant_init(UA_Variant *p);
void UA_Variant_clear(UA_Variant *p);
UA_StatusCode UA_Variant_copy(const UA_Variant *src, UA_Variant *dst);
void UA_Variant_setScalar(UA_Variant *v, void *p, const UA_DataType *type);
void UA_Variant_setArray(UA_Variant *v, void *array, size_t arraySize, const UA_DataType *type);
UA_StatusCode UA_Variant_setScalarCopy(UA_Variant *v, const void *p, const UA_DataType *type);
UA_StatusCode UA_Variant_setArrayCopy(UA_Variant *v, const void *array, size_t arraySize, const UA_DataType *type);
UA_UInt32 *UA_UInt32_new(void);
UA_ByteString *UA_ByteString_new(void);
const UA_DataType *UA_findDataType(const UA_NodeId *typeId);
const UA_DataType *UA_findDataTypeWithCustom(const UA_NodeId *typeId, const UA_DataTypeArray *customTypes);
void *UA_new(const UA_DataType *type);
UA_StatusCode UA_copy(const void *src, void *dst, const UA_DataType *type);
void UA_clear(void *p, const UA_DataType *type);
void UA_delete(void *p, const UA_DataType *type);
void UA_init(void *p, const UA_DataType *type);
void *UA_Array_new(size_t size, const UA_DataType *type);
void UA_Array_delete(void *p, size_t size, const UA_DataType *type);
UA_StatusCode UA_Array_copy(const void *src, size_t size, void **dst, const UA_DataType *type);
UA_StatusCode UA_Array_append(void **p, size_t *size, void *newElem, const UA_DataType *type);
UA_StatusCode UA_Array_resize(void **p, size_t *size, size_t newSize, const UA_DataType *type);
UA_DateTime UA_DateTime_fromStruct(UA_DateTimeStruct ts);
UA_DateTimeStruct UA_DateTime_toStruct(UA_DateTime t);
UA_DateTime UA_DateTime_fromUnixTime(UA_Int64 unixDate);
UA_DateTime UA_DateTime_now(void);
bool UA_StatusCode_isBad(UA_StatusCode code);
bool UA_StatusCode_isGood(UA_StatusCode code);
const char *UA_StatusCode_name(UA_StatusCode code);
#define UA_malloc malloc
#define UA_free free
#define UA_calloc calloc
#define UA_realloc realloc
#define UA_assert assert
#ifdef __cplusplus
}
#endif
#endif

/* A small functional stand-in for an open62541 server, and a driver which loads
 * nodesets into it and prints everything the server is given.  Used by the
 * demonstrations only; the checks never run any code of the loader.
 * options before the files:
 *   -fail ID N      the server refuses the node N times
 *   -strict         the server refuses nodes whose parent it does not know
 *   -type P C       the server knows the data type C, a subtype of P
 *   -reftype P C    the server knows the reference type C, a subtype of P
 *   -ext            with an extension interface
 *   -quiet          standard log messages are not printed
 *   -order          calls are printed in their order, not sorted */
#include <open62541/server.h>
#include <NodesetLoader/backendOpen62541.h>
#include <stdarg.h>
const struct UA_DataType *NodesetLoader_getCustomDataType(struct UA_Server *server, const UA_NodeId *typeId);
void NodesetLoader_cleanupCustomDataTypes(const UA_DataTypeArray *customTypes);

typedef struct { UA_NodeId parent, ref, id; int cls; } Known;
struct UA_Server { UA_ServerConfig config; Known known[3000]; int n; char *ns[50]; int nsN; struct { UA_NodeId id; int left; } fail[10]; int failN; bool strict; };
static char *lines[20000]; static int lineN; static bool order, quiet;
static char cur[20000];
static void put(const char *f, ...) { va_list v; va_start(v, f); size_t l = strlen(cur); vsnprintf(cur + l, sizeof cur - l, f, v); va_end(v); }
static void done(void) { if(order) printf("%s\n", cur); else lines[lineN++] = strdup(cur); cur[0] = 0; }
static int cmp(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static void flush(void) { qsort(lines, lineN, sizeof *lines, cmp); for(int k = 0; k < lineN; k++) { printf("%s\n", lines[k]); free(lines[k]); } lineN = 0; }
static void str(UA_String s) { if(!s.data && !s.length) put("-"); else put("'%.*s'", (int)s.length, (char *)s.data); }
static void pid(const UA_NodeId *id) { UA_String s = {0}; UA_NodeId_print(id, &s); put("%.*s", (int)s.length, (char *)s.data); UA_String_clear(&s); }
static void lt(UA_LocalizedText t) { str(t.locale); put(":"); str(t.text); }

/* ------------------------------------------------------------------ types */
UA_DataType UA_TYPES[400];
static UA_DataTypeMember mem[60]; static int memN;
static int align(const UA_DataType *t) {
    int a = 1;
    if(t->membersSize) { for(int k = 0; k < t->membersSize; k++) { int b = t->members[k].isArray ? 8 : align(t->members[k].memberType); if(b > a) a = b; } return a; }
    if(t->memSize < 8) return t->memSize; return t->typeKind == UA_DATATYPEKIND_GUID ? 4 : 8;
}
static void std(int k, const char *name, unsigned id, int kind, size_t size) {
    UA_DataType *t = &UA_TYPES[k];
    t->typeName = name; t->typeId = UA_NODEID_NUMERIC(0, id); t->typeKind = (UA_Byte)kind; t->memSize = (UA_UInt16)size;
    t->pointerFree = kind <= UA_DATATYPEKIND_DOUBLE || kind == UA_DATATYPEKIND_DATETIME || kind == UA_DATATYPEKIND_GUID || kind == UA_DATATYPEKIND_STATUSCODE || kind == UA_DATATYPEKIND_ENUM;
}
static int nTypes = 25;
static void member(const char *n, int type, int arr) {
    UA_DataType *t = &UA_TYPES[nTypes]; const UA_DataType *m = &UA_TYPES[type];
    int a = arr ? 8 : align(m), p = -t->memSize & (a - 1);
    UA_DataTypeMember x = {n, m, (UA_Byte)p, arr, 0}; if(!t->members) t->members = mem + memN; mem[memN++] = x; t->membersSize++;
    t->memSize = (UA_UInt16)(t->memSize + p + (arr ? 16 : m->memSize));
}
static void close_(void) { UA_DataType *t = &UA_TYPES[nTypes++]; t->memSize = (UA_UInt16)(t->memSize + (-t->memSize & (align(t) - 1))); }
__attribute__((constructor)) static void init(void) {
    static const char *n[] = {"Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "String", "DateTime", "Guid", "ByteString", "XmlElement", "NodeId", "ExpandedNodeId", "StatusCode", "QualifiedName", "LocalizedText", "ExtensionObject", "DataValue", "Variant", "DiagnosticInfo"};
    static const int s[] = {1, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 16, 8, 16, 16, 16, 24, sizeof(UA_ExpandedNodeId), 4, 24, 32, sizeof(UA_ExtensionObject), sizeof(UA_DataValue), sizeof(UA_Variant), sizeof(UA_DiagnosticInfo)};
    for(int k = 0; k < 25; k++) std(k, n[k], k + 1, k, s[k]);
    std(nTypes++, "Duration", 290, UA_DATATYPEKIND_DOUBLE, 8); std(nTypes++, "UtcTime", 294, UA_DATATYPEKIND_DATETIME, 8); std(nTypes++, "LocaleId", 295, UA_DATATYPEKIND_STRING, 16);
    std(nTypes++, "ServerState", 852, UA_DATATYPEKIND_ENUM, 4);
    std(nTypes, "Range", 884, UA_DATATYPEKIND_STRUCTURE, 0); UA_TYPES[nTypes].binaryEncodingId = UA_NODEID_NUMERIC(0, 886); UA_TYPES[nTypes].pointerFree = 1; member("Low", 10, 0); member("High", 10, 0); close_();
    std(nTypes, "EUInformation", 887, UA_DATATYPEKIND_STRUCTURE, 0); member("NamespaceUri", 11, 0); member("UnitId", 5, 0); member("DisplayName", 20, 0); member("Description", 20, 0); close_();
    std(nTypes, "Argument", 296, UA_DATATYPEKIND_STRUCTURE, 0); member("Name", 11, 0); member("DataType", 16, 0); member("ValueRank", 5, 0); member("ArrayDimensions", 6, 1); member("Description", 20, 0); close_();
    std(nTypes, "OptionSet", 12755, UA_DATATYPEKIND_STRUCTURE, 0); member("Value", 14, 0); member("ValidBits", 14, 0); close_();
}
const UA_DataType *UA_findDataType(const UA_NodeId *id) { for(int k = 0; k < nTypes; k++) if(UA_NodeId_equal(id, &UA_TYPES[k].typeId)) return &UA_TYPES[k]; return NULL; }
static void clear(char *p, const UA_DataType *t);
static void clearArray(char *d, size_t n, const UA_DataType *t) { for(size_t k = 0; k < n; k++) clear(d + k * t->memSize, t); free(d); }
static void clear(char *p, const UA_DataType *t) {
    switch(t->typeKind) {
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_BYTESTRING: free(((UA_String *)p)->data); break;
    case UA_DATATYPEKIND_NODEID: UA_NodeId_clear((UA_NodeId *)p); break;
    case UA_DATATYPEKIND_QUALIFIEDNAME: free(((UA_QualifiedName *)p)->name.data); break;
    case UA_DATATYPEKIND_LOCALIZEDTEXT: free(((UA_LocalizedText *)p)->locale.data); free(((UA_LocalizedText *)p)->text.data); break;
    case UA_DATATYPEKIND_STRUCTURE: for(int k = 0; k < t->membersSize; k++) { UA_DataTypeMember *m = &t->members[k]; p += m->padding; if(m->isArray) { clearArray(*(char **)(p + 8), *(size_t *)p, m->memberType); p += 16; } else { clear(p, m->memberType); p += m->memberType->memSize; } } break;
    case UA_DATATYPEKIND_UNION: { UA_UInt32 s = *(UA_UInt32 *)p; if(s && s <= t->membersSize) { UA_DataTypeMember *m = &t->members[s - 1]; p += m->padding; if(m->isArray) clearArray(*(char **)(p + 8), *(size_t *)p, m->memberType); else clear(p, m->memberType); } break; }
    }
}
static void val(char *p, const UA_DataType *t);
static void arr(char *d, size_t n, const UA_DataType *t) { put("["); for(size_t k = 0; k < n; k++) { if(k) put(" "); val(d + k * t->memSize, t); } put("]"); }
static void val(char *p, const UA_DataType *t) {
    switch(t->typeKind) {
    case UA_DATATYPEKIND_BOOLEAN: put("%s", *(bool *)p ? "true" : "false"); break;
    case UA_DATATYPEKIND_SBYTE: put("%d", *(int8_t *)p); break;
    case UA_DATATYPEKIND_BYTE: put("%d", *(uint8_t *)p); break;
    case UA_DATATYPEKIND_INT16: put("%d", *(int16_t *)p); break;
    case UA_DATATYPEKIND_UINT16: put("%d", *(uint16_t *)p); break;
    case UA_DATATYPEKIND_INT32: case UA_DATATYPEKIND_ENUM: put("%d", *(int32_t *)p); break;
    case UA_DATATYPEKIND_UINT32: case UA_DATATYPEKIND_STATUSCODE: put("%u", *(uint32_t *)p); break;
    case UA_DATATYPEKIND_INT64: case UA_DATATYPEKIND_DATETIME: put("%lld", (long long)*(int64_t *)p); break;
    case UA_DATATYPEKIND_UINT64: put("%llu", (unsigned long long)*(uint64_t *)p); break;
    case UA_DATATYPEKIND_FLOAT: put("%g", *(float *)p); break;
    case UA_DATATYPEKIND_DOUBLE: put("%g", *(double *)p); break;
    case UA_DATATYPEKIND_STRING: str(*(UA_String *)p); break;
    case UA_DATATYPEKIND_BYTESTRING: put("x"); for(size_t k = 0; k < ((UA_String *)p)->length; k++) put("%02x", ((UA_String *)p)->data[k]); break;
    case UA_DATATYPEKIND_GUID: { UA_Guid *g = (UA_Guid *)p; put("%08x-%04x-%04x-", g->data1, g->data2, g->data3); for(int k = 0; k < 8; k++) put("%02x", g->data4[k]); break; }
    case UA_DATATYPEKIND_NODEID: pid((UA_NodeId *)p); break;
    case UA_DATATYPEKIND_QUALIFIEDNAME: put("%d:", ((UA_QualifiedName *)p)->namespaceIndex); str(((UA_QualifiedName *)p)->name); break;
    case UA_DATATYPEKIND_LOCALIZEDTEXT: lt(*(UA_LocalizedText *)p); break;
    case UA_DATATYPEKIND_STRUCTURE: put("{"); for(int k = 0; k < t->membersSize; k++) { UA_DataTypeMember *m = &t->members[k]; p += m->padding; put(" %s=", m->memberName); if(m->isArray) { arr(*(char **)(p + 8), *(size_t *)p, m->memberType); p += 16; } else { val(p, m->memberType); p += m->memberType->memSize; } } put(" }"); break;
    case UA_DATATYPEKIND_UNION: { UA_UInt32 s = *(UA_UInt32 *)p; put("<%u", s); if(s && s <= t->membersSize) { UA_DataTypeMember *m = &t->members[s - 1]; p += m->padding; put(" %s=", m->memberName); if(m->isArray) arr(*(char **)(p + 8), *(size_t *)p, m->memberType); else val(p, m->memberType); } put(">"); break; }
    default: put("?%d", t->typeKind);
    }
}
void UA_Variant_setScalar(UA_Variant *v, void *p, const UA_DataType *t) { memset(v, 0, sizeof *v); v->type = t; v->data = p; }
void UA_Variant_setArray(UA_Variant *v, void *p, size_t n, const UA_DataType *t) { memset(v, 0, sizeof *v); v->type = t; v->data = p; v->arrayLength = n; if(!p) v->data = (void *)1; }
void UA_Variant_init(UA_Variant *v) { memset(v, 0, sizeof *v); }
void UA_Variant_clear(UA_Variant *v) {
    if(v->type && (uintptr_t)v->data > 1 && v->storageType == UA_VARIANT_DATA) { if(v->arrayLength) clearArray((char *)v->data, v->arrayLength, v->type); else { clear((char *)v->data, v->type); free(v->data); } }
    memset(v, 0, sizeof *v);
}
static void variant(const UA_Variant *v) {
    if(!v->type) { put(" value none"); return; }
    put(" value %s ", v->type->typeName); if(v->arrayLength || v->data == (void *)1) arr((char *)v->data, v->arrayLength, v->type); else if(v->data) val((char *)v->data, v->type); else put("NULL");
}
UA_UInt32 *UA_UInt32_new(void) { return (UA_UInt32 *)calloc(1, 4); }
UA_DateTime UA_DateTime_fromStruct(UA_DateTimeStruct t) { return ((((t.year * 100LL + t.month) * 100 + t.day) * 100 + t.hour) * 100 + t.min) * 100 + t.sec; }
UA_Guid UA_GUID(const char *c) { UA_Guid g = {0}; unsigned a, b, d, e[8]; if(c && sscanf(c, "%8x-%4x-%4x-%2x%2x-%2x%2x%2x%2x%2x%2x", &a, &b, &d, e, e + 1, e + 2, e + 3, e + 4, e + 5, e + 6, e + 7) == 11) { g.data1 = a; g.data2 = (UA_UInt16)b; g.data3 = (UA_UInt16)d; for(int k = 0; k < 8; k++) g.data4[k] = (UA_Byte)e[k]; } return g; }
const UA_ObjectAttributes UA_ObjectAttributes_default; const UA_MethodAttributes UA_MethodAttributes_default = {0, {{0}}, {{0}}, 0, 0, true, true};
const UA_VariableAttributes UA_VariableAttributes_default = {.valueRank = -2, .accessLevel = 1}; const UA_ObjectTypeAttributes UA_ObjectTypeAttributes_default;
const UA_VariableTypeAttributes UA_VariableTypeAttributes_default = {.valueRank = -2}; const UA_ReferenceTypeAttributes UA_ReferenceTypeAttributes_default;
const UA_DataTypeAttributes UA_DataTypeAttributes_default; const UA_ViewAttributes UA_ViewAttributes_default;

/* ----------------------------------------------------------------- server */
UA_ServerConfig *UA_Server_getConfig(UA_Server *s) { return &s->config; }
UA_UInt16 UA_Server_addNamespace(UA_Server *s, const char *n) { if(!n) n = ""; if(!strcmp(n, "http://opcfoundation.org/UA/")) return 0; for(int k = 0; k < s->nsN; k++) if(!strcmp(s->ns[k], n)) return (UA_UInt16)(k + 2); s->ns[s->nsN++] = strdup(n); return (UA_UInt16)(s->nsN + 1); }
void UA_BrowseDescription_init(UA_BrowseDescription *p) { memset(p, 0, sizeof *p); }
void UA_BrowseResult_clear(UA_BrowseResult *p) { for(size_t k = 0; k < p->referencesSize; k++) UA_NodeId_clear(&p->references[k].nodeId.nodeId); free(p->references); memset(p, 0, sizeof *p); }
UA_BrowseResult UA_Server_browse(UA_Server *s, UA_UInt32 max, const UA_BrowseDescription *d) {
    UA_BrowseResult r; memset(&r, 0, sizeof r); r.references = (UA_ReferenceDescription *)calloc(s->n, sizeof *r.references);
    for(int k = 0; k < s->n; k++) {
        Known *x = &s->known[k]; bool fw = d->browseDirection == UA_BROWSEDIRECTION_FORWARD;
        if(!UA_NodeId_equal(fw ? &x->parent : &x->id, &d->nodeId) || (d->nodeClassMask && !(d->nodeClassMask & x->cls)) || (max && r.referencesSize >= max)) continue;
        if(!UA_NodeId_isNull(&d->referenceTypeId) && !UA_NodeId_equal(&d->referenceTypeId, &x->ref)) continue;
        UA_NodeId_copy(fw ? &x->id : &x->parent, &r.references[r.referencesSize].nodeId.nodeId); r.references[r.referencesSize].nodeClass = (UA_NodeClass)x->cls; r.references[r.referencesSize++].isForward = fw;
    }
    return r;
}
static void know(UA_Server *s, const UA_NodeId *p, const UA_NodeId *r, const UA_NodeId *i, int c) { Known *x = &s->known[s->n++]; UA_NodeId_copy(p, &x->parent); UA_NodeId_copy(r, &x->ref); UA_NodeId_copy(i, &x->id); x->cls = c; }
static UA_StatusCode add(UA_Server *s, int cls, UA_NodeId id, UA_NodeId p, UA_NodeId r, UA_QualifiedName bn, const UA_NodeId *td, const void *at, void *ctx) {
    const UA_ObjectAttributes *c = (const UA_ObjectAttributes *)at; bool bad = s->strict;
    put("add %d ", cls); pid(&id); put(" parent "); pid(&p); put(" by "); pid(&r); put(" %d:", bn.namespaceIndex); str(bn.name); if(td) { put(" type "); pid(td); }
    put(" "); lt(c->displayName); put(" "); lt(c->description); if(ctx) put(" ctx %s", (char *)ctx);
    UA_UInt32 *ad = NULL; size_t an = 0;
    switch(cls) {
    case 1: put(" ev %d", c->eventNotifier); break;
    case 2: { const UA_VariableAttributes *v = (const UA_VariableAttributes *)at; put(" dt "); pid(&v->dataType); put(" vr %d al %d ul %d ms %g hi %d", v->valueRank, v->accessLevel, v->userAccessLevel, v->minimumSamplingInterval, v->historizing); variant(&v->value); ad = v->arrayDimensions; an = v->arrayDimensionsSize; break; }
    case 4: { const UA_MethodAttributes *v = (const UA_MethodAttributes *)at; put(" ex %d ux %d", v->executable, v->userExecutable); break; }
    case 8: put(" ab %d", ((const UA_ObjectTypeAttributes *)at)->isAbstract); break;
    case 16: { const UA_VariableTypeAttributes *v = (const UA_VariableTypeAttributes *)at; put(" dt "); pid(&v->dataType); put(" vr %d ab %d", v->valueRank, v->isAbstract); ad = v->arrayDimensions; an = v->arrayDimensionsSize; break; }
    case 32: { const UA_ReferenceTypeAttributes *v = (const UA_ReferenceTypeAttributes *)at; put(" sy %d ", v->symmetric); lt(v->inverseName); break; }
    case 64: put(" ab %d", ((const UA_DataTypeAttributes *)at)->isAbstract); break;
    case 128: put(" nl %d ev %d", ((const UA_ViewAttributes *)at)->containsNoLoops, ((const UA_ViewAttributes *)at)->eventNotifier); break;
    }
    if(cls == 2 || cls == 16) { put(" dims"); for(size_t k = 0; k < an; k++) put(" %u", ad[k]); }
    for(int k = 0; k < s->n; k++) if(s->strict && UA_NodeId_equal(&p, &s->known[k].id)) bad = false;
    for(int k = 0; k < s->failN; k++) if(UA_NodeId_equal(&id, &s->fail[k].id) && s->fail[k].left-- > 0) bad = true;
    if(bad) put(" REFUSED"); else know(s, &p, &r, &id, cls);
    done(); return bad ? UA_STATUSCODE_BAD : UA_STATUSCODE_GOOD;
}
UA_StatusCode UA_Server_addNode_begin(UA_Server *s, const UA_NodeClass c, const UA_NodeId id, const UA_NodeId p, const UA_NodeId r, const UA_QualifiedName bn, const UA_NodeId td, const void *at, const UA_DataType *t, void *ctx, UA_NodeId *out) { return add(s, c, id, p, r, bn, &td, at, ctx); }
#define ADD(N, A, C) UA_StatusCode N(UA_Server *s, const UA_NodeId id, const UA_NodeId p, const UA_NodeId r, const UA_QualifiedName bn, const A at, void *ctx, UA_NodeId *out) { return add(s, C, id, p, r, bn, NULL, &at, ctx); }
#define ADDT(N, A, C) UA_StatusCode N(UA_Server *s, const UA_NodeId id, const UA_NodeId p, const UA_NodeId r, const UA_QualifiedName bn, const UA_NodeId td, const A at, void *ctx, UA_NodeId *out) { return add(s, C, id, p, r, bn, &td, &at, ctx); }
ADD(UA_Server_addViewNode, UA_ViewAttributes, 128) ADD(UA_Server_addObjectTypeNode, UA_ObjectTypeAttributes, 8) ADD(UA_Server_addReferenceTypeNode, UA_ReferenceTypeAttributes, 32) ADD(UA_Server_addDataTypeNode, UA_DataTypeAttributes, 64)
ADDT(UA_Server_addVariableTypeNode, UA_VariableTypeAttributes, 16) ADDT(UA_Server_addVariableNode, UA_VariableAttributes, 2) ADDT(UA_Server_addObjectNode, UA_ObjectAttributes, 1)
UA_StatusCode UA_Server_addMethodNode(UA_Server *s, const UA_NodeId id, const UA_NodeId p, const UA_NodeId r, const UA_QualifiedName bn, const UA_MethodAttributes at, UA_MethodCallback m, size_t i, const UA_Argument *ia, size_t o, const UA_Argument *oa, void *ctx, UA_NodeId *out) { return add(s, 4, id, p, r, bn, NULL, &at, ctx); }
UA_StatusCode UA_Server_addNode_finish(UA_Server *s, const UA_NodeId id) { put("finish "); pid(&id); done(); return 0; }
UA_StatusCode UA_Server_addReference(UA_Server *s, const UA_NodeId a, const UA_NodeId t, const UA_ExpandedNodeId b, UA_Boolean fw) {
    put("ref "); pid(&a); put(fw ? " -> " : " <- "); pid(&t); put(" "); pid(&b.nodeId); done();
    /* only subtypes matter when browsing */
    return 0;
}
static void ualog(void *c, UA_LogLevel l, UA_LogCategory k, const char *m, va_list v) { if(!quiet) { put("log %d ", (int)l); size_t n = strlen(cur); vsnprintf(cur + n, sizeof cur - n, m, v); done(); } }
static void *xNew(void) { put("extension"); done(); return "x"; }
static void xStart(void *d, const char *n, int k, const char **a) { put("start %s", n); done(); }
static void xEnd(void *d, const char *n, const char *v) { put("end %s %s", n, v ? v : "-"); done(); }
static void xFinish(void *d) { put("finished"); done(); }
static void types(UA_Server *s) {
    int k = 0;
    for(const UA_DataTypeArray *a = s->config.customDataTypes; a; a = a->next) for(size_t j = 0; j < a->typesSize; j++, k++) {
        const UA_DataType *t = &a->types[j];
        put("type %s ", t->typeName); pid(&t->typeId); put(" enc "); pid(&t->binaryEncodingId); put(" kind %d size %d pf %d", t->typeKind, t->memSize, t->pointerFree);
        for(int i = 0; i < t->membersSize; i++) { UA_DataTypeMember *m = &t->members[i]; put(" | %s %s +%d%s%s", m->memberName, m->memberType ? m->memberType->typeName : "NULL", m->padding, m->isArray ? " array" : "", m->isOptional ? " optional" : ""); }
        if(NodesetLoader_getCustomDataType(s, &t->typeId) != t) put(" NOT FOUND"); done();
    }
}
int main(int argc, char **argv) {
    static UA_Server S; UA_Server *s = &S; bool ext = false, old; UA_Logger L = {ualog, NULL, NULL}; s->config.logging = &L;
    static const int rt[][2] = {{31, 32}, {31, 33}, {33, 34}, {33, 35}, {33, 36}, {34, 44}, {34, 45}, {44, 46}, {44, 47}, {44, 56}, {47, 49}, {32, 37}, {32, 38}, {32, 39}, {32, 40}, {32, 41}, {41, 3065}, {35, 14476}};
    static const int dt[][2] = {{24, 1}, {24, 12}, {24, 13}, {24, 14}, {24, 15}, {24, 17}, {24, 19}, {24, 20}, {24, 21}, {24, 22}, {24, 26}, {24, 29}, {26, 10}, {26, 11}, {26, 27}, {26, 28}, {27, 2}, {27, 4}, {27, 6}, {27, 8}, {28, 3}, {28, 5}, {28, 7}, {28, 9}, {22, 12755}, {22, 12756}, {22, 884}, {22, 887}, {22, 296}, {29, 852}, {11, 290}, {13, 294}, {12, 295}};
    UA_NodeId sub = UA_NODEID_NUMERIC(0, 45), org = UA_NODEID_NUMERIC(0, 35);
    for(size_t k = 0; k < sizeof rt / sizeof *rt; k++) { UA_NodeId a = UA_NODEID_NUMERIC(0, rt[k][0]), b = UA_NODEID_NUMERIC(0, rt[k][1]); know(s, &a, &sub, &b, 32); }
    for(size_t k = 0; k < sizeof dt / sizeof *dt; k++) { UA_NodeId a = UA_NODEID_NUMERIC(0, dt[k][0]), b = UA_NODEID_NUMERIC(0, dt[k][1]); know(s, &a, &sub, &b, 64); }
    for(int k = 58; k < 90; k++) { UA_NodeId a = UA_NODEID_NUMERIC(0, 84), b = UA_NODEID_NUMERIC(0, k); know(s, &a, &org, &b, 1); }
    for(int k = 1; k < argc; k++) {
        char *a = argv[k];
        if(!strcmp(a, "-fail")) { s->fail[s->failN].id = UA_NODEID(argv[++k]); s->fail[s->failN++].left = atoi(argv[++k]); }
        else if(!strcmp(a, "-strict")) s->strict = true;
        else if(!strcmp(a, "-type") || !strcmp(a, "-reftype")) { UA_NodeId x = UA_NODEID(argv[++k]), y = UA_NODEID(argv[++k]); know(s, &x, &sub, &y, a[1] == 't' ? 64 : 32); UA_NodeId_clear(&x); UA_NodeId_clear(&y); }
        else if(!strcmp(a, "-ext")) ext = true;
        else if(!strcmp(a, "-quiet")) quiet = true;
        else if(!strcmp(a, "-order")) order = true;
        else if(!strcmp(a, "-null")) { NodesetLoader_ExtensionInterface X = {0}; printf("without a server %d\n", NodesetLoader_loadFile(NULL, "x", NULL)); printf("without a path %d\n", NodesetLoader_loadFile(s, NULL, NULL)); }
        else { NodesetLoader_ExtensionInterface X = {0, xNew, xStart, xEnd, xFinish}; bool ok = NodesetLoader_loadFile(s, a, ext ? &X : NULL); flush(); printf("loaded %d\n", ok); }
    }
    old = order; order = true; types(s); order = old;
    NodesetLoader_cleanupCustomDataTypes(s->config.customDataTypes);
    for(int k = 0; k < s->n; k++) { UA_NodeId_clear(&s->known[k].parent); UA_NodeId_clear(&s->known[k].ref); UA_NodeId_clear(&s->known[k].id); }
    for(int k = 0; k < s->nsN; k++) free(s->ns[k]);
    for(int k = 0; k < s->failN; k++) UA_NodeId_clear(&s->fail[k].id);
    return 0;
}

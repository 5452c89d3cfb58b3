/* Small functional stand-in for the parts of the open62541 type library the
 * loader core calls.  Used by the demonstrations only; the checks never run
 * any code of the loader. */
#include <open62541/types.h>
#include <open62541/types_generated.h>
#include <open62541/server.h>

const UA_NodeId UA_NODEID_NULL = {0, UA_NODEIDTYPE_NUMERIC, {0}};
const UA_ExpandedNodeId UA_EXPANDEDNODEID_NULL;
const UA_String UA_STRING_NULL = {0, NULL};
const UA_ByteString UA_BYTESTRING_NULL = {0, NULL};

void UA_String_init(UA_String *p) { memset(p, 0, sizeof *p); }
void UA_String_clear(UA_String *p) { free(p->data); memset(p, 0, sizeof *p); }
UA_String UA_String_fromChars(const char *s) {
    UA_String r = {0, NULL};
    if(!s) return r;
    r.length = strlen(s);
    r.data = (UA_Byte *)malloc(r.length + 1);
    memcpy(r.data, s, r.length + 1);
    return r;
}
UA_StatusCode UA_String_copy(const UA_String *s, UA_String *d) {
    d->length = s->length;
    d->data = NULL;
    if(s->length || s->data) {
        d->data = (UA_Byte *)malloc(s->length + 1);
        memcpy(d->data, s->data, s->length);
    }
    return UA_STATUSCODE_GOOD;
}
bool UA_String_equal(const UA_String *a, const UA_String *b) {
    return a->length == b->length && (!a->length || !memcmp(a->data, b->data, a->length));
}
void UA_ByteString_init(UA_ByteString *p) { UA_String_init(p); }
void UA_ByteString_clear(UA_ByteString *p) { UA_String_clear(p); }
UA_StatusCode UA_ByteString_copy(const UA_ByteString *s, UA_ByteString *d) { return UA_String_copy(s, d); }
bool UA_StatusCode_isBad(UA_StatusCode c) { return (c >> 30) >= 2; }
bool UA_StatusCode_isGood(UA_StatusCode c) { return (c >> 30) == 0; }
const char *UA_StatusCode_name(UA_StatusCode c) { return c ? "Bad" : "Good"; }

void UA_NodeId_init(UA_NodeId *p) { memset(p, 0, sizeof *p); }
UA_NodeId *UA_NodeId_new(void) { return (UA_NodeId *)calloc(1, sizeof(UA_NodeId)); }
static bool dyn(const UA_NodeId *p) {
    return p->identifierType == UA_NODEIDTYPE_STRING || p->identifierType == UA_NODEIDTYPE_BYTESTRING;
}
void UA_NodeId_clear(UA_NodeId *p) {
    if(dyn(p)) free(p->identifier.string.data);
    memset(p, 0, sizeof *p);
}
void UA_NodeId_delete(UA_NodeId *p) { UA_NodeId_clear(p); free(p); }
UA_StatusCode UA_NodeId_copy(const UA_NodeId *s, UA_NodeId *d) {
    *d = *s;
    if(dyn(s)) return UA_String_copy(&s->identifier.string, &d->identifier.string);
    return UA_STATUSCODE_GOOD;
}
UA_Order UA_NodeId_order(const UA_NodeId *a, const UA_NodeId *b) {
    if(a->namespaceIndex != b->namespaceIndex) return a->namespaceIndex < b->namespaceIndex ? UA_ORDER_LESS : UA_ORDER_MORE;
    if(a->identifierType != b->identifierType) return a->identifierType < b->identifierType ? UA_ORDER_LESS : UA_ORDER_MORE;
    if(dyn(a)) {
        if(a->identifier.string.length != b->identifier.string.length)
            return a->identifier.string.length < b->identifier.string.length ? UA_ORDER_LESS : UA_ORDER_MORE;
        int c = a->identifier.string.length ? memcmp(a->identifier.string.data, b->identifier.string.data, a->identifier.string.length) : 0;
        return c == 0 ? UA_ORDER_EQ : c < 0 ? UA_ORDER_LESS : UA_ORDER_MORE;
    }
    if(a->identifierType == UA_NODEIDTYPE_GUID) {
        int c = memcmp(&a->identifier.guid, &b->identifier.guid, sizeof(UA_Guid));
        return c == 0 ? UA_ORDER_EQ : c < 0 ? UA_ORDER_LESS : UA_ORDER_MORE;
    }
    if(a->identifier.numeric == b->identifier.numeric) return UA_ORDER_EQ;
    return a->identifier.numeric < b->identifier.numeric ? UA_ORDER_LESS : UA_ORDER_MORE;
}
bool UA_NodeId_equal(const UA_NodeId *a, const UA_NodeId *b) { return UA_NodeId_order(a, b) == UA_ORDER_EQ; }
bool UA_NodeId_isNull(const UA_NodeId *p) {
    if(p->namespaceIndex) return false;
    if(dyn(p)) return p->identifier.string.length == 0;
    return p->identifier.numeric == 0;
}
UA_UInt32 UA_NodeId_hash(const UA_NodeId *n) { return n->identifier.numeric + n->namespaceIndex; }
UA_StatusCode UA_NodeId_print(const UA_NodeId *id, UA_String *out) {
    char buf[512];
    if(dyn(id)) snprintf(buf, sizeof buf, "ns=%u;s=%.*s", id->namespaceIndex, (int)id->identifier.string.length, (char *)id->identifier.string.data);
    else snprintf(buf, sizeof buf, "ns=%u;i=%u", id->namespaceIndex, id->identifier.numeric);
    *out = UA_String_fromChars(buf);
    return UA_STATUSCODE_GOOD;
}
UA_StatusCode UA_NodeId_parse(UA_NodeId *id, const UA_String str) {
    memset(id, 0, sizeof *id);
    char *buf = (char *)malloc(str.length + 1);
    if(str.length) memcpy(buf, str.data, str.length);
    buf[str.length] = 0;
    char *p = buf;
    unsigned ns = 0;
    UA_StatusCode r = UA_STATUSCODE_BADINTERNALERROR;
    if(!strncmp(p, "ns=", 3)) {
        ns = (unsigned)strtoul(p + 3, &p, 10);
        if(*p != ';') goto out;
        p++;
    }
    if(p[0] && p[1] == '=') {
        if(p[0] == 'i') {
            char *e;
            unsigned long v = strtoul(p + 2, &e, 10);
            if(e == p + 2 || *e) goto out;
            id->identifier.numeric = (UA_UInt32)v;
        } else if(p[0] == 's') {
            id->identifierType = UA_NODEIDTYPE_STRING;
            id->identifier.string = UA_String_fromChars(p + 2);
        } else goto out;
        id->namespaceIndex = (UA_UInt16)ns;
        r = UA_STATUSCODE_GOOD;
    }
out:
    free(buf);
    return r;
}
UA_NodeId UA_NODEID(const char *chars) {
    UA_NodeId id;
    UA_NodeId_parse(&id, UA_STRING((char *)(size_t)chars));
    return id;
}

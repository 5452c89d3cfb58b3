/* Prints everything a user of the loader can observe.
 * usage: probe [-x] [-s] file...   -x: with extension interface, -s: sort after every file */
#include <NodesetLoader/NodesetLoader.h>
#include <stdarg.h>
static unsigned short nextIdx = 10;
static unsigned short addNs(void *c, const char *uri) { printf("ns %s %s\n", (char *)c, uri ? uri : "(null)"); return nextIdx++; }
static void lg(void *c, enum NodesetLoader_LogLevel l, const char *m, ...) { va_list v; va_start(v, m); printf("log %s %d ", (char *)c, l); vprintf(m, v); printf("\n"); va_end(v); }
static const char *s_(const char *s) { return s ? s : "(null)"; }
static void pid(const char *n, const UA_NodeId *id) { UA_String s = {0}; UA_NodeId_print(id, &s); printf(" %s=%.*s", n, (int)s.length, (char*)s.data); UA_String_clear(&s); }
static void data(NL_Data *d, int k, NL_Data *parent) {
    if(!d) return;
    printf("%*s%s%s", k, "", s_(d->name), d->parent == parent ? "" : " WRONGPARENT");
    if(d->type == DATATYPE_PRIMITIVE) printf("='%s'\n", s_(d->val.primitiveData.value));
    else { printf(" {\n"); for(size_t i=0;i<d->val.complexData.membersSize;i++) data(d->val.complexData.members[i], k+2, d); printf("%*s}\n", k, ""); } }
static void refs(const char *n, NL_Reference *r) { for(; r; r = r->next) { printf("  %s %s", n, r->isForward ? "fwd" : "inv"); pid("type", &r->refType); pid("target", &r->target); printf("\n"); } }
static void lt(const char *n, NL_LocalizedText t) { printf(" %s=%s/%s", n, s_(t.locale), s_(t.text)); }
static void dump(void *c, NL_Node *n) {
    printf("[%s] %s", (char *)c, NL_NODECLASS_NAME[n->nodeClass]); pid("id", &n->id); printf(" bn=%d:%s", n->browseName.nsIdx, s_(n->browseName.name));
    lt("dn", n->displayName); lt("desc", n->description); printf(" inst=%d\n", NodesetLoader_isInstanceNode(n));
    refs("h", n->hierachicalRefs); refs("n", n->nonHierachicalRefs); refs("u", n->unknownRefs);
    if(NodesetLoader_isInstanceNode(n)) { pid(" parent", &((NL_InstanceNode*)n)->parentNodeId); printf("\n"); }
    switch(n->nodeClass) {
    case NODECLASS_VARIABLE: { NL_VariableNode *v = (NL_VariableNode*)n; pid(" datatype", &v->datatype); printf(" rank=%s dims=%s al=%s ual=%s hist=%s msi=%s\n", s_(v->valueRank), s_(v->arrayDimensions), s_(v->accessLevel), s_(v->userAccessLevel), s_(v->historizing), s_(v->minimumSamplingInterval)); refs("t", v->refToTypeDef); if(v->value) { printf("  value type=%s arr=%d ext=%d\n", s_(v->value->type), v->value->isArray, v->value->isExtensionObject); data(v->value->data, 4, NULL); } break; }
    case NODECLASS_VARIABLETYPE: { NL_VariableTypeNode *v = (NL_VariableTypeNode*)n; pid(" datatype", &v->datatype); printf(" rank=%s dims=%s abs=%s\n", s_(v->valueRank), s_(v->arrayDimensions), s_(v->isAbstract)); break; }
    case NODECLASS_OBJECT: { NL_ObjectNode *v = (NL_ObjectNode*)n; printf("  en=%s\n", s_(v->eventNotifier)); refs("t", v->refToTypeDef); break; }
    case NODECLASS_OBJECTTYPE: printf("  abs=%s\n", s_(((NL_ObjectTypeNode*)n)->isAbstract)); break;
    case NODECLASS_METHOD: printf("  ex=%s uex=%s\n", s_(((NL_MethodNode*)n)->executable), s_(((NL_MethodNode*)n)->userExecutable)); break;
    case NODECLASS_VIEW: printf("  loops=%s en=%s\n", s_(((NL_ViewNode*)n)->containsNoLoops), s_(((NL_ViewNode*)n)->eventNotifier)); break;
    case NODECLASS_REFERENCETYPE: printf("  sym=%s", s_(((NL_ReferenceTypeNode*)n)->symmetric)); lt("inv", ((NL_ReferenceTypeNode*)n)->inverseName); printf("\n"); break;
    case NODECLASS_DATATYPE: { NL_DataTypeNode *d = (NL_DataTypeNode*)n; printf("  abs=%s\n", s_(d->isAbstract)); if(d->definition) { printf("  definition enum=%d union=%d os=%d\n", d->definition->isEnum, d->definition->isUnion, d->definition->isOptionSet); for(size_t i=0;i<d->definition->fieldCnt;i++) { NL_DataTypeDefinitionField *f=&d->definition->fields[i]; printf("  field %s rank=%d value=%d opt=%d", s_(f->name), f->valueRank, f->value, f->isOptional); pid("dt", &f->dataType); printf("\n"); } } break; }
    }
    if(n->extension) printf("  extension %s\n", (char *)n->extension);
}
static char ext[100][16]; static int nExt;
static void *xNew(void) { snprintf(ext[nExt], 16, "E%d", nExt); printf("x new %s\n", ext[nExt]); return ext[nExt++]; }
static void xStart(void *d, const char *n, int k, const char **a) { printf("x start %s %s", s_((char*)d), n); for(int i=0;i<k;i++) printf(" %s=%.*s", a[i*5], (int)(a[i*5+4]-a[i*5+3]), a[i*5+3]); printf("\n"); }
static void xEnd(void *d, const char *n, const char *v) { printf("x end %s %s %s\n", s_((char*)d), n, s_(v)); }
static void xFinish(void *d) { printf("x finish %s\n", s_((char*)d)); }
int main(int argc, char **argv) {
    NodesetLoader_Logger L = {0}; L.log = lg; L.context = "LC";
    NodesetLoader_ExtensionInterface X = {0, xNew, xStart, xEnd, xFinish};
    NodesetLoader *l = NodesetLoader_new(&L, NULL);
    int x = 0, s = 0;
    for(int i = 1; i < argc; i++) {
        if(!strcmp(argv[i], "-x")) { x = 1; continue; }
        if(!strcmp(argv[i], "-s")) { s = 1; continue; }
        NL_FileContext fc = {0}; fc.file = argv[i]; fc.addNamespace = addNs; fc.userContext = "UC"; fc.extensionHandling = x ? &X : NULL;
        printf("import %d\n", NodesetLoader_importFile(l, &fc));
        if(s) printf("sort %d\n", NodesetLoader_sort(l));
    }
    if(!s) printf("sort %d\n", NodesetLoader_sort(l));
    for(int c = 0; c < NL_NODECLASS_COUNT; c++) printf("count %d %d\n", c, (int)NodesetLoader_forEachNode(l, (NL_NodeClass)c, "FC", dump));
    for(const NL_BiDirectionalReference *b = NodesetLoader_getBidirectionalRefs(l); b; b = b->next) { printf("enc"); pid("s", &b->source); pid("t", &b->target); pid("r", &b->refType); printf("\n"); }
    NodesetLoader_delete(l);
    return 0;
}

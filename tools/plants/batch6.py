from batch1h import *
def r(t, tgt, fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>' % (t, "" if fwd else ' IsForward="false"', tgt)
def o(i, *rs, a="", e="UAObject", bn="o", c=""): return '<%s NodeId="ns=1;%s" BrowseName="%s"%s><References>%s</References>%s</%s>' % (e, i if isinstance(i, str) else "i=%d" % i, bn, a, "".join(rs), c, e)
HEAD = r'''
#include <NodesetLoader/NodesetLoader.h>
#include <stdarg.h>
#include <locale.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
static unsigned short addNs(void *c, const char *uri) { return 7; }
static void lg(void *c, enum NodesetLoader_LogLevel l, const char *m, ...) { va_list v; va_start(v, m); printf("log %s %d ", (char *)c, l); vprintf(m, v); printf("\n"); va_end(v); }
static void pid(const UA_NodeId *id) { UA_String s = {0}; UA_NodeId_print(id, &s); printf(" %.*s", (int)s.length, (char*)s.data); UA_String_clear(&s); }
static void show(void *c, NL_Node *n) { printf("%s", (char *)c); pid(&n->id); for(NL_Reference *r = n->hierachicalRefs; r; r = r->next) pid(&r->refType); for(NL_Reference *r = n->nonHierachicalRefs; r; r = r->next) pid(&r->refType); printf("\n"); }
'''
plant("c32-swapped", "C32", [(N, "                \"node with unresolved reference(s): NodeId(%.*s)\",\n                (int)nodeIdStr.length, (char *)nodeIdStr.data);", "                \"node with unresolved reference(s): NodeId(%.*s)\",\n                (char *)nodeIdStr.data, (int)nodeIdStr.length);")],
  runs=[("", [doc(o("s=abc", r("ns=1;i=77", "i=3")))])], driver=HEAD + r'''
static bool never(void *c, const NL_Node *n) { return 0; }
static bool hier(void *c, const UA_NodeId *n) { return 0; }
static void add(void *c, NL_Node *n) { }
int main(int argc, char **argv) { NodesetLoader_Logger L = {0}; L.log = lg; L.context = "LC";
 NL_ReferenceService R = {0, add, hier, hier, hier};
 NodesetLoader *l = NodesetLoader_new(&L, &R); NL_FileContext fc = {0}; fc.file = argv[1]; fc.addNamespace = addNs; fc.userContext = "UC";
 printf("%d\n", NodesetLoader_importFile(l, &fc)); printf("%d\n", NodesetLoader_sort(l)); NodesetLoader_delete(l); return 0; }
''', needs="a node with a reference of a type that stays unknown", breaks="the message's text is not terminated: bytes behind it are read")
plant("c32-names", "C32", [("src/PrintfLogger.c", '{"Debug", "Warning", "Error"}', '{"Error", "Warning", "Debug"}')],
  runs=[("", [doc(o(1), o(1))])], driver=HEAD + r'''
int main(int argc, char **argv) { NodesetLoader *l = NodesetLoader_new(NULL, NULL); NL_FileContext fc = {0}; fc.file = argv[1]; fc.addNamespace = addNs;
 printf("%d\n", NodesetLoader_importFile(l, &fc)); NodesetLoader_delete(l); return 0; }
''', needs="a message of the default logger", breaks="errors are shown as debug output")
plant("c32-backend", "C32", [("x", "        uaLevel = UA_LOGLEVEL_ERROR;", "        uaLevel = UA_LOGLEVEL_FATAL;")] if 0 else [("src/NodesetLoader.c", """        loader->logger->log(loader->logger->context,
                            NODESETLOADER_LOGLEVEL_ERROR,
                            "NodesetLoader: file open error");""", """        loader->logger->log(loader->logger->context,
                            NODESETLOADER_LOGLEVEL_ERROR,
                            fileHandler->file);""")],
  runs=[("", [])], driver=HEAD + r'''
int main(int argc, char **argv) { NodesetLoader_Logger L = {0}; L.log = lg; L.context = "LC"; NodesetLoader *l = NodesetLoader_new(&L, NULL); NL_FileContext fc = {0}; fc.file = "/nowhere/%s%s%s%n.xml"; fc.addNamespace = addNs;
 char b[300]; int k = NodesetLoader_importFile(l, &fc); printf("%d\n", k); NodesetLoader_delete(l); return 0; }
''', needs="a file name with a percent sign which cannot be opened", breaks="the file name is used as format")
plant("c33-cache", "C33", [(A, "AliasList *AliasList_new(void)\n{\n", "static struct { char name[64]; UA_NodeId id; } last;\n\nAliasList *AliasList_new(void)\n{\n"), (A, "const UA_NodeId *\n    AliasList_getNodeId(const AliasList *list, const char *name) {\n    if(!name)\n        return NULL;\n", "const UA_NodeId *\n    AliasList_getNodeId(const AliasList *list, const char *name) {\n    if(!name)\n        return NULL;\n    if(last.name[0] && !strcmp(name, last.name))\n        return &last.id;\n"),
  (A, "            return &alias->id;\n", "        {\n            if (strlen(name) < sizeof(last.name) && alias->id.identifierType == UA_NODEIDTYPE_NUMERIC)\n            {\n                strcpy(last.name, name);\n                last.id = alias->id;\n            }\n            return &alias->id;\n        }\n"),
  (A, "    struct AliasList *list = (AliasList *)calloc(1, sizeof(*list));\n", "    struct AliasList *list = (AliasList *)calloc(1, sizeof(*list));\n    last.name[0] = 0;\n")],
  runs=[("", [doc("<Aliases><Alias Alias=\"A\">i=47</Alias></Aliases>", o(1, c="<Extensions><Extension><x/></Extension></Extensions>"), o(2, r("A", "i=3"))),
              doc("<Aliases><Alias Alias=\"A\">i=46</Alias></Aliases>", o(1, r("A", "i=3")))])], driver=HEAD + r"""
static char **av;
static void run(int k, NodesetLoader_ExtensionInterface *X) { NodesetLoader_Logger L = {0}; L.log = lg; L.context = "LC"; NodesetLoader *l = NodesetLoader_new(&L, NULL); NL_FileContext fc = {0}; fc.file = av[k]; fc.addNamespace = addNs; fc.extensionHandling = X;
 printf("%d\n", NodesetLoader_importFile(l, &fc)); NodesetLoader_sort(l); NodesetLoader_forEachNode(l, NODECLASS_OBJECT, "FC", show); NodesetLoader_delete(l); }
static void *xNew(void) { run(2, NULL); return "x"; }
static void xStart(void *d, const char *n, int k, const char **a) { }
static void xEnd(void *d, const char *n, const char *v) { }
static void xFinish(void *d) { }
int main(int argc, char **argv) { av = argv; NodesetLoader_ExtensionInterface X = {0, xNew, xStart, xEnd, xFinish}; run(1, &X); run(2, NULL); return 0; }
""", needs="two loaders at work at the same time with an alias of the same name", breaks="one loader resolves the alias as the other one's file says")
plant("c33-inplace", "C33", [(N, "        const char *value_end = attributes[i * fields + 4];\n        size_t size = (size_t)(value_end - value_start);\n        char *value = CharArenaAllocator_malloc(nodeset->charArena, size + 1);\n        memcpy(value, value_start, size);", "        char *value_end = (char *)attributes[i * fields + 4];\n        size_t size = (size_t)(value_end - value_start);\n        *value_end = 0;\n        char *value = CharArenaAllocator_malloc(nodeset->charArena, size + 1);\n        memcpy(value, value_start, size + 1);")],
  runs=[("", [])], driver=HEAD + r"""
#include "Nodeset.h"
int main(int argc, char **argv) { NodesetLoader_Logger L = {0}; L.log = lg; L.context = "LC"; NL_ReferenceService R = {0}; Nodeset *n = Nodeset_new(addNs, &L, &R);
 char t[] = "5' SymbolicName='s'"; const char *a[5] = {"NodeId", 0, 0, t, t + 1}; NL_Node *o = Nodeset_newNode(n, NODECLASS_OBJECT, 1, a); printf("%s\n", t); Node_delete(o); Nodeset_cleanup(n); return 0; }
""", needs="attributes", breaks="the parser's text is written to")
plant("c33-locale", "C33", [("src/Parser.c", "    xmlSAXHandler hdl;\n", "    setlocale(LC_ALL, \"C\");\n    xmlSAXHandler hdl;\n"), ("src/Parser.c", "#include <assert.h>", "#include <assert.h>\n#include <locale.h>")],
  runs=[("", [doc(o(1))])], driver=HEAD + r'''
int main(int argc, char **argv) { setlocale(LC_ALL, "C.UTF-8"); NodesetLoader *l = NodesetLoader_new(NULL, NULL); NL_FileContext fc = {0}; fc.file = argv[1]; fc.addNamespace = addNs; printf("%d\n", NodesetLoader_importFile(l, &fc)); NodesetLoader_delete(l); printf("%s\n", setlocale(LC_ALL, NULL)); return 0; }
''', needs="a caller which uses a locale", breaks="the import resets the process's locale")
plant("c33-caller", "C33", [(L, "        loader->refService = refService;", "        loader->refService = refService;\n        if (!refService->context)\n        {\n            refService->context = loader;\n        }")],
  runs=[("", [doc(o(1))])], driver=HEAD + r'''
static bool hier(void *c, const UA_NodeId *n) { printf("%d\n", c != NULL); return 1; }
static void add(void *c, NL_Node *n) { }
int main(int argc, char **argv) { NodesetLoader_Logger L = {0}; L.log = lg; L.context = "LC"; NL_ReferenceService R = {0, add, hier, hier, hier}; NodesetLoader *l = NodesetLoader_new(&L, &R); printf("%d\n", R.context != NULL); NodesetLoader_delete(l); return 0; }
''', needs="a reference service without a context", breaks="the caller's interface is changed")

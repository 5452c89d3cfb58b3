from batch7 import *
from batch7 import plant as bplant
from batch1h import plant
SC_ = "backends/open62541/src/ServerContext.c"
SO = "src/Sort.c"
def obj(i, *c, a="", e="UAObject", b="o"): return '<%s NodeId="ns=1;i=%d" BrowseName="%s"%s>%s</%s>' % (e, i, b, a, "".join(c), e)
def rr(*l): return "<References>%s</References>" % "".join('<Reference ReferenceType="%s"%s>%s</Reference>' % (t, "" if f else ' IsForward="false"', x) for t, x, f in l)

plant("c21-turns", "C21", [(SO, "                        p->balance = 0;\n", "")],
  runs=[("", [doc(*[obj(100 + x) for x in (0, 9, 7, 6, 1, 4, 10, 3, 8, 2, 5)])])],
  needs="eleven nodes in an order which makes the search tree turn twice around the same node", breaks="nodes get lost in the search tree")
plant("c21-turns2", "C21", [(SO, "                        else if (p->balance == -a)\n                            r->balance = a;\n", "")],
  runs=[("", [doc(*[obj(100 + x) for x in (0, 2, 4, 9, 6, 3, 7, 10, 1, 8, 5)])])],
  needs="eleven nodes in an order which makes the search tree turn twice around the same node", breaks="nodes get lost in the search tree")
bplant("c40-nsrange", "C40", [(SC_, "    else if ((nodesetIdx > 0) && ((size_t)nodesetIdx <= serverContext->namespaceCnt))\n", "    else if ((nodesetIdx > 0) && ((size_t)nodesetIdx <= serverContext->namespaceCnt + 1))\n")],
  runs=[("", [doc(var(1, "i=20", "<QualifiedName><NamespaceIndex>2</NamespaceIndex><Name>x</Name></QualifiedName>"))])],
  needs="a value in a namespace the file does not list", breaks="memory behind the list is read")
plant("c24-short", "C24", [("src/nodes/NodeContainer.h", "    size_t size;\n", "    unsigned short size;\n")],
  runs=[("", [doc(*[obj(k) for k in range(65540)])])], needs="65540 nodes of one class", breaks="four of them are iterated over")

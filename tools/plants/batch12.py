from batch1h import *
def nest(n, inner, name="A%d"):
    for k in range(n): inner = "<%s>%s</%s>" % (name % (k % 3), inner, name % (k % 3))
    return inner
def var(i, *c, a=""): return '<UAVariable NodeId="ns=1;i=%d" BrowseName="v"%s>%s</UAVariable>' % (i, a, "".join(c))
plant("c25-deep", "C25", [(L, "            Value_start(pctx->val, localNameCopy);\n            pctx->unknown_depth++;", "            if (pctx->unknown_depth < 32)\n                Value_start(pctx->val, localNameCopy);\n            pctx->unknown_depth++;")],
  runs=[("", [doc(var(1, "<Value>" + nest(40, "<X>1</X>") + "</Value>"))])], needs="a value nested deeper than 32", breaks="inner elements are missing in the value", leaks=False)
plant("c27-deep", "C27", [(L, "            pctx->extIf->start(pctx->extensionData, localname, nb_attributes, attributes);", "            if (pctx->unknown_depth < 24)\n                pctx->extIf->start(pctx->extensionData, localname, nb_attributes, attributes);")],
  runs=[("-x", [doc(var(1, "<Extensions><Extension>" + nest(30, "<X>1</X>") + "</Extension></Extensions>"))])], needs="an extension nested deeper than 24", breaks="the start of inner elements is not told to the interface")
plant("c09-sixteen", "C09", [(N, "    for (int i = 0; i < nb_attributes; i++)", "    for (int i = 0; i < nb_attributes && i < 16; i++)")],
  runs=[("", [doc(var(1, a="".join(' a%d="x"' % k for k in range(20)) + ' DataType="i=6" ValueRank="1"'))])], needs="more than sixteen attributes", breaks="the others are not read")
plant("c13-hundred", "C13", [(N, "    if (bn.nsIdx > 0)", "    if (bn.nsIdx > 0 && bn.nsIdx < 100)")],
  runs=[("", [doc('<UAObject NodeId="i=1" BrowseName="150:n"></UAObject>', ns="<NamespaceUris>" + "".join("<Uri>urn:%d</Uri>" % (k % 140 if k % 140 else k) for k in range(160)) + "</NamespaceUris>")])],
  needs="a file with more than hundred namespaces", breaks="the index of the browse name is not translated")

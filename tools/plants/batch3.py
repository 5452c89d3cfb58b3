from batch1h import *
P = "src/Parser.c"
import os
LIM = open("../../shim/probe.c").read().replace("#include <stdarg.h>", "#include <stdarg.h>\n#include <sys/resource.h>").replace("int x = 0, s = 0;", "int x = 0, s = 0; struct rlimit rl = {40, 40}; setrlimit(RLIMIT_NOFILE, &rl);")
OB = '<UAObject NodeId="ns=1;i=1" BrowseName="1:a"></UAObject>'
big = doc(OB + "<!-- " + "x" * 2000 + " -->", '<UAObject NodeId="ns=1;i=2" BrowseName="1:b"></UAObject>')
def sized(n, tail=F): 
    d = H + NSU + OB
    return d + "<!--" + "y" * (n - len(d) - 7 - len(tail)) + "-->" + tail
bad3 = H + NSU + OB + "<!-- " + "x" * 2500 + " --><a></b>" + F
plant("c04-negative", "C04", [(P, """            status = 1;
            break;""", """            status = -res;
            break;"""), (L, "    if (Parser_run(parser, f, OnStartElementNs, OnEndElementNs, OnCharacters))", "    if (Parser_run(parser, f, OnStartElementNs, OnEndElementNs, OnCharacters) > 0)")],
  runs=[("", [bad3])], needs="a syntax error in the document (not an early end)", breaks="the import reports success")

plant("c04-reopen", "C04", [(L, """                            "NodesetLoader: file open error");
        retStatus = false;""", """                            "NodesetLoader: file open error");
        retStatus = loader->nodeset->hasEncodingRefs != NULL;""")],
  runs=[("", [doc('<UAObject NodeId="ns=1;i=1" BrowseName="Default Binary"><References><Reference ReferenceType="i=38" IsForward="false">ns=1;i=7</Reference></References></UAObject>')]), ("doc0.xml missing.xml", [])],
  needs="a file that cannot be opened, after another file with an encoding was imported", breaks="the import reports success")
plant("c04-log", "C04", [(L, """                            NODESETLOADER_LOGLEVEL_ERROR, "xml parsing error");""",
  """                            ctx->state == PARSER_STATE_INIT ? NODESETLOADER_LOGLEVEL_DEBUG : NODESETLOADER_LOGLEVEL_ERROR, "xml parsing error");""")],
  runs=[("", [""]), ("", [H + OB + F + "x"])], needs="an error outside of the root element", breaks="it is only logged as a debug message")
plant("c05-items", "C05", [(P, "    while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 0)", "    while ((res = (int)(fread(chars, 2, sizeof(chars) / 2, file) * 2)) > 0)")],
  runs=[("", [sized(1501, F.strip())]), ("", [sized(1500, F.strip())])], needs="a file whose size is odd", breaks="the last byte is not parsed")
plant("c05-resume", "C05", [(P, "    char chars[1024];", "    char chars[1024];\n    size_t keep = 0;"),
  (P, "    while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 0)\n    {\n", "    while ((res = (int)fread(chars + keep, 1, sizeof(chars) - keep, file)) > 0)\n    {\n        if ((size_t)res == sizeof(chars) && chars[res - 1] == '<')\n        {\n            res--;\n            keep = 1;\n        }\n        else\n        {\n            keep = 0;\n        }\n")],
  runs=[("", [sized(4 + 1024 + 200, "x" * 0 + F)]), ("", [H + NSU + OB + "<!--" + "y" * (1028 - 1 - len(H + NSU + OB) - 7) + "-->" + '<UAObject NodeId="ns=1;i=2" BrowseName="1:b"></UAObject>' + F])],
  needs="a tag that begins exactly at the end of a read", breaks="the character is lost (it is not moved to the front of the buffer)")
plant("c05-full", "C05", [(P, "    while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 0)\n", "    size_t total = 0;\n    while ((total += sizeof(chars)) < 4096 && (res = (int)fread(chars, 1, sizeof(chars), file)) > 0)\n")],
  runs=[("", [sized(2000)]), ("", [H + NSU + OB + F + " " * 5000 + "<x>"])], needs="a file of more than 3 kB with an error behind that", breaks="the rest of the file is not read")
plant("c06-parser", "C06", [(P, """            xmlParserError(ctxt, "xmlParseChunk");
            status = 1;
            break;""", """            int mismatch = ctxt->errNo == XML_ERR_TAG_NAME_MISMATCH;
            xmlParserError(ctxt, mismatch ? "end tag" : "xmlParseChunk");
            if (mismatch)
            {
                return 1;
            }
            status = 1;
            break;""")],
  runs=[("doc0.xml doc0.xml", [H + '<a><b></d>' + ' ' * 2000 + F])], needs="an end tag without its start tag", breaks="the parser context is lost")
plant("c06-file", "C06", [(L, """    free(ctx);
    if (f)
    {
        fclose(f);
    }""", """    if (f && ctx && (retStatus || ctx->state != PARSER_STATE_INIT))
    {
        fclose(f);
    }
    free(ctx);""")],
  runs=[("doc0.xml " * 60, [""])], driver=LIM, needs="a file without a root element", breaks="the file stays open")
plant("c06-delete", "C06", [(L, """                            NODESETLOADER_LOGLEVEL_ERROR, "xml parsing error");
        retStatus = false;
    }
    Parser_delete(parser);
""", """                            NODESETLOADER_LOGLEVEL_ERROR, "xml parsing error");
        retStatus = false;
        if (ctx->ref)
        {
            goto cleanup;
        }
    }
    Parser_delete(parser);
""")], runs=[("", [H + '<UAObject NodeId="ns=1;i=1" BrowseName="1:a"><References><Reference ReferenceType="i=35">i=3'])],
  needs="a document which ends within a reference", breaks="the parser object is lost")

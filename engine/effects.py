"""What functions do to memory they share: writes through globals, and calls
of functions with effects on the whole process."""

# external functions: arguments they write to
WRITES = {"memcpy": (0,), "memmove": (0,), "memset": (0,), "strcpy": (0,), "strncpy": (0,), "strcat": (0,), "strncat": (0,),
          "sprintf": (0,), "snprintf": (0,), "vsnprintf": (0,), "vsprintf": (0,), "fread": (0,), "fgets": (0,), "free": (0,),
          "realloc": (0,), "qsort": (0,), "strtok_r": (0, 2), "UA_NodeId_init": (0,), "UA_NodeId_clear": (0,), "UA_NodeId_copy": (1,),
          "UA_NodeId_parse": (0,), "UA_NodeId_print": (1,), "UA_String_clear": (0,), "UA_String_copy": (1,), "UA_clear": (0,),
          "UA_delete": (0,), "UA_init": (0,), "UA_copy": (1,), "UA_Array_delete": (0,), "strtol": (1,), "strtoul": (1,), "strtod": (1,),
          "strtoll": (1,), "strtoull": (1,), "gmtime_r": (1,), "localtime_r": (1,)}
SSCANF = {"sscanf": 2, "__isoc99_sscanf": 2, "fscanf": 2, "__isoc23_sscanf": 2}
# external functions which change or hand out something the whole process shares
PROCESS = {"xmlCleanupParser", "xmlCleanupThreads", "xmlCleanupGlobals", "xmlCleanupMemory", "xmlCleanupCharEncodingHandlers", "xmlMemSetup",
           "xmlSetGenericErrorFunc", "xmlSetStructuredErrorFunc", "xmlSubstituteEntitiesDefault", "xmlKeepBlanksDefault",
           "xmlLoadExtDtdDefaultValue", "xmlLineNumbersDefault", "xmlCatalogCleanup",
           "strtok", "setlocale", "srand", "rand", "random", "srandom", "setenv", "putenv", "unsetenv", "chdir", "fchdir", "umask", "signal",
           "sigaction", "alarm", "exit", "_exit", "_Exit", "quick_exit", "atexit", "gmtime", "localtime", "asctime", "ctime",
           "tmpnam", "system", "fork", "kill", "raise", "dup2", "freopen", "setvbuf", "setbuf", "fcloseall", "setuid", "setgid", "nice"}


class Effects:
    def __init__(self, mod):
        self.m = mod
        self.written = {}       # function name -> set of written parameters
        self.returns = {}       # function name -> roots of its result
        self.stores = 0
        self.fns = [f for f in mod.fns.values() if not f.decl]
        for f in self.fns:
            self.written[f.name] = set()
            self.returns[f.name] = set()
        change = True
        while change:
            change = False
            for f in self.fns:
                w, r = set(), set()
                for i, v, what in self.targets(f):
                    for t in self.roots(f, v):
                        if t[0] == "param":
                            w.add(t[1])
                for b in f.blocks:
                    if b[-1]["op"] == "ret" and "v" in b[-1]:
                        r |= {t for t in self.roots(f, b[-1]["v"]) if t[0] in ("g", "param")}
                if not w <= self.written[f.name] or not r <= self.returns[f.name]:
                    self.written[f.name] |= w
                    self.returns[f.name] |= r
                    change = True

    def targets(self, f):
        """(instruction, address written to, how)"""
        for b in f.blocks:
            for i in b:
                if i["op"] == "store":
                    yield i, i["p"], "store"
                elif i["op"] == "call" and i.get("fn"):
                    n = i["fn"]
                    g = self.m.fns.get(n)
                    if g is not None and not g.decl:
                        ks = self.written.get(n, ())
                    elif n.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                        ks = (0,)
                    elif n in SSCANF:
                        ks = range(SSCANF[n], len(i["args"]))
                    else:
                        ks = WRITES.get(n, ())
                    for k in ks:
                        if k < len(i["args"]):
                            yield i, i["args"][k]["v"], "call of " + n

    def roots(self, f, v, seen=None):
        seen = set() if seen is None else seen
        if not isinstance(v, (list, tuple)) or not v:
            return set()
        if v[0] == "g":
            return {("g", v[1])} if v[1] in self.m.globals else set()
        if v[0] != "v" or v[1] in seen:
            return set()
        seen.add(v[1])
        if v[1] < len(f.params):
            return {("param", v[1])}
        d = f.defs.get(v[1])
        if d is None:
            return set()
        d = d[1]
        op = d["op"]
        if op == "gep":
            return self.roots(f, d["b"], seen)
        if op == "cast":
            return self.roots(f, d["a"], seen)
        if op == "select":
            return self.roots(f, d["a"], seen) | self.roots(f, d["b"], seen)
        if op == "phi":
            out = set()
            for x, _ in d["in"]:
                out |= self.roots(f, x, seen)
            return out
        if op == "load":
            # a pointer kept in a constant or static table
            out = set()
            for t in self.roots(f, d["p"], seen):
                if t[0] == "g":
                    for o, n, x in self.m.globals[t[1]].get("init") or ():
                        if x[0] == "g" and x[1] in self.m.globals:
                            out.add(("g", x[1]))
            return out
        if op == "call" and d.get("fn") in self.returns:
            out = set()
            for t in self.returns[d["fn"]]:
                if t[0] == "g":
                    out.add(t)
                elif t[1] < len(d["args"]):
                    out |= self.roots(f, d["args"][t[1]]["v"], seen)
            return out
        return set()

    def violations(self):
        """(function, instruction, global, how)"""
        for f in self.fns:
            for i, v, what in self.targets(f):
                self.stores += 1
                for t in self.roots(f, v):
                    if t[0] == "g":
                        yield f, i, t[1], what

    def process(self):
        for f in self.fns:
            for b in f.blocks:
                for i in b:
                    if i["op"] == "call" and i.get("fn") in PROCESS:
                        yield f, i, i["fn"]

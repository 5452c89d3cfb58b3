"""The properties: what they state, why tests cannot settle them, how they are decided."""
WORLD = ("abstract interpretation (value-flow over the LLVM IR of the sources, interprocedural, "
         "symbolic texts and callbacks)")
WN = ("Decided for every text content and length, every answer of the caller's interfaces and every document of the "
      "enumerated shapes; documents of other shapes are not covered. Undecided obligations never alarm and are counted "
      "in the evidence.")
NL, NS = "src/NodesetLoader.c", "src/Nodeset.c"
BE = "backends/open62541/src/"
BW = "abstract interpretation of the loader and its backend up to the server's interface (value flow, symbolic texts, a model server)"
BN = ("Decided for every text content and every answer the model server can give, for the enumerated and drawn documents. "
      "open62541 itself is not here: the server and its type library are stand-ins built from stub headers.")
BY = "The backend tests need open62541 and cannot be built here; they load a few fixed files."
WHY = "The tests that run only exercise the text allocator; the XML tests (not buildable here) load a few fixed files."


def P(id, title, statement, over, all, files, mech, why=WHY, technique=WORLD, note=WN, **k):
    d = dict(id=id, title=title, statement=statement, over=over, all=all, files=files, mech=mech, why=why,
             technique=technique, note=note)
    d.update(k)
    return d


PROPS = [
    P("C01", "Text blocks are disjoint, inside their region and zeroed",
      "Every block the text allocator hands out lies completely inside memory the allocator owns, overlaps no block handed out before and not released, and reads as zero before anything is written to it. A request that cannot be satisfied yields nothing and leaves the allocator usable.",
      ["inputs", "histories"], "all sequences of allocations and extensions with all sizes", ["src/CharAllocator.c"],
      [("bump allocation and chained regions", "src/CharAllocator.c: CharArenaAllocator_malloc, CharArenaAllocator_realloc")],
      why="The allocator tests call it with a handful of constant sizes on one small region.",
      technique="abstract interpretation with linear inequalities over symbolic sizes; induction over the arena's invariant",
      note="Every size is symbolic. All sequences of up to five calls, and one call on any arena that satisfies the invariant the first part shows; the number of chained regions in the induction step is symbolic through a summary region."),
    P("C02", "Growing a text keeps its content and everything handed out before",
      "Extending the text under construction keeps all bytes it had, in order, also when it moves; no other block is written, moved or released by it; and everything the allocator took is released when it is deleted.",
      ["inputs", "histories"], "all sequences of allocations and extensions with all sizes", ["src/CharAllocator.c"],
      [("growth of the last block", "src/CharAllocator.c: CharArenaAllocator_realloc"), ("release", "src/CharAllocator.c: CharArenaAllocator_delete")],
      why="The allocator tests extend one text a few times with constant sizes.",
      technique="abstract interpretation with linear inequalities over symbolic sizes; copy tracking; induction over the arena's invariant",
      note="Every size is symbolic. All sequences of up to five calls, and one call on any arena that satisfies the invariant the first part shows."),
    P("C04", "The import reports exactly whether the whole document was read",
      "An import returns true exactly if the file could be opened, the parser could be set up and the complete document was parsed without an error, including the check that it does not end early. Every other outcome, also a missing file context or namespace callback, returns false and logs an error; the successful import of a document without conflicting nodes logs none. Earlier imports, failed or not, make no difference.",
      ["inputs", "fault_sequences", "histories"], "all files, read sizes and parser errors at any point, over sequences of imports",
      [NL, "src/Parser.c"], [("result", NL + ": NodesetLoader_importFile"), ("parser errors", "src/Parser.c: Parser_run")],
      technique="abstract interpretation with enumerated faults of file and parser and symbolic read sizes",
      note="For every number of reads up to four (five in the thorough tier), any size of the last read and an error in any parser call. libxml2 itself is a stand-in that keeps reporting an error once it has."),
    P("C05", "Every byte of the named file reaches the parser once and in order",
      "The file the caller names is opened, and the bytes read from it are handed to the XML parser completely, in order and once, however they are distributed over the reads; no read exceeds its buffer. Before success is reported the whole file has been read and the parser has been told that the document ends.",
      ["inputs", "schedules"], "all file sizes and distributions over reads", ["src/Parser.c", NL],
      [("read loop", "src/Parser.c: Parser_run")],
      technique="dataflow analysis of file positions with linear expressions over symbolic read results",
      note="For every number of reads up to four (five in the thorough tier) and any size of the last read."),
    P("C06", "An import releases the file, the parser and everything it built on the way",
      "However an import ends - not opened, no parser, an error at any point, a document that ends within any element - the file and the parser are released exactly once and not used afterwards, no object is released twice or used after its release, and every object is released or kept by the loader. The next import works.",
      ["inputs", "fault_sequences", "histories"], "all ways an import can end", [NL, "src/Parser.c"],
      [("clean-up", NL + ": NodesetLoader_importFile"), ("parser", "src/Parser.c: Parser_run, Parser_delete")],
      technique="ownership and typestate analysis by abstract interpretation",
      note="For every number of reads up to four, an error in any parser call, with and without a document type declaration, and three documents cut off after every event. Failing allocations are not considered."),
    P("C07", "Unknown XML content is skipped without any effect",
      "An element the loader does not know at the place where it occurs is ignored together with its attributes, its text and everything nested in it, whatever the nested elements are called and however deep they are. The nodes, references, namespaces, aliases, values, extensions and encoding pairs obtained are the same as for the document without that element.",
      ["inputs"], "all documents, with unknown elements of any shape at any place",
      [NL], [("element automaton: unknown state and depth", NL + ": start and end element handlers")],
      technique="typestate analysis of the element automaton by abstract interpretation; equality of abstract results with and without the subtree"),
    P("C08", "Every node element becomes one node of its own class",
      "Each of the eight node elements of a nodeset (object, object type, variable, variable type, data type, reference type, method, view) yields exactly one node, of that class, which a caller gets when iterating over that class and over no other. Elements with other names yield no node. The names and the distinction of instances and types the loader offers for the classes agree with the elements.",
      ["inputs"], "all documents", [NL, NS], [("dispatch on the element name", NL + ": start element handler"),
                                                ("container per class", NS + ": sorting hands the node to its class"),
                                                ("names, instances", NL + ": NL_NODECLASS_NAME; src/nodes/InstanceNode.c")]),
    P("C09", "Attributes reach the node completely, absent ones get their default",
      "Every attribute of a node element that the loader supports is stored in the corresponding member of the node with exactly the characters of the document (references like &amp; replaced by what they stand for), terminated, no matter where it stands among the attributes or which similarly named attributes exist. If it is absent, the member has the default of the nodeset schema (or nothing, when there is none). The browse name is split at the first colon into namespace index and name.",
      ["inputs"], "all node elements, attribute sets, orders, values and lengths", [NS],
      [("attribute lookup and defaults", NS + ": getAttributeValue, extractAttributes"), ("browse name", NS + ": extractBrowseName")]),
    P("C11", "Element text is stored whole, terminated, and for its own element only",
      "The text stored for an element (display name, description, inverse name, namespace uri, alias, reference target, value) is exactly the concatenation of all pieces in which the parser delivers it, terminated. Text of other elements, white space between elements and text in front of an ignored child never becomes part of it; an element without text has none.",
      ["inputs", "schedules"], "all texts and all ways to split them into pieces", [NL, "src/CharAllocator.c"],
      [("character accumulation", NL + ": character handler, reset at element boundaries")]),
    P("C12", "Display name, description and inverse name keep their text and locale",
      "The display name, the description and, for reference types, the inverse name of a node are stored in their own members with text and locale of the same element, in any order of the elements. A missing locale or element leaves the member empty, and an inverse name on another class of node has no effect.",
      ["inputs"], "all node classes, subsets and orders of the text elements", [NL, NS],
      [("localized text handlers", NS + ": setDisplayName, setDescription, setInverseName and their finishes")]),
    P("C13", "File namespace indices are translated to the server's indices everywhere",
      "Every namespace uri of a file is announced once, in order, with the user's context, and the k-th uri's answer replaces namespace index k in every node id (own, parent, data type, reference type, reference target, alias, field type) and browse name read from that file. Index 0 and indices the file does not declare are kept. Indices of one file do not apply to another file.",
      ["inputs", "configurations", "histories"], "all namespace tables, server answers and places of a node id", [NS, "src/NamespaceList.c"],
      [("translation", NS + ": translateNodeId, translateBrowseName"), ("table", "src/NamespaceList.c")]),
    P("C14", "Aliases resolve to exactly the node id they are defined with",
      "A data type, reference type or reference target given by an alias gets the translated node id of the alias with exactly that name; any other text is taken as a node id. This holds for any number of aliases, and aliases of one file do not apply to another file.",
      ["inputs", "histories"], "all alias tables and uses", [NS, "src/AliasList.c"],
      [("lookup", "src/AliasList.c: AliasList_getNodeId"), ("growth", "src/AliasList.c: AliasList_newAlias")]),
    P("C15", "Each reference is kept once, in the right list, with direction and target",
      "Every reference of a node appears exactly once on that node, with its direction (inverse only if the document says so), reference type and target: type definitions of variables and objects as type definition, otherwise under hierarchical or non-hierarchical references as the reference service classifies the type. References of other nodes never appear there.",
      ["inputs", "configurations"], "all node classes, reference types, classifications and orders", [NS],
      [("classification and filing", NS + ": Nodeset_newReference, Nodeset_newReferenceFinish")]),
    P("C16", "Binary encodings of data types are reported as pairs, nothing else is",
      "For each inverse HasEncoding reference of a node whose browse name is \"Default Binary\" the loader reports exactly one pair with the data type as source, the encoding node as target and HasEncoding as type. No other reference, direction or browse name yields a pair.",
      ["inputs"], "all nodes and references", [NS], [("encoding pairs", NS + ": Nodeset_newReferenceFinish")],
      observe="NodesetLoader_getBidirectionalRefs"),
    P("C17", "Nodes with not yet known reference types are completed when sorting",
      "A node with references whose type the reference service does not know yet is kept back and, when sorting, handed out once with every reference in the list of its class, independent of where (or in which file) the type is defined. If a type stays unknown, sorting reports failure and logs an error.",
      ["inputs", "histories"], "all orders of nodes and reference type definitions over one or two files", [NS],
      [("deferred nodes", NS + ": Nodeset_newNodeFinish, Nodeset_sort")]),
    P("C18", "The reference service learns of every accepted reference type exactly once",
      "Every reference type node that is not rejected as a duplicate is announced once to the reference service, with its service context and with all its references already in place; nodes of other classes are never announced.",
      ["inputs"], "all documents and classification answers", [NS], [("announcement", NS + ": Nodeset_newNodeFinish")]),
    P("C19", "Without a reference service the loader classifies reference types itself",
      "A loader created without a reference service treats the standard hierarchical reference types it lists (HierarchicalReferences, Organizes, HasEventSource, HasNotifier, Aggregates, HasComponent, HasProperty, HasSubtype, HasEncoding) and every type declared, by an inverse reference, as a subtype of a type already known to be hierarchical as hierarchical, every other type of namespace 0 and every other declared type as non-hierarchical, and HasTypeDefinition as type definition. This holds for any number of declared types, over all files imported, and for each loader separately.",
      ["inputs", "histories"], "all documents, numbers and chains of declared types, sequences of imports", ["src/InternalRefService.c", NS],
      [("table and learning", "src/InternalRefService.c: isReferenceHierachical, isRefNonHierachical, addnewRefTypeImpl")],
      note=WN + " Up to 120 declared types (260 in the thorough tier)."),
    P("C20", "Parents are handed out before their children",
      "Sorting hands out the nodes of a class such that a node comes after every node of that class which is its parent by a hierarchical reference of the documents, no matter whether the reference is written on the parent (forward), on the child (inverse) or on both, and independent of the order and the identifiers of the nodes in the documents.",
      ["inputs", "histories"], "all acyclic graphs of hierarchical references, orders and identifiers", ["src/Sort.c", NS],
      [("edges and topological order", "src/Sort.c: Sort_addNode, record_relation, Sort_start")],
      note="Graph shapes, orders and orders of identifiers are enumerated (three nodes) or drawn (up to ten nodes, chains up to 25, 60 in the thorough tier); everything else about the nodes is symbolic."),
    P("C21", "Sorting hands out every node exactly once, or reports a loop",
      "After the import every accepted node is handed out exactly once by the sorting, whatever the number and order of identifiers. A loop of hierarchical references makes sorting return false and log an error, no node is handed out twice then; references to absent nodes or to the node itself are no loop.",
      ["inputs", "histories"], "all sets and orders of identifiers and all graphs", ["src/Sort.c", NS],
      [("search tree", "src/Sort.c: search_node"), ("loop detection", "src/Sort.c: Sort_start")],
      note="All orders of arrival of five identifiers, drawn orders of up to sixteen, drawn graphs with and without loops."),
    P("C22", "The parent attribute yields a reference where the node has none",
      "An object, variable, method or view with a parent attribute and without hierarchical references gets exactly one: the mirror image of the first hierarchical reference its parent, if accepted before, has to it, otherwise an inverse HasComponent to the parent. Nodes with hierarchical references, without (or with the null) parent and of other classes get none.",
      ["inputs"], "all classes, parents, references and orders", ["src/Sort.c"],
      [("parent reference", "src/Sort.c: Sort_addNode")]),
    P("C23", "Of nodes with the same id only the first one is kept",
      "A node whose id was used by a node accepted before - in the same or an earlier file, of whatever class - is rejected with one logged error each and never handed out; the first one and all others are unaffected. Ids which differ in namespace, kind or identifier are different, and an id that was only referred to is free.",
      ["inputs", "histories"], "all pairs of classes, ids and positions", [NS, "src/Sort.c"],
      [("duplicate detection", "src/Sort.c: Sort_addNode"), ("rejection", NS + ": Nodeset_newNodeFinish, sortDeferredNodes")]),
    P("C24", "Iterating yields each node of the class once, with the caller's context",
      "NodesetLoader_forEachNode calls the given function once for each node of the requested class, for no other node, with the context given, and returns their number. Without an import it calls nothing and returns zero. This holds for any number of nodes.",
      ["inputs"], "all documents, classes and contexts", [NS, NL, "src/nodes/NodeContainer.c"],
      [("iteration", NS + ": Nodeset_forEachNode"), ("growth", "src/nodes/NodeContainer.c: NodeContainer_add")],
      note=WN + " Up to 261 nodes."),
    P("C25", "A value's tree mirrors the document's structure",
      "The value handed out with a variable has one member per element of the value in document order, with the element's name, its text (nothing for blank text) and its parent; it is marked as list or extension object exactly if the document has one, and carries the element type or the type id of the extension object. Malformed values do not disturb the rest of the node.",
      ["inputs"], "all value elements", ["src/Value.c", NL], [("value automaton", "src/Value.c: Value_start, Value_end")]),
    P("C26", "Data type definitions keep every field with its attributes",
      "The definition handed out with a data type has one entry per field in document order with name, data type, value rank, enumeration value and optional flag as in the document (defaults where absent), and its enumeration, union and option set flags match the document; fields of option sets are not kept. Data types without a definition, and other classes of nodes, have none.",
      ["inputs"], "all definitions, field counts and attribute combinations", [NS, "src/nodes/DataTypeNode.c"],
      [("definition", NS + ": Nodeset_addDataTypeDefinition, Nodeset_addDataTypeField")]),
    P("C27", "Extension content is streamed to the caller's interface and attached",
      "For each extension of a node the caller's interface is told, in document order, of its beginning, of every nested element's start (with its attributes) and end (with its text), and of its end, always with the data object created for this extension, which is then attached to the node. Nested elements named like the extension itself belong to the content, and without an interface the content is skipped.",
      ["inputs"], "all extension contents", [NL], [("extension states", NL + ": start and end element handlers")]),
    P("C28", "Deleting an object releases everything it owns, once",
      "Whatever an object of the loader - a node of any class, a value, a definition, a list, a text arena, the nodeset, the loader itself - owns at the time it is deleted is released exactly once, whatever its content, and what it does not own is left alone; nothing is accessed after its release.",
      ["inputs", "histories"], "all contents and sizes of every object that is deleted", ["src/nodes/Node.c", "src/Value.c", "src/AliasList.c", "src/NamespaceList.c", "src/CharAllocator.c", NS, NL],
      [("deletion", "src/nodes/Node.c: Node_delete"), ("deletion", "src/Value.c: Value_delete"), ("deletion", NS + ": Nodeset_cleanup"), ("deletion", NL + ": NodesetLoader_delete")],
      technique="modular ownership analysis (abstract interpretation, quantified over array elements)",
      note="Each function is analysed on its own for objects of any content; the ownership of members is derived from the headers' structures by a table in engine/spec.py."),
    P("C29", "Over a loader's whole life nothing is released twice, used late or left",
      "In every history of a loader - any documents, complete or cut off anywhere, valid or not, one or more files, sorted once, twice, in between or never, with loops, duplicates and unknown reference types - no object is used after its release or released twice, and after the loader's deletion no object it made is left.",
      ["inputs", "histories"], "all documents and sequences of imports and sorts, followed by deletion", [NL, NS, "src/Sort.c", "src/Value.c"],
      [("life cycle", NL + ": NodesetLoader_importFile, NodesetLoader_sort, NodesetLoader_delete"), ("ownership hand-over", NS + ": element handlers")],
      technique="ownership and typestate analysis by abstract interpretation",
      note=WN + " Failing allocations are not considered."),
    P("C30", "The API calls may be made in any order, any number of times",
      "Importing, sorting, iterating and asking for the encoding pairs may follow each other in any order and number, also before any import and with imports that lack their file context or namespace callback in between. Each call returns and hands out what the imports before it provide: the nodes sorted so far each once, the encoding pairs of all files, success exactly if there was something to do and no error.",
      ["histories", "configurations"], "all sequences of API calls", [NL, NS, "src/Sort.c"], [("API", NL), ("graph kept over sorts", "src/Sort.c: Sort_start")],
      technique="abstract interpretation of call sequences against a model of the loader's state",
      note="All sequences of up to three calls and drawn ones of up to nine, with two overlapping files of fixed content."),
    P("C31", "No document makes the loader access memory it must not",
      "Whatever attributes, texts or elements a document lacks, repeats or leaves empty, and however long its texts are, every memory access of the loader goes through a valid pointer and stays inside of the object it belongs to.",
      ["inputs"], "all documents with missing, empty, repeated or arbitrary parts", [NL, NS, "src/Value.c", "src/CharAllocator.c", "src/AliasList.c"],
      [("attribute and text handling", NS), ("element handlers", NL)],
      technique="nullness and bounds analysis by abstract interpretation with linear inequalities over text lengths",
      note=WN + " Failing allocations are not considered."),
    P("C32", "Log messages are well-formed and reach the caller's logger",
      "Every message goes to the caller's logger with that logger's context, a defined level and a format whose conversions agree in number and type with the arguments; it is never made of the document's or the caller's texts. Without a logger a default one prints the level and the complete message with its arguments. The open62541 backend passes level, message and arguments on to the server's logger.",
      ["inputs", "configurations"], "all messages, levels and loggers", ["src/PrintfLogger.c", NL, NS, "src/Sort.c", "backends/open62541/src/import.c"],
      [("default logger", "src/PrintfLogger.c: logStdOut"), ("messages", NS + ": Nodeset_sort"), ("server's logger", "backends/open62541/src/import.c: logToOpen")],
      technique="format and argument analysis of all call sites; abstract interpretation of the loggers",
      why="The tests never look at messages, and the compiler cannot check formats behind the logger's function pointer."),
    P("C33", "A loader changes nothing but objects of its own",
      "Neither the library nor its backend writes to static data or changes anything the whole process shares (the XML library's global state, the locale, the environment ...), and a loader never writes to or releases what is the caller's: the logger, reference service, extension interface and file context, or the texts of the XML parser. Hence loaders do not influence each other, also when one is used while another one imports.",
      ["histories", "schedules"], "all functions; all histories of one and two loaders", [NL, NS, "src/Parser.c", "src/Sort.c", "src/Value.c", "src/InternalRefService.c"],
      [("import", NL + ": NodesetLoader_importFile"), ("parser set-up", "src/Parser.c: Parser_run")],
      technique="effect analysis of all functions; abstract interpretation of histories",
      why="The tests use one loader at a time and do not look at the process around it.",
      note="Writes through pointers to static data which were kept in the heap are only found by the histories."),
    P("C34", "The server gets every node exactly as the document describes it",
      "NodesetLoader_loadFile adds each node of the document once, with its class, id, browse name, parent, the reference to that parent, type definition, display name, description, all attributes of its class (their defaults where the document has none) and the extension as node context; ids and names carry the server's namespace indexes. Nothing else is added, and the children of a node's type are not instantiated.",
      ["inputs"], "all documents: every class, attribute, text and parent", [BE + "import.c", BE + "ServerContext.c"],
      [("nodes", BE + "import.c: addNodeImpl, handleObjectNode ... handleDataTypeNode"), ("parents", BE + "import.c: getParentId")],
      why=BY, technique=BW, note=BN + " ReferenceType isAbstract and write masks are not imported by the backend and not claimed.", observe="UA_Server_addNode_begin and the other functions which add nodes"),
    P("C35", "Every reference of the document reaches the server once, as it is",
      "Each reference of the files other than the type definition, which comes with the node, is handed to the server once, from its node, with its type, its target and its direction, after all nodes were added, whichever type it has - standard, from the server, of this file or of an earlier one. What is handed over beyond that is the mirror image of such a reference, or what the loader assumes for a node without hierarchical references.",
      ["inputs", "histories"], "all graphs of references, over sequences of files", [BE + "import.c", BE + "RefServiceImpl.c", "src/Sort.c"],
      [("references", BE + "import.c: addNonHierachicalRefs")], why=BY, technique=BW, note=BN, observe="UA_Server_addReference"),
    P("C36", "Nodes are added in an order that works, and refused ones are tried again",
      "Types are added before instances and, within a class, parents before their children. A node the server refuses is tried again with the same data, up to ten times in all, and never after it was added; other nodes are not affected. loadFile succeeds exactly if the file was read and sorted; otherwise nothing is added, an error is logged, and a missing server or path is a failure.",
      ["inputs", "fault_sequences"], "all documents, refusals of the server and failures of the file", [BE + "import.c", NL],
      [("order", BE + "import.c: addNodes"), ("further attempts", BE + "import.c: secondChanceAddNodes"), ("result", BE + "import.c: NodesetLoader_loadFile")],
      why=BY, technique=BW, note=BN, observe="the calls of the server's functions, in order"),
    P("C37", "A value reaches the server converted as its data type says",
      "A variable is added with the value its Value element describes for its data type: every builtin type with exact number, text, bytes, time (to the nanosecond), id or name, also at the limits of its range; enumerations and subtypes as what they are derived from; structures by member name with missing members zero, in any order, nested, inherited, and unions with the selected member; arrays of all these element by element. A value of a type nobody described is left out, not guessed.",
      ["inputs", "histories"], "all values of all data types which can be described", [BE + "Value.c", BE + "import.c", "src/Value.c"],
      [("scalars", BE + "Value.c: setScalar"), ("structures", BE + "Value.c: setStructure, setUnion"), ("value", BE + "import.c: handleVariableNode")],
      why=BY, technique=BW, note=BN + " Values of type Variant/BaseDataType, ExtensionObject, DataValue, XmlElement, ExpandedNodeId and structures with optional members are not converted by the backend and not claimed; nor are time zones.",
      observe="UA_VariableAttributes.value handed to the server"),
    P("C38", "Each data type of the document becomes one description of its layout",
      "Each structure, union and enumeration of the files is described once: its id and name, its kind, its members (inherited ones first) with name, type, array and optional flags, its encoding's id, and the size and padding the C struct with these members has; whether it holds pointers follows from its members. A type's members refer to the one description of their type, also of earlier files, and NodesetLoader_getCustomDataType finds it.",
      ["inputs", "histories"], "all data types of all documents and sequences of files", [BE + "DataTypeImporter.c", BE + "customDataType.c", BE + "padding.h"],
      [("layout", BE + "DataTypeImporter.c: setPaddingMemsize"), ("members", BE + "DataTypeImporter.c: setDataTypeMembersTypeIndex"), ("lookup", BE + "customDataType.c")],
      why=BY, technique=BW, note=BN + " More than 255 members or 1000 types are not covered; an abstract type of an earlier file is not recognised as abstract.",
      observe="the server's custom data types after the import"),
    P("C39", "Reference types are classified as server and files define them",
      "The loader takes a reference type for hierarchical, non-hierarchical or the type definition exactly if the server's type hierarchy or the files make it one: subtypes at any depth and of any number at the server, those of this file in terms of its other types, and those of earlier files. Only HasSubtype makes a subtype.",
      ["inputs", "histories"], "all hierarchies of reference types at the server and in the files", [BE + "RefServiceImpl.c"],
      [("classification", BE + "RefServiceImpl.c: isHierachicalRef, isNonHierachicalRef, isTypeDefRef"), ("new types", BE + "RefServiceImpl.c: addnewRefType")],
      why=BY, technique=BW, note=BN + " A child type declared before its parent type is not covered.", observe="answers of the reference service"),
    P("C40", "Importing into a server misuses no memory and leaves nothing",
      "For any document - using everything, well-formed or not, with elements, attributes or texts missing or arbitrary, values which do not fit their data type - with nodes the server refuses, failing files and several files one after the other, every access of NodesetLoader_loadFile lies inside a live object, nothing is released twice, and once the custom data types were cleaned up nothing of the imports is left.",
      ["inputs", "fault_sequences"], "all documents, refusals, failures of the file and sequences of files", [BE + "import.c", BE + "Value.c", BE + "DataTypeImporter.c", BE + "customDataType.c", BE + "RefServiceImpl.c", BE + "ServerContext.c"],
      [("values", BE + "Value.c: setScalar, setStructure, setArray"), ("clean-up", BE + "customDataType.c: NodesetLoader_cleanupCustomDataTypes"), ("node ids", BE + "import.c: NodesetLoader_loadFile")],
      why=BY, technique="ownership and bounds analysis of the loader and its backend by abstract interpretation", note=BN + " Failing allocations are not considered."),
    P("C41", "Every file's namespaces are replaced by the server's everywhere",
      "Whatever namespaces a file lists, in whatever order and with whatever indexes the server answers, every id and qualified name the server is given - of nodes, browse names, parents, references, type definitions, data types with their members and encodings, and inside values - carries the server's index of the namespace its own file means, also when several files with other lists are imported one after the other.",
      ["inputs", "configurations", "histories"], "all lists of namespaces, answers of the server and places of an id, over sequences of files", [BE + "ServerContext.c", BE + "import.c", BE + "Value.c", "src/NamespaceList.c"],
      [("mapping", BE + "ServerContext.c"), ("values", BE + "Value.c: translation of NodeIds and QualifiedNames")],
      why=BY, technique=BW, note=BN + " Indexes the file does not declare are not covered."),
]
NA = [
    dict(id="C42", title="Import time and memory grow in proportion to the document",
         statement="Importing and sorting a document takes time at most proportional to its size times the logarithm of its number of nodes, and memory proportional to its size.",
         over=["inputs"], all="all documents, in particular large ones", files=["src/Sort.c", "src/CharAllocator.c", "src/AliasList.c", "src/Nodeset.c"],
         mech=[("search tree", "src/Sort.c"), ("growing tables", "src/nodes/NodeContainer.c, src/AliasList.c")],
         why="Tests run on small files and measure nothing.",
         reason="The number of steps depends on runtime quantities (numbers of nodes, aliases, references and their distribution); an amortised cost bound for these loops is out of reach of the analyses here, and timing is no static argument. The balance of the search tree as such is part of C21."),
    dict(id="C43", title="Malformed XML is rejected, entities and encodings are decoded",
         statement="A file which is not well-formed XML is rejected, and character references, entities, CDATA sections and encodings reach the nodes as the characters they stand for.",
         over=["inputs"], all="all byte sequences", files=["src/Parser.c"],
         mech=[("SAX parser", "src/Parser.c: Parser_run (libxml2)")],
         why="Tests load well-formed files in one encoding.",
         reason="Decided inside libxml2, whose sources are not part of this repository; what the loader does with its verdict and its texts, in any number of pieces, is C04, C05 and C11."),
    dict(id="C44", title="Reading the nodes back from the server gives the document's content",
         statement="After loading a file, browsing and reading the server's address space returns the nodes, attributes, references and values of the file.",
         over=["inputs", "histories"], all="all documents and sequences of files", files=["backends/open62541/src/import.c"],
         mech=[("calls of the server", "backends/open62541/src/import.c")],
         why="The backend tests read back a few nodes of fixed files.",
         reason="Depends on open62541, which is neither part of the repository nor installed; what the server is given is decided in C34 to C41, what it makes of it cannot be."),
]

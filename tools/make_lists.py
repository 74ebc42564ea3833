import json
S="src/svdsuite/"
def P(id,title,statement,over,text,why,files,mech,observe):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],mechanism=[dict(name=n,where=S+w) for n,w in mech],observe_at=observe,hook_needed=None))
I=["inputs"]
out=[
P("P01","Parsing carries the whole document into the model and nothing else",
 "Parsing a well-formed SVD document yields a model with exactly the elements, attributes, values and order of the document, at every level, and with 'absent' kept apart from any stated value. Comments, processing instructions, CDATA, entities declared in the document, indentation, attribute order and quoting have no influence on it. Every parsed element refers to the element that contains it as its parent.",
 I,"every SVD document over all elements and attributes of the schema, in every way of writing it down",
 "tests sample some elements one at a time; a dropped, swapped or defaulted value in one of ~150 element/parent combinations shows only on the document that states it",
 ["parse.py","model/parse.py"],[("one _parse_* method per element kind","parse.py"),("parent links set by the containing element","parse.py")],["Parser(...).get_parsed_device()"]),
P("P02","Literals mean what their notation says, or are refused",
 "Decimal, hexadecimal and binary numbers, booleans and the enumerated words of the standard (access, protection, usage, endian, CPU name, ...) are read as the value their notation denotes, at every place where they may occur. Anything else, and a number of thousands of digits, is refused with NotImplementedError, or for access read as 'not stated' with a warning; it is never guessed.",
 I,"every literal text at every place of a document that takes a number, boolean or enumerated word",
 "the literal space is unbounded and every position has its own call site; tests try a few literals at a few positions",
 ["parse.py","model/types.py"],[("_to_int, _to_bool and the from_str tables","parse.py"),("enumeration types","model/types.py")],["Parser(...).get_parsed_device()"]),
P("P03","Irregular documents are read like SVDConv reads them and reported",
 "Of a repeated element that may occur once, be it a value or one with elements inside such as cpu or range, the last one counts, of repeated lists (peripherals, registers, fields) every one is read, surrounding blanks are stripped, unknown elements and attributes are ignored, element order does not matter, and an empty element counts as absent; repetition, stripping, a missing schema location, device description or interrupt value are reported by a ParserWarning and regular documents by none. A document without an element that is mandatory is refused with ParserException.",
 I,"every document obtained from a regular one by dropping, emptying, repeating, padding, splitting, reordering or adding elements",
 "the irregularities combine with every element kind; tests try a few pairs",
 ["parse.py","util/parser_exception_warning.py"],[("_parse_element_text / _parse_element_attribute","parse.py")],["Parser(...)","warnings"]),
P("P04","All entry points agree, whatever encoding and path",
 "Reading a document from a file, from bytes or from text gives the same parsed device, processed device and register map, whatever file name it has and whatever encoding it is stored in, as long as the encoding is declared or has a byte order mark. Text is already decoded, so a declaration inside it changes nothing; bytes that do not fit the declaration are read with the documented fallback encodings, with a ParserWarning.",
 ["inputs","configurations"],"every document, entry point, encoding and path name",
 "tests use UTF-8 ASCII content and plain file names; the product of entry point, encoding and path is not sampled",
 ["parse.py","process.py","map.py","util/xml_parse.py"],[("safe_parse and safe_fromstring with fallback encodings","util/xml_parse.py"),("from_svd_file / from_xml_str / from_xml_content","process.py")],["Parser, Process, PeripheralRegisterMap constructors"]),
P("P05","Serializing and parsing again gives the same device",
 "Writing a device model with at least one peripheral as text, bytes or file and parsing it again gives an equal model: no element, attribute or value is lost, added, moved or changed, in pretty-printed and compact form and for any characters XML can carry. Serializing does not change the model, and doing it twice gives the same bytes. A device with characters XML cannot carry is refused, leaving an existing file as it was.",
 I,"every device model a document can give rise to",
 "tests compare files of fixed models; a value dropped for one element kind or one falsy value (0, false, empty) shows only on a model that has it",
 ["serialize.py","parse.py"],[("one to_xml per element kind","serialize.py")],["Serializer.device_to_svd_*","Parser"]),
P("P06","What can be written schema-valid is written schema-valid",
 "A device model that the published schema of a version can express is serialized to a document that schema accepts, whatever the order in which the source document stated its elements. This covers element order, enumerated words, number formats, booleans and attributes.",
 I,"every model whose content the schema allows",
 "the schema prescribes the order of up to 30 optional children per element; tests validate a handful of outputs",
 ["serialize.py","validate.py"],[("order of the children written by each to_xml","serialize.py")],["Serializer.device_to_svd_*","the published XSDs"]),
P("P07","The validator's verdict is that of the published schema",
 "For every published version the validator accepts exactly the documents the published schema of that version accepts, with the newest version as default. It gives the same verdict for file, bytes and text; on a document that is not valid it raises or returns False just as asked.",
 ["inputs","configurations"],"every document, schema version and entry point",
 "tests validate a few files; a weakened or exchanged schema, or a wrong default, shows only on documents that tell the versions apart",
 ["validate.py","schema/1.3.10.xsd"],[("schema file chosen by version, latest as default","validate.py")],["Validator.validate_xml_*"]),
P("P08","Device and CPU statements reach the processed device",
 "All statements of a device, its CPU, SAU configuration and regions reach the processed device unchanged. What is not stated has the documented default (size 32, read-write, any protection, reset value 0, reset mask 0xFFFFFFFF, vtor present, SAU regions enabled, other CPU features absent, ...), and a stated 0 or false is not replaced by a default.",
 I,"every combination of stated and absent device, CPU and SAU properties",
 "tests state everything or nothing; a default that overrides a stated falsy value shows only on that combination",
 ["process.py","model/process.py"],[("_process_device, _process_cpu, _process_sau_*","process.py")],["Process(...).get_processed_device()"]),
P("P09","Register properties are inherited from the closest level stating them",
 "size, access, protection, resetValue and resetMask of each peripheral, cluster, register and (access) field are those it states or inherits by derivation, otherwise those of the closest enclosing element that has them, otherwise the device defaults. The effective size of a cluster or peripheral follows the sizes of the registers inside as SVDConv adjusts it, and a stated 0 is a value.",
 I,"every nesting of levels with every subset of the properties stated at each",
 "2^25 patterns of stated properties over five levels; tests cover single-level cases",
 ["process.py"],[("_InheritProperties","process.py"),("effective size calculation","process.py")],["Process(...).get_processed_device()"]),
P("P10","dim, dimIncrement and dimIndex expand to exactly the described elements",
 "A peripheral, register, cluster, field or list with dim n expands into n elements, named by replacing %s with the indices of dimIndex (numbers from 0 if absent, ranges and lists of letters and numbers) and [%s] with the position, placed dimIncrement apart, each with the template's content and its own copies of its children. The template itself does not appear, nested repetition multiplies, and a dim whose count, index and name do not fit together is refused with ProcessException.",
 I,"every dim count, increment, index form, nesting and combination with derivation",
 "tests use two or three elements at one level; wrong indices, offsets or shared children show for other counts, forms and nestings",
 ["process.py","resolve/resolver.py"],[("_DimensionProcessor / process_dim","process.py"),("_process_dimable_node","resolve/resolver.py")],["Process(...).get_processed_device()"]),
P("P11","A derived element has its own values and takes the others from its base",
 "In an element with derivedFrom every value it states itself counts, including 0 and false, and every inheritable value it does not state is the one its base states or has by its own derivation. Interrupts, the header struct name of a peripheral and other values SVDConv does not inherit stay its own. The base is not changed by being derived from.",
 I,"every subset of stated values, at every level, in chains of derivations and combined with dim",
 "tests derive single elements with few overrides; a value lost in a chain or by a falsy override needs that combination",
 ["process.py","resolve/resolver.py"],[("or_if_none(parsed, base) per value","process.py")],["Process(...).get_processed_device()"]),
P("P12","A derived element has its own children and those of its base",
 "A derived peripheral, cluster, register or field has its own children and all children of its base, at all depths and over any number of derivations; a name that occurs in both is refused like any duplicate. Copied children are elements of their own and get addresses and inherited properties from their new place, and derivations inside copied content are resolved as in the base.",
 ["inputs","programs"],"every structure of base and derived children, in several steps of derivation and with repeated elements",
 "the structures are unbounded and the resolver works in rounds; tests cover small fixed shapes",
 ["resolve/resolver.py","resolve/graph.py"],[("replication of descendants in the resolver graph","resolve/graph.py"),("_finalize_node / merging of children","resolve/resolver.py")],["Process(...).get_processed_device()"]),
P("P13","derivedFrom names its base by scope, also forwards",
 "The path of a derivedFrom is looked up among the siblings of the element first and, if nothing there matches, from the top of the device, through peripherals, clusters, registers and fields, also by the names repeated elements expand to. The base may come later in the document, may itself be derived or exist only by derivation, and the meaning does not depend on that. A path that matches several elements is refused with ProcessException, registers of alternate groups aside.",
 ["inputs","programs"],"every path from every kind of element to every element of the device, equal names in different scopes included",
 "name clashes across scopes and forward references combine; tests use unique names",
 ["resolve/resolver.py","resolve/graph_builder.py","resolve/graph.py"],[("_resolve_placeholder and path search","resolve/resolver.py")],["Process(...).get_processed_device()"]),
P("P14","Sibling order in the document has no influence on the processed device",
 "Permuting sibling peripherals, registers, clusters, fields, enumeration containers, address blocks or interrupts leaves the processed device the same; only address blocks at the same offset and interrupts of the same number keep the document's order. Either all permutations are accepted or all are refused.",
 ["inputs"],"every document and every permutation of siblings",
 "a metamorphic relation over permutations; tests fix one order each",
 ["resolve/resolver.py","resolve/graph.py","process.py"],[("rounds until nothing is processable, topological order","resolve/resolver.py")],["Process(...).get_processed_device()"]),
P("P15","Impossible derivations are refused and processing ends",
 "A derivedFrom that names nothing, the element itself, an element that contains it, an element of the wrong kind or a base that depends on it over any number of steps is refused with ProcessException. Processing comes to an end on every document, and documents without such a derivation are not refused for it.",
 ["inputs","programs"],"every graph of derivations, with cycles of any length through siblings, parents, children and repeated elements",
 "cycles through several levels and partially resolvable graphs are not in the tests",
 ["resolve/resolver.py","resolve/graph.py","process.py"],[("cycle check, LoopException, UnprocessedNodesException","resolve/resolver.py")],["Process(...)"]),
P("P16","A field sits on the bits its position states, in any notation",
 "lsb/msb, bitOffset/bitWidth and bitRange are equivalent ways to place a field, and a part that is not stated comes from the base of the derivation; repeated fields are dimIncrement bits apart. The processed field reports the same position in all its position values, and a field without a full position is refused with ProcessException.",
 I,"every position in every notation, partly stated, derived and repeated",
 "the notations combine with derivation and repetition; tests cover each alone",
 ["process.py"],[("_process_field_msb_lsb","process.py")],["Process(...).get_processed_device()"]),
P("P17","Fields share bits only if no access reaches both",
 "Two fields of one register whose bits overlap are accepted only if one is read-only and the other write-only, with effective access after inheritance. Any other overlap is refused with ProcessException, and fields that do not overlap never are.",
 I,"every arrangement of fields, accesses and ways the access is inherited",
 "pairs of intervals times accesses; tests cover a few pairs",
 ["process.py"],[("read and write interval lists in field finalization","process.py")],["Process(...)"]),
P("P18","Enumerated values mean what their literals say",
 "Each enumerated value stands for the numbers its literal denotes: binary, hexadecimal or decimal, with don't-care bits standing for all their combinations; the default stands for exactly the values of the field not covered otherwise. Reserved names, duplicate names or values and values that do not fit the field are left out with a warning, and the rest is there, sorted by value, with its description.",
 I,"every set of literals, widths, wildcards and defaults",
 "exponential space of literals and wildcards; tests try a few per form",
 ["process.py"],[("_ProcessEnumeratedValueContainer","process.py"),("range check in finalization","process.py")],["Process(...).get_processed_device()"]),
P("P19","At most one enumeration per direction; derived enumerations are copies",
 "A field has at most one enumeration for reading and one for writing: with none stated the usage is read-write, and two for the same direction, inherited ones included, are refused with ProcessException. An enumeration derived from another one anywhere in the device is a copy of it. A derived field has its own enumerations and those of its base.",
 ["inputs","programs"],"every combination of containers, usages and derivations of containers and fields",
 "containers are resolved by their own mechanism across the whole device; tests cover direct cases",
 ["process.py","resolve/resolver.py"],[("enumerated value container resolution","resolve/resolver.py")],["Process(...).get_processed_device()"]),
P("P20","Addresses, extents and order follow from the offsets",
 "The absolute address of each register and cluster is the peripheral's base address plus all offsets on the way. End address and size of a cluster and the effective ones of a peripheral cover exactly what is inside, the others of a peripheral follow from its address blocks. Peripherals, registers, clusters, fields and address blocks are listed by ascending address or position.",
 I,"every nesting, repetition and derivation",
 "arithmetic over arbitrary nesting; tests check a few addresses",
 ["process.py"],[("_ValidateAndFinalize address calculation and sorting","process.py")],["Process(...).get_processed_device()"]),
P("P21","What must be left out is left out and nothing else",
 "Registers and fields named 'reserved', elements whose size is no multiple of 8, clusters and peripherals without registers are left out of the processed device, and no other element is. Two elements of the same name in one scope, a peripheral without address block and unsupported sizes are refused with ProcessException.",
 I,"every document with such elements at any level, also by derivation and repetition",
 "the rules interact with derivation, emptiness propagating upwards and naming; tests try each alone",
 ["process.py"],[("_ValidateAndFinalize","process.py")],["Process(...).get_processed_device()"]),
P("P22","Everything questionable is reported by a ProcessWarning, nothing else is",
 "Overlapping peripherals, address blocks, registers and clusters that are not alternates of each other, misaligned addresses, fields beyond their register, values out of range and everything left out are each reported by a ProcessWarning, which names the elements of an overlap. A document without such flaws gives no ProcessWarning.",
 I,"every arrangement of overlapping, alternate, misaligned and oversized elements",
 "overlap is a relation over all pairs of elements and the closure of alternates; tests cover pairs",
 ["process.py"],[("overlap checks with alternates","process.py")],["warnings issued by Process(...)"]),
P("P23","A processed device converted back stands for the same device",
 "Converting a processed device to a parsed one gives a model without derivedFrom or dim whose processing, also after serializing and parsing it, gives the same processed device again. Converting changes neither the processed device nor depends on being done before, and every converted element has its parent. The converted model consists of objects of its own: changing it changes neither the processed device nor the model that was processed.",
 ["inputs","histories"],"every processed device",
 "a fixed-point law over all devices; tests compare a few fields of a few conversions",
 ["util/process_parse_model_convert.py","process.py","serialize.py"],[("process_parse_convert_*","util/process_parse_model_convert.py")],["convert_processed_device_to_svd_device","Serializer","Process"]),
P("P24","Processing is pure and deterministic",
 "Processing, converting and serializing leave the parsed device as it was, so that it can be processed again with the same result. The same document gives the same device, the same warnings in the same order and the same written file in every run, whatever the hash seed, the locale and the options of the interpreter.",
 ["inputs","histories","configurations"],"every document, number of repetitions and hash seed",
 "needs repeated runs in several interpreters over many documents; tests run once",
 ["process.py","resolve/resolver.py","resolve/graph.py"],[("copies made by the resolver, ordered traversal","resolve/graph.py")],["Process(...)","warnings","Serializer"]),
P("P25","The register map lists every register at its absolute address",
 "The register map has one entry per processed peripheral, sorted by address, with a flat list of exactly its registers, those in clusters included, each with the absolute address, size, access, protection, reset values, texts and fields of the processed register. The allocated range of a peripheral reaches from the first to the last byte of its address blocks.",
 I,"every processed device",
 "arbitrary nesting of clusters and arrangements of address blocks",
 ["map.py","model/map.py"],[("_build_map*","map.py"),("_get_allocated_range","map.py")],["PeripheralRegisterMap"]),
P("P26","Logging the resolving changes nothing and gives a readable log",
 "Asking for a resolver log changes neither the result nor the warnings nor whether the document is refused. The log file is written, also when the document is refused, is readable and shows the derivation graph and lists with every element and every derivedFrom of the document; without asking no file is written.",
 ["inputs","configurations"],"every document, with and without log, through every entry point",
 "no test switches the log on",
 ["resolve/logger.py","resolve/graph.py","util/html_generator.py"],[("ResolverLogger decorator","resolve/logger.py"),("get_svg","resolve/graph.py")],["the log file","Process(...)"]),
P("P27","Any input gives a device or a documented refusal",
 "Whatever bytes are read, parsing gives a model or raises ParserException, NotImplementedError or lxml's XMLSyntaxError; whatever model parsing gives, processing gives a device or raises ProcessException (documents that ask for more elements than memory holds aside), and the results can be mapped, converted and serialized (unless a text recovered from damage holds characters XML cannot carry). Bytes that are no well-formed document are only read with a ParserWarning. Where a damaged document still has a defined meaning, that meaning is what comes out.",
 ["inputs"],"every sequence of bytes; structured damage to valid documents in particular",
 "robustness against arbitrary damage; tests try chosen errors",
 ["parse.py","process.py","util/xml_parse.py","resolve/resolver.py"],[("exceptions of parser and resolver turned into the documented ones","process.py")],["Parser, Process, Validator, Serializer, PeripheralRegisterMap"]),
P("P28","Processed elements refer back to the parsed element they came from",
 "Every peripheral, cluster, register, field, enumeration, enumerated value, address block, interrupt and CPU element of the processed device refers to the parsed element that describes it: for copies made by repetition or derivation the element that was copied. The references lead into the very model that was processed.",
 I,"every document with repetition and derivation",
 "tests hardly look at the references; wrong ones show for copied content only",
 ["process.py","resolve/resolver.py","model/process.py"],[("parsed= handed through all stages","process.py")],["the parsed attribute of processed elements"]),
P("P29","Documents do not influence each other",
 "Reading, processing, mapping, converting and writing several documents in any interleaving, in one thread or in several, gives for each of them what it gives alone. No result depends on what was handled before, nor on steps that failed or were broken off by an interruption before.",
 ["histories","schedules"],"every interleaving of the steps over several documents, and threads",
 "each test handles one document in one thread",
 ["process.py","resolve/resolver.py","parse.py","util/xml_parse.py"],[("all state held per instance","resolve/resolver.py")],["Parser, Process, PeripheralRegisterMap, Serializer"]),
P("P30","A model changed or made by a program is used as it stands",
 "A parsed device that a program has changed - values set, elements added, removed, reordered or listed in several places - or built itself, with or without parent links, is processed, converted and written by its values at that moment, just like a document that states them. Earlier processing leaves no traces in it, and a device processed, converted or written before stays what it was when the model changes later.",
 ["histories","programs"],"every sequence of changing, processing, converting and writing a model",
 "the outcome must depend on the present values only, not on what happened before; tests build or parse a model once and process it once",
 ["process.py","serialize.py","resolve/resolver.py","model/parse.py"],[("copies made by the resolver","resolve/resolver.py"),("Process takes a device model","process.py"),("dataclasses of the model","model/parse.py")],["Process(...)","Serializer","convert_processed_device_to_svd_device"]),
P("P31","Reading a document touches nothing but that document",
 "Reading, processing, mapping or validating a document opens no other file and makes no connection, whatever the document refers to: external entities, DTDs, XInclude, stylesheets, catalogs, schema locations. Text of other files never gets into the result, references that are not used do not change it, and entities that expand to huge texts do not exhaust time or memory.",
 I,"every document with references out of it, by any mechanism of XML, through every entry point",
 "no test contains such a reference; whether one is followed depends on parser options that matter for these documents only",
 ["util/xml_parse.py","parse.py","validate.py"],[("lxml parser options","util/xml_parse.py"),("schema loading","validate.py")],["Parser, Process, PeripheralRegisterMap, Validator"]),
P("P32","What becomes of warnings is the caller's decision",
 "ParserWarning and ProcessWarning go through Python's warning filters only: ignored, shown once, recorded or turned into exceptions, as a whole, by category or by message. Ignoring them changes nothing else. With a filter that makes some of them errors, the first such warning arrives as that exception, with its class and text, after the warnings before it and instead of a result; nothing swallows or replaces it, and the parsed model and later runs are as if it had not happened.",
 ["inputs","configurations"],"every document and every filter configuration, through every entry point",
 "tests record warnings with one filter; a warning raised inside a try block, or state left behind when one becomes an exception, shows only under the others",
 ["parse.py","process.py","util/xml_parse.py","model/types.py"],[("warnings.warn calls, except clauses around them","process.py")],["warnings, exceptions and results of Parser, Process, PeripheralRegisterMap and Validator"]),
P("P33","Models are plain values",
 "Parsed models, processed devices and register map entries compare equal exactly when their values are the same, whatever parent they belong to, and can be deep-copied, pickled and printed. A copy has the same values and structure - parent and parsed references lead to objects of the copy - and shares nothing with the original: it is processed and written the same, and changing it leaves the original alone. Printing shows an element's name and changes nothing.",
 ["inputs","histories"],"every model the parser or the processing can give",
 "models refer to each other in circles (parent, parsed); comparing, copying or printing them is hardly tested",
 ["model/parse.py","model/process.py","model/map.py"],[("dataclasses","model/parse.py"),("__repr__ methods","model/process.py")],["==, copy.deepcopy, pickle and repr of models"]),
P("P34","Effort stays bounded",
 "No shape of document makes reading, processing, converting, mapping or writing explode: as a document of one shape - chains and fans of derivations, repetitions, alternates, overlaps, nesting, lists of values - grows, the effort grows no faster than a small power of the size of the document and its result, whether it is accepted or refused.",
 I,"every shape of document, at every size",
 "the resolver searches, repeats and orders; tests use small documents only",
 ["resolve/resolver.py","resolve/graph.py","process.py"],[("resolution of placeholders and derivations","resolve/resolver.py"),("overlap and alternate checks","process.py")],["Parser, Process, Serializer, PeripheralRegisterMap"]),
]
with open("/verif/properties.jsonl","w") as f:
    for p in out: f.write(json.dumps(p)+"\n")
ids=[p["id"] for p in out]
tech={"P14":"metamorphic property-based testing (sibling permutations)","P24":"property-based testing: repeated runs and hash seeds compared",
"P27":"structure-aware mutation fuzzing against a reference model","P29":"property-based testing of interleavings, compared with single runs and a reference model",
"P34":"metamorphic property-based testing (effort counted at growing sizes)","P32":"metamorphic property-based testing (warning filters)","P33":"property-based testing of algebraic laws (equality, copying, pickling)",
"P30":"stateful (model-based) property-based testing","P31":"structure-aware fuzzing with monitored files and connections",
"P05":"property-based round-trip testing","P06":"property-based testing against the published schemas","P07":"differential property-based testing against golden schemas",
"P23":"property-based fixed-point and round-trip testing","P26":"metamorphic property-based testing (log on/off)","P25":"property-based testing against a reference model"}
note="Random generation from a seed; holds on everything generated (numbers in the evidence). Trusts lxml for XML, and the reference model written from the SVD rules; where the rules leave the meaning open the model abstains."
m=dict(version=1,setup_cmd="./setup.sh",checks=[dict(property=i,quick_cmd=f"./run.py {i} --tier quick",thorough_cmd=f"./run.py {i} --tier thorough",
  technique=tech.get(i,"property-based differential testing against an independent reference model"),level="exploration",level_note=note) for i in ids],
  not_applicable=[],hooks=dict(guard="SVDSUITE_NO_HOOKS",enable="no hooks: the checks import /repo/src as it is",source_commits=[]),
  notes="Seed and tier come from VERIF_SEED and VERIF_TIER; a replay file is run with ./run.py --replay FILE.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)

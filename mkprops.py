"""Writes properties.jsonl (kept as a script so that the statements are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "Instance data are persistent: no operation changes an existing node",
  "Whatever sequence of navigation, editing (put, delete, update, insert, merge), default completion, validation, XPath evaluation or serialization is performed, every instance node obtained earlier keeps its value, path and surrounding tree, and values passed in as arguments are left unchanged. Every successful edit returns a node that carries the edit, and a failed operation raises an exception and changes nothing.",
  ["histories", "inputs"], "all schemas, all instance trees, all histories of operations on any previously obtained node",
  "The doctests check a few single edits; sharing bugs need an edit through one node observed through another node after a multi-step history.",
  ["yangson/instance.py", "yangson/instvalue.py"],
  [("copy on write in put_member/delete_item/update/merge", "instance.py InstanceNode"), ("zipper siblings/before/after copies", "instance.py ObjectMember/ArrayEntry")],
  [{"name": "heap of instance nodes", "meaning": "every node obtained so far, as (tree, focus path)", "where": "instance.py InstanceNode"}],
  ["InstanceNode.value", "InstanceNode.path", "InstanceNode.top()"])

p("C02", "Zipper navigation and editing act exactly at the focus",
  "Moving the focus (member, entry, sibling, previous/next, up, top) never changes the tree and always lands on the addressed node. An edit changes exactly the addressed place - set/create member, delete item, replace value, insert before/after - leaves everything else of the tree as it was when the focus moves up, and the returned node's index, path and JSON pointer are those of its actual position; inexistent items and members not in the schema are refused with NonexistentInstance, NonexistentSchemaNode or InstanceValueError. An isolated instance (orphan_instance, orphan_entry) is the top of its own tree and behaves in the same way, with nothing above it.",
  ["histories", "inputs"], "all instance trees and all histories of navigation and edit steps",
  "Tests walk one fixed document; index/path bookkeeping and zipping only go wrong for particular sequences of inserts, moves and deletes.",
  ["yangson/instance.py"],
  [("zip/unzip", "instance.py _zip/_copy/_member/_entry"), ("index bookkeeping", "instance.py ArrayEntry.insert_*/next/previous")],
  [{"name": "focus", "meaning": "path into the tree", "where": "instance.py InstanceNode._key, parinst"}],
  ["InstanceNode.up", "InstanceNode.top", "InstanceNode.path", "InstanceNode.json_pointer"])

p("C03", "merge implements the YANG merge operation",
  "Merging a value into an instance replaces leaves and anydata, merges containers member by member, merges list entries with equal keys and appends the others in order, and unites leaf-list values appending the missing ones in order; nothing that is present in the receiver and not addressed by the merged value is lost. Merging is recursive, gives the same result for raw and cooked input, and merging the same value twice equals merging it once for keyed data.",
  ["inputs", "histories"], "all receivers and all merged values conforming to the same schema node",
  "Tests merge one list value; the rules interact with nesting, key order, duplicates and empty structures.",
  ["yangson/instance.py"],
  [("merge", "instance.py merge/_merge_list/_merge_container")], None, ["InstanceNode.merge"])

p("C04", "Instance identifiers, resource identifiers and routes address consistently",
  "For every node of a tree, its instance route - used directly, or printed and parsed back as an instance identifier - leads goto from the root to exactly that node and peek to its value. Instance identifiers and RESTCONF resource identifiers (with percent-encoding) denoting a node select that node; identifiers denoting nothing give NonexistentInstance from goto and None from peek, names unknown to the schema are refused, and look_up returns the first entry with the given key values.",
  ["inputs"], "all trees, all nodes, all key and leaf-list values including quotes, slashes, commas, spaces and non-ASCII characters",
  "Tests use a handful of literal identifiers with plain ASCII keys.",
  ["yangson/instance.py", "yangson/instroute.py", "yangson/datamodel.py", "yangson/parser.py"],
  [("identifier parsers", "instance.py InstanceIdParser/ResourceIdParser"), ("route selectors", "instance.py MemberName/EntryKeys/EntryValue/EntryIndex")],
  None, ["InstanceNode.instance_route", "DataModel.parse_instance_id", "DataModel.parse_resource_id", "InstanceNode.goto", "InstanceNode.peek"])

p("C05", "Schema (syntax) validation accepts exactly the conforming trees",
  "Validation with the syntax scope succeeds if and only if at every level each member is a data node of the schema admitted by the requested content type, by the choice/case structure and by its when conditions, all mandatory nodes, choices and lists required there are present, and every leaf value belongs to its type. Otherwise it raises SchemaError or YangTypeError located at an instance that really is in violation, with the error tag of that violation (the one its type gives, if any).",
  ["inputs", "configurations"], "all schemas (containers, presence, lists, leaf-lists, choices and cases, when, mandatory, config/state), all instance trees, all content types",
  "Tests have one module and about ten hand-picked bad instances; nullability and choice handling depend on combinations of nested optional, mandatory and conditional nodes.",
  ["yangson/schpattern.py", "yangson/schemanode.py", "yangson/instance.py"],
  [("schema patterns and derivatives", "schpattern.py"), ("_check_schema_pattern", "schemanode.py InternalNode"), ("when", "schemanode.py/schpattern.py ConditionalPattern")],
  None, ["InstanceNode.validate(ValidationScope.syntax, ctype)"])

p("C06", "Semantic validation enforces exactly the semantic constraints",
  "Validation with the semantics scope succeeds if and only if every list entry has its keys, keys and unique combinations are not repeated, configuration leaf-list values are distinct, the number of entries is within min-elements/max-elements, every must expression of an instance present in the data is true, and every leafref or instance-identifier that requires an instance has one, where default values in use count as existing. Otherwise it raises SemanticError (or SchemaError for a missing key) at an instance in violation with the error tag prescribed by YANG or by the model; the scope all is the conjunction of syntax and semantics.",
  ["inputs", "configurations"], "all schemas with such constraints, all instance trees, all scopes and content types",
  "Tests break each constraint once in one document.",
  ["yangson/schemanode.py", "yangson/datatype.py", "yangson/xpathast.py"],
  [("_validate/_check_*", "schemanode.py SequenceNode/ListNode/LeafListNode"), ("must", "schemanode.py _check_must"), ("leafref/instance-identifier _deref", "datatype.py")],
  None, ["InstanceNode.validate(ValidationScope.semantics|all, ctype)"])

p("C07", "Default completion adds exactly the defaults in use",
  "add_defaults adds precisely the YANG default values that are in use - leaf and leaf-list defaults of absent nodes, inside existing list entries and existing or non-presence containers, in the selected case or else the default case, subject to when conditions and to the requested content type - and never overrides, reorders or removes data that are present. It is idempotent, a valid tree stays valid, and with tagging exactly the members added are annotated as defaults (at the topmost level added), the data being the same as without tagging.",
  ["inputs", "configurations"], "all schemas with defaults, all instance trees, all content types",
  "Tests complete one document of one module.",
  ["yangson/schemanode.py", "yangson/instance.py"],
  [("_add_defaults/_default_instance/_default_value", "schemanode.py"), ("add_defaults", "instance.py")],
  None, ["InstanceNode.add_defaults"])

p("C08", "JSON decoding and encoding are exact inverses on the YANG value space",
  "Reading JSON data succeeds exactly for the RFC 7951 encodings admitted by the schema (member naming, 64-bit and decimal numbers as strings, [null] for empty, qualified identities, base64, arrays for lists) and writing the result back yields the same document up to canonical forms; anything else is refused with RawDataError, RawMemberError or RawTypeError naming the offending path, never another exception. Metadata annotations survive the round trip.",
  ["inputs"], "all schemas over all built-in types and unions, all JSON documents",
  "Tests round-trip a few documents; per-type corner values, unions and malformed encodings are not covered.",
  ["yangson/schemanode.py", "yangson/datatype.py", "yangson/instance.py", "yangson/datamodel.py"],
  [("from_raw/to_raw", "datatype.py, schemanode.py"), ("raw_value", "instance.py")],
  None, ["DataModel.from_raw", "InstanceNode.raw_value"])

p("C09", "XML and JSON encodings of the same data are equivalent",
  "Serializing an instance (without anydata, which the XML code does not support) to XML and reading it back gives the same instance, with every element in its module's namespace, list entries in order and identities properly prefixed. XML text in any equivalent spelling (prefixes, default namespaces, element interleaving) decodes to the same tree as the corresponding JSON, and unknown elements or malformed values are refused with a raw-data exception.",
  ["inputs"], "all schemas, all valid instances, all equivalent XML spellings",
  "Tests convert two documents.",
  ["yangson/xmlparser.py", "yangson/schemanode.py", "yangson/datatype.py", "yangson/instance.py"],
  [("from_xml/to_xml", "schemanode.py, datatype.py, instance.py"), ("XMLParser/XMLReader", "xmlparser.py")],
  None, ["DataModel.from_xml", "InstanceNode.to_xml"])

p("C10", "XPath expressions evaluate according to XPath 1.0 and YANG",
  "Evaluating an XPath expression at any instance node yields the value prescribed by XPath 1.0 with the YANG additions: axes, node tests, predicates with position and size, the accessible tree including default values, conversions, comparisons with existential node-set semantics, IEEE arithmetic, the core functions, and current, deref, derived-from(-or-self), enum-value, bit-is-set and re-match. Evaluation never fails on an accepted expression whose operands have the types the operators require.",
  ["inputs", "programs"], "all expressions over all instance trees and context nodes",
  "Tests evaluate about sixty fixed expressions on one document.",
  ["yangson/xpathast.py", "yangson/nodeset.py", "yangson/instance.py"],
  [("Expr.evaluate", "xpathast.py"), ("NodeSet comparisons", "nodeset.py"), ("axes", "instance.py _children/_ancestors/...")],
  None, ["XPathParser.parse().evaluate()"])

p("C11", "XPath text is parsed by the grammar and printed faithfully",
  "Every XPath 1.0 expression is parsed with the standard operator precedence, left associativity, parentheses and token disambiguation, independent of white space, and every text outside the grammar is refused with a parser exception. Printing a parsed expression gives text that parses to an expression with the same meaning.",
  ["inputs", "programs"], "all token sequences",
  "Tests parse a fixed list of expressions.",
  ["yangson/xpathparser.py", "yangson/xpathast.py", "yangson/parser.py"],
  [("recursive descent parser", "xpathparser.py"), ("__str__", "xpathast.py")],
  None, ["XPathParser.parse", "str(Expr)"])

p("C12", "Features and if-feature conditions select exactly the enabled schema",
  "An if-feature expression is accepted exactly if it follows the YANG grammar and then evaluates with not, and, or precedence and parentheses over the set of features supported by the module that defines each of them. A statement guarded by if-feature contributes to the schema (nodes, identities, enums, bits, refinements, augments) if and only if all its conditions hold, and a data model that supports a feature without its prerequisites is refused.",
  ["inputs", "configurations"], "all if-feature expressions, all feature sets, all modules and prefixes",
  "Tests evaluate a few expressions under one feature set.",
  ["yangson/schemadata.py", "yangson/schemanode.py"],
  [("FeatureExprParser, if_features, check_feature_prerequisites", "schemadata.py")],
  None, ["FeatureExprParser.parse", "DataModel.schema_digest"])

p("C13", "A YANG library is loaded completely, in dependency order, or refused",
  "A data model built from a YANG library contains exactly the listed modules, revisions and submodules with their prefixes, namespaces and imports resolved to the listed revisions, independent of the order of the library entries and of hash randomization. Every import is processed before its importer, and a library that is malformed, lists missing or misnamed files, implements two revisions of one module, imports unlisted modules or has cyclic imports is refused with the documented exception.",
  ["configurations", "inputs"], "all libraries and module graphs (imports by revision, submodules, import-only modules, cycles)",
  "Tests load a few fixed libraries that are correct apart from one variation.",
  ["yangson/schemadata.py", "yangson/datamodel.py"],
  [("_from_yang_library, _process_imports, _check_feature..., _module_sequence", "schemadata.py")],
  None, ["DataModel()", "SchemaData.* lookups"])

p("C14", "Identity derivation is the transitive closure of base statements",
  "One identity is derived from another exactly if a non-empty chain of base statements leads from the first to the second, across modules, submodules and multiple bases; identityref values are accepted exactly if the identity is derived from all bases of the type. Queries about derivation do not influence the answers of later queries.",
  ["inputs", "histories"], "all identity graphs and all sequences of queries",
  "Tests query a six-node graph in a fixed order.",
  ["yangson/schemadata.py", "yangson/datatype.py", "yangson/xpathast.py"],
  [("IdentityAdjacency, derived_from, derived_from_all, is_derived_from", "schemadata.py")],
  None, ["SchemaData.is_derived_from/derived_from/derived_from_all", "identityref validation", "derived-from()"])

p("C15", "The schema tree is assembled from modules as YANG prescribes",
  "Groupings, uses with refine and augment, augments across modules, choice short-hand, submodules, config inheritance and deviations (add, replace, delete, not-supported) produce exactly the schema tree that YANG defines: the right nodes in the right namespaces with the right properties (kind, config, mandatory, presence, defaults, keys, cardinality, uniqueness, units, must, when, type). Rewriting a module into an equivalent form (inlining a grouping, replacing an augment by direct definition) does not change the schema.",
  ["configurations", "programs"], "all sets of modules built from these statements",
  "Tests load one module set and check selected nodes.",
  ["yangson/schemanode.py", "yangson/schemadata.py", "yangson/datamodel.py"],
  [("_handle_substatements, _uses_stmt, _refine..., _deviate...", "schemanode.py"), ("_build_schema", "datamodel.py")],
  None, ["DataModel.schema_digest", "DataModel.ascii_tree", "SchemaNode attributes"])

p("C16", "YANG source text is parsed exactly by the YANG grammar",
  "Every text is either parsed into the tree of statements (keyword, prefix, argument, substatements) that the YANG lexical rules prescribe - quoting styles, escapes, string concatenation, comments and white space in any legal place - or refused with a parser exception giving the position. Searching a statement for substatements, definitions or descriptions returns exactly the matching ones.",
  ["inputs"], "all texts",
  "Tests parse a few literal snippets and well-formed modules.",
  ["yangson/statement.py", "yangson/parser.py"],
  [("StatementParser/ModuleParser", "statement.py"), ("Parser primitives", "parser.py")],
  None, ["ModuleParser.parse", "Statement.find1/find_all"])

p("C17", "Types accept exactly their YANG value space",
  "For every built-in type and every chain of typedefs with range, length, pattern, enum, bit, fraction-digits and union restrictions, a value is accepted exactly if it satisfies the base type and all restrictions of the chain, whether it comes from text, JSON, XML or as a native value. Enum and bit values are assigned as YANG prescribes, defaults are inherited along the chain, the canonical text form parses back to the same value, and inconsistent restrictions are refused when the model is loaded.",
  ["inputs", "configurations"], "all restriction chains and all candidate values including boundary and malformed ones",
  "Tests probe a few values per type.",
  ["yangson/datatype.py", "yangson/constraint.py"],
  [("DataType._handle_*; parse_value, canonical_string, __contains__", "datatype.py"), ("Intervals, Pattern", "constraint.py")],
  None, ["DataType.parse_value/canonical_string/from_raw/__contains__", "validate"])

p("C18", "Validation is a pure function of the data",
  "Whether a validation succeeds depends only on the instance value, the scope and the content type: it is the same when repeated, when other validations - successful or failing - or other uses of the same data model happened before, on nodes reached by different navigation or editing routes, and on a freshly loaded data model. For members in the same order also the exception class, error tag and location are the same, and validation leaves the instance as it was. The one thing it changes, the validation counters of schema nodes, tell for each data node how many instances of it were in the values validated successfully since the counters were last cleared.",
  ["histories"], "all histories of validations, edits and navigations over one shared data model",
  "Tests validate each document once in a fixed order.",
  ["yangson/schemanode.py", "yangson/schpattern.py", "yangson/datatype.py", "yangson/instance.py"],
  [("state kept in schema nodes and types during validation", "schpattern.py ConditionalPattern, datatype.py error_tag")],
  [{"name": "schema pattern condition cache", "meaning": "result of when evaluated for the instance being validated", "where": "schpattern.py"}],
  ["InstanceNode.validate"])

p("C19", "Structured values compare and hash by content",
  "Two object or array values are equal exactly if they have the same kind, members or entries in order, and equal contents, regardless of member order, timestamps and construction history. Equal values have equal hashes, different values are never considered equal, and a copy is equal to but independent of the original at its top level.",
  ["inputs"], "all pairs of structured values",
  "Tests compare a few values; equality implemented through hashes only fails on collisions.",
  ["yangson/instvalue.py"], [("__eq__/__hash__/copy", "instvalue.py")], None, ["ObjectValue/ArrayValue == and hash()"])

p("C20", "Schema nodes are addressed consistently",
  "For every data node of a data tree (outside operations), its data path looked up in the data model returns that node; every schema node is returned for its schema path (with choices, cases, operations, input and output); the name of a data node in instance data is qualified exactly if its module differs from that of its data parent. Lookups of children, data children, data parents, state data roots and the splitting of instance routes agree with that. Paths and routes that denote no node give None or the documented exception, and the printed tree and the schema digest list exactly the nodes of the schema with their properties.",
  ["configurations", "inputs"], "all schemas, all nodes, all wrong paths",
  "Tests look up a handful of paths.",
  ["yangson/schemanode.py", "yangson/datamodel.py"],
  [("data_path, get_data_node, get_schema_node, get_child, get_data_child, iname", "schemanode.py, datamodel.py")],
  None, ["DataModel.get_data_node", "DataModel.get_schema_node", "SchemaNode.data_path", "DataModel.ascii_tree"])

p("C21", "Command-line tools report the truth",
  "The yangson command exits with status 0 exactly if the library loads and the requested validation of the given instance succeeds, prints the requested rendering, and otherwise exits with the documented status for the kind of failure and an explanation. convert8525 turns every RFC 8525 YANG library into an RFC 7895 library with the same modules, revisions, features, submodules and deviations.",
  ["inputs", "configurations"], "all libraries, instances, option combinations and failure kinds",
  "Shell tests run the tools on a few documents.",
  ["yangson/__main__.py", "yangson/convert8525.py"],
  [("main", "__main__.py"), ("convert", "convert8525.py")], None, ["exit status and output of the commands"])

p("C22", "Output filters and annotations act exactly on the addressed nodes",
  "Serialization with an output filter contains exactly the members and entries for which the filter agrees, calls the begin and end hooks properly nested once per node, and is identical to unfiltered output when the filter accepts everything. Metadata annotations stay attached to the node they annotate through decoding, editing of other nodes and encoding.",
  ["inputs"], "all instances with annotations, all filters",
  "Tests use one filter on one document.",
  ["yangson/instance.py", "yangson/schemanode.py"],
  [("raw_value/to_xml with OutputFilter, _get_attributes", "instance.py")], None, ["InstanceNode.raw_value(filter)", "InstanceNode.to_xml(filter)"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")

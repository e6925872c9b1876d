#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are readable and diffable)."""
import json, os
TI = "src/level2/trait_impls.rs"; NI = "src/level2/node_impl.rs"; TR = "src/level2/traits.rs"
P = []
def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

KIDS = ("i_child_nodes / i_parent_node", "the ordered child list of a node and the weak link back to its parent", NI)

prop("C01", "Tree links always agree and never form a cycle",
 "After any sequence of public calls, every node in another node's child list appears in it exactly once and reports that node as its parent, and every node that reports a (live) parent is in that parent's child list. "
 "No node is ever its own ancestor, counting an attribute as below its element.",
 ["histories", "inputs"], "every history of calls that insert, append, replace, remove, split, clone, normalize, or set or unset attribute values, on any number of documents and nodes, including calls that return an error",
 "Tests look at the lists after a handful of fixed insertions into a flat element; they never move a node that already has a parent, never insert a node under its own descendant, and cannot enumerate histories.",
 [TI, NI], [("insert_before", TI), ("replace_child", TI), ("remove_child", TI), ("new_parent_node", TI), ("unset_value", TI), ("split", TI)], [KIDS],
 ["parent_node()", "child_nodes()"])

prop("C02", "insert_before and append_child place exactly the given node",
 "A successful insert_before(new, ref) leaves this node's children as they were except that new - taken out of its old position, in this or another parent, if it had one - stands directly before ref, or last when ref is absent; append_child(new) is insert_before(new, none). "
 "It returns the inserted node, which now has this node as parent and keeps its own content; no other node's children, parent, name or value change. "
 "It fails with NotFound when the node may be inserted here but ref is not a child of this node.",
 ["inputs", "histories"], "every tree, every new child (fresh, an earlier or later sibling, ref itself, a child of another parent), every reference child",
 "The tests insert fresh elements before three positions of one five-child element; moves, self references and effects on other nodes are unobserved.",
 [TI], [("insert_before", TI), ("append_child", TI)], [KIDS], ["child_nodes()", "parent_node()"])

prop("C03", "remove_child and replace_child change exactly one position",
 "A successful remove_child(c) removes only c, keeps the order of the other children, returns c and leaves it without a parent; for a node that is not a child it fails with NotFound. "
 "A successful replace_child(new, old) leaves new in old's position (after taking new out of wherever it was), returns old without a parent, and changes no other position (replacing a node by itself leaves it in place); if old is not a child it fails with NotFound (unless new is not allowed there, then HierarchyRequest).",
 ["inputs", "histories"], "every tree, every child position, every new child including siblings of old and old itself",
 "Tests replace and remove at three positions of one list with fresh nodes only.",
 [TI], [("remove_child", TI), ("replace_child", TI)], [KIDS], ["child_nodes()", "parent_node()"])

prop("C04", "The content model is enforced on every insertion",
 "A node becomes a child only where the documented table allows it: elements, entities, entity references and document fragments take elements, text, CDATA sections, comments, processing instructions and entity references; attributes take text and entity references; documents take elements, comments and processing instructions; all other nodes take none. "
 "A document never has more than one element child, and a node is never inserted into itself or a descendant (the attributes of an element count as its descendants); every such attempt by insert_before, append_child or replace_child fails with HierarchyRequest.",
 ["inputs", "histories"], "every pair of the 12 node kinds, every position of the pair in the tree, every one of the three insertion calls, and every history for the one-element rule",
 "One test walks the kind table with append_child on fresh nodes (not for a Document parent); the single-element and ancestor rules depend on the history and are not exercised.",
 [TI], [("is_child_allowed", TI), ("insert_before", TI), ("replace_child", TI)], [KIDS], ["append_child()", "insert_before()", "replace_child()"])

prop("C05", "A failed structural change changes nothing",
 "When insert_before, append_child, replace_child, remove_child, split (on text or CDATA), or a character data edit returns an error, or set_attribute, set_attribute_node or remove_attribute_node (or an _ns form) returns an error, every node's children, parent, value, owner and attributes, and every document's ID registry, are exactly as before the call.",
 ["inputs", "histories"], "every call and argument for which one of these operations returns an error, in every reachable state",
 "Tests assert that an error is returned but never compare the state before and after it.",
 [TI], [("checks precede the first mutation", TI)], [KIDS], ["all read accessors"])

prop("C06", "Nodes stay with the document that created them",
 "Every node created by a document reports that document as its owner, a document itself has no owner, and a clone has the owner of the original. "
 "Inserting, replacing or setting as attribute a node that belongs to another document fails with WrongDocument, so a node in the tree of a document is owned by it.",
 ["inputs", "histories"], "every factory call and every insertion between any two live documents (cloning a whole document is not covered)",
 "One test appends one element of another document; other calls, other node kinds and the owner after a move are not covered.",
 [TI, NI], [("check_same_document", TI), ("insert_before", TI), ("set_attribute_node", TI)],
 [("i_owner_document", "weak link to the owning document", NI)], ["owner_document()"])

prop("C07", "Attributes of an element form a map by qualified name",
 "After a successful set_attribute(name, v) on an element, has_attribute(name) is true, get_attribute_node(name) is an attribute with exactly that qualified name whose text is v, and every attribute with a different qualified name is untouched; remove_attribute(name) makes exactly that one absent and succeeds also when it is absent. "
 "There is never more than one attribute with a given qualified name, and a lookup by a name that does not parse finds nothing.",
 ["inputs", "histories"], "every element, every history of set and remove calls with and without namespaces, every name and value",
 "Tests use four fixed attributes once each; replacement, prefixes that differ, and interference between attributes are not tested.",
 [TI], [("set_attribute / set_attribute_node", TI), ("get_attribute_node", TI), ("remove_attribute / remove_attribute_node", TI), ("has_attribute", TI)],
 [("i_attributes", "HashMap from Name to attribute node", NI)], ["get_attribute()", "get_attribute_node()", "has_attribute()", "attributes()"])

prop("C08", "Namespaced attribute access is by namespace and local name",
 "get_attribute_ns, get_attribute_node_ns, has_attribute_ns and remove_attribute_ns act on exactly the attribute whose namespace URI and local name equal the arguments, whatever its prefix, and never on one with no namespace or another namespace; set_attribute_ns(ns, qname, v) makes that lookup return the given qualified name and v. "
 "There is never more than one attribute with a given namespace URI and local name.",
 ["inputs", "histories"], "every element, every history of set and remove calls, every pair of namespace and local name",
 "Tests look up two namespaced attributes that share no local name with any other attribute.",
 [TI], [("set_attribute_ns", TI), ("get_attribute_node_ns", TI), ("has_attribute_ns", TI), ("remove_attribute_ns", TI)],
 [("i_attributes", "HashMap from Name to attribute node", NI)], ["get_attribute_ns()", "has_attribute_ns()"])

prop("C09", "An attribute node has exactly one owner element",
 "An attribute node reports element e as its owner element exactly when it is one of e's attributes: setting it makes e the owner, and removing or replacing it leaves it without one. "
 "Setting an attribute node that belongs to another element fails with InUseAttribute, removing an attribute node that is not on the element fails with NotFound, and setting a node that is not an attribute, or on a node that is not an element, fails with InvalidState; an attribute cannot be set on an element inside itself (HierarchyRequest).",
 ["inputs", "histories"], "every history of set_attribute, set_attribute_node, remove_attribute, remove_attribute_node and their _ns forms over any elements and attribute nodes",
 "Only one test looks at owner_element, after one set call; removal, replacement and sharing are untested.",
 [TI], [("set_attribute_node", TI), ("remove_attribute_node", TI), ("owner_element", TI)],
 [("i_owner_element", "weak link from an attribute to its element", NI)], ["owner_element()", "attributes()"])

prop("C10", "get_element_by_id finds exactly the element carrying the ID",
 "Once an ID attribute (xml:id by prefix or namespace; also any attribute with local name id when the document assumes IDs) with value v is set on an element, get_element_by_id(v) is that element until that attribute is removed or replaced, and then it is none; a value never set as ID is never found. "
 "Setting an ID value that another live element of the document already has fails with Syntax; setting it again on the same element succeeds.",
 ["histories", "inputs"], "every history of attribute set and remove calls on the elements of a document, both option settings, every value (changing the value of an attribute node after it was set is not covered)",
 "Tests look up three IDs after building one document and try one duplicate; removal, replacement and re-registration are untested.",
 [TI, "src/shared/name.rs"], [("set_attribute_node", TI), ("remove_attribute_node", TI), ("get_element_by_id", TI), ("is_id_attribute", "src/shared/name.rs")],
 [("i_id_map", "map from ID value to weak element", NI)], ["get_element_by_id()"])

prop("C11", "Names are parsed by the XML name grammar",
 "Parsing a string as a name succeeds exactly when it is one part, or two parts separated by a single colon, each a non-empty sequence of XML 1.1 name characters beginning with a name start character; the result has exactly these parts as prefix and local name and no namespace, and displays as the same string. "
 "An empty string, empty part or more than one colon is a Syntax error, any other violation an InvalidCharacter error (the first bad part in order local name then prefix decides), and no string makes it panic.",
 ["inputs"], "every UTF-8 string",
 "Tests parse three good names and nine bad ones, all ASCII.",
 ["src/shared/name.rs", "src/shared/text.rs"], [("Name::from_str", "src/shared/name.rs"), ("check_part", "src/shared/name.rs"), ("is_xml_name", "src/shared/text.rs"), ("is_xml_name_start_char / is_xml_name_char", "src/shared/text.rs")], (), ["Name::from_str", "create_element()"])

prop("C12", "Reserved prefixes are bound to their namespaces only",
 "A name with a namespace is accepted exactly when the qualified name parses, the URI is not empty (else Syntax), and neither the prefix nor the local name is xml without the XML namespace or xmlns without the XMLNS namespace (else Namespace); it then has exactly the given URI, prefix and local name. "
 "A name is a namespace attribute exactly when it is in the XMLNS namespace and is xmlns itself or has the prefix xmlns; it is an ID attribute exactly when its local name is id and (unless IDs are assumed) it has the prefix xml or the XML namespace.",
 ["inputs"], "every pair of URI and qualified name; every name for the predicates",
 "Tests try eight combinations.",
 ["src/shared/name.rs"], [("Name::new_ns", "src/shared/name.rs"), ("check_namespace_uri", "src/shared/name.rs"), ("is_namespace_attribute", "src/shared/name.rs"), ("is_id_attribute", "src/shared/name.rs")], (), ["Name::new_ns", "create_element_ns()"])

prop("C13", "Character data is escaped exactly once and only where needed",
 "data() of a text or comment node is its value with each of & ' > < \" replaced by its decimal character reference and every other character kept, in order, and data() of a CDATA section and of a processing instruction is its value unchanged; no value gives none. "
 "length() is the number of bytes of data(), and the output never contains < > ' or \", nor an & that does not start one of these five references.",
 ["inputs"], "every string value of every character data node",
 "One test checks one ampersand in one sentence.",
 [TR, "src/shared/text.rs"], [("CharacterData::data", TR), ("escape", "src/shared/text.rs"), ("to_entity", "src/shared/text.rs")], (), ["data()", "length()"])

prop("C14", "Character data edits are exact and safe for every offset",
 "With byte offsets into the node's value, substring_data returns, and delete_data, insert_data and replace_data change, exactly the addressed range (clipped at the end of the value), keeping everything before and after it; append_data appends, and set_data and unset_data replace the whole value. "
 "An offset beyond the end, or a range that would split a character, is an IndexSize error (a zero count or empty insertion is a no-op that succeeds), and no offset and count, however large, cause a panic.",
 ["inputs"], "every value, every offset and count in the full usize range, every replacement string",
 "Tests use one ASCII sentence and about fifteen offset and count pairs, none near overflow or inside a multi-byte character.",
 [TI, TR], [("substring_data", TI), ("replace_data", TI), ("insert_data / delete_data / append_data", TI), ("set_data / unset_data", TR)], (), ["node_value()", "data()", "substring_data()"])

prop("C15", "split divides a text node in place and loses nothing",
 "Splitting a text or CDATA node at a byte offset leaves the value before the offset in it and returns a new node of the same kind, owned by the same document, with the rest (empty when the offset is at or beyond the end); if the node has a parent the new node is inserted as its next sibling, otherwise it has no parent. "
 "The two values concatenated are the old value, and no other node changes; an offset inside a character is an IndexSize error.",
 ["inputs", "histories"], "every text or CDATA value, every offset, every position in a parent",
 "Tests split four ASCII values without escaped characters.",
 [TI], [("split", TI)], [KIDS], ["node_value()", "next_sibling()"])

prop("C16", "normalize merges adjacent text and changes nothing else",
 "After normalize() there is no empty text node and no two adjacent text nodes among the children of the node or of any descendant in the tree, the children other than text nodes are the same nodes in the same order, and between any two of them (and at both ends) the concatenated text value is unchanged. "
 "CDATA sections, comments and all other nodes keep their values.",
 ["inputs", "histories"], "every tree with every arrangement of text, empty text, CDATA and other children",
 "Two tests count the children after normalizing one flat list each; neither looks at the text or below the first level.",
 [TI], [("normalize", TI)], [KIDS], ["child_nodes()", "node_value()"])

prop("C17", "A clone is an equal and independent copy",
 "clone_node(deep) of any node but a document returns a new node with no parent and the same type, name, value and owner document; a deep clone has clones of all children in the same order (each with its clone as parent), a shallow one none, and a cloned element has its own clone of every attribute, owned by it, whatever deep is. "
 "The original and everything reachable from it are unchanged, and no later change to one through its children or attributes shows in the other.",
 ["inputs", "histories"], "every node kind but Document, every subtree, deep and shallow",
 "The only test of clone_node is ignored (unimplemented).",
 [TI, NI], [("Node::clone_node", TI), ("NodeImpl::clone_node", NI), ("new_parent_node", TI)], [KIDS], ["clone_node()"])

prop("C18", "Factories create exactly the requested node",
 "Each create_ method of a document returns a fresh node of the requested kind, owned by that document, without parent and children (an attribute created with a value has one text child holding it), with the given name and value or the fixed name of its kind, and changes no existing node. "
 "It fails exactly when the name is not a valid (qualified) name, or a processing instruction target is xml in any letter case (Syntax).",
 ["inputs"], "every factory, every name, namespace and data string",
 "Tests call each factory with one or two well-formed arguments.",
 [TI, NI], [("create_*", TI), ("NodeImpl::new_*", NI)], (), ["create_element()", "create_text_node()", "create_processing_instruction()"])

prop("C19", "Navigation agrees with the child list",
 "first_child and last_child are the ends of child_nodes, has_child_nodes says whether it is non-empty, and previous_sibling and next_sibling of a child are its neighbours in its parent's child_nodes, none at the ends or without a parent. "
 "Attributes have no parent and no siblings, has_attributes says whether attributes() is non-empty, which it is only for elements; document_element is the first element child of the document.",
 ["inputs", "histories"], "every node in every reachable tree",
 "Tests walk the siblings of one five-element list.",
 [TI], [("first_child / last_child / has_child_nodes", TI), ("previous_sibling / next_sibling", TI), ("parent_node", TI), ("document_element", TI)], [KIDS], ["next_sibling()", "previous_sibling()", "document_element()"])

prop("C20", "Type tests and casts follow the node type",
 "Each is_ function is true exactly for nodes of its type (character data: text, CDATA and comment), and the matching as_ and as_mut functions succeed exactly then, giving the same node, and otherwise return InvalidState. "
 "They change nothing.",
 ["inputs"], "every function of the conversion modules and every node type",
 "Tests cast nodes they have just made, almost always successfully.",
 ["src/level2/convert.rs", "src/level2/ext/convert.rs", "src/shared/convert.rs"], [("make_is_as_functions", "src/shared/convert.rs"), ("is_character_data / as_character_data", "src/level2/convert.rs")], (), ["as_element()", "is_text()"])

prop("C21", "get_elements_by_tag_name returns every match in document order",
 "For an element it returns exactly those of the element itself and its descendant elements (reached through elements only) whose qualified name equals the argument, all of them for *, each once, in preorder; for a document it is the result for its document element, or nothing without one. "
 "The _ns form matches namespace URI and local name in the same way, with * as wildcard for either; an element without namespace matches only the namespace *.",
 ["inputs", "histories"], "every tree, every name, wildcard and namespace (names that are themselves * do not occur)",
 "Tests query one fixed three-level document.",
 [TI], [("get_elements_by_tag_name", TI), ("get_elements_by_tag_name_ns", TI), ("tag_name_match / namespaced_name_match", TI)], (), ["get_elements_by_tag_name()"])

prop("C22", "Namespace prefixes resolve to the nearest declaration",
 "In a document that adds namespaces, an element has the mapping p to u after an attribute xmlns:p (or xmlns for the default) in the XMLNS namespace with value u is set on it, until that attribute is removed or replaced; get_namespace, contains_mapping, get_prefix and contains_mapped_namespace report the element's own mappings. "
 "resolve_namespace and resolve_prefix give the own answer if there is one and otherwise that of the nearest ancestor with one; in documents that do not add namespaces every query finds nothing, and a node that is not an element has no mappings of its own.",
 ["inputs", "histories"], "every tree, every set of mappings, every prefix and URI, both option settings",
 "Tests insert mappings through a private method in one three-level tree; mappings from attributes are never queried.",
 ["src/level2/ext/namespaced.rs", TI], [("Namespaced for RefNode", "src/level2/ext/namespaced.rs"), ("set_attribute_node", TI), ("remove_attribute_node", TI)],
 [("i_namespaces", "map from prefix to URI of one element", NI)], ["resolve_namespace()", "get_prefix()"])

prop("C23", "Serialization writes every part once and in order",
 "Displaying a node writes it as XML: an element is its start tag with each attribute once as name=\"value\", its children in order, and its end tag; text, comments, processing instructions, CDATA, entity references, document types, entities, notations and the XML declaration are written in the library's documented form from their current data, and a document is its declaration, document type and children in order. "
 "Attribute values and text appear escaped, so they contain no raw < > or quotes, and displaying changes nothing.",
 ["inputs", "histories"], "every tree (attribute order is unspecified)",
 "Tests display about a dozen fixed nodes with at most one attribute.",
 ["src/shared/display.rs"], [("fmt_node and fmt_*", "src/shared/display.rs")], (), ["Display for RefNode"])

prop("C24", "The XML declaration accepts and prints only valid values",
 "XmlVersion parses exactly 1.0 and 1.1 and prints the same text; an XML declaration is accepted exactly when the encoding, if any, is a letter followed by letters, digits, '.', '_' or '-', keeps the version, encoding and standalone value given, and prints as <?xml version=\"V\" encoding=\"E\" standalone=\"yes|no\"?> with the absent parts left out. "
 "A document has no declaration until set_xml_declaration, which fails with InvalidState on any other node, and then reports exactly the one last set.",
 ["inputs"], "every string as version and encoding, every combination of the optional parts, every node",
 "Tests try nine good and five bad encodings and five declarations.",
 ["src/level2/ext/decl.rs", "src/level2/ext/trait_impls.rs"], [("XmlDecl::new / is_encoding", "src/level2/ext/decl.rs"), ("Display for XmlDecl", "src/level2/ext/decl.rs"), ("set_xml_declaration", "src/level2/ext/trait_impls.rs")], (), ["XmlDecl::new", "xml_declaration()"])

prop("C25", "Processing options are independent flags",
 "A new set of options has none of the three flags; each set_ method turns on exactly its own flag and no has_ answer of another changes; has_none is true exactly when no flag is set; & and | act as intersection and union of the flags. "
 "A document created with options behaves according to exactly these options, and create_document adds namespaces only.",
 ["inputs", "histories"], "every one of the 8 sets of flags and every sequence of set_ calls and combinations",
 "Only the empty set is tested.",
 ["src/level2/ext/options.rs", TI], [("ProcessingOptions", "src/level2/ext/options.rs"), ("create_document", TI)], (), ["has_assume_ids()", "has_add_namespaces()"])

prop("C26", "The implementation creates well-formed documents and reports features",
 "create_document (and the form with options) returns a new document whose only child is an element with the given namespace and qualified name, or has no child when neither is given; a namespace without a name is a Namespace error and an invalid name is the error of name parsing; the given document type becomes its doc_type, owned by it, and one that already has an owner is a WrongDocument error. "
 "create_document_type keeps the name and the public and system identifiers; has_feature and is_supported are true exactly for Core and XML in versions 1.0 and 2.0.",
 ["inputs"], "every combination of the optional arguments, every string",
 "Tests create a few documents and ask for a few features.",
 [TI, "src/level2/ext/trait_impls.rs", "src/level2/dom_impl.rs"], [("create_document_with_options", TI), ("create_document_type", TI), ("has_feature", TI)], (), ["create_document()", "has_feature()"])

prop("C27", "Reading never changes and never panics",
 "In every reachable state with its document alive, the read accessors of a node (name, value, type, parent, children, siblings, attributes, owner, data, identifiers and namespace parts) return normally on every node kind, return the stored part, and leave every node unchanged; on nodes that do not have the part they return none, an empty collection or zero. "
 "namespace_uri, local_name and prefix are the parts of node_name, and tag_name and target are its qualified form.",
 ["inputs", "histories"], "every accessor on every node kind in every reachable state",
 "Tests call accessors on the kind they are made for.",
 [TI, TR], [("Node for RefNode", TI), ("unwrap_extension_field", TI), ("default methods", TR)], (), ["all read accessors"])

prop("C28", "Attribute values are normalized as XML prescribes",
 "value() of an attribute without child nodes is none; otherwise it is the concatenation of its text with every line end (CR LF, CR NEL, CR, NEL, LS) turned into one line feed, then every valid decimal or hexadecimal character reference replaced by its character, every predefined entity reference by its character, and every remaining tab, line feed and carriage return by a space, spaces trimmed at both ends, and the result escaped as character data is. "
 "get_attribute and get_attribute_ns return this for the attribute they find.",
 ["inputs"], "every text value whose references are predefined entities or valid character references",
 "Tests use eleven fixed values with one construct each.",
 ["src/shared/text.rs", TI, "src/level2/entity_resolver.rs"], [("normalize_attribute_value / normalize_end_of_lines", "src/shared/text.rs"), ("char_from_entity", "src/shared/text.rs"), ("Attribute::value", TI)], (), ["value()", "get_attribute()"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")

"""Per property: the level claimed in MANIFEST.json, its note, and the time plan of the quick check."""
SAN = "set_attribute_node and set_attribute_node_ns are re-verified in the thorough tier only (3 min); the quick tier uses their contracts"
BASE = "all inputs and heaps; trusted: rustc's MIR, the symbolic executor and its library models, z3, reference counting model; "
NOTE = {
 "C01": BASE + "every mutating function is under contract and lemmas show each effect keeps the link invariant (normalize only composes them)",
 "C02": BASE + "insert_before and append_child against one contract of the whole heap",
 "C03": BASE + "remove_child and replace_child against contracts of the whole heap",
 "C04": BASE + "is_child_allowed, the ancestor test and the three inserting functions",
 "C05": BASE + "every error case of every contract has an empty effect; " + SAN,
 "C06": BASE + "owner accessors, the document check and every function that links nodes; " + SAN,
 "C07": BASE + SAN,
 "C08": BASE + SAN,
 "C09": BASE + SAN,
 "C10": BASE + SAN + "; two ID attributes of one value on the same element are outside the property",
 "C11": BASE + "strings as bytes with an uninterpreted sequence of characters; split at ':' by its defining facts",
 "C12": BASE + "name parsing through its contract",
 "C13": BASE + "escape by an inductive loop contract over the characters",
 "C14": BASE + "byte offsets with an uninterpreted character boundary predicate",
 "C15": BASE + "split against a contract of the whole heap",
 "C16": "bounded: normalize walks and changes a snapshot recursively, its postcondition is not within reach of the loop contracts here; what it calls is proved, the whole is checked on generated trees against a model",
 "C17": BASE + "clone_node by induction over the height of the sub-tree; that later changes do not show follows from the clones being new nodes (C01, C09)",
 "C18": BASE + "every factory",
 "C19": BASE + "every navigation function",
 "C20": BASE + "all 45 is_/as_/as_mut functions",
 "C21": BASE + "the recursive collection by an inductive contract (measure: height)",
 "C22": BASE + SAN,
 "C23": BASE + "every fmt_ function against the text it must write; map order is any order; Formatter flags are not modelled",
 "C24": BASE + "the encoding test by its defining facts on characters",
 "C25": BASE + "options as bit sets; the Display text of options is not part of the property",
 "C26": BASE + "create_document in all combinations, has_feature, doctype accessors",
 "C27": BASE + "41 accessors: result as stored, heap unchanged, no panic while the owner document lives",
 "C28": BASE + "normalize_attribute_value by an inductive loop contract over the matches of its pattern; trusted: a model of the regex crate for the two patterns in the code (matches are leftmost, in order, disjoint and of the form of their alternative)",
}
EXPLORED = ["C16"]
LEVEL = {f"C{i:02d}": "exploration" if f"C{i:02d}" in EXPLORED else "proof" for i in range(1, 29)}
TECH = {"C16": "bounded check against a reference model (the functions normalize calls are verified by contracts)"}
PLAN = {}

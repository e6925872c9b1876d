"""Contracts of casts, accessors, factories, options, names, character data and the XML declaration."""
import z3
from vals import *
import ext
from spec import *

# ------------------------------------------------------------------------------------------------ C20 type tests and casts
KINDS = {"attribute": ["Attribute"], "element": ["Element"], "character_data": ["CData", "Comment", "Text"], "text": ["Text"],
         "cdata_section": ["CData"], "entity_reference": ["EntityReference"], "entity": ["Entity"],
         "processing_instruction": ["ProcessingInstruction"], "comment": ["Comment"], "document": ["Document"],
         "document_type": ["DocumentType"], "document_fragment": ["DocumentFragment"], "notation": ["Notation"],
         "document_decl": ["Document"], "element_namespaced": ["Element"]}
def cast_specs(kind, types):
    n = {"entity": "is_entity_"}.get(kind, "is_" + kind)
    @spec(n, "C20")
    def _(s, x): return ret(s.isa(x, *types))
    for suffix in ("", "_mut"):
        @spec(f"as_{kind}{suffix}", "C20")
        def _(s, x): return [Case(s.isa(x, *types), lambda s: ok(x)), Case(TRUE, lambda s: s.err("InvalidState"))]
for k, v in KINDS.items(): cast_specs(k, v)

# ------------------------------------------------------------------------------------------------ C25 options
FLAGS = ("assume_ids", "parse_entities", "add_namespaces")
def has(s, v, f): return s.call(f"ProcessingOptions::has_{f}", v)[0]
def set_(s, v, f): return s.call_mut(f"ProcessingOptions::set_{f}", v)
def opt_valid(s, v):
    """no bits but those the set_ methods turn on"""
    new = s.call("ProcessingOptions::new")[0]
    m = new
    for f in FLAGS: m = m | set_(s, new, f)
    return (v & ~m) == 0
@spec("ProcessingOptions::new", "C25")
def _(s): return ret(Such(lambda s, v: And(*[Not(has(s, v, f)) for f in FLAGS])))
@spec("<ProcessingOptions as Default>::default", "C25")
def _(s): return ret(Such(lambda s, v: And(*[Not(has(s, v, f)) for f in FLAGS])))
@spec("ProcessingOptions::has_none", "C25", pre=opt_valid)
def _(s, v): return ret(Not(Or(*[has(s, v, f) for f in FLAGS])))
def opt_set_spec(f):
    @spec(f"ProcessingOptions::set_{f}", "C25", pre=opt_valid)
    def _(s, v):
        def eff(s):
            s.outs[0] = Such(lambda s, w: And(opt_valid(s, w), *[has(s, w, g) == (TRUE if g == f else has(s, v, g)) for g in FLAGS]))
            return UNIT
        return [Case(TRUE, eff)]
for f in FLAGS: opt_set_spec(f)
@spec("<ProcessingOptions as BitAnd>::bitand", "C25", pre=lambda s, v, w: And(opt_valid(s, v), opt_valid(s, w)))
def _(s, v, w): return ret(Such(lambda s, r: And(opt_valid(s, r), *[has(s, r, g) == And(has(s, v, g), has(s, w, g)) for g in FLAGS])))
@spec("<ProcessingOptions as BitOr>::bitor", "C25", pre=lambda s, v, w: And(opt_valid(s, v), opt_valid(s, w)))
def _(s, v, w): return ret(Such(lambda s, r: And(opt_valid(s, r), *[has(s, r, g) == Or(has(s, v, g), has(s, w, g)) for g in FLAGS])))

# ------------------------------------------------------------------------------------------------ C27 accessors
def ext_field(s, n, variant, field, default=None):
    """the field, or the default on a node without it"""
    return [Case(s.is_ext(n, variant), lambda s: s.extf(n, variant, field)), Case(TRUE, lambda s: none() if default is None else default)]
def accessor(name, variant, field, props):
    @spec(name, props)
    def _(s, n): return ext_field(s, n, variant, field)
for nm, v, f, p in [("Document::doc_type", "Document", "i_document_type", "C27 C26"), ("DocumentDecl::xml_declaration", "Document", "i_xml_declaration", "C27 C24"),
                    ("DocumentType::public_id", "DocumentType", "i_public_id", "C27 C26"), ("DocumentType::system_id", "DocumentType", "i_system_id", "C27 C26"),
                    ("DocumentType::internal_subset", "DocumentType", "i_internal_subset", "C27"),
                    ("Entity::public_id", "Entity", "i_public_id", "C27"), ("Entity::system_id", "Entity", "i_system_id", "C27"),
                    ("Entity::notation_name", "Entity", "i_notation_name", "C27"),
                    ("Notation::public_id", "Notation", "i_public_id", "C27"), ("Notation::system_id", "Notation", "i_system_id", "C27")]:
    accessor(nm, v, f, p)
def map_accessor(name, variant, field, props):
    @spec(name, props)
    def _(s, n):
        v = s.extf(n, variant, field)
        return [Case(s.is_ext(n, variant), lambda s: v), Case(TRUE, lambda s: ext.empty_map(v.kty, v.vty))]
map_accessor("DocumentType::entities", "DocumentType", "i_entities", "C27")
map_accessor("DocumentType::notations", "DocumentType", "i_notations", "C27")
map_accessor("Node::attributes", "Element", "i_attributes", "C27 C19")
@spec("Node::has_attributes", "C27 C19")
def _(s, n):
    m = s.extf(n, "Element", "i_attributes")
    b, k, v = s.map_find(m, lambda k, v: TRUE)
    return ret(And(s.isa(n, "Element"), b))
@spec("Attribute::owner_element", "C27 C09")
def _(s, n):
    return [Case(s.is_ext(n, "Attribute"), lambda s: s.upgrade(s.extf(n, "Attribute", "i_owner_element"))), Case(TRUE, lambda s: none())]
@spec("Attribute::specified", "C27")
def _(s, n): return ret(TRUE)
@spec("Node::namespace_uri", "C27")
def _(s, n): return ret(s.name(n).f[0])
@spec("Node::prefix", "C27")
def _(s, n): return ret(s.name(n).f[1])
@spec("Node::local_name", "C27")
def _(s, n): return ret(s.name(n).f[2])
@spec("Element::tag_name", "C27")
def _(s, n): return ret(display_name(s.name(n)))
@spec("ProcessingInstruction::target", "C27")
def _(s, n): return ret(display_name(s.name(n)))
@spec("ProcessingInstruction::data", "C27 C13")
def _(s, n): return ret(s.value(n))
@spec("ProcessingInstruction::length", "C27 C13")
def _(s, n):
    v = s.value(n)
    return [Case(tag_is(v, 1), lambda s: z3.Length(v.pl[1][0])), Case(TRUE, lambda s: I(0))]
@spec("Document::document_element", "C19 C27")
def _(s, n):
    k = s.kids(n)
    b, i = s.first_index(k, lambda e: s.isa(e, "Element"))
    return [Case(b, lambda s: some(k.at(i))), Case(TRUE, lambda s: none())]
@spec("Node::set_node_value", "C14")
def _(s, n, v):
    def eff(s): s.set(n, "i_value", some(v)); return ok(UNIT)
    return [Case(TRUE, eff)]
@spec("Node::unset_node_value", "C14")
def _(s, n):
    def eff(s): s.set(n, "i_value", none()); return ok(UNIT)
    return [Case(TRUE, eff)]

# ------------------------------------------------------------------------------------------------ C26 implementation
def feature(f, v): return And(Or(f == S("Core"), f == S("XML")), Or(v == S("1.0"), v == S("2.0")))
@spec("DOMImplementation::has_feature", "C26")
def _(s, i, f, v): return ret(feature(f, v))
@spec("Node::is_supported", "C26")
def _(s, n, f, v): return ret(feature(f, v))

# ------------------------------------------------------------------------------------------------ names
XMLNS = S("http://www.w3.org/2000/xmlns/"); XML = S("http://www.w3.org/XML/1998/namespace")
def seq_(o, x): return And(tag_is(o, 1), o.pl[1][0] == x) if 1 in o.pl else FALSE
def is_ns_attr(n): return And(seq_(n.f[0], XMLNS), Or(And(n.f[2] == S("xmlns"), tag_is(n.f[1], 0)), seq_(n.f[1], S("xmlns"))))
def is_id_attr(n, lax): return And(n.f[2] == S("id"), Or(lax, seq_(n.f[0], XML), seq_(n.f[1], S("xml"))))
@spec("Name::is_namespace_attribute", "C12 C22")
def _(s, n): return ret(is_ns_attr(n))
@spec("Name::is_id_attribute", "C12 C10")
def _(s, n, lax): return ret(is_id_attr(n, lax))
for i, f in enumerate(("namespace_uri", "prefix", "local_name")):
    def acc(i, f):
        @spec(f"Name::{f}", "C27 C12")
        def _(s, n): return ret(n.f[i])
    acc(i, f)
@spec("<Name as Display>::fmt", "C11 C23")
def _(s, n, f):
    def eff(s): s.outs[1] = Struct([z3.Concat(f.f[0], display_name(n)), f.f[1]]); return ok(UNIT)
    return [Case(TRUE, eff)]
@spec("<Name as PartialEq>::eq", "C07 C08 C17")
def _(s, a, b): return ret(eq(a, b))
FIXED = {"cdata": "#cdata-section", "comment": "#comment", "document": "#document", "document_fragment": "#document-fragment", "text": "#text"}
def fixed(n): return Struct([none(), none(), S(FIXED[n])])
for k in FIXED:
    def fx(k):
        @spec(f"Name::for_{k}", "C18")
        def _(s): return ret(fixed(k))
    fx(k)

# parsing: what a string parses to, as functions of the string
def name_start(c):
    R = [(0x3A, 0x3A), (0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x1FFF), (0x200C, 0x200D), (0x2070, 0x218F),
         (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF)]
    return Or(*[And(c >= a, c <= b) for a, b in R])
def name_char(c):
    return Or(name_start(c), c == 0x2D, c == 0x2E, And(c >= 0x30, c <= 0x39), c == 0xB7, And(c >= 0x300, c <= 0x36F), And(c >= 0x203F, c <= 0x2040))
@spec("is_xml_name_start_char", "C11", private=True)
def _(s, c): return ret(name_start(c))
@spec("is_xml_name_char", "C11", private=True)
def _(s, c): return ret(name_char(c))
XMLNAME = z3.Function("is_xml_name", STR, BOOL)
@spec("is_xml_name", "C11", inline=False, heap_ok=lambda E, h, *a: True)
def _(s, x):
    """XMLNAME(x) is: a name start character, then name characters"""
    if s.top("is_xml_name"):
        cs = ext.chars_of(s.E, s.st, x)
        s.E._cur = s.st
        rest = SeqV(simp(cs.len - 1), lambda i: cs.at(simp(i + 1)))
        bad = s.exists(rest, lambda c: Not(name_char(c)))
        s.st.assume(XMLNAME(x) == And(cs.len > 0, name_start(cs.at(I(0))), Not(bad)))
        return ret(XMLNAME(x))
    s.st.assume(Implies(XMLNAME(x), x != S("")))
    return ret(XMLNAME(x))
COLON = S(":")
def parse(s):
    """(cases) of parsing s as a qualified name: decision list of (condition, error or None, prefix, local)"""
    i = z3.IndexOf(s, COLON, 0)
    pre = z3.SubString(s, 0, i); loc = z3.SubString(s, i + 1, z3.Length(s) - i - 1)
    one = Not(z3.Contains(s, COLON)); two = And(z3.Contains(s, COLON), Not(z3.Contains(loc, COLON)))
    return one, two, pre, loc
N_OK = z3.Function("name_ok", STR, BOOL); N_ERR = z3.Function("name_err", STR, INT); N_HP = z3.Function("name_has_prefix", STR, BOOL)
N_P = z3.Function("name_prefix", STR, STR); N_L = z3.Function("name_local", STR, STR)
def parsed(x, ns=None): return Struct([none() if ns is None else some(ns), Enum(ext.simp_tag(N_HP(x)), {0: [], 1: [N_P(x)]}), N_L(x)])
@spec("<Name as FromStr>::from_str", "C11 C12", inline=False, heap_ok=lambda E, h, *a: True)
def _(s, x):
    if s.top("<Name as FromStr>::from_str"):
        one, two, pre, loc = parse(x)
        def part(p, cond):
            return [Case(And(cond, p == S("")), lambda s: s.err("Syntax"), "empty part"),
                    Case(And(cond, Not(XMLNAME(p))), lambda s: s.err("InvalidCharacter"), "not a name")]
        return [Case(x == S(""), lambda s: s.err("Syntax"), "empty"),
                Case(And(Not(one), Not(two)), lambda s: s.err("Syntax"), "more than one colon")] \
            + part(x, one) + [Case(one, lambda s: ok(Struct([none(), none(), x])), "one part")] \
            + part(loc, two) + part(pre, two) + [Case(TRUE, lambda s: ok(Struct([none(), some(pre), loc])), "two parts")]
    # what callers may use: it succeeds or not, the result displays as the string, has no empty part
    st = s.st
    st.assume(Implies(N_OK(x), And(x != S(""), N_L(x) != S(""), x == z3.If(N_HP(x), z3.Concat(N_P(x), COLON, N_L(x)), N_L(x)))))
    e = N_ERR(x)
    st.assume(Or(e == ERR["Syntax"], e == ERR["InvalidCharacter"]))
    return [Case(N_OK(x), lambda s: ok(parsed(x)), "a name"), Case(TRUE, lambda s: err(Enum(e, {k: [] for k in ERR.values()})), "not a name")]
def reserved(uri, n):
    """a reserved prefix or local name without its namespace"""
    def r(x): return Or(And(x == S("xml"), uri != XML), And(x == S("xmlns"), uri != XMLNS))
    return Or(And(tag_is(n.f[1], 1), r(n.f[1].pl[1][0])), r(n.f[2]))
@spec("Name::new_ns", "C12", inline=False, heap_ok=lambda E, h, *a: True)
def _(s, uri, q):
    c = SPECS["<Name as FromStr>::from_str"].fn(s, q)
    n = parsed(q)
    return [Case(Not(c[0].cond), c[1].eff, "not a name"), Case(uri == S(""), lambda s: s.err("Syntax"), "empty URI"),
            Case(reserved(uri, n), lambda s: s.err("Namespace"), "reserved prefix"), Case(TRUE, lambda s: ok(parsed(q, uri)), "a namespaced name")]

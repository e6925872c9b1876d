"""Contracts of serialization (C23): what displaying a node writes.

disp(n) is the text of node n; the contract of `<RN as Display>::fmt` used at call sites is that disp(n) is written.  The contracts of the
functions that write one kind of node define disp(n): they say which parts are written, in which order, in terms of disp of the children,
attributes, entities and notations.  known(n): no reference in an attribute below n is unknown (displaying panics on those otherwise)."""
import z3
from vals import *
import ext, spec
from spec import *
from fold import fold
from specs_text import value_cases, escaped, NORMOK, CD
from specs_data import decl_text, written

DISP = z3.Function("disp", INT, STR)
KNOWN = z3.Function("references_known_below", INT, BOOL)
KIDS = z3.Function("disp_children", INT, INT, STR)
ATTS = z3.Function("disp_attributes", INT, INT, STR)
ENTS = z3.Function("disp_entities", INT, INT, STR)
NOTS = z3.Function("disp_notations", INT, INT, STR)
clean = lambda E, h, *a: not h.w
def cat(*xs):
    xs = [x for x in xs if not (z3.is_string_value(x) and x.as_string() == "")]
    return xs[0] if len(xs) == 1 else z3.Concat(*xs) if xs else S("")

# ------------------------------------------------------------------------------------------------ the node as a whole
def known(s, n): return KNOWN(n)
@spec("<RN as Display>::fmt", "C23", inline=False, heap_ok=clean, pre=lambda s, n, f: known(s, n))
def _(s, n, f):
    def eff(s):
        s.outs[1] = written(f, DISP(n)); return ok(UNIT)
    if s.top("<RN as Display>::fmt") and not s.at_call: return _NODE(s, n, f)
    return [Case(TRUE, eff)]

def writes(name, types, props, text, pre=None, joins=False):
    """the function writes text(s, n), given that the node has one of the types; part of the definition of disp"""
    def p(s, n, f):
        if types == ["Attribute"]:
            empty, bad, val = value_cases(s, n)
            s.st.assume(Implies(And(KNOWN(n), s.isa(n, "Attribute")), Or(empty, Not(bad))))
        return And(known(s, n), s.isa(n, *types))
    def d(s, n, f):
        def eff(s):
            s.outs[1] = written(f, text(s, n)); return ok(UNIT)
        return [Case(TRUE, eff)]
    spec(name, props, pre=p, inline=False, heap_ok=clean)(d)
    TEXT.append((types, name, text))
TEXT = []

# ------------------------------------------------------------------------------------------------ pieces run through in order
def kids_step(s, n, i):
    k = s.kids(n)
    s.E._cur = s.st
    c = k.at(i)
    g = And(i >= 0, i < k.len)
    return [KIDS(n, I(0)) == S(""), Implies(g, KIDS(n, simp(i + 1)) == z3.Concat(KIDS(n, i), DISP(c))), Implies(And(g, KNOWN(n)), KNOWN(c))]
def entries(variant, field, F, before):
    def step(s, n, i):
        m = s.extf(n, variant, field)
        s.E._cur = s.st
        cnt, kat, vat = ext.map_order(s.E, s.st, m)
        c = vat(i)
        g = And(i >= 0, i < cnt)
        return [F(n, I(0)) == S(""), Implies(g, F(n, simp(i + 1)) == z3.Concat(F(n, i), before, DISP(c)) if before is not None else F(n, simp(i + 1)) == z3.Concat(F(n, i), DISP(c))), Implies(And(g, KNOWN(n)), KNOWN(c))]
    def total(s, n):
        m = s.extf(n, variant, field)
        cnt, _, _ = ext.map_order(s.E, s.st, m)
        return F(n, cnt)
    def count(s, n): return ext.map_order(s.E, s.st, s.extf(n, variant, field))[0]
    return step, total, count
att_step, att_all, _ = entries("Element", "i_attributes", ATTS, S(" "))
ent_step, ent_all, ent_n = entries("DocumentType", "i_entities", ENTS, None)
not_step, not_all, not_n = entries("DocumentType", "i_notations", NOTS, None)
def kids_all(s, n): return KIDS(n, s.kids(n).len)

def loops(*which):
    """which loop is it? the one over the sequence named"""
    def f(s, it, entry):
        n = s.E.top_vals[0]
        k = it.seq.key
        for kind, F, step in which:
            if kind == "kids" and k is not None and k == s.kids(n).key: break
            if isinstance(kind, tuple) and isinstance(k, tuple) and k[0] in ("mapvals", "mapiter", "mapkeys") and k[1] is not None and k[1] == s.extf(n, *kind).key: break
        else: raise Unsupported("loop over something else")
        return lambda i: z3.Concat(entry, F(n, i)), lambda i, s: step(s, n, i)
    return f
fold("fmt_element")(loops(("kids", KIDS, kids_step), (("Element", "i_attributes"), ATTS, att_step)))
fold("fmt_document")(loops(("kids", KIDS, kids_step)))
fold("fmt_document_fragment")(loops(("kids", KIDS, kids_step)))
fold("fmt_document_type")(loops((("DocumentType", "i_entities"), ENTS, ent_step), (("DocumentType", "i_notations"), NOTS, not_step)))

# ------------------------------------------------------------------------------------------------ the kinds of nodes
def nm(s, n): return display_name(s.name(n))
def text_of(v): return v.pl[1][0]
writes("fmt_element", ["Element"], "C23", lambda s, n: cat(S("<"), nm(s, n), att_all(s, n), S(">"), kids_all(s, n), S("</"), nm(s, n), S(">")))
def attribute_text(s, n):
    empty, bad, val = value_cases(s, n)
    return cat(nm(s, n), S('="'), z3.If(empty, S(""), val(s)), S('"'))
writes("fmt_attribute", ["Attribute"], "C23 C13", attribute_text)
def data(s, n):
    v = s.value(n)
    return v, Ite(s.isa(n, "CData"), text_of(v), escaped(s, text_of(v)))
def chardata(before, after):
    def f(s, n):
        v, d = data(s, n)
        return z3.If(tag_is(v, 1), cat(before, d, after), S(""))
    return f
writes("fmt_text", ["Text", "Comment", "CData"], "C23 C13", chardata(S(""), S("")))
writes("fmt_comment", ["Text", "Comment", "CData"], "C23", chardata(S("<!--"), S("-->")))
writes("fmt_cdata", ["Text", "Comment", "CData"], "C23", chardata(S("<![CDATA[ "), S(" ]]>")))
def pi(s, n):
    v = s.value(n)
    return cat(S("<?"), nm(s, n), z3.If(tag_is(v, 1), z3.Concat(S(" "), text_of(v)), S("")), S("?>"))
writes("fmt_processing_instruction", ["ProcessingInstruction"], "C23", pi)
def opt(v, f, other=None): return z3.If(tag_is(v, 1), f(text_of(v)), S("") if other is None else other)
def document(s, n):
    d = s.extf(n, "Document", "i_xml_declaration")
    t = s.extf(n, "Document", "i_document_type")
    s.st.assume(Implies(And(KNOWN(n), tag_is(t, 1)), KNOWN(text_of(t))))
    return cat(opt(d, lambda x: decl_text(s, x)), opt(t, lambda x: DISP(x)), kids_all(s, n))
writes("fmt_document", ["Document"], "C23", document)
def ext_id(p, y, both_needed=False):
    """the external identifier of an entity or a notation"""
    return opt(p, lambda p_: cat(S(' PUBLIC "'), p_, S('"'), opt(y, lambda y_: cat(S(' "'), y_, S('"')))), opt(y, lambda y_: cat(S(' SYSTEM "'), y_, S('"'))))
def doctype(s, n):
    f = lambda x: s.extf(n, "DocumentType", x)
    p, y, b = f("i_public_id"), f("i_system_id"), f("i_internal_subset")
    q = lambda kw: lambda x: cat(S(f' {kw} "'), x, S('"'))
    inner = cat(S("["), ent_all(s, n), not_all(s, n), opt(b, lambda x: x), S("]"))
    return cat(S("<!DOCTYPE "), nm(s, n), opt(p, q("PUBLIC")), opt(y, q("SYSTEM")), z3.If(Or(ent_n(s, n) + not_n(s, n) > 0, tag_is(b, 1)), inner, S("")), S(">"))
writes("fmt_document_type", ["DocumentType"], "C23", doctype)
writes("fmt_document_fragment", ["DocumentFragment"], "C23", lambda s, n: cat(S("<![CDATA["), nm(s, n), S(" "), kids_all(s, n), S("]]>")))
def entity(s, n):
    f = lambda x: s.extf(n, "Entity", x)
    p, y, no = f("i_public_id"), f("i_system_id"), f("i_notation_name")
    v = s.value(n)
    own = cat(S(' "'), opt(v, lambda x: x), S('"'))
    return cat(S("<!ENTITY "), nm(s, n), z3.If(And(tag_is(p, 0), tag_is(y, 0)), own, ext_id(p, y)), opt(no, lambda x: z3.Concat(S(" "), x)), S(">"))
writes("fmt_entity", ["Entity"], "C23", entity)
writes("fmt_entity_reference", ["EntityReference"], "C23", lambda s, n: cat(S("&"), nm(s, n), S(";")))
writes("fmt_notation", ["Notation"], "C23", lambda s, n: cat(S("<!NOTATION "), nm(s, n), ext_id(s.extf(n, "Notation", "i_public_id"), s.extf(n, "Notation", "i_system_id")), S(">")))

SHAPE = {"Element": "fmt_element", "Attribute": "fmt_attribute", "Text": "fmt_text", "CData": "fmt_cdata", "ProcessingInstruction": "fmt_processing_instruction",
         "Comment": "fmt_comment", "Document": "fmt_document", "DocumentType": "fmt_document_type", "DocumentFragment": "fmt_document_fragment", "Entity": "fmt_entity",
         "EntityReference": "fmt_entity_reference", "Notation": "fmt_notation"}
def _NODE(s, n, f):
    by = {name: text for _, name, text in TEXT}
    def case(t, name):
        def eff(s):
            s.outs[1] = written(f, by[name](s, n)); return ok(UNIT)
        return Case(s.isa(n, t), eff, t)
    return [case(t, name) for t, name in SHAPE.items()]
spec("fmt_node", "C23", pre=lambda s, n, f: known(s, n))(_NODE)

"""Contracts of character data, factories, the XML declaration and namespaces."""
import z3
from vals import *
import ext
from spec import *
from specs_simple import fixed, parsed, SPECS as _S, seq_

# ------------------------------------------------------------------------------------------------ C14 C13 character data
def bnd(s, x, i): return ext.boundary(s.E, s.st, x, i)
def sub(x, lo, hi): return z3.SubString(x, lo, simp(hi - lo))
def cut(s, n, off, cnt):
    """(value, length, offset is bad, the range reaches the end, its end is bad)"""
    v = s.value(n); d = v.pl[1][0]; ln = z3.Length(d)
    s.st.assume(ln <= ext.ISIZE)
    return d, ln, Or(off > ln, Not(bnd(s, d, off))), cnt >= ln - off, Not(bnd(s, d, simp(off + cnt)))
@spec("CharacterData::substring_data", "C14")
def _(s, n, off, cnt):
    d, ln, bad, toend, badend = cut(s, n, off, cnt)
    return [Case(cnt == 0, lambda s: ok(S("")), "nothing"), Case(tag_is(s.value(n), 0), lambda s: s.err("IndexSize"), "no data"),
            Case(bad, lambda s: s.err("IndexSize"), "offset outside"), Case(toend, lambda s: ok(sub(d, off, ln)), "to the end"),
            Case(badend, lambda s: s.err("IndexSize"), "inside a character"), Case(TRUE, lambda s: ok(sub(d, off, off + cnt)), "inside")]
def setv(n, v):
    def eff(s): s.set(n, "i_value", some(v)); return ok(UNIT)
    return eff
@spec("CharacterData::append_data", "C14 C16")
def _(s, n, x):
    v = s.value(n)
    return [Case(x == S(""), lambda s: ok(UNIT), "nothing"), Case(tag_is(v, 0), setv(n, x), "no data"), Case(TRUE, lambda s: setv(n, ext.cat(v.pl[1][0], x))(s), "append")]
def replaced(s, n, off, cnt, x):
    v = s.value(n)
    d, ln, bad, toend, badend = cut(s, n, off, cnt)
    return [Case(And(tag_is(v, 0), Or(off != 0, cnt != 0)), lambda s: s.err("IndexSize"), "no data"), Case(tag_is(v, 0), setv(n, x), "first data"),
            Case(bad, lambda s: s.err("IndexSize"), "offset outside"), Case(toend, setv(n, ext.cat(sub(d, I(0), off), x)), "to the end"),
            Case(badend, lambda s: s.err("IndexSize"), "inside a character"), Case(TRUE, setv(n, ext.cat(ext.cat(sub(d, I(0), off), x), sub(d, off + cnt, ln))), "inside")]
@spec("CharacterData::replace_data", "C14")
def _(s, n, off, cnt, x): return replaced(s, n, off, cnt, x)
@spec("CharacterData::insert_data", "C14")
def _(s, n, off, x): return [Case(x == S(""), lambda s: ok(UNIT), "nothing")] + replaced(s, n, off, I(0), x)
@spec("CharacterData::delete_data", "C14")
def _(s, n, off, cnt): return [Case(cnt == 0, lambda s: ok(UNIT), "nothing")] + replaced(s, n, off, cnt, S(""))
for t in ("CharacterData", "ProcessingInstruction"):
    def f(t):
        @spec(f"{t}::set_data", "C14")
        def _(s, n, v): return [Case(TRUE, setv(n, v))]
        @spec(f"{t}::unset_data", "C14")
        def _(s, n):
            def eff(s): s.set(n, "i_value", none()); return ok(UNIT)
            return [Case(TRUE, eff)]
    f(t)

# ------------------------------------------------------------------------------------------------ C18 factories
def blank_ext(s, variant):
    """the extension of a new node: nothing in it"""
    p = s.E.p
    v = [v for v in p.types[p.adt("Extension")]["variants"] if v["name"] == variant][0]
    fs = []
    for n, t in v["fields"]:
        ty = p.types[t]
        nm = ty.get("name", "").split("::")[-1]
        fs.append(ext.empty_map(ty["args"][0], ty["args"][1]) if nm == "HashMap" else none())
    return (variant,) + tuple(fs)
def with_(e, variant, **kw):
    xs = list(e)
    for k, v in kw.items(): xs[1 + EXF[variant].index(k)] = v
    return tuple(xs)
def opt_ext(s, t):
    return blank_ext(s, t) if t in ("Element", "Attribute", "DocumentType", "Entity", "Notation") else ("None",)
def new(t, doc, name, value=None, mk=None):
    def eff(s):
        e = opt_ext(s, t)
        if mk is not None: e = mk(s, e)
        r = s.alloc(i_node_type=t, i_name=name, i_value=none() if value is None else value, i_owner_document=none() if doc is None else some(doc), i_extension=e)
        return r
    return eff
def okr(f): return lambda s: ok(f(s))
def by_name(s, q, f):
    """the cases of parsing a qualified name, and what happens on success"""
    c = _S["<Name as FromStr>::from_str"].fn(s, q)
    return [Case(Not(c[0].cond), c[1].eff, "not a name"), Case(TRUE, f(parsed(q)), "a name")]
def by_ns(s, u, q, f):
    cs = _S["Name::new_ns"].fn(s, u, q)
    return cs[:-1] + [Case(TRUE, f(parsed(q, u)), "a name")]
@spec("Document::create_element", "C18 C11")
def _(s, d, q): return by_name(s, q, lambda nm: okr(new("Element", d, nm)))
@spec("Document::create_element_ns", "C18 C12")
def _(s, d, u, q): return by_ns(s, u, q, lambda nm: okr(new("Element", d, nm)))
@spec("Document::create_attribute", "C18 C11")
def _(s, d, q): return by_name(s, q, lambda nm: okr(new("Attribute", d, nm)))
@spec("Document::create_attribute_ns", "C18 C12")
def _(s, d, u, q): return by_ns(s, u, q, lambda nm: okr(new("Attribute", d, nm)))
def attr_with(d, nm, value):
    """a new attribute with one text child"""
    def eff(s):
        t = new("Text", d, fixed("text"), some(value))(s)
        a = new("Attribute", d, nm)(s)
        s.set(a, "i_child_nodes", ext.seq_push(ext.empty_seq(), t))
        s.set(t, "i_parent_node", some(a))
        return a
    return eff
@spec("Document::create_attribute_with", "C18 C11 C28")
def _(s, d, q, v): return by_name(s, q, lambda nm: okr(attr_with(d, nm, v)))
@spec("Document::create_entity_reference", "C18 C11")
def _(s, d, q): return by_name(s, q, lambda nm: okr(new("EntityReference", d, nm)))
@spec("Document::create_cdata_section", "C18")
def _(s, d, v): return [Case(TRUE, okr(new("CData", d, fixed("cdata"), some(v))))]
@spec("Document::create_document_fragment", "C18")
def _(s, d): return [Case(TRUE, okr(new("DocumentFragment", d, fixed("document_fragment"))))]
@spec("Document::create_comment", "C18")
def _(s, d, v): return [Case(TRUE, new("Comment", d, fixed("comment"), some(v)))]
@spec("Document::create_text_node", "C18")
def _(s, d, v): return [Case(TRUE, new("Text", d, fixed("text"), some(v)))]
@spec("Document::create_processing_instruction", "C18 C11")
def _(s, d, q, v):
    return [Case(ext.LOWER(q) == S("xml"), lambda s: s.err("Syntax"), "reserved target")] + by_name(s, q, lambda nm: okr(new("ProcessingInstruction", d, nm, v)))
def ids(variant, pub, sysid): return lambda s, e: with_(e, variant, i_public_id=pub, i_system_id=sysid)
@spec("DOMImplementation::create_document_type", "C18 C26 C11")
def _(s, i, q, p, y): return by_name(s, q, lambda nm: okr(new("DocumentType", None, nm, mk=ids("DocumentType", p, y))))
@spec("create_notation", "C18 C11")
def _(s, d, q, p, y): return by_name(s, q, lambda nm: okr(new("Notation", d, nm, mk=ids("Notation", p, y))))
@spec("create_entity", "C18 C11")
def _(s, d, q, p, y): return by_name(s, q, lambda nm: okr(new("Entity", d, nm, mk=ids("Entity", p, y))))
@spec("create_internal_entity", "C18 C11")
def _(s, d, q, v): return by_name(s, q, lambda nm: okr(new("Entity", d, nm, some(v))))

# ------------------------------------------------------------------------------------------------ C24 XML declaration
@spec("DocumentDecl::set_xml_declaration", "C24")
def _(s, d, x):
    def eff(s): s.set_ext(d, "Document", i_xml_declaration=some(x)); return ok(UNIT)
    return [Case(s.is_ext(d, "Document"), eff), Case(TRUE, lambda s: s.err("InvalidState"))]
def V(s, n):
    p = s.E.p
    i = [v["name"] for v in p.types[p.adt("XmlVersion")]["variants"]].index(n)
    return Enum(i, {i: []})
def is_v(s, v, n): return tag_is(v, V(s, n).tag)
@spec("<XmlVersion as FromStr>::from_str", "C24")
def _(s, x): return [Case(x == S("1.0"), lambda s: ok(V(s, "V10"))), Case(x == S("1.1"), lambda s: ok(V(s, "V11"))), Case(TRUE, lambda s: err(UNIT))]
def vtext(s, v): return z3.If(is_v(s, v, "V10"), S("1.0"), S("1.1"))
def written(arg, text): return Struct([z3.Concat(arg.f[0], text), arg.f[1]])
@spec("<XmlVersion as Display>::fmt", "C24 C23")
def _(s, v, f):
    def eff(s): s.outs[1] = written(f, vtext(s, v)); return ok(UNIT)
    return [Case(TRUE, eff)]
ENC = z3.Function("is_encoding", STR, BOOL)
def letter(c): return Or(And(c >= 65, c <= 90), And(c >= 97, c <= 122))
@spec("is_encoding", "C24", inline=False, heap_ok=lambda E, h, *a: True)
def _(s, x):
    """ENC(x) is: a letter, then letters, digits and . _ -"""
    if s.top("is_encoding"):
        cs = ext.chars_of(s.E, s.st, x)
        s.E._cur = s.st
        rest = SeqV(simp(cs.len - 1), lambda i: cs.at(simp(i + 1)))
        bad = s.exists(rest, lambda c: Not(Or(letter(c), And(c >= 48, c <= 57), c == 46, c == 95, c == 45)))
        s.st.assume(ENC(x) == And(cs.len > 0, letter(cs.at(I(0))), Not(bad)))
    return ret(ENC(x))
@spec("XmlDecl::new", "C24")
def _(s, v, e, a):
    return [Case(And(tag_is(e, 1), Not(ENC(e.pl[1][0]))), None, "bad encoding", panic=True), Case(TRUE, lambda s: Struct([v, e, a]))]
@spec("<XmlDecl as Default>::default", "C24")
def _(s): return [Case(TRUE, lambda s: Struct([V(s, "V10"), none(), none()]))]
for i, n in enumerate(("version", "encoding", "standalone")):
    def g(i, n):
        @spec(f"XmlDecl::{n}", "C24")
        def _(s, d): return ret(d.f[i])
    g(i, n)
def decl_text(s, d):
    v, e, a = d.f
    return z3.Concat(S('<?xml version="'), vtext(s, v), S('"'), z3.If(tag_is(e, 1), z3.Concat(S(' encoding="'), e.pl[1][0], S('"')), S("")),
                     z3.If(tag_is(a, 1), z3.Concat(S(' standalone="'), z3.If(a.pl[1][0], S("yes"), S("no")), S('"')), S("")), S("?>"))
@spec("<XmlDecl as Display>::fmt", "C24 C23")
def _(s, d, f):
    def eff(s): s.outs[1] = written(f, decl_text(s, d)); return ok(UNIT)
    return [Case(TRUE, eff)]

# ------------------------------------------------------------------------------------------------ C22 namespaces on one element
def ns_on(s, n):
    """namespaces are tracked: an owner document with the option"""
    o = s.owner(n)
    if not is_z(o.tag) and o.tag == 0: return FALSE
    d = o.pl[1][0]
    opt = s.extf(d, "Document", "i_options")
    return simp(And(tag_is(o, 1), s.is_ext(d, "Document"), s.call("ProcessingOptions::has_add_namespaces", opt)[0]))
def nsmap(s, n): return s.extf(n, "Element", "i_namespaces")
@spec("add_namespaces", "C22")
def _(s, n): return ret(ns_on(s, n))
@spec("Namespaced::contains_mapping", "C22")
def _(s, n, p):
    return ret(And(ns_on(s, n), s.isa(n, "Element"), tag_is(nsmap(s, n).get(p), 1)))
@spec("Namespaced::get_namespace", "C22")
def _(s, n, p):
    return [Case(And(ns_on(s, n), s.isa(n, "Element")), lambda s: nsmap(s, n).get(p)), Case(TRUE, lambda s: none())]
def NP(s, n): 
    p = s.E.p
    return [v["name"] for v in p.types[p.adt("NamespacePrefix")]["variants"]].index(n)
def prefix_of(s, n, u):
    """any prefix this element maps to u"""
    m = nsmap(s, n)
    b, k, v = s.map_find(m, lambda k, v: v == u)
    def good(s, r):
        some_ = And(tag_is(r, NP(s, "Some")), seq_(m.get(some(r.pl[NP(s, "Some")][0])), u)) if NP(s, "Some") in r.pl else FALSE
        return Or(And(tag_is(r, NP(s, "Default")), seq_(m.get(none()), u)), some_)
    return b, good
@spec("Namespaced::get_prefix", "C22")
def _(s, n, u):
    b, good = prefix_of(s, n, u)
    return [Case(And(ns_on(s, n), s.isa(n, "Element"), b), lambda s: Such(good)), Case(TRUE, lambda s: Enum(NP(s, "None"), {NP(s, "None"): []}))]
@spec("Namespaced::contains_mapped_namespace", "C22")
def _(s, n, u):
    b, good = prefix_of(s, n, u)
    return ret(And(ns_on(s, n), s.isa(n, "Element"), b))
@spec("MutNamespaced::insert_mapping", "C22")
def _(s, n, p, u):
    m = nsmap(s, n)
    def eff(s): 
        s.set_ext(n, "Element", i_namespaces=ext.map_put(m, p, some(u))); return ok(m.get(p))
    return [Case(Not(ns_on(s, n)), lambda s: ok(none())), Case(Not(s.isa(n, "Element")), lambda s: s.err("InvalidState")), Case(TRUE, eff)]
@spec("MutNamespaced::remove_mapping", "C22")
def _(s, n, p):
    m = nsmap(s, n)
    def eff(s): 
        s.set_ext(n, "Element", i_namespaces=ext.map_put(m, p, none())); return ok(m.get(p))
    return [Case(Not(ns_on(s, n)), lambda s: ok(none())), Case(Not(s.isa(n, "Element")), lambda s: s.err("InvalidState")), Case(TRUE, eff)]
for i, k in enumerate(("None", "Default", "Some")):
    def g(k):
        @spec(f"NamespacePrefix::is_{k.lower()}", "C22")
        def _(s, v): return ret(tag_is(v, NP(s, k)))
    g(k)
@spec("NamespacePrefix::some", "C22")
def _(s, v): return [Case(tag_is(v, NP(s, "Some")), lambda s: some(v.pl[NP(s, "Some")][0])), Case(TRUE, lambda s: none())]

# ------------------------------------------------------------------------------------------------ C15 split
from specs_node import do_insert
@spec("Text::split", "C15 C14", cost=20, model=True, pre=lambda s, n, off: Or(s.isa(n, "Text", "CData"), Not(s.isa(n, "Comment"))))
def _(s, n, off):
    d, ln, bad, _, _ = cut(s, n, off, I(0))
    v = s.value(n)
    whole = Or(tag_is(v, 0), off >= ln)
    def split(t):
        def eff(s):
            tail = z3.If(whole, S(""), sub(d, off, ln))
            if True:
                s.set(n, "i_value", ite(whole, v, some(sub(d, I(0), off))))
            r = new(t, None, fixed("text" if t == "Text" else "cdata"), some(tail))(s)
            s.set(r, "i_owner_document", s.owner_raw(n))
            p = s.parent(n); par = p.pl[1][0]
            k = s.kids(par)
            b, i = s.index_of(k, n)
            has_ = tag_is(p, 1)
            s.set(par, "i_child_nodes", ite(has_, ext.seq_insert_lazy(k, simp(i + 1), r), k))
            s.set(r, "i_parent_node", ite(has_, some(par), none()))
            return ok(r)
        return eff
    return [Case(Not(s.isa(n, "Text", "CData")), lambda s: s.err("InvalidState"), "no text"), Case(And(Not(whole), bad), lambda s: s.err("IndexSize"), "inside a character"),
            Case(s.isa(n, "Text"), split("Text"), "text"), Case(TRUE, split("CData"), "CDATA")]

# ------------------------------------------------------------------------------------------------ C26 documents
def doc_ext(s, dt, opts):
    p = s.E.p
    v = [v for v in p.types[p.adt("Extension")]["variants"] if v["name"] == "Document"][0]
    r = []
    for n, t in v["fields"]:
        ty = p.types[t]
        if n == "i_document_type": r.append(dt)
        elif n == "i_options": r.append(opts)
        elif n == "i_id_map": r.append(ext.empty_map(ty["args"][0], ty["args"][1]))
        elif n == "i_implementation": r.append(Opaque("const:impl"))
        else: r.append(none())
    return ("Document",) + tuple(r)
def document(s, u, q, dt, opts):
    """the cases of creating a document"""
    used = And(tag_is(dt, 1), tag_is(s.owner(dt.pl[1][0]), 1)) if 1 in dt.pl else FALSE
    hasq = tag_is(q, 1); hasu = tag_is(u, 1)
    uu, qq = u.pl[1][0], q.pl[1][0]
    def mk(nm):
        def eff(s):
            o = opts(s) if callable(opts) else opts
            d = s.alloc(i_node_type="Document", i_name=fixed("document"), i_extension=doc_ext(s, dt, o))
            if nm is not None:
                e = new("Element", d, nm)(s)
                s.set(e, "i_parent_node", some(d))
                s.set(d, "i_child_nodes", ext.seq_push(ext.empty_seq(), e))
            if 1 in dt.pl:
                x = dt.pl[1][0]
                s.set(x, "i_owner_document", ite(tag_is(dt, 1), some(d), s.owner_raw(x)))
            return ok(d)
        return eff
    cs = [Case(used, lambda s: s.err("WrongDocument"), "doctype in use"), Case(And(hasu, Not(hasq)), lambda s: s.err("Namespace"), "namespace without name"),
          Case(Not(hasq), mk(None), "no root")]
    for c in by_ns(s, uu, qq, lambda nm: mk(nm)): cs.append(Case(And(hasu, c.cond), c.eff, "namespaced root: " + c.label))
    for c in by_name(s, qq, lambda nm: mk(nm)): cs.append(Case(c.cond, c.eff, "root: " + c.label))
    return cs
isdt = lambda s, dt: Implies(tag_is(dt, 1), s.isa(dt.pl[1][0], "DocumentType"))
@spec("create_document_with_options", "C26 C25 C18", pre=lambda s, u, q, dt, o: isdt(s, dt), cost=5)
def _(s, u, q, dt, o): return document(s, u, q, dt, o)
@spec("ExtDOMImplementation::create_document_with_options", "C26 C25", pre=lambda s, i, u, q, dt, o: isdt(s, dt), cost=5)
def _(s, i, u, q, dt, o): return document(s, u, q, dt, o)
@spec("DOMImplementation::create_document", "C26 C22", pre=lambda s, i, u, q, dt: isdt(s, dt), cost=5)
def _(s, i, u, q, dt):
    return document(s, u, q, dt, lambda s: s.call_mut("ProcessingOptions::set_add_namespaces", s.call("ProcessingOptions::new")[0]))

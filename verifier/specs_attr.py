"""Contracts of attributes, identifiers, tag-name searches and namespace resolution."""
import z3
from vals import *
import ext
from spec import *
from specs_simple import parsed, SPECS as _S, N_OK, reserved, is_id_attr, is_ns_attr, seq_
from specs_data import ns_on, nsmap, NP, prefix_of
from fold import fold

# ------------------------------------------------------------------------------------------------ lookups
def attrs(s, n): return s.extf(n, "Element", "i_attributes")
def named(s, n, q):
    """the attribute of element n displayed as q"""
    return s.map_find(attrs(s, n), lambda k, v: display_name(k) == q)
def okname(s, q):
    return _S["<Name as FromStr>::from_str"].fn(s, q)[0].cond
def okns(s, u, l):
    cs = _S["Name::new_ns"].fn(s, u, l)
    return Not(Or(*[c.cond for c in cs[:-1]]))
def named_ns(s, n, u, l):
    return s.map_find(attrs(s, n), lambda k, v: And(seq_(k.f[0], u), k.f[2] == l))
@spec("Element::has_attribute", "C07 C08")
def _(s, n, q):
    b, k, v = named(s, n, q)
    return ret(And(s.isa(n, "Element"), okname(s, q), b))
@spec("Element::get_attribute_node", "C07 C08")
def _(s, n, q):
    b, k, v = named(s, n, q)
    return [Case(And(s.isa(n, "Element"), okname(s, q), b), lambda s: some(v)), Case(TRUE, lambda s: none())]
@spec("Element::has_attribute_ns", "C07 C08")
def _(s, n, u, l):
    b, k, v = named_ns(s, n, u, l)
    return ret(And(s.isa(n, "Element"), okns(s, u, l), b))
@spec("Element::get_attribute_node_ns", "C07 C08")
def _(s, n, u, l):
    b, k, v = named_ns(s, n, u, l)
    return [Case(And(s.isa(n, "Element"), okns(s, u, l), b), lambda s: some(v)), Case(TRUE, lambda s: none())]
@spec("Document::get_element_by_id", "C10")
def _(s, d, i):
    m = s.extf(d, "Document", "i_id_map")
    return [Case(And(s.is_ext(d, "Document"), tag_is(m.get(i), 1)), lambda s: s.upgrade(m.get(i))), Case(TRUE, lambda s: none())]

# ------------------------------------------------------------------------------------------------ C21 searches by tag name
def search(base, match, name, args_sorts):
    """the elements below and including n, through elements, in preorder"""
    R = z3.Function(f"{base}_all", INT, *args_sorts, REFSEQ)
    P = z3.Function(f"{base}_first", INT, *args_sorts, INT, REFSEQ)       # of n and its first i children
    def step(s, n, q, i):
        k = s.kids(n)
        s.E._cur = s.st
        c = k.at(i)
        return [P(n, *q, I(0)) == z3.If(match(s, n, *q), z3.Unit(n), z3.Empty(REFSEQ)), R(n, *q) == P(n, *q, k.len),
                Implies(And(i >= 0, i < k.len), P(n, *q, simp(i + 1)) == z3.Concat(P(n, *q, i), z3.If(s.isa(c, "Element"), R(c, *q), z3.Empty(REFSEQ))))]
    clean = lambda E, h, *a: not h.w
    @spec(f"Element::{name}", "C21", inline=False, heap_ok=clean, measure=lambda s, n, *q: HGT(n))
    def _(s, n, *q):
        if s.top(f"Element::{name}") and not s.at_call:
            for i in range(3):
                for f in step(s, n, q, I(i)): s.st.assume(f)
        return [Case(s.isa(n, "Element"), lambda s: seqz(R(n, *q))), Case(TRUE, lambda s: ext.empty_seq())]
    @fold(f"Element::{name}")
    def _(s, it, entry):
        n = s.E.top_vals[0]; q = s.E.top_vals[1:]
        if it.seq.key is None or it.seq.key != s.kids(n).key: raise Unsupported("loop over something else")
        return lambda i: seqz(P(n, *q, i)), lambda i, s: step(s, n, q, i)
    @spec(f"Document::{name}", "C21")
    def _(s, d, *q):
        k = s.kids(d)
        b, i = s.first_index(k, lambda e: s.isa(e, "Element"))
        return [Case(b, lambda s: seqz(R(k.at(i), *q))), Case(TRUE, lambda s: ext.empty_seq())]
STAR = S("*")
def wild(a, b): return Or(a == b, b == STAR)
search("by_name", lambda s, n, q: wild(display_name(s.name(n)), q), "get_elements_by_tag_name", [STR])
def match_ns(s, n, u, l):
    nm = s.name(n)
    return And(Ite(tag_is(nm.f[0], 1), wild(nm.f[0].pl[1][0], u), u == STAR), wild(nm.f[2], l))
search("by_ns", match_ns, "get_elements_by_tag_name_ns", [STR, STR])

# ------------------------------------------------------------------------------------------------ C22 resolution through the ancestors
RNT = z3.Function("resolved_ns?", INT, INT, STR, INT); RNV = z3.Function("resolved_ns", INT, INT, STR, STR)
def opt_key(p): return leaves(Enum(p.tag, {0: [], 1: p.pl.get(1, [S("")])}))
def up(s, n): return s.upgrade(s.parent_raw(n))
clean = lambda E, h, *a: not h.w
@spec("Namespaced::resolve_namespace", "C22", inline=False, heap_ok=clean, measure=lambda s, n, p: RANK(n))
def _(s, n, p):
    def there(x):
        k = opt_key(p)
        t = RNT(x, *k)
        s.st.assume(And(t >= 0, t <= 1))
        return Enum(t, {0: [], 1: [RNV(x, *k)]})
    if s.at_call: return ret(there(n))
    own = And(ns_on(s, n), s.isa(n, "Element"))
    u = up(s, n)
    return [Case(Not(ns_on(s, n)), lambda s: none(), "namespaces are not tracked"), Case(And(own, tag_is(nsmap(s, n).get(p), 1)), lambda s: nsmap(s, n).get(p), "own declaration"),
            Case(tag_is(u, 1), lambda s: there(u.pl[1][0]), "that of the parent"), Case(TRUE, lambda s: none(), "none")]
RPT = z3.Function("resolved_prefix?", INT, STR, INT); RPV = z3.Function("resolved_prefix", INT, STR, STR)
@spec("Namespaced::resolve_prefix", "C22", inline=False, heap_ok=clean, measure=lambda s, n, p: RANK(n))
def _(s, n, x):
    N_, D_, S_x = NP(s, "None"), NP(s, "Default"), NP(s, "Some")
    def there(y):
        t = RPT(y, x)
        s.st.assume(And(t >= 0, t <= 2))
        return Enum(t, {N_: [], D_: [], S_x: [RPV(y, x)]})
    if s.at_call: return ret(there(n))
    b, good = prefix_of(s, n, x)
    u = up(s, n)
    return [Case(Not(ns_on(s, n)), lambda s: Enum(N_, {N_: []}), "namespaces are not tracked"), Case(And(s.isa(n, "Element"), b), lambda s: Such(good), "own declaration"),
            Case(tag_is(u, 1), lambda s: there(u.pl[1][0]), "that of the parent"), Case(TRUE, lambda s: Enum(N_, {N_: []}), "none")]

# ------------------------------------------------------------------------------------------------ C07-C10 reading and removing attributes
from specs_text import value_cases
def value_of(s, a, found):
    """the cases of the value of an attribute that was looked up"""
    empty, bad, val = value_cases(s, a)
    return [Case(Not(found), lambda s: none(), "no such attribute"), Case(empty, lambda s: none(), "no children"), Case(bad, None, "unknown reference", panic=True),
            Case(TRUE, lambda s: some(val(s)), "value")]
@spec("Element::get_attribute", "C07 C28")
def _(s, n, q):
    b, k, v = named(s, n, q)
    return value_of(s, v, And(s.isa(n, "Element"), okname(s, q), b))
@spec("Element::get_attribute_ns", "C08 C28")
def _(s, n, u, l):
    b, k, v = named_ns(s, n, u, l)
    return value_of(s, v, And(s.isa(n, "Element"), okns(s, u, l), b))

def id_of(s, a):
    """(the attribute is an ID with a value, its value cannot be computed, its value)"""
    o = s.owner(a)
    d = o.pl[1][0]
    lax = s.call("ProcessingOptions::has_assume_ids", s.extf(d, "Document", "i_options"))[0]
    isid = And(tag_is(o, 1), s.isa(a, "Attribute"), is_id_attr(s.name(a), lax))
    empty, bad, val = value_cases(s, a)
    return And(isid, Not(empty)), bad, val
@spec("id_attribute_value", "C10", private=True)
def _(s, a):
    isid, bad, val = id_of(s, a)
    return [Case(Not(isid), lambda s: none(), "not an ID"), Case(bad, None, "unknown reference", panic=True), Case(TRUE, lambda s: some(val(s)), "ID")]

from specs_node import isnew
def only_new(E, h, *a): return not any(not isnew(r) for ws in h.w.values() for r, _ in ws)
def idmap(s, d): return s.extf(d, "Document", "i_id_map")
def drop_attr(s, e, a, cond, isid, val):
    """if cond: a, an attribute of e, is taken off"""
    nm = s.name(a)
    m = attrs(s, e)
    s.set_ext(e, "Element", i_attributes=ite(cond, ext.map_put(m, nm, none()), m))
    ns = nsmap(s, e)
    pre = Enum(nm.f[1].tag, {0: [], 1: [nm.f[2]]})
    s.set_ext(e, "Element", i_namespaces=ite(And(cond, is_ns_attr(nm)), ext.map_put(ns, pre, none()), ns))
    o = s.extf(a, "Attribute", "i_owner_element")
    s.set_ext(a, "Attribute", i_owner_element=ite(cond, none(), o))
    d = s.owner(a).pl[1][0]
    im = idmap(s, d)
    reg = s.upgrade(im.get(val))
    s.set_ext(d, "Document", i_id_map=ite(And(cond, isid, tag_is(reg, 1), s.same(reg.pl[1][0], e)), ext.map_put(im, val, none()), im))
def has_attr(s, e, a):
    ent = attrs(s, e).get(s.name(a))
    return And(tag_is(ent, 1), s.same(ent.pl[1][0], a))
@spec("Element::remove_attribute_node", "C07 C09 C10 C22 C05", cost=20, inline=False, heap_ok=only_new)
def _(s, e, a):
    isid, bad, val = id_of(s, a)
    def eff(s):
        drop_attr(s, e, a, TRUE, isid, val(s))
        return ok(a)
    return [Case(Not(s.isa(e, "Element")), lambda s: s.err("InvalidState"), "not an element"), Case(And(isid, bad), None, "unknown reference", panic=True),
            Case(Not(has_attr(s, e, a)), lambda s: s.err("NotFound"), "not its attribute"), Case(TRUE, eff, "removed")]

# ------------------------------------------------------------------------------------------------ C07-C10 setting attributes
from specs_node import same_document, unfold_anc, isnew
from specs_text import escaped, NORM, NORMOK
from specs_data import fixed
def inside(s, a, e):
    """e hangs from the attribute a (where this is asked only new nodes have been written, so no existing node hangs from a new one)"""
    if isnew(a) and not isnew(e): return FALSE
    unfold_anc(s.E, s.st, a, e)
    return ANC(a, e)
def scenarios(named, eff, label):
    """the same effect, proved for every combination of some conditions on its own"""
    r = []
    for m in range(2 ** len(named) - 1, -1, -1):
        on = [(k, c) for i, (k, c) in enumerate(named.items()) if m >> i & 1]
        r.append(Case(And(*[c for _, c in on]), eff, ", ".join([label] + [k for k, _ in on])))
    return r
class Given:
    """an attribute that exists"""
    def __init__(self, s, a):
        self.name = s.name(a)
        self.isid, self.bad, self.val = id_of(s, a)
        self.empty, self.novalue, self.text = value_cases(s, a)
        self.doc = s.owner(a).pl[1][0]
        self.make = lambda s: a
        self.isnot = lambda s, v: Not(s.same(v, a))
    @staticmethod
    def errors(s, e, a):
        own = s.upgrade(s.extf(a, "Attribute", "i_owner_element"))
        return [Case(Not(And(s.isa(e, "Element"), s.isa(a, "Attribute"))), lambda s: s.err("InvalidState"), "not an element and an attribute"),
                Case(Not(same_document(s, e, a)), lambda s: s.err("WrongDocument"), "of another document"),
                Case(inside(s, a, e), lambda s: s.err("HierarchyRequest"), "inside the attribute"),
                Case(And(tag_is(own, 1), Not(s.same(own.pl[1][0], e))) if 1 in own.pl else FALSE, lambda s: s.err("InUseAttribute"), "of another element")]
class Made:
    """an attribute that is made for the purpose, with a name and a text"""
    def __init__(self, s, e, name, text):
        self.name = name
        o = s.owner(e)
        self.doc = o.pl[1][0]
        lax = s.call("ProcessingOptions::has_assume_ids", s.extf(self.doc, "Document", "i_options"))[0]
        self.isid = is_id_attr(name, lax)
        self.bad = self.novalue = Not(NORMOK(text)); self.empty = FALSE
        self.text = self.val = lambda s: escaped(s, NORM(text, FALSE))
        self.isnot = lambda s, v: TRUE
        def make(s):
            link = s.owner_raw(e)
            t = s.alloc(i_node_type="Text", i_name=fixed("text"), i_value=some(text), i_owner_document=link)
            a = s.alloc(i_node_type="Attribute", i_name=name, i_owner_document=link, i_child_nodes=ext.seq_push(ext.empty_seq(), t), i_extension=("Attribute", none()))
            s.set(t, "i_parent_node", some(a))
            return a
        self.make = make
def set_attr_cases(s, e, A, result):
    nm, d = A.name, A.doc
    def dup(s):
        r = s.upgrade(idmap(s, d).get(A.val(s)))
        return And(tag_is(r, 1), Not(s.same(r.pl[1][0], e)))
    q = display_name(nm)
    uu = nm.f[0].pl[1][0] if 1 in nm.f[0].pl else S("")
    hasu = tag_is(nm.f[0], 1)
    def first(s):
        b, k, v = named(s, e, q)
        return simp(And(okname(s, q), b, A.isnot(s, v))), v
    def second(s):
        b, k, v = named_ns(s, e, uu, nm.f[2])
        return simp(And(hasu, okns(s, uu, nm.f[2]), b, A.isnot(s, v))), v
    def eff(s):
        a = A.make(s)
        s.set_ext(a, "Attribute", i_owner_element=some(e))
        for look in (first, second):
            c, v = look(s)
            if z3.is_false(c): continue
            vid, vbad, vval = id_of(s, v)
            drop_attr(s, e, v, c, vid, vval(s))
        uri = z3.If(A.empty, S(""), A.text(s))
        isns = And(is_ns_attr(nm), ns_on(s, e))
        ns = nsmap(s, e)
        s.set_ext(e, "Element", i_namespaces=ite(isns, ext.map_put(ns, Enum(nm.f[1].tag, {0: [], 1: [nm.f[2]]}), some(uri)), ns))
        s.set_ext(e, "Element", i_attributes=ext.map_put(attrs(s, e), nm, some(a)))
        im = idmap(s, d)
        s.set_ext(d, "Document", i_id_map=ite(A.isid, ext.map_put(im, A.val(s), some(e)), im))
        return result(a)
    def badrepl(s):
        """the value of a replaced ID cannot be computed"""
        r = []
        for look in (first, second):
            c, v = look(s)
            vid, vbad, _ = id_of(s, v)
            r.append(And(c, vid, vbad))
        return Or(*r)
    nsbad = And(is_ns_attr(nm), Not(A.empty), A.novalue)
    tail = scenarios({"replacing the one of that name": first(s)[0], "replacing the one of that namespace and local name": second(s)[0]}, eff, "set")
    if s.at_call: tail = [Case(TRUE, eff, "set")]
    return [Case(And(A.isid, A.bad), None, "unknown reference", panic=True),
            Case(And(A.isid, dup(s)), lambda s: s.err("Syntax"), "ID of another element"),
            Case(Or(nsbad, badrepl(s)), None, "unknown reference", panic=True)] + tail
@spec("Element::set_attribute_node", "C05 C06 C07 C08 C09 C10 C22", cost=50, slow=True, joins=True, inline=False, heap_ok=only_new)
def _(s, e, a): return Given.errors(s, e, a) + set_attr_cases(s, e, Given(s, a), ok)
@spec("Element::set_attribute_node_ns", "C05 C06 C07 C08 C09 C10 C22", cost=50, slow=True, joins=True)
def _(s, e, a): return Given.errors(s, e, a) + set_attr_cases(s, e, Given(s, a), ok)

def made_cases(s, e, errors, name, text):
    o = s.owner_raw(e)
    return errors + [Case(tag_is(o, 0), None, "a document", panic=True), Case(Not(s.isa(e, "Element")), lambda s: s.err("InvalidState"), "not an element")] \
        + set_attr_cases(s, e, Made(s, e, name, text), lambda a: ok(UNIT))
@spec("Element::set_attribute", "C07 C09 C10 C22", cost=40, joins=True)
def _(s, e, q, text):
    c = _S["<Name as FromStr>::from_str"].fn(s, q)
    return made_cases(s, e, [Case(Not(c[0].cond), c[1].eff, "not a name")], parsed(q), text)
@spec("Element::set_attribute_ns", "C08 C09 C10 C22", cost=60, joins=True)
def _(s, e, u, q, text): return made_cases(s, e, _S["Name::new_ns"].fn(s, u, q)[:-1], parsed(q, u), text)

def removing(s, e, found, v):
    if s.at_call: raise Unsupported("not used at call sites")
    isid, bad, val = id_of(s, v)
    def eff(s):
        drop_attr(s, e, v, TRUE, isid, val(s))
        return ok(UNIT)
    return [Case(Not(found), lambda s: ok(UNIT), "no such attribute"), Case(And(isid, bad), None, "unknown reference", panic=True), Case(TRUE, eff, "removed")]
@spec("Element::remove_attribute", "C07 C09 C10 C22")
def _(s, e, q):
    b, k, v = named(s, e, q)
    return removing(s, e, And(s.isa(e, "Element"), okname(s, q), b), v)
@spec("Element::remove_attribute_ns", "C08 C09 C10 C22")
def _(s, e, u, l):
    b, k, v = named_ns(s, e, u, l)
    return removing(s, e, And(s.isa(e, "Element"), okns(s, u, l), b), v)

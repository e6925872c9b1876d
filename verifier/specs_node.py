"""Contracts of the node, navigation, cast and factory functions."""
import z3
from vals import *
import ext
from spec import *

OKU = lambda: ok(UNIT)

@spec("Node::node_name", "C27")
def _(s, n): return ret(s.name(n))
@spec("Node::node_value", "C27")
def _(s, n): return ret(s.value(n))
@spec("Node::node_type", "C27")
def _(s, n): return ret(s.get(n, "i_node_type"))
@spec("Node::parent_node", "C27 C19 C01")
def _(s, n): return ret(s.parent(n))
@spec("Node::child_nodes", "C27 C19 C01")
def _(s, n): return ret(s.kids(n))
@spec("Node::owner_document", "C27 C06")
def _(s, n): return ret(s.owner(n))
@spec("Node::first_child", "C19 C27")
def _(s, n):
    k = s.kids(n)
    return [Case(k.len > 0, lambda s: some(k.at(I(0)))), Case(TRUE, lambda s: none())]
@spec("Node::last_child", "C19 C27")
def _(s, n):
    k = s.kids(n)
    return [Case(k.len > 0, lambda s: some(k.at(simp(k.len - 1)))), Case(TRUE, lambda s: none())]
@spec("Node::has_child_nodes", "C19 C27")
def _(s, n): return ret(simp(s.kids(n).len > 0))
@spec("Node::previous_sibling", "C19 C27")
def _(s, n):
    p = s.parent(n)
    par = p.pl[1][0]
    k = s.kids(par)
    b, i = s.index_of(k, n)
    return [Case(And(tag_is(p, 1), i > 0), lambda s: some(k.at(simp(i - 1)))), Case(TRUE, lambda s: none())]
@spec("Node::next_sibling", "C19 C27")
def _(s, n):
    p = s.parent(n)
    par = p.pl[1][0]
    k = s.kids(par)
    b, i = s.index_of(k, n)
    return [Case(And(tag_is(p, 1), i + 1 < k.len), lambda s: some(k.at(simp(i + 1)))), Case(TRUE, lambda s: none())]

@spec("Node::remove_child", "C03 C05 C01", inline=False)
def _(s, self, old):
    k = s.kids(self)
    b, i = s.index_of(k, old)
    def eff(s):
        s.set(self, "i_child_nodes", ext.seq_remove(k, i))
        s.set(old, "i_parent_node", none())
        return ok(old)
    return [Case(Not(b), lambda s: s.err("NotFound"), "not a child"), Case(TRUE, eff, "removed")]

# ---------------------------------------------------------------- ancestors
def unfold_anc(E, st, a, x):
    """definition of anc at x: a is x, or a is an ancestor-or-self of what x hangs from: its live parent, for an attribute its live owner element"""
    pt, p = par0(E, st, x)
    isattr = typ0(E, st, x) == NT["Attribute"]
    at, e = ownel0(E, st, x)
    isax = tagterm(base(E, st, "i_extension", x)) == EX["Attribute"]
    for f in facts_attribute(E, st, x) + facts_node(E, st, x): st.assume(f)
    st.assume(ANC(a, x) == Or(a == x, And(pt == 1, LIVE(p), Not(isattr), ANC(a, p)), And(isax, at == 1, LIVE(e), ANC(a, e))))

def parent_links_only_cleared(E, heap, *a):
    """on nodes that existed before, parent links have at most been cleared; the node asked about is one of them"""
    old = lambda f: [v for r, v in heap.w.get(f, ()) if not isnew(r)]
    if a and isnew(a[1]): return False
    return all(isinstance(v, Enum) and not is_z(v.tag) and v.tag == 0 for v in old("i_parent_node")) and not old("i_node_type") and not old("i_extension")
def isnew(r): return z3.is_int_value(r) and r.as_long() < 0

@spec("is_self_or_ancestor", "C01 C04", inline=False, heap_ok=parent_links_only_cleared)
def _(s, a, x):
    if isnew(a): return ret(FALSE)          # no node that existed before hangs from a new one
    if any(not isnew(r) for r, _ in s.heap.w.get("i_parent_node", ())):
        # after parent links have only been cleared there are no new ancestors (induction over the ancestor chain)
        b = z3.Const(fresh_name("anc_now"), BOOL)
        s.st.assume(Implies(b, ANC(a, x))); s.st.assume(Implies(a == x, b))
        return ret(b)
    unfold_anc(s.E, s.st, a, x)
    return ret(ANC(a, x))

@loop("is_self_or_ancestor")
def _(E, fn, fid, head, body, st):
    """invariant: current = Some(x) with anc(a, x) = anc(a, node), or None and not anc(a, node); rank falls"""
    asg = E.assigned(fn, body)
    cand = [l for l in asg if (fid, l) in st.loc and (E.is_ref_ty(fn["locals"][l]) or
            (E.adt_name(fn["locals"][l]) == "Option" and E.is_ref_ty(E.T[fn["locals"][l]]["args"][0])))]
    a, node = spec_args(E, st, fid, fn)
    if isnew(node): return None           # run out: a node made in this function hangs from nothing that has a symbolic chain
    # the loop variable is the one that holds the start node at entry
    def holds(v, x): return (isinstance(v, Enum) and v.tag == 1 and is_z(v.pl[1][0]) and v.pl[1][0].eq(x)) or (is_z(v) and v.eq(x))
    cand = [l for l in cand if holds(st.loc[(fid, l)], node)]
    cand = [l for l in cand if live_at(E, fn, head, body, l)]
    if len(cand) != 1: raise Unsupported("loop of is_self_or_ancestor has another shape")
    L = cand[0]
    def inv(s, v):
        x = v.pl[1][0] if isinstance(v, Enum) else v
        isn = tag_is(v, 1) if isinstance(v, Enum) else TRUE
        unfold_anc(E, s, a, x)
        return And(Implies(isn, And(ANC(a, x) == ANC(a, node), LIVE(x), x >= 0)), Implies(Not(isn), Not(ANC(a, node))))
    E.side.append((st.copy(), inv(st, st.loc[(fid, L)]), "loop invariant of is_self_or_ancestor holds at entry"))
    s = st.copy()
    for l in asg:
        if (fid, l) in s.loc and l != L:
            if fn["locals"][l] is not None: del s.loc[(fid, l)]
    v = E.fresh(fn["locals"][L], "cur", s)
    s.loc[(fid, L)] = v
    x = v.pl[1][0] if isinstance(v, Enum) else v
    E.mark_old(x); s.term("ref", x)
    s.branch(inv(s, v))
    for l in asg:
        if (fid, l) not in s.loc and E.T[fn["locals"][l]]["k"] == "bool": s.loc[(fid, l)] = E.fresh(fn["locals"][l], "flag", s)
    back, exits, outs = E.run_body(fn, fid, head, body, s)
    for b in back:
        w = b.loc[(fid, L)]
        y = w.pl[1][0] if isinstance(w, Enum) else w
        E._cur = b
        E.side.append((b, And(inv(b, w), Implies(tag_is(w, 1) if isinstance(w, Enum) else TRUE, RANK(y) < RANK(x))), "loop invariant of is_self_or_ancestor is kept and the rank falls"))
    return [("cont", bb, q) for bb, q in exits] + outs

def live_at(E, fn, head, body, l):
    return any(uses(fn, bb, l) for bb in body)

def uses(fn, bb, l):
    b = fn["blocks"][bb]
    def has(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == l and isinstance(x[1], list) and isinstance(l, int) and not isinstance(x[0], str): return True
            return any(has(y) for y in x)
        return False
    return any(has(s[2]) for s in b["s"] if s[0] == "=") or has(b["t"])

def spec_args(E, st, fid, fn):
    return [deref_arg(E, st, st.loc[(fid, i + 1)]) for i in range(fn["argc"])]

# ---------------------------------------------------------------- insertion
def same_document(s, self, new):
    """check_same_document succeeds"""
    so, no = s.owner_raw(self), s.owner_raw(new)
    isdoc = s.isa(self, "Document")
    return Ite(isdoc, Or(tag_is(no, 0), And(tag_is(no, 1), s.same(no.pl[1][0], self))),
               Or(tag_is(no, 0), And(tag_is(so, 1), s.same(so.pl[1][0], no.pl[1][0]))))

@spec("check_same_document", "C06")
def _(s, self, new):
    return [Case(same_document(s, self, new), lambda s: ok(UNIT)), Case(TRUE, lambda s: s.err("WrongDocument"))]

@spec("is_child_allowed", "C04", inline=False)
def _(s, p, c):
    return ret(allowed(s.ty(p), s.ty(c)))

def unlink(s, new):
    """take new out of its present parent, if it has one; -> (had, parent, index)"""
    p = s.parent(new)
    had = tag_is(p, 1); par = p.pl[1][0]
    return had, par

def do_insert(s, self, new, refc, k0=None):
    """effect of a successful insertion on the heap of s"""
    p = s.parent(new)
    had = simp(tag_is(p, 1)); par = p.pl[1][0] if 1 in p.pl else self
    k = s.kids(self)
    ri = None
    if refc is not None:
        _, ri = s.index_of(k, refc)
    kp = s.kids(par)
    if s.heap.kept:
        # the places of the two in their original lists, one less if something before them went
        for x in (new, refc):
            if x is not None: s.st.term("idx", IDX(x)); s.st.term("idx", simp(IDX(x) - 1))
    if z3.is_false(had): ni = I(0)
    else:
        _, ni = s.index_of(kp, new)
        # remove
        kp2 = ite_seq(had, ext.seq_remove(kp, ni), kp)
        s.set(par, "i_child_nodes", kp2)
    k2 = s.kids(self)
    if refc is None: k3 = ext.seq_push(k2, new)
    else:
        pos = simp(z3.If(And(had, s.same(par, self), ni < ri), ri - 1, ri))
        s.st.term("idx", pos)
        k3 = ext.seq_insert_lazy(k2, pos, new)
    s.set(self, "i_child_nodes", k3)
    s.set(new, "i_parent_node", some(self))
    s.set(new, "i_owner_document", ite(s.isa(self, "Document"), some(self), s.owner_raw(self)))

def ite_seq(c, a, b):
    c = simp(c)
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    return ite(c, a, b)

def hierarchy(s, self, new, minus=()):
    """the insertion breaks the content model"""
    if s.heap.w.get("i_parent_node"):
        # only called after parent links have been cleared: there are no new ancestors (induction over the ancestor chain)
        anc = z3.Const(fresh_name("anc_now"), BOOL)
        s.st.assume(Implies(anc, ANC(new, self))); s.st.assume(Implies(new == self, anc))
    else:
        anc = ANC(new, self)
        unfold_anc(s.E, s.st, new, self)
    if isnew(new) and not isnew(self): anc = FALSE        # nothing hangs from a node just made
    two = And(s.isa(self, "Document"), s.isa(new, "Element"),
              s.exists(s.kids(self), lambda e: And(s.isa(e, "Element"), Not(s.same(e, new)), *[Not(s.same(e, m)) for m in minus])))
    return Or(Not(allowed(s.ty(self), s.ty(new))), anc, two)

def kept(E, h):
    """the heap is well-formed: as found, or as left by a contract that keeps it so, with new nodes that are linked to nothing"""
    new = {}
    for f, ws in h.w.items():
        for r, v in ws:
            if f == "i_value": continue
            if isnew(r): new[(f, r.as_long())] = v
            elif h.kept not in ("Node::remove_child", "Attribute::unset_value"): return False
    for (f, r), v in new.items():
        if f == "i_parent_node" and not (isinstance(v, Enum) and not is_z(v.tag) and v.tag == 0): return False
        if f == "i_child_nodes" and ext.short_len(v.len) != 0: return False
        if f == "i_extension" and (is_z(v.tag) or v.tag != EX["None"]): return False
    return True

@spec("Node::insert_before", "C01 C02 C04 C05 C06", cost=40, inline=False, heap_ok=lambda E, h, *a: kept(E, h))
def _(s, self, new, refc):
    h = hierarchy(s, self, new)
    k = s.kids(self)
    r = refc.pl[1][0] if 1 in refc.pl else None
    if r is not None:
        b, ri = s.index_of(k, r)
        nf = And(tag_is(refc, 1), Not(b))
    else: nf = FALSE
    wd = Not(same_document(s, self, new))
    cs = [Case(h, lambda s: s.err("HierarchyRequest"), "not allowed here"),
          Case(And(nf, wd), lambda s: OneOf(s.err("NotFound"), s.err("WrongDocument")), "reference is not a child, other document"),
          Case(nf, lambda s: s.err("NotFound"), "reference is not a child"),
          Case(wd, lambda s: s.err("WrongDocument"), "other document")]
    if r is not None:
        def eff(s): do_insert(s, self, new, r); return ok(new)
        cs.append(Case(tag_is(refc, 1), eff, "inserted before the reference"))
    def eff2(s): do_insert(s, self, new, None); return ok(new)
    cs.append(Case(TRUE, eff2, "appended"))
    return cs

@spec("Node::append_child", "C02 C04 C05")
def _(s, self, new):
    h = hierarchy(s, self, new)
    def eff2(s): do_insert(s, self, new, None); return ok(new)
    return [Case(h, lambda s: s.err("HierarchyRequest"), "not allowed here"),
            Case(Not(same_document(s, self, new)), lambda s: s.err("WrongDocument"), "other document"),
            Case(TRUE, eff2, "appended")]

@spec("Node::replace_child", "C01 C03 C04 C05 C06", cost=200, joins=True, model=True)
def _(s, self, new, old):
    k = s.kids(self)
    b, oi = s.index_of(k, old)
    na = Not(allowed(s.ty(self), s.ty(new)))
    h = hierarchy(s, self, new, (old,))
    def eff(s):
        # old goes, new is taken out of wherever it was, and stands in old's place
        isold = s.same(new, old)
        k1 = ext.seq_remove(k, oi)
        p = s.parent(new)
        had = And(tag_is(p, 1), Not(isold)); par = p.pl[1][0]
        s.set(self, "i_child_nodes", k1)
        s.set(old, "i_parent_node", none())
        kp = s.kids(par)
        bn, ni = s.index_of(kp, new)
        s.set(par, "i_child_nodes", ite(And(had, bn), ext.seq_remove(kp, ni), kp))
        pos = simp(z3.If(And(had, bn, s.same(par, self), ni < oi), oi - 1, oi))
        s.st.term("idx", pos)
        s.set(self, "i_child_nodes", ext.seq_insert_lazy(s.kids(self), pos, new))
        s.set(new, "i_parent_node", some(self))
        s.set(new, "i_owner_document", ite(s.isa(self, "Document"), some(self), s.owner_raw(self)))
        return ok(old)
    return [Case(na, lambda s: s.err("HierarchyRequest"), "kind not allowed here"),
            Case(Not(b), lambda s: OneOf(s.err("NotFound"), s.err("HierarchyRequest")) , "old is not a child"),
            Case(h, lambda s: s.err("HierarchyRequest"), "not allowed here"),
            Case(Not(same_document(s, self, new)), lambda s: s.err("WrongDocument"), "other document"),
            Case(TRUE, eff, "replaced")]

# ------------------------------------------------------------------ C01 C06 the text of an attribute
import fold
@spec("Attribute::unset_value", "C01 C06", cost=5, inline=False)
def _(s, a):
    def eff(s):
        kids = s.kids(a)
        for x in (a,): s.st.term("ref", x)
        s.heap = s.heap.write("i_parent_node", Bulk(fold.member(s.E, s.st, kids)), none())
        s.set(a, "i_child_nodes", ext.empty_seq())
        return ok(UNIT)
    return [Case(TRUE, eff, "no children left")]
@spec("Attribute::set_value", "C01 C06 C28", cost=15)
def _(s, a, text):
    from specs_data import fixed
    o = s.owner(a)
    def clear(s):
        kids = s.kids(a)
        s.heap = s.heap.write("i_parent_node", Bulk(fold.member(s.E, s.st, kids)), none())
        s.set(a, "i_child_nodes", ext.empty_seq())
    def bad(s):
        clear(s)
        return s.err("HierarchyRequest")
    def eff(s):
        clear(s)
        t = s.alloc(i_node_type="Text", i_name=fixed("text"), i_value=some(text), i_owner_document=s.owner_raw(a))
        s.set(t, "i_parent_node", some(a))
        s.set(a, "i_child_nodes", ext.seq_push(ext.empty_seq(), t))
        return ok(UNIT)
    return [Case(tag_is(o, 0), None, "without document", panic=True), Case(Not(allowed(s.ty(a), I(NT["Text"]))), bad, "no text allowed here"), Case(TRUE, eff, "the text")]

# ------------------------------------------------------------------ C17 clones
CLONE = z3.Function("clone_of", INT, BOOL, INT)
def seq_map(k, f): return SeqV(k.len, lambda i: f(k.at(i)))
def clone_ref(s, x, deep):
    """the node a recursive call makes of x: new, and none of those the caller makes itself"""
    c = CLONE(x, deep)
    return c
@spec("Node::clone_node", "C17 C06 C01", cost=20, inline=False, measure=lambda s, n, d: HGT(n))
def _(s, n, deep):
    if s.at_call:
        c = CLONE(n, deep)
        s.st.assume(c <= -100000)
        return ret(some(c))
    def far(c):
        s.E._cur.assume(c <= -100000)
        return c
    d = deep
    def eff(deep):
        def go(s):
            k = s.kids(n)
            kids = seq_map(k, lambda x: far(CLONE(x, d))) if deep else ext.empty_seq()
            e = s.ext(n)
            pl = dict(e.pl)
            pl[EX["Attribute"]] = [none()]
            el = list(pl[EX["Element"]])
            ai = EXF["Element"].index("i_attributes")
            m = el[ai]
            def get(x):
                en = m.get(x)
                return Enum(en.tag, {0: [], 1: [far(CLONE(en.pl[1][0], TRUE))]})
            el[ai] = MapV(get, m.kty, m.vty)
            pl[EX["Element"]] = el
            r = s.alloc(i_name=s.name(n), i_value=s.value(n), i_owner_document=s.owner_raw(n), i_child_nodes=kids, i_node_type=s.get(n, "i_node_type"), i_extension=Enum(e.tag, pl))
            if deep: s.heap = s.heap.write("i_parent_node", Bulk(fold.member(s.E, s.st, kids)), some(r))
            if not z3.is_false(simp(s.isa(n, "Element"))):
                IN = fold.map_member(s.E, s.st, el[ai])
                iselem = s.isa(n, "Element")
                s.heap = s.heap.write("i_extension", Bulk(lambda x: And(iselem, IN(x))), Enum(EX["Attribute"], {EX["Attribute"]: [some(r)]}))
            return some(r)
        return go
    return [Case(deep, eff(True), "deep"), Case(TRUE, eff(False), "shallow")]

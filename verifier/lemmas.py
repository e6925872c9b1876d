"""Lemmas over the contracts: the effect of every operation that changes a node keeps the well-formedness invariant that every
contract assumes.  Nothing of the code is looked at here (that the code has exactly these effects is what verify.py shows); the effect
of each contract is applied to an arbitrary well-formed heap, and each clause of the invariant is shown of arbitrary nodes, places and
names of the heap it leaves."""
import time, itertools
import z3
from vals import *
import engine, spec, ext, verify
from spec import *
import spec
from specs_node import isnew

LEMMAS = {}
class Lemma:
    def __init__(self, name, op, props, clauses, cost=10, slow=False):
        self.name = name; self.op = op; self.props = props.split(); self.clauses = clauses; self.cost = cost; self.slow = slow
        self.assumed = ""; self.private = False
def lemma(op, props, clauses, **kw):
    n = f"lemma: {op} keeps {' '.join(clauses)}"
    LEMMAS[n] = Lemma(n, op, props, clauses, **kw)

# ------------------------------------------------------------------ the clauses, of the heap h
class Ctx:
    def __init__(self, E, st, h, news): self.E = E; self.st = st; self.h = h; self.news = news; self.old = None
    def rd(self, f, r): self.E._cur = self.st; return self.E.read(self.st, self.h, f, r)
    def ty(self, r): return tagterm(self.rd("i_node_type", r))
    def par(self, r):
        v = self.rd("i_parent_node", r); return tag_is(v, 1), (v.pl[1][0] if 1 in v.pl else I(0))
    def own(self, r):
        v = self.rd("i_owner_document", r); return tag_is(v, 1), (v.pl[1][0] if 1 in v.pl else I(0))
    def kids(self, r): return self.rd("i_child_nodes", r)
    def ext(self, r): return self.rd("i_extension", r)
    def live(self, r): return self.E.live(self.st, r)
    def at(self, p, i):
        self.E._cur = self.st
        k = self.kids(p)
        if ext.short_len(k.len) == 0: return None, None
        return And(i >= 0, i < k.len), k.at(i)

def link(c, p, i, j):
    """child i of p names p as its parent; children i and j differ"""
    g, x = c.at(p, i)
    if g is None: return []
    has, q = c.par(x)
    g2, y = c.at(p, j)
    return [("a child names its parent", Implies(g, And(has, c.E.ref_eq(q, p, c.st)))),
            ("no child twice", Implies(And(g, g2, i < j), Not(c.E.ref_eq(x, y, c.st))))]
def back(c, x, i, j):
    """a node with a live parent is in its list"""
    has, p = c.par(x)
    if z3.is_false(simp(has)): return []
    k = c.kids(p)
    c.E._cur = c.st
    cand = [IDX(x), IDX(x) - 1, IDX(x) + 1, simp(k.len - 1)] + list(c.st.pool.get("idx", {}).values())
    if isnew(x): cand += [simp(t + 1) for t in cand[4:]]
    seen = {}
    for t in cand: seen.setdefault(simp(t).get_id(), t)
    c.E._cur = c.st
    alts = [And(t >= 0, t < k.len, c.E.ref_eq(k.at(t), x, c.st)) for t in list(seen.values())[:40]]
    return [("a node is in its parent's list", Implies(And(has, c.live(p)), Or(*alts)))]
def owner(c, p, i, j):
    """a child has the owner of its parent, or its parent as owner if that is a document"""
    g, x = c.at(p, i)
    if g is None: return []
    ho, o = c.own(x); hp, op = c.own(p)
    isd = c.ty(p) == NT["Document"]
    c.ty(x)
    return [("a child has its parent's owner", Implies(And(g, Or(isd, hp)), And(ho, c.E.ref_eq(o, ite(isd, p, op), c.st))))]
def model(c, p, i, j):
    g, x = c.at(p, i)
    if g is None: return []
    return [("a child is of a kind its parent allows", Implies(g, allowed(c.ty(p), c.ty(x))))]
def ranks(c, p, i, j):
    """there still is a rank that rises from parent to child and from element to attribute: that of before, raised below the inserted node"""
    g, x = c.at(p, i)
    if g is None: return []
    if c.old and not isnew(p):
        c.old(p)
        for t in (i, simp(i - 1), simp(i + 1)): c.old(base(c.E, c.st, "i_child_nodes", p).at(t))
    return [("the rank rises to a child", Implies(g, And(c.rank(p) >= 0, c.rank(x) > c.rank(p))))]
def attr_entry(c, e, k):
    """an attribute under a name has this name and element"""
    x = c.ext(e)
    m = x.pl[EX["Element"]][EXF["Element"].index("i_attributes")]
    c.E._cur = c.st
    c.st.term(f"key{m.kty}", k)
    ent = m.get(k)
    if 1 not in ent.pl: return []
    a = ent.pl[1][0]
    g = And(tag_is(x, EX["Element"]), tag_is(ent, 1))
    ax = c.ext(a)
    oe = ax.pl[EX["Attribute"]][0]
    ho, o = c.own(a); he, oo = c.own(e)
    r = [("an attribute names its element", Implies(g, And(tag_is(ax, EX["Attribute"]), c.ty(a) == NT["Attribute"], tag_is(oe, 1), c.E.ref_eq(oe.pl[1][0], e, c.st) if 1 in oe.pl else FALSE))),
         ("an attribute stands under its name", Implies(g, eq(c.rd("i_name", a), k))),
         ("an attribute has the owner of its element", Implies(g, And(ho, he, c.E.ref_eq(o, oo, c.st))))]
    if c.old and not isnew(e):
        c.old(e); c.old(attrs0(c.E, c.st, e).get(k).pl[1][0])
    if c.rank: r.append(("the rank rises to an attribute", Implies(g, And(c.rank(e) >= 0, c.rank(a) > c.rank(e)))))
    return r
def attr_back(c, a):
    """an attribute with a live element is one of its attributes"""
    ax = c.ext(a)
    oe = ax.pl[EX["Attribute"]][0]
    if 1 not in oe.pl: return []
    e = oe.pl[1][0]
    ex = c.ext(e)
    m = ex.pl[EX["Element"]][EXF["Element"].index("i_attributes")]
    nm = c.rd("i_name", a)
    c.E._cur = c.st
    c.st.term(f"key{m.kty}", nm)
    ent = m.get(nm)
    return [("an attribute is one of its element's", Implies(And(tag_is(ax, EX["Attribute"]), tag_is(oe, 1), c.live(e)),
                And(tag_is(ex, EX["Element"]), tag_is(ent, 1), c.E.ref_eq(ent.pl[1][0], a, c.st) if 1 in ent.pl else FALSE)))]
def attr_unique(c, e, k, k2):
    """no two attributes of the same qualified name, or of the same namespace and local name"""
    x = c.ext(e)
    m = x.pl[EX["Element"]][EXF["Element"].index("i_attributes")]
    c.E._cur = c.st
    for t in (k, k2): c.st.term(f"key{m.kty}", t)
    e1, e2 = m.get(k), m.get(k2)
    both = And(tag_is(x, EX["Element"]), tag_is(e1, 1), tag_is(e2, 1))
    return [("one attribute per qualified name", Implies(And(both, display_name(k) == display_name(k2)), eq(k, k2))),
            ("one attribute per namespace and local name", Implies(And(both, tag_is(k.f[0], 1), tag_is(k2.f[0], 1), k.f[0].pl[1][0] == k2.f[0].pl[1][0], k.f[2] == k2.f[2]), eq(k, k2)))]

def prove_lemma(prog, name, budget=300, timeout=None):
    lm = LEMMAS[name]
    timeout = timeout or (150000 if lm.slow else 20000)
    sp = SPECS[lm.op]
    res = verify.Res(lm.name); res.private = False
    fs = prog.fn(lm.op)
    if not fs: res.status = "missing"; res.why = "no function of this name"; return [res]
    f = fs[0]
    res.file, res.line = f["file"], f["line"]
    t0 = time.time()
    E = engine.Engine(prog)
    spec.install(E)
    E.want_allowed = True
    E.joins = sp.joins
    E.deadline = t0 + (budget or 300)
    try: run(E, f, sp, lm, res, timeout)
    except Unsupported as e: res.status = "unsupported"; res.why = str(e)
    except RecursionError: res.status = "unsupported"; res.why = "recursion limit"
    res.time = round(time.time() - t0, 2)
    res.solver_time = round(E.stats.solver_time, 2); res.solver_calls = E.stats.solver_calls
    bad = [o[1] for o in res.obl]
    if res.status == "ok" and any(b != "ok" for b in bad): res.status = "unknown"
    return [res]

def run(E, f, sp, lm, res, timeout):
    st = engine.State()
    E._cur = st
    args = verify.setup_args(E, f, st)
    heap0 = st.heap
    s0 = S_(E, st, heap0)
    vals = [spec.deref_arg(E, st, a) for a in args]
    for v in vals:
        for r in ([v] if is_z(v) and v.sort() == INT else []):
            for fld, _ in E.fields: E.read(st, heap0, fld, r)
    if sp.pre is not None: st.assume(sp.pre(s0, *vals))
    E.top = None
    P = verify.Prover(E, res, timeout)
    cases = sp.fn(S_(E, st, heap0), *vals)
    prior = TRUE
    reached = 0
    nkey = 0
    for ci, c in enumerate(cases):
        cond = And(prior, c.cond); prior = And(prior, Not(c.cond))
        if z3.is_false(simp(cond)) or c.panic: continue
        s = st.copy(); E._cur = s
        s.branch(simp(cond))
        if not P.sat(s, TRUE): continue
        sx = S_(E, s, heap0, lambda q: spec.new_ref(E, q))
        c.eff(sx)
        h = sx.heap
        if not h.w: continue
        reached += 1
        def node(name, s):
            r = z3.Const(name, INT); E.mark_old(r); s.assume(And(r >= 0, LIVE(r))); s.term("ref", r)
            E._cur = s
            for fld, _ in E.fields: E.read(s, heap0, fld, r)
            s.assume(RANK(r) >= 0)
            return r
        for cl in lm.clauses:
            for who in ["any"] + list(sx.newrefs):
                s2 = s.copy(); E._cur = s2
                x = node("n", s2) if isinstance(who, str) else who
                i = z3.Const("i", INT); j = z3.Const("j", INT)
                for t in (i, j, simp(i - 1), simp(i + 1), simp(j - 1), simp(j + 1)): s2.term("idx", t)
                cx = Ctx(E, s2, h, sx.newrefs)
                cx.rank = rank_after(cx, lm.op, vals, heap0)
                kty = E.p.adt("Name")
                if cl in ("attr_entry", "attr_unique"):
                    k = E.fresh(kty, "k", s2); k2 = E.fresh(kty, "k2", s2)
                goals = {"link": lambda: link(cx, x, i, j), "back": lambda: back(cx, x, i, j), "owner": lambda: owner(cx, x, i, j), "model": lambda: model(cx, x, i, j),
                         "ranks": lambda: ranks(cx, x, i, j), "attr_entry": lambda: attr_entry(cx, x, k), "attr_back": lambda: attr_back(cx, x),
                         "attr_unique": lambda: attr_unique(cx, x, k, k2)}[cl]()
                parts = []
                if lm.op == "Element::set_attribute_node":
                    nm = E.read(s2, heap0, "i_name", vals[1])
                    if cl == "attr_unique": parts = [eq(k, nm), eq(k2, nm)]
                    if cl == "attr_back": parts = [x == vals[1], eq(E.read(s2, heap0, "i_name", x), nm)]
                for sgn in itertools.product(*[(q, Not(q)) for q in parts]):
                    for l, g in goals:
                        if E.deadline and time.time() > E.deadline: raise Unsupported("time budget exhausted")
                        s3 = s2.copy(); E._cur = s3
                        for q in sgn: s3.branch(simp(q))
                        P.prove(s3, g, f"{c.label}: {l}" + ("" if isinstance(who, str) else f" (new node {who})") + "".join(" +" if q is parts[n] else " -" for n, q in enumerate(sgn)))
    res.reach = [reached, len(cases)]
    res.paths = reached
    if not reached: raise Unsupported("no effect")

def rank_after(cx, op, vals, heap0):
    """a rank for the heap after the operation: below an inserted node raised above its new parent; of a new node one more than its parent's"""
    E = cx.E
    def new_rank(r):
        has, p = cx.par(r)
        if z3.is_false(simp(has)) or z3.eq(p, r): return I(0)
        return Ite(has, (new_rank(p) if isnew(p) else RANK(p)) + 1, I(0))
    ins = {"Node::insert_before": (0, 1), "Node::append_child": (0, 1), "Node::replace_child": (0, 1), "Element::set_attribute_node": (0, 1)}.get(op)
    if ins is None or isnew(vals[ins[1]]):
        def rank(r):
            if isnew(r): return new_rank(r)
            f = RANK(r)
            for x in cx.news: f = Ite(E.ref_eq(r, x, cx.st), new_rank(x), f)
            return f
        return rank
    to, new = vals[ins[0]], vals[ins[1]]
    from specs_node import unfold_anc
    for x in (to, new):
        cx.st.assume(RANK(x) >= 0)
        unfold_anc(E, cx.st, new, x)
    def old(r):
        """what hangs from the inserted node, at r"""
        for fld in ("i_node_type", "i_parent_node", "i_extension"): E.read(cx.st, heap0, fld, r)
        unfold_anc(E, cx.st, new, r)
    cx.old = old
    def rank(r):
        if isnew(r): return new_rank(r)
        return z3.If(ANC(new, r), RANK(r) + RANK(to) + 1, RANK(r))
    return rank

lemma("Node::remove_child", "C01 C03", ("link", "back", "owner", "model", "ranks"))
lemma("Node::insert_before", "C01 C02 C04 C06", ("link", "back", "owner", "model", "ranks"))
lemma("Node::replace_child", "C01 C03 C04 C06", ("link", "back", "owner", "model", "ranks"), cost=40)
lemma("Attribute::unset_value", "C01", ("link", "back", "owner", "model", "ranks"))
lemma("Attribute::set_value", "C01", ("link", "back", "owner", "model", "ranks"))
lemma("Text::split", "C01 C15", ("link", "back", "owner", "model", "ranks"))
lemma("Document::create_attribute_with", "C01 C18", ("link", "back", "owner", "model", "ranks"))
lemma("create_document_with_options", "C01 C26", ("link", "back", "owner", "model", "ranks"))
lemma("Element::remove_attribute_node", "C01 C07 C08 C09", ("attr_entry", "attr_back", "attr_unique"))
lemma("Element::set_attribute_node", "C01 C06 C09", ("attr_entry",), cost=30)
lemma("Element::set_attribute_node", "C09", ("attr_back",), cost=60, slow=True)
lemma("Element::set_attribute_node", "C07 C08", ("attr_unique",), cost=60, slow=True)

"""Contracts: the specification language, the well-formedness invariant, and the contract objects used at call sites.

A contract is a decision list of cases (condition over the pre-state, effect).  The effect is executed on the
pre-heap by the specification itself and says what every field of every node is afterwards (frame included:
a field that is not written is unchanged).
"""
import z3, itertools
from vals import *
import ext

SPECS = {}          # short name -> Spec
class Spec:
    def __init__(self, name, fn, props, pre=None, inline=False, note="", heap_ok=None, slow=False, cost=1, private=False, assumed="", model=False, measure=None, joins=False):
        self.measure = measure
        self.model = model
        self.name = name; self.fn = fn; self.props = set(props); self.pre = pre
        self.joins = joins; self.inline = inline; self.note = note; self.heap_ok = heap_ok; self.slow = slow; self.cost = cost
        self.private = private; self.assumed = assumed

def spec(name, props="", pre=None, inline=True, note="", heap_ok=None, slow=False, cost=1, private=False, assumed="", model=False, measure=None, joins=False):
    """measure: S, args -> a natural number that falls at every recursive call (the contract is then used for the recursive calls).
    model: use the content model of existing nodes (part of the well-formedness invariant).
    inline=True: call sites use the body (which is verified), not the contract.
    private: a helper that is not part of the crate's interface; a failed obligation of it alone is no violation.
    assumed: (a reason) the contract is used at call sites but its body is out of reach; it is checked by the harness only."""
    def d(f):
        SPECS[name] = Spec(name, f, props.split(), pre, inline=inline, note=note, heap_ok=heap_ok, slow=slow, cost=cost, private=private, assumed=assumed, model=model, measure=measure, joins=joins)
        return f
    return d

class Case:
    __slots__ = ("cond", "eff", "label", "panic")
    def __init__(self, cond, eff, label="", panic=False):
        self.cond = cond; self.eff = eff; self.label = label; self.panic = panic

LOOPS = {}          # function -> loop handler (invariant)
def loop(name):
    def d(f): LOOPS[name] = f; return f
    return d

class Such:
    """any result with this property is acceptable: f(S, result) -> formula"""
    def __init__(self, f): self.f = f

class OneOf:
    """any of several results is acceptable (several checks fail at once)"""
    def __init__(self, *xs): self.xs = xs

def ret(v, label=""): return [Case(TRUE, lambda s: v, label)]

NT = {}; EX = {}; ERR = {}
def bind(prog):
    """variant indices, read from the code"""
    for d, n in ((NT, "NodeType"), (EX, "Extension"), (ERR, "Error")):
        i = prog.adt(n)
        d.clear()
        if i is None: continue
        for k, v in enumerate(prog.types[i]["variants"]): d[v["name"]] = k
    EXF.clear()
    for v in prog.types[prog.adt("Extension")]["variants"]:
        EXF[v["name"]] = [f for f, _ in v["fields"]]
EXF = {}

H0 = "H0"
INT, BOOL, STR = z3.IntSort(), z3.BoolSort(), z3.StringSort()
LIVE = z3.Function("live", INT, BOOL)
IDX = z3.Function("idx_in_parent", INT, INT)
RANK = z3.Function("rank", INT, INT)
HGT = z3.Function("height", INT, INT)             # of the subtree below, attributes below their element
ANC = z3.Function("anc", INT, INT, BOOL)          # anc(a, b): a is b or an ancestor of b, in the base heap

def base(E, st, field, ref): return E.base_read(E.Heap0, field, ref, st)

ALLOWED = {
    "Element": ["Element", "Text", "Comment", "ProcessingInstruction", "CData", "EntityReference"],
    "Attribute": ["Text", "EntityReference"],
    "EntityReference": ["Element", "Text", "Comment", "ProcessingInstruction", "CData", "EntityReference"],
    "Entity": ["Element", "Text", "Comment", "ProcessingInstruction", "CData", "EntityReference"],
    "DocumentFragment": ["Element", "Text", "Comment", "ProcessingInstruction", "CData", "EntityReference"],
    "Document": ["Element", "Comment", "ProcessingInstruction"],
}
def allowed(tp, tc):
    """the documented content model, as a formula over node type tags"""
    return Or(*[And(tp == NT[p], Or(*[tc == NT[c] for c in cs])) for p, cs in ALLOWED.items()])

TYPE_EXT = {"Element": "Element", "Attribute": "Attribute", "Document": "Document", "DocumentType": "DocumentType", "Entity": "Entity",
            "Notation": "Notation"}
TE = z3.Function("ext_of_type", INT, INT)
def type_ext(t, e): return e == TE(t)
def type_ext_table(st):
    for n, i in NT.items(): st.assume(TE(I(i)) == EX[TYPE_EXT.get(n, "None")])

# ------------------------------------------------------------------ well-formedness of the base heap
def tag0(E, st, field, ref): return tagterm(base(E, st, field, ref))
def typ0(E, st, r): return tag0(E, st, "i_node_type", r)
def par0(E, st, r):
    v = base(E, st, "i_parent_node", r); return tagterm(v), v.pl[1][0]
def own0(E, st, r):
    v = base(E, st, "i_owner_document", r); return tagterm(v), v.pl[1][0]

def facts_node(E, st, n):
    """ground facts about one old node: its extension fits its type"""
    type_ext_table(st)
    return [type_ext(typ0(E, st, n), tagterm(base(E, st, "i_extension", n)))]

def facts_owner(E, st, n):
    """an old node that is neither a document nor a free document type has a live owner document"""
    t = typ0(E, st, n)
    ot, o = own0(E, st, n)
    isdoc = t == NT["Document"]
    return [Implies(isdoc, ot == 0), Implies(ot == 0, Or(isdoc, t == NT["DocumentType"])),
            Implies(ot == 1, And(LIVE(o), o != n, typ0(E, st, o) == NT["Document"], tagterm(base(E, st, "i_extension", o)) == EX["Document"]))]

def facts_elem(E, st, p, i, c):
    """element i of the child list of the old node p is c"""
    kids = base(E, st, "i_child_nodes", p)
    g = And(i >= 0, i < kids.len)
    pt, pp = par0(E, st, c)
    ct, co = own0(E, st, c)
    ot, oo = own0(E, st, p)
    return [Implies(g, And(c >= 0, LIVE(c), pt == 1, pp == p, IDX(c) == i, RANK(p) >= 0, RANK(c) > RANK(p), HGT(c) >= 0, HGT(p) > HGT(c), ct == 1, co == z3.If(typ0(E, st, p) == NT["Document"], p, oo)))]

def facts_parent(E, st, c):
    pt, p = par0(E, st, c)
    kids = base(E, st, "i_child_nodes", p)
    i = IDX(c)
    k = kids.at(i)
    return [Implies(And(pt == 1, LIVE(p)), And(i >= 0, i < kids.len, k == c, p != c))] + facts_elem(E, st, p, i, k)

OWNEL = None
def ownel0(E, st, a):
    """owner element of the old attribute a: (tag, ref)"""
    v = base(E, st, "i_extension", a).pl[EX["Attribute"]][EXF["Attribute"].index("i_owner_element")]
    return tagterm(v), v.pl[1][0]
def attrs0(E, st, e):
    return base(E, st, "i_extension", e).pl[EX["Element"]][EXF["Element"].index("i_attributes")]

def kq(E, n, s, key):
    """the name under which element n has an attribute displayed as s: ghost inverse, so display is injective on keys"""
    ls = leaves(E.canon(E.p.adt('Name'), key))
    return And(*[z3.Function(f"keyq{j}", INT, STR, l.sort())(n, s) == l for j, l in enumerate(ls)])
def kns(E, n, u, l, key):
    ls = leaves(E.canon(E.p.adt('Name'), key))
    return And(*[z3.Function(f"keyns{j}", INT, STR, STR, x.sort())(n, u, l) == x for j, x in enumerate(ls)])

def facts_attr_entry(E, st, e, k, ent):
    """old element e maps name k to ent"""
    isel = tagterm(base(E, st, "i_extension", e)) == EX["Element"]
    a = ent.pl[1][0]
    g = And(isel, tag_is(ent, 1))
    at, ao = ownel0(E, st, a)
    aot, aoo = own0(E, st, a)
    eot, eoo = own0(E, st, e)
    return [Implies(g, And(a >= 0, LIVE(a), typ0(E, st, a) == NT["Attribute"], tagterm(base(E, st, "i_extension", a)) == EX["Attribute"],
                           at == 1, ao == e, RANK(e) >= 0, RANK(a) > RANK(e), HGT(a) >= 0, HGT(e) > HGT(a), eq(base(E, st, "i_name", a), k), aot == 1, eot == 1, aoo == eoo,
                           kq(E, e, display_name(k), k),
                           Implies(tag_is(k.f[0], 1), kns(E, e, k.f[0].pl[1][0], k.f[2], k))))]

def facts_attribute(E, st, a):
    at, e = ownel0(E, st, a)
    isat = tagterm(base(E, st, "i_extension", a)) == EX["Attribute"]
    nm = base(E, st, "i_name", a)
    m = attrs0(E, st, e)
    ent = m.get(nm)
    return [Implies(And(isat, at == 1, LIVE(e)), And(typ0(E, st, e) == NT["Element"], tagterm(base(E, st, "i_extension", e)) == EX["Element"], e >= 0, RANK(e) >= 0, RANK(a) > RANK(e), HGT(a) >= 0, HGT(e) > HGT(a),
                                                      tag_is(ent, 1), ent.pl[1][0] == a))] + facts_attr_entry(E, st, e, nm, ent)

def display_name(n):
    """the qualified form of a Name value"""
    pre = n.f[1]
    loc = n.f[2]
    if not is_z(pre.tag):
        return loc if pre.tag == 0 else cat3(pre.pl[1][0], S(":"), loc)
    return z3.If(pre.tag == 1, cat3(pre.pl[1][0], S(":"), loc), loc)

def cat3(*xs): return z3.Concat(*xs)

def wf(E, st, heap, field, ref, val):
    """called on every read of a field of an old node"""
    if E.wf_off: return
    E.wf_off = True
    try:
        fs = []
        if field in ("i_node_type", "i_extension"): fs += facts_node(E, st, ref)
        if field == "i_owner_document": fs += facts_owner(E, st, ref)
        if field == "i_node_type" and E.want_allowed:
            pt, p = par0(E, st, ref)
            fs.append(Implies(And(pt == 1, LIVE(p)), allowed(typ0(E, st, p), typ0(E, st, ref))))
        if field == "i_name": fs.append(val.f[2] != z3.StringVal("*"))        # names of nodes are XML names
        if field == "i_parent_node":
            fs += facts_parent(E, st, ref)
            st.term("idx", IDX(ref))
        if field == "i_extension":
            fs += facts_attribute(E, st, ref)
            nm = base(E, st, "i_name", ref)
            st.term(f"key{attrs0(E, st, ref).kty}", nm)
    finally:
        E.wf_off = False
    for f in fs: st.assume(f)

def wrap(E, field, ref, v):
    """make element reads of base sequences and maps produce their facts"""
    if field == "i_child_nodes":
        orig = v.at
        def at(i):
            c = orig(i)
            if not E.wf_off:
                E._cur.term("idx", i)
                E.wf_off = True
                try:
                    for f in facts_elem(E, E._cur, ref, i, c): E._cur.assume(f)
                finally:
                    E.wf_off = False
            return c
        return SeqV(v.len, at, v.key)
    if field == "i_extension":
        pl = dict(v.pl)
        xs = list(pl[EX["Element"]])
        ai = EXF["Element"].index("i_attributes")
        m = xs[ai]
        oget = m.get
        def get(k):
            ent = oget(k)
            if not E.wf_off:
                E.wf_off = True
                try:
                    for f in facts_attr_entry(E, E._cur, ref, k, ent) + facts_owner(E, E._cur, ref): E._cur.assume(f)
                finally:
                    E.wf_off = False
            return ent
        xs[ai] = MapV(get, m.kty, m.vty, m.key)
        pl[EX["Element"]] = xs
        return Enum(v.tag, pl)
    return v

# ------------------------------------------------------------------ specification context
class S_:
    """what a specification may look at and change"""
    def __init__(self, E, st, heap, alloc=None):
        self.E = E; self.st = st; self.heap = heap; self.pre = heap
        self.at_call = False
        self.newrefs = []; self._alloc = alloc; self.outs = {}
    def get(self, ref, field):
        return self.E.read(self.st, self.heap, field, ref)
    def set(self, ref, field, val):
        self.heap = self.heap.write(field, ref, val)
    def ty(self, ref): return tagterm(self.get(ref, "i_node_type"))
    def isa(self, ref, *names):
        t = self.ty(ref)
        return simp(Or(*[t == NT[n] for n in names]))
    def name(self, ref): return self.get(ref, "i_name")
    def value(self, ref): return self.get(ref, "i_value")
    def kids(self, ref): return self.get(ref, "i_child_nodes")
    def parent_raw(self, ref): return self.get(ref, "i_parent_node")
    def owner_raw(self, ref): return self.get(ref, "i_owner_document")
    def ext(self, ref): return self.get(ref, "i_extension")
    def extf(self, ref, variant, field):
        e = self.ext(ref)
        if EX[variant] not in e.pl: raise Unsupported("extension variant")
        return e.pl[EX[variant]][EXF[variant].index(field)]
    def is_ext(self, ref, variant): return simp(tag_is(self.ext(ref), EX[variant]))
    def set_ext(self, ref, variant, **kw):
        e = self.ext(ref)
        fs = list(e.pl[EX[variant]])
        for k, v in kw.items(): fs[EXF[variant].index(k)] = v
        pl = dict(e.pl); pl[EX[variant]] = fs
        self.set(ref, "i_extension", Enum(e.tag, pl))
    def upgrade(self, w):
        """Option<Weak> -> Option<Rc>"""
        if not is_z(w.tag) and w.tag == 0: return none()
        r = w.pl[1][0]
        l = self.E.live(self.st, r)
        t = simp(And(tag_is(w, 1), l))
        return Enum(ext.simp_tag(t), {0: [], 1: [r]})
    def parent(self, ref):
        """parent_node(): none for attributes"""
        p = self.upgrade(self.parent_raw(ref))
        return ite(self.isa(ref, "Attribute"), none(), p)
    def owner(self, ref): return self.upgrade(self.owner_raw(ref))
    def err(self, n): return err(Enum(ERR[n], {ERR[n]: []}))
    def same(self, a, b): return self.E.ref_eq(a, b, self.st)
    def alloc(self, **f):
        node = {"i_value": none(), "i_parent_node": none(), "i_owner_document": none(), "i_child_nodes": ext.empty_seq(),
                "i_extension": Enum(EX["None"], {EX["None"]: []})}
        for k, v in f.items():
            if k == "i_node_type" and isinstance(v, str): v = Enum(NT[v], {NT[v]: []})
            if k == "i_extension" and isinstance(v, tuple): v = Enum(EX[v[0]], {EX[v[0]]: list(v[1:])})
            node[k] = v
        r = self._alloc(self)
        self.newrefs.append(r)
        for n, _ in self.E.fields:
            self.set(r, n, node[n])
        return r
    def exists(self, seq, pred):
        """exists an index i of seq with pred(element)"""
        b, w = ext.any_in(self.E, self.st, seq.len, lambda j: self.pure(lambda: pred(seq.at(j)), j, seq.len), seq)
        return b
    def pure(self, f, j, ln):
        E = self.E
        s = self.st.copy()
        old, oc = self.st, E._cur
        self.st = s; E._cur = s
        s.assume(And(j >= 0, j < ln))
        n0 = set(old.ass)
        try:
            r = f()
        finally:
            self.st = old; E._cur = oc
        rng = And(j >= 0, j < ln)
        return r, [x for k, x in s.ass.items() if k not in n0 and not x.eq(rng)]
    def first_index(self, seq, pred):
        """(found, first index)"""
        E, st = self.E, self.st
        if ext.short_len(seq.len) is not None:
            return ext.any_in(E, st, seq.len, lambda j: self.pure(lambda: pred(seq.at(j)), j, seq.len))
        q = ext.Bound(E, st, lambda j: self.pure(lambda: pred(seq.at(j)), j, seq.len))
        P, F, sub = q.P, q.F, q.sub
        b = z3.Const(fresh_name("sfound"), BOOL); w = z3.Const(fresh_name("spos"), INT)
        st.term("idx", w)
        st.assume(Implies(b, And(w >= 0, w < seq.len, sub(P, w), sub(F, w))))
        st.forall("idx", lambda t: Implies(And(t >= 0, t < seq.len), And(sub(F, t), Implies(Or(Not(b), t < w), Not(sub(P, t))))))
        E._cur = st
        x = seq.at(w)
        if is_z(x) and x.sort() == INT: st.term("ref", x)
        return b, w
    def index_of(self, seq, x):
        return self.first_index(seq, lambda e: self.same(e, x))
    def map_find(self, m, pred, kind="key"):
        """exists key k (with value v) with pred(k, v): (found, k, v)"""
        E, st = self.E, self.st
        if m.key == ("emptymap",): return FALSE, None, None
        # the same question has the same answer: lookups are told apart by what they ask of one probe key per key type
        probes = E.__dict__.setdefault("probes", {}); seen = E.__dict__.setdefault("lookups", {})
        if m.kty not in probes: probes[m.kty] = E.fresh(m.kty, "probe", st)
        s0 = dict(st.ass)
        E._cur = st
        ent = m.get(probes[m.kty])
        ask = z3.simplify(And(tag_is(ent, 1), pred(probes[m.kty], ent.pl[1][0])))
        st.ass.clear(); st.ass.update(s0)
        hit = seen.get(ask.get_id())
        if hit is not None:
            b, kb, vb, facts, own, inst, _ = hit
            for f in facts + own: st.assume(f)
            st.term(f"key{m.kty}", kb)
            if is_z(vb) and vb.sort() == INT: st.term("ref", vb)
            st.forall(f"key{m.kty}", inst)
            return b, kb, vb
        kb = E.fresh(m.kty, "sk", st)
        E._cur = st
        n0 = set(st.ass)
        ent = m.get(kb)
        vb = ent.pl[1][0]
        c0 = uid()
        P = pred(kb, vb)
        facts = [x for k, x in st.ass.items() if k not in n0]
        ext.no_fresh(c0, P, *facts)
        present = tag_is(ent, 1)
        b = z3.Const(fresh_name("smap"), BOOL)
        st.term(f"key{m.kty}", kb)
        own = [Implies(b, And(present, P))]
        st.assume(own[0])
        if is_z(vb) and vb.sort() == INT: st.term("ref", vb)
        def inst(t):
            if t is kb: return None
            pr = ext.raw_pairs(kb, t)
            return And(z3.substitute(And(*facts), *pr), Implies(Not(b), Not(z3.substitute(And(present, P), *pr))))
        st.forall(f"key{m.kty}", inst)
        seen[ask.get_id()] = (b, kb, vb, facts, own, inst, ask)
        return b, kb, vb
    def top(self, name):
        """the function under verification is `name`: its definition may be unfolded"""
        t = getattr(self.E, "top", None)
        return t is not None and self.E.key(t) == name
    def call(self, name, *args):
        """the value a function of the crate returns on these arguments (the real code, run on the pre-state)"""
        E = self.E
        fs = E.p.fn(name)
        if len(fs) != 1: raise Unsupported(f"no function {name}")
        s = self.st.copy()
        s.loc = dict(s.loc)
        oc, os_, od = E._cur, getattr(E, "stack", []), E.depth
        E._cur = s; E.stack = []
        try:
            outs = E.run_fn(fs[0], list(args), s)
            outs = E.merge(self.st.copy(), outs)
        finally:
            E._cur = oc; E.stack = os_; E.depth = od
        if len(outs) != 1 or outs[0][0] != "ret": raise Unsupported(f"{name} has several outcomes")
        for k, f in outs[0][1].ass.items(): self.st.ass.setdefault(k, f)
        return outs[0][2], outs[0][1]
    def call_mut(self, name, v, *args):
        """the value left behind the &mut argument v"""
        c = uid(); self.st.cells[c] = v
        p = Ptr(("C", c))
        r, s = self.call(name, p, *args)
        return deref_arg(self.E, s, p)

class ContractUse:
    """A contract at a call site"""
    def __init__(self, sp, key): self.sp = sp; self.key = key
    # fields whose writes do not disturb the well-formedness invariant
    HARMLESS = ("i_value",)
    def applies(self, E, st, args):
        if self.sp.heap_ok is not None: return self.sp.heap_ok(E, st.heap, *[deref_arg(E, st, a) for a in args])
        for f, ws in st.heap.w.items():
            if f in self.HARMLESS: continue
            for r, _ in ws:
                if not (z3.is_int_value(r) and r.as_long() < 0 and getattr(self.sp, "newok", False)):
                    return False
        if self.sp.pre is not None:
            c = self.sp.pre(S_(E, st, st.heap), *[deref_arg(E, st, a) for a in args])
            if E.feasible(st, Not(c)): return False
        return True
    def decreases(self, E, st, args):
        """the measure of a recursive call is below that of the call under verification"""
        if st.heap.w: raise Unsupported("recursion after a write")
        E._cur = st
        m = self.sp.measure(S_(E, st, st.heap), *[deref_arg(E, st, a) for a in args])
        m0 = self.sp.measure(S_(E, st, st.heap), *E.top_vals)
        E.side.append((st.copy(), And(m >= 0, m < m0), f"the recursion of {self.key} is on a smaller tree"))
    def apply(self, E, st, args):
        pre = st.copy()
        E._cur = st
        vals = [deref_arg(E, st, a) for a in args]
        s0 = S_(E, st, st.heap); s0.at_call = True
        cases = self.sp.fn(s0, *vals)
        outs = []
        neg = []
        cur = st
        for i, c in enumerate(cases):
            cond = simp(c.cond) if is_z(c.cond) else c.cond
            if z3.is_false(cond): continue
            last = z3.is_true(cond)
            if not last and not E.feasible(cur, cond): continue
            s = cur if last else cur.copy()
            s.branch(cond)
            E._cur = s
            sx = S_(E, s, s.heap, lambda q: new_ref(E, q))
            v = None if c.panic else c.eff(sx)
            if isinstance(v, OneOf):
                w = v.xs[-1]
                for x in v.xs[:-1]: w = ite(z3.Const(fresh_name("choice"), BOOL), x, w)
                v = w
            if c.panic:
                outs.append(("panic", s, f"contract of {self.key}: {c.label}"))
            else:
                s.heap = sx.heap
                if not pre.heap.w and s.heap.w: s.heap.kept = self.key
                for k, val in sx.outs.items(): E.loc_write(s, args[k], val)
                outs.append(("ret", s, v))
            if last: break
            if not E.feasible(cur, Not(cond)): break
            cur.branch(Not(cond))
        return E.merge(pre, outs)

def new_ref(E, sx):
    st = sx.st
    r = I(-(st.nalloc + 1)); st.nalloc += 1
    st.term("ref", r)
    return r

def deref_arg(E, st, v):
    while isinstance(v, Ptr):
        if v.root[0] == "N": return v
        v = E.loc_read(st, v)
    return v

def live(E):
    def f(st, r):
        if z3.is_int_value(r) and r.as_long() < 0: return TRUE
        return LIVE(r)
    return f

def install(E, contracts=True):
    from engine import Heap
    bind(E.p)
    E.Heap0 = Heap("H0")
    E.wf_off = False
    E.want_allowed = False
    E.wf = wf
    E.wrap = wrap
    E.live = live(E)
    if contracts:
        E.loop_inv.update(LOOPS)
        for n, sp in SPECS.items():
            if not sp.inline: E.contracts[n] = ContractUse(sp, n)

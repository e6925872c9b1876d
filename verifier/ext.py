"""Trusted contracts of functions outside the crate (std, log, regex).  These are assumptions."""
import z3
from vals import *

HANDLERS = {}
def ext(*names):
    def d(f):
        for n in names: HANDLERS[n] = f
        return f
    return d

def deref(E, st, v):
    while isinstance(v, Ptr): v = E.loc_read(st, v)
    return v

def str_of(E, st, v):
    v = deref(E, st, v)
    if is_z(v) and v.sort() == z3.StringSort(): return v
    raise Unsupported("string expected")

def seq_val(E, st, v):
    v = deref(E, st, v)
    if isinstance(v, SeqV): return v
    if isinstance(v, Struct) and v.clo is None: return E.seq_of(v.f)
    raise Unsupported(f"sequence expected, got {type(v).__name__}")

def panic(st, msg): return [("panic", st, msg)]

# ---------------------------------------------------------------- log, panics
@ext("std::cmp::PartialOrd::le")
def _(E, st, c, a, tys, dty):
    if "log::Level" in c["ext"]:
        E.stats.assumed.add("log: macro calls have no effect on the nodes (the no-logging path is taken)")
        return FALSE
    raise Unsupported("PartialOrd::le")

@ext("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def _(E, st, c, a, tys, dty):
    x, y = deref(E, st, a[0]), deref(E, st, a[1])
    if is_z(x) and x.sort() == z3.IntSort():
        k = c["def"].split("::")[-1]
        return {"lt": x < y, "gt": x > y, "ge": x >= y}[k]
    raise Unsupported("PartialOrd")

@ext("xml_dom::log::max_level", "xml_dom::log::__private_api::loc", "xml_dom::log::__private_api::log")
def _(E, st, c, a, tys, dty): return Opaque("opaque")

@ext("std::rt::panic_fmt", "std::rt::panic_display", "core::panicking::panic", "core::panicking::panic_fmt",
     "core::panicking::unimplemented_default_msg", "std::option::unwrap_failed", "std::option::expect_failed",
     "std::result::unwrap_failed", "core::panicking::panic_explicit", "core::panicking::panic_const", "core::panicking::assert_failed")
def _(E, st, c, a, tys, dty): return panic(st, c["def"])

# ---------------------------------------------------------------- identity conversions
@ext("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::convert::AsRef::as_ref", "std::hint::must_use",
     "std::string::String::as_str", "core::str::<impl str>::to_owned", "std::borrow::Borrow::borrow", "std::convert::From::from",
     "std::slice::<impl [T]>::to_vec", "core::slice::<impl [T]>::as_ref", "std::string::String::into_boxed_str",
     "std::vec::Vec::<T, A>::as_slice", "std::string::String::as_ref", "std::borrow::Cow::<'_, B>::into_owned", "std::convert::identity")
def _(E, st, c, a, tys, dty):
    v = deref(E, st, a[0])
    if isinstance(v, (Guard, NodeView, Opaque)) and not (isinstance(v, Opaque) and v.what.startswith("const:")):
        raise Unsupported(f"clone of {v}")
    if c["def"] == "std::convert::From::from":
        d = E.T[dty]
        n = d["s"]
        if isinstance(v, SeqV) or E.is_ref_ty(dty): return v
        if not (is_z(v) and v.sort() == z3.StringSort()):
            raise Unsupported(f"From::from to {n}")
    return v

@ext("std::convert::Into::into")
def _(E, st, c, a, tys, dty):
    v = deref(E, st, a[0])
    t = E.T[dty]
    if is_z(v) and v.sort() == z3.StringSort(): return v
    if t["k"] == "adt" and t["name"].split("::")[-1] == "Result" and isinstance(v, Enum):
        for n, f in E.p.fns.items():
            if f["local"] and "convert::From<" in n and n.endswith("::from"): pass
        E.stats.assumed.add("Error::into makes Err(self)")
        return err(v)
    if t["k"] == "adt" and t["name"].split("::")[-1] == "Option":
        return some(v)
    raise Unsupported("Into::into")

@ext("std::string::ToString::to_string")
def _(E, st, c, a, tys, dty):
    v = deref(E, st, a[0])
    ty = c["args"][0] if c["args"] and isinstance(c["args"][0], int) else None
    return fmt_string(E, st, [("arg", "display", ty, v)])

@ext("std::default::Default::default")
def _(E, st, c, a, tys, dty):
    return default(E, dty, st)

def default(E, dty, st):
    t = E.T[dty]
    if t["k"] == "bool": return FALSE
    if t["k"] in ("uint", "int"): return z3.BitVecVal(0, 8) if t["bytes"] == 1 and t["k"] == "uint" else I(0)
    if t["k"] == "str": return S("")
    if t["k"] == "ref": return default(E, t["e"], st)
    if t["k"] == "tuple": return Struct([default(E, e, st) for e in t["e"]])
    n = E.adt_name(dty)
    if n == "String": return S("")
    if n == "Option": return none()
    if n == "Vec": return empty_seq()
    if n == "HashMap": return empty_map(t["args"][0], t["args"][1])
    raise Unsupported(f"default of {t['s']}")

def empty_seq():
    return SeqV(I(0), lambda i: (_ for _ in ()).throw(Unsupported("element of empty")), key=("empty",), z=z3.Empty(REFSEQ))

def empty_map(k, v):
    return MapV(lambda x: none(), k, v, key=("emptymap",))

# ---------------------------------------------------------------- equality
@ext("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def _(E, st, c, a, tys, dty):
    x, y = full_deref(E, st, a[0]), full_deref(E, st, a[1])
    r = eq(x, y)
    return Not(r) if c["def"].endswith("::ne") else r

def full_deref(E, st, v):
    v = deref(E, st, v)
    if isinstance(v, Enum):
        return Enum(v.tag, {k: [full_deref(E, st, x) for x in xs] for k, xs in v.pl.items()})
    if isinstance(v, Struct):
        return Struct([full_deref(E, st, x) for x in v.f], v.clo)
    return v

# ---------------------------------------------------------------- ? operator
@ext("std::ops::Try::branch")
def _(E, st, c, a, tys, dty):
    v = a[0]
    n = E.adt_name(tys[0])
    # ControlFlow: Continue = 0, Break = 1
    if n == "Result":
        if 0 in v.pl and not is_z(v.tag) and v.tag == 0: return Enum(0, {0: v.pl[0]})
        if not is_z(v.tag): return Enum(1, {1: [Enum(1, {1: v.pl[1]})]})
        return Enum(v.tag, {0: v.pl.get(0), 1: [Enum(1, {1: v.pl.get(1)})]})
    if n == "Option":
        if not is_z(v.tag):
            return Enum(0, {0: v.pl[1]}) if v.tag == 1 else Enum(1, {1: [Enum(0, {0: []})]})
        return Enum(I(1) - v.tag, {0: v.pl[1], 1: [Enum(0, {0: []})]})
    raise Unsupported("Try::branch")

@ext("std::ops::FromResidual::from_residual")
def _(E, st, c, a, tys, dty):
    v = a[0]
    n = E.adt_name(dty)
    if n == "Result": return Enum(1, {1: v.pl[1]})
    if n == "Option": return none()
    raise Unsupported("from_residual")

# ---------------------------------------------------------------- Rc / RefCell / Weak
@ext("std::cell::RefCell::<T>::new")
def _(E, st, c, a, tys, dty): return a[0]

@ext("std::rc::Rc::<T>::new")
def _(E, st, c, a, tys, dty): return E.alloc(st, a[0])

@ext("std::rc::Rc::<T, A>::downgrade")
def _(E, st, c, a, tys, dty): return deref(E, st, a[0])

@ext("std::rc::Rc::<T, A>::ptr_eq", "std::rc::Weak::<T, A>::ptr_eq")
def _(E, st, c, a, tys, dty): return E.ref_eq(deref(E, st, a[0]), deref(E, st, a[1]), st)

LIVE = z3.Function("live", z3.IntSort(), z3.BoolSort())
@ext("std::rc::Weak::<T, A>::upgrade")
def _(E, st, c, a, tys, dty):
    r = deref(E, st, a[0])
    if z3.is_int_value(r) and r.as_long() < 0: return some(r)
    l = E.live(st, r)
    return Enum(simp_tag(l), {0: [], 1: [r]})

def simp_tag(l):
    if z3.is_true(l): return 1
    if z3.is_false(l): return 0
    return z3.If(l, I(1), I(0))

@ext("std::cell::RefCell::<T>::borrow")
def _(E, st, c, a, tys, dty): return E.borrow(st, deref(E, st, a[0]), False)

@ext("std::cell::RefCell::<T>::borrow_mut")
def _(E, st, c, a, tys, dty): return E.borrow(st, deref(E, st, a[0]), True)

@ext("std::ops::Deref::deref")
def _(E, st, c, a, tys, dty):
    v = deref(E, st, a[0])
    if isinstance(v, Guard): return NodeView(v.ref, st.heap)
    return v

@ext("std::ops::DerefMut::deref_mut")
def _(E, st, c, a, tys, dty):
    v = deref(E, st, a[0])
    if isinstance(v, Guard): return Ptr(("N", v.ref))
    return a[0]

@ext("std::clone::Clone::clone_from")
def _(E, st, c, a, tys, dty):
    E.loc_write(st, a[0], deref(E, st, a[1]))
    return UNIT

@ext("std::mem::take", "core::mem::take")
def _(E, st, c, a, tys, dty):
    v = E.loc_read(st, a[0])
    E.loc_write(st, a[0], default(E, dty, st))
    return v

@ext("std::mem::replace", "core::mem::replace")
def _(E, st, c, a, tys, dty):
    v = E.loc_read(st, a[0])
    E.loc_write(st, a[0], a[1])
    return v

@ext("std::mem::drop", "core::mem::drop")
def _(E, st, c, a, tys, dty):
    E.drop_value(st, a[0]); return UNIT

# Option by &mut
@ext("std::option::Option::<T>::take")
def _(E, st, c, a, tys, dty):
    v = E.loc_read(st, a[0]); E.loc_write(st, a[0], none()); return v

# ---------------------------------------------------------------- sequences
def seq_insert(s, p, x):
    return SeqV(simp(s.len + 1), lambda i: ite(simp(i == p), x, lazy_ite(i < p, lambda: s.at(i), lambda: s.at(simp(i - 1)))))

def lazy_ite(c, f, g):
    c = simp(c)
    if z3.is_true(c): return f()
    if z3.is_false(c): return g()
    return ite(c, f(), g())

def seq_insert_lazy(s, p, x):
    def at(i):
        c = simp(i == p)
        if z3.is_true(c): return x
        y = lazy_ite(i < p, lambda: s.at(i), lambda: s.at(simp(i - 1)))
        return ite(c, x, y)
    def guarded(i):
        return at(i)
    return SeqV(simp(s.len + 1), guarded)

def seq_remove(s, p):
    return SeqV(simp(s.len - 1), lambda i: lazy_ite(i < p, lambda: s.at(i), lambda: s.at(simp(i + 1))))

def seq_push(s, x):
    def at(i):
        c = simp(i == s.len)
        if z3.is_true(c): return x
        if z3.is_int_value(s.len) and s.len.as_long() == 0: return x
        return ite(c, x, s.at(i))
    return SeqV(simp(s.len + 1), at, z=z3.Concat(s.z, z3.Unit(x)) if s.z is not None and s.key != ("empty",) and is_ref(x) else z3.Unit(x) if s.key == ("empty",) and is_ref(x) else None)
def is_ref(x): return is_z(x) and x.sort() == z3.IntSort()

def seq_concat(a, b):
    if a.key == ("empty",): return b
    if b.key == ("empty",): return a
    return SeqV(simp(a.len + b.len), lambda i: lazy_ite(i < a.len, lambda: a.at(i), lambda: b.at(simp(i - a.len))), z=z3.Concat(a.z, b.z) if a.z is not None and b.z is not None else None)

def seq_sub(s, off, ln):
    return SeqV(simp(ln), lambda i: s.at(simp(i + off)))

def note_elem(E, st, ety, v):
    if is_z(v) and v.sort() == z3.IntSort(): st.term("ref", v)

@ext("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity")
def _(E, st, c, a, tys, dty): return empty_seq()

@ext("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len")
def _(E, st, c, a, tys, dty): return seq_val(E, st, a[0]).len

@ext("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty")
def _(E, st, c, a, tys, dty): return simp(seq_val(E, st, a[0]).len == 0)

@ext("std::vec::Vec::<T, A>::clear")
def _(E, st, c, a, tys, dty): E.loc_write(st, a[0], empty_seq()); return UNIT

@ext("std::vec::Vec::<T, A>::push")
def _(E, st, c, a, tys, dty):
    s = seq_val(E, st, a[0]); E.loc_write(st, a[0], seq_push(s, a[1])); return UNIT

@ext("std::vec::Vec::<T, A>::insert")
def _(E, st, c, a, tys, dty):
    s = seq_val(E, st, a[0]); p = a[1]
    outs = []
    bad = simp(p > s.len)
    if not z3.is_false(bad) and E.feasible(st, bad):
        s2 = st.copy(); s2.branch(bad); outs.append(("panic", s2, "Vec::insert index out of bounds"))
        if not E.feasible(st, Not(bad)): return outs
        st.branch(Not(bad))
    st.term("idx", p)
    E.loc_write(st, a[0], seq_insert_lazy(s, p, a[2]))
    return outs + [("ret", st, UNIT)]

@ext("std::vec::Vec::<T, A>::remove")
def _(E, st, c, a, tys, dty):
    s = seq_val(E, st, a[0]); p = a[1]
    outs = []
    bad = simp(p >= s.len)
    if not z3.is_false(bad) and E.feasible(st, bad):
        s2 = st.copy(); s2.branch(bad); outs.append(("panic", s2, "Vec::remove index out of bounds"))
        if not E.feasible(st, Not(bad)): return outs
        st.branch(Not(bad))
    st.term("idx", p)
    v = s.at(p); note_elem(E, st, None, v)
    E.loc_write(st, a[0], seq_remove(s, p))
    return outs + [("ret", st, v)]

@ext("std::vec::Vec::<T, A>::pop")
def _(E, st, c, a, tys, dty):
    s = seq_val(E, st, a[0])
    r = []
    emp = simp(s.len == 0)
    if E.feasible(st, emp):
        s2 = st.copy(); s2.branch(emp); r.append(("ret", s2, none()))
    if E.feasible(st, Not(emp)):
        st.branch(Not(emp))
        v = s.at(simp(s.len - 1))
        E.loc_write(st, a[0], seq_sub(s, I(0), s.len - 1))
        r.append(("ret", st, some(v)))
    return r

@ext("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last")
def _(E, st, c, a, tys, dty):
    s = seq_val(E, st, a[0])
    i = I(0) if c["def"].endswith("first") else simp(s.len - 1)
    return seq_get(E, st, s, i)

def seq_get(E, st, s, i):
    inb = simp(And(i >= 0, i < s.len))
    if z3.is_false(inb): return none()
    st.term("idx", i)
    v = s.at(i); note_elem(E, st, None, v)
    return Enum(simp_tag(inb), {0: [], 1: [v]})

@ext("core::slice::<impl [T]>::get")
def _(E, st, c, a, tys, dty):
    if not (is_z(a[1]) and a[1].sort() == z3.IntSort()): raise Unsupported("slice get by range")
    return seq_get(E, st, seq_val(E, st, a[0]), a[1])

@ext("core::slice::<impl [T]>::contains")
def _(E, st, c, a, tys, dty):
    s = seq_val(E, st, a[0]); x = deref(E, st, a[1])
    return any_in(E, st, s.len, lambda i: (eq(s.at(i), x), []), s)[0]

def short_len(ln):
    """the length of a sequence built in this function, if small"""
    ln = simp(ln)
    if z3.is_int_value(ln) and ln.as_long() <= 6: return ln.as_long()
    return None

class Bound:
    """a predicate of a bound index: constants made while it was evaluated become functions of the index, facts about all indices that
    it introduced are kept for each index"""
    def __init__(self, E, st, pred):
        self.E = E; self.st = st
        self.j = z3.Const(fresh_name("j"), z3.IntSort())
        n0 = uid()
        r = pred(self.j)
        self.P = r[0]; self.F = And(*r[1])
        self.uf, self.idx = r[2] if len(r) > 2 else ([], [])
        self.fns = {}
        for f in [self.P, self.F] + self.idx: self.consts(f, n0)
    def consts(self, f, n0):
        for x in consts_of(f):
            k = x.decl().name().rsplit("!", 1)[1]
            if k.isdigit() and int(k) > n0 and x.get_id() not in self.fns:
                self.fns[x.get_id()] = (x, z3.Function(x.decl().name() + "_at", z3.IntSort(), x.sort()))
    def sub(self, f, t):
        return z3.substitute(f, (self.j, t), *[(c, g(t)) for c, g in self.fns.values()])
    def inner(self, t):
        """the inner facts about all indices, at t"""
        if not self.uf: return TRUE
        cur = self.E._cur
        out = []
        for kind, fn, label in self.uf:
            for u in list(cur.pool.get(kind, {}).values()):
                f = fn(u)
                if f is not None: out.append(self.sub(f, t))
        return And(*out)
    def terms(self, t):
        for x in self.idx: self.st.term("idx", self.sub(x, t))

def no_fresh(n0, *fs):
    """the formulas hold no constant made since n0 (they are going to be used at other values of the bound one)"""
    for f in fs:
        for x in consts_of(f):
            k = x.decl().name().rsplit("!", 1)[-1]
            if k.isdigit() and int(k) > n0: raise Unsupported("the body of a closure introduces a value")
def consts_of(f):
    seen = set(); todo = [f]; out = []
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in x.decl().name(): out.append(x)
        todo += x.children()
    return out

def any_in(E, st, ln, pred, s=None):
    """fresh b <=> exists i in [0,ln): pred(i)"""
    n = short_len(ln)
    if n is not None:
        b, w = FALSE, I(0)
        for i in reversed(range(n)):
            r = pred(I(i)); P, facts = r[:2]
            for f in facts: st.assume(f)
            if len(r) > 2:
                st.uf += r[2][0]
                for x in r[2][1]: st.term("idx", x)
            w = simp(z3.If(P, I(i), w)); b = simp(Or(P, b))
        return b, w
    b = z3.Const(fresh_name("any"), z3.BoolSort())
    q = Bound(E, st, pred)
    sub = q.sub; P, F = q.P, q.F
    w = z3.Const(fresh_name("w"), z3.IntSort())
    st.term("idx", w)
    q.terms(w)
    st.assume(Implies(b, And(w >= 0, w < ln, sub(P, w), sub(F, w))))
    if s is not None:
        e = s.at(w)
        if is_z(e) and e.sort() == z3.IntSort(): st.term("ref", e); touch(E, st, s, w)
    st.forall("idx", lambda t: Implies(And(t >= 0, t < ln), And(sub(F, t), q.inner(t), Implies(Not(b), Not(sub(P, t))))))
    return b, w

def touch(E, st, s, i):
    pass

# ---------------------------------------------------------------- iterators
def item(E, st, it, i):
    """item number i of the iterator: (value, facts)"""
    if it.kind == "seq":
        return it.seq.at(simp(it.pos + i)), []
    if it.kind == "enum":
        v, f = item(E, st, it.aux, i)
        return Struct([simp(it.pos + i), v]), f
    if it.kind == "map":
        v, f = item(E, st, it.aux[0], i)
        r, f2, s2 = E.eval_pure(st, it.aux[1], [v])
        return r, f + f2
    if it.kind == "rev":
        v, f = item(E, st, it.aux, simp(length(it.aux) - 1 - i))
        return v, f
    raise Unsupported(f"iterator {it.kind}")

def length(it):
    if it.kind == "seq": return simp(it.seq.len - it.pos)
    if it.kind == "enum": return length(it.aux)
    if it.kind == "map": return length(it.aux[0])
    if it.kind == "rev": return length(it.aux)
    raise Unsupported(f"iterator {it.kind}")

@ext("core::slice::<impl [T]>::iter")
def _(E, st, c, a, tys, dty): return Iter(seq_val(E, st, a[0]), I(0))

@ext("std::iter::IntoIterator::into_iter")
def _(E, st, c, a, tys, dty):
    v = deref(E, st, a[0])
    if isinstance(v, Iter): return v
    if isinstance(v, MapV): return Iter(v, I(0), "mapiter")
    if isinstance(v, SeqV): return Iter(v, I(0))
    if isinstance(v, Struct) and v.clo is None: return Iter(E.seq_of(v.f), I(0))
    if isinstance(v, Opaque): return v
    raise Unsupported("into_iter")

@ext("std::iter::Iterator::enumerate")
def _(E, st, c, a, tys, dty): return Iter(None, I(0), "enum", a[0])

@ext("std::iter::Iterator::map")
def _(E, st, c, a, tys, dty): return Iter(None, I(0), "map", (a[0], a[1]))

@ext("std::iter::Iterator::rev")
def _(E, st, c, a, tys, dty): return Iter(None, I(0), "rev", a[0])

@ext("std::iter::Iterator::cloned", "std::iter::Iterator::copied", "std::iter::Iterator::by_ref")
def _(E, st, c, a, tys, dty): return a[0]

@ext("std::iter::Iterator::skip")
def _(E, st, c, a, tys, dty):
    it = a[0]
    if it.kind == "seq":
        n = a[1]
        return Iter(it.seq, simp(z3.If(it.pos + n <= it.seq.len, it.pos + n, it.seq.len)), "seq")
    raise Unsupported("skip")

def iter_arg(E, st, v):
    """-> (iterator value, pointer or None)"""
    p = v if isinstance(v, Ptr) else None
    v = deref(E, st, v)
    if not isinstance(v, Iter): raise Unsupported("iterator expected")
    return v, p

def pred_at(E, st, it, f, by_ref=False):
    def pred(j):
        s = st.copy()
        # the bound index is in range
        s.assume(And(j >= 0, j < length(it)))
        v, facts = item(E, s, it, j)
        P, f2, s2 = E.eval_pure(s, f, [v])
        if not z3.is_bool(P): raise Unsupported("predicate")
        rng = And(j >= 0, j < length(it))
        have = s.pool.get("idx", {})
        return P, [x for x in facts + f2 if not x.eq(rng)], (s2.uf[len(s.uf):], [x for k, x in s2.pool.get("idx", {}).items() if k not in have])
    return pred

@ext("std::iter::Iterator::any", "std::iter::Iterator::all")
def _(E, st, c, a, tys, dty):
    it, p = iter_arg(E, st, a[0])
    neg = c["def"].endswith("all")
    if it.kind in ("mapkeys", "mapvals", "mapiter"):
        if neg: raise Unsupported("all over a map")
        b, k, v = map_exists(E, st, it, a[1])
        return b
    pred = pred_at(E, st, it, a[1])
    if neg:
        p2 = lambda j: (lambda r: (Not(r[0]),) + tuple(r[1:]))(pred(j))
        b, w = any_in(E, st, length(it), p2, it.seq if it.kind == "seq" else None)
        return Not(b)
    b, w = any_in(E, st, length(it), pred, it.seq if it.kind == "seq" else None)
    return b

@ext("std::iter::Iterator::position", "std::iter::Iterator::find")
def _(E, st, c, a, tys, dty):
    it, p = iter_arg(E, st, a[0])
    if it.kind in ("mapkeys", "mapvals", "mapiter"):
        if c["def"].endswith("position"): raise Unsupported("position in map")
        b, k, v = map_exists(E, st, it, a[1])
        x = {"mapkeys": k, "mapvals": v, "mapiter": Struct([k, v])}[it.kind]
        return Enum(simp_tag(b), {0: [], 1: [x]})
    ln = length(it)
    pred = pred_at(E, st, it, a[1])
    n = short_len(ln)
    if n is not None and p is None:
        b, w = any_in(E, st, ln, pred)
        if n == 0: return none()
        v = None
        for i in reversed(range(n)):
            x, f2 = item(E, st, it, I(i))
            for y in f2: st.assume(y)
            v = x if v is None else ite(simp(w == i), x, v)
        if c["def"].endswith("position"): v = w
        return Enum(simp_tag(b), {0: [], 1: [v]})
    q = Bound(E, st, pred)
    P, F, sub = q.P, q.F, q.sub
    b = z3.Const(fresh_name("found"), z3.BoolSort())
    w = z3.Const(fresh_name("pos"), z3.IntSort())
    st.term("idx", w)
    q.terms(w)
    st.assume(Implies(b, And(w >= 0, w < ln, sub(P, w), sub(F, w))))
    st.forall("idx", lambda t: Implies(And(t >= 0, t < ln),
                                       And(sub(F, t), q.inner(t), Implies(Or(Not(b), t < w), Not(sub(P, t))))))
    v, f2 = item(E, st, it, w)
    for x in f2: st.assume(Implies(b, x))
    if it.kind == "seq": note_elem(E, st, None, v)
    if c["def"].endswith("position"): v = w
    if p is not None: E.loc_write(st, p, Iter(it.seq, z3.Const(fresh_name("itpos"), z3.IntSort()), "spent", None))
    return Enum(simp_tag(b), {0: [], 1: [v]})

@ext("std::iter::Iterator::next")
def _(E, st, c, a, tys, dty):
    it, p = iter_arg(E, st, a[0])
    if it.kind == "enum":
        inner = it.aux
        if inner.kind != "seq": raise Unsupported("next on enumerate of non-seq")
        v = seq_get(E, st, inner.seq, inner.pos)
        pos = it.pos
        E.loc_write(st, p, Iter(None, simp(pos + 1), "enum", Iter(inner.seq, simp(inner.pos + 1))))
        return Enum(v.tag, {0: [], 1: [Struct([pos, v.pl[1][0]])] if 1 in v.pl else [pos]})
    it = ordered(E, st, it)
    if it.kind != "seq": raise Unsupported(f"next on {it.kind}")
    v = seq_get(E, st, it.seq, it.pos)
    E.loc_write(st, p, Iter(it.seq, simp(it.pos + 1)))
    return v

@ext("std::iter::Iterator::collect")
def _(E, st, c, a, tys, dty):
    it = a[0]
    n = E.adt_name(dty)
    if n == "Vec":
        if it.kind == "seq": return seq_sub(it.seq, it.pos, length(it))
        if it.kind == "map":
            j = z3.Const(fresh_name("j"), z3.IntSort())
            s = st.copy()
            s.assume(And(j >= 0, j < length(it)))
            E._cur = s
            n0 = uid()
            v, facts = item(E, s, it, j)
            no_fresh(n0, *facts, *[x for x in rawleaves(v)])
            F = And(*facts)
            ln = length(it)
            st.forall("idx", lambda t: Implies(And(t >= 0, t < ln), z3.substitute(F, (j, t))))
            return SeqV(ln, lambda i: subst(v, [(j, i)]))
    if n == "HashMap" and it.kind == "map" and it.aux[0].kind == "mapiter":
        # every entry (k, v) becomes (k, f(k, v)): same keys, other values
        m = it.aux[0].seq
        k = E.fresh(m.kty, "mk", st)
        s = st.copy()
        E._cur = s
        ent = m.get(k)
        s.assume(tag_is(ent, 1))
        n0 = uid()
        r, facts, _ = E.eval_pure(s, it.aux[1], [Struct([k, ent.pl[1][0]])])
        no_fresh(n0, *facts, *rawleaves(r))
        if E.check(s.hyps() + facts + [Not(eq(r.f[0], k))], 3000)[0] != z3.unsat: raise Unsupported("collect with other keys")
        facts = [f for f in facts if f.get_id() not in st.ass]
        v = r.f[1]
        st.forall(f"key{m.kty}", lambda t: z3.substitute(Implies(tag_is(ent, 1), And(*facts)), *raw_pairs(k, t)) if t is not k else None)
        def get(x):
            e = m.get(x)
            return Enum(e.tag, {0: [], 1: [subst(v, raw_pairs(k, x))]})
        return MapV(get, m.kty, E.T[dty]["args"][1])
    raise Unsupported(f"collect to {E.T[dty]['s']}")

@ext("std::iter::Extend::extend")
def _(E, st, c, a, tys, dty):
    s = seq_val(E, st, a[0])
    v = deref(E, st, a[1])
    if isinstance(v, Iter) and v.kind == "seq": v = seq_sub(v.seq, v.pos, length(v))
    if not isinstance(v, SeqV): raise Unsupported("extend")
    E.loc_write(st, a[0], seq_concat(s, v))
    return UNIT

# ---------------------------------------------------------------- maps
def mapv(E, st, v):
    v = deref(E, st, v)
    if not isinstance(v, MapV): raise Unsupported("map expected")
    return v

def keyterm(E, st, m, k):
    st.term(f"key{m.kty}", k)

@ext("std::collections::HashMap::<K, V, S, A>::get")
def _(E, st, c, a, tys, dty):
    m = mapv(E, st, a[0]); k = full_deref(E, st, a[1])
    keyterm(E, st, m, k)
    return m.get(k)

@ext("std::collections::HashMap::<K, V, S, A>::contains_key")
def _(E, st, c, a, tys, dty):
    m = mapv(E, st, a[0]); k = full_deref(E, st, a[1])
    keyterm(E, st, m, k)
    return tag_is(m.get(k), 1)

def map_put(m, k, vopt):
    return MapV(lambda x: ite(simp(eq(x, k)), vopt, m.get(x)), m.kty, m.vty, key=None)

@ext("std::collections::HashMap::<K, V, S, A>::insert")
def _(E, st, c, a, tys, dty):
    m = mapv(E, st, a[0]); k = a[1]
    keyterm(E, st, m, k)
    E.loc_write(st, a[0], map_put(m, k, some(a[2])))
    return m.get(k)

@ext("std::collections::HashMap::<K, V, S, A>::remove")
def _(E, st, c, a, tys, dty):
    m = mapv(E, st, a[0]); k = full_deref(E, st, a[1])
    keyterm(E, st, m, k)
    E.loc_write(st, a[0], map_put(m, k, none()))
    return m.get(k)

@ext("std::collections::HashMap::<K, V, S, A>::keys")
def _(E, st, c, a, tys, dty): return Iter(mapv(E, st, a[0]), I(0), "mapkeys")
@ext("std::collections::HashMap::<K, V, S, A>::values")
def _(E, st, c, a, tys, dty): return Iter(mapv(E, st, a[0]), I(0), "mapvals")
@ext("std::collections::HashMap::<K, V, S, A>::iter")
def _(E, st, c, a, tys, dty): return Iter(mapv(E, st, a[0]), I(0), "mapiter")

def raw_pairs(kf, t):
    """substitution pairs sending the leaves of the fresh key kf to those of t"""
    if is_z(kf): return [(kf, t)]
    if isinstance(kf, Struct): return [p for x, y in zip(kf.f, t.f) for p in raw_pairs(x, y)]
    if isinstance(kf, Enum):
        r = [(kf.tag, tagterm(t))]
        for v in kf.pl:
            for i, x in enumerate(kf.pl[v]):
                if v in t.pl: r += raw_pairs(x, t.pl[v][i])
                else: r += [(l, default_leaf(l)) for l in rawleaves(x)]
        return r
    raise Unsupported("key shape")

def rawleaves(v):
    if is_z(v): return [v]
    if isinstance(v, Struct): return [l for x in v.f for l in rawleaves(x)]
    r = [v.tag] if is_z(v.tag) else []
    for xs in v.pl.values():
        for x in xs: r += rawleaves(x)
    return r

def map_exists(E, st, it, f):
    """fresh b <=> exists key k with value v: f(item).  Returns b and the witness."""
    m = it.seq
    kb = E.fresh(m.kty, "k", st)
    if m.key == ("emptymap",): return FALSE, kb, E.fresh(m.vty, "v", st)
    # bound key for the predicate
    s = st.copy()
    ent = m.get(kb)
    vb = ent.pl[1][0] if 1 in ent.pl and ent.pl[1] else None
    if vb is None:
        return FALSE, kb, E.fresh(m.vty, "v", st)
    x = {"mapkeys": kb, "mapvals": vb, "mapiter": Struct([kb, vb])}[it.kind]
    n0 = uid()
    P, facts, s2 = E.eval_pure(s, f, [x])
    no_fresh(n0, P, *facts)
    present = tag_is(ent, 1)
    body = And(present, P)
    F = And(*facts)
    b = z3.Const(fresh_name("mapany"), z3.BoolSort())
    # kb itself is the witness
    st.term(f"key{m.kty}", kb)
    st.assume(Implies(b, And(body, F)))
    if is_z(vb) and vb.sort() == z3.IntSort(): st.term("ref", vb)
    kw = kb
    def inst(t):
        if t is kw: return None
        pr = raw_pairs(kw, t)
        return Implies(Not(b), Not(And(z3.substitute(present, *pr), z3.substitute(And(P, F), *pr))))
    st.forall(f"key{m.kty}", inst)
    return b, kb, vb

@ext("std::collections::HashMap::<K, V, S, A>::is_empty")
def _(E, st, c, a, tys, dty):
    m = mapv(E, st, a[0])
    return map_is_empty(E, st, m)

def map_is_empty(E, st, m):
    if m.key == ("emptymap",): return TRUE
    b = z3.Const(fresh_name("isempty"), z3.BoolSort())
    kb = E.fresh(m.kty, "k", st)
    st.term(f"key{m.kty}", kb)
    st.assume(Or(b, tag_is(m.get(kb), 1)))
    st.forall(f"key{m.kty}", lambda t: Implies(b, Not(tag_is(m.get(t), 1))))
    return b

@ext("std::collections::HashMap::<K, V, S, A>::len")
def _(E, st, c, a, tys, dty):
    m = mapv(E, st, a[0])
    b = map_is_empty(E, st, m)
    n = map_order(E, st, m)[0] if isinstance(m.key, tuple) and m.key[0] in ("base", "emptymap") else z3.Const(fresh_name("maplen"), z3.IntSort())
    st.assume(And(n >= 0, n <= ISIZE, (n == 0) == b))
    return n
ISIZE = 2**63 - 1

# ---------------------------------------------------------------- vec! macro
@ext("std::boxed::Box::<T>::new_uninit")
def _(E, st, c, a, tys, dty):
    cid = uid(); st.cells[cid] = UNIT
    return Ptr(("B", cid))

@ext("std::boxed::box_assume_init_into_vec_unsafe")
def _(E, st, c, a, tys, dty):
    v = E.loc_read(st, a[0])
    return E.seq_of(v.f)

# ---------------------------------------------------------------- strings
@ext("std::string::String::new", "std::string::String::with_capacity")
def _(E, st, c, a, tys, dty): return S("")

def slen(s):
    return simp(z3.Length(s))

@ext("std::string::String::len", "core::str::<impl str>::len")
def _(E, st, c, a, tys, dty):
    s = str_of(E, st, a[0]); st.assume(z3.Length(s) <= ISIZE); return slen(s)

@ext("std::string::String::is_empty", "core::str::<impl str>::is_empty")
def _(E, st, c, a, tys, dty): return simp(str_of(E, st, a[0]) == S(""))

def cat(a, b):
    if z3.is_string_value(a) and a.as_string() == "": return b
    if z3.is_string_value(b) and b.as_string() == "": return a
    return z3.Concat(a, b)

@ext("std::string::String::push_str")
def _(E, st, c, a, tys, dty):
    s = str_of(E, st, a[0]); E.loc_write(st, a[0], cat(s, str_of(E, st, a[1]))); return UNIT

@ext("std::string::String::clear")
def _(E, st, c, a, tys, dty): E.loc_write(st, a[0], S("")); return UNIT

BND = z3.Function("is_char_boundary", z3.StringSort(), z3.IntSort(), z3.BoolSort())
@ext("core::str::<impl str>::is_char_boundary")
def _(E, st, c, a, tys, dty):
    s = str_of(E, st, a[0]); i = a[1]
    return boundary(E, st, s, i)

def boundary(E, st, s, i):
    """is_char_boundary: an uninterpreted predicate, true at both ends and false beyond the end"""
    b = BND(s, i)
    n = z3.Length(s)
    st.assume(Implies(i == 0, b)); st.assume(Implies(i == n, b)); st.assume(Implies(i > n, Not(b)))
    st.assume(Implies(i < 0, Not(b)))
    if z3.is_int_value(i) and i.as_long() == 1: st.assume(Implies(And(NCHARS(s) > 0, CHARAT(s, I(0)) >= 0, CHARAT(s, I(0)) < 128), b))
    return b

def range_of(E, c, a, ty):
    """(lo, hi or None) of a Range/RangeFrom/RangeTo/RangeFull value"""
    n = E.adt_name(ty)
    if n == "RangeFrom": return a.f[0], None
    if n == "Range": return a.f[0], a.f[1]
    if n == "RangeTo": return I(0), (a.f[0] if isinstance(a, Struct) else a)
    if n == "RangeFull": return I(0), None
    raise Unsupported(f"range {n}")

def str_slice_checks(E, st, s, lo, hi, what):
    n = z3.Length(s)
    st.assume(n <= ISIZE)
    h = n if hi is None else hi
    good = And(lo <= h, h <= n, boundary(E, st, s, lo), boundary(E, st, s, h))
    outs = []
    if E.feasible(st, Not(good)):
        s2 = st.copy(); s2.branch(Not(good)); outs.append(("panic", s2, f"{what}: byte index out of range or not a char boundary"))
        if not E.feasible(st, good): return outs, None
        st.branch(good)
    return outs, h

@ext("std::ops::Index::index")
def _(E, st, c, a, tys, dty):
    v = deref(E, st, a[0])
    if is_z(v) and v.sort() == z3.StringSort():
        lo, hi = range_of(E, c, a[1], tys[1])
        outs, h = str_slice_checks(E, st, v, lo, hi, "str index")
        if h is None: return outs
        return outs + [("ret", st, substr(v, lo, h))]
    if isinstance(v, SeqV) and is_z(a[1]):
        i = a[1]
        outs = []
        bad = simp(i >= v.len)
        if E.feasible(st, bad):
            s2 = st.copy(); s2.branch(bad); outs.append(("panic", s2, "index out of bounds"))
            if not E.feasible(st, Not(bad)): return outs
            st.branch(Not(bad))
        st.term("idx", i)
        return outs + [("ret", st, v.at(i))]
    raise Unsupported("Index")

def substr(s, lo, hi):
    return z3.SubString(s, lo, simp(hi - lo))

@ext("core::str::<impl str>::get")
def _(E, st, c, a, tys, dty):
    s = str_of(E, st, a[0])
    lo, hi = range_of(E, c, a[1], tys[1])
    n = z3.Length(s)
    h = n if hi is None else hi
    good = And(lo <= h, h <= n, boundary(E, st, s, lo), boundary(E, st, s, h))
    return Enum(simp_tag(simp(good)), {0: [], 1: [substr(s, lo, h)]})

@ext("std::string::String::replace_range")
def _(E, st, c, a, tys, dty):
    s = str_of(E, st, a[0])
    lo, hi = range_of(E, c, a[1], tys[1])
    outs, h = str_slice_checks(E, st, s, lo, hi, "replace_range")
    if h is None: return outs
    r = str_of(E, st, a[2])
    E.loc_write(st, a[0], cat(cat(substr(s, I(0), lo), r), substr(s, h, z3.Length(s))))
    return outs + [("ret", st, UNIT)]

@ext("core::str::<impl str>::starts_with", "core::str::<impl str>::ends_with", "core::str::<impl str>::contains")
def _(E, st, c, a, tys, dty):
    s = str_of(E, st, a[0]); p = deref(E, st, a[1])
    if not is_z(p): return pattern_pred(E, st, c, s, p)
    if p.sort() == z3.IntSort():
        p = char_str(E, st, p)
    return {"starts_with": z3.PrefixOf, "ends_with": z3.SuffixOf, "contains": lambda x, y: z3.Contains(y, x)}[c["def"].split("::")[-1]](p, s)

# a string as a sequence of characters (code points): uninterpreted, related to the bytes only by emptiness and length
NCHARS = z3.Function("chars", z3.StringSort(), z3.IntSort())
CHARAT = z3.Function("char_at", z3.StringSort(), z3.IntSort(), z3.IntSort())
def chars_of(E, st, s):
    n = NCHARS(s)
    st.assume(And(n >= 0, (n == 0) == (s == S("")), n <= z3.Length(s), z3.Length(s) <= ISIZE))
    def at(i):
        c = CHARAT(s, i)
        E._cur.assume(And(c >= 0, c <= 0x10FFFF, z3.Or(c < 0xD800, c > 0xDFFF)))
        return c
    return SeqV(n, at, key=("chars", s.get_id(), s))

@ext("core::str::<impl str>::chars")
def _(E, st, c, a, tys, dty):
    return Iter(chars_of(E, st, str_of(E, st, a[0])), I(0))

def pattern_pred(E, st, c, s, p):
    k = c["def"].split("::")[-1]
    if isinstance(p, SeqV) or k == "contains": raise Unsupported("string pattern")
    cs = chars_of(E, st, s)
    i = I(0) if k == "starts_with" else simp(cs.len - 1)
    E._cur = st
    P, facts, s2 = E.eval_pure(st, p, [cs.at(i)])
    for f in facts: st.assume(Implies(cs.len > 0, f))
    return And(cs.len > 0, P)

# split at a separator that is one ASCII character
SPLITN = z3.Function("split_count", z3.StringSort(), z3.StringSort(), z3.IntSort())
SPLITP = z3.Function("split_part", z3.StringSort(), z3.StringSort(), z3.IntSort(), z3.StringSort())
@ext("core::str::<impl str>::split")
def _(E, st, c, a, tys, dty):
    s = str_of(E, st, a[0]); p = deref(E, st, a[1])
    if is_z(p) and p.sort() == z3.IntSort(): p = char_str(E, st, p)
    if not (is_z(p) and z3.is_string_value(p) and len(p.as_string()) == 1): raise Unsupported("split pattern")
    n = SPLITN(s, p); P = lambda i: SPLITP(s, p, I(i))
    st.assume(And(n >= 1, n <= ISIZE // 8, z3.Length(s) <= ISIZE))
    st.assume((n == 1) == Not(z3.Contains(s, p)))
    st.assume(Implies(n == 1, P(0) == s))
    st.assume(Implies(n >= 2, And(Not(z3.Contains(P(0), p)), z3.IndexOf(s, p, 0) == z3.Length(P(0)), P(0) == z3.SubString(s, 0, z3.IndexOf(s, p, 0)))))
    rest = z3.SubString(s, z3.IndexOf(s, p, 0) + 1, z3.Length(s) - z3.IndexOf(s, p, 0) - 1)
    st.assume(Implies(n >= 2, And((n == 2) == Not(z3.Contains(rest, p)))))
    st.assume(Implies(n == 2, And(P(1) == rest, s == z3.Concat(P(0), p, P(1)))))
    split_chars(E, st, s, p, n)
    return Iter(SeqV(n, lambda i: SPLITP(s, p, i), key=("split", s.get_id(), s, p)), I(0))

SPLITPOS = z3.Function("split_char_pos", z3.StringSort(), z3.StringSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
SPLITJ = z3.Function("split_part_of", z3.StringSort(), z3.StringSort(), z3.IntSort(), z3.IntSort())
SPLITC = z3.Function("split_pos_in_part", z3.StringSort(), z3.StringSort(), z3.IntSort(), z3.IntSort())
def split_chars(E, st, s, p, n):
    """the characters of the parts are those of the whole that are not the separator"""
    sep = p.as_string()
    sep = ord(sep)
    if sep > 127: return
    chars_shift(E, st, s)
    made = ("split_char_pos", "split_part_of", "split_pos_in_part")
    def own(t): return z3.is_app(t) and t.decl().name() in made
    def down(t):
        """a character of the whole that is not the separator stands in a part"""
        j, c = SPLITJ(s, p, t), SPLITC(s, p, t)
        if not own(t): E._cur.term("idx", j); E._cur.term("idx", c)
        q = SPLITP(s, p, j)
        return Implies(And(t >= 0, t < NCHARS(s), CHARAT(s, t) != sep), And(j >= 0, j < n, c >= 0, c < NCHARS(q), CHARAT(q, c) == CHARAT(s, t)))
    def up(t):
        """a character of a part is one of the whole, and not the separator"""
        out = []
        for c in list(E._cur.pool.get("idx", {}).values()):
            q = SPLITP(s, p, t); i = SPLITPOS(s, p, t, c)
            if not own(t) and not own(c): E._cur.term("idx", i)
            out.append(Implies(And(t >= 0, t < n, c >= 0, c < NCHARS(q)), And(i >= 0, i < NCHARS(s), CHARAT(s, i) == CHARAT(q, c), CHARAT(q, c) != sep)))
        return And(*out)
    st.forall("idx", down); st.forall("idx", up)

def chars_shift(E, st, s):
    """the characters of x[1..] are those of x from the second on, when the first is one byte long"""
    if not (z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT): return
    x, lo, k = s.children()
    if not (z3.is_int_value(lo) and lo.as_long() == 1 and simp(k).eq(simp(z3.Length(x) - 1))): return
    g = And(NCHARS(x) > 0, CHARAT(x, I(0)) >= 0, CHARAT(x, I(0)) < 128)
    st.assume(Implies(g, And(NCHARS(s) == NCHARS(x) - 1)))
    st.forall("idx", lambda t: Implies(And(g, t >= 0, t < NCHARS(s)), CHARAT(s, t) == CHARAT(x, simp(t + 1))))

@ext("core::str::<impl str>::trim_end_matches", "core::str::<impl str>::trim_start_matches", "core::str::<impl str>::trim_matches")
def _(E, st, c, a, tys, dty):
    s = str_of(E, st, a[0]); p = deref(E, st, a[1])
    if is_z(p) and p.sort() == z3.IntSort(): p = char_str(E, st, p)
    if not (is_z(p) and z3.is_string_value(p) and len(p.as_string()) >= 1): raise Unsupported("trim pattern")
    k = c["def"].split("trim_")[-1]
    r = s
    # the pattern is taken off as often as it is there
    for end in ([True] if k == "end_matches" else [False] if k == "start_matches" else [False, True]):
        f = z3.Function("trim_end" if end else "trim_start", z3.StringSort(), z3.StringSort(), z3.StringSort())
        x = f(r, p)
        at = z3.SuffixOf if end else z3.PrefixOf
        st.assume(Implies(Not(at(p, r)), x == r))
        st.assume(Implies(at(p, r), z3.Length(x) + z3.Length(p) <= z3.Length(r)))
        st.assume((z3.PrefixOf if end else z3.SuffixOf)(x, r)); st.assume(Not(at(p, x)))
        r = x
    return r

@ext("core::str::<impl str>::strip_prefix", "core::str::<impl str>::strip_suffix")
def _(E, st, c, a, tys, dty):
    s = str_of(E, st, a[0]); p = deref(E, st, a[1])
    if is_z(p) and p.sort() == z3.IntSort(): p = char_str(E, st, p)
    if not (is_z(p) and p.sort() == z3.StringSort()): raise Unsupported("strip pattern")
    pre = c["def"].endswith("prefix")
    has = z3.PrefixOf(p, s) if pre else z3.SuffixOf(p, s)
    n, m = z3.Length(s), z3.Length(p)
    return Enum(simp_tag(simp(has)), {0: [], 1: [z3.SubString(s, m, n - m) if pre else z3.SubString(s, 0, n - m)]})

LOWER = z3.Function("to_ascii_lowercase", z3.StringSort(), z3.StringSort())
@ext("std::str::<impl str>::to_ascii_lowercase")
def _(E, st, c, a, tys, dty): return LOWER(str_of(E, st, a[0]))

CHARSTR = z3.Function("utf8_of_char", z3.IntSort(), z3.StringSort())
def char_str(E, st, ch):
    ch = simp(ch)
    if z3.is_int_value(ch): return S(chr(ch.as_long()))
    return CHARSTR(ch)

@ext("std::string::String::push")
def _(E, st, c, a, tys, dty):
    s = str_of(E, st, a[0]); E.loc_write(st, a[0], cat(s, char_str(E, st, a[1]))); return UNIT

@ext("std::char::methods::<impl char>::is_ascii_digit")
def _(E, st, c, a, tys, dty):
    x = deref(E, st, a[0]); return And(x >= 48, x <= 57)
@ext("std::char::methods::<impl char>::is_ascii_lowercase")
def _(E, st, c, a, tys, dty):
    x = deref(E, st, a[0]); return And(x >= 97, x <= 122)
@ext("std::char::methods::<impl char>::is_ascii_uppercase")
def _(E, st, c, a, tys, dty):
    x = deref(E, st, a[0]); return And(x >= 65, x <= 90)
@ext("std::char::methods::<impl char>::is_ascii_alphabetic")
def _(E, st, c, a, tys, dty):
    x = deref(E, st, a[0]); return Or(And(x >= 65, x <= 90), And(x >= 97, x <= 122))
@ext("std::char::methods::<impl char>::is_ascii_alphanumeric")
def _(E, st, c, a, tys, dty):
    x = deref(E, st, a[0]); return Or(And(x >= 65, x <= 90), And(x >= 97, x <= 122), And(x >= 48, x <= 57))
@ext("std::ops::RangeInclusive::<Idx>::contains")
def _(E, st, c, a, tys, dty):
    r = deref(E, st, a[0]); x = deref(E, st, a[1])
    return And(r.f[0] <= x, x <= r.f[1])

# ---------------------------------------------------------------- formatting
@ext("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_binary",
     "core::fmt::rt::Argument::<'_>::new_upper_hex")
def _(E, st, c, a, tys, dty):
    ty = [x for x in c["args"] if isinstance(x, int)]
    return Opaque("fmtarg", ("arg", c["def"].split("new_")[-1], ty[-1] if ty else None, deref(E, st, a[0])))

@ext("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def _(E, st, c, a, tys, dty):
    return Opaque("fmtargs", [str_of(E, st, a[0])])

@ext("std::fmt::Arguments::<'a>::new")
def _(E, st, c, a, tys, dty):
    tpl = deref(E, st, a[0]); ar = deref(E, st, a[1])
    bs = [simp(x).as_long() for x in tpl.f]
    args = ar.f
    out = []; i = 0; n = 0
    while True:
        b = bs[i]; i += 1
        if b == 0: break
        if b < 0x80:
            out.append(S(bytes(bs[i:i + b]))); i += b
        elif b == 0x80:
            l = bs[i] | bs[i + 1] << 8; i += 2
            out.append(S(bytes(bs[i:i + l]))); i += l
        else:
            opts = {}
            if b & 1: opts["flags"] = int.from_bytes(bytes(bs[i:i + 4]), "little"); i += 4
            if b & 2: opts["width"] = int.from_bytes(bytes(bs[i:i + 2]), "little"); i += 2
            if b & 4: opts["prec"] = int.from_bytes(bytes(bs[i:i + 2]), "little"); i += 2
            if b & 8: n = int.from_bytes(bytes(bs[i:i + 2]), "little"); i += 2
            if b & 48: raise Unsupported("dynamic width")
            x = deref(E, st, args[n]); n += 1
            out.append(x.data + (opts,) if opts else x.data)
    return Opaque("fmtargs", out)

def fmt_into(E, st, out, pieces):
    """append the pieces to the string `out`: list of (kind, st, string)"""
    states = [("ret", st, out)]
    for pc in pieces:
        nxt = []
        for k, s, o in states:
            if k != "ret": nxt.append((k, s, o)); continue
            if is_z(pc): nxt.append(("ret", s, cat(o, pc))); continue
            nxt += fmt_arg(E, s, o, pc)
        states = nxt
    return states

def fmt_arg(E, st, out, pc):
    kind, ty, v = pc[1], pc[2], pc[3]
    opts = pc[4] if len(pc) > 4 else {}
    while ty is not None and E.T[ty]["k"] == "ref": ty = E.T[ty]["e"]
    v = deref(E, st, v)
    if kind == "display" and not opts:
        if is_z(v) and v.sort() == z3.StringSort(): return [("ret", st, cat(out, v))]
        t = E.T[ty]
        if t["k"] == "char": return [("ret", st, cat(out, char_str(E, st, v)))]
        if t["k"] in ("uint", "int") and is_z(v):
            if v.sort() == z3.IntSort(): return [("ret", st, cat(out, z3.IntToStr(v)))]
        if t["k"] == "adt" and t.get("local"):
            return fmt_local(E, st, out, ty, v, "Display")
    if kind == "upper_hex" and not opts and is_z(v):
        return [("ret", st, cat(out, z3.Function("upper_hex", z3.IntSort(), z3.StringSort())(v)))]
    raise Unsupported(f"formatting {kind} of {E.T[ty]['s'] if ty is not None else '?'}")

def fmt_local(E, st, out, ty, v, trait):
    n = E.adt_name(ty)
    short = "RN" if n == "RcRefCell" else n
    fs = E.p.fn(f"<{short} as {trait}>::fmt")
    if len(fs) != 1: raise Unsupported(f"no {trait} for {n}")
    cid = uid()
    st.cells[cid] = Struct([out, FALSE])
    res = []
    for k, s, r in E.call_local(st, fs[0]["name"], [v, Ptr(("C", cid))]):
        if k != "ret": res.append((k, s, r)); continue
        o = E.loc_read(s, Ptr(("C", cid))).f[0]
        res.append(("ret", s, o))
    return res

def fmt_string(E, st, pieces):
    E.stats.assumed.add("formatting into a String or Formatter never fails")
    return fmt_into(E, st, S(""), pieces)

@ext("std::fmt::format")
def _(E, st, c, a, tys, dty): return fmt_string(E, st, a[0].data)

@ext("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Write::write_fmt")
def _(E, st, c, a, tys, dty):
    E.stats.assumed.add("formatting into a String or Formatter never fails")
    f = E.loc_read(st, a[0])
    isf = isinstance(f, Struct)
    out = f.f[0] if isf else f
    res = []
    for k, s, o in fmt_into(E, st, out, a[1].data):
        if k != "ret": res.append((k, s, o)); continue
        E.loc_write(s, a[0], Struct([o, f.f[1]]) if isf else o)
        res.append(("ret", s, ok(UNIT)))
    return res

@ext("std::fmt::Formatter::<'a>::write_str", "std::fmt::Write::write_str")
def _(E, st, c, a, tys, dty):
    f = E.loc_read(st, a[0])
    x = str_of(E, st, a[1])
    if isinstance(f, Struct): E.loc_write(st, a[0], Struct([cat(f.f[0], x), f.f[1]]))
    else: E.loc_write(st, a[0], cat(f, x))
    return ok(UNIT)

@ext("std::fmt::Formatter::<'a>::alternate")
def _(E, st, c, a, tys, dty): return deref(E, st, a[0]).f[1]

# ---------------------------------------------------------------- the order in which a map is run through
def ordered(E, st, it):
    """an iterator over a map as an iterator over the sequence of its entries, in an order that is a function of the map"""
    if it.kind not in ("mapkeys", "mapvals", "mapiter"): return it
    m = it.seq
    n, kat, vat = map_order(E, st, m)
    at = {"mapkeys": kat, "mapvals": vat, "mapiter": lambda i: Struct([kat(i), vat(i)])}[it.kind]
    return Iter(SeqV(n, at, key=(it.kind, m.key)), it.pos)

def map_order(E, st, m):
    """(number of entries, key number i, value number i)"""
    if m.key == ("emptymap",): return I(0), None, None
    if not (isinstance(m.key, tuple) and m.key[0] == "base"): raise Unsupported("order of a changed map")
    _, path, mk = m.key
    E.stats.assumed.add("a HashMap is run through in an order that is a function of the map; each entry once (std)")
    n = mk(path + "#n", z3.IntSort())
    st.assume(And(n >= 0, n <= ISIZE))
    def kat(i):
        k = E.build(m.kty, lambda p, s, xs=(): mk(path + "#k" + p, s, (i,) + tuple(xs)), st, "", lambda f: E._cur.assume(Implies(And(i >= 0, i < n), f)))
        k = E.canon(m.kty, k)
        ent = m.get(k)
        E._cur.assume(Implies(And(i >= 0, i < n), tag_is(ent, 1)))
        return k
    def vat(i): return m.get(kat(i)).pl[1][0]
    return n, kat, vat

# ---------------------------------------------------------------- regular expressions: a constant pattern that is a choice of (named) alternatives
@ext("std::sync::OnceLock::<T>::get_or_init")
def _(E, st, c, a, tys, dty):
    v = deref(E, st, a[0])
    if not (isinstance(v, Opaque) and v.what.startswith("const:static:")): raise Unsupported("OnceLock that is not a static")
    outs = []
    for o in E.call_value(st, a[1], []):
        if o[0] == "ret":
            cid = uid(); o[1].cells[cid] = o[2]
            outs.append(("ret", o[1], Ptr(("C", cid))))
        else: outs.append(o)
    return outs

@ext("regex::Regex::new")
def _(E, st, c, a, tys, dty):
    p = str_of(E, st, a[0])
    if not z3.is_string_value(p): raise Unsupported("pattern that is not constant")
    t = lit_text(p)
    alternatives(t)
    return Enum(0, {0: [Opaque("regex", (t, p))], 1: []})

def lit_text(p):
    """the text of a string literal (its characters are UTF-8 bytes)"""
    t = p.as_string()
    import re
    t = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), t)
    return t.encode("latin-1", "replace").decode("utf-8", "replace")

# what is known of a match of an alternative: (smallest length, facts of the matched text)
def _charref(m, hexa):
    """&# or &#x, digits, ; where the first three and the last byte are characters of their own"""
    b = [BND(m, I(2)), BND(m, I(3)), BND(m, z3.Length(m) - 1)] if hexa else [BND(m, I(2)), BND(m, z3.Length(m) - 1), z3.SubString(m, 2, 1) != S("x")]
    return And(z3.PrefixOf(S("&#x" if hexa else "&#"), m), z3.SuffixOf(S(";"), m), *b)
ALTS = {
    r"[&%][\pL_][\pL\.\d_\-]*;": (3, lambda m: And(Or(z3.PrefixOf(S("&"), m), z3.PrefixOf(S("%"), m)), z3.SuffixOf(S(";"), m))),
    r"&#\d+;": (4, lambda m: _charref(m, False)),
    r"&#x[0-9a-fA-F]+;": (5, lambda m: _charref(m, True)),
    r"[\u{09}\u{0A}\u{0D}]": (1, lambda m: Or(*[m == S(x) for x in "\t\n\r"])),
    r"\u{0D}[\u{0A}\u{85}]?": (1, lambda m: z3.PrefixOf(S("\r"), m)),
    r"\u{85}": (2, lambda m: m == S("\x85")),
    r"\u{2028}": (3, lambda m: m == S("\u2028")),
}
def alternatives(t):
    """[(name or None, alternative)] of a pattern a|b|(?P<n>c)"""
    parts, depth, cur, br, i = [], 0, "", False, 0
    while i < len(t):
        ch = t[i]
        if ch == "\\": cur += t[i:i + 2]; i += 2; continue
        if br: br = ch != "]"
        elif ch == "[": br = True
        elif ch == "(": depth += 1
        elif ch == ")": depth -= 1
        if ch == "|" and depth == 0 and not br: parts.append(cur); cur = ""
        else: cur += ch
        i += 1
    parts.append(cur)
    out = []
    for p in parts:
        n = None
        if p.startswith("(?P<") and p.endswith(")"):
            n, p = p[4:-1].split(">", 1)
        if p not in ALTS: raise Unsupported(f"alternative of a pattern: {p}")
        out.append((n, p))
    return out

CAPN = z3.Function("matches", z3.StringSort(), z3.StringSort(), z3.IntSort())
CAPS = z3.Function("match_start", z3.StringSort(), z3.StringSort(), z3.IntSort(), z3.IntSort())
CAPE = z3.Function("match_end", z3.StringSort(), z3.StringSort(), z3.IntSort(), z3.IntSort())
CAPG = z3.Function("match_alternative", z3.StringSort(), z3.StringSort(), z3.IntSort(), z3.IntSort())
def cap_prev(p, s, i): return z3.If(i <= 0, I(0), CAPE(p, s, simp(i - 1)))
def cap_facts(E, st, t, p, s, i):
    """the i-th of the leftmost matches of the pattern, that do not overlap"""
    al = alternatives(t)
    n = CAPN(p, s)
    lo, hi = CAPS(p, s, i), CAPE(p, s, i)
    m = substr(s, lo, hi)
    g = CAPG(p, s, i)
    inr = And(i >= 0, i < n)
    L = z3.Length(s)
    f = [n >= 0, n <= L, Implies(inr, And(lo >= 0, lo < hi, hi <= L, cap_prev(p, s, i) <= lo, g >= 0, g < len(al),
                                          boundary(E, st, s, lo), boundary(E, st, s, hi)))]
    pv = cap_prev(p, s, i)
    f.append(Implies(And(i >= 0, i <= n), And(pv >= 0, pv <= L, boundary(E, st, s, pv))))
    for k, (_, x) in enumerate(al):
        least, facts = ALTS[x]
        f.append(Implies(And(inr, g == k), And(hi - lo >= least, facts(m))))
    return f

@ext("regex::Regex::captures_iter")
def _(E, st, c, a, tys, dty):
    r = deref(E, st, a[0]); s = str_of(E, st, a[1])
    if not (isinstance(r, Opaque) and r.what == "regex"): raise Unsupported("regex")
    t, p = r.data
    st.assume(z3.Length(s) <= ISIZE)
    def at(i):
        for f in cap_facts(E, E._cur, t, p, s, i): E._cur.assume(f)
        return Opaque("capture", (t, p, s, i))
    n = CAPN(p, s)
    st.assume(And(n >= 0, n <= z3.Length(s)))
    return Iter(SeqV(n, at, key=("captures", p.get_id(), s.get_id(), t, p, s)), I(0))

@ext("regex::Captures::<'h>::name")
def _(E, st, c, a, tys, dty):
    x = deref(E, st, a[0]); nm = str_of(E, st, a[1])
    if not (isinstance(x, Opaque) and x.what == "capture" and z3.is_string_value(nm)): raise Unsupported("capture")
    t, p, s, i = x.data
    k = [j for j, (n, _) in enumerate(alternatives(t)) if n == lit_text(nm)]
    if not k: return none()
    return Enum(simp_tag(simp(CAPG(p, s, i) == k[0])), {0: [], 1: [Opaque("match", (p, s, CAPS(p, s, i), CAPE(p, s, i)))]})

@ext("regex::Captures::<'h>::get")
def _(E, st, c, a, tys, dty):
    x = deref(E, st, a[0])
    if not (isinstance(x, Opaque) and x.what == "capture" and z3.is_int_value(simp(a[1])) and simp(a[1]).as_long() == 0): raise Unsupported("capture")
    t, p, s, i = x.data
    return some(Opaque("match", (p, s, CAPS(p, s, i), CAPE(p, s, i))))

@ext("regex::Match::<'h>::start", "regex::Match::<'h>::end", "regex::Match::<'h>::as_str")
def _(E, st, c, a, tys, dty):
    x = deref(E, st, a[0])
    if not (isinstance(x, Opaque) and x.what == "match"): raise Unsupported("match")
    p, s, lo, hi = x.data
    k = c["def"].split("::")[-1]
    return lo if k == "start" else hi if k == "end" else substr(s, lo, hi)

REPL = z3.Function("replace_matches", z3.StringSort(), z3.StringSort(), z3.StringSort(), z3.StringSort())
def replaced(st, t, p, s, by):
    r = REPL(p, s, by)
    if len(by.as_string()) <= min(ALTS[x][0] for _, x in alternatives(t)): st.assume(z3.Length(r) <= z3.Length(s))
    return r
@ext("regex::Regex::replace_all")
def _(E, st, c, a, tys, dty):
    r = deref(E, st, a[0]); s = str_of(E, st, a[1]); by = deref(E, st, a[2])
    if not (isinstance(r, Opaque) and r.what == "regex" and is_z(by) and z3.is_string_value(by) and "$" not in by.as_string()): raise Unsupported("regex")
    return replaced(st, r.data[0], r.data[1], s, by)

DECOK = z3.Function("decimal_ok", z3.StringSort(), z3.IntSort(), z3.BoolSort())
DECVAL = z3.Function("decimal_value", z3.StringSort(), z3.IntSort(), z3.IntSort())
def number(st, s, radix):
    v = DECVAL(s, I(radix))
    st.assume(And(v >= 0, v < 2 ** 32))
    return Enum(simp_tag(Not(DECOK(s, I(radix)))), {0: [v], 1: [Opaque("ParseIntError")]})
@ext("core::num::<impl u32>::from_str_radix")
def _(E, st, c, a, tys, dty):
    r = simp(a[1])
    if not z3.is_int_value(r): raise Unsupported("radix")
    return number(st, str_of(E, st, a[0]), r.as_long())
@ext("core::str::<impl str>::parse")
def _(E, st, c, a, tys, dty):
    ok_t = E.T[E.T[dty]["args"][0]]
    if ok_t["k"] == "uint" and ok_t["bytes"] == 4: return number(st, str_of(E, st, a[0]), 10)
    raise Unsupported("parse")
@ext("std::convert::TryFrom::try_from")
def _(E, st, c, a, tys, dty):
    ok_t = E.T[E.T[dty]["args"][0]]
    if ok_t["k"] != "char" or not (is_z(a[0]) and a[0].sort() == z3.IntSort()): raise Unsupported("try_from")
    x = a[0]
    good = And(x >= 0, x <= 0x10FFFF, z3.Or(x < 0xD800, x > 0xDFFF))
    return Enum(simp_tag(simp(Not(good))), {0: [x], 1: [Opaque("CharTryFromError")]})

@ext("std::cmp::Ord::max", "std::cmp::Ord::min", "std::cmp::max", "std::cmp::min")
def _(E, st, c, a, tys, dty):
    x, y = a
    if not (is_z(x) and is_z(y) and x.sort() == z3.IntSort() == y.sort()): raise Unsupported("maximum of something else than numbers")
    return simp(z3.If(x >= y, x, y) if c["def"].endswith("max") else z3.If(x <= y, x, y))

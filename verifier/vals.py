"""Symbolic values: fully exploded trees whose leaves are SMT terms (Bool, Int, String, BitVec8)."""
import z3

class Unsupported(Exception):
    """The verifier's dialect does not cover this construct: undecided, never an alarm."""

_ctr = [0]
def uid():
    _ctr[0] += 1
    return _ctr[0]

def fresh_name(p):
    return f"{p}!{uid()}"

I = z3.IntVal
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

def S(s):
    """String literal: the UTF-8 bytes as characters 0..255."""
    if isinstance(s, str):
        s = s.encode("utf-8")
    return z3.StringVal("".join(chr(b) if 32 <= b < 127 and b != 92 else "\\u{%x}" % b for b in s))

def is_z(v):
    return isinstance(v, z3.ExprRef)

class Struct:
    __slots__ = ("f", "clo")
    def __init__(self, f, clo=None):
        self.f = list(f); self.clo = clo
    def __repr__(self): return f"S{self.f}"

UNIT = Struct([])

class Enum:
    """tag: python int or Int term (variant index); pl: variant index -> list of field values"""
    __slots__ = ("tag", "pl")
    def __init__(self, tag, pl):
        self.tag = tag; self.pl = pl
    def __repr__(self): return f"E({self.tag},{self.pl})"

def skey(v):
    if is_z(v): return v.get_id()
    if isinstance(v, Struct): return ("s",) + tuple(skey(x) for x in v.f)
    if isinstance(v, Enum): return ("e", v.tag.get_id() if is_z(v.tag) else ("c", v.tag)) + tuple((k,) + tuple(skey(x) for x in v.pl[k]) for k in sorted(v.pl))
    return repr(v)

_memo = {}; _depth = [0]
def within(f, key):
    """f, remembering its results during one outermost lookup (lookups nest along joined paths)"""
    def g(k):
        d = _depth[0]
        if d == 0: _memo.clear()
        kk = (g, key(k))
        hit = _memo.get(kk)
        if hit is not None: return hit[0]
        _depth[0] = d + 1
        try: r = f(k)
        finally: _depth[0] = d
        _memo[kk] = (r, k)
        return r
    return g

class SeqV:
    __slots__ = ("len", "at", "key", "z")
    def __init__(self, ln, at, key=None, z=None):
        self.len = ln; self.at = within(at, lambda i: i.get_id() if is_z(i) else i); self.key = key
        self.z = z                  # the same sequence as one term, for sequences of node references that have one
    def __repr__(self): return f"Seq(len={self.len})"

class MapV:
    """Total function from keys to Option values; `key` names the underlying base map if any."""
    __slots__ = ("get", "kty", "vty", "key", "log")
    def __init__(self, get, kty, vty, key=None, log=()):
        self.get = within(get, skey); self.kty = kty; self.vty = vty; self.key = key; self.log = log
    def __repr__(self): return f"Map({self.key})"

class Ptr:
    __slots__ = ("root", "proj")
    def __init__(self, root, proj=()):
        self.root = root; self.proj = tuple(proj)
    def __repr__(self): return f"Ptr{self.root}{self.proj}"

class NodeView:
    """&NodeImpl: the node `ref` as it is in `heap`"""
    __slots__ = ("ref", "heap")
    def __init__(self, ref, heap):
        self.ref = ref; self.heap = heap
    def __repr__(self): return f"NodeView({self.ref})"

class Guard:
    __slots__ = ("ref", "mut", "id")
    def __init__(self, ref, mut):
        self.ref = ref; self.mut = mut; self.id = uid()
    def __repr__(self): return f"Guard({self.ref},{self.mut})"

class Opaque:
    """A value whose content is not modelled; any branch on it is unsupported."""
    __slots__ = ("what", "data")
    def __init__(self, what, data=None):
        self.what = what; self.data = data
    def __repr__(self): return f"Opaque({self.what})"

class FnVal:
    __slots__ = ("ty",)
    def __init__(self, ty): self.ty = ty

class Iter:
    """Iterator over an indexed sequence of items: kind 'seq' (SeqV from position pos)."""
    __slots__ = ("seq", "pos", "kind", "aux")
    def __init__(self, seq, pos, kind="seq", aux=None):
        self.seq = seq; self.pos = pos; self.kind = kind; self.aux = aux
    def __repr__(self): return f"Iter({self.kind},{self.pos})"

# ---------------------------------------------------------------- helpers
def none():
    return Enum(0, {0: []})
def some(v):
    return Enum(1, {0: [], 1: [v]})
def ok(v):
    return Enum(0, {0: [v]})
def err(v):
    return Enum(1, {1: [v]})

def simp(t):
    return z3.simplify(t)

def tag_is(e, v):
    if not is_z(e.tag):
        return TRUE if e.tag == v else FALSE
    return e.tag == I(v)

def tagterm(e):
    return e.tag if is_z(e.tag) else I(e.tag)

def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if z3.is_true(x): continue
        if z3.is_false(x): return FALSE
        ys.append(x)
    if not ys: return TRUE
    return ys[0] if len(ys) == 1 else z3.And(*ys)

def Or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if z3.is_false(x): continue
        if z3.is_true(x): return TRUE
        ys.append(x)
    if not ys: return FALSE
    return ys[0] if len(ys) == 1 else z3.Or(*ys)

def Not(x):
    if z3.is_true(x): return FALSE
    if z3.is_false(x): return TRUE
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)

def Implies(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a) or z3.is_true(b): return TRUE
    return z3.Implies(a, b)

def Ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    if z3.is_bool(a):
        if z3.is_true(a): return Or(c, b)
        if z3.is_false(a): return And(Not(c), b)
        if z3.is_true(b): return Or(Not(c), a)
        if z3.is_false(b): return And(c, a)
    return z3.If(c, a, b)

def eq(a, b):
    """z3 formula: the two values are equal (sequences and maps are not comparable here)"""
    if a is b: return TRUE
    if isinstance(a, NodeView) or isinstance(b, NodeView):
        raise Unsupported("node comparison")
    if is_z(a):
        if not is_z(b): raise Unsupported(f"eq of {type(a)} and {type(b)}")
        if a.eq(b): return TRUE
        if z3.is_int_value(a) and z3.is_int_value(b):
            return TRUE if a.as_long() == b.as_long() else FALSE
        if z3.is_string_value(a) and z3.is_string_value(b):
            return FALSE
        if z3.is_true(a): return b
        if z3.is_true(b): return a
        if z3.is_false(a): return Not(b)
        if z3.is_false(b): return Not(a)
        return a == b
    if isinstance(a, Struct):
        if not isinstance(b, Struct) or len(a.f) != len(b.f): raise Unsupported("eq shape")
        return And(*[eq(x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Enum):
        if not isinstance(b, Enum): raise Unsupported("eq shape")
        if not is_z(a.tag) and not is_z(b.tag):
            if a.tag != b.tag: return FALSE
            return And(*[eq(x, y) for x, y in zip(a.pl[a.tag], b.pl[b.tag])])
        cs = [tagterm(a) == tagterm(b)]
        for v in set(a.pl) & set(b.pl):
            if a.pl[v] and (is_z(a.tag) or a.tag == v) and (is_z(b.tag) or b.tag == v):
                cs.append(Implies(tag_is(a, v) if is_z(a.tag) else tag_is(b, v),
                                  And(*[eq(x, y) for x, y in zip(a.pl[v], b.pl[v])])))
        return And(*cs)
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.what == b.what and a.what.startswith("const:"):
        return TRUE
    raise Unsupported(f"eq of {type(a).__name__}")

def mergeable(a, b):
    if a is b: return True
    if is_z(a): return is_z(b) and a.sort() == b.sort()
    if type(a) is not type(b): return False
    if isinstance(a, Struct):
        return len(a.f) == len(b.f) and a.clo == b.clo and all(mergeable(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Enum):
        return all(len(a.pl[v]) == len(b.pl[v]) and all(mergeable(x, y) for x, y in zip(a.pl[v], b.pl[v]))
                   for v in set(a.pl) & set(b.pl))
    if isinstance(a, SeqV): return True
    if isinstance(a, MapV): return True
    if isinstance(a, Ptr): return a.root == b.root and a.proj == b.proj
    if isinstance(a, Opaque): return a.what == b.what and a.what.startswith("const:")
    if isinstance(a, NodeView): return a.ref.eq(b.ref) and a.heap is b.heap
    return False

def ite(c, a, b):
    if a is b: return a
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if is_z(a): return Ite(c, a, b)
    if isinstance(a, Struct):
        return Struct([ite(c, x, y) for x, y in zip(a.f, b.f)], a.clo)
    if isinstance(a, Enum):
        pl = {}
        for v in set(a.pl) | set(b.pl):
            if v in a.pl and v in b.pl:
                pl[v] = [ite(c, x, y) for x, y in zip(a.pl[v], b.pl[v])]
            else:
                pl[v] = a.pl.get(v, b.pl.get(v))
        if not is_z(a.tag) and not is_z(b.tag) and a.tag == b.tag:
            return Enum(a.tag, pl)
        return Enum(Ite(c, tagterm(a), tagterm(b)), pl)
    if isinstance(a, SeqV):
        if a.key is not None and a.key == b.key: return a
        if z3.is_int_value(b.len) and b.len.as_long() == 0: return SeqV(Ite(c, a.len, b.len), a.at)
        if z3.is_int_value(a.len) and a.len.as_long() == 0: return SeqV(Ite(c, a.len, b.len), b.at)
        return SeqV(Ite(c, a.len, b.len), lambda i: ite(c, a.at(i), b.at(i)), z=Ite(c, a.z, b.z) if a.z is not None and b.z is not None else None)
    if isinstance(a, MapV):
        if a.key is not None and a.key == b.key: return a
        return MapV(lambda k: ite(c, a.get(k), b.get(k)), a.kty, a.vty)
    if isinstance(a, Ptr): return a
    if isinstance(a, (Opaque, NodeView)): return a
    raise Unsupported(f"ite of {type(a).__name__}")

def leaves(v):
    """the SMT leaves of a finite value, with None payloads canonicalised (for use as function arguments)"""
    if is_z(v): return [v]
    if isinstance(v, Struct):
        return [l for x in v.f for l in leaves(x)]
    if isinstance(v, Enum):
        r = [tagterm(v)]
        for k in sorted(v.pl):
            for x in v.pl[k]:
                for l in leaves(x):
                    d = default_leaf(l)
                    r.append(Ite(tag_is(v, k), l, d))
        return r
    raise Unsupported(f"leaves of {type(v).__name__}")

def default_leaf(l):
    s = l.sort()
    if s == z3.StringSort(): return S("")
    if s == z3.IntSort(): return I(0)
    if s == z3.BoolSort(): return FALSE
    return z3.BitVecVal(0, 8)

def subst(v, pairs):
    if is_z(v): return z3.substitute(v, *pairs)
    if isinstance(v, Struct): return Struct([subst(x, pairs) for x in v.f], v.clo)
    if isinstance(v, Enum):
        return Enum(subst(v.tag, pairs) if is_z(v.tag) else v.tag, {k: [subst(x, pairs) for x in xs] for k, xs in v.pl.items()})
    if isinstance(v, SeqV):
        return SeqV(subst(v.len, pairs), lambda i: subst(v.at(i), pairs), z=None if v.z is None else z3.substitute(v.z, *pairs))
    if isinstance(v, MapV):
        return MapV(lambda k: subst(v.get(k), pairs), v.kty, v.vty)
    if isinstance(v, Opaque): return v
    raise Unsupported(f"subst {type(v).__name__}")

REFSEQ = z3.SeqSort(z3.IntSort())
def seqz(t):
    """a term of REFSEQ as a sequence"""
    return SeqV(z3.Length(t), lambda i: t[i], key=("z", t.get_id(), t), z=t)

class Bulk:
    """the target of a write to every node with a property"""
    def __init__(self, pred): self.pred = pred
    def eq(self, o): return self is o
    def get_id(self): return ("bulk", id(self))
    def __repr__(self): return "Bulk"

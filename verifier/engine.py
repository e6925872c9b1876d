"""Path-wise verification-condition generation over MIR.

Every function is executed symbolically over fully symbolic arguments and an arbitrary (well-formed) node heap.
Calls go to (a) a contract, when the callee has one, (b) the callee's own MIR, when it is a loop-free helper,
(c) a trusted contract for functions of std and other crates.  Loops need an invariant.
"""
import z3, time, re, sys
from vals import *
from vals import _depth, _memo

sys.setrecursionlimit(20000)
USIZE_MAX = 2**64 - 1
ISIZE_MAX = 2**63 - 1

def is_clone(t): return z3.is_app(t) and t.decl().name() == "clone_of"

class Stats:
    def __init__(self):
        self.solver_calls = 0; self.solver_time = 0.0; self.obl = []; self.assumed = set(); self.inlined = set()
        self.contracts_used = set(); self.ext_used = set(); self.loops = []; self.unknown_feas = 0

class Heap:
    """Node heap: base (arbitrary) heap plus an ordered list of writes per field."""
    __slots__ = ("base", "w", "kept")
    def __init__(self, base, w=None):
        self.base = base; self.w = w or {}
        self.kept = None            # the contract that made this heap from one that was well-formed, keeping it so
    def write(self, field, ref, val):
        w = dict(self.w)
        w[field] = w.get(field, ()) + ((ref, val),)
        h = Heap(self.base, w)
        if z3.is_int_value(ref) and ref.as_long() < 0: h.kept = self.kept       # about a new node
        return h

class State:
    __slots__ = ("pc", "ass", "uf", "heap", "loc", "guards", "nalloc", "pool", "cells", "ghost")
    def __init__(self):
        self.pc = []; self.ass = {}; self.uf = []; self.heap = Heap("H0"); self.loc = {}; self.guards = (); self.nalloc = 0
        self.pool = {}; self.cells = {}; self.ghost = {}
    def copy(self):
        s = State.__new__(State)
        s.pc = list(self.pc); s.ass = dict(self.ass); s.uf = list(self.uf); s.heap = self.heap; s.loc = dict(self.loc)
        s.guards = self.guards; s.nalloc = self.nalloc; s.pool = {k: dict(v) for k, v in self.pool.items()}
        s.cells = dict(self.cells); s.ghost = dict(self.ghost)
        return s
    def assume(self, f):
        """definitional fact, true on every path that gets here or not"""
        if z3.is_true(f): return
        self.ass.setdefault(f.get_id(), f)
    def branch(self, f):
        if z3.is_true(f): return
        if any(f.eq(x) for x in self.pc): return
        self.pc.append(f)
    def term(self, kind, t):
        if isinstance(t, (Struct, Enum)):
            key = skey(t)
        else:
            key = t.get_id()
        self.pool.setdefault(kind, {}).setdefault(key, t)
    def forall(self, kind, fn, label=""):
        self.uf.append((kind, fn, label))
    def hyps(self):
        return list(self.ass.values()) + self.pc

class Contract:
    """fn(C, *args) -> list of Case, see spec.py"""

class Engine:
    def __init__(self, prog, opts=None):
        self.p = prog
        self.T = prog.types
        self.contracts = {}          # short name (without generics) -> contract object
        self.loop_inv = {}           # short name -> handler
        self.stats = Stats()
        self.wrap = None
        self.wf = None               # callable(engine, st, field, ref): adds ground well-formedness facts
        self.base_memo = {}
        self.old_refs = {}
        self.fid = 0
        self.depth = 0
        self.feas_timeout = 1500
        self.joins = False
        self.obl_timeout = 20000
        self.feas_cache = {}
        self.deadline = None
        self.heads_memo = {}
        self.no_contract = set()
        self.unroll = 4
        self.side = []               # obligations raised while executing: (state, goal, label)
        nt = prog.adt("NodeImpl")
        self.nodety = nt
        self.fields = [(n, t) for n, t in self.T[nt]["variants"][0]["fields"]]
        self.fidx = {n: i for i, (n, t) in enumerate(self.fields)}
        import ext
        self.ext = ext
        self.max_paths = 4000
        self.solver = z3.Solver()

    # ------------------------------------------------------------ types
    def pointee(self, ty):
        return self.T[ty].get("e")

    def erased(self, ty):
        t = self.T[ty]
        return t["k"] == "adt" and t["kind"] == "struct" and t.get("expanded") and t.get("local") and len(t["variants"][0]["fields"]) == 1

    def is_ref_ty(self, ty):
        """value is a node reference (Int)"""
        t = self.T[ty]
        if t["k"] != "adt": return False
        n = t["name"].split("::")[-1]
        return n in ("RcRefCell", "WeakRefCell", "Rc", "Weak", "RefCell")

    def adt_name(self, ty):
        t = self.T[ty]
        return t["name"].split("::")[-1] if t["k"] == "adt" else None

    def strip_ref(self, ty):
        while self.T[ty]["k"] == "ref":
            ty = self.T[ty]["e"]
        return ty

    # ------------------------------------------------------------ fresh / base values
    def build(self, ty, mk, st, path, asm):
        """Value of type ty whose leaves come from mk(path, sort); asm(fact) receives the type's range facts."""
        t = self.T[ty]
        k = t["k"]
        if k == "bool": return mk(path, z3.BoolSort())
        if k == "char":
            v = mk(path, z3.IntSort()); asm(z3.And(v >= 0, v <= 0x10FFFF, z3.Or(v < 0xD800, v > 0xDFFF))); return v
        if k == "uint":
            if t["bytes"] == 1: return mk(path, z3.BitVecSort(8))
            v = mk(path, z3.IntSort()); asm(z3.And(v >= 0, v <= 2 ** (8 * t["bytes"]) - 1)); return v
        if k == "int":
            v = mk(path, z3.IntSort()); b = 8 * t["bytes"]; asm(z3.And(v >= -2 ** (b - 1), v <= 2 ** (b - 1) - 1)); return v
        if k == "str":
            return self.mkstr(mk, path, asm)
        if k == "ref":
            return self.build(t["e"], mk, st, path, asm)
        if k == "tuple":
            return Struct([self.build(e, mk, st, f"{path}.{i}", asm) for i, e in enumerate(t["e"])])
        if k == "slice":
            return self.build_seq(t["e"], mk, st, path, asm)
        if k == "dyn":
            tr = t["trait"].split("::")[-1]
            if tr == "DOMImplementation": return Opaque("const:impl")
            v = mk(path, z3.IntSort()); asm(v >= 0); return v
        if k == "adt":
            n = t["name"].split("::")[-1]
            if n == "String": return self.mkstr(mk, path, asm)
            if n == "Vec": return self.build_seq(t["args"][0], mk, st, path, asm)
            if n == "HashMap": return self.build_map(t["args"][0], t["args"][1], mk, st, path, asm)
            if n in ("Rc", "Weak", "RefCell"):
                v = mk(path, z3.IntSort()); asm(v >= 0); return v
            if n == "Implementation": return Opaque("const:impl")
            if t["kind"] == "struct" and t.get("expanded"):
                fs = t["variants"][0]["fields"]
                if self.erased(ty):
                    return self.build(fs[0][1], mk, st, path, asm)
                return Struct([self.build(ft, mk, st, f"{path}.{fn}", asm) for fn, ft in fs])
            if t["kind"] == "enum" and t.get("expanded"):
                tag = mk(path + "#", z3.IntSort())
                nv = len(t["variants"])
                asm(z3.And(tag >= 0, tag < nv))
                pl = {}
                for vi, v in enumerate(t["variants"]):
                    pl[vi] = [self.build(ft, mk, st, f"{path}@{v['name']}.{fn}", asm) for fn, ft in v["fields"]]
                if nv == 1: tag = 0
                return Enum(tag, pl)
        raise Unsupported(f"symbolic value of type {t['s']}")

    def canon(self, ty, v):
        """v with every variant's payload present (defaults where absent), so that all values of a type have the same leaves"""
        t = self.p.types[ty]
        if t["k"] == "ref": return self.canon(t["e"], v)
        if isinstance(v, Struct) and t["k"] == "tuple":
            return Struct([self.canon(e, x) for e, x in zip(t["e"], v.f)])
        if t["k"] != "adt" or not t.get("expanded"): return v
        if isinstance(v, Struct) and t["kind"] == "struct":
            return Struct([self.canon(ft, x) for (_, ft), x in zip(t["variants"][0]["fields"], v.f)])
        if isinstance(v, Enum):
            pl = {}
            for vi, var in enumerate(t["variants"]):
                if vi in v.pl: pl[vi] = [self.canon(ft, x) for (_, ft), x in zip(var["fields"], v.pl[vi])]
                else: pl[vi] = [self.build(ft, lambda p, s, xs=(): default_leaf(z3.Const("d", s)), None, "", lambda f: None) for _, ft in var["fields"]]
            return Enum(v.tag, pl)
        return v

    def mkstr(self, mk, path, asm):
        v = mk(path, z3.StringSort()); asm(z3.Length(v) <= ISIZE_MAX); return v

    def build_seq(self, ety, mk, st, path, asm):
        ln = mk(path + ".len", z3.IntSort())
        asm(z3.And(ln >= 0, ln <= ISIZE_MAX // 8))
        memo = {}
        def mat(i):
            k = i.get_id()
            if k not in memo:
                facts = []
                memo[k] = (i, self.build(ety, lambda p, s: mk(p, s, (i,)), st, path + "[]", facts.append), facts)
            for f in memo[k][2]: asm(f)
            return memo[k][1]
        return SeqV(ln, mat, key=("base", path, mk))

    def build_map(self, kty, vty, mk, st, path, asm):
        memo = {}
        def get(k):
            ls = tuple(leaves(self.canon(kty, k)))
            key = tuple(l.get_id() for l in ls)
            if key not in memo:
                tag = mk(path + "?", z3.IntSort(), ls)
                facts = [z3.And(tag >= 0, tag <= 1)]
                memo[key] = (ls, Enum(tag, {0: [], 1: [self.build(vty, lambda p, s, xs=(): mk(p, s, ls + tuple(xs)), st, path + "!", facts.append)]}), facts)
            for f in memo[key][2]: asm(f)
            return memo[key][1]
        return MapV(get, kty, vty, key=("base", path, mk))

    def fresh(self, ty, name, st):
        """arbitrary value of a type"""
        tok = fresh_name(name)
        def mk(path, sort, args=()):
            if not args: return z3.Const(tok + path, sort)
            f = z3.Function(tok + path, *[a.sort() for a in args], sort)
            return f(*args)
        v = self.build(ty, mk, st, "", lambda f: st.assume(f))
        self.note_refs(v, st)
        return v

    def note_refs(self, v, st):
        pass

    def base_read(self, heap, field, ref, st):
        """field of an old node in the base heap"""
        key = (heap.base, field, ref.get_id())
        hit = self.base_memo.get(key)
        if hit is None:
            facts = []
            base = heap.base
            def mk(path, sort, args=()):
                allargs = (ref,) + tuple(args)
                f = z3.Function(f"{base}.{path}", *[a.sort() for a in allargs], sort)
                return f(*allargs)
            cell = {"sink": facts.append}
            v = self.build(self.fields[self.fidx[field]][1], mk, st, field, lambda f: cell["sink"](f))
            if self.wrap: v = self.wrap(self, field, ref, v)
            hit = (v, facts, ref, cell)
            self.base_memo[key] = hit
        v, facts, _, cell = hit
        for f in facts: st.assume(f)
        # range facts of elements read later go to the state that reads them
        cell["sink"] = lambda f: self.cur_assume(f)
        return v

    def cur_assume(self, f):
        self._cur.assume(f)

    def read(self, st, heap, field, ref):
        """value of a field of a node in a heap"""
        self._cur = st
        st.term("ref", ref)
        chain = []
        done = None
        for (r, v) in reversed(heap.w.get(field, ())):
            c = self.ref_eq(ref, r, st)
            if z3.is_true(c):
                done = v; break
            if z3.is_false(c): continue
            chain.append((c, v))
        if done is None:
            if z3.is_int_value(ref) and ref.as_long() < 0:
                if not chain: raise Unsupported("read of an unallocated node")
                done = chain.pop()[1]
            else:
                done = self.base_read(heap, field, ref, st)
                if self.wf: self.wf(self, st, heap, field, ref, done)
        for c, v in reversed(chain):
            done = ite(c, v, done)
        return done

    def mark_old(self, ref):
        self.old_refs[ref.get_id()] = ref

    def ref_eq(self, a, b, st):
        if isinstance(b, Bulk): return simp(b.pred(a))
        if a.eq(b): return TRUE
        ca, cb = z3.is_int_value(a), z3.is_int_value(b)
        if ca and cb: return TRUE if a.as_long() == b.as_long() else FALSE
        if ca or cb:
            n, o = (a, b) if ca else (b, a)
            if n.as_long() < 0 and self.is_old(o): return FALSE
        # a clone made by a call under contract is none of the nodes there were, and none of those made here
        la, lb = is_clone(a), is_clone(b)
        if la != lb and (ca or cb or self.is_old(b if la else a)): return FALSE
        f = simp(a == b)
        if any(z3.is_not(x) and x.arg(0).eq(a == b) or z3.is_not(x) and x.arg(0).eq(b == a) for x in st.pc): return FALSE
        if any(x.eq(a == b) or x.eq(b == a) for x in st.pc): return TRUE
        return a == b

    def is_old(self, t):
        if t.get_id() in self.old_refs: return True
        if z3.is_int_value(t): return t.as_long() >= 0
        d = t.decl().name()
        if d.startswith("H") and "." in d and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: return True   # base heap reads are old nodes
        if z3.is_app_of(t, z3.Z3_OP_ITE): return self.is_old(t.arg(1)) and self.is_old(t.arg(2))
        return False

    # ------------------------------------------------------------ solver
    def check(self, fs, timeout, strings=True):
        """without the theory of strings first (their operations are then uninterpreted: unsat is unsat), which is much cheaper"""
        t0 = time.time()
        self.stats.solver_calls += 1
        try:
            for theory in ("none", "auto"):
                s = z3.Solver()
                s.set("timeout", int(timeout))
                if theory == "none": s.set("smt.string_solver", "none")
                s.add(*fs)
                r = s.check()
                if r == z3.unsat or not strings: return r, s
            return r, s
        finally:
            self.stats.solver_time += time.time() - t0

    def instances(self, st, extra=()):
        out = []
        for kind, fn, label in st.uf:
            for t in list(st.pool.get(kind, {}).values()):
                self._cur = st
                f = fn(t)
                if f is not None and not z3.is_true(f): out.append(f)
        return out

    def feasible(self, st, c=None):
        """False only if the path condition (with c) is proved unsatisfiable"""
        if c is not None:
            c = simp(c)
            if z3.is_false(c): return False
            for x in st.pc:
                if x.eq(c): return True
        if self.deadline and time.time() > self.deadline: raise Unsupported("time budget exhausted")
        fs = st.hyps() + ([c] if c is not None else [])
        fs += self.instances(st)
        have = set(id(x) for x in fs)
        fs = fs + [x for x in st.hyps() if id(x) not in have]
        key = tuple(sorted(f.get_id() for f in fs))
        if key in self.feas_cache: return self.feas_cache[key][0]
        r, s = self.check(fs, self.feas_timeout, not self.joins)
        if r == z3.unknown: self.stats.unknown_feas += 1
        res = r != z3.unsat
        self.feas_cache[key] = (res, fs)
        return res

    # ------------------------------------------------------------ places
    def loc_read(self, st, ptr):
        k = ptr.root[0]
        proj = ptr.proj
        if k == "L":
            v = st.loc.get((ptr.root[1], ptr.root[2]))
            if v is None: raise Unsupported(f"read of uninitialised local {ptr.root}")
        elif k == "N":
            if not proj: return NodeView(ptr.root[1], st.heap)
            v = NodeView(ptr.root[1], st.heap)
        elif k == "C":
            v = st.cells[ptr.root[1]]
        elif k == "B":
            return st.cells[ptr.root[1]]
        else:
            raise Unsupported("pointer root")
        return self.proj_val(st, v, proj)

    def proj_val(self, st, v, proj):
        i = 0
        while i < len(proj):
            e = proj[i]
            if isinstance(v, Ptr):
                # auto-deref'd pointer inside a value
                v = self.loc_read(st, v)
            if e[0] == "as":
                if i + 1 >= len(proj): return v
                f = proj[i + 1]
                if not isinstance(v, Enum): raise Unsupported("downcast of non-enum")
                if e[1] not in v.pl: raise Unsupported("downcast to absent variant")
                v = v.pl[e[1]][f[1]]
                i += 2
                continue
            if e[0] == ".":
                if isinstance(v, NodeView): v = self.read(st, v.heap, self.fields[e[1]][0], v.ref)
                elif isinstance(v, Struct): v = v.f[e[1]]
                elif isinstance(v, Enum) and not is_z(v.tag): v = v.pl[v.tag][e[1]]
                else: raise Unsupported(f"field of {type(v).__name__}")
                i += 1
                continue
            raise Unsupported(f"projection {e}")
        return v

    def upd_val(self, v, proj, new):
        if not proj: return new
        e = proj[0]
        if e[0] == "as":
            f = proj[1]
            if not isinstance(v, Enum): raise Unsupported("update downcast")
            pl = dict(v.pl)
            fs = list(pl[e[1]])
            fs[f[1]] = self.upd_val(fs[f[1]], proj[2:], new)
            pl[e[1]] = fs
            return Enum(v.tag, pl)
        if e[0] == ".":
            if isinstance(v, Struct):
                fs = list(v.f)
                fs[e[1]] = self.upd_val(fs[e[1]], proj[1:], new)
                return Struct(fs, v.clo)
        raise Unsupported(f"update {e} of {type(v).__name__}")

    def loc_write(self, st, ptr, new):
        k = ptr.root[0]
        if k == "L":
            key = (ptr.root[1], ptr.root[2])
            if not ptr.proj: st.loc[key] = new; return
            v = st.loc.get(key)
            # writing through a pointer stored in the middle of the path
            self.write_into(st, Ptr(ptr.root), v, ptr.proj, new)
            return
        if k == "N":
            if not ptr.proj: raise Unsupported("whole-node write")
            f = self.fields[ptr.proj[0][1]][0]
            if len(ptr.proj) > 1:
                old = self.read(st, st.heap, f, ptr.root[1])
                new = self.upd_val(old, ptr.proj[1:], new)
            st.heap = st.heap.write(f, ptr.root[1], new)
            return
        if k == "C":
            st.cells[ptr.root[1]] = self.upd_val(st.cells[ptr.root[1]], ptr.proj, new) if ptr.proj else new
            return
        if k == "B":
            st.cells[ptr.root[1]] = new
            return
        raise Unsupported("pointer root")

    def write_into(self, st, root, v, proj, new):
        st.loc[(root.root[1], root.root[2])] = self.upd_val(v if v is not None else self.blank(proj), proj, new)

    def blank(self, proj):
        raise Unsupported("partial initialisation")

    def place(self, st, fid, fn, pl):
        """-> ('loc', Ptr, ty) or ('val', value, ty)"""
        cur = Ptr(("L", fid, pl[0]))
        ty = fn["locals"][pl[0]]
        isval = False
        val = None
        pend = None   # pending downcast variant
        for e in pl[1]:
            if e[0] == "*":
                v = val if isval else self.loc_read(st, cur)
                t = self.T[ty]
                if isinstance(v, Ptr):
                    cur = v; isval = False
                else:
                    val = v; isval = True
                ty = t.get("e", ty) if t["k"] in ("ref", "ptr") else ty
                if t["k"] == "adt" and t["name"].split("::")[-1] == "Box": ty = t["args"][0]
            elif e[0] == ".":
                if pend is None and (self.erased(ty) or self.adt_name(ty) == "Box"):
                    ty = e[2]; continue
                if not isval and cur.root[0] == "B":
                    ty = e[2]; continue
                pe = [(".", e[1])] if pend is None else [("as", pend), (".", e[1])]
                pend = None
                if isval: val = self.proj_val(st, val, pe)
                else: cur = Ptr(cur.root, cur.proj + tuple(pe))
                ty = e[2]
            elif e[0] == "as":
                pend = e[1]
            elif e[0] == "[]":
                idx = st.loc[(fid, e[1])]
                base = val if isval else self.loc_read(st, cur)
                if isinstance(base, SeqV): val = base.at(idx); isval = True
                elif isinstance(base, Struct) and z3.is_int_value(idx): val = base.f[idx.as_long()]; isval = True
                else: raise Unsupported("index")
                ty = self.T[ty].get("e", ty)
            else:
                raise Unsupported(f"place element {e}")
        if isval: return ("val", val, ty)
        return ("loc", cur, ty)

    def read_place(self, st, fid, fn, pl):
        k, v, ty = self.place(st, fid, fn, pl)
        return (v if k == "val" else self.loc_read(st, v)), ty

    def place_ty(self, fn, pl):
        ty = fn["locals"][pl[0]]
        for e in pl[1]:
            if e[0] == "*":
                t = self.T[ty]
                ty = t.get("e", ty) if t["k"] in ("ref", "ptr") else ty
            elif e[0] == ".": ty = e[2]
            elif e[0] == "[]": ty = self.T[ty].get("e", ty)
        return ty

    # ------------------------------------------------------------ constants & operands
    def const(self, c):
        ty, v = c["t"], c["v"]
        return self.constv(ty, v)

    def constv(self, ty, v):
        t = self.T[ty]
        if "bool" in v: return z3.BoolVal(v["bool"])
        if "int" in v:
            if t["k"] == "uint" and t["bytes"] == 1: return z3.BitVecVal(v["int"], 8)
            return I(v["int"])
        if "char" in v: return I(v["char"]) if isinstance(v["char"], int) else I(ord(v["char"]))
        if "str" in v: return S(v["str"])
        if "ref" in v: return self.constv(v["ref"]["t"], v["ref"]["v"])
        if "array" in v or "tuple" in v:
            return Struct([self.constv(x["t"], x["v"]) for x in v.get("array", v.get("tuple"))])
        if "slice" in v:
            xs = [self.constv(x["t"], x["v"]) for x in v["slice"]]
            return self.seq_of(xs)
        if "adt" in v:
            fs = [self.constv(x["t"], x["v"]) for x in v.get("fields", [])]
            if t["k"] == "adt" and t["kind"] == "enum": return Enum(v["adt"], {v["adt"]: fs})
            if t["k"] == "adt" and t["name"].split("::")[-1] == "Implementation": return Opaque("const:impl")
            if self.erased(ty): return fs[0]
            return Struct(fs)
        if "zst" in v:
            if t["k"] in ("fndef",): return FnVal(ty)
            if t["k"] == "closure": return Struct([], clo=ty)
            if t["k"] == "adt" and t["name"].split("::")[-1] == "Implementation": return Opaque("const:impl")
            if t["k"] == "tuple": return UNIT
            return Opaque("const:zst:" + t["s"])
        if "static" in v: return Opaque("const:static:" + str(v["static"]))
        if "dyn" in v:
            return self.constv(v["ref"]["t"], v["ref"]["v"]) if isinstance(v.get("ref"), dict) else Opaque("const:impl")
        return Opaque("const?" + t["s"])

    def seq_of(self, xs):
        def at(i):
            if not xs: raise Unsupported("element of an empty sequence")
            i2 = simp(i)
            if z3.is_int_value(i2) and 0 <= i2.as_long() < len(xs): return xs[i2.as_long()]
            r = xs[-1]
            for k in range(len(xs) - 2, -1, -1): r = ite(i2 == I(k), xs[k], r)
            return r
        return SeqV(I(len(xs)), at)

    def operand(self, st, fid, fn, o):
        if o[0] in ("c", "m"): return self.read_place(st, fid, fn, o[1])[0]
        if o[0] == "k": return self.const(o[1])
        raise Unsupported(f"operand {o[0]}")

    def operand_ty(self, fn, o):
        if o[0] in ("c", "m"): return self.place_ty(fn, o[1])
        if o[0] == "k": return o[1]["t"]
        return None

    # ------------------------------------------------------------ rvalues
    def int_range(self, ty):
        t = self.T[ty]
        b = 8 * t["bytes"]
        if t["k"] == "uint": return 0, 2 ** b - 1
        return -2 ** (b - 1), 2 ** (b - 1) - 1

    def rvalue(self, st, fid, fn, r, destty):
        k = r[0]
        if k == "use": return self.operand(st, fid, fn, r[1])
        if k == "ref":
            kind, v, ty = self.place(st, fid, fn, r[2])
            if r[1] == "shared" or r[1] == "fake":
                if kind == "val": return v
                return self.loc_read(st, v)
            if kind == "val":
                # &mut of a value reached through a shared snapshot: give it a cell of its own
                c = uid(); st.cells[c] = v
                return Ptr(("C", c))
            return v
        if k == "addr":
            kind, v, ty = self.place(st, fid, fn, r[2])
            return v
        if k == "discr":
            v, ty = self.read_place(st, fid, fn, r[1])
            if not isinstance(v, Enum): raise Unsupported(f"discriminant of {type(v).__name__}")
            vs = self.T[ty]["variants"]
            if not is_z(v.tag): return I(vs[v.tag]["discr"])
            offs = {x["discr"] - i for i, x in enumerate(vs)}
            if len(offs) == 1:
                o = offs.pop()
                return v.tag if o == 0 else v.tag + o
            r_ = I(vs[-1]["discr"])
            for i in range(len(vs) - 2, -1, -1): r_ = z3.If(v.tag == i, I(vs[i]["discr"]), r_)
            return r_
        if k == "agg":
            spec = r[1]; ops = [self.operand(st, fid, fn, o) for o in r[2]]
            if spec[0] == "tuple": return Struct(ops)
            if spec[0] == "array": return Struct(ops)
            if spec[0] == "closure": return Struct(ops, clo=spec[1])
            if spec[0] == "adt":
                t = self.T[spec[1]]
                if t["kind"] == "enum": return Enum(spec[2], {spec[2]: ops})
                if t["name"].split("::")[-1] == "Implementation": return Opaque("const:impl")
                if self.erased(spec[1]): return ops[0]
                return Struct(ops)
            raise Unsupported(f"aggregate {spec[0]}")
        if k in ("bin", "chk"):
            a = self.operand(st, fid, fn, r[2]); b = self.operand(st, fid, fn, r[3])
            ty = self.operand_ty(fn, r[2])
            return self.binop(st, k, r[1], a, b, ty)
        if k == "un":
            a = self.operand(st, fid, fn, r[2])
            if isinstance(a, Opaque): return Opaque("opaque")
            if r[1] == "Not":
                return Not(a) if z3.is_bool(a) else ~a
            if r[1] == "PtrMetadata": raise Unsupported("PtrMetadata")
            return -a
        if k == "cast":
            a = self.operand(st, fid, fn, r[2])
            sty = self.operand_ty(fn, r[2])
            return self.cast(st, r[1], a, sty, r[3])
        if k == "len":
            v, ty = self.read_place(st, fid, fn, r[1])
            if isinstance(v, SeqV): return v.len
            if isinstance(v, Struct): return I(len(v.f))
        raise Unsupported(f"rvalue {k}")

    def cast(self, st, kind, a, sty, dty):
        dt = self.T[dty]
        if isinstance(a, Opaque): return a if dt["k"] in ("ref", "ptr", "dyn") else Opaque("opaque")
        if kind in ("BoxDerefTransmute", "PtrToPtr", "Transmute") or kind.startswith("Pointer") or kind.startswith("Unsize"):
            if isinstance(a, Ptr) and dt["k"] in ("uint", "int"): return Opaque("address")
            return a
        if kind == "IntToInt":
            if is_z(a) and a.sort() == z3.BitVecSort(8):
                if dt["k"] == "uint" and dt["bytes"] == 1: return a
                return z3.BV2Int(a)
            if dt["k"] == "char": return a
            if dt["k"] in ("uint", "int"):
                if dt["k"] == "uint" and dt["bytes"] == 1:
                    if z3.is_int_value(a): return z3.BitVecVal(a.as_long() % 256, 8)
                    return z3.Int2BV(a, 8)
                lo, hi = self.int_range(dty)
                if self.T[sty]["k"] in ("uint", "int"):
                    slo, shi = self.int_range(sty)
                    if lo <= slo and shi <= hi: return a
                    if dt["k"] == "uint": return a % (hi + 1)
                elif self.T[sty]["k"] == "char":
                    if hi >= 0x10FFFF: return a
                    if dt["k"] == "uint": return a % (hi + 1)
                elif self.T[sty]["k"] == "bool":
                    return z3.If(a, I(1), I(0))
        raise Unsupported(f"cast {kind} to {dt['s']}")

    def binop(self, st, k, op, a, b, ty):
        if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque("opaque")
        if op in ("Eq", "Ne"):
            e = eq(a, b)
            return e if op == "Eq" else Not(e)
        bv = is_z(a) and a.sort() == z3.BitVecSort(8)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if bv: return {"Lt": z3.ULT, "Le": z3.ULE, "Gt": z3.UGT, "Ge": z3.UGE}[op](a, b)
            return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
        if z3.is_bool(a):
            return {"BitAnd": And, "BitOr": Or}[op](a, b) if op in ("BitAnd", "BitOr") else z3.Xor(a, b)
        if bv:
            bb = b if b.sort() == a.sort() else z3.Int2BV(b, 8)
            f = {"Add": lambda: a + bb, "Sub": lambda: a - bb, "Mul": lambda: a * bb, "BitAnd": lambda: a & bb, "BitOr": lambda: a | bb,
                 "BitXor": lambda: a ^ bb, "Shl": lambda: a << bb, "Shr": lambda: z3.LShR(a, bb)}.get(op)
            if not f: raise Unsupported(f"u8 {op}")
            if k == "chk":
                if op == "Add": ov = Not(z3.BVAddNoOverflow(a, bb, False))
                elif op == "Sub": ov = Not(z3.BVSubNoUnderflow(a, bb, False))
                elif op == "Mul": ov = Not(z3.BVMulNoOverflow(a, bb, False))
                else: raise Unsupported(f"checked u8 {op}")
                return Struct([simp(f()), simp(ov)])
            return simp(f())
        if op in ("Add", "Sub", "Mul"):
            r = {"Add": a + b, "Sub": a - b, "Mul": a * b}[op]
            lo, hi = self.int_range(ty)
            if k == "chk":
                return Struct([simp(r), simp(Or(r < lo, r > hi))])
            if z3.is_int_value(a) and z3.is_int_value(b) and lo <= simp(r).as_long() <= hi: return simp(r)
            raise Unsupported("unchecked arithmetic")
        if op in ("AddUnchecked", "SubUnchecked"):
            return a + b if op[0] == "A" else a - b
        if op == "Div": return a / b
        if op == "Rem": return a % b
        if op in ("BitAnd", "BitOr", "Shl", "Shr") and z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
            return I({"BitAnd": x & y, "BitOr": x | y, "Shl": x << y, "Shr": x >> y}[op])
        raise Unsupported(f"binop {op}")

    # ------------------------------------------------------------ running functions
    def succs(self, t):
        k = t[0]
        if k == "goto": return [t[1]]
        if k == "switch": return [b for _, b in t[2]] + [t[3]]
        if k == "call": return [t[4]] if t[4] is not None else []
        if k == "assert": return [t[4]]
        if k == "drop": return [t[2]]
        return []

    def loop_heads(self, fn):
        m = self.heads_memo.get(fn["name"])
        if m is not None: return m
        heads = {}
        color = {}
        stack = [(0, iter(self.succs(fn["blocks"][0]["t"])))]
        color[0] = 1
        back = []
        while stack:
            b, it = stack[-1]
            n = next(it, None)
            if n is None:
                color[b] = 2; stack.pop(); continue
            if color.get(n) == 1: back.append((b, n))
            elif n not in color:
                color[n] = 1
                stack.append((n, iter(self.succs(fn["blocks"][n]["t"]))))
        preds = {}
        for i, b in enumerate(fn["blocks"]):
            for s in self.succs(b["t"]): preds.setdefault(s, []).append(i)
        for (b, h) in back:
            body = heads.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in body: continue
                body.add(x)
                work += preds.get(x, [])
        self.heads_memo[fn["name"]] = heads
        return heads

    def run_fn(self, fn, args, st, top=False):
        """-> list of outcomes (kind, st, value): kind 'ret' or 'panic'"""
        self.depth += 1
        if self.depth > 60: raise Unsupported("call depth")
        try:
            fid = uid()
            if len(args) != fn["argc"]:
                raise Unsupported(f"arity {fn['short']}")
            for i, a in enumerate(args): st.loc[(fid, i + 1)] = a
            outs = []
            work = [(0, st, None)]
            n = 0
            heads = self.loop_heads(fn)
            while work:
                bb, s, skiphead = self.next_joined(fn, fid, work) if self.joins else work.pop()
                n += 1
                if n > self.max_paths * 20: raise Unsupported("path explosion")
                if bb in heads and skiphead != bb:
                    h = self.find_loop(fn)
                    cont = h(self, fn, fid, bb, heads[bb], s) if h is not None else None
                    if cont is None:
                        # no invariant: only loops whose exit is decided at once on every path can be run out
                        k = ("unroll", fid, bb)
                        c = s.ghost.get(k, 0)
                        if c >= self.unroll and getattr(self, "bounded", False): continue
                        if c >= self.unroll: raise Unsupported(f"loop without invariant in {fn['short']}")
                        s.ghost = dict(s.ghost); s.ghost[k] = c + 1
                    else:
                        for o in cont:
                            if o[0] == "cont": work.append((o[1], o[2], o[3] if len(o) > 3 else None))
                            else: outs.append(o)
                        continue
                self.step_block(fn, fid, bb, s, work, outs)
            for o in outs:
                for key in [k for k in o[1].loc if k[0] == fid]: del o[1].loc[key]
                if any(k[0] == "unroll" and k[1] == fid for k in o[1].ghost):
                    o[1].ghost = {k: v for k, v in o[1].ghost.items() if not (k[0] == "unroll" and k[1] == fid)}
            return outs
        finally:
            self.depth -= 1

    def run_body(self, fn, fid, head, body, st):
        """one arbitrary iteration from the loop head: -> (states back at the head, exits [(bb, st)], outcomes that left the function)"""
        back, exits, outs = [], [], []
        work = [(head, st, head)]
        heads = self.loop_heads(fn)
        first = True
        while work:
            bb, s, skip = work.pop()
            if not first and bb == head: back.append(s); continue
            if bb not in body: exits.append((bb, s)); continue
            if bb in heads and bb != head:
                h = self.find_loop(fn)
                if h is None: raise Unsupported(f"nested loop in {fn['short']}")
                for o in h(self, fn, fid, bb, heads[bb], s):
                    if o[0] == "cont": work.append((o[1], o[2], None))
                    else: outs.append(o)
                continue
            first = False
            self.step_block(fn, fid, bb, s, work, outs)
        return back, exits, outs

    def assigned(self, fn, body):
        """locals assigned or mutably borrowed in the loop body"""
        r = set()
        for bb in body:
            for s in fn["blocks"][bb]["s"]:
                if s[0] == "=":
                    r.add(s[1][0])
                    if s[2][0] in ("ref", "addr") and s[2][1] not in ("shared", "fake"): r.add(s[2][2][0])
            t = fn["blocks"][bb]["t"]
            if t[0] == "call": r.add(t[3][0])
        return r

    def find_loop(self, fn):
        s = re.sub(r"::<.*>$", "", fn["short"])
        return self.loop_inv.get(s) or self.loop_inv.get("*")

    def stmts(self, fn, fid, bb, st):
        self._cur = st
        for s in fn["blocks"][bb]["s"]:
            if s[0] == "=":
                pl = s[1]
                ty = self.place_ty(fn, pl)
                v = self.rvalue(st, fid, fn, s[2], ty)
                self.assign(st, fid, fn, pl, v)
            elif s[0] == "setdiscr":
                raise Unsupported("set_discriminant")
            elif s[0] == "assume":
                pass

    def assign(self, st, fid, fn, pl, v):
        if not pl[1]:
            st.loc[(fid, pl[0])] = v
            return
        k, p, ty = self.place(st, fid, fn, pl)
        if k == "val": raise Unsupported("assignment through a shared reference")
        self.loc_write(st, p, v)

    def step_block(self, fn, fid, bb, st, work, outs):
        self.stmts(fn, fid, bb, st)
        t = fn["blocks"][bb]["t"]
        k = t[0]
        if k == "goto": work.append((t[1], st, None)); return
        if k == "return":
            v = st.loc.get((fid, 0), UNIT)
            outs.append(("ret", st, v)); return
        if k == "unreachable":
            if self.feasible(st): outs.append(("panic", st, f"unreachable reached in {fn['short']}"))
            return
        if k == "drop":
            v = None
            try:
                v, _ = self.read_place(st, fid, fn, t[1])
            except Unsupported:
                v = None
            if v is not None: self.drop_value(st, v)
            work.append((t[2], st, None)); return
        if k == "switch":
            v = self.operand(st, fid, fn, t[1])
            if isinstance(v, Opaque): raise Unsupported(f"branch on {v.what} in {fn['short']}")
            self.switch(fn, st, v, t[2], t[3], work)
            return
        if k == "assert":
            c = self.operand(st, fid, fn, t[1])
            if isinstance(c, Opaque):
                self.stats.assumed.add("allocation pointers are aligned and non-null")
                work.append((t[4], st, None)); return
            want = c if t[2] else Not(c)
            want = simp(want)
            if not z3.is_true(want):
                bad = Not(want)
                if self.feasible(st, bad):
                    s2 = st.copy(); s2.branch(bad)
                    outs.append(("panic", s2, f"{t[3]} in {fn['short']} line {fn['blocks'][bb]['l']}"))
                    if not self.feasible(st, want): return
                    st.branch(want)
            work.append((t[4], st, None)); return
        if k == "call":
            callee, argops, dest, target = t[1], t[2], t[3], t[4]
            args = [self.operand(st, fid, fn, o) for o in argops]
            argtys = [self.operand_ty(fn, o) for o in argops]
            os_ = self.call(st, callee, args, argtys, fn, fn["blocks"][bb]["l"], self.place_ty(fn, dest))
            for o in os_:
                if o[0] == "panic": outs.append(o); continue
                if target is None: continue
                self._cur = o[1]
                self.assign(o[1], fid, fn, dest, o[2])
                work.append((target, o[1], None))
            return
        if k == "resume": return
        raise Unsupported(f"terminator {k}")

    def switch(self, fn, st, v, cases, other, work):
        groups = {}
        order = []
        vals = []
        for val, bb in cases:
            if z3.is_bool(v): c = v if val == 1 else Not(v)
            elif v.sort() == z3.BitVecSort(8): c = v == val
            else: c = v == I(val)
            vals.append(c)
            if bb not in groups: groups[bb] = []; order.append(bb)
            groups[bb].append(c)
        if other not in groups: groups[other] = []; order.append(other)
        groups[other].append(And(*[Not(c) for c in vals]))
        live = []
        for bb in order:
            if fn["blocks"][bb]["t"][0] == "unreachable" and not fn["blocks"][bb]["s"]:
                # exhaustive match: the type's range facts make this impossible; checked
                c = simp(Or(*groups[bb]))
                if z3.is_false(c): continue
                if not self.feasible(st, c): continue
                live.append((bb, c)); continue
            c = simp(Or(*groups[bb]))
            if z3.is_false(c): continue
            live.append((bb, c))
        if len(live) == 1:
            work.append((live[0][0], st, None)); return
        ok_ = [(bb, c) for bb, c in live if z3.is_true(c) or self.feasible(st, c)]
        for j, (bb, c) in enumerate(ok_):
            s = st if j == len(ok_) - 1 else st.copy()
            if len(ok_) > 1: s.branch(c)
            work.append((bb, s, None))

    def drop_value(self, st, v):
        if isinstance(v, Guard):
            st.guards = tuple(g for g in st.guards if g.id != v.id)
        elif isinstance(v, Struct):
            for x in v.f: self.drop_value(st, x)
        elif isinstance(v, Enum):
            for xs in v.pl.values():
                for x in xs: self.drop_value(st, x)

    # ------------------------------------------------------------ calls
    def call(self, st, callee, args, argtys, fn, line, destty):
        if "fn" in callee:
            if callee.get("def", "").startswith("std::ops::Fn"):
                return self.call_value(st, args[0], list(args[1].f), fn, line, destty)
            return self.call_local(st, callee["fn"], args, fn)
        if "virtual" in callee:
            tg = callee["targets"]
            cand = [x for x in tg if self.is_ref_ty(x[0])]
            if isinstance(args[0], Opaque):
                cand = [x for x in tg if not self.is_ref_ty(x[0])]
            if len(cand) != 1: raise Unsupported(f"virtual call {callee['virtual']}")
            return self.call_local(st, cand[0][1], args, fn)
        if "shim" in callee:
            tup = args[1]
            return self.call_value(st, args[0], list(tup.f), fn, line, destty)
        if "ext" in callee:
            d = callee["def"]
            h = self.ext.HANDLERS.get(d)
            if h is None: raise Unsupported(f"external function {d}")
            self.stats.ext_used.add(d)
            self._cur = st
            r = h(self, st, callee, args, argtys, destty)
            if isinstance(r, list): return r
            return [("ret", st, r)]
        raise Unsupported(f"call {list(callee)[:2]}")

    def call_value(self, st, f, args, fn=None, line=0, destty=None):
        """call a closure or function value"""
        if isinstance(f, Ptr): 
            inner = self.loc_read(st, f)
            if isinstance(inner, FnVal): f = inner
            elif isinstance(inner, Struct) and inner.clo is not None:
                return self.call_closure(st, inner, f, args)
        if isinstance(f, FnVal):
            tgt = self.T[f.ty]["tgt"]
            t = self.T[f.ty]
            return self.call(st, tgt, args, [None] * len(args), fn, line, destty)
        if isinstance(f, Struct) and f.clo is not None:
            return self.call_closure(st, f, None, args)
        raise Unsupported("call of unknown function value")

    def call_closure(self, st, clo, ptr, args):
        body = self.T[clo.clo]["body"]
        f = self.p.fns.get(body)
        if f is None: raise Unsupported(f"closure body {body}")
        selfty = self.T[f["locals"][1]]
        recv = clo
        if selfty["k"] == "ref" and selfty.get("mut"):
            if ptr is None:
                c = uid(); st.cells[c] = clo; ptr = Ptr(("C", c))
            recv = ptr
        return self.call_fn(st, f, [recv] + args)

    def key(self, f):
        return re.sub(r"::<.*>$", "", f["short"]) if not f["short"].startswith("<") else f["short"]

    def call_local(self, st, name, args, fn=None):
        f = self.p.fns.get(name)
        if f is None: raise Unsupported(f"no body for {name}")
        key = self.key(f)
        c = self.contracts.get(key)
        if key in self.no_contract:
            # the function under verification: a recursive call may use its contract if a measure falls
            m = self.rec_contract if getattr(self, "rec_contract", None) and any(x is f for x in getattr(self, "stack", [])) else None
            if m is not None:
                m.decreases(self, st, args)
                self.stats.contracts_used.add(key + " (recursive call)")
                return m.apply(self, st, args)
        elif c is not None and c.applies(self, st, args):
            self.stats.contracts_used.add(key)
            return c.apply(self, st, args)
        return self.call_fn(st, f, args)

    def call_fn(self, st, f, args):
        if f["local"]: self.stats.inlined.add(f["short"])
        base = st
        pre = st.copy()
        if any(x is f for x in getattr(self, "stack", [])) and f["local"]:
            raise Unsupported(f"recursion without contract: {f['short']}")
        self.stack = getattr(self, "stack", [])
        self.stack.append(f)
        try:
            outs = self.run_fn(f, args, st)
        finally:
            self.stack.pop()
        return self.merge(pre, outs)

    def merge(self, base, outs):
        rets = [o for o in outs if o[0] == "ret"]
        rest = [o for o in outs if o[0] != "ret"]
        if len(rets) <= 1: return outs
        groups = []
        for o in rets:
            for g in groups:
                a = g[0][1]; b = o[1]
                if (a.heap is b.heap or self.joins) and a.nalloc == b.nalloc and a.guards == b.guards and mergeable(g[0][2], o[2]) \
                   and self.same_locals(base, a, b) and a.ghost == b.ghost and self.heaps_mergeable(a.heap, b.heap):
                    g.append(o); break
            else:
                groups.append([o])
        res = []
        n0 = len(base.pc)
        for g in groups:
            if len(g) == 1: res.append(g[0]); continue
            if len(g) > 60: raise Unsupported("merge too wide")
            st = g[0][1].copy()
            st.pc = list(base.pc)
            conds = []
            for o in g:
                conds.append(And(*o[1].pc[n0:]))
                for k, f in o[1].ass.items(): st.ass.setdefault(k, f)
                for kd, d in o[1].pool.items():
                    for k, t in d.items(): st.pool.setdefault(kd, {}).setdefault(k, t)
                for c, v in o[1].cells.items(): st.cells.setdefault(c, v)
            nb = len(base.uf)
            st.uf = list(base.uf)
            seen = set(id(u[1]) for u in st.uf)
            for o, c in zip(g, conds):
                for u in o[1].uf[nb:]:
                    if id(u[1]) in seen: continue
                    seen.add(id(u[1]))
                    st.uf.append(u)     # universal facts are definitional: guarded inside
            v = g[-1][2]
            for o, c in zip(reversed(g[:-1]), reversed(conds[:-1])):
                v = ite(c, o[2], v)
            disj = Or(*conds)
            if not z3.is_true(simp(disj)):
                r, _ = self.check(st.hyps() + [Not(disj)], 300)
                if r != z3.unsat: st.pc.append(disj)
            v = self.simp_val(v)
            self.merge_heaps(st, [o[1].heap for o in g], conds)
            res.append(("ret", st, v))
        return res + rest

    # ------------------------------------------------------------ joining paths that meet again (on request)
    def heaps_mergeable(self, h1, h2):
        if h1 is h2: return True
        for f in set(h1.w) & set(h2.w):
            for (r1, v1) in h1.w[f]:
                for (r2, v2) in h2.w[f]:
                    if r1.eq(r2) and not mergeable(v1, v2): return False
        return True

    def merge_heaps(self, st, heaps, conds):
        if all(h is heaps[0] for h in heaps): return
        out = Heap(heaps[0].base)
        w = {}
        for f in dict.fromkeys(f for h in heaps for f in h.w):
            lists = [h.w.get(f, ()) for h in heaps]
            if all(l is lists[0] for l in lists): w[f] = lists[0]; continue
            n = 0
            while all(len(l) > n and l[n][0] is lists[0][n][0] and l[n][1] is lists[0][n][1] for l in lists): n += 1
            refs = {}
            for l in lists:
                for r, _ in l[n:]: refs.setdefault(r.get_id(), r)
            if any(isinstance(r, Bulk) for r in refs.values()): raise Unsupported("joining of writes to many nodes")
            new = list(lists[0][:n])
            for r in refs.values():
                vs = [self.read(st, h, f, r) for h in heaps]
                v = vs[-1]
                for x, c in zip(reversed(vs[:-1]), reversed(conds[:-1])): v = ite(c, x, v)
                new.append((r, v))
            w[f] = tuple(new)
        out.w = w
        st.heap = out

    def rpo(self, fn):
        if "rpo" not in fn:
            seen, order = set(), []
            stack = [(0, iter(self.succs(fn["blocks"][0]["t"])))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x); stack.append((x, iter(self.succs(fn["blocks"][x]["t"])))); break
                else:
                    order.append(b); stack.pop()
            fn["rpo"] = {b: i for i, b in enumerate(reversed(order))}
        return fn["rpo"]

    def live_in(self, fn):
        """block -> locals that may be read from there on"""
        if "live" in fn: return fn["live"]
        def mentions(x, acc):
            if isinstance(x, list):
                if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list): acc.add(x[0])
                for y in x: mentions(y, acc)
        gen, kill = {}, {}
        taken = set()
        for b in self.rpo(fn):
            g, k = set(), set()
            for s in fn["blocks"][b]["s"]:
                if s[0] != "=":
                    mentions(s[1:], g)
                    continue
                acc = set(); mentions(s[2], acc)
                if s[2][0] in ("ref", "addr"): taken |= acc
                g |= acc - k
                if s[1][1]: g |= {s[1][0]} - k
                else: k.add(s[1][0])
            t = fn["blocks"][b]["t"]
            acc = set()
            if t[0] == "call":
                mentions(t[1], acc); mentions(t[2], acc)
                if t[3][1]: acc.add(t[3][0])
                g |= acc - k
                if not t[3][1]: k.add(t[3][0])
            else:
                mentions(t, acc)
                if t[0] == "return": acc.add(0)
                g |= acc - k
            gen[b], kill[b] = g, k
        live = {b: set() for b in gen}
        ch = True
        while ch:
            ch = False
            for b in live:
                o = set()
                for x in self.succs(fn["blocks"][b]["t"]): o |= live.get(x, set())
                n = gen[b] | (o - kill[b])
                if n != live[b]: live[b] = n; ch = True
        fn["live"] = (live, taken)
        return fn["live"]

    def next_joined(self, fn, fid, work):
        order = self.rpo(fn)
        key = lambda w: (order[w[0]], -1 if w[2] is None else w[2])
        best = min(key(w) for w in work)
        same = [w for w in work if key(w) == best]
        rest = [w for w in work if key(w) != best]
        groups = [same[0][1]]
        for w in same[1:]:
            for i, g in enumerate(groups):
                m = self.join_states(fn, fid, w[0], g, w[1])
                if m is not None: groups[i] = m; break
            else: groups.append(w[1])
        work[:] = rest + [(same[0][0], g, same[0][2]) for g in groups[:-1]]
        return (same[0][0], groups[-1], same[0][2])

    def join_states(self, fn, fid, bb, a, b):
        if a.nalloc != b.nalloc or a.guards != b.guards or a.ghost != b.ghost or not self.heaps_mergeable(a.heap, b.heap): return None
        live, taken = self.live_in(fn)
        keep = {}
        for k in set(a.loc) | set(b.loc):
            x, y = a.loc.get(k), b.loc.get(k)
            if x is y: keep[k] = 0; continue
            if k[0] != fid: return None                 # a caller's local was changed
            lv = k[1] in live[bb]
            if not lv and k[1] not in taken: continue
            if x is None or y is None: continue       # not initialised on both
            if mergeable(x, y): keep[k] = 1
            elif lv: return None
        for c in set(a.cells) & set(b.cells):
            x, y = a.cells[c], b.cells[c]
            if x is not y and not mergeable(x, y): return None
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]): n += 1
        ca, cb = And(*a.pc[n:]), And(*b.pc[n:])
        st = a.copy()
        st.pc = list(a.pc[:n])
        for k, f in b.ass.items(): st.ass.setdefault(k, f)
        for kd, d in b.pool.items():
            for k, t in d.items(): st.pool.setdefault(kd, {}).setdefault(k, t)
        seen = set(id(u[1]) for u in st.uf)
        for u in b.uf:
            if id(u[1]) not in seen: seen.add(id(u[1])); st.uf.append(u)
        st.loc = {k: (a.loc[k] if not m else self.simp_val(ite(ca, a.loc[k], b.loc[k]))) for k, m in keep.items()}
        for c in set(a.cells) | set(b.cells):
            if c in a.cells and c in b.cells:
                if a.cells[c] is not b.cells[c]: st.cells[c] = ite(ca, a.cells[c], b.cells[c])
            elif c in b.cells: st.cells[c] = b.cells[c]
        self._cur = st
        self.merge_heaps(st, [a.heap, b.heap], [ca, cb])
        d = simp(Or(ca, cb))
        if not z3.is_true(d): st.pc.append(d)
        self.stats.joined = getattr(self.stats, "joined", 0) + 1
        return st

    def simp_val(self, v):
        if is_z(v): return simp(v) if v.sort() in (z3.BoolSort(), z3.IntSort()) else v
        if isinstance(v, Enum):
            tag = v.tag
            if is_z(tag):
                tag = simp(tag)
                if z3.is_int_value(tag): tag = tag.as_long()
            return Enum(tag, v.pl)
        return v

    def same_locals(self, base, a, b):
        for k in base.loc:
            if a.loc.get(k) is not b.loc.get(k): return False
        for k in base.cells:
            if a.cells.get(k) is not b.cells.get(k): return False
        return True

    # pure evaluation of a closure: one merged outcome, no effect
    def eval_pure(self, st, f, args, allow_panic=False):
        s = st.copy()
        d = _depth[0]; _depth[0] = 0
        try: outs = self.call_value(s, f, args)
        finally: _depth[0] = d; _memo.clear()
        rets = [o for o in outs if o[0] == "ret"]
        pan = [o for o in outs if o[0] == "panic"]
        if pan: raise Unsupported(f"closure may panic: {pan[0][2]}")
        if len(rets) != 1: raise Unsupported("closure outcomes do not merge")
        s2 = rets[0][1]
        if s2.heap is not st.heap or s2.nalloc != st.nalloc: raise Unsupported("closure has effects")
        for k in st.loc:
            if s2.loc.get(k) is not st.loc.get(k): raise Unsupported("closure changes a local")
        facts = [f_ for k, f_ in s2.ass.items() if k not in st.ass] + s2.pc[len(st.pc):]
        return rets[0][2], facts, s2

    # ------------------------------------------------------------ node allocation, borrow
    def alloc(self, st, node):
        ref = I(-(st.nalloc + 1))
        st.nalloc += 1
        if isinstance(node, NodeView):
            vals = [self.read(st, node.heap, n, node.ref) for n, _ in self.fields]
        else:
            vals = node.f
        for (n, _), v in zip(self.fields, vals):
            st.heap = st.heap.write(n, ref, v)
        st.term("ref", ref)
        return ref

    def borrow(self, st, ref, mut):
        outs = []
        for g in st.guards:
            if not (mut or g.mut): continue
            c = simp(self.ref_eq(ref, g.ref, st))
            if z3.is_false(c): continue
            if z3.is_true(c) or self.feasible(st, c):
                s2 = st.copy(); s2.branch(c)
                outs.append(("panic", s2, "already borrowed"))
                if z3.is_true(c) or not self.feasible(st, Not(c)): return outs
                st.branch(Not(c))
        g = Guard(ref, mut)
        st.guards = st.guards + (g,)
        outs.append(("ret", st, g))
        return outs

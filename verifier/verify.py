"""Discharges the obligations of one function: every path of the code against its contract."""
import z3, time, itertools, re, os, json, select, ctypes
from vals import *
import engine, spec, ext
from spec import OneOf, S_, SPECS, LIVE, RANK, IDX

class Res:
    """outcome of verifying one function"""
    def __init__(self, name):
        self.name = name; self.obl = []; self.status = "ok"; self.why = ""; self.time = 0; self.solver_time = 0; self.solver_calls = 0
        self.paths = 0; self.reach = []; self.assumed = []; self.inlined = []; self.used = []; self.ext = []; self.file = ""; self.line = 0; self.loop_trouble = False; self.bounded = []
    def json(self): return dict(self.__dict__)

def setup_args(E, f, st):
    args = []
    for i in range(f["argc"]):
        args.append(mk_arg(E, f["locals"][i + 1], f"arg{i}", st))
    return args

def note_arg(E, st, v):
    """values handed in from outside: nodes are live and not allocated by this call"""
    return v

def mark_refs(E, st, ty, v):
    t = E.T[ty]
    while t["k"] == "ref":
        ty = t["e"]; t = E.T[ty]
    if t["k"] == "dyn" and is_z(v):
        E.mark_old(v); st.assume(LIVE(v)); st.assume(v >= 0); st.term("ref", v); return
    if t["k"] != "adt": return
    n = t["name"].split("::")[-1]
    if n in ("RcRefCell", "Rc", "WeakRefCell") and is_z(v):
        E.mark_old(v); st.term("ref", v)
        st.assume(v >= 0)
        if n != "WeakRefCell": st.assume(LIVE(v))
        E._cur = st
    elif n == "Option" and isinstance(v, Enum):
        mark_refs(E, st, t["args"][0], v.pl[1][0])

def mk_arg(E, ty, name, st):
    t = E.T[ty]
    if t["k"] == "ref":
        te = E.T[t["e"]]
        n = te["name"].split("::")[-1] if te["k"] == "adt" else ""
        if n == "NodeImpl":
            r = z3.Const(name, z3.IntSort()); E.mark_old(r); st.assume(r >= 0); st.assume(LIVE(r)); st.term("ref", r)
            return Ptr(("N", r)) if t["mut"] else NodeView(r, st.heap)
        if t["mut"]:
            if n == "Formatter":
                v = Struct([z3.Const("out0", z3.StringSort()), z3.Const("alternate", z3.BoolSort())])
            else:
                v = E.fresh(t["e"], name, st); mark_refs(E, st, t["e"], v)
            c = uid(); st.cells[c] = v
            return Ptr(("C", c))
    if t["k"] == "closure": raise Unsupported("closure parameter")
    if t["k"] == "adt" and t["name"].split("::")[-1] == "NodeImpl": raise Unsupported("node by value")
    v = E.fresh(ty, name, st); mark_refs(E, st, ty, v)
    return v

def veq(E, st, a, b):
    """formula: a equals b, with skolem indices / keys for sequences and maps (to be proved, so they are arbitrary)"""
    if a is b: return TRUE
    if isinstance(b, spec.Such):
        sx = S_(E, st, E.Heap0)
        return b.f(sx, spec.deref_arg(E, st, a))
    if isinstance(b, OneOf): return Or(*[veq(E, st, a, x) for x in b.xs])
    if isinstance(a, Iter) or isinstance(b, Iter): raise Unsupported("iterator comparison")
    if isinstance(a, SeqV):
        if not isinstance(b, SeqV): raise Unsupported("shape")
        if a.key is not None and a.key == b.key: return TRUE
        if a.key == ("empty",): return b.len == 0
        if b.key == ("empty",): return a.len == 0
        if a.z is not None and b.z is not None: return a.z == b.z
        j = z3.Const(fresh_name("skj"), z3.IntSort())
        E._cur = st
        st.term("idx", j)
        for d in (j - 1, j + 1): st.term("idx", d)
        lens = a.len == b.len
        x, y = a.at(j), b.at(j)
        return And(lens, Implies(And(j >= 0, j < a.len), veq(E, st, x, y)))
    if isinstance(a, MapV):
        if a.key is not None and a.key == b.key: return TRUE
        k = E.fresh(a.kty, "skk", st)
        E._cur = st
        st.term(f"key{a.kty}", k)
        return veq(E, st, a.get(k), b.get(k))
    if isinstance(a, Struct) and isinstance(b, Struct) and len(a.f) == len(b.f):
        return And(*[veq(E, st, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Enum) and isinstance(b, Enum):
        if not is_z(a.tag) and not is_z(b.tag):
            if a.tag != b.tag: return FALSE
            return And(*[veq(E, st, x, y) for x, y in zip(a.pl[a.tag], b.pl[b.tag])])
        cs = [tagterm(a) == tagterm(b)]
        for v in set(a.pl) | set(b.pl):
            if (not is_z(a.tag) and a.tag != v) or (not is_z(b.tag) and b.tag != v): continue
            if v not in a.pl or v not in b.pl:
                cs.append(And(Not(tag_is(a, v)), Not(tag_is(b, v)))) if (v in a.pl and a.pl[v]) or (v in b.pl and b.pl[v]) else None
                continue
            if a.pl[v]:
                cs.append(Implies(tag_is(a, v) if is_z(a.tag) else tag_is(b, v), And(*[veq(E, st, x, y) for x, y in zip(a.pl[v], b.pl[v])])))
        return And(*cs)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return veq(E, st, spec.deref_arg(E, st, a), spec.deref_arg(E, st, b))
    return eq(a, b)

def conj_parts(f):
    if z3.is_and(f): return [p for c in f.children() for p in conj_parts(c)]
    return [f]

class Prover:
    def __init__(self, E, res, timeout=20000):
        self.E = E; self.res = res; self.timeout = timeout
        self.trace = None
    def hyps(self, st):
        # two rounds: instances may mention new indices
        inst = self.E.instances(st)
        inst2 = self.E.instances(st)
        return st.hyps() + inst2
    def prove(self, st, goal, label):
        """-> 'ok' | 'failed' | 'unknown'"""
        goal = simp(goal) if is_z(goal) else goal
        self.res.obl.append([label, None, 0.0])
        rec = self.res.obl[-1]
        if z3.is_true(goal): rec[1] = "ok"; return "ok"
        t0 = time.time()
        hy = self.hyps(st)
        r, s = self.E.check(hy + [Not(goal)], self.timeout)
        rec[2] = round(time.time() - t0, 3)
        if r == z3.unsat: rec[1] = "ok"
        elif r == z3.sat:
            rec[1] = "failed"
            m = s.model()
            rec.append(self.model_text(m))
            rec.append("tainted" if st.uf and not self.confirmed(st, goal, m) else "definite")
        else: rec[1] = "unknown"
        return rec[1]
    def confirmed(self, st, goal, m):
        """the facts about all indices were only used at some of them: is there still a model when they hold at every index up to the largest one it speaks of?"""
        E = self.E
        try:
            st = st.copy(); E._cur = st
            if any(kind not in ("idx", "ref") for kind, _, _ in st.uf): return False
            done = -2
            for _ in range(4):
                vs = [m.eval(x, model_completion=True) for x in st.pool.get("idx", {}).values()]
                top = max([v.as_long() for v in vs if z3.is_int_value(v)] + [0])
                if top <= done: return True
                if top > 400: return False
                done = top + 1
                terms = {I(i).get_id(): I(i) for i in range(-1, done + 1)}
                s2 = st.copy()
                for x in terms.values(): s2.term("idx", x)
                hy = self.hyps(s2)
                r, s = E.check(hy + [Not(goal)], 10000)
                if r != z3.sat: return False
                m = s.model()
            return False
        except (Unsupported, z3.Z3Exception):
            return False
    def prove_many(self, goals, jobs):
        """goals: (thunk -> (state, goal), label); in forked processes when there are several"""
        if jobs <= 1 or len(goals) <= 1:
            for th, label in goals: self.prove(*th(), label)
            return
        todo = list(enumerate(goals)); run = {}; got = {}
        while todo or run:
            while todo and len(run) < jobs:
                i, (th, label) = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        try: ctypes.CDLL(None).prctl(1, 9)          # ends with its parent
                        except Exception: pass
                        self.res.obl = []
                        c0, t0 = self.E.stats.solver_calls, self.E.stats.solver_time
                        try: self.prove(*th(), label)
                        except Unsupported as e: self.res.obl = [("unsupported", str(e))]
                        data = json.dumps([self.res.obl[-1], self.E.stats.solver_calls - c0, self.E.stats.solver_time - t0]).encode()
                        while data: data = data[os.write(w, data):]
                    finally:
                        os._exit(0)
                os.close(w)
                run[r] = (i, pid, b"")
            for r in select.select(list(run), [], [])[0]:
                i, pid, buf = run[r]
                d = os.read(r, 65536)
                if d: run[r] = (i, pid, buf + d); continue
                os.close(r); os.waitpid(pid, 0); del run[r]
                got[i] = json.loads(buf) if buf else [[goals[i][1], "unknown", 0.0], 0, 0]
        for i in range(len(goals)):
            o, c, t = got[i]
            self.E.stats.solver_calls += c; self.E.stats.solver_time += t
            if o[0] == "unsupported": raise Unsupported(o[1])
            self.res.obl.append(o)
    def model_text(self, m):
        try:
            return "; ".join(sorted(f"{d.name()} = {m[d]}".replace("\n", " ")[:160] for d in m.decls() if d.arity() == 0))[:3000]
        except Exception as e:
            return repr(e)
    def sat(self, st, f):
        r, s = self.E.check(self.hyps(st) + [f], 3000, not self.E.joins)
        return r != z3.unsat

def verify(prog, name, timeout=20000, budget=None, opts=None):
    """verify every instance of the function `name` against its contract"""
    sp = SPECS[name]
    budget = budget or (600 if sp.joins else 240)
    fs = prog.fn(name)
    out = []
    if not fs:
        r = Res(name); r.status = "missing"; r.why = "no function of this name in the crate"; return [r]
    for f in fs:
        res = Res(f["short"]); res.private = sp.private; res.file = f["file"]; res.line = f["line"]
        t0 = time.time()
        E = engine.Engine(prog)
        spec.install(E)
        E.no_contract = {E.key(f)}
        E.want_allowed = sp.model
        E.deadline = time.time() + budget
        try:
            verify_one(E, f, sp, res, timeout)
        except Unsupported as e:
            res.status = "unsupported" if res.status == "ok" else res.status
            res.why = str(e)
        except RecursionError:
            res.status = "unsupported"; res.why = "recursion limit"
        if res.loop_trouble and res.status == "ok":
            # the invariant does not fit the loop as it is written: is the contract broken on short runs of it?
            res.bounded = run_out(prog, f, sp, timeout, budget)
            res.obl += res.bounded
        res.time = round(time.time() - t0, 2)
        res.solver_time = round(E.stats.solver_time, 2); res.solver_calls = E.stats.solver_calls
        res.assumed = sorted(E.stats.assumed); res.inlined = sorted(E.stats.inlined - {f["short"]}); res.used = sorted(E.stats.contracts_used)
        res.ext = sorted(E.stats.ext_used)
        bad = [o[1] for o in res.obl]
        if res.status == "ok":
            if "failed" in bad: res.status = "failed"
            elif "unknown" in bad: res.status = "unknown"
        elif "failed" in bad: res.status = "failed"
        out.append(res)
    return out

def run_out(prog, f, sp, timeout, budget):
    """failed obligations on the runs with at most two iterations of every loop (definite ones: a violation that does not depend on an invariant)"""
    r2 = Res(f["short"])
    E = engine.Engine(prog)
    spec.install(E)
    E.no_contract = {E.key(f)}
    E.want_allowed = sp.model
    E.deadline = time.time() + budget
    E.loop_inv = {}; E.bounded = True; E.unroll = 3
    try:
        verify_one(E, f, sp, r2, timeout)
    except (Unsupported, RecursionError):
        pass
    return [["(at most two iterations) " + o[0]] + o[1:] for o in r2.obl if o[1] == "failed" and o[-1] == "definite"]

def verify_one(E, f, sp, res, timeout):
    st = engine.State()
    E._cur = st
    args = setup_args(E, f, st)
    heap0 = st.heap
    s0 = S_(E, st, heap0)
    pre_vals = [spec.deref_arg(E, st, a) for a in args]
    if sp.pre is not None:
        p = sp.pre(s0, *pre_vals)
        st.assume(p)
        if E.check(st.hyps(), 3000)[0] == z3.unsat: raise Unsupported("vacuous precondition")
    E.joins = sp.joins
    if E.joins: timeout = max(timeout, 60000)
    if E.joins: E.feas_timeout = 150
    E.top = f; E.top_vals = pre_vals
    E.rec_contract = spec.ContractUse(sp, E.key(f)) if sp.measure else None
    E.pre_cells = dict(st.cells)
    rec = sp.loop(E, f, st, args) if hasattr(sp, "loop") else None
    E.stack = [f]
    outs = E.run_fn(f, args, st)
    E.stack = []
    outs = [o for o in outs]
    res.paths = len(outs)
    P = Prover(E, res, timeout)
    if not outs: raise Unsupported("no path returns")
    reached = set()
    ncases = 0
    for s, g, l in E.side:
        if P.prove(s, g, l) != "ok":
            res.loop_trouble = True
            if res.obl[-1][-1] == "definite": res.obl[-1][-1] = "tainted"
    for oi, (kind, s, v) in enumerate(outs):
        if E.deadline and time.time() > E.deadline: raise Unsupported("time budget exhausted")
        s = s.copy()
        E._cur = s
        sc = S_(E, s, heap0)
        cases = sp.fn(sc, *pre_vals)
        ncases = len(cases)
        prior = TRUE
        for ci, c in enumerate(cases):
            cond = And(prior, c.cond)
            prior = And(prior, Not(c.cond))
            if z3.is_false(simp(cond)): continue
            s2 = s.copy()
            s2.branch(simp(cond))
            if not P.sat(s2, TRUE): continue
            reached.add(ci)
            lab = f"path {oi + 1} ({'returns' if kind == 'ret' else 'panics: ' + str(v)}), case {ci + 1}{' ' + c.label if c.label else ''}"
            if kind == "panic":
                if c.panic: res.obl.append([lab, "ok", 0.0]); continue
                P.prove(s2, FALSE, lab + ": must not panic")
                continue
            if c.panic:
                P.prove(s2, FALSE, lab + ": must panic"); continue
            compare(E, P, s2, c, heap0, s.heap, v, args, lab, res)
    res.reach = [len(reached), ncases]
    if len(reached) < ncases:
        # cases that no path reaches are vacuous: harmless for soundness, reported
        pass

def compare(E, P, st, case, heap0, heap1, v, args, lab, res):
    """the code ended in heap1 with v; the contract prescribes the effect of `case` on heap0"""
    nimpl = st.nalloc
    impl_news = list(range(nimpl))
    # how many nodes does the contract allocate?
    probe = S_(E, st.copy(), heap0, lambda q: I(-(5000 + len(q.newrefs))))
    E._cur = probe.st
    case.eff(probe)
    m = len(probe.newrefs)
    perms = list(itertools.permutations(impl_news, m)) if m <= nimpl else []
    if not perms:
        res.obl.append([lab + f": the contract creates {m} nodes, the code {nimpl}", "failed", 0.0, "", "definite"]); return
    def fits(perm):
        """the nodes are of the types the contract gives them"""
        s = st.copy()
        E._cur = s
        sx = S_(E, s, heap0, lambda q: I(-(perm[len(q.newrefs)] + 1)))
        case.eff(sx)
        for r in sx.newrefs:
            a, b = E.read(s, heap1, "i_node_type", r), E.read(s, sx.heap, "i_node_type", r)
            if not is_z(a.tag) and not is_z(b.tag) and a.tag != b.tag: return False
        return True
    if len(perms) > 1: perms = [p for p in perms if fits(p)] or perms[:1]
    nprev = len(res.obl)
    for pi, perm in enumerate(perms[:6]):
        del res.obl[nprev:]
        s = st.copy()
        E._cur = s
        sx = S_(E, s, heap0, lambda q: I(-(perm[len(q.newrefs)] + 1)))
        want = case.eff(sx)
        goals = []
        if want is not None:
            goals.append(("result", v, want))
        for f_ in set(heap1.w) | set(sx.heap.w):
            refs = {}
            for r, _ in heap1.w.get(f_, ()) + sx.heap.w.get(f_, ()):
                if z3.is_int_value(r) and r.as_long() < 0 and not any(r.eq(x) for x in sx.newrefs): continue
                if isinstance(r, Bulk):
                    r = z3.Const(f"some_node_{f_}", z3.IntSort())          # any but those made here, which are compared one by one
                    s.assume(Or(r >= 0, r < -nimpl - 1000))
                refs.setdefault(r.get_id(), r)
            for r in refs.values():
                E._cur = s
                a = E.read(s, heap1, f_, r); b = E.read(s, sx.heap, f_, r)
                goals.append((f"{f_} of {str(r)[:60]} afterwards", a, b))
        for k in range(len(args)):
            if isinstance(args[k], Ptr) and args[k].root[0] == "C":
                cur = E.loc_read(st, args[k])
                exp = sx.outs.get(k, case_pre_cell(E, args[k]))
                if exp is None: continue
                goals.append((f"argument {k} afterwards", cur, exp))
        if len(perms[:6]) == 1:
            def thunk(a, b):
                def go():
                    s3 = s.copy()
                    E._cur = s3
                    return s3, veq(E, s3, a, b)
                return go
            P.prove_many([(thunk(a, b), f"{lab}: {l}") for l, a, b in goals], 8 if E.joins else 1)
            return
        okall = True
        for (l, a, b) in goals:
            s3 = s.copy()                       # the arbitrary index or key of one goal is no business of the others
            E._cur = s3
            r = P.prove(s3, veq(E, s3, a, b), f"{lab}: {l}")
            if r != "ok": okall = False
            if r != "ok" and pi + 1 < len(perms[:6]): break
        if okall: return

def case_pre_cell(E, ptr):
    return E.pre_cells.get(ptr.root[1])

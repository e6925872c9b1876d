"""Loops that run through a sequence and collect into one place (a String, a Vec or the Formatter).

The invariant is given by the contract of the function under verification, in terms of the iteration and not of the
code's variables: FOLDS[function](S, iterator, value collected at entry) -> (acc, unfold), where acc(i) is the value collected
after i items and unfold(i) the definition of acc at i + 1.  The handler shows that acc(0) holds at entry and that one arbitrary
iteration takes acc(i) to acc(i + 1), moves the iterator by one and changes nothing else; the rank is the number of items left."""
import z3
from vals import *
import ext, spec, verify
from spec import LOOPS, S_, loop

FOLDS = {}
def fold(*names):
    def d(f):
        for n in names: FOLDS[n] = f
        return f
    return d

def acc_value(E, v):
    """the collected part of an accumulator: of a Formatter its output"""
    if isinstance(v, Struct) and len(v.f) == 2 and is_z(v.f[0]) and v.f[0].sort() == z3.StringSort(): return v.f[0]
    return v
def with_acc(E, old, v):
    if isinstance(old, Struct): return Struct([v, old.f[1]])
    return v

def positioned(it, i):
    """the iterator after i more items"""
    if it.kind == "seq": return Iter(it.seq, simp(it.pos + i))
    if it.kind == "enum": return Iter(None, simp(it.pos + i), "enum", positioned(it.aux, i))
    raise Unsupported(f"loop over {it.kind}")

def at_pos(a, b):
    """the two iterators are at the same place of the same sequence"""
    if a.kind != b.kind: return FALSE
    if a.kind == "seq": return a.pos == b.pos if (a.seq is b.seq or (a.seq.key is not None and a.seq.key == b.seq.key)) else FALSE
    return And(a.pos == b.pos, at_pos(a.aux, b.aux))

def find(E):
    t = getattr(E, "top", None)
    return FOLDS.get(E.key(t)) if t is not None else None

@loop("*")
def handler(E, fn, fid, head, body, st):
    f = find(E)
    if f is None: return bulk(E, fn, fid, head, body, st)
    asg = E.assigned(fn, body)
    its = [l for l in asg if isinstance(st.loc.get((fid, l)), Iter)]
    if len(its) != 1: raise Unsupported("loop with another iteration than one sequence")
    L = its[0]
    it = ext.ordered(E, st, st.loc[(fid, L)])
    cells = [c for c, v in st.cells.items() if isinstance(v, Struct) and len(v.f) == 2 and is_z(v.f[0]) and v.f[0].sort() == z3.StringSort() and c in E.pre_cells]
    locs = [l for l in asg if l != L and (fid, l) in st.loc and (E.adt_name(fn["locals"][l]) in ("String", "Vec"))
            and used_outside(E, fn, body, l)]
    if len(locs) + len(cells) == 0: raise Unsupported("loop that collects nothing")
    if len(locs) > 1: raise Unsupported("loop with several accumulators")
    # a loop in a function that has both writes into its own string
    if locs: get = lambda s: s.loc[(fid, locs[0])]
    else: get = lambda s: s.cells[cells[0]]
    def put(s, v):
        if locs: s.loc[(fid, locs[0])] = v
        else: s.cells[cells[0]] = v
    if not locs and len(cells) != 1: raise Unsupported("loop with several accumulators")
    entry = get(st)
    E._cur = st
    acc, unfold, *more = f(S_(E, st, st.heap), it, acc_value(E, entry))
    more = more[0] if more else {}
    n = ext.length(it)
    # a second value carried along: a place (usize)
    also = more.get("place")
    places = [l for l in asg if also and (fid, l) in st.loc and is_z(st.loc[(fid, l)]) and st.loc[(fid, l)].sort() == z3.IntSort() and used_outside(E, fn, body, l)]
    if also:
        if len(places) != 1: raise Unsupported("loop with several places")
        E.side.append((st.copy(), st.loc[(fid, places[0])] == also(I(0)), "the place before the loop"))
    for x in unfold(I(0), S_(E, st, st.heap)): st.assume(x)
    E.side.append((st.copy(), verify.veq(E, st, acc_value(E, entry), acc(I(0))), "collected before the loop"))
    s = st.copy()
    E._cur = s
    i = z3.Const(fresh_name("iter"), z3.IntSort())
    s.term("idx", i)
    s.assume(And(i >= 0, i <= n))
    for l in asg:
        if l != L and l not in locs and (fid, l) in s.loc and not isinstance(s.loc[(fid, l)], Ptr): del s.loc[(fid, l)]
    s.loc[(fid, L)] = positioned(it, i)
    put(s, with_acc(E, entry, acc(i)))
    if also: s.loc[(fid, places[0])] = also(i)
    for x in unfold(i, S_(E, s, s.heap)) if also else []: s.assume(x)
    # what held of every item so far
    passed = more.get("passed")
    if passed: s.forall("idx", lambda t: Implies(And(t >= 0, t < i), passed(t)))
    heap0, nalloc0, guards0 = s.heap, s.nalloc, s.guards
    loc0, cells0 = dict(s.loc), dict(s.cells)
    back, exits, outs = E.run_body(fn, fid, head, body, s)
    for b in back:
        if b.heap is not heap0 or b.nalloc != nalloc0: raise Unsupported("loop changes a node")
        for c, v in cells0.items():
            if b.cells.get(c) is not v and not (not locs and c == cells[0]) and not same_val(b.cells.get(c), v): raise Unsupported("loop changes something else")
        for k, v in loc0.items():
            if k == (fid, L) or (locs and k == (fid, locs[0])) or (also and k == (fid, places[0])): continue
            if k[0] != fid and b.loc.get(k) is not v: raise Unsupported("loop changes another function's local")
        E._cur = b
        for x in unfold(i, S_(E, b, b.heap)): b.assume(x)
        j = b.loc.get((fid, L))
        if not isinstance(j, Iter): raise Unsupported("loop loses its iterator")
        if also: E.side.append((b, b.loc[(fid, places[0])] == also(simp(i + 1)), "the place after one iteration"))
        if passed: E.side.append((b, passed(i), "the item is as the contract says"))
        E.side.append((b, And(i < n, at_pos(j, positioned(it, simp(i + 1)))), "one iteration takes one item"))
        E.side.append((b, verify.veq(E, b, acc_value(E, get(b)), acc(simp(i + 1))), "one iteration collects what the contract says"))
    return [("cont", bb, q) for bb, q in exits] + outs

def same_val(a, b):
    try: return z3.is_true(simp(eq(a, b)))
    except Unsupported: return False

def used_outside(E, fn, body, l):
    """the local is read after the loop or before it (not a temporary of one iteration)"""
    import specs_node
    return any(specs_node.uses(fn, bb, l) for bb in range(len(fn["blocks"])) if bb not in body)

# ---------------------------------------------------------------- loops that write the same to every node of a sequence
def member(E, st, seq):
    """r -> r is in the sequence (a formula); equal sequences give the same formula"""
    memo = E.__dict__.setdefault("members", {})
    s0 = dict(st.ass)
    E._cur = st
    j = z3.Const("bulk_probe", z3.IntSort())
    key = (simp(seq.len).get_id(), z3.simplify(seq.at(j)).get_id())
    keep = (simp(seq.len), z3.simplify(seq.at(j)))
    st.ass.clear(); st.ass.update(s0)
    if key not in memo:
        memo[key] = (z3.Function(fresh_name("member"), z3.IntSort(), z3.BoolSort()), z3.Function(fresh_name("where"), z3.IntSort(), z3.IntSort()), keep)
    IN, W, _ = memo[key]
    n = seq.len
    st.forall("idx", lambda t: Implies(And(t >= 0, t < n), IN(seq.at(t))))
    def back(r):
        if z3.is_int_value(r) and r.as_long() < 0 and False: return None
        w = W(r)
        E._cur.term("idx", w)
        return Implies(IN(r), And(w >= 0, w < n, seq.at(w) == r))
    st.forall("ref", back)
    return lambda r: IN(r)

def map_member(E, st, m):
    """r -> r is a value of the map"""
    memo = E.__dict__.setdefault("mmembers", {}); probes = E.__dict__.setdefault("probes", {})
    if m.kty not in probes: probes[m.kty] = E.fresh(m.kty, "probe", st)
    s0 = dict(st.ass)
    E._cur = st
    ent = m.get(probes[m.kty])
    ask = z3.simplify(z3.If(tag_is(ent, 1), ent.pl[1][0], I(-999999)))
    st.ass.clear(); st.ass.update(s0)
    if ask.get_id() not in memo: memo[ask.get_id()] = (z3.Function(fresh_name("mmember"), z3.IntSort(), z3.BoolSort()), fresh_name("mkey"), ask)
    IN, tok, _ = memo[ask.get_id()]
    def forth(k):
        ent = m.get(k)
        return Implies(tag_is(ent, 1), IN(ent.pl[1][0]))
    st.forall(f"key{m.kty}", forth)
    def back(r):
        k = E.build(m.kty, lambda p, srt, xs=(): z3.Function(tok + p, *([z3.IntSort()] + [x.sort() for x in xs] + [srt]))(r, *xs), E._cur, "", lambda f: E._cur.assume(f))
        ent = m.get(k)
        return Implies(IN(r), And(tag_is(ent, 1), ent.pl[1][0] == r))
    st.forall("ref", back)
    return lambda r: IN(r)

def bulk(E, fn, fid, head, body, st):
    """for x in xs { x.field = v }: afterwards the field of every node of xs is v, and nothing else has changed.
    Shown of one arbitrary iteration, after an arbitrary set of nodes has been written."""
    asg = E.assigned(fn, body)
    its = [l for l in asg if isinstance(st.loc.get((fid, l)), Iter)]
    if len(its) != 1: return None
    L = its[0]
    it0 = st.loc[(fid, L)]
    if it0.kind == "seq" and ext.short_len(it0.seq.len) is not None: return None
    if it0.kind not in ("seq", "mapvals"): return None
    if it0.kind == "mapvals":
        # each value once, in some order
        m = it0.seq
        nv = z3.Const(fresh_name("values"), z3.IntSort())
        tok = fresh_name("keyof")
        def at(i):
            k = E.build(m.kty, lambda p, srt, xs=(): z3.Function(tok + p, *([z3.IntSort()] + [x.sort() for x in xs] + [srt]))(i, *xs), E._cur, "", lambda f: E._cur.assume(f))
            ent = m.get(k)
            E._cur.assume(Implies(And(i >= 0, i < nv), tag_is(ent, 1)))
            return ent.pl[1][0]
        st.assume(And(nv >= 0, nv <= ext.ISIZE))
        it = Iter(SeqV(nv, at, key=("values", tok)), it0.pos)
    else: it = it0
    n = it.seq.len
    heap0 = st.heap
    i = z3.Const(fresh_name("iter"), z3.IntSort())
    def start(writes, pos, extra=()):
        s = st.copy()
        E._cur = s
        for x in extra: s.assume(x)
        s.term("idx", i)
        for l in asg:
            if l != L and (fid, l) in s.loc and not isinstance(s.loc[(fid, l)], Ptr): del s.loc[(fid, l)]
        s.loc[(fid, L)] = positioned(it, pos)
        h = heap0
        for f, (target, v) in writes.items(): h = h.write(f, target, v)
        s.heap = h
        return s
    rng = And(it.pos + i >= 0, i >= 0, it.pos + i < n)
    def iteration(writes):
        s = start(writes, i)
        s.branch(rng)
        h, na = s.heap, s.nalloc
        loc0, cells0 = dict(s.loc), dict(s.cells)
        back, exits, outs = E.run_body(fn, fid, head, body, s)
        got = None
        for b in back:
            if not E.feasible(b): continue
            if b.nalloc != na: raise Unsupported("loop makes nodes")
            for c, v in cells0.items():
                if b.cells.get(c) is not v and not same_val(b.cells.get(c), v): raise Unsupported("loop changes something else")
            for k, v in loc0.items():
                if k == (fid, L): continue
                if k[0] != fid and b.loc.get(k) is not v: raise Unsupported("loop changes another function's local")
            j = b.loc.get((fid, L))
            if not isinstance(j, Iter): raise Unsupported("loop loses its iterator")
            E.side.append((b, at_pos(j, positioned(it, simp(i + 1))), "one iteration takes one item"))
            w = {}
            for f in set(h.w) | set(b.heap.w):
                pre, post = h.w.get(f, ()), b.heap.w.get(f, ())
                if post is pre: continue
                if len(post) != len(pre) + 1 or any(x is not y for x, y in zip(pre, post)): raise Unsupported("loop writes to several nodes")
                w[f] = post[-1]
            for f, (r, v) in w.items():
                E._cur = b
                E.side.append((b, it.seq.at(simp(it.pos + i)) == r, f"one iteration writes {f} of its item"))
                if i.get_id() in [x.get_id() for l in leaves_of(v) for x in consts(l)]: raise Unsupported("loop writes different values")
            if got is not None and (set(got) != set(w) or any(not same_val(got[f][1], w[f][1]) for f in w)): raise Unsupported("loop with several effects")
            got = w
        for o in outs:
            if o[0] != "ret" or E.feasible(o[1]): raise Unsupported(f"loop leaves the function: {o[0]} {str(o[2])[:100]}")
        for bb, q in exits:
            if E.feasible(q): raise Unsupported("loop ends early")
        return got
    w = iteration({})
    if not w: raise Unsupported("loop without effect")
    DONE = z3.Function(fresh_name("done"), z3.IntSort(), z3.BoolSort())
    w2 = iteration({f: (Bulk(lambda r: DONE(r)), v) for f, (_, v) in w.items()})
    if not w2 or set(w2) != set(w) or any(not same_val(w[f][1], w2[f][1]) for f in w): raise Unsupported("iterations depend on each other")
    sub = SeqV(simp(n - it.pos), lambda k: it.seq.at(simp(k + it.pos))) if not z3.is_true(simp(it.pos == 0)) else it.seq
    s = start({}, simp(n - it.pos))
    IN = member(E, s, sub) if it0.kind == "seq" else map_member(E, s, it0.seq)
    for f, (_, v) in w.items(): s.heap = s.heap.write(f, Bulk(IN), v)
    back, exits, outs = E.run_body(fn, fid, head, body, s)
    if any(E.feasible(b) for b in back): raise Unsupported("loop goes on after its last item")
    return [("cont", bb, q) for bb, q in exits] + outs

def leaves_of(v):
    if is_z(v): return [v]
    if isinstance(v, Struct): return [l for x in v.f for l in leaves_of(x)]
    if isinstance(v, Enum): return ([v.tag] if is_z(v.tag) else []) + [l for k in v.pl for x in v.pl[k] for l in leaves_of(x)]
    if isinstance(v, (SeqV, MapV)): return []
    raise Unsupported("loop writes a complex value")
def consts(t):
    seen = {}; todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen[x.get_id()] = x; todo += x.children()
    return list(seen.values())

#!/usr/bin/env python3
"""check PROPERTY [quick|thorough]: decides one property on /repo's current working tree.

1. rebuild: the MIR of /repo's crate is dumped by a rustc driver built from /verif/mirdump, and the reference-model harness
   is built against /repo's crate;
2. prove: every function under contract for the property is verified against its contract (z3), function by function;
3. bounded: the harness runs generated histories on the real code, for witnesses and for what no contract covers.

exit 0: quiet; exit 1 and a VIOLATION line: broken; 2: no answer (nothing could be built)."""
import json, os, subprocess, sys, time, signal, threading, shutil, tempfile, multiprocessing, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "verifier"))
BUILD = os.path.join(VERIF, "build")

def sh(cmd, env=None, cwd=None, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout

def build_harness(out):
    try:
        rc, o = sh("cargo build --release --offline 2>&1", cwd=f"{VERIF}/harness", env={"RUSTFLAGS": "", "CARGO_TARGET_DIR": f"{VERIF}/harness/target"})
        out["harness"] = (rc == 0, o[-3000:])
    except Exception as e: out["harness"] = (False, repr(e))

def build_mir(out):
    try:
        rc, o = sh("cargo +nightly build --release --offline 2>&1", cwd=f"{VERIF}/mirdump", env={"RUSTFLAGS": "", "CARGO_TARGET_DIR": f"{VERIF}/mirdump/target"})
        if rc: out["mir"] = (False, "driver: " + o[-3000:]); return
        rc, root = sh("rustc +nightly --print sysroot")
        mir = f"{BUILD}/mir-{os.getpid()}.json"
        env = {"LD_LIBRARY_PATH": root.strip() + "/lib", "RUSTC_WORKSPACE_WRAPPER": f"{VERIF}/mirdump/target/release/mirdump", "MIRDUMP_CRATE": "xml_dom",
               "MIRDUMP_OUT": mir, "MIRDUMP_STD": "core::option::Option,std::option::Option,core::result::Result,std::result::Result",
               # a fresh cfg value makes cargo compile the crate again whatever it remembers
               "RUSTFLAGS": f"-Zmir-opt-level=0 --cfg run_{os.getpid()}_{int(time.time())}"}
        rc, o = sh(f"cargo +nightly check --lib --no-default-features --offline --target-dir {BUILD}/mirt 2>&1", cwd=REPO, env=env)
        if rc or not os.path.exists(mir): out["mir"] = (False, o[-3000:]); return
        out["mir"] = (True, mir)
    except Exception as e: out["mir"] = (False, repr(e))

# ------------------------------------------------------------------------------------------------ proofs
ASSUMED = {}
WRITERS = []
LATER = set()
def writers(prog, specs):
    """the functions of the crate that borrow a node mutably and are not under contract themselves"""
    under = {n for n, s in specs.items() if not s.assumed}
    r = []
    for name, f in prog.fns.items():
        if not f["local"] or name.endswith("::borrow_mut"): continue
        if any(b["t"][0] == "call" and isinstance(b["t"][1], dict) and b["t"][1].get("def", "").endswith("RefCell::<T>::borrow_mut") for b in f["blocks"]):
            sh = f["short"]
            if sh not in under and not any(sh.startswith(u + "::") for u in under): r.append(sh)
    return sorted(set(r))
def prove_task(args):
    i, name, budget = args
    import verify, lemmas
    try:
        if name in lemmas.LEMMAS: return i, [r.json() for r in lemmas.prove_lemma(PROG, name, budget)]
        return i, [r.json() for r in verify.verify(PROG, name, budget=budget)]
    except BaseException as e:
        import traceback
        return i, [{"name": name, "status": "unsupported", "why": "internal: " + repr(e), "obl": [], "trace": traceback.format_exc()[-1500:]}]

def prove(prop, mir, budget, tier):
    """-> list of results; functions that do not finish in time are reported as timeout"""
    global PROG
    import mir as mirmod, spec, allspecs, lemmas
    t0 = time.time()
    PROG = mirmod.Program(mir)
    todo = {**spec.SPECS, **lemmas.LEMMAS}
    names = [n for n, s in todo.items() if prop in s.props and not s.assumed and (tier == "thorough" or not s.slow)]
    if tier != "thorough": LATER.update(n for n, s in todo.items() if prop in s.props and s.slow)
    names.sort(key=lambda n: -getattr(todo[n], "cost", 1))
    WRITERS[:] = writers(PROG, spec.SPECS)
    out = []
    done = set()
    while names:
        # the property's functions, then the callees whose contracts they relied on
        out += prove_batch(names, budget, t0)
        done |= set(names)
        names = sorted(({u for r in out for u in r.get("used", [])} & set(spec.SPECS)) - done)
        ASSUMED.update({n: spec.SPECS[n].assumed for n in names if spec.SPECS[n].assumed})
        LATER.update(n for n in names if spec.SPECS[n].slow and tier != "thorough")
        names = [n for n in names if not spec.SPECS[n].assumed and (tier == "thorough" or not spec.SPECS[n].slow)]
    return out, time.time() - t0

def prove_batch(names, budget, t0):
    res = [None] * len(names)
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(min(8, len(names)))
    try:
        it = pool.imap_unordered(prove_task, [(i, n, budget) for i, n in enumerate(names)], 1)
        for _ in names:
            left = budget - (time.time() - t0)
            try: i, r = it.next(timeout=max(0.1, left))
            except multiprocessing.TimeoutError: break
            res[i] = r
    finally:
        pool.terminate(); pool.join()
    out = []
    for n, r in zip(names, res):
        out += r if r is not None else [{"name": n, "status": "timeout", "why": "time budget of the check", "obl": []}]
    return out

# ------------------------------------------------------------------------------------------------ harness
def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))

DICT = None
def run_harness(prop, secs, seed, tag):
    """-> dict(status quiet|witness|crash|none, file, stats)"""
    exe = f"{VERIF}/harness/target/release/harness"
    base = f"{BUILD}/h-{prop}-{os.getpid()}-{tag}"
    rep = f"{BUILD}/replay/{prop}-{tag}.txt"
    for f in (rep, base + ".stats"):
        if os.path.exists(f): os.remove(f)
    cmd = [exe, "--property", prop, "--secs", str(secs), "--seed", str(seed), "--out", rep, "--stats", base + ".stats", "--state", base + ".state"]
    if DICT: cmd += ["--dict", DICT]
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=secs + 60, preexec_fn=limit)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "hang"
    stats = {}
    try: stats = json.load(open(base + ".stats"))
    except Exception: pass
    try:
        if rc == 0: return {"status": "quiet", "stats": stats}
        if rc == 10: return {"status": "witness", "file": rep, "stats": stats}
        # it died or hangs: find the history that does it
        died = []
        procs = []
        for t in range(8):
            try: s, i = open(f"{base}.state.{t}").read().split()[:2]
            except Exception: continue
            tr = f"{base}.trace.{t}"
            c = [exe, "--property", prop, "--iteration", i, "--seed-exact", s, "--trace", tr, "--out", f"{base}.rep.{t}"] + (["--dict", DICT] if DICT else [])
            procs.append((t, s, i, tr, c, subprocess.Popen(c, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=limit)))
        end = time.time() + 25
        for t, s, i, tr, c, p in procs:
            try: r = p.wait(timeout=max(0.2, end - time.time())); e = p.stderr.read().decode(errors="replace")[-300:]
            except subprocess.TimeoutExpired: p.kill(); p.wait(); r = "hang"; e = ""
            if r not in (0, 10): died.append((t, s, i, tr, c, r, e))
        for t, s, i, tr, c, r, e in died:
            lines = open(tr, errors="replace").read().splitlines() if os.path.exists(tr) else []
            props = lines[-1].split("\t")[-1].split() if lines else []
            if prop in props:
                with open(rep, "w") as f:
                    f.write(f"property {prop}\nkind: the call does not return ({'it runs for ever' if r == 'hang' else 'the process ends abnormally: ' + str(r)})\n{e}\n\nthe calls, in order; the last one does it:\n")
                    f.write("\n".join("  " + l.split("\t")[0] for l in lines if l.startswith("[") or l is lines[-1]) + "\n\nreplay: " + " ".join(c) + "\n")
                return {"status": "witness", "file": rep, "stats": stats}
        return {"status": "crash", "stats": stats, "note": f"harness ended with {rc}; {len(died)} histories reproduce it, none concerns {prop}"}
    finally:
        import glob
        for f in glob.glob(base + "*"):
            try: os.remove(f)
            except OSError: pass

TRUSTED = [
    "rustc's MIR (nightly, -Zmir-opt-level=0) is what the crate runs; /verif/mirdump writes it out faithfully",
    "the symbolic executor /verif/verifier/{mir,engine,ext,vals}.py and its models of the standard library calls listed under 'library models'",
    "z3 (unsat answers)",
    "the well-formedness facts of /verif/verifier/spec.py hold in every reachable state (what each mutating function's contract must keep; see DESIGN.md)",
    "reference counting is modelled as: a reference reachable from an argument is live; weak references of other nodes may be dead",
    "log macros, Debug output and drop glue are treated as having no effect; machine arithmetic on usize is checked for overflow by the MIR assertions themselves",
]

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD + "/replay", exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    b = {}
    ths = [threading.Thread(target=build_harness, args=(b,)), threading.Thread(target=build_mir, args=(b,))]
    [t.start() for t in ths]; [t.join() for t in ths]
    okh, msgh = b["harness"]; okm, msgm = b["mir"]
    if not okh and not okm:
        print(msgh, msgm, sep="\n"); print(f"{prop}: neither the harness nor the verifier could be built from {REPO}"); return 2
    quick = tier == "quick"
    plan = PLAN.get(prop, {})
    hs, pt, pnote = None, 0.0, None
    witness = None
    stats = {"evaluations": 0, "distinct": 0, "samples": []}
    def bounded(secs, sd, tag):
        nonlocal witness
        h = run_harness(prop, secs, sd, tag)
        for k in ("evaluations", "distinct"): stats[k] += h.get("stats", {}).get(k, 0)
        stats["samples"] = (stats["samples"] + h.get("stats", {}).get("samples", []))[:6]
        if h["status"] == "witness": witness = h["file"]
        if h.get("note"): print(h["note"])
        return h
    if okm:
        global DICT
        try:
            import consts
            consts.write(msgm, f"{BUILD}/replay/{prop}-dict.txt"); DICT = f"{BUILD}/replay/{prop}-dict.txt"
        except Exception as e: print("no dictionary:", e)
    if okh:
        h = bounded(plan.get("secs", 6) if quick else 150, seed, "a")
        if h["status"] == "crash":
            for k in range(2):
                h = bounded(5, seed + 100 + k, "a")
                if h["status"] != "crash": break
    else:
        print("harness not built:\n" + msgh)
    proofs = []
    if okm and witness is None:
        proofs, pt = prove(prop, msgm, plan.get("budget", 100) if quick else 1500, tier)
    failed = []
    for r in proofs:
        for o in r["obl"]:
            if o[1] == "failed" and o[-1] == "definite" and not r.get("private"): failed.append((r, o))
    if failed and okh and witness is None:
        bounded(40 if quick else 120, seed + 7, "b")
    if okm:
        try: os.remove(msgm)
        except OSError: pass
    nobl = sum(len(r["obl"]) for r in proofs)
    nok = sum(1 for r in proofs for o in r["obl"] if o[1] == "ok")
    verified = [r for r in proofs if r["status"] == "ok"]
    cov = {
        "obligations": nobl, "discharged": nok, "checker_cmd": f"./check {prop} {tier}", "trusted_base": TRUSTED,
        "back_end": "z3 " + z3version(),
        "functions_under_contract": [{"function": r["name"], "status": r["status"], "obligations": len(r["obl"]), "discharged": sum(1 for o in r["obl"] if o[1] == "ok"),
                                      "paths": r.get("paths"), "contract_cases_reached": r.get("reach"), "inlined": r.get("inlined"), "callee_contracts": r.get("used"),
                                      "time_s": r.get("time"), "solver_s": r.get("solver_time"), "why": r.get("why", "")} for r in proofs],
        "verified_functions": len(verified), "proof_wall_s": round(pt, 2), "solver_s": round(sum(r.get("solver_time", 0) or 0 for r in proofs), 2),
        "library_models": sorted({x for r in proofs for x in r.get("ext", [])}),
        "lemmas": "the entries 'lemma: ...' above show, of the contracts, that the operation keeps the clauses of the well-formedness invariant",
        "writers_without_own_contract": WRITERS,
        "unproved": [f"{r['name']}: {r['status']} {r['why']}" for r in proofs if r["status"] != "ok"],
        "bounded": "the harness part below is a bounded check, not a proof",
        "evaluations": stats["evaluations"], "distinct_nontrivial": stats["distinct"],
        "rule": "bounded part: generated histories of public calls (12-62 calls, at most 28 live nodes, name/URI/value pools; plus systematic enumerations for C11-C15, C24-C26, C28) on the real code, every node compared with the reference model after each call; distinct = different (call with arguments, tree shape) pairs",
        "samples": stats["samples"] or ["none"],
        "explanation": "deductive part: obligations of the listed functions; bounded part: evaluations are calls compared with the model",
    }
    assumptions = [f"contract of {n} is used but its body is out of the verifier's reach ({w}); the harness checks it (bounded)" for n, w in sorted(ASSUMED.items())] + [f"{n} is verified in the thorough tier only; this run relies on its contract" for n in sorted(LATER)] + sorted({a for r in proofs for a in r.get("assumed", [])}) + ([] if okm else ["the MIR of this tree could not be produced, so nothing was proved: " + msgm[-300:]])
    rc = 0
    if witness:
        print(open(witness, errors="replace").read()[:3000])
        print(f"VIOLATION property={prop} replay={witness}")
        rc = 1
    elif failed:
        rep = f"{BUILD}/replay/{prop}-obligation.txt"
        with open(rep, "w") as f:
            f.write(f"property {prop}\nfailed obligations of the contracts of /verif/verifier, no failing input found by the harness\n")
            for r, o in failed:
                f.write(f"\nfunction {r['name']} ({r.get('file')}:{r.get('line')})\n  obligation: {o[0]}\n  z3: sat\n  model: {o[3]}\n")
        print(f"failed obligation: {failed[0][0]['name']}: {failed[0][1][0]}")
        print(f"VIOLATION property={prop} replay={rep} no-failing-input-found")
        rc = 1
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "proof" if verified else "exploration"), "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if rc else 0}
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f: json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(verified)}/{len(proofs)} functions verified, {nok}/{nobl} obligations, {stats['evaluations']} bounded evaluations, {ev['wall_s']} s" + (f"; not proved: {cov['unproved']}" if cov["unproved"] else ""))
    return rc

def z3version():
    import z3
    return z3.get_version_string()

from levels import LEVEL, PLAN
if __name__ == "__main__":
    try: rc = main()
    except SystemExit: raise
    sys.exit(rc)

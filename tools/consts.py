"""The constants of the crate's code that the baseline list (written for the pinned tree) does not have.  They only steer the generator of the
bounded part towards inputs the code treats specially; no verdict depends on them."""
import json, os
BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline_consts.json")

def collect(mir):
    d = json.load(open(mir))
    strs, ints = set(), set()
    def walk(x):
        if isinstance(x, dict):
            if isinstance(x.get("t"), int) and isinstance(x.get("v"), dict) and d["types"][x["t"]]["k"] == "char":
                c = x["v"].get("int", x["v"].get("char"))
                c = ord(c) if isinstance(c, str) else c
                if isinstance(c, int) and c < 0x110000 and not 0xD800 <= c < 0xE000: strs.add(chr(c))
            if isinstance(x.get("str"), str): strs.add(x["str"])
            if isinstance(x.get("char"), int): ints.add(x["char"])
            elif isinstance(x.get("char"), str) and len(x["char"]) == 1: ints.add(ord(x["char"]))
            if isinstance(x.get("int"), int) and not isinstance(x.get("int"), bool): ints.add(x["int"])
            for k, v in x.items():
                if k != "array": walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    for f in d["fns"]:
        if not f["local"]: continue
        walk(f["blocks"])
        for b in f["blocks"]:
            if b["t"][0] == "switch": ints.update(v for v, _ in b["t"][2] if isinstance(v, int))
    return strs, {i for i in ints if 0 <= i < 2**63}

def write(mir, out):
    base = json.load(open(BASE)) if os.path.exists(BASE) else {"strs": [], "ints": []}
    strs, ints = collect(mir)
    with open(out, "w") as f:
        for s in sorted(strs - set(base["strs"])): f.write("S " + s.encode("utf-8", "replace").hex() + "\n")
        for i in sorted(ints - set(base["ints"])): f.write(f"I {i}\n")

if __name__ == "__main__":
    import sys
    s, i = collect(sys.argv[1])
    json.dump({"strs": sorted(s), "ints": sorted(i)}, open(BASE, "w"), indent=0)

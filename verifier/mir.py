"""The program under verification: MIR of the crate, as dumped from /repo by /verif/mirdump."""
import json, re

RN_LONG = ["xml_dom::shared::rc_cell::RcRefCell<xml_dom::level2::node_impl::NodeImpl>",
           "shared::rc_cell::RcRefCell<level2::node_impl::NodeImpl>"]

def strip_paths(s):
    for l in RN_LONG:
        s = s.replace(l, "RN")
    s = s.replace("xml_dom::level2::ext::traits::DOMImplementation", "ExtDOMImplementation")
    s = s.replace("xml_dom::shared::rc_cell::WeakRefCell<xml_dom::level2::node_impl::NodeImpl>", "WN")
    s = re.sub(r"(?:[A-Za-z_][A-Za-z0-9_]*::)+(?=<impl )", "", s)
    s = re.sub(r"(?<![A-Za-z0-9_>])(?:(?:[a-z_][a-z0-9_]*)::)+(?=[A-Z])", "", s)
    s = re.sub(r"(?<![A-Za-z0-9_>:])(?:(?:xml_dom|std|core|level2|shared|ext|trait_impls|convert|text|display|dom_impl|decl|rc_cell|name|options|node_impl|namespaced|syntax|error|traits|entity_resolver)::)+", "", s)
    return s

def short_name(name):
    s = strip_paths(name)
    m = re.match(r"^<impl ([A-Za-z0-9_]+) for ([A-Za-z0-9_]+)>::(.*)$", s)
    if m:
        t, ty, rest = m.groups()
        if t == "Display":
            return f"<{ty} as {t}>::{rest}"
        return f"{t}::{rest}"
    m = re.match(r"^<RN as ([A-Z][A-Za-z0-9_]+)>::(.*)$", s)
    if m and m.group(1) not in ("Clone", "PartialEq", "Display", "Debug"):
        return f"{m.group(1)}::{m.group(2)}"
    return s


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.impls = d["impls"]
        self.fns = {f["name"]: f for f in d["fns"]}
        self.short = {}
        self.long_of = {}
        for f in d["fns"]:
            s = short_name(f["name"])
            f["short"] = s
            self.long_of.setdefault(s, []).append(f["name"])
        self._bys = {}
        for i, t in enumerate(self.types):
            self._bys.setdefault(t["s"], i)

    def ty(self, i):
        return self.types[i]

    def find_type(self, pred):
        for i, t in enumerate(self.types):
            if pred(t):
                return i
        return None

    def adt(self, suffix):
        """type index of the (first) expanded ADT whose path ends in suffix"""
        return self.find_type(lambda t: t["k"] == "adt" and t["name"].split("::")[-1] == suffix and t.get("expanded"))

    def fn(self, short):
        """All instances of the function with this short name (generic arguments dropped when unambiguous)."""
        if short in self.long_of:
            return [self.fns[n] for n in self.long_of[short]]
        r = []
        for s, ns in self.long_of.items():
            if re.sub(r"::<.*>$", "", s) == short:
                r += [self.fns[n] for n in ns]
        return r

"""Contracts of escaping, serialization and attribute values."""
import z3
from vals import *
import ext
from spec import *
from fold import fold
from specs_simple import N_OK

# ------------------------------------------------------------------------------------------------ C13 escaping
ESCAPED = "&'><\""
def esc_char(E, st, c):
    r = ext.char_str(E, st, c)
    for x in ESCAPED: r = z3.If(c == ord(x), S(f"&#{ord(x)};"), r)
    return r
ESCP = z3.Function("escaped_prefix", STR, INT, STR)         # the first i characters, escaped
def esc_upto(E, st, x, i, k=1):
    """unfold the definition of the escaped prefix at i"""
    E._cur = st
    cs = ext.chars_of(E, st, x)
    return [ESCP(x, I(0)) == S(""), Implies(And(i >= 0, i < cs.len), ESCP(x, simp(i + 1)) == z3.Concat(ESCP(x, i), esc_char(E, st, cs.at(i))))]
def escaped(s, x):
    cs = ext.chars_of(s.E, s.st, x)
    for i in range(3):
        for f in esc_upto(s.E, s.st, x, I(i)): s.st.assume(f)
    return ESCP(x, cs.len)
@spec("escape", "C13 C23 C28", inline=False, heap_ok=lambda E, h, *a: True)
def _(s, x): return ret(escaped(s, x))
@fold("escape")
def _(s, it, entry):
    k = it.seq.key
    if not (isinstance(k, tuple) and k[0] == "chars"): raise Unsupported("loop over something else")
    x = k[2]
    return lambda i: ESCP(x, i), lambda i, s: esc_upto(s.E, s.st, x, i)
@spec("to_entity", "C13")
def _(s, c): return ret(z3.Concat(S("&#"), z3.IntToStr(c % 65536), S(";")))
CD = lambda s, n: s.isa(n, "Text", "Comment", "CData")
@spec("CharacterData::data", "C13 C27", pre=CD)
def _(s, n):
    v = s.value(n)
    return [Case(tag_is(v, 0), lambda s: none()), Case(s.isa(n, "CData"), lambda s: v), Case(TRUE, lambda s: some(escaped(s, v.pl[1][0])))]
@spec("CharacterData::length", "C13 C27", pre=CD)
def _(s, n):
    v = s.value(n)
    return [Case(tag_is(v, 0), lambda s: I(0)), Case(s.isa(n, "CData"), lambda s: z3.Length(v.pl[1][0])), Case(TRUE, lambda s: z3.Length(escaped(s, v.pl[1][0])))]

# ------------------------------------------------------------------------------------------------ C28 attribute values
def untouched(*fields): return lambda E, h, *a: not any(f in h.w for f in fields)
NORM = z3.Function("normalized_attribute_value", STR, BOOL, STR)
NORMOK = z3.Function("references_known", STR, BOOL)
ENDS = r"\u{0D}[\u{0A}\u{85}]?|\u{85}|\u{2028}"
REFS = r"(?P<entity_ref>[&%][\pL_][\pL\.\d_\-]*;)|(?P<char>&#\d+;)|(?P<char_hex>&#x[0-9a-fA-F]+;)|(?P<ws>[\u{09}\u{0A}\u{0D}])"
PREDEFINED = {"&amp;": "&", "&apos;": "'", "&gt;": ">", "&lt;": "<", "&quot;": '"'}
def one_line_end(s, x):
    """every line end replaced by a line feed"""
    return Ite(x == S(""), x, ext.replaced(s.st, ENDS, S(ENDS), x, S("\n")))
@spec("normalize_end_of_lines", "C28")
def _(s, x): return ret(one_line_end(s, x))
def char_ref(s, m):
    """a character reference: (it can be read, the character it stands for)"""
    E, st = s.E, s.st
    k = z3.Length(m) - 1
    hexa = z3.SubString(m, 2, 1) == S("x")
    hx, dc = ext.substr(m, I(3), k), ext.substr(m, I(2), k)
    good, ch = [], []
    for b, body, radix, lo in ((hexa, hx, 16, 3), (Not(hexa), dc, 10, 2)):
        v = ext.DECVAL(body, I(radix))
        good.append(Implies(b, And(lo <= k, ext.boundary(E, st, m, I(lo)), ext.DECOK(body, I(radix)), v >= 0, v <= 0x10FFFF, z3.Or(v < 0xD800, v > 0xDFFF))))
        ch.append(ext.char_str(E, st, v))
    return And(z3.PrefixOf(S("&#"), m), z3.SuffixOf(S(";"), m), 3 <= z3.Length(m), ext.boundary(E, st, m, I(2)), ext.boundary(E, st, m, I(3)), ext.boundary(E, st, m, k), *good), Ite(hexa, ch[0], ch[1])
@spec("char_from_entity", "C28")
def _(s, m):
    good, ch = char_ref(s, m)
    return [Case(Not(good), None, "no character", panic=True), Case(TRUE, lambda s: ch, "a character")]
def no_entities(s, d):
    """no function of the crate gives a document type an entity"""
    m = s.extf(d, "DocumentType", "i_entities")
    s.st.forall(f"key{m.kty}", lambda k: Implies(s.is_ext(d, "DocumentType"), tag_is(m.get(k), 0)))
@spec("EntityResolver::resolve", "C28", inline=False, heap_ok=untouched("i_node_type", "i_extension", "i_owner_document"))
def _(s, n, e):
    pre = [Case(e == S(r), (lambda c: lambda s: some(S(c)))(c), r) for r, c in PREDEFINED.items()]
    doc = s.owner(n)
    d = Ite(s.isa(n, "Document"), n, doc.pl[1][0])
    hasdoc = Or(s.isa(n, "Document"), tag_is(doc, 1))
    dt = s.extf(d, "Document", "i_document_type")
    t = Ite(s.isa(n, "DocumentType"), n, dt.pl[1][0])
    has = Or(s.isa(n, "DocumentType"), And(hasdoc, s.is_ext(d, "Document"), tag_is(dt, 1)))
    no_entities(s, t)
    return pre + [Case(Not(has), lambda s: none(), "no document type"), Case(Or(Not(s.isa(t, "DocumentType")), Not(N_OK(e))), None, "not a document type or not a name", panic=True), Case(TRUE, lambda s: none(), "not declared")]
NPX = z3.Function("normalized_up_to_match", STR, BOOL, INT, STR)
def predefined(x): return Or(*[x == S(c) for c in PREDEFINED.values()])
class Norm:
    """the definition of the normalized value of x: the line ends made one, every reference replaced by what it stands for, every space character by a space"""
    def __init__(self, s, x, cdata):
        self.s, self.cdata = s, cdata
        self.t = one_line_end(s, x)
        self.p = S(REFS)
        self.n = ext.CAPN(self.p, self.t)
    def prev(self, i): return ext.cap_prev(self.p, self.t, i)
    def text(self, i): return ext.substr(self.t, ext.CAPS(self.p, self.t, i), ext.CAPE(self.p, self.t, i))
    def group(self, i): return ext.CAPG(self.p, self.t, i)
    def known(self, i):
        m = self.text(i); g = self.group(i)
        return And(g >= 0, g < 4, Implies(g == 0, Or(*[m == S(r) for r in PREDEFINED])), Implies(Or(g == 1, g == 2), char_ref(self.s, m)[0]))
    def by(self, i):
        m = self.text(i); g = self.group(i)
        r = S("")
        for k, c in PREDEFINED.items(): r = z3.If(m == S(k), S(c), r)
        return z3.If(g == 0, r, z3.If(g == 3, S(" "), char_ref(self.s, m)[1]))
    def upto(self, i): return NPX(self.t, self.cdata, i)
    def unfold(self, i, s):
        self.s = s
        for f in ext.cap_facts(s.E, s.st, REFS, self.p, self.t, i): s.st.assume(f)
        piece = ext.substr(self.t, self.prev(i), ext.CAPS(self.p, self.t, i))
        return [NPX(self.t, self.cdata, I(0)) == S(""), Implies(And(i >= 0, i < self.n), NPX(self.t, self.cdata, simp(i + 1)) == z3.Concat(self.upto(i), piece, self.by(i)))]
    def whole(self, s):
        self.s = s
        return z3.Concat(self.upto(self.n), ext.substr(self.t, self.prev(self.n), z3.Length(self.t)))
TRIMS = z3.Function("trim_start", STR, STR, STR); TRIME = z3.Function("trim_end", STR, STR, STR)
@spec("normalize_attribute_value", "C28", inline=False, joins=True, heap_ok=lambda E, h, *a: True, measure=lambda s, x, r, c: Ite(predefined(x), I(0), I(1)))
def _(s, x, resolver, cdata):
    if s.top("normalize_attribute_value") and not s.at_call:
        d = Norm(s, x, cdata)
        for i in (I(0), d.n): 
            for f in d.unfold(i, s): s.st.assume(f)
        bad, w = ext.any_in(s.E, s.st, d.n, lambda j: s.pure(lambda: Not(d.known(j)), j, d.n), None)
        whole = d.whole(s)
        return [Case(bad, None, "unknown reference", panic=True), Case(cdata, lambda s: whole, "character data"),
                Case(TRUE, lambda s: TRIME(TRIMS(whole, S(" ")), S(" ")), "trimmed")]
    # a character that a predefined entity stands for is normal
    for c in PREDEFINED.values(): s.st.assume(Implies(x == S(c), And(NORMOK(x), NORM(x, cdata) == x)))
    return [Case(Not(NORMOK(x)), None, "unknown reference", panic=True), Case(TRUE, lambda s: NORM(x, cdata))]
@fold("normalize_attribute_value")
def _(s, it, entry):
    k = it.seq.key
    if not (isinstance(k, tuple) and k[0] == "captures"): raise Unsupported("loop over something else")
    x, _, cdata = s.E.top_vals
    d = Norm(s, x, cdata)
    if not k[4].eq(d.p): raise Unsupported("another pattern")
    s.E.side.append((s.st.copy(), d.t == k[5], "the matches are those of the text with one kind of line end"))
    d.t = k[5]
    def known(i):
        d.s = S_(s.E, s.E._cur, s.E._cur.heap)
        return d.known(i)
    return d.upto, d.unfold, {"place": d.prev, "passed": known}
RAWP = z3.Function("attribute_text_first", INT, INT, STR)       # of the first i children
def raw_step(s, n, i):
    k = s.kids(n)
    s.E._cur = s.st
    c = k.at(i)
    v = s.value(c)
    piece = z3.If(And(s.isa(c, "Text", "EntityReference"), tag_is(v, 1)), v.pl[1][0], S(""))
    return [RAWP(n, I(0)) == S(""), Implies(And(i >= 0, i < k.len), RAWP(n, simp(i + 1)) == z3.Concat(RAWP(n, i), piece))]
def raw_text(s, n):
    """the text of the children of an attribute"""
    k = s.kids(n)
    m = ext.short_len(k.len)
    if m is not None:
        # a sequence of known length: the text itself
        x = S("")
        for i in range(m):
            c = k.at(I(i)); v = s.value(c)
            x = ext.cat(x, Ite(And(s.isa(c, "Text", "EntityReference"), tag_is(v, 1)), v.pl[1][0] if 1 in v.pl else S(""), S("")))
        return simp(x)
    for i in range(3):
        for f in raw_step(s, n, I(i)): s.st.assume(f)
    return RAWP(n, k.len)
def value_cases(s, n):
    """(no value, the value cannot be computed, the value)"""
    k = s.kids(n)
    x = raw_text(s, n)
    return simp(k.len == 0), Not(NORMOK(x)), lambda s: escaped(s, NORM(x, FALSE))
@spec("Attribute::value", "C28 C27", inline=False, heap_ok=untouched("i_child_nodes", "i_node_type", "i_value"))
def _(s, n):
    empty, bad, val = value_cases(s, n)
    return [Case(empty, lambda s: none(), "no children"), Case(bad, None, "unknown reference", panic=True), Case(TRUE, lambda s: some(val(s)), "text")]
@fold("Attribute::value")
def _(s, it, entry):
    n = s.E.top_vals[0]
    if it.seq.key is None or it.seq.key != s.kids(n).key: raise Unsupported("loop over something else")
    return lambda i: RAWP(n, i), lambda i, s: raw_step(s, n, i)

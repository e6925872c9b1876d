//! Bounded exploration of the real library against a reference model: runs generated histories of public calls
//! and reports the first observable difference that breaks the property it was asked about.
mod model;
mod world;
use model::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use world::*;

pub struct Rng(u64);
impl Rng {
    fn new(s: u64) -> Rng { let mut r = Rng(s ^ 0x9E3779B97F4A7C15); if r.0 == 0 { r.0 = 1 } for _ in 0..8 { r.next(); } r }
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: usize) -> usize { (self.next() >> 11) as usize % n.max(1) }
    fn chance(&mut self, p: usize) -> bool { self.below(100) < p }
    fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X { let i = self.below(v.len()); &v[i] }
}

const NAMES: &[&str] = &["a", "b", "x:a", "y:a", "x:b", "id", "xml:id", "xmlns", "xmlns:p", "xmlns:q", "p:id", "é", "x:é", "a-1.b", "_", "xml:lang", "c", "p:c"];
const BAD_NAMES: &[&str] = &["-bad", "", "a:b:c", ":a", "a:", "1a", "a b", "xml", "·a", "a:-", "é:1", "\u{301}", "p:", "a\u{d7}", "XML", "xMl", "a:xml", "xml:xmlns"];
const URIS: &[&str] = &["http://u/1", "http://u/2", XML_NS, XMLNS_NS];
const TOKENS: &[&str] = &["a", "b", "v", "v1", "id1", "1", " ", "  ", "\t", "\n", "\r", "\r\n", "\u{85}", "\r\u{85}", "\u{2028}", "&", "<", ">", "'", "\"", "&amp;", "&lt;", "&#38;", "&#60;",
    "&#x41;", "&#233;", "&#9;", "&#10;", "&#13;", "&#32;", "é", "漢", "😀", "]]>", "--", "&quot;", "&apos;", "&gt;", ";", "#", "&#", "&;", "%", "x&y", "&amp", "--", "?>", "\u{7f}", "\u{1}", "\0", "\u{feff}", "\u{fffe}", "\u{a0}", "\u{2029}", "\u{3000}", "\u{c}", "\u{200b}", "ns", "http://u/1"];

/// constants of the code under test that the committed baseline list does not have: candidates for special cases
#[derive(Default)]
struct Dict { strs: Vec<String>, ints: Vec<u64> }
static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
fn dict() -> &'static Dict { DICT.get_or_init(Dict::default) }
fn load_dict(path: &str) {
    let mut d = Dict::default();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let mut it = l.splitn(2, ' ');
        match (it.next(), it.next()) {
            (Some("S"), Some(h)) => {
                let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
                if let Ok(s) = String::from_utf8(b) { if s.chars().count() < 80 && !s.is_empty() { d.strs.push(s) } }
            }
            (Some("I"), Some(n)) => if let Ok(n) = n.parse() { d.ints.push(n); if let Some(c) = char::from_u32(n as u32) { if n > 31 && n < 0x110000 { d.strs.push(c.to_string()) } } },
            _ => (),
        }
    }
    let _ = DICT.set(d);
}
/// a size near one of the code's own constants
fn dict_size(r: &mut Rng, cap: usize) -> Option<usize> {
    let v: Vec<u64> = dict().ints.iter().copied().filter(|n| *n as usize <= cap).collect();
    if v.is_empty() { None } else { Some((*r.pick(&v) as usize + r.below(3)).saturating_sub(1)) }
}

fn text(r: &mut Rng) -> String {
    if !dict().strs.is_empty() && r.chance(25) {
        let s = r.pick(&dict().strs).clone();
        return match r.below(4) { 0 => s, 1 => text(r) + &s, 2 => s + &text(r), _ => { let a = text(r); a + &s + &text(r) } };
    }
    if r.chance(1) || (!dict().ints.is_empty() && r.chance(15)) {
        let n = dict_size(r, 4096).unwrap_or(1 + r.below(300));
        let t = *r.pick(&["a", "b", "x", "é", " ", "&", "<"]);
        return if r.chance(50) { t.repeat(n) } else { (0..n).map(|_| *r.pick(TOKENS)).collect() };
    }
    let n = match r.below(10) { 0 => 0, 1..=5 => 1, 6 | 7 => 2, 8 => 3, _ => 6 };
    (0..n).map(|_| *r.pick(TOKENS)).collect()
}
fn opt_text(r: &mut Rng) -> Option<String> { if r.chance(20) { None } else { Some(text(r)) } }

/// which kinds of operation, and which derived reads, a property needs
struct Profile { w: [usize; 13], parts: &'static [usize] }
// create tree attr attrns attrnode value chardata split norm clone decl impl forget
fn profile(p: &str) -> Profile {
    let (w, parts): ([usize; 13], &[usize]) = match p {
        "C01" => ([8, 30, 2, 1, 3, 4, 1, 4, 3, 4, 0, 1, 3], &[]),
        "C02" => ([8, 40, 1, 1, 3, 2, 0, 2, 1, 2, 0, 1, 2], &[]),
        "C03" => ([8, 40, 1, 1, 3, 2, 0, 2, 1, 2, 0, 1, 2], &[]),
        "C04" => ([14, 40, 1, 0, 1, 1, 0, 1, 0, 2, 0, 2, 1], &[]),
        "C05" => ([8, 20, 6, 6, 10, 1, 8, 5, 0, 2, 0, 2, 1], &[3, 4]),
        "C06" => ([12, 20, 4, 4, 10, 2, 0, 3, 0, 6, 0, 6, 1], &[]),
        "C07" => ([6, 4, 22, 4, 10, 3, 2, 1, 1, 2, 0, 1, 1], &[3]),
        "C08" => ([6, 4, 4, 22, 10, 3, 2, 1, 1, 2, 0, 1, 1], &[3]),
        "C09" => ([8, 4, 8, 8, 26, 2, 0, 0, 0, 4, 0, 1, 3], &[]),
        "C10" => ([5, 8, 16, 12, 14, 1, 0, 0, 0, 3, 0, 2, 4], &[4]),
        "C11" => ([20, 4, 8, 8, 1, 0, 0, 0, 0, 0, 0, 4, 0], &[]),
        "C12" => ([20, 4, 4, 12, 1, 0, 0, 0, 0, 0, 0, 4, 0], &[]),
        "C13" => ([14, 4, 2, 0, 0, 2, 20, 4, 2, 2, 0, 0, 0], &[1]),
        "C14" => ([8, 3, 1, 0, 0, 2, 40, 4, 1, 1, 0, 0, 0], &[]),
        "C15" => ([10, 14, 1, 0, 0, 2, 4, 24, 2, 2, 0, 0, 1], &[]),
        "C16" => ([14, 24, 1, 0, 0, 2, 4, 8, 16, 3, 0, 0, 1], &[]),
        "C17" => ([10, 14, 4, 6, 4, 2, 2, 2, 1, 14, 0, 2, 1], &[0, 2, 5]),
        "C18" => ([40, 8, 1, 1, 2, 0, 0, 0, 0, 0, 0, 8, 0], &[0, 2]),
        "C19" => ([12, 30, 3, 2, 4, 2, 0, 3, 2, 2, 0, 2, 1], &[0]),
        "C20" => ([20, 8, 2, 1, 2, 1, 0, 1, 0, 4, 0, 3, 0], &[6]),
        "C21" => ([14, 30, 1, 1, 0, 0, 0, 0, 1, 3, 0, 2, 2], &[7]),
        "C22" => ([6, 14, 4, 20, 14, 1, 0, 0, 0, 2, 0, 2, 3], &[5]),
        "C23" => ([12, 18, 6, 5, 3, 3, 6, 2, 1, 3, 4, 3, 0], &[8]),
        "C24" => ([3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 30, 3, 0], &[0]),
        "C25" => ([8, 4, 8, 8, 6, 0, 0, 0, 0, 1, 0, 8, 0], &[4, 5]),
        "C26" => ([8, 8, 1, 1, 0, 0, 0, 0, 0, 1, 2, 30, 0], &[0]),
        "C27" => ([14, 16, 6, 6, 5, 3, 6, 3, 2, 4, 2, 4, 2], &[0, 1, 2, 3, 4, 5, 6, 7, 8]),
        "C28" => ([10, 14, 10, 6, 3, 12, 6, 3, 2, 2, 0, 1, 0], &[2, 3]),
        _ => ([10, 20, 6, 6, 6, 3, 6, 3, 2, 3, 1, 3, 2], &[0, 1, 2, 3, 4, 5, 6, 7, 8]),
    };
    Profile { w, parts }
}

struct Gen { names: Vec<String>, uris: Vec<String>, ids: Vec<String>, max: usize }

impl Gen {
    fn new(r: &mut Rng, prop: &str) -> Gen {
        let bad = match prop { "C11" | "C12" => 60, _ => 12 };
        let k = if matches!(prop, "C27") { 4 } else { 3 + r.below(5) };
        let mut names: Vec<String> = (0..k).map(|_| r.pick(NAMES).to_string()).collect();
        if matches!(prop, "C10" | "C05" | "C22" | "C25" | "C06" | "C09") {
            for f in ["id", "xml:id", "xmlns:p", "xmlns"] { if r.chance(60) { names.push(f.to_string()) } }
        }
        if r.chance(60) { for p in ["a", "b", "x:a"] { names.push(p.to_string()) } }
        if r.chance(bad) { names.push(r.pick(BAD_NAMES).to_string()) }
        if !dict().strs.is_empty() && r.chance(60) {
            for _ in 0..2 {
                let s = r.pick(&dict().strs).clone();
                names.push(match r.below(5) { 0 => format!("x:{}", s), 1 => format!("{}:a", s), 2 => format!("a{}", s), _ => s });
            }
        }
        if let (true, Some(n)) = (r.chance(30), dict_size(r, 300)) { names.push("n".repeat(n.max(1))) }
        names.sort(); names.dedup();
        let mut uris: Vec<String> = URIS.iter().map(|s| s.to_string()).filter(|_| r.chance(80)).collect();
        if r.chance(bad) || uris.is_empty() { uris.push(String::new()) }
        if r.chance(10) { uris.push("*".to_string()) }
        if !dict().strs.is_empty() && r.chance(40) { uris.push(r.pick(&dict().strs).clone()) }
        let ids = (0..3).map(|_| if r.chance(70) { r.pick(&["id1", "v", "", "&amp;", " v", "é"]).to_string() } else { text(r) }).collect();
        let max = if r.chance(4) || (!dict().ints.is_empty() && r.chance(25)) { dict_size(r, 160).unwrap_or(30 + r.below(60)) + 12 } else { 10 + r.below(18) };
        Gen { names, uris, ids, max }
    }
    fn pools(&self) -> Pools {
        let mut prefixes: Vec<Option<String>> = vec![None];
        for n in &self.names { if let Ok(m) = parse_name(n) { prefixes.push(Some(m.local.clone())); prefixes.push(m.prefix.clone()) } }
        prefixes.sort(); prefixes.dedup();
        let mut uris = self.uris.clone();
        uris.retain(|u| u != "*");
        let mut tags = self.names.clone(); tags.push("*".to_string()); tags.push("".to_string());
        Pools { names: self.names.clone(), uris, prefixes, ids: self.ids.clone(), tags }
    }
    fn name(&self, r: &mut Rng) -> String { r.pick(&self.names).clone() }
    fn uri(&self, r: &mut Rng, n: &str) -> String {
        if r.chance(75) {
            if let Ok(m) = parse_name(n) {
                for p in [m.prefix.as_deref(), Some(m.local.as_str())] { match p { Some("xml") => return XML_NS.into(), Some("xmlns") => return XMLNS_NS.into(), _ => () } }
            }
        }
        r.pick(&self.uris).clone()
    }
    fn value(&self, r: &mut Rng, n: &str) -> String {
        if n.ends_with("id") && r.chance(85) { return r.pick(&self.ids).clone() }
        if n.starts_with("xmlns") && r.chance(70) { return r.pick(&["http://u/1", "http://u/2", "ns", "", "a&b", " s "]).to_string() }
        text(r)
    }
    fn next(&self, w: &World, r: &mut Rng, p: &Profile) -> Option<Op> {
        use Op::*;
        let m = &w.m;
        let live: Vec<usize> = (0..m.n.len()).filter(|i| !m.n[*i].dead).collect();
        let docs: Vec<usize> = live.iter().copied().filter(|i| m.n[*i].ty == T::Document).collect();
        let of = |ts: &[T]| -> Vec<usize> { live.iter().copied().filter(|i| ts.contains(&m.n[*i].ty)).collect() };
        macro_rules! some { ($v:expr) => { { let v = &$v; if v.is_empty() { return None; } *r.pick(&v[..]) } } }
        if docs.is_empty() {
            let opts = if r.chance(40) { None } else { Some(r.below(8) as u8) };
            let q = if r.chance(80) { Some(self.names.iter().find(|n| name_ns("http://u/1", n).is_ok()).cloned().unwrap_or("a".into())) } else { None };
            let u = if q.is_some() && r.chance(60) { Some("http://u/1".to_string()) } else { None };
            return Some(NewDoc(u, q, None, opts));
        }
        let full = live.len() >= self.max;
        let total: usize = p.w.iter().sum();
        let mut x = r.below(total);
        let mut k = 0;
        while x >= p.w[k] { x -= p.w[k]; k += 1 }
        if full && matches!(k, 0 | 9 | 11) { k = if r.chance(50) { 1 } else { 4 } }
        let d = some!(docs);
        match k {
            0 => {
                let n = self.name(r);
                Some(match r.below(20) {
                    0..=3 => Elem(d, n), 4 | 5 => { let u = self.uri(r, &n); ElemNs(d, u, n) }
                    6 | 7 => Attr(d, n), 8 => { let v = self.value(r, &n); AttrWith(d, n, v) } 9 | 10 => { let u = self.uri(r, &n); AttrNs(d, u, n) }
                    11..=13 => Text(d, text(r)), 14 => Comment(d, text(r)), 15 => CData(d, text(r)), 16 => Pi(d, n, opt_text(r)),
                    17 => EntRef(d, n),
                    18 => if r.chance(50) { Frag(d) } else { Notation(d, n, opt_text(r), opt_text(r)) },
                    _ => match r.below(3) { 0 => Entity(d, n, opt_text(r), opt_text(r)), 1 => IntEntity(d, n, text(r)), _ => DocType(n, opt_text(r), opt_text(r)) },
                })
            }
            1 => {
                // mostly well-typed combinations, sometimes anything
                let sane = r.chance(80);
                let pars: Vec<usize> = if sane { live.iter().copied().filter(|i| !matches!(m.n[*i].ty, T::Text | T::Comment | T::CData | T::PI | T::DocumentType | T::Notation)).collect() } else { live.clone() };
                let mut pa = some!(pars);
                // a wide history: mostly one parent
                if self.max > 30 && r.chance(70) { pa = *pars.iter().max_by_key(|p| m.n[**p].kids.len()).unwrap(); }
                let cs: Vec<usize> = if sane { live.iter().copied().filter(|c| allowed(m.n[pa].ty, m.n[*c].ty)).collect() } else { live.clone() };
                let cs = if cs.is_empty() { live.clone() } else { cs };
                let mut c = some!(cs);
                let kids = &m.n[pa].kids;
                let rf = if !kids.is_empty() && r.chance(85) { *r.pick(kids) } else { some!(live) };
                if m.locked(pa) { return None; }
                match r.below(10) {
                    0..=2 => { if m.locked(c) { return None; } Some(Insert(pa, c, rf)) }
                    3..=5 => { if m.locked(c) { return None; } Some(Append(pa, c)) }
                    6 | 7 => { if m.locked(c) { return None; } Some(Replace(pa, c, rf)) }
                    _ => { if r.chance(80) { c = rf } if m.locked(c) && m.n[c].parent == Some(pa) { return None; } Some(Remove(pa, c)) }
                }
            }
            2 | 3 => {
                let e = some!(of(&[T::Element]));
                let n = self.name(r);
                let v = self.value(r, &n);
                let u = self.uri(r, &n);
                if r.chance(70) {
                    let nm = if k == 2 { parse_name(&n) } else { name_ns(&u, &n) };
                    if let Ok(nm) = nm {
                        if !self.attr_ok(m, e, &nm, norm_value(&v).map(|s| Some(escape(&s))).ok_or(()), None) { return None; }
                    }
                    Some(if k == 2 { SetAttr(e, n, v) } else { SetAttrNs(e, u, n, v) })
                } else if k == 2 { Some(RemAttr(e, n)) }
                else { let l = if r.chance(80) { n.rsplit(':').next().unwrap().to_string() } else { n }; Some(RemAttrNs(e, u, l)) }
            }
            4 => {
                let e = if r.chance(93) { some!(of(&[T::Element])) } else { some!(live) };
                let a = if r.chance(93) { some!(of(&[T::Attribute])) } else { some!(live) };
                if r.chance(65) {
                    if m.n[e].ty == T::Element && m.n[a].ty == T::Attribute && !self.attr_ok(m, e, &m.n[a].name, m.value(a), Some(a)) { return None; }
                    Some(SetAttrNode(e, a, r.chance(50)))
                } else {
                    let e = if r.chance(60) { m.n[a].owner_el.unwrap_or(e) } else { e };
                    if m.n[a].ty == T::Attribute && m.value(a).is_err() { return None; }
                    Some(RemAttrNode(e, a))
                }
            }
            5 => {
                let a = some!(of(&[T::Attribute]));
                if m.locked(a) { return None; }
                Some(if r.chance(85) { SetValue(a, text(r)) } else { UnsetValue(a) })
            }
            6 => {
                if r.chance(12) {
                    let x = some!(of(&[T::PI]));
                    return Some(if r.chance(70) { PiSet(x, text(r)) } else { PiUnset(x) });
                }
                let x = some!(of(&[T::Text, T::CData, T::Comment]));
                if m.locked(x) { return None; }
                let len = m.n[x].value.as_ref().map_or(0, |v| v.len());
                let big = |r: &mut Rng| match if !dict().ints.is_empty() && r.chance(20) { 9 } else { r.below(8) } { 9 => dict_size(r, 1 << 20).unwrap_or(0), 0 => usize::MAX, 1 => usize::MAX / 2 + 1, 2 => len, 3 => len + 1, _ => r.below(len + 2) };
                let (o, c) = (big(r), big(r));
                Some(match r.below(12) {
                    0 | 1 => Substr(x, o, c), 2 | 3 => InsData(x, o, text(r)), 4 | 5 => DelData(x, o, c), 6 | 7 => ReplData(x, o, c, text(r)),
                    8 => AppendData(x, text(r)), 9 => SetData(x, text(r)), 10 => UnsetData(x), _ => if r.chance(60) { SetNodeValue(x, text(r)) } else { UnsetNodeValue(x) },
                })
            }
            7 => {
                let x = some!(of(&[T::Text, T::CData]));
                if m.locked(x) || full { return None; }
                let len = m.n[x].value.as_ref().map_or(0, |v| v.len());
                let o = match r.below(10) { 0 => usize::MAX, 1 => len, 2 => 0, _ => r.below(len + 2) };
                Some(Split(x, o))
            }
            8 => { let x = some!(live); if m.locked(x) { return None; } Some(Normalize(x)) }
            9 => {
                let x = some!(live);
                if m.n[x].ty == T::Document { return None; }
                Some(Clone(x, r.chance(60)))
            }
            10 => {
                let x = if r.chance(85) { d } else { some!(live) };
                let enc = match r.below(4) { 0 => None, 1 => Some(r.pick(&["UTF-8", "utf8", "ISO-8859-1", "x", "a_b.c"]).to_string()), 2 => Some(r.pick(&["", "8", "é", "UTF 8", "a\"", "-x"]).to_string()), _ => { let n = r.below(3) + 1; Some((0..n).map(|_| *r.pick(&['a', 'Z', '0', '-', '_', '.', ' ', 'é', ':'])).collect()) } };
                Some(SetDecl(x, r.chance(50), enc, match r.below(3) { 0 => None, 1 => Some(true), _ => Some(false) }))
            }
            11 => {
                if docs.len() >= 3 && r.chance(70) { return None; }
                let n = self.name(r);
                if r.chance(30) { return Some(DocType(n, opt_text(r), opt_text(r))); }
                let q = if r.chance(80) { Some(n.clone()) } else { None };
                let u = if r.chance(60) { Some(self.uri(r, &n)) } else { None };
                let dts = of(&[T::DocumentType]);
                let dt = if !dts.is_empty() && r.chance(60) { Some(*r.pick(&dts)) } else { None };
                Some(NewDoc(u, q, dt, if r.chance(50) { None } else { Some(r.below(8) as u8) }))
            }
            _ => {
                let c: Vec<usize> = live.iter().copied().filter(|i| {
                    let n = &m.n[*i];
                    n.parent.is_none() && n.owner_el.is_none() && n.ty != T::Document && n.ty != T::DocumentType
                        && !(n.ty == T::Attribute && !n.kids.is_empty())
                }).collect();
                Some(Forget(some!(c)))
            }
        }
    }
    /// keep to attributes whose treatment the properties define
    fn attr_ok(&self, m: &Model, e: usize, nm: &MName, value: Result<Option<String>, ()>, a: Option<usize>) -> bool {
        let special = nm.local == "id" || nm.is_ns_attr();
        if !special { return true; }
        let v = match value { Err(()) => return false, Ok(v) => v };
        if nm.local == "id" {
            if m.n[e].attrs.iter().any(|x| Some(*x) != a && m.n[*x].name.local == "id" && m.value(*x) == Ok(v.clone()) && m.n[*x].name.q() != nm.q()) { return false; }
        }
        true
    }
}

struct Stats { ops: u64, seen: HashSet<u64>, samples: Vec<String> }

fn hash64(x: &impl Hash) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

pub struct Found { pub seed: u64, pub iter: u64, pub log: Vec<String>, pub bads: Vec<String> }

/// a large tree to start from: many children, many levels, many attributes, many declarations or many ids
fn grow(g: &mut Gen, w: &mut World, r: &mut Rng, prop: &str, log: &mut Vec<String>, st: &mut Stats) -> Result<(), Bads> {
    use Op::*;
    let heavy = matches!(prop, "C27" | "C21" | "ALL" | "C22" | "C10");
    let n = if !dict().ints.is_empty() && r.chance(70) { dict_size(r, if heavy { 300 } else { 1100 }).unwrap_or(130) } else { *r.pick(&[70usize, 70, 130, 130, 260, 300]) };
    let attrish = matches!(prop, "C05" | "C07" | "C08" | "C09" | "C10" | "C22" | "C25");
    let shape = if r.chance(if attrish { 80 } else { 20 }) { 2 + r.below(3) } else if r.chance(25) { 1 } else { 0 };
    let n = if matches!(shape, 1 | 4) { n.min(150) } else { n };
    let pools = Pools { names: vec![], uris: vec![], prefixes: vec![], ids: vec![], tags: vec![] };
    w.quiet = true;
    let opts = if r.chance(60) { None } else { Some(r.below(8) as u8) };
    let mut run = |w: &mut World, op: Op| -> Result<(), Bads> {
        log.push(format!("[nodes {}] {:?}", w.m.n.len(), op));
        st.ops += 1;
        w.exec(&op, &pools).map(|_| ())
    };
    run(w, NewDoc(None, Some("r".into()), None, opts))?;
    let mut at = 1;
    let mix = r.below(3);
    for k in 0..n {
        let new = w.m.n.len();
        match shape {
            0 => {
                let n = g.name(r);
                let n = if parse_name(&n).is_ok() && !n.eq_ignore_ascii_case("xml") { n } else { "a".into() };
                let t = if r.chance(40) { g.ids[0].clone() } else { (*r.pick(&["", "a", "b", " "])).to_string() };
                run(w, match if mix == 0 { 0 } else if mix == 1 { 1 + r.below(2) } else { r.below(5) } { 0 => Elem(0, n), 1 | 2 => Text(0, t), 3 => if r.chance(50) { Comment(0, t) } else { CData(0, t) }, _ => Pi(0, n, Some(t)) })?;
                run(w, Append(1, new))?;
            }
            1 => {
                run(w, Elem(0, format!("e{}", k % 5)))?;
                run(w, Append(at, new))?;
                at = new;
                if k % 40 == 7 { run(w, SetAttrNs(at, XMLNS_NS.into(), format!("xmlns:d{}", k), "http://u/1".into()))?; }
                if k % 40 == 9 { let t = w.m.n.len(); run(w, Text(0, "t".into()))?; run(w, Append(at, t))?; }
            }
            2 => run(w, if r.chance(50) { SetAttr(1, format!("n{}", k), "v".into()) } else { SetAttrNs(1, "http://u/1".into(), format!("x:n{}", k), "v".into()) })?,
            3 => run(w, SetAttrNs(1, XMLNS_NS.into(), format!("xmlns:p{}", k), format!("http://u/{}", k % 90)))?,
            _ => {
                run(w, Elem(0, "e".into()))?;
                run(w, SetAttr(new, "id".into(), format!("i{}", k)))?;
                run(w, Append(if r.chance(50) { 1 } else { new.saturating_sub(3).max(1) }, new))?;
            }
        }
    }
    w.quiet = false;
    g.max = w.m.n.len() + 40;
    let last = n.saturating_sub(1);
    match shape {
        2 => g.names.extend([format!("n{}", last), format!("x:n{}", last), "n0".into()]),
        3 => g.names.extend([format!("xmlns:p{}", last), "xmlns:p0".into()]),
        1 => g.names.extend(["e0".to_string(), "e4".to_string()]),
        4 => g.ids.extend([format!("i{}", last), "i0".to_string()]),
        _ => (),
    }
    Ok(())
}

fn sequence(prop: &str, seed: u64, iter: u64, st: &mut Stats) -> Option<Found> {
    let mut r = Rng::new(hash64(&(seed, iter, prop)));
    let mut g = Gen::new(&mut r, prop);
    let prof = profile(prop);
    let mut w = World::new();
    for i in 0..9 { w.parts[i] = prof.parts.contains(&i) }
    let mut log: Vec<String> = vec![];
    let big = iter % 250 == 0;
    let built = if big { grow(&mut g, &mut w, &mut r, prop, &mut log, st) } else { Ok(()) };
    let pools = g.pools();
    if let Err(bs) = built {
        let rel: Vec<String> = bs.iter().filter(|b| prop == "ALL" || b.props.contains(&prop)).map(|b| format!("[{}] {}", b.props.join(","), b.what)).collect();
        return if rel.is_empty() { None } else { Some(Found { seed, iter, log, bads: rel }) };
    }
    let len = if big { 10 } else if g.max > 30 { g.max * 3 } else { 12 + r.below(50) };
    let mut steps = 0;
    let mut tries = 0;
    while steps < len && tries < len * 6 {
        tries += 1;
        let op = match g.next(&w, &mut r, &prof) { Some(o) => o, None => continue };
        steps += 1;
        let before = w.m.n.len();
        log.push(format!("[nodes {}] {:?}", before, op));
        if st.seen.len() < 400_000 { st.seen.insert(hash64(&(format!("{:?}", op), shape(&w.m)))); }
        st.ops += 1;
        if st.samples.len() < 6 && st.ops % 397 == 0 { st.samples.push(log.join("; ").chars().take(400).collect()) }
        match w.exec(&op, &pools) {
            Ok(true) => (),
            Ok(false) => return None,
            Err(bs) => {
                let rel: Vec<String> = bs.iter().filter(|b| prop == "ALL" || b.props.contains(&prop)).map(|b| format!("[{}] {}", b.props.join(","), b.what)).collect();
                if rel.is_empty() { return None; }
                return Some(Found { seed, iter, log, bads: rel });
            }
        }
    }
    None
}
fn shape(m: &Model) -> u64 { hash64(&m.n.iter().map(|n| (n.ty as u8, n.parent, n.kids.len(), n.attrs.len())).collect::<Vec<_>>()) }

/// exhaustive or systematic checks that need no history
fn extras(prop: &str, slice: usize, of: usize, st: &mut Stats, stop: &dyn Fn() -> bool) -> Option<(String, Vec<String>)> {
    let mut res: Option<(String, Vec<String>)> = None;
    let mut take = |what: String, b: Bads, st: &mut Stats| -> bool {
        st.ops += 1;
        let rel: Vec<String> = b.iter().filter(|b| prop == "ALL" || b.props.contains(&prop)).map(|b| b.what.clone()).collect();
        if !rel.is_empty() && res.is_none() { res = Some((what, rel)); }
        res.is_some()
    };
    let mut count = 0usize;
    macro_rules! mine { () => { { count += 1; count % of == slice } } }
    if prop == "C11" {
        for c in 0..=0x10FFFFu32 {
            if !mine!() { continue; }
            if let Some(c) = char::from_u32(c) {
                let mut forms = vec![format!("{}", c), format!("a{}", c)];
                if c as u32 % 16 == 0 || (c as u32) < 0x400 || (0x2000..0x2200).contains(&(c as u32)) { forms.extend([format!("p:{}", c), format!("{}:a", c), format!("p:a{}", c), format!("a{}:b", c), format!("ab{}c", c)]) }
                for s in forms { let b = check_name(&s); if take(format!("name {:?}", s), b, st) { return res; } }
            }
            if stop() { break; }
        }
        let al = ["a", ":", "-", "é", "1", "·", " ", "\u{301}", "×", ".", "_", "B", "\n"];
        for n in 0..=5usize {
            let total = al.len().pow(n as u32);
            for mut k in 0..total {
                if !mine!() { continue; }
                let mut s = String::new();
                for _ in 0..n { s += al[k % al.len()]; k /= al.len() }
                let b = check_name(&s);
                if take(format!("name {:?}", s), b, st) { return res; }
            }
            if stop() { break; }
        }
    }
    if prop == "C12" {
        let ps = ["", "a", "xml", "xmlns", "id", "XML", "Xmlns", "xm", "xmls", "p", "é", "-", "ID", "Id", "ids"];
        let us = ["", "http://u/1", XML_NS, XMLNS_NS, "xml", "http://www.w3.org/XML/1998/namespac", "http://www.w3.org/2000/xmlns", "http://www.w3.org/xml/1998/namespace", "*", " "];
        for u in us { for p in ps { for l in ps {
            for q in [l.to_string(), format!("{}:{}", p, l)] {
                if !mine!() { continue; }
                let b = check_name_ns(u, &q);
                if take(format!("namespace {:?} name {:?}", u, q), b, st) { return res; }
            }
        } } }
    }
    if prop == "C24" {
        let cs: Vec<char> = (0..128u8).map(|c| c as char).chain(['é', '漢', 'Ａ', '٣']).collect();
        let mut encs: Vec<String> = vec![String::new()];
        for a in &cs { encs.push(a.to_string()); for b in &cs { encs.push(format!("{}{}", a, b)); } }
        for a in &cs { encs.push(format!("UT{}-8", a)); encs.push(format!("UTF-8{}", a)); }
        for e in encs.into_iter().map(Some).chain([None]) {
            for (v, sa) in [(false, None), (true, None), (false, Some(true)), (true, Some(false)), (true, Some(true)), (false, Some(false))] {
                if !mine!() { continue; }
                let b = check_decl(v, e.clone(), sa);
                if take(format!("declaration 1.1={} {:?} {:?}", v, e, sa), b, st) { return res; }
            }
        }
        let vs = ["1.0", "1.1", "1", "", "1.2", "2.0", "1.0 ", " 1.0", "1.10", "V10", "1,0", "10", "1.", "01.0", "1.0\n", "+1.0"];
        for v in vs { let b = check_version(v); if take(format!("version {:?}", v), b, st) { return res; } }
        let al = ['1', '.', '0', '2', ' '];
        for n in 0..=5u32 { for mut k in 0..5usize.pow(n) { let mut s = String::new(); for _ in 0..n { s.push(al[k % 5]); k /= 5 } let b = check_version(&s); if take(format!("version {:?}", s), b, st) { return res; } } }
    }
    if prop == "C25" { let b = check_options(); take("options".into(), b, st); }
    if matches!(prop, "C13" | "C14" | "C15" | "C26" | "C28") {
        let pools = Pools { names: vec![], uris: vec![], prefixes: vec![], ids: vec![], tags: vec![] };
        let mut w = World::new();
        let part: &[usize] = match prop { "C13" => &[1], "C28" => &[2], _ => &[] };
        for i in 0..9 { w.parts[i] = part.contains(&i) }
        let run = |w: &mut World, op: Op, st: &mut Stats, take: &mut dyn FnMut(String, Bads, &mut Stats) -> bool| -> bool {
            match w.exec(&op, &pools) { Ok(_) => { st.ops += 1; false } Err(b) => { take(format!("{:?} after creating a document", op), b, st) } }
        };
        run(&mut w, Op::NewDoc(None, Some("r".into()), None, None), st, &mut take);
        if prop == "C26" { let b = check_features(&w.real(0)); if take("features".into(), b, st) { return res; } }
        if prop == "C13" {
            run(&mut w, Op::Text(0, String::new()), st, &mut take);
            run(&mut w, Op::Comment(0, String::new()), st, &mut take);
            run(&mut w, Op::CData(0, String::new()), st, &mut take);
            run(&mut w, Op::Pi(0, "t".into(), None), st, &mut take);
            let base = w.m.n.len();
            for c in (0..=0x10FFFFu32).filter(|c| *c < 0x3000 || *c % 64 == 0) {
                if !mine!() { continue; }
                if let Some(c) = char::from_u32(c) {
                    for s in [format!("{}", c), format!("a{}b{}", c, c)] {
                        for x in base - 4..base - 1 { if run(&mut w, Op::SetData(x, s.clone()), st, &mut take) { return res; } }
                        if run(&mut w, Op::PiSet(base - 1, s.clone()), st, &mut take) { return res; }
                    }
                }
                if stop() { break; }
            }
        }
        if prop == "C14" {
            let vals = ["", "a", "ab", "é", "aé", "éa", "漢😀", "a&b", "abc"];
            let offs = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, usize::MAX - 1, usize::MAX];
            for (k, mk) in [Op::Text(0, String::new()), Op::Comment(0, String::new()), Op::CData(0, String::new())].into_iter().enumerate() {
                run(&mut w, mk, st, &mut take);
                let x = w.m.n.len() - 1;
                let _ = k;
                for v in vals.iter().map(|v| Some(*v)).chain([None]) { for o in offs { for c in offs {
                    if !mine!() { continue; }
                    for e in 0..7 {
                        let set = match v { Some(v) => Op::SetData(x, v.to_string()), None => Op::UnsetData(x) };
                        if run(&mut w, set, st, &mut take) { return res; }
                        let op = match e { 0 => Op::Substr(x, o, c), 1 => Op::DelData(x, o, c), 2 => Op::InsData(x, o, "éX".into()), 3 => Op::ReplData(x, o, c, "Yé".into()), 4 => Op::ReplData(x, o, c, String::new()), 5 => Op::InsData(x, o, String::new()), _ => Op::AppendData(x, if c % 2 == 0 { "".into() } else { "zé".into() }) };
                        if run(&mut w, op, st, &mut take) { return res; }
                    }
                } } }
            }
        }
        if prop == "C15" {
            for v in ["", "a", "ab", "é", "aé", "漢😀b", "&<"] { for o in 0..=v.len() + 2 { for parent in [false, true] { for cd in [false, true] {
                if !mine!() { continue; }
                let mut w = World::new();
                w.parts = [false; 9];
                run(&mut w, Op::NewDoc(None, Some("r".into()), None, None), st, &mut take);
                if parent { run(&mut w, Op::Text(0, "first".into()), st, &mut take); run(&mut w, Op::Append(1, 2), st, &mut take); }
                if run(&mut w, if cd { Op::CData(0, v.into()) } else { Op::Text(0, v.into()) }, st, &mut take) { return res; }
                let x = w.m.n.len() - 1;
                if parent { run(&mut w, Op::Insert(1, x, 2), st, &mut take); }
                if run(&mut w, Op::Split(x, o), st, &mut take) { return res; }
            } } } }
        }
        if prop == "C28" {
            let toks = ["\r", "\n", "\u{85}", "\u{2028}", "\t", " ", "a", "&#65;", "&#x41;", "&#13;", "&#x9;", "&lt;", "&amp;", "&", ";", "#", "&#", "x", "é", "<", "\"", "&#32;", "%"];
            run(&mut w, Op::Attr(0, "a".into()), st, &mut take);
            let x = w.m.n.len() - 1;
            let mut since = 0;
            for n in 0..=3u32 { for k0 in 0..toks.len().pow(n) {
                if !mine!() { continue; }
                let mut k = k0;
                let mut s = String::new();
                for _ in 0..n { s += toks[k % toks.len()]; k /= toks.len() }
                if norm_value(&s).is_none() { continue; }
                since += 1;
                if since > 8 {
                    w = World::new(); for i in 0..9 { w.parts[i] = i == 2 }
                    run(&mut w, Op::NewDoc(None, Some("r".into()), None, None), st, &mut take);
                    run(&mut w, Op::Attr(0, "a".into()), st, &mut take);
                    since = 0;
                }
                if run(&mut w, Op::SetValue(x, s), st, &mut take) { return res; }
                if stop() { return res; }
            } }
        }
    }
    if prop == "C28" || prop == "C13" { let _ = &mut res; }
    res
}

fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned() }
fn jstr(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() { match c { '"' => r += "\\\"", '\\' => r += "\\\\", c if (c as u32) < 32 || c as u32 == 127 => r += &format!("\\u{:04x}", c as u32), c => r.push(c) } }
    r + "\""
}

fn report(out: &str, kind: &str, prop: &str, seed: u64, iter: u64, log: &[String], bads: &[String]) {
    let mut f = std::fs::File::create(out).unwrap();
    let _ = writeln!(f, "property {}\nkind {}\nseed {} iteration {}\n", prop, kind, seed, iter);
    let _ = writeln!(f, "observed:");
    for b in bads.iter().take(12) { let _ = writeln!(f, "  {}", b); }
    let _ = writeln!(f, "\nthe calls, in order (numbers are nodes in order of creation; [nodes n]: nodes that existed before the call):");
    for l in log { let _ = writeln!(f, "  {}", l); }
    let _ = writeln!(f, "\nreplay: /verif/harness/target/release/harness --property {} --iteration {} --seed-exact {}{}", prop, iter, seed,
        arg(&std::env::args().collect::<Vec<_>>(), "--dict").map_or(String::new(), |d| format!(" --dict {}", d)));
}

fn worker(prop: String, secs: f64, seed: u64, out: String, threads: usize, state: String, stats: String) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<Found>>> = Arc::new(Mutex::new(None));
    let all = Arc::new(Mutex::new(Stats { ops: 0, seen: HashSet::new(), samples: vec![] }));
    let t0 = Instant::now();
    let mut hs = vec![];
    for t in 0..threads {
        let (prop, stop, found, all, state) = (prop.clone(), stop.clone(), found.clone(), all.clone(), state.clone());
        hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let f = std::fs::OpenOptions::new().write(true).create(true).open(format!("{}.{}", state, t)).unwrap();
            let mut st = Stats { ops: 0, seen: HashSet::new(), samples: vec![] };
            let myseed = hash64(&(seed, t as u64));
            let mark = |i: u64| { let _ = f.write_at(format!("{:>20} {:>20}", myseed, i).as_bytes(), 0); };
            mark(u64::MAX);
            if let Some((what, bads)) = extras(&prop, t, threads, &mut st, &|| stop.load(Ordering::Relaxed)) {
                *found.lock().unwrap() = Some(Found { seed: myseed, iter: u64::MAX, log: vec![what], bads });
                stop.store(true, Ordering::Relaxed);
            }
            let mut i = 0;
            while !stop.load(Ordering::Relaxed) && (i == 0 || t0.elapsed() < Duration::from_secs_f64(secs)) {
                mark(i);
                if let Some(x) = sequence(&prop, myseed, i, &mut st) {
                    *found.lock().unwrap() = Some(x);
                    stop.store(true, Ordering::Relaxed);
                }
                i += 1;
            }
            let mut a = all.lock().unwrap();
            a.ops += st.ops;
            a.seen.extend(st.seen);
            a.samples.extend(st.samples);
        }).unwrap());
    }
    for h in hs { let _ = h.join(); }
    let st = all.lock().unwrap();
    let mut f = std::fs::File::create(&stats).unwrap();
    let _ = writeln!(f, "{{\"evaluations\": {}, \"distinct\": {}, \"samples\": [{}]}}", st.ops, st.seen.len(), st.samples.iter().take(6).map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    let x = found.lock().unwrap().take();
    if let Some(x) = x {
        report(&out, "difference from the documented behaviour", &prop, x.seed, x.iter, &x.log, &x.bads);
        return 10;
    }
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = arg(&a, "--property").unwrap_or("ALL".into());
    let secs: f64 = arg(&a, "--secs").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    let seed: u64 = arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = arg(&a, "--out").unwrap_or("/dev/stdout".into());
    let threads: usize = arg(&a, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let state = arg(&a, "--state").unwrap_or(format!("/tmp/harness.{}", std::process::id()));
    let stats = arg(&a, "--stats").unwrap_or("/dev/stdout".into());
    if let Some(d) = arg(&a, "--dict") { load_dict(&d) }
    if let Some(it) = arg(&a, "--iteration") {
        // replay one sequence, writing each call before it is made
        std::panic::set_hook(Box::new(|_| {}));
        let s: u64 = arg(&a, "--seed-exact").unwrap().parse().unwrap();
        let it: u64 = it.parse().unwrap();
        let tr = arg(&a, "--trace").map(|p| std::fs::File::create(p).unwrap());
        let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let mut st = Stats { ops: 0, seen: HashSet::new(), samples: vec![] };
            TRACE.with(|t| *t.borrow_mut() = tr);
            if it == u64::MAX {
                return match extras(&prop, 0, 1, &mut st, &|| false) { Some((w, b)) => { report(&out, "difference", &prop, s, it, &[w], &b); 10 } None => 0 };
            }
            match sequence(&prop, s, it, &mut st) { Some(x) => { report(&out, "difference", &prop, s, it, &x.log, &x.bads); 10 } None => 0 }
        }).unwrap();
        std::process::exit(h.join().unwrap_or(11));
    }
    std::process::exit(worker(prop, secs, seed, out, threads, state, stats));
}

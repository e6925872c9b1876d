//! The reference model: what the documented behaviour says, on plain data.
use std::collections::BTreeMap;

pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";
pub const XMLNS_NS: &str = "http://www.w3.org/2000/xmlns/";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum T { Element, Attribute, Text, CData, EntityReference, Entity, PI, Comment, Document, DocumentType, Fragment, Notation }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum E { IndexSize, HierarchyRequest, WrongDocument, InvalidCharacter, NotFound, InUseAttribute, InvalidState, Syntax, Namespace, Other }

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MName { pub ns: Option<String>, pub prefix: Option<String>, pub local: String }

impl MName {
    pub fn plain(s: &str) -> MName { MName { ns: None, prefix: None, local: s.to_string() } }
    pub fn q(&self) -> String {
        match &self.prefix { None => self.local.clone(), Some(p) => format!("{}:{}", p, self.local) }
    }
    pub fn is_ns_attr(&self) -> bool {
        self.ns.as_deref() == Some(XMLNS_NS)
            && (self.prefix.as_deref() == Some("xmlns") || (self.prefix.is_none() && self.local == "xmlns"))
    }
    pub fn is_id(&self, lax: bool) -> bool {
        self.local == "id" && (lax || self.prefix.as_deref() == Some("xml") || self.ns.as_deref() == Some(XML_NS))
    }
}

/// XML 1.1 NameStartChar without the colon, as (first, last) code points
const START: &[(u32, u32)] = &[(65, 90), (95, 95), (97, 122), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D),
    (0x37F, 0x1FFF), (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD),
    (0x10000, 0xEFFFF)];
const REST: &[(u32, u32)] = &[(45, 46), (48, 57), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)];
fn within(c: char, t: &[(u32, u32)]) -> bool { let c = c as u32; t.iter().any(|(a, b)| *a <= c && c <= *b) }

fn part(s: &str) -> Result<String, E> {
    let mut cs = s.chars();
    match cs.next() {
        None => Err(E::Syntax),
        Some(c) if within(c, START) && cs.all(|c| within(c, START) || within(c, REST)) => Ok(s.to_string()),
        _ => Err(E::InvalidCharacter),
    }
}

pub fn parse_name(s: &str) -> Result<MName, E> {
    if s.is_empty() { return Err(E::Syntax); }
    let n = s.matches(':').count();
    if n == 0 { return Ok(MName { ns: None, prefix: None, local: part(s)? }); }
    if n > 1 { return Err(E::Syntax); }
    let (p, l) = s.split_once(':').unwrap();
    let local = part(l)?;
    let prefix = part(p)?;
    Ok(MName { ns: None, prefix: Some(prefix), local })
}

pub fn name_ns(uri: &str, q: &str) -> Result<MName, E> {
    let mut n = parse_name(q)?;
    if uri.is_empty() { return Err(E::Syntax); }
    for p in [n.prefix.as_deref(), Some(n.local.as_str())].into_iter().flatten() {
        if (p == "xml" && uri != XML_NS) || (p == "xmlns" && uri != XMLNS_NS) { return Err(E::Namespace); }
    }
    n.ns = Some(uri.to_string());
    Ok(n)
}

pub fn escape(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c { '&' => r += "&#38;", '\'' => r += "&#39;", '>' => r += "&#62;", '<' => r += "&#60;", '"' => r += "&#34;", c => r.push(c) }
    }
    r
}

fn eol(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\r' => { if matches!(it.peek(), Some('\n') | Some('\u{85}')) { it.next(); } r.push('\n') }
            '\u{85}' | '\u{2028}' => r.push('\n'),
            c => r.push(c),
        }
    }
    r
}

/// attribute value normalization; None: it contains a reference whose treatment is not specified
pub fn norm_value(raw: &str) -> Option<String> {
    let s: Vec<char> = eol(raw).chars().collect();
    let mut r = String::new();
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if c == '&' || c == '%' {
            // a reference?
            if let Some(k) = s[i + 1..].iter().position(|c| *c == ';' || *c == '&' || *c == '%') {
                let body: String = s[i + 1..i + 1 + k].iter().collect();
                if s[i + 1 + k] == ';' && !body.is_empty() {
                    let f = body.chars().next().unwrap();
                    if f == '#' && c == '&' {
                        let d = &body[1..];
                        let num = if let Some(h) = d.strip_prefix('x') {
                            if !h.is_empty() && h.chars().all(|c| c.is_ascii_hexdigit()) { Some(u32::from_str_radix(h, 16).ok()) } else { None }
                        } else if !d.is_empty() && d.chars().all(|c| c.is_numeric()) { Some(d.parse::<u32>().ok()) } else { None };
                        match num {
                            None => (),
                            Some(None) => return None,
                            Some(Some(n)) => { r.push(char::from_u32(n)?); i += k + 2; continue }
                        }
                    } else if f.is_alphabetic() || f == '_' {
                        if c == '%' { return None; }
                        let x = match body.as_str() { "amp" => '&', "lt" => '<', "gt" => '>', "apos" => '\'', "quot" => '"', _ => return None };
                        r.push(x); i += k + 2; continue
                    }
                }
            }
        }
        r.push(if c == '\t' || c == '\n' || c == '\r' { ' ' } else { c });
        i += 1;
    }
    Some(r.trim_matches(' ').to_string())
}

#[derive(Clone, PartialEq, Debug)]
pub struct Decl { pub v11: bool, pub enc: Option<String>, pub sa: Option<bool> }

pub fn valid_encoding(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty() && b[0].is_ascii_alphabetic() && b.iter().all(|c| c.is_ascii_alphanumeric() || b"._-".contains(c))
}

impl Decl {
    pub fn text(&self) -> String {
        let mut s = format!("<?xml version=\"{}\"", if self.v11 { "1.1" } else { "1.0" });
        if let Some(e) = &self.enc { s += &format!(" encoding=\"{}\"", e); }
        if let Some(b) = self.sa { s += if b { " standalone=\"yes\"" } else { " standalone=\"no\"" }; }
        s + "?>"
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct MNode {
    pub ty: T, pub name: MName, pub value: Option<String>, pub parent: Option<usize>, pub owner: Option<usize>,
    pub kids: Vec<usize>, pub owner_el: Option<usize>, pub attrs: Vec<usize>, pub ns: BTreeMap<Option<String>, String>,
    pub ids: BTreeMap<String, usize>, pub opts: u8, pub decl: Option<Decl>, pub doctype: Option<usize>,
    pub public: Option<String>, pub system: Option<String>, pub dead: bool,
}

pub fn node(ty: T, name: MName, owner: Option<usize>) -> MNode {
    MNode { ty, name, value: None, parent: None, owner, kids: vec![], owner_el: None, attrs: vec![], ns: BTreeMap::new(), ids: BTreeMap::new(),
        opts: 0, decl: None, doctype: None, public: None, system: None, dead: false }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Model { pub n: Vec<MNode> }

pub const IDS: u8 = 1;
pub const ENT: u8 = 2;
pub const NSP: u8 = 4;

pub fn allowed(p: T, c: T) -> bool {
    use T::*;
    match p {
        Element | EntityReference | Entity | Fragment => matches!(c, Element | Text | CData | Comment | PI | EntityReference),
        Attribute => matches!(c, Text | EntityReference),
        Document => matches!(c, Element | Comment | PI),
        _ => false,
    }
}

impl Model {
    pub fn add(&mut self, n: MNode) -> usize { self.n.push(n); self.n.len() - 1 }
    pub fn anc_or_self(&self, a: usize, mut x: usize) -> bool {
        loop {
            if a == x { return true; }
            match self.n[x].parent.or(self.n[x].owner_el) { None => return false, Some(p) => x = p }
        }
    }
    /// the raw text of an attribute (None: no child)
    pub fn raw(&self, a: usize) -> Option<String> {
        if self.n[a].kids.is_empty() { return None; }
        let mut s = String::new();
        for k in &self.n[a].kids {
            if matches!(self.n[*k].ty, T::Text | T::EntityReference) { if let Some(v) = &self.n[*k].value { s += v; } }
        }
        Some(s)
    }
    /// value() of the node as an attribute: Err if it contains a reference that is out of scope
    pub fn value(&self, a: usize) -> Result<Option<String>, ()> {
        match self.raw(a) { None => Ok(None), Some(s) => norm_value(&s).map(|s| Some(escape(&s))).ok_or(()) }
    }
    pub fn doc_of(&self, n: usize) -> Option<usize> { if self.n[n].ty == T::Document { Some(n) } else { self.n[n].owner } }
    pub fn lax(&self, n: usize) -> bool { self.n[n].owner.map_or(false, |d| self.n[d].opts & IDS != 0) }
    pub fn add_ns(&self, n: usize) -> bool { self.n[n].owner.map_or(false, |d| self.n[d].opts & NSP != 0) }
    pub fn id_value(&self, a: usize) -> Option<String> {
        if self.n[a].ty == T::Attribute && self.n[a].name.is_id(self.lax(a)) { self.value(a).ok().flatten() } else { None }
    }
    pub fn attr_by_q(&self, e: usize, q: &str) -> Option<usize> { self.n[e].attrs.iter().copied().find(|a| self.n[*a].name.q() == q) }
    pub fn attr_by_ns(&self, e: usize, ns: &str, l: &str) -> Option<usize> {
        self.n[e].attrs.iter().copied().find(|a| self.n[*a].name.ns.as_deref() == Some(ns) && self.n[*a].name.local == l)
    }
    pub fn get_attr_node(&self, e: usize, q: &str) -> Option<usize> {
        if self.n[e].ty != T::Element || parse_name(q).is_err() { return None; }
        self.attr_by_q(e, q)
    }
    pub fn get_attr_node_ns(&self, e: usize, ns: &str, l: &str) -> Option<usize> {
        if self.n[e].ty != T::Element || name_ns(ns, l).is_err() { return None; }
        self.attr_by_ns(e, ns, l)
    }
    pub fn by_id(&self, d: usize, v: &str) -> Option<usize> { self.n[d].ids.get(v).copied().filter(|e| !self.n[*e].dead) }
    /// a node whose text may not be changed: it belongs to a set ID or namespace attribute
    pub fn locked(&self, x: usize) -> bool {
        let mut x = x;
        loop {
            let n = &self.n[x];
            if n.ty == T::Attribute { return n.owner_el.is_some() && (n.name.is_ns_attr() || n.name.local == "id"); }
            match n.parent { None => return false, Some(p) => x = p }
        }
    }

    // ---------------------------------------------------------------- structural operations
    pub fn same_doc_ok(&self, p: usize, c: usize) -> bool {
        match self.n[c].owner {
            None => true,
            Some(o) => if self.n[p].ty == T::Document { o == p } else { self.n[p].owner == Some(o) },
        }
    }
    pub fn hierarchy_bad(&self, p: usize, c: usize, minus: Option<usize>) -> bool {
        !allowed(self.n[p].ty, self.n[c].ty) || self.anc_or_self(c, p)
            || (self.n[p].ty == T::Document && self.n[c].ty == T::Element
                && self.n[p].kids.iter().any(|k| self.n[*k].ty == T::Element && *k != c && Some(*k) != minus))
    }
    fn unlink(&mut self, c: usize) {
        if let Some(q) = self.n[c].parent.take() { self.n[q].kids.retain(|k| *k != c); }
    }
    /// acceptable errors (empty: it must succeed)
    pub fn insert(&mut self, p: usize, c: usize, r: Option<usize>) -> Result<(), Vec<E>> {
        if self.hierarchy_bad(p, c, None) { return Err(vec![E::HierarchyRequest]); }
        let mut es = vec![];
        if let Some(r) = r { if !self.n[p].kids.contains(&r) { es.push(E::NotFound); } }
        if !self.same_doc_ok(p, c) { es.push(E::WrongDocument); }
        if !es.is_empty() { return Err(es); }
        let at_self = r == Some(c);
        let keep = if at_self { self.n[p].kids.iter().position(|k| *k == c) } else { None };
        self.unlink(c);
        let pos = match r { None => self.n[p].kids.len(), Some(_) if at_self => keep.unwrap(), Some(r) => self.n[p].kids.iter().position(|k| *k == r).unwrap() };
        self.n[p].kids.insert(pos, c);
        self.n[c].parent = Some(p);
        self.n[c].owner = if self.n[p].ty == T::Document { Some(p) } else { self.n[p].owner };
        Ok(())
    }
    pub fn replace(&mut self, p: usize, c: usize, o: usize) -> Result<(), Vec<E>> {
        let is = self.n[p].kids.contains(&o);
        if self.hierarchy_bad(p, c, Some(o)) { return Err(if is { vec![E::HierarchyRequest] } else { vec![E::HierarchyRequest, E::NotFound] }); }
        if !is { return Err(if self.same_doc_ok(p, c) { vec![E::NotFound] } else { vec![E::NotFound, E::WrongDocument] }); }
        if !self.same_doc_ok(p, c) { return Err(vec![E::WrongDocument]); }
        if c == o { return Ok(()); }
        self.unlink(c);
        let pos = self.n[p].kids.iter().position(|k| *k == o).unwrap();
        self.n[p].kids[pos] = c;
        self.n[o].parent = None;
        self.n[c].parent = Some(p);
        Ok(())
    }
    pub fn remove(&mut self, p: usize, c: usize) -> Result<(), Vec<E>> {
        if !self.n[p].kids.contains(&c) { return Err(vec![E::NotFound]); }
        self.unlink(c);
        Ok(())
    }
    // ---------------------------------------------------------------- attributes
    fn drop_attr(&mut self, e: usize, a: usize) {
        let id = self.id_value(a);
        self.n[e].attrs.retain(|x| *x != a);
        self.n[a].owner_el = None;
        let nm = self.n[a].name.clone();
        if nm.is_ns_attr() {
            let k = nm.prefix.as_ref().map(|_| nm.local.clone());
            self.n[e].ns.remove(&k);
        }
        if let (Some(v), Some(d)) = (id, self.n[a].owner) {
            if self.n[d].ids.get(&v) == Some(&e) { self.n[d].ids.remove(&v); }
        }
    }
    pub fn set_attr_node(&mut self, e: usize, a: usize) -> Result<(), Vec<E>> {
        if self.n[e].ty != T::Element || self.n[a].ty != T::Attribute { return Err(vec![E::InvalidState]); }
        let mut es = vec![];
        if !self.same_doc_ok(e, a) { es.push(E::WrongDocument); }
        if self.anc_or_self(a, e) { es.push(E::HierarchyRequest); }
        if self.n[a].owner_el.map_or(false, |o| o != e) { es.push(E::InUseAttribute); }
        let id = self.id_value(a);
        if let (Some(v), Some(d)) = (&id, self.n[a].owner) {
            if self.by_id(d, v).map_or(false, |x| x != e) { es.push(E::Syntax); }
        }
        if !es.is_empty() { return Err(es); }
        let nm = self.n[a].name.clone();
        if let Some(x) = self.attr_by_q(e, &nm.q()).filter(|x| *x != a) { self.drop_attr(e, x); }
        if let Some(ns) = &nm.ns { if let Some(x) = self.attr_by_ns(e, ns, &nm.local).filter(|x| *x != a) { self.drop_attr(e, x); } }
        if !self.n[e].attrs.contains(&a) { self.n[e].attrs.push(a); }
        self.n[a].owner_el = Some(e);
        if nm.is_ns_attr() && self.add_ns(e) {
            let v = self.value(a).unwrap().unwrap_or_default();
            let k = nm.prefix.as_ref().map(|_| nm.local.clone());
            self.n[e].ns.insert(k, v);
        }
        if let (Some(v), Some(d)) = (id, self.n[a].owner) { self.n[d].ids.insert(v, e); }
        Ok(())
    }
    pub fn remove_attr_node(&mut self, e: usize, a: usize) -> Result<(), Vec<E>> {
        if self.n[e].ty != T::Element { return Err(vec![E::InvalidState]); }
        if !self.n[e].attrs.contains(&a) { return Err(vec![E::NotFound]); }
        self.drop_attr(e, a);
        Ok(())
    }
    // ---------------------------------------------------------------- namespaces
    pub fn get_ns(&self, x: usize, p: &Option<String>) -> Option<String> {
        if !self.add_ns(x) { return None; }
        self.n[x].ns.get(p).cloned()
    }
    pub fn resolve_ns(&self, x: usize, p: &Option<String>) -> Option<String> {
        if !self.add_ns(x) { return None; }
        self.get_ns(x, p).or_else(|| self.n[x].parent.and_then(|q| self.resolve_ns(q, p)))
    }
    pub fn prefixes(&self, x: usize, u: &str) -> Vec<Option<String>> {
        if !self.add_ns(x) { return vec![]; }
        self.n[x].ns.iter().filter(|(_, v)| *v == u).map(|(k, _)| k.clone()).collect()
    }
    pub fn resolve_prefixes(&self, x: usize, u: &str) -> Vec<Option<String>> {
        let v = self.prefixes(x, u);
        if !v.is_empty() || !self.add_ns(x) { return v; }
        self.n[x].parent.map_or(vec![], |q| self.resolve_prefixes(q, u))
    }
    // ---------------------------------------------------------------- searching
    pub fn by_tag(&self, x: usize, tag: &str, out: &mut Vec<usize>) {
        if self.n[x].ty != T::Element { return; }
        if tag == "*" || self.n[x].name.q() == tag { out.push(x); }
        for k in &self.n[x].kids { self.by_tag(*k, tag, out); }
    }
    pub fn by_tag_ns(&self, x: usize, ns: &str, l: &str, out: &mut Vec<usize>) {
        if self.n[x].ty != T::Element { return; }
        let n = &self.n[x].name;
        if (ns == "*" || n.ns.as_deref() == Some(ns)) && (l == "*" || n.local == l) { out.push(x); }
        for k in &self.n[x].kids { self.by_tag_ns(*k, ns, l, out); }
    }
    pub fn doc_element(&self, d: usize) -> Option<usize> { self.n[d].kids.iter().copied().find(|k| self.n[*k].ty == T::Element) }
    // ---------------------------------------------------------------- text
    pub fn data(&self, x: usize) -> Option<String> {
        self.n[x].value.as_ref().map(|v| if matches!(self.n[x].ty, T::Text | T::Comment) { escape(v) } else { v.clone() })
    }
    /// consume the serialized form of x from s; Err: does not match; attributes of an element in any order
    pub fn eat<'a>(&self, s: &'a str, x: usize) -> Option<&'a str> {
        let n = &self.n[x];
        let q = n.name.q();
        let idpart = |sys_alone: bool| -> String {
            let mut r = String::new();
            match (&n.public, &n.system) {
                (Some(p), sy) => { r += &format!(" PUBLIC \"{}\"", p); if let Some(sy) = sy { if sys_alone { r += &format!(" SYSTEM \"{}\"", sy) } else { r += &format!(" \"{}\"", sy) } } }
                (None, Some(sy)) => r += &format!(" SYSTEM \"{}\"", sy),
                _ => (),
            }
            r
        };
        match n.ty {
            T::Element => {
                let mut s = s.strip_prefix(&format!("<{}", q))?;
                let mut left: Vec<usize> = n.attrs.clone();
                while !left.is_empty() {
                    let (i, rest) = left.iter().enumerate().find_map(|(i, a)| {
                        let v = self.value(*a).ok()?.unwrap_or_default();
                        s.strip_prefix(&format!(" {}=\"{}\"", self.n[*a].name.q(), v)).map(|r| (i, r))
                    })?;
                    left.remove(i);
                    s = rest;
                }
                s = s.strip_prefix('>')?;
                for k in &n.kids { s = self.eat(s, *k)?; }
                s.strip_prefix(&format!("</{}>", q))
            }
            T::Attribute => s.strip_prefix(&format!("{}=\"{}\"", q, self.value(x).ok()?.unwrap_or_default())),
            T::Text => s.strip_prefix(&self.data(x).unwrap_or_default()),
            T::CData => match self.data(x) { None => Some(s), Some(d) => s.strip_prefix(&format!("<![CDATA[ {} ]]>", d)) },
            T::Comment => match self.data(x) { None => Some(s), Some(d) => s.strip_prefix(&format!("<!--{}-->", d)) },
            T::PI => match &n.value { None => s.strip_prefix(&format!("<?{}?>", q)), Some(d) => s.strip_prefix(&format!("<?{} {}?>", q, d)) },
            T::EntityReference => s.strip_prefix(&format!("&{};", q)),
            T::Document => {
                let mut s = s;
                if let Some(d) = &n.decl { s = s.strip_prefix(&d.text())?; }
                if let Some(d) = n.doctype { s = self.eat(s, d)?; }
                for k in &n.kids { s = self.eat(s, *k)?; }
                Some(s)
            }
            T::DocumentType => s.strip_prefix(&format!("<!DOCTYPE {}{}>", q, idpart(true))),
            T::Fragment => {
                let mut s = s.strip_prefix("<![CDATA[#document-fragment ")?;
                for k in &n.kids { s = self.eat(s, *k)?; }
                s.strip_prefix("]]>")
            }
            T::Entity => if n.public.is_none() && n.system.is_none() {
                s.strip_prefix(&format!("<!ENTITY {} \"{}\">", q, n.value.clone().unwrap_or_default()))
            } else { s.strip_prefix(&format!("<!ENTITY {}{}>", q, idpart(false))) },
            T::Notation => s.strip_prefix(&format!("<!NOTATION {}{}>", q, idpart(false))),
        }
    }
    /// can x be displayed without meeting an unspecified reference?
    pub fn displayable(&self, x: usize) -> bool {
        let n = &self.n[x];
        n.attrs.iter().all(|a| self.value(*a).is_ok()) && (n.ty != T::Attribute || self.value(x).is_ok()) && n.kids.iter().all(|k| self.displayable(*k))
    }
}

//! Runs operations on the real library and on the model, and compares everything that can be observed.
use crate::model::*;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::result::Result;
use std::str::FromStr;
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::*;
use xml_dom::level2::ext::dom_impl as extimpl;
use xml_dom::level2::ext::{DocumentDecl, NamespacePrefix, Namespaced, ProcessingOptions, XmlDecl, XmlVersion};
use xml_dom::level2::{self as dom, *};

pub type R = RefNode;
pub struct Bad { pub props: Vec<&'static str>, pub what: String }
pub type Bads = Vec<Bad>;

#[derive(Debug, Clone)]
pub enum Op {
    Elem(usize, String), ElemNs(usize, String, String), Attr(usize, String), AttrWith(usize, String, String), AttrNs(usize, String, String),
    Text(usize, String), Comment(usize, String), CData(usize, String), Pi(usize, String, Option<String>), Frag(usize), EntRef(usize, String),
    DocType(String, Option<String>, Option<String>), Entity(usize, String, Option<String>, Option<String>), IntEntity(usize, String, String),
    Notation(usize, String, Option<String>, Option<String>),
    NewDoc(Option<String>, Option<String>, Option<usize>, Option<u8>),
    Insert(usize, usize, usize), Append(usize, usize), Replace(usize, usize, usize), Remove(usize, usize),
    SetAttr(usize, String, String), SetAttrNs(usize, String, String, String), RemAttr(usize, String), RemAttrNs(usize, String, String),
    SetAttrNode(usize, usize, bool), RemAttrNode(usize, usize), SetValue(usize, String), UnsetValue(usize),
    Substr(usize, usize, usize), AppendData(usize, String), InsData(usize, usize, String), DelData(usize, usize, usize),
    ReplData(usize, usize, usize, String), SetData(usize, String), UnsetData(usize), PiSet(usize, String), PiUnset(usize), SetNodeValue(usize, String), UnsetNodeValue(usize),
    Split(usize, usize), Normalize(usize), Clone(usize, bool), SetDecl(usize, bool, Option<String>, Option<bool>), Forget(usize),
}

pub fn terr(e: &dom::Error) -> E {
    use dom::Error as X;
    match e {
        X::IndexSize => E::IndexSize, X::HierarchyRequest => E::HierarchyRequest, X::WrongDocument => E::WrongDocument,
        X::InvalidCharacter => E::InvalidCharacter, X::NotFound => E::NotFound, X::InUseAttribute => E::InUseAttribute,
        X::InvalidState => E::InvalidState, X::Syntax => E::Syntax, X::Namespace => E::Namespace, _ => E::Other,
    }
}
pub fn ttype(t: NodeType) -> T {
    match t {
        NodeType::Element => T::Element, NodeType::Attribute => T::Attribute, NodeType::Text => T::Text, NodeType::CData => T::CData,
        NodeType::EntityReference => T::EntityReference, NodeType::Entity => T::Entity, NodeType::ProcessingInstruction => T::PI,
        NodeType::Comment => T::Comment, NodeType::Document => T::Document, NodeType::DocumentType => T::DocumentType,
        NodeType::DocumentFragment => T::Fragment, NodeType::Notation => T::Notation,
    }
}
fn mname(n: &Name) -> MName { MName { ns: n.namespace_uri().clone(), prefix: n.prefix().clone(), local: n.local_name().clone() } }

thread_local! { pub static TRACE: std::cell::RefCell<Option<std::fs::File>> = std::cell::RefCell::new(None); }
/// replay only: note what is about to be done, in case it never comes back
pub fn phase(props: &[&str], f: impl FnOnce() -> String) {
    use std::io::Write;
    TRACE.with(|t| if let Some(t) = t.borrow_mut().as_mut() { let _ = writeln!(t, "{}\t{}", f(), props.join(" ")); let _ = t.flush(); })
}

pub struct World { pub m: Model, pub r: Vec<Option<R>>, pub parts: [bool; 9], pub quiet: bool }

fn guard<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}
fn bad(props: &[&'static str], what: String) -> Bad { Bad { props: props.to_vec(), what } }

const PART_PROPS: [&[&'static str]; 9] = [&["C27", "C19"], &["C27", "C13"], &["C27", "C28"], &["C27", "C07", "C08"], &["C10", "C27"], &["C22", "C27"], &["C20", "C27"], &["C21"], &["C23"]];
pub fn op_props(op: &Op) -> &'static [&'static str] {
    use Op::*;
    match op {
        Elem(..) | ElemNs(..) | Attr(..) | AttrWith(..) | AttrNs(..) | Text(..) | Comment(..) | CData(..) | Pi(..) | Frag(..) | EntRef(..) => &["C18"],
        Entity(..) | IntEntity(..) | Notation(..) => &["C18", "C27"],
        DocType(..) => &["C26", "C18"],
        NewDoc(..) => &["C26"],
        Insert(..) | Append(..) => &["C02"],
        Replace(..) | Remove(..) => &["C03"],
        SetAttr(..) | RemAttr(..) => &["C07"],
        SetAttrNs(..) | RemAttrNs(..) => &["C08"],
        SetAttrNode(..) | RemAttrNode(..) => &["C07", "C09"],
        SetValue(..) | UnsetValue(..) => &["C07", "C28"],
        Substr(..) | AppendData(..) | InsData(..) | DelData(..) | ReplData(..) | SetData(..) | UnsetData(..) => &["C14"],
        PiSet(..) | PiUnset(..) | SetNodeValue(..) | UnsetNodeValue(..) => &["C14"],
        Split(..) => &["C15"], Normalize(..) => &["C16"], Clone(..) => &["C17"], SetDecl(..) => &["C24"], Forget(..) => &["C27"],
    }
}
pub fn is_struct(op: &Op) -> bool { matches!(op, Op::Insert(..) | Op::Append(..) | Op::Replace(..) | Op::Remove(..)) }

pub struct Pools { pub names: Vec<String>, pub uris: Vec<String>, pub prefixes: Vec<Option<String>>, pub ids: Vec<String>, pub tags: Vec<String> }

impl World {
    pub fn new() -> World { World { m: Model::default(), r: vec![], parts: [true; 9], quiet: false } }
    pub fn real(&self, i: usize) -> R { self.r[i].clone().unwrap() }
    pub fn push(&mut self, n: MNode, r: R) -> usize { self.r.push(Some(r)); self.m.add(n) }
    fn id_of(&self, x: &R) -> Option<usize> { self.r.iter().position(|r| r.as_ref() == Some(x)) }
    fn idn(&self, x: &R) -> String { self.id_of(x).map_or("?".to_string(), |i| format!("#{}", i)) }

    /// run one operation; Ok(true): carry on, Ok(false): cannot be compared further
    pub fn exec(&mut self, op: &Op, pools: &Pools) -> Result<bool, Bads> {
        let before = self.m.clone();
        let base = op_props(op).to_vec();
        let mut extra: Vec<&'static str> = vec![];
        let mut failed_expected = false;
        phase(&if is_struct(op) { [&base[..], &["C01", "C04"]].concat() } else if matches!(op, Op::Clone(..)) { vec!["C17"] } else { base.clone() }, || format!("[nodes {}] {:?}", before.n.len(), op));
        let cont = self.exec0(op, &base, &mut extra, &mut failed_expected)?;
        let mut tags = base.clone();
        tags.extend(extra);
        if failed_expected {
            debug_assert!(self.m == before);
            tags.push("C05");
        }
        if !cont { return Ok(false); }
        if self.quiet { return Ok(true); }
        phase(&["C27", "C01"], || "    reading the tree".to_string());
        self.compare(op, &tags, pools, before.n.len())?;
        Ok(true)
    }

    fn exec0(&mut self, op: &Op, base: &[&'static str], extra: &mut Vec<&'static str>, fe: &mut bool) -> Result<bool, Bads> {
        use Op::*;
        macro_rules! run { ($e:expr) => { match guard(|| $e) { Ok(x) => x, Err(p) => {
            let mut t = base.to_vec();
            if is_struct(op) { t.push("C01"); t.push("C04"); }
            return Err(vec![bad(&t, format!("{:?} panics: {}", op, p))]) } } } }
        macro_rules! fail { ($t:expr, $($a:tt)*) => { { let mut t: Vec<&'static str> = base.to_vec(); t.extend_from_slice($t); return Err(vec![bad(&t, format!($($a)*))]) } } }
        match op {
            // ------------------------------------------------------------ factories
            Elem(..) | ElemNs(..) | Attr(..) | AttrWith(..) | AttrNs(..) | Text(..) | Comment(..) | CData(..) | Pi(..) | Frag(..) | EntRef(..)
            | Entity(..) | IntEntity(..) | Notation(..) | DocType(..) => {
                let d = match op {
                    Elem(d, ..) | ElemNs(d, ..) | Attr(d, ..) | AttrWith(d, ..) | AttrNs(d, ..) | Text(d, ..) | Comment(d, ..) | CData(d, ..)
                    | Pi(d, ..) | Frag(d) | EntRef(d, ..) | Entity(d, ..) | IntEntity(d, ..) | Notation(d, ..) => Some(*d),
                    _ => None,
                };
                let (want, ntags): (Result<MNode, E>, &[&'static str]) = match op {
                    Elem(_, n) => (parse_name(n).map(|n| node(T::Element, n, d)), &["C11"]),
                    ElemNs(_, u, n) => (name_ns(u, n).map(|n| node(T::Element, n, d)), &["C11", "C12"]),
                    Attr(_, n) => (parse_name(n).map(|n| node(T::Attribute, n, d)), &["C11"]),
                    AttrWith(_, n, _) => (parse_name(n).map(|n| node(T::Attribute, n, d)), &["C11"]),
                    AttrNs(_, u, n) => (name_ns(u, n).map(|n| node(T::Attribute, n, d)), &["C11", "C12"]),
                    Text(_, v) => (Ok(MNode { value: Some(v.clone()), ..node(T::Text, MName::plain("#text"), d) }), &[]),
                    Comment(_, v) => (Ok(MNode { value: Some(v.clone()), ..node(T::Comment, MName::plain("#comment"), d) }), &[]),
                    CData(_, v) => (Ok(MNode { value: Some(v.clone()), ..node(T::CData, MName::plain("#cdata-section"), d) }), &[]),
                    Pi(_, t, v) => (if t.to_ascii_lowercase() == "xml" { Err(E::Syntax) } else { parse_name(t).map(|n| MNode { value: v.clone(), ..node(T::PI, n, d) }) }, &["C11"]),
                    Frag(_) => (Ok(node(T::Fragment, MName::plain("#document-fragment"), d)), &[]),
                    EntRef(_, n) => (parse_name(n).map(|n| node(T::EntityReference, n, d)), &["C11"]),
                    DocType(n, p, s) => (parse_name(n).map(|n| MNode { public: p.clone(), system: s.clone(), ..node(T::DocumentType, n, None) }), &["C11"]),
                    Entity(_, n, p, s) => (parse_name(n).map(|n| MNode { public: p.clone(), system: s.clone(), ..node(T::Entity, n, d) }), &["C11"]),
                    IntEntity(_, n, v) => (parse_name(n).map(|n| MNode { value: Some(v.clone()), ..node(T::Entity, n, d) }), &["C11"]),
                    Notation(_, n, p, s) => (parse_name(n).map(|n| MNode { public: p.clone(), system: s.clone(), ..node(T::Notation, n, d) }), &["C11"]),
                    _ => unreachable!(),
                };
                let doc = d.map(|d| self.real(d));
                let got = match guard(|| {
                    let dd = || as_document(doc.as_ref().unwrap()).unwrap();
                    match op {
                        Elem(_, n) => dd().create_element(n),
                        ElemNs(_, u, n) => dd().create_element_ns(u, n),
                        Attr(_, n) => dd().create_attribute(n),
                        AttrWith(_, n, v) => dd().create_attribute_with(n, v),
                        AttrNs(_, u, n) => dd().create_attribute_ns(u, n),
                        Text(_, v) => Ok(dd().create_text_node(v)),
                        Comment(_, v) => Ok(dd().create_comment(v)),
                        CData(_, v) => dd().create_cdata_section(v),
                        Pi(_, t, v) => dd().create_processing_instruction(t, v.as_deref()),
                        Frag(_) => dd().create_document_fragment(),
                        EntRef(_, n) => dd().create_entity_reference(n),
                        DocType(n, p, s) => get_implementation().create_document_type(n, p.as_deref(), s.as_deref()),
                        Entity(_, n, p, s) => extimpl::create_entity(doc.clone().unwrap(), n, p.as_deref(), s.as_deref()),
                        IntEntity(_, n, v) => extimpl::create_internal_entity(doc.clone().unwrap(), n, v),
                        Notation(_, n, p, s) => extimpl::create_notation(doc.clone().unwrap(), n, p.as_deref(), s.as_deref()),
                        _ => unreachable!(),
                    }
                }) { Ok(x) => x, Err(p) => fail!(ntags, "{:?} panics: {}", op, p) };
                match (want, got) {
                    (Err(e), Err(g)) if e == terr(&g) => { *fe = true; }
                    (Ok(n), Ok(r)) => {
                        if self.id_of(&r).is_some() { fail!(&[], "{:?} returned an existing node", op); }
                        extra.extend(["C27", "C06"]);
                        let i = self.push(n, r.clone());
                        if let AttrWith(_, _, v) = op {
                            match self.one_text(&r, i, d, v) { Ok(()) => (), Err(s) => fail!(&[], "{:?}: {}", op, s) }
                        }
                    }
                    (w, g) => fail!(ntags, "{:?}: expected {:?}, got {:?}", op, w.map(|n| n.name), g.map(|n| mname(&n.node_name()))),
                }
            }
            NewDoc(u, q, dt, opts) => {
                let mut es = vec![];
                let mut name = None;
                match (u, q) {
                    (Some(u), Some(q)) => match name_ns(u, q) { Ok(n) => name = Some(n), Err(e) => es.push(e) },
                    (None, Some(q)) => match parse_name(q) { Ok(n) => name = Some(n), Err(e) => es.push(e) },
                    (Some(_), None) => es.push(E::Namespace),
                    _ => (),
                }
                if let Some(dt) = dt { if self.m.n[*dt].owner.is_some() { es.push(E::WrongDocument) } }
                let rdt = dt.map(|d| self.real(d));
                let got = run!(match opts {
                    None => get_implementation().create_document(u.as_deref(), q.as_deref(), rdt.clone()),
                    Some(o) => extimpl::get_implementation_ext().create_document_with_options(u.as_deref(), q.as_deref(), rdt.clone(), mkopts(*o)),
                });
                match got {
                    Err(g) if es.contains(&terr(&g)) => { *fe = true; }
                    Ok(r) if es.is_empty() => {
                        extra.extend(["C27", "C06", "C25"]);
                        let kids = r.child_nodes();
                        let i = self.push(MNode { opts: opts.unwrap_or(NSP), doctype: *dt, ..node(T::Document, MName::plain("#document"), None) }, r);
                        if let Some(dt) = dt { self.m.n[*dt].owner = Some(i); }
                        if let Some(n) = name {
                            if kids.len() != 1 { fail!(&[], "{:?}: the new document has {} children", op, kids.len()); }
                            let e = self.push(MNode { parent: Some(i), ..node(T::Element, n, Some(i)) }, kids[0].clone());
                            self.m.n[i].kids.push(e);
                        }
                    }
                    g => fail!(&["C06"], "{:?}: expected {:?}, got {:?}", op, es, g.map(|n| mname(&n.node_name()))),
                }
            }
            // ------------------------------------------------------------ tree
            Insert(..) | Append(..) | Replace(..) | Remove(..) => {
                let before = self.m.clone();
                let want = match op {
                    Insert(p, c, r) => self.m.insert(*p, *c, Some(*r)),
                    Append(p, c) => self.m.insert(*p, *c, None),
                    Replace(p, c, o) => self.m.replace(*p, *c, *o),
                    Remove(p, c) => self.m.remove(*p, *c),
                    _ => unreachable!(),
                };
                let (mut rp, rc, ro, expect) = match op {
                    Insert(p, c, r) => (self.real(*p), self.real(*c), Some(self.real(*r)), *c),
                    Append(p, c) => (self.real(*p), self.real(*c), None, *c),
                    Replace(p, c, o) => (self.real(*p), self.real(*c), Some(self.real(*o)), *o),
                    Remove(p, c) => (self.real(*p), self.real(*c), None, *c),
                    _ => unreachable!(),
                };
                let got = run!(match op {
                    Insert(..) => rp.insert_before(rc.clone(), ro.clone()),
                    Append(..) => rp.append_child(rc.clone()),
                    Replace(..) => rp.replace_child(rc.clone(), ro.clone().unwrap()),
                    _ => rp.remove_child(rc.clone()),
                });
                match (want, got) {
                    (Err(es), Err(g)) if es.contains(&terr(&g)) => { *fe = true; }
                    (Ok(()), Ok(x)) => if x != self.real(expect) { fail!(&[], "{:?} returned {} instead of #{}", op, self.idn(&x), expect) },
                    (Err(es), g) => {
                        let mut t: Vec<&'static str> = vec![];
                        let ge = g.as_ref().err().map(terr);
                        if es.contains(&E::HierarchyRequest) || ge == Some(E::HierarchyRequest) { t.push("C04"); }
                        if es.contains(&E::WrongDocument) || ge == Some(E::WrongDocument) { t.push("C06"); }
                        if g.is_ok() {
                            // inserting below itself makes a cycle
                            if let Insert(p, c, _) | Append(p, c) | Replace(p, c, _) = op { if before.anc_or_self(*c, *p) { t.push("C01"); } }
                        }
                        fail!(&t, "{:?}: expected one of {:?}, got {:?}", op, es, g.map(|x| self.idn(&x)))
                    }
                    (Ok(()), Err(g)) => {
                        let mut t: Vec<&'static str> = vec![];
                        if terr(&g) == E::HierarchyRequest { t.push("C04"); }
                        if terr(&g) == E::WrongDocument { t.push("C06"); }
                        fail!(&t, "{:?}: expected success, got {:?}", op, g)
                    }
                }
                // is the documented content model kept?
                extra.push("C06");
            }
            // ------------------------------------------------------------ attributes
            SetAttr(e, n, v) => {
                extra.extend(["C10", "C22"]);
                let want = parse_name(n).map_err(|e| vec![e]).and_then(|n| { let a = self.new_attr(*e, n, v); self.m.set_attr_node(*e, a).map_err(|x| { self.m.n.truncate(a); x }).map(|_| a) });
                let mut r = self.real(*e);
                let got = run!(as_element_mut(&mut r).unwrap().set_attribute(n, v));
                match (want, got) {
                    (Err(es), Err(g)) if es.contains(&terr(&g)) => { *fe = true; }
                    (Ok(a), Ok(())) => {
                        let q = n.clone();
                        if let Err(s) = self.adopt_attr(&r, a, |k| mname(k).q() == q) { fail!(&[], "{:?}: {}", op, s) }
                    }
                    (w, g) => { let t: &[&'static str] = if parse_name(n).is_err() { &["C11"] } else { &["C10", "C09"] }; fail!(t, "{:?}: expected {:?}, got {:?}", op, w, g) }
                }
            }
            SetAttrNs(e, u, n, v) => {
                extra.extend(["C10", "C22"]);
                let want = name_ns(u, n).map_err(|e| vec![e]).and_then(|n| { let a = self.new_attr(*e, n, v); self.m.set_attr_node(*e, a).map_err(|x| { self.m.n.truncate(a); x }).map(|_| a) });
                let mut r = self.real(*e);
                let got = run!(as_element_mut(&mut r).unwrap().set_attribute_ns(u, n, v));
                match (want, got) {
                    (Err(es), Err(g)) if es.contains(&terr(&g)) => { *fe = true; }
                    (Ok(a), Ok(())) => {
                        let w = self.m.n[a].name.clone();
                        if let Err(s) = self.adopt_attr(&r, a, |k| mname(k) == w) { fail!(&[], "{:?}: {}", op, s) }
                    }
                    (w, g) => { let t: &[&'static str] = if name_ns(u, n).is_err() { &["C11", "C12"] } else { &["C10", "C09"] }; fail!(t, "{:?}: expected {:?}, got {:?}", op, w, g) }
                }
            }
            RemAttr(e, n) => {
                extra.extend(["C10", "C22"]);
                if let Some(a) = self.m.get_attr_node(*e, n) { self.m.remove_attr_node(*e, a).unwrap(); }
                let mut r = self.real(*e);
                let got = run!(as_element_mut(&mut r).unwrap().remove_attribute(n));
                if got.is_err() { fail!(&[], "{:?}: {:?}", op, got) }
            }
            RemAttrNs(e, u, n) => {
                extra.extend(["C10", "C22"]);
                if let Some(a) = self.m.get_attr_node_ns(*e, u, n) { self.m.remove_attr_node(*e, a).unwrap(); }
                let mut r = self.real(*e);
                let got = run!(as_element_mut(&mut r).unwrap().remove_attribute_ns(u, n));
                if got.is_err() { fail!(&[], "{:?}: {:?}", op, got) }
            }
            SetAttrNode(e, a, _) | RemAttrNode(e, a) => {
                extra.extend(["C10", "C22"]);
                let ns = matches!(op, SetAttrNode(_, _, true));
                if ns { extra.push("C08") }
                let set = matches!(op, SetAttrNode(..));
                let want = if set { self.m.set_attr_node(*e, *a) } else { self.m.remove_attr_node(*e, *a) };
                let (mut r, ra) = (self.real(*e), self.real(*a));
                let got = run!(if set { if ns { r.set_attribute_node_ns(ra.clone()) } else { r.set_attribute_node(ra.clone()) } } else { r.remove_attribute_node(ra.clone()) });
                match (want, got) {
                    (Err(es), Err(g)) if es.contains(&terr(&g)) => { *fe = true; }
                    (Ok(()), Ok(x)) => if x != ra { fail!(&[], "{:?} returned {}", op, self.idn(&x)) },
                    (w, g) => {
                        let mut t = vec![];
                        let es = w.clone().err().unwrap_or_default();
                        let ge = g.as_ref().err().map(terr);
                        if es.contains(&E::WrongDocument) || ge == Some(E::WrongDocument) { t.push("C06"); }
                        if es.contains(&E::Syntax) || ge == Some(E::Syntax) { t.push("C10"); }
                        fail!(&t, "{:?}: expected {:?}, got {:?}", op, w, g.map(|x| self.idn(&x)))
                    }
                }
            }
            SetValue(a, v) => {
                let mut r = self.real(*a);
                let got = run!(as_attribute_mut(&mut r).unwrap().set_value(v));
                if got.is_err() { fail!(&[], "{:?}: {:?}", op, got) }
                for k in std::mem::take(&mut self.m.n[*a].kids) { self.m.n[k].parent = None; }
                let d = self.m.n[*a].owner;
                if let Err(s) = self.one_text(&r, *a, d, v) { fail!(&[], "{:?}: {}", op, s) }
            }
            UnsetValue(a) => {
                let mut r = self.real(*a);
                let got = run!(as_attribute_mut(&mut r).unwrap().unset_value());
                if got.is_err() { fail!(&[], "{:?}: {:?}", op, got) }
                for k in std::mem::take(&mut self.m.n[*a].kids) { self.m.n[k].parent = None; }
            }
            // ------------------------------------------------------------ character data
            Substr(x, o, c) => {
                let want = slice(&self.m.n[*x].value, *o, *c).map(|(a, b)| self.m.n[*x].value.as_ref().map_or(String::new(), |v| v[a..b].to_string()));
                let r = self.real(*x);
                let got = run!(as_character_data(&r).unwrap().substring_data(*o, *c));
                match (want, got) {
                    (Err(e), Err(g)) if e == terr(&g) => { *fe = true; }
                    (Ok(s), Ok(t)) if s == t => (),
                    (w, g) => fail!(&[], "{:?} on {:?}: expected {:?}, got {:?}", op, self.m.n[*x].value, w, g),
                }
            }
            AppendData(..) | InsData(..) | DelData(..) | ReplData(..) | SetData(..) | UnsetData(..) => {
                let x = match op { AppendData(x, ..) | InsData(x, ..) | DelData(x, ..) | ReplData(x, ..) | SetData(x, ..) | UnsetData(x) => *x, _ => unreachable!() };
                let old = self.m.n[x].value.clone();
                let want: Result<Option<String>, E> = match op {
                    AppendData(_, s) => Ok(if s.is_empty() { old.clone() } else { Some(format!("{}{}", old.clone().unwrap_or_default(), s)) }),
                    InsData(_, _, s) if s.is_empty() => Ok(old.clone()),
                    DelData(_, _, 0) => Ok(old.clone()),
                    InsData(_, o, s) => edit(&old, *o, 0, s),
                    DelData(_, o, c) => edit(&old, *o, *c, ""),
                    ReplData(_, o, c, s) => edit(&old, *o, *c, s),
                    SetData(_, s) => Ok(Some(s.clone())),
                    _ => Ok(None),
                };
                let mut r = self.real(x);
                let got = run!({
                    let c = as_character_data_mut(&mut r).unwrap();
                    match op {
                        AppendData(_, s) => c.append_data(s),
                        InsData(_, o, s) => c.insert_data(*o, s),
                        DelData(_, o, n) => c.delete_data(*o, *n),
                        ReplData(_, o, n, s) => c.replace_data(*o, *n, s),
                        SetData(_, s) => c.set_data(s),
                        _ => c.unset_data(),
                    }
                });
                match (want, got) {
                    (Err(e), Err(g)) if e == terr(&g) => { *fe = true; }
                    (Ok(v), Ok(())) => self.m.n[x].value = v,
                    (w, g) => fail!(&[], "{:?} on {:?}: expected {:?}, got {:?}", op, old, w, g),
                }
            }
            PiSet(x, _) | PiUnset(x) | SetNodeValue(x, _) | UnsetNodeValue(x) => {
                let mut r = self.real(*x);
                let got = run!(match op {
                    PiSet(_, s) => as_processing_instruction_mut(&mut r).unwrap().set_data(s),
                    PiUnset(_) => as_processing_instruction_mut(&mut r).unwrap().unset_data(),
                    SetNodeValue(_, s) => r.set_node_value(s),
                    _ => r.unset_node_value(),
                });
                if got.is_err() { fail!(&[], "{:?}: {:?}", op, got) }
                self.m.n[*x].value = match op { PiSet(_, s) | SetNodeValue(_, s) => Some(s.clone()), _ => None };
            }
            Split(x, o) => {
                let old = self.m.n[*x].value.clone();
                let len = old.as_ref().map_or(0, |s| s.len());
                let want: Result<String, E> = if *o >= len { Ok(String::new()) } else {
                    let s = old.as_ref().unwrap();
                    if s.is_char_boundary(*o) { Ok(s[*o..].to_string()) } else { Err(E::IndexSize) }
                };
                let mut r = self.real(*x);
                let got = run!(if self.m.n[*x].ty == T::Text { as_text_mut(&mut r).unwrap().split(*o) } else { as_cdata_section_mut(&mut r).unwrap().split(*o) });
                match (want, got) {
                    (Err(e), Err(g)) if e == terr(&g) => { *fe = true; }
                    (Ok(rest), Ok(n)) => {
                        extra.push("C01");
                        if self.id_of(&n).is_some() { fail!(&[], "{:?} returned an existing node", op) }
                        let mut nn = self.m.n[*x].clone();
                        if *o < len { self.m.n[*x].value = Some(old.unwrap()[..*o].to_string()); }
                        nn.value = Some(rest);
                        let p = nn.parent;
                        let i = self.push(nn, n);
                        if let Some(p) = p {
                            let k = self.m.n[p].kids.iter().position(|k| k == x).unwrap();
                            self.m.n[p].kids.insert(k + 1, i);
                        }
                    }
                    (w, g) => fail!(&[], "{:?} on {:?}: expected {:?}, got {:?}", op, old, w, g.map(|n| n.node_value())),
                }
            }
            Normalize(x) => {
                let mut r = self.real(*x);
                run!(r.normalize());
                extra.push("C01");
                if let Err(s) = self.normalized(*x) { fail!(&[], "{:?}: {}", op, s) }
            }
            Clone(x, deep) => {
                let r = self.real(*x);
                let got = match run!(r.clone_node(*deep)) { Some(g) => g, None => fail!(&[], "{:?} returned none", op) };
                extra.extend(["C01", "C06"]);
                let n0 = self.m.n.len();
                if let Err(s) = self.cloned(*x, &got, *deep, true) { fail!(&[], "{:?}: {}", op, s) }
                debug_assert!(self.m.n.len() > n0);
            }
            SetDecl(d, v11, enc, sa) => {
                let valid = enc.as_ref().map_or(true, |e| valid_encoding(e));
                let v = if *v11 { XmlVersion::V11 } else { XmlVersion::V10 };
                let decl = guard(|| XmlDecl::new(v, enc.clone(), *sa));
                match (valid, decl) {
                    (false, Err(_)) => (),
                    (true, Ok(decl)) => {
                        let mut r = self.real(*d);
                        let got = run!(r.set_xml_declaration(decl.clone()));
                        if self.m.n[*d].ty == T::Document {
                            if got.is_err() { fail!(&[], "{:?}: {:?}", op, got) }
                            self.m.n[*d].decl = Some(Decl { v11: *v11, enc: enc.clone(), sa: *sa });
                        } else {
                            if got.as_ref().err().map(terr) != Some(E::InvalidState) { fail!(&[], "{:?}: {:?}", op, got) }
                            *fe = true;
                        }
                    }
                    (v, d) => fail!(&[], "{:?}: valid {}, accepted {}", op, v, d.is_ok()),
                }
            }
            Forget(x) => {
                // nothing else refers to x: it is dropped, its children and attributes stay
                self.r[*x] = None;
                self.m.n[*x].dead = true;
                for k in std::mem::take(&mut self.m.n[*x].kids) { self.m.n[k].parent = None; }
                for a in std::mem::take(&mut self.m.n[*x].attrs) { self.m.n[a].owner_el = None; }
            }
        }
        Ok(true)
    }

    fn new_attr(&mut self, e: usize, name: MName, v: &str) -> usize {
        let d = self.m.n[e].owner;
        let a = self.m.add(node(T::Attribute, name, d));
        let t = self.m.add(MNode { value: Some(v.to_string()), parent: Some(a), ..node(T::Text, MName::plain("#text"), d) });
        self.m.n[a].kids.push(t);
        a
    }
    /// the real nodes of an attribute made by set_attribute
    fn adopt_attr(&mut self, e: &R, a: usize, f: impl Fn(&Name) -> bool) -> Result<(), String> {
        let at = e.attributes();
        let found: Vec<R> = at.iter().filter(|(k, _)| f(k)).map(|(_, v)| v.clone()).collect();
        if found.len() != 1 { return Err(format!("{} attributes of that name afterwards", found.len())); }
        if self.id_of(&found[0]).is_some() { return Err("an existing attribute node was used".to_string()); }
        let ks = found[0].child_nodes();
        if ks.len() != 1 { return Err(format!("the new attribute has {} children", ks.len())); }
        self.r.push(Some(found[0].clone()));
        self.r.push(Some(ks[0].clone()));
        debug_assert!(self.r.len() == a + 2);
        Ok(())
    }
    fn one_text(&mut self, r: &R, a: usize, d: Option<usize>, v: &str) -> Result<(), String> {
        let ks = r.child_nodes();
        if ks.len() != 1 || self.id_of(&ks[0]).is_some() { return Err(format!("the attribute has {} children, expected one new text", ks.len())); }
        let t = self.push(MNode { value: Some(v.to_string()), parent: Some(a), ..node(T::Text, MName::plain("#text"), d) }, ks[0].clone());
        self.m.n[a].kids.push(t);
        Ok(())
    }
    fn normalized(&mut self, x: usize) -> Result<(), String> {
        let old = self.m.n[x].kids.clone();
        let now: Vec<R> = self.real(x).child_nodes();
        let mut ids = vec![];
        for k in &now { ids.push(self.id_of(k).ok_or("a new node appeared".to_string())?); }
        let text = |w: &World, k: &usize| w.m.n[*k].ty == T::Text;
        let o: Vec<usize> = old.iter().copied().filter(|k| !text(self, k)).collect();
        let n: Vec<usize> = ids.iter().copied().filter(|k| !text(self, k)).collect();
        if o != n { return Err(format!("children of #{} other than text were {:?}, are {:?}", x, o, n)); }
        // text between the others
        let runs = |w: &World, v: &Vec<usize>, real: bool| -> Vec<Vec<(usize, String)>> {
            let mut r = vec![vec![]];
            for k in v {
                if text(w, k) { r.last_mut().unwrap().push((*k, if real { w.real(*k).node_value() } else { w.m.n[*k].value.clone() }.unwrap_or_default())) } else { r.push(vec![]) }
            }
            r
        };
        let (a, b) = (runs(self, &old, false), runs(self, &ids, true));
        for (p, q) in a.iter().zip(&b) {
            let s: String = p.iter().map(|x| x.1.as_str()).collect();
            let t: String = q.iter().map(|x| x.1.as_str()).collect();
            if s != t { return Err(format!("text in a run of children of #{} was {:?}, is {:?}", x, s, t)); }
            if q.len() > 1 { return Err(format!("adjacent text nodes remain in #{}", x)); }
            if q.iter().any(|x| x.1.is_empty()) { return Err(format!("an empty text node remains in #{}", x)); }
            if q.iter().any(|y| !p.iter().any(|z| z.0 == y.0)) { return Err(format!("a text node of #{} moved", x)); }
            for (k, _) in p {
                if q.iter().any(|y| y.0 == *k) { self.m.n[*k].value = self.real(*k).node_value(); }
                else { self.m.n[*k].parent = None; self.m.n[*k].value = self.real(*k).node_value(); }
            }
        }
        self.m.n[x].kids = ids.clone();
        for k in n { self.normalized(k)?; }
        Ok(())
    }
    fn cloned(&mut self, x: usize, r: &R, deep: bool, top: bool) -> Result<usize, String> {
        if self.id_of(r).is_some() { return Err(format!("the clone of #{} is not a new node", x)); }
        let n = self.m.n[x].clone();
        let i = self.push(MNode { parent: None, owner_el: None, kids: vec![], attrs: vec![], ids: BTreeMap::new(), ..n.clone() }, r.clone());
        let _ = top;
        let rk = r.child_nodes();
        let want = if deep { n.kids.len() } else { 0 };
        if rk.len() != want { return Err(format!("the clone of #{} has {} children, expected {}", x, rk.len(), want)); }
        if deep {
            for (k, c) in n.kids.iter().zip(rk) { let j = self.cloned(*k, &c, true, false)?; self.m.n[j].parent = Some(i); self.m.n[i].kids.push(j); }
        }
        let ra = r.attributes();
        if ra.len() != n.attrs.len() { return Err(format!("the clone of #{} has {} attributes, expected {}", x, ra.len(), n.attrs.len())); }
        for a in &n.attrs {
            let nm = self.m.n[*a].name.clone();
            match ra.iter().find(|(k, _)| mname(k) == nm) {
                None => return Err(format!("the clone of #{} lacks attribute {}", x, nm.q())),
                Some((_, c)) => { let j = self.cloned(*a, c, true, false)?; self.m.n[j].owner_el = Some(i); self.m.n[i].attrs.push(j); }
            }
        }
        Ok(i)
    }

    // ---------------------------------------------------------------- comparison
    fn raw_compare(&self, tags: &[&'static str], when: &str) -> Bads {
        let mut out = vec![];
        let ids = |v: &[R]| -> Vec<Option<usize>> { v.iter().map(|x| self.id_of(x)).collect() };
        for (i, m) in self.m.n.iter().enumerate() {
            let r = match &self.r[i] { None => continue, Some(r) => r };
            let mut miss = |extra: &[&'static str], f: &str, want: String, got: String| {
                if want != got {
                    let mut t = tags.to_vec(); t.extend_from_slice(extra);
                    out.push(bad(&t, format!("{}: {} of #{} ({:?}) should be {}, is {}", when, f, i, m.ty, want, got)));
                }
            };
            let res = guard(|| {
                miss(&["C27"], "type", format!("{:?}", m.ty), format!("{:?}", ttype(r.node_type())));
                miss(&[], "name", format!("{:?}", m.name), format!("{:?}", mname(&r.node_name())));
                miss(&[], "value", format!("{:?}", m.value), format!("{:?}", r.node_value()));
                let opt = |x: Option<usize>| -> String { format!("{:?}", x.map(Some)) };
                miss(&[], "parent", opt(m.parent), format!("{:?}", r.parent_node().map(|x| self.id_of(&x))));
                let ks: Vec<Option<usize>> = m.kids.iter().map(|k| Some(*k)).collect();
                miss(&[], "children", format!("{:?}", ks), format!("{:?}", ids(&r.child_nodes())));
                miss(&["C06"], "owner document", opt(m.owner), format!("{:?}", r.owner_document().map(|x| self.id_of(&x))));
                miss(&["C09"], "owner element", opt(m.owner_el), format!("{:?}", r.owner_element().map(|x| self.id_of(&x))));
                let mut a: Vec<(String, Option<usize>)> = m.attrs.iter().map(|a| (format!("{:?}", self.m.n[*a].name), Some(*a))).collect();
                a.sort();
                let mut b: Vec<(String, Option<usize>)> = r.attributes().iter().map(|(k, v)| (format!("{:?}", mname(k)), self.id_of(v))).collect();
                b.sort();
                miss(&["C09"], "attributes", format!("{:?}", a), format!("{:?}", b));
                if m.ty == T::Document {
                    miss(&["C26"], "document type", opt(m.doctype), format!("{:?}", r.doc_type().map(|x| self.id_of(&x))));
                }
            });
            if let Err(p) = res { out.push(bad(&["C27"], format!("{}: reading #{} panics: {}", when, i, p))); }
        }
        out
    }

    fn links(&self, op: &Op) -> Bads {
        let mut out = vec![];
        for (i, r) in self.r.iter().enumerate() {
            let r = match r { None => continue, Some(r) => r };
            let ks = r.child_nodes();
            for (j, k) in ks.iter().enumerate() {
                if ks[..j].contains(k) { out.push(bad(&["C01"], format!("after {:?}: {} is in the child list of #{} twice", op, self.idn(k), i))); }
                if k.parent_node().as_ref() != Some(r) { out.push(bad(&["C01"], format!("after {:?}: {} is a child of #{} but has parent {:?}", op, self.idn(k), i, k.parent_node().map(|x| self.idn(&x))))); }
            }
            if let Some(p) = r.parent_node() {
                if !p.child_nodes().contains(r) { out.push(bad(&["C01"], format!("after {:?}: #{} has parent {} but is not among its children", op, i, self.idn(&p)))); }
            }
            let mut x = r.clone();
            let mut n = 0;
            while let Some(p) = x.parent_node().or_else(|| x.owner_element()) {
                n += 1;
                if n > 2000 || &p == r { out.push(bad(&["C01"], format!("after {:?}: #{} is its own ancestor", op, i))); break; }
                x = p;
            }
            // content model
            if ttype(r.node_type()) == T::Document && ks.iter().filter(|k| ttype(k.node_type()) == T::Element).count() > 1 {
                out.push(bad(&["C04"], format!("after {:?}: document #{} has more than one element", op, i)));
            }
            if let Some(k) = ks.iter().find(|k| !allowed(ttype(r.node_type()), ttype(k.node_type()))) {
                out.push(bad(&["C04"], format!("after {:?}: {} is a child of #{}", op, self.idn(k), i)));
            }
        }
        out
    }

    fn compare(&mut self, op: &Op, tags: &[&'static str], pools: &Pools, first_new: usize) -> Result<(), Bads> {
        let mut b = match guard(|| self.links(op)) { Ok(b) => b, Err(p) => vec![bad(&["C27", "C01"], format!("after {:?}: reading the tree panics: {}", op, p))] };
        b.extend(self.raw_compare(tags, &format!("after {:?}", op)));
        if !b.is_empty() { return Err(b); }
        let d = self.derived(op, pools, first_new);
        if !d.is_empty() { return Err(d); }
        let b = self.raw_compare(&["C27"], &format!("after reading everything after {:?}", op));
        if !b.is_empty() { return Err(b); }
        Ok(())
    }

    fn derived(&self, op: &Op, pools: &Pools, first_new: usize) -> Bads {
        let mut out: Bads = vec![];
        for i in 0..self.m.n.len() {
            if self.r[i].is_none() { continue; }
            // what a node that the call itself made reads as belongs to what the call promises
            let made: &[&'static str] = if i >= first_new && !matches!(op, Op::SetAttr(..) | Op::SetAttrNs(..) | Op::NewDoc(..) | Op::Split(..)) { op_props(op) } else { &[] };
            let at = out.len();
            for part in 0..9 {
                if !self.parts[part] { continue; }
                phase(PART_PROPS[part], || format!("    reading part {} of #{}", part, i));
                match guard(|| { let mut o = vec![]; self.derived_part(i, part, pools, &mut o); o }) {
                    Ok(o) => out.extend(o),
                    Err(p) => {
                        let t = PART_PROPS[part];
                        out.push(bad(t, format!("reading part {} of #{} ({:?}) panics: {}", part, i, self.m.n[i].ty, p)))
                    }
                }
            }
            for b in &mut out[at..] { b.props.extend_from_slice(made) }
        }
        for b in &mut out { b.what = format!("after {:?}: {}", op, b.what); }
        out
    }

    fn derived_part(&self, i: usize, part: usize, pools: &Pools, out: &mut Bads) {
        let m = &self.m.n[i];
        let r = self.real(i);
        let id = |x: &Option<R>| -> String { x.as_ref().map_or("none".to_string(), |x| self.idn(x)) };
        macro_rules! eqs { ($t:expr, $f:expr, $want:expr, $got:expr) => { { let (w, g) = ($want, $got); if w != g { out.push(bad($t, format!("{} of #{} ({:?}) should be {:?}, is {:?}", $f, i, m.ty, w, g))) } } } }
        match part {
            0 => {
                let ks = r.child_nodes();
                eqs!(&["C19", "C27"], "first child", id(&ks.first().cloned()), id(&r.first_child()));
                eqs!(&["C19", "C27"], "last child", id(&ks.last().cloned()), id(&r.last_child()));
                eqs!(&["C19", "C27"], "has_child_nodes", !ks.is_empty(), r.has_child_nodes());
                eqs!(&["C19", "C27"], "has_attributes", !m.attrs.is_empty(), r.has_attributes());
                let (mut ps, mut ns) = (None, None);
                if let Some(p) = m.parent {
                    let k = &self.m.n[p].kids;
                    let x = k.iter().position(|k| *k == i).unwrap();
                    if x > 0 { ps = Some(self.real(k[x - 1])); }
                    if x + 1 < k.len() { ns = Some(self.real(k[x + 1])); }
                }
                eqs!(&["C19", "C27"], "previous sibling", id(&ps), id(&r.previous_sibling()));
                eqs!(&["C19", "C27"], "next sibling", id(&ns), id(&r.next_sibling()));
                eqs!(&["C27"], "namespace_uri", m.name.ns.clone(), r.namespace_uri());
                eqs!(&["C27"], "local_name", m.name.local.clone(), r.local_name());
                eqs!(&["C27"], "prefix", m.name.prefix.clone(), r.prefix());
                eqs!(&["C27"], "tag_name", m.name.q(), r.tag_name());
                eqs!(&["C27"], "target", m.name.q(), r.target());
                eqs!(&["C27"], "specified", true, r.specified());
                let dt = m.ty == T::DocumentType;
                eqs!(&["C27", "C26"], "doctype public id", if dt { m.public.clone() } else { None }, DocumentType::public_id(&r));
                eqs!(&["C27", "C26"], "doctype system id", if dt { m.system.clone() } else { None }, DocumentType::system_id(&r));
                eqs!(&["C27"], "internal subset", None, r.internal_subset());
                eqs!(&["C27"], "entities", 0, r.entities().len());
                eqs!(&["C27"], "notations", 0, r.notations().len());
                let e = m.ty == T::Entity;
                eqs!(&["C27"], "entity public id", if e { m.public.clone() } else { None }, dom::Entity::public_id(&r));
                eqs!(&["C27"], "entity system id", if e { m.system.clone() } else { None }, dom::Entity::system_id(&r));
                eqs!(&["C27"], "entity notation name", None, r.notation_name());
                let e = m.ty == T::Notation;
                eqs!(&["C27"], "notation public id", if e { m.public.clone() } else { None }, dom::Notation::public_id(&r));
                eqs!(&["C27"], "notation system id", if e { m.system.clone() } else { None }, dom::Notation::system_id(&r));
                let de = m.kids.iter().copied().find(|k| self.m.n[*k].ty == T::Element).map(|k| self.real(k));
                if m.ty == T::Document { eqs!(&["C19", "C27"], "document element", id(&de), id(&r.document_element())); }
                eqs!(&["C27", "C24"], "xml declaration", m.decl.as_ref().map(|d| d.text()), r.xml_declaration().map(|d| d.to_string()));
                if let (Some(w), Some(g)) = (&m.decl, r.xml_declaration()) {
                    eqs!(&["C24"], "declared version", if w.v11 { XmlVersion::V11 } else { XmlVersion::V10 }, g.version());
                    eqs!(&["C24"], "declared encoding", w.enc.clone(), g.encoding());
                    eqs!(&["C24"], "declared standalone", w.sa, g.standalone());
                }
                if m.ty != T::Document { eqs!(&["C27"], "doc_type", "none".to_string(), id(&r.doc_type())); }
            }
            1 => {
                if matches!(m.ty, T::Text | T::Comment | T::CData | T::PI) {
                    let d = self.m.data(i);
                    let l = d.as_ref().map_or(0, |s| s.len());
                    if m.ty == T::PI {
                        eqs!(&["C13", "C27"], "data", d, ProcessingInstruction::data(&r));
                        eqs!(&["C13", "C27"], "length", l, ProcessingInstruction::length(&r));
                    } else {
                        eqs!(&["C13"], "data", d, CharacterData::data(&r));
                        eqs!(&["C13", "C27"], "length", l, CharacterData::length(&r));
                    }
                } else { let _ = (CharacterData::data(&r), CharacterData::length(&r), ProcessingInstruction::data(&r), ProcessingInstruction::length(&r)); }
            }
            2 => if m.ty == T::Attribute { if let Ok(v) = self.m.value(i) { eqs!(&["C28"], "attribute value", v, r.value()); } },
            3 => {
                for q in &pools.names {
                    let a = self.m.get_attr_node(i, q);
                    eqs!(&["C07"], format!("attribute node {:?}", q), a.map_or("none".into(), |a| format!("#{}", a)), id(&r.get_attribute_node(q)));
                    eqs!(&["C07"], format!("has_attribute({:?})", q), a.is_some(), r.has_attribute(q));
                    if let Some(Ok(v)) = a.map(|a| self.m.value(a)) { eqs!(&["C07", "C28"], format!("attribute {:?}", q), v, r.get_attribute(q)); }
                    if a.is_none() { eqs!(&["C07"], format!("attribute {:?}", q), None, r.get_attribute(q)); }
                    if let Ok(n) = parse_name(q) {
                        for u in &pools.uris {
                            if n.prefix.is_some() {
                                // a qualified name is no local name
                                eqs!(&["C08"], format!("has_attribute_ns({:?}, {:?})", u, q), self.m.get_attr_node_ns(i, u, q).is_some(), r.has_attribute_ns(u, q));
                                eqs!(&["C08"], format!("attribute {:?} {:?}", u, q), None, r.get_attribute_ns(u, q));
                            }
                            let l = &n.local;
                            let a = self.m.get_attr_node_ns(i, u, l);
                            eqs!(&["C08"], format!("attribute node {:?} {:?}", u, l), a.map_or("none".into(), |a| format!("#{}", a)), id(&r.get_attribute_node_ns(u, l)));
                            eqs!(&["C08"], format!("has_attribute_ns({:?}, {:?})", u, l), a.is_some(), r.has_attribute_ns(u, l));
                            if let Some(Ok(v)) = a.map(|a| self.m.value(a)) { eqs!(&["C08", "C28"], format!("attribute {:?} {:?}", u, l), v, r.get_attribute_ns(u, l)); }
                            if a.is_none() { eqs!(&["C08"], format!("attribute {:?} {:?}", u, l), None, r.get_attribute_ns(u, l)); }
                        }
                    }
                }
            }
            4 => {
                let mut vs: Vec<String> = pools.ids.clone();
                vs.extend(m.ids.keys().cloned());
                for v in vs {
                    let w = if m.ty == T::Document { self.m.by_id(i, &v) } else { None };
                    eqs!(&["C10"], format!("element with id {:?}", v), w.map_or("none".into(), |a| format!("#{}", a)), id(&r.get_element_by_id(&v)));
                }
            }
            5 => {
                let mut us: Vec<String> = pools.uris.clone();
                us.extend(m.ns.values().cloned());
                for p in &pools.prefixes {
                    let p_ = p.as_deref();
                    eqs!(&["C22"], format!("namespace of {:?}", p), self.m.get_ns(i, p), r.get_namespace(p_));
                    eqs!(&["C22"], format!("contains_mapping({:?})", p), self.m.get_ns(i, p).is_some(), r.contains_mapping(p_));
                    eqs!(&["C22"], format!("resolved namespace of {:?}", p), self.m.resolve_ns(i, p), r.resolve_namespace(p_));
                }
                for u in us {
                    let w = self.m.prefixes(i, &u);
                    eqs!(&["C22"], format!("contains_mapped_namespace({:?})", u), !w.is_empty(), r.contains_mapped_namespace(&u));
                    for (w, g, f) in [(w, r.get_prefix(&u), "prefix"), (self.m.resolve_prefixes(i, &u), r.resolve_prefix(&u), "resolved prefix")] {
                        let ok = match &g { NamespacePrefix::None => w.is_empty(), NamespacePrefix::Default => w.contains(&None), NamespacePrefix::Some(p) => w.contains(&Some(p.clone())) };
                        if !ok { out.push(bad(&["C22"], format!("{} of {:?} at #{} should be one of {:?}, is {:?}", f, u, i, w, g))) }
                    }
                }
            }
            6 => casts(i, m.ty, &r, out),
            7 => {
                if matches!(m.ty, T::Element | T::Document) {
                    for q in &pools.tags {
                        let mut w = vec![];
                        if m.ty == T::Element { self.m.by_tag(i, q, &mut w); } else if let Some(e) = self.m.doc_element(i) { self.m.by_tag(e, q, &mut w); }
                        let g: Vec<Option<usize>> = if m.ty == T::Element { Element::get_elements_by_tag_name(&r, q) } else { Document::get_elements_by_tag_name(&r, q) }.iter().map(|x| self.id_of(x)).collect();
                        eqs!(&["C21"], format!("elements by tag {:?}", q), w.iter().map(|x| Some(*x)).collect::<Vec<_>>(), g);
                        let l = q.rsplit(':').next().unwrap();
                        for u in pools.uris.iter().map(|s| s.as_str()).chain(["*"]) {
                            let mut w = vec![];
                            if m.ty == T::Element { self.m.by_tag_ns(i, u, l, &mut w); } else if let Some(e) = self.m.doc_element(i) { self.m.by_tag_ns(e, u, l, &mut w); }
                            let g: Vec<Option<usize>> = if m.ty == T::Element { Element::get_elements_by_tag_name_ns(&r, u, l) } else { Document::get_elements_by_tag_name_ns(&r, u, l) }.iter().map(|x| self.id_of(x)).collect();
                            eqs!(&["C21"], format!("elements by name {:?} {:?}", u, l), w.iter().map(|x| Some(*x)).collect::<Vec<_>>(), g);
                        }
                    }
                } else {
                    let n = Element::get_elements_by_tag_name(&r, "*").len() + Element::get_elements_by_tag_name_ns(&r, "*", "*").len();
                    eqs!(&["C21"], "elements by tag on a node that is no element", 0, n);
                }
            }
            _ => if self.m.displayable(i) && m.doctype.map_or(true, |d| self.m.displayable(d)) {
                let s = r.to_string();
                if self.m.eat(&s, i) != Some("") { out.push(bad(&["C23"], format!("serialized form of #{} ({:?}) is wrong: {}", i, m.ty, s))) }
            },
        }
    }
}

pub fn mkopts(o: u8) -> ProcessingOptions {
    let mut x = ProcessingOptions::new();
    if o & IDS != 0 { x.set_assume_ids() }
    if o & ENT != 0 { x.set_parse_entities() }
    if o & NSP != 0 { x.set_add_namespaces() }
    x
}

fn slice(v: &Option<String>, o: usize, c: usize) -> Result<(usize, usize), E> {
    if c == 0 { return Ok((0, 0)); }
    match v {
        None => Err(E::IndexSize),
        Some(s) => {
            if o > s.len() || !s.is_char_boundary(o) { return Err(E::IndexSize); }
            let e = o.saturating_add(c).min(s.len());
            if !s.is_char_boundary(e) { return Err(E::IndexSize); }
            Ok((o, e))
        }
    }
}
fn edit(v: &Option<String>, o: usize, c: usize, n: &str) -> Result<Option<String>, E> {
    match v {
        None => if o == 0 && c == 0 { Ok(Some(n.to_string())) } else { Err(E::IndexSize) },
        Some(s) => {
            if o > s.len() || !s.is_char_boundary(o) { return Err(E::IndexSize); }
            let e = o.saturating_add(c).min(s.len());
            if !s.is_char_boundary(e) { return Err(E::IndexSize); }
            Ok(Some(format!("{}{}{}", &s[..o], n, &s[e..])))
        }
    }
}

fn casts(i: usize, t: T, r: &R, out: &mut Bads) {
    macro_rules! cast { ($($is:ident $as_:ident $asm:ident $ty:pat => $($k:literal)?);+ $(;)?) => { $( {
        let want = matches!(t, $ty);
        let is = $is(r);
        let a = $as_(r).map(|x| ttype(x.node_type()) == t && x.child_nodes() == r.child_nodes());
        let mut r2 = r.clone();
        let b = $asm(&mut r2).map(|x| ttype(x.node_type()) == t && x.child_nodes() == r.child_nodes());
        let good = is == want && a == if want { Ok(true) } else { Err(dom::Error::InvalidState) } && b == if want { Ok(true) } else { Err(dom::Error::InvalidState) };
        if !good || &r2 != r { out.push(bad(&["C20"], format!("casts of #{} ({:?}): {} {}, {} {:?}, {} {:?}", i, t, stringify!($is), is, stringify!($as_), a, stringify!($asm), b))) }
    } )+ } }
    cast! {
        is_attribute as_attribute as_attribute_mut T::Attribute => ;
        is_element as_element as_element_mut T::Element => ;
        is_character_data as_character_data as_character_data_mut T::Text | T::CData | T::Comment => ;
        is_text as_text as_text_mut T::Text => ;
        is_cdata_section as_cdata_section as_cdata_section_mut T::CData => ;
        is_entity_reference as_entity_reference as_entity_reference_mut T::EntityReference => ;
        is_entity_ as_entity as_entity_mut T::Entity => ;
        is_processing_instruction as_processing_instruction as_processing_instruction_mut T::PI => ;
        is_comment as_comment as_comment_mut T::Comment => ;
        is_document as_document as_document_mut T::Document => ;
        is_document_type as_document_type as_document_type_mut T::DocumentType => ;
        is_document_fragment as_document_fragment as_document_fragment_mut T::Fragment => ;
        is_notation as_notation as_notation_mut T::Notation => ;
        is_document_decl as_document_decl as_document_decl_mut T::Document => ;
    }
    let want = t == T::Element;
    if is_element_namespaced(r) != want || as_element_namespaced(r).is_ok() != want {
        out.push(bad(&["C20"], format!("namespaced casts of #{} ({:?})", i, t)));
    }
}

// -------------------------------------------------------------------- checks without a tree
pub fn check_name(s: &str) -> Bads {
    let mut out = vec![];
    let want = parse_name(s);
    match guard(|| Name::from_str(s)) {
        Err(p) => out.push(bad(&["C11"], format!("Name::from_str({:?}) panics: {}", s, p))),
        Ok(g) => {
            let same = match (&want, &g) { (Ok(w), Ok(g)) => *w == mname(g) && g.to_string() == s, (Err(e), Err(g)) => *e == terr(g), _ => false };
            if !same { out.push(bad(&["C11"], format!("Name::from_str({:?}) should be {:?}, is {:?}", s, want, g))) }
        }
    }
    let b = guard(|| Name::try_from(s.as_bytes()).ok().map(|n| mname(&n)));
    if b != Ok(want.ok()) { out.push(bad(&["C11"], format!("Name::try_from({:?} as bytes) is {:?}", s, b))) }
    out
}
pub fn check_name_ns(u: &str, q: &str) -> Bads {
    let mut out = vec![];
    let want = name_ns(u, q);
    match guard(|| Name::new_ns(u, q)) {
        Err(p) => out.push(bad(&["C12", "C11"], format!("Name::new_ns({:?}, {:?}) panics: {}", u, q, p))),
        Ok(g) => {
            let same = match (&want, &g) { (Ok(w), Ok(g)) => *w == mname(g), (Err(e), Err(g)) => *e == terr(g), _ => false };
            if !same { out.push(bad(&["C12"], format!("Name::new_ns({:?}, {:?}) should be {:?}, is {:?}", u, q, want, g))) }
            if let Ok(g) = g { out.extend(check_name_kind(&g)) }
        }
    }
    if let Ok(n) = Name::from_str(q) { out.extend(check_name_kind(&n)) }
    out
}
fn check_name_kind(n: &Name) -> Bads {
    let mut out = vec![];
    let m = mname(n);
    if n.is_namespace_attribute() != m.is_ns_attr() { out.push(bad(&["C12"], format!("is_namespace_attribute of {:?} is {}", m, n.is_namespace_attribute()))) }
    for lax in [false, true] {
        if n.is_id_attribute(lax) != m.is_id(lax) { out.push(bad(&["C12", "C10"], format!("is_id_attribute({}) of {:?} is {}", lax, m, n.is_id_attribute(lax)))) }
    }
    out
}
pub fn check_options() -> Bads {
    let mut out = vec![];
    let bits = |o: &ProcessingOptions| -> u8 { (o.has_assume_ids() as u8) | (o.has_parse_entities() as u8) << 1 | (o.has_add_namespaces() as u8) << 2 };
    if bits(&ProcessingOptions::new()) != 0 || !ProcessingOptions::new().has_none() || bits(&ProcessingOptions::default()) != 0 { out.push(bad(&["C25"], "a new set of options is not empty".into())) }
    for a in 0..8u8 {
        let x = mkopts(a);
        if bits(&x) != a || x.has_none() != (a == 0) { out.push(bad(&["C25"], format!("options {:03b} report {:03b}, none {}", a, bits(&x), x.has_none()))) }
        for f in 0..3 {
            let mut y = x.clone();
            match f { 0 => y.set_assume_ids(), 1 => y.set_parse_entities(), _ => y.set_add_namespaces() }
            if bits(&y) != a | 1 << f { out.push(bad(&["C25"], format!("setting flag {} of {:03b} gives {:03b}", f, a, bits(&y)))) }
        }
        for b in 0..8u8 {
            if bits(&(mkopts(a) & mkopts(b))) != a & b { out.push(bad(&["C25"], format!("{:03b} & {:03b}", a, b))) }
            if bits(&(mkopts(a) | mkopts(b))) != a | b { out.push(bad(&["C25"], format!("{:03b} | {:03b}", a, b))) }
        }
    }
    out
}
pub fn check_features(n: &R) -> Bads {
    let mut out = vec![];
    let s = ["Core", "XML", "core", "xml", "", "1.0", "2.0", "1.1", "3.0", "HTML", "Core ", "1", "Events"];
    for f in s { for v in s {
        let want = (f == "Core" || f == "XML") && (v == "1.0" || v == "2.0");
        if get_implementation().has_feature(f, v) != want { out.push(bad(&["C26"], format!("has_feature({:?}, {:?}) is {}", f, v, !want))) }
        if n.is_supported(f, v) != want { out.push(bad(&["C26"], format!("is_supported({:?}, {:?}) is {}", f, v, !want))) }
    } }
    out
}
pub fn check_decl(v11: bool, enc: Option<String>, sa: Option<bool>) -> Bads {
    let mut out = vec![];
    let w = Decl { v11, enc: enc.clone(), sa };
    let v = if v11 { XmlVersion::V11 } else { XmlVersion::V10 };
    let ok = enc.as_ref().map_or(true, |e| valid_encoding(e));
    match guard(|| XmlDecl::new(v.clone(), enc.clone(), sa)) {
        Err(_) => if ok { out.push(bad(&["C24"], format!("{:?} is not accepted", w))) },
        Ok(d) => {
            if !ok { out.push(bad(&["C24"], format!("{:?} is accepted", w))) }
            else if d.version() != v || d.encoding() != enc || d.standalone() != sa || d.to_string() != w.text() { out.push(bad(&["C24"], format!("{:?} gives {}", w, d))) }
        }
    }
    out
}
pub fn check_version(s: &str) -> Bads {
    let w = match s { "1.0" => Some(XmlVersion::V10), "1.1" => Some(XmlVersion::V11), _ => None };
    let g = XmlVersion::from_str(s).ok();
    if w != g || g.map_or(false, |g| g.to_string() != s) { return vec![bad(&["C24"], format!("XmlVersion {:?}", s))]; }
    vec![]
}
#[allow(unused)]
fn _unused(_: HashMap<u8, u8>) {}

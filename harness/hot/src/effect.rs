//! Every patch on its own terms (H13): an independent account of what each kind of
//! patch does, on nodes in a plain arena, against the document.
use crate::checks::with_src;
use crate::model::*;
use engine::proptest::prelude::*;
use engine::{Fail, Pass, Verdict, ensure, fail};
use hotmeal::{AttrPair, Document, InsertContent, LocalName, NodeId, NodePath, NodeRef, Patch, PropChange, PropKey, QualName, Stem};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

/// What a patch is to address, relative to the state it meets.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub kind: u8,
    /// the node it is for, or the parent of the place, among all there are
    pub at: u16,
    pub from: u16,
    /// the place among the children and behind them
    pub pos: u8,
    /// 0: none, 1: the next unused slot, else: a slot of this number
    pub slot: u8,
    /// how the path is spoilt, if it is
    pub wrong: u8,
    pub text: String,
    pub attrs: Vec<(u8, String)>,
    pub what: Nd,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Effects {
    pub a: Doc,
    pub ops: Vec<Op>,
    /// one by one, or all in one call
    pub whole: bool,
}
pub fn effects() -> BoxedStrategy<Effects> {
    let g = Gen { tags: 2, opaque: 0, size: 12 };
    let f = Gen { tags: 3, opaque: 0, size: 12 };
    let slot = prop_oneof![3 => Just(0u8), 6 => Just(1u8), 1 => 2u8..8];
    let wrong = prop_oneof![30 => Just(0u8), 1 => any::<u8>()];
    let some = prop::collection::vec((any::<u8>(), value()), 0..4);
    let what = prop_oneof![2 => node(g), 1 => node(f)];
    let op = ((any::<u8>(), any::<u16>(), any::<u16>(), any::<u8>()), slot, wrong, text(), some, what)
        .prop_map(|((kind, at, from, pos), slot, wrong, text, attrs, what)| Op { kind, at, from, pos, slot, wrong, text, attrs, what });
    (prop_oneof![2 => doc(g), 1 => doc(f)], prop::collection::vec(op, 1..16), any::<bool>())
        .prop_map(|(a, ops, whole)| Effects { a, ops, whole })
        .boxed()
}

/// Names that differ in prefix or namespace only, and ordinary ones.
fn name(k: u8) -> QualName {
    let of = |p: Option<&str>, ns: &str, l: &str| QualName::new(p.map(Into::into), ns.into(), l.into());
    match k % 12 {
        0 => of(None, "", "href"),
        1 => of(Some("xlink"), "http://www.w3.org/1999/xlink", "href"),
        2 => of(None, "http://www.w3.org/1999/xlink", "href"),
        3 => of(None, "", "xlink:href"),
        4 => of(Some("xml"), "http://www.w3.org/XML/1998/namespace", "lang"),
        5 => of(None, "", "lang"),
        6 => of(None, "", "encoding"),
        k => of(None, "", attr(k)),
    }
}
fn pairs(a: &[(u8, String)]) -> Vec<AttrPair<'static>> {
    let mut out: Vec<AttrPair<'static>> = vec![];
    for (k, v) in a {
        let name = name(*k);
        if !out.iter().any(|p| p.name == name) {
            let v = if *k % 12 == 6 && v.len() % 2 == 0 { "Text/html" } else { v };
            out.push(AttrPair { name, value: Stem::from(v.to_string()) });
        }
    }
    out
}
fn content(n: &Nd) -> InsertContent<'static> {
    match n {
        Nd::T(t) => InsertContent::Text(Stem::from(t.clone())),
        Nd::C(t) => InsertContent::Comment(Stem::from(t.clone())),
        Nd::E(t, a, k) => InsertContent::Element { tag: LocalName::from(tag(*t)), attrs: pairs(a), children: k.iter().map(content).collect() },
    }
}

enum K {
    E { ns: u8, tag: String, attrs: Vec<(String, String)> },
    T(String),
    C(String),
}
struct Node {
    k: K,
    up: Option<usize>,
    kids: Vec<usize>,
}
/// What the document is to become.
struct Model {
    n: Vec<Node>,
    slots: HashMap<u32, usize>,
}
/// The namespace the HTML parser gives an element `tag` in `parent`.
fn namespace(parent: &K, tag: &str) -> u8 {
    let K::E { ns, tag: p, attrs } = parent else { return 0 };
    let p = p.as_str();
    let html_here = match ns {
        0 => true,
        1 => p == "foreignObject" || p == "desc" || p == "title",
        _ if ["mi", "mo", "mn", "ms", "mtext"].contains(&p) => tag != "mglyph" && tag != "malignmark",
        _ if p == "annotation-xml" => {
            let of = attrs.iter().find(|a| a.0 == "encoding").map(|a| a.1.to_ascii_lowercase());
            tag == "svg" || of.as_deref() == Some("text/html") || of.as_deref() == Some("application/xhtml+xml")
        }
        _ => false,
    };
    match tag {
        "svg" if html_here => 1,
        "math" if html_here => 2,
        _ if html_here => 0,
        _ => *ns,
    }
}
impl Model {
    fn add(&mut self, k: K, up: Option<usize>) -> usize {
        self.n.push(Node { k, up, kids: vec![] });
        self.n.len() - 1
    }
    fn load(&mut self, n: &N, up: Option<usize>) -> usize {
        let k = match n {
            N::E { ns, tag, attrs, .. } => K::E { ns: *ns, tag: tag.clone(), attrs: attrs.clone() },
            N::T(t) => K::T(t.clone()),
            N::C(t) => K::C(t.clone()),
            N::D(_) => unreachable!(),
        };
        let id = self.add(k, up);
        let kids = n.kids().iter().map(|c| self.load(c, Some(id))).collect();
        self.n[id].kids = kids;
        id
    }
    fn tree(&self, id: usize) -> N {
        let n = &self.n[id];
        match &n.k {
            K::T(t) => N::T(t.clone()),
            K::C(t) => N::C(t.clone()),
            K::E { ns, tag, attrs } => N::E { ns: *ns, tag: tag.clone(), attrs: attrs.clone(), kids: n.kids.iter().map(|c| self.tree(*c)).collect() },
        }
    }
    fn element(&mut self, parent: usize, tag: &str, attrs: &[AttrPair], kids: &[InsertContent]) -> usize {
        let ns = namespace(&self.n[parent].k, tag);
        let attrs = attrs.iter().map(|a| (qname(&a.name), a.value.as_ref().to_string())).collect();
        let id = self.add(K::E { ns, tag: tag.to_string(), attrs }, None);
        for c in kids {
            let c = match c {
                InsertContent::Element { tag, attrs, children } => self.element(id, tag, attrs, children),
                InsertContent::Text(t) => self.add(K::T(t.as_ref().to_string()), None),
                InsertContent::Comment(t) => self.add(K::C(t.as_ref().to_string()), None),
            };
            self.n[c].up = Some(id);
            self.n[id].kids.push(c);
        }
        id
    }
    /// The path's node. `None`: there is none.
    fn find(&self, path: &[u32]) -> Option<usize> {
        let (slot, rest) = path.split_first()?;
        rest.iter().try_fold(*self.slots.get(slot)?, |n, i| self.n[n].kids.get(*i as usize).copied())
    }
    fn place(&self, path: &[u32]) -> Option<(usize, usize)> {
        let (at, parent) = path.split_last()?;
        let p = self.find(parent)?;
        matches!(self.n[p].k, K::E { .. }).then_some((p, *at as usize))
    }
    fn take(&mut self, id: usize, leave: bool) {
        if let Some(p) = self.n[id].up.take() {
            let i = self.n[p].kids.iter().position(|c| *c == id).unwrap();
            if leave {
                let e = self.add(K::T(String::new()), Some(p));
                self.n[p].kids[i] = e;
            } else {
                self.n[p].kids.remove(i);
            }
        }
    }
    fn put(&mut self, (p, at): (usize, usize), id: usize, slot: Option<u32>) {
        if let Some(s) = slot
            && let Some(&c) = self.n[p].kids.get(at)
        {
            self.take(c, false);
            self.slots.insert(s, c);
        }
        while self.n[p].kids.len() < at {
            let e = self.add(K::T(String::new()), Some(p));
            self.n[p].kids.push(e);
        }
        self.n[p].kids.insert(at, id);
        self.n[id].up = Some(p);
    }
    fn inside(&self, mut n: usize, of: usize) -> bool {
        loop {
            if n == of {
                return true;
            }
            match self.n[n].up {
                Some(u) => n = u,
                None => return false,
            }
        }
    }
    /// `None`: the patch is to be refused.
    fn apply(&mut self, p: &Patch) -> Option<()> {
        match p {
            Patch::InsertElement { at, tag, attrs, children, detach_to_slot } => {
                let to = self.place(&at.0.0)?;
                let id = self.element(to.0, tag, attrs, children);
                self.put(to, id, *detach_to_slot);
            }
            Patch::InsertText { at, text, detach_to_slot } => {
                let to = self.place(&at.0.0)?;
                let id = self.add(K::T(text.as_ref().to_string()), None);
                self.put(to, id, *detach_to_slot);
            }
            Patch::InsertComment { at, text, detach_to_slot } => {
                let to = self.place(&at.0.0)?;
                let id = self.add(K::C(text.as_ref().to_string()), None);
                self.put(to, id, *detach_to_slot);
            }
            Patch::Remove { node } => {
                let n = self.find(&node.0.0)?;
                self.take(n, true);
            }
            Patch::Move { from, to, detach_to_slot } => {
                let n = self.find(&from.0.0)?;
                self.take(n, true);
                let to = self.place(&to.0.0)?;
                if self.inside(to.0, n) {
                    return None;
                }
                self.put(to, n, *detach_to_slot);
            }
            Patch::SetText { path, text } => {
                let n = self.find(&path.0)?;
                let (K::T(t) | K::C(t)) = &mut self.n[n].k else { return None };
                *t = text.as_ref().to_string();
            }
            Patch::SetAttribute { path, name, value } => {
                let n = self.find(&path.0)?;
                let K::E { attrs, .. } = &mut self.n[n].k else { return None };
                let (name, value) = (qname(name), value.as_ref().to_string());
                match attrs.iter_mut().find(|a| a.0 == name) {
                    Some(a) => a.1 = value,
                    None => attrs.push((name, value)),
                }
            }
            Patch::RemoveAttribute { path, name } => {
                let n = self.find(&path.0)?;
                let K::E { attrs, .. } = &mut self.n[n].k else { return None };
                attrs.retain(|a| a.0 != qname(name));
            }
            Patch::UpdateProps { path, changes } => {
                let n = self.find(&path.0)?;
                match &mut self.n[n].k {
                    // the attributes are those named, in this order
                    K::E { attrs, .. } => {
                        let old = std::mem::take(attrs);
                        for c in changes {
                            let PropKey::Attr(q) = &c.name else { continue };
                            let q = qname(q);
                            let v = match &c.value {
                                Some(v) => v.as_ref().to_string(),
                                None => old.iter().find(|a| a.0 == q).map_or(String::new(), |a| a.1.clone()),
                            };
                            attrs.push((q, v));
                        }
                    }
                    K::T(t) | K::C(t) => {
                        for c in changes {
                            if let (PropKey::Text, Some(v)) = (&c.name, &c.value) {
                                *t = v.as_ref().to_string();
                            }
                        }
                    }
                }
            }
            Patch::OpaqueChanged { .. } => unreachable!(),
        }
        Some(())
    }
    /// All nodes in the document and in the slots, with their paths.
    fn paths(&self) -> Vec<(Vec<u32>, usize)> {
        let mut out = vec![];
        let mut slots: Vec<_> = self.slots.iter().filter(|(_, n)| self.n[**n].up.is_none()).map(|(s, n)| (*s, *n)).collect();
        slots.sort();
        for (s, n) in slots {
            self.walk(&mut vec![s], n, &mut out);
        }
        out
    }
    fn walk(&self, path: &mut Vec<u32>, n: usize, out: &mut Vec<(Vec<u32>, usize)>) {
        out.push((path.clone(), n));
        for (i, c) in self.n[n].kids.iter().enumerate() {
            path.push(i as u32);
            self.walk(path, *c, out);
            path.pop();
        }
    }
    fn make(&self, o: &Op) -> Option<Patch<'static>> {
        let all = self.paths();
        let one = |i: u16, element: Option<bool>| {
            let v: Vec<_> = all.iter().filter(|(_, n)| element.is_none_or(|e| e == matches!(self.n[*n].k, K::E { .. }))).collect();
            v.get((i as usize * v.len()) >> 16).map(|x| (*x).clone())
        };
        let kind = o.kind % 20;
        let spoil = |mut p: Vec<u32>| {
            match o.wrong {
                0 => {}
                1..32 => p.push(o.pos as u32 % 3),
                32..64 => *p.last_mut().unwrap() += 40,
                64..96 => p[0] = 50,
                96..128 => drop(p.pop()),
                // another kind of node than it is for
                _ => p = all[(o.at as usize * all.len()) >> 16].0.clone(),
            }
            NodePath(p.into_iter().collect())
        };
        // a place among the children of a node, or up to two behind the last
        let place = || -> Option<(NodeRef, Option<u32>)> {
            let (mut p, n) = one(o.at, Some(true))?;
            let len = self.n[n].kids.len() as u32;
            let at = if o.pos < 200 { o.pos as u32 * (len + 1) / 200 } else { len + (o.pos as u32 - 200) / 24 };
            p.push(at);
            let slot = match o.slot {
                0 => None,
                1 => (1..).find(|s| !self.slots.contains_key(s)),
                s => Some(s as u32),
            };
            // what a slot still holds is not to be lost
            let slot = slot.filter(|s| self.slots.get(s).is_none_or(|n| self.n[*n].up.is_some()));
            Some((NodeRef(spoil(p)), slot))
        };
        Some(match kind {
            0..=3 => {
                let (at, detach_to_slot) = place()?;
                let (tag, attrs, children) = match &o.what {
                    Nd::E(t, a, k) => (tag(*t), pairs(a), k.iter().map(content).collect()),
                    n => (tag(o.pos), pairs(&o.attrs), vec![content(n)]),
                };
                Patch::InsertElement { at, tag: LocalName::from(tag), attrs, children, detach_to_slot }
            }
            4 => {
                let (at, detach_to_slot) = place()?;
                Patch::InsertText { at, text: Stem::from(o.text.clone()), detach_to_slot }
            }
            5 => {
                let (at, detach_to_slot) = place()?;
                Patch::InsertComment { at, text: Stem::from(o.text.clone()), detach_to_slot }
            }
            6 | 7 => Patch::Remove { node: NodeRef(spoil(one(o.at, None)?.0)) },
            8 => Patch::SetText { path: spoil(one(o.at, Some(false))?.0), text: Stem::from(o.text.clone()) },
            9..=13 => {
                let (p, n) = one(o.at, Some(true))?;
                let K::E { attrs, .. } = &self.n[n].k else { unreachable!() };
                // names it has, half of the time
                let named = |k: u8| {
                    let all: Vec<QualName> = (0..12).map(name).filter(|q| attrs.iter().any(|a| a.0 == qname(q))).collect();
                    if k % 2 == 0 && !all.is_empty() { all[k as usize / 2 % all.len()].clone() } else { name(k / 2) }
                };
                let path = spoil(p);
                match kind {
                    9 | 10 => Patch::SetAttribute { path, name: named(o.pos), value: Stem::from(o.text.clone()) },
                    11 => Patch::RemoveAttribute { path, name: named(o.pos) },
                    _ => {
                        let mut changes: Vec<PropChange> = vec![];
                        for (i, (k, v)) in o.attrs.iter().enumerate() {
                            let name = named(*k);
                            if !changes.iter().any(|c| matches!(&c.name, PropKey::Attr(n) if *n == name)) {
                                let value = (o.pos >> (i % 8) & 1 > 0).then(|| Stem::from(v.clone()));
                                changes.push(PropChange { name: PropKey::Attr(name), value });
                            }
                        }
                        if o.from % 8 == 0 {
                            changes.insert(o.pos as usize % (changes.len() + 1), PropChange { name: PropKey::Text, value: (o.pos % 4 > 0).then(|| Stem::from(o.text.clone())) });
                        }
                        Patch::UpdateProps { path, changes }
                    }
                }
            }
            14 => {
                let value = (o.pos % 4 > 0).then(|| Stem::from(o.text.clone()));
                Patch::UpdateProps { path: spoil(one(o.at, Some(false))?.0), changes: vec![PropChange { name: PropKey::Text, value }] }
            }
            _ => {
                let roots: Vec<_> = all.iter().filter(|(p, _)| p.len() == 1 && p[0] > 0).collect();
                let from = if kind == 19 && !roots.is_empty() { roots[o.from as usize % roots.len()].clone() } else { one(o.from, None)? };
                let (to, detach_to_slot) = place()?;
                Patch::Move { from: NodeRef(NodePath(from.0.into_iter().collect())), to, detach_to_slot }
            }
        })
    }
}
fn start(d: &Document) -> Option<Model> {
    let body = body_of(d)?;
    let mut m = Model { n: vec![], slots: HashMap::new() };
    let b = m.load(&body, None);
    m.slots.insert(0, b);
    Some(m)
}
fn same(x: &Document, m: &Model, slots: Option<&HashMap<u32, NodeId>>, after: &str) -> Result<(), Fail> {
    let (got, want) = (body_of(x), m.tree(m.slots[&0]));
    let Some(got) = got else { return fail("body", format!("after {after} there is no body")) };
    // where there is nothing, an empty text may hold the place
    let (got, want) = (norm(&got, true), norm(&want, true));
    ensure!(got == want, "effect", "after {after} the body is\n{}\nexpected\n{}", got.show(), want.show());
    for (s, n) in slots.into_iter().flatten() {
        let Some(w) = m.slots.get(s) else { return fail("slot", format!("after {after} slot {s} is filled")) };
        let (got, want) = (norm(&of(x, *n), true), norm(&m.tree(*w), true));
        ensure!(got == want, "slot", "after {after} slot {s} holds\n{}\nexpected\n{}", got.show(), want.show());
    }
    Ok(())
}
/// Those of the patches that nothing is to be said about.
fn unspoken(p: &Patch, m: &Model) -> bool {
    match p {
        // the body taken out of the page
        Patch::Remove { node: n } => n.0.0[..] == [0],
        Patch::Move { from: n, .. } => {
            n.0.0[..] == [0]
                // a slot that was emptied, named again
                || m.slots.get(&n.0.0.first().copied().unwrap_or(0)).is_some_and(|n| m.n[*n].up.is_some())
        }
        _ => false,
    }
}
pub fn h13(e: &Effects) -> Verdict {
    with_src(&[e.a.html()], false, |d| {
        let mut x = d[0]();
        let Some(mut m) = start(&x) else { return Ok(Pass::new(false)) };
        let mut slots = x.init_patch_slots();
        let mut kinds = std::collections::HashSet::new();
        let (mut used, mut refused) = (vec![], false);
        for o in &e.ops {
            let Some(p) = m.make(o) else { continue };
            if unspoken(&p, &m) {
                continue;
            }
            let want = m.apply(&p);
            used.push(p.clone());
            if !e.whole {
                let got = x.apply_patch_with_slots(p.clone(), &mut slots);
                ensure!(got.is_ok() == want.is_some(), "refusal", "{p:?} after {} others: {got:?}, expected {}", used.len() - 1, if want.is_some() { "that it is applied" } else { "that it is refused" });
                if want.is_some() {
                    same(&x, &m, Some(&slots), &format!("{used:?}"))?;
                }
            }
            if want.is_none() {
                // a refused patch ends the list
                refused = true;
                break;
            }
            kinds.insert(std::mem::discriminant(&p));
        }
        if e.whole {
            let mut x = d[0]();
            let got = x.apply_patches(used.clone());
            ensure!(got.is_ok() != refused, "refusal", "{used:?}: {got:?}, expected that {}", if refused { "the last is refused" } else { "all are applied" });
            if !refused {
                same(&x, &m, None, &format!("{used:?}"))?;
            }
        }
        let n = kinds.len();
        Ok(Pass::new(n >= 2).label(refused, "refused").label(n >= 5, "five kinds").label(m.slots.len() > 2, "several slots").label(used.len() > 8, "over 8 patches"))
    })
}
pub fn explain(e: &Effects) -> String {
    e.a.html()
}

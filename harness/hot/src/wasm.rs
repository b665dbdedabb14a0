//! hotmeal-wasm on a model of the browser's DOM: the same effect as the native
//! application (W01), pages followed through their history (W02), events for
//! opaque elements (W03), patches that do not fit (W04).
use crate::checks::*;
use crate::model::*;
use crate::real::{REAL, Real, real};
use engine::proptest::prelude::*;
use engine::{Ctx, Fail, Pass, Verdict, ensure, fail};
use hotmeal::{Document, NodeKind, NodePath, NodeRef, Patch, QualName, Stem};
use hotmeal_wasm::Slots;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use wasm_bindgen::JsValue;
use web_sys::fake::{self, Spec};


pub fn spec(n: &N) -> Spec {
    match n {
        N::T(t) => Spec::Text(t.clone()),
        N::C(t) => Spec::Comment(t.clone()),
        N::D(_) => unreachable!(),
        N::E { ns, tag, attrs, kids } => Spec::Element {
            ns: URLS[*ns as usize].into(),
            local: tag.clone(),
            attrs: attrs
                .iter()
                .map(|(k, v)| match k.strip_suffix('}').and_then(|k| k.rsplit_once('{')) {
                    None => (String::new(), None, k.clone(), v.clone()),
                    Some((q, ns)) => match q.split_once(':') {
                        Some((p, l)) => (ns.into(), Some(p.into()), l.into(), v.clone()),
                        None => (ns.into(), None, q.into(), v.clone()),
                    },
                })
                .collect(),
            kids: kids.iter().map(spec).collect(),
        },
    }
}
pub fn read(s: &Spec) -> N {
    match s {
        Spec::Text(t) => N::T(t.clone()),
        Spec::Comment(t) => N::C(t.clone()),
        Spec::Element { ns, local, attrs, kids } => N::E {
            ns: URLS.iter().position(|u| u == ns).map_or(9, |i| i as u8),
            tag: local.clone(),
            attrs: attrs
                .iter()
                .map(|(ns, p, l, v)| {
                    let q = p.as_ref().map_or(l.clone(), |p| format!("{p}:{l}"));
                    (if ns.is_empty() { q } else { format!("{q}{{{ns}}}") }, v.clone())
                })
                .collect(),
            kids: kids.iter().map(read).collect(),
        },
    }
}
pub fn hooks() -> fake::Hooks {
    fake::Hooks {
        parse: |html, ns, local| {
            let p = crate::parse::fragment_in(html, ns, local);
            p.root.iter().flat_map(|r| r.kids()).map(spec).collect()
        },
        inner_html: |s| {
            let mut out = String::new();
            let n = read(s);
            let tag = match &n {
                N::E { ns: 0, tag, .. } => Some(tag.as_str()),
                _ => None,
            };
            n.kids().iter().for_each(|k| crate::parse::standard(k, tag, &mut out));
            out
        },
    }
}
fn js(e: &JsValue) -> String {
    e.as_string().unwrap_or_else(|| format!("{e:?}"))
}
/// The page as the browser has loaded it.
pub fn load(d: &Document, strict: bool) {
    fake::open(&spec(&of(d, d.root)), strict, hooks());
}
fn shown() -> N {
    fake::body().map_or(N::D(vec![]), |b| read(&b))
}
/// Documents with a body, not a frameset.
pub fn has_body(d: &Document) -> bool {
    d.body().is_some()
}
fn same_as(want: &N, what: &str) -> Result<(), Fail> {
    let (want, got) = (norm(want, true), norm(&shown(), true));
    ensure!(got == want, "wrong-result", "{what}: the browser has\n{}\nexpected\n{}", got.show(), want.show());
    ensure!(fake::sound(), "unsound", "{what}: the browser's document is not a tree");
    Ok(())
}

// --------------------------------------------------------------------- W01

/// Names the parser takes; some of them the DOM interface refuses, or used to.
const NAMES: [&str; 20] = [
    "data-x", "data-y", "@click", "#ref", "(x)", "[y]", "a\"b", "<", "1x", "-", ".", "日", "a:b", "x:", ":bind", "xmlns:foo", "xml:lang", "v-on:click.stop", "a'b",
    "xlink:href",
];
const TAGNAMES: [&str; 7] = ["x-card", "x@card", "x-é", "x:card", "x\"y", "x<y", "x--"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Web<P> {
    pub p: P,
    pub names: [u8; 2],
    pub tag: u8,
    /// Names are checked as browsers did before 2025
    pub strict: bool,
}
pub fn web<P: std::fmt::Debug + 'static>(p: BoxedStrategy<P>) -> BoxedStrategy<Web<P>> {
    let i = || prop_oneof![1 => Just(0u8), 1 => 0u8..20];
    (p, [i(), i()], i(), any::<bool>()).prop_map(|(p, names, tag, strict)| Web { p, names, tag, strict }).boxed()
}
impl<P> Web<P> {
    pub fn src(&self, s: &str) -> String {
        unmark(s)
            .replace("data-x", NAMES[self.names[0] as usize % NAMES.len()])
            .replace("data-y", NAMES[self.names[1] as usize % NAMES.len()])
            .replace("x-card", TAGNAMES[self.tag as usize % TAGNAMES.len()])
    }
}
fn web_labels(w: &Web<impl Sized>, patches: &[Patch], b: &Document, pass: Pass) -> Pass {
    let foreign = body_of(b).is_some_and(|n| n.has(&|n| matches!(n, N::E { ns: 1.., .. })));
    let template = body_of(b).is_some_and(|n| n.has(&|n| matches!(n, N::E { tag, kids, .. } if tag == "template" && !kids.is_empty())));
    labels(patches, pass)
        .label(w.strict, "old name rules")
        .label(w.names.iter().any(|n| *n > 1) || w.tag > 0, "unusual names")
        .label(foreign, "svg or math")
        .label(template, "template")
}
fn parity(a: Make, b: Make, strict: bool) -> Result<Option<Vec<Patch<'static>>>, Fail> {
    let (da, db) = (a(), b());
    if !has_body(&da) || !has_body(&db) {
        return Ok(None);
    }
    let patches: Vec<Patch<'static>> = diff(&da, &db)?.into_iter().map(|p| p.into_owned()).collect();
    // patch by patch, next to the native application
    load(&da, strict);
    let mut x = a();
    let mut native = x.init_patch_slots();
    let mut slots = Slots::new();
    for (i, q) in patches.iter().enumerate() {
        if let Err(e) = x.apply_patch_with_slots(q.clone(), &mut native) {
            return fail("native", format!("natively, patch {i} ({q:?}) failed: {e:?}"));
        }
        match hotmeal_wasm::apply_patches_with_slots(std::slice::from_ref(q), &mut slots) {
            Ok(1) => {}
            Ok(n) => return fail("count", format!("one patch, {n} applied")),
            Err(e) => return fail("apply-error", format!("in the browser, patch {i} ({q:?}) failed: {}", js(&e))),
        }
        // in long lists not after every one
        if i % (1 + patches.len() / 60) == 0 {
            same_as(&body_of(&x).unwrap(), &format!("after patch {i} ({q:?})"))?;
        }
    }
    let want = body_of(&db).unwrap();
    same_as(&want, "in the end")?;
    ensure!(fake::events().is_empty(), "event", "an event without an opaque element");
    Ok(Some(patches))
}
/// The other ways to the browser: encoded, on a mount point, from markup.
fn entries(a: Make, b: Make, strict: bool, patches: &[Patch<'static>]) -> Result<(), Fail> {
    let (da, db) = (a(), b());
    let want = body_of(&db).unwrap();
    let owned = patches.to_vec();
    for way in ["postcard", "json", "list", "mount"] {
        let mut page = of(&da, da.root);
        let on_body = |n: &N| matches!(n, N::E { attrs, .. } if !attrs.is_empty());
        let old = body_of(&da).unwrap();
        if way == "mount" {
            if on_body(&old) || on_body(&want) {
                continue;
            }
            page = page_around(old.kids().to_vec());
        }
        fake::open(&spec(&page), strict, hooks());
        let r = match way {
            "postcard" => match facet_postcard::to_vec(&owned) {
                Ok(v) => hotmeal_wasm::apply_patches_postcard(&v),
                Err(e) => return fail("encode", format!("{e:?}")),
            },
            "json" => match facet_json::to_string(&owned) {
                Ok(v) => hotmeal_wasm::apply_patches_json(&v),
                Err(e) => return fail("encode", format!("{e:?}")),
            },
            "list" => hotmeal_wasm::apply_patches(&owned),
            _ if strict => hotmeal_wasm::apply_patches_on(&owned, "#mount"),
            _ => hotmeal_wasm::apply_patches_postcard_on(&facet_postcard::to_vec(&owned).unwrap_or_default(), "#mount"),
        };
        match r {
            Ok(n) => ensure!(n == patches.len(), "count", "{way}: {n} of {} patches applied", patches.len()),
            Err(e) => return fail("apply-error", format!("{way}: {}", js(&e))),
        }
        if way == "mount" {
            let want = page_around(want.kids().to_vec());
            let (want, got) = (norm(&want, true), norm(&read(&fake::root()), true));
            ensure!(got == want, "mount", "on a mount point: the page becomes\n{}\nexpected\n{}", got.show(), want.show());
        } else {
            same_as(&want, way)?;
            // as text
            match hotmeal_wasm::get_body_inner_html() {
                Ok(h) => {
                    let mut text = String::new();
                    want.kids().iter().for_each(|k| crate::parse::standard(k, Some("body"), &mut text));
                    ensure!(h == text, "inner-html", "{way}: the body reads {h:?}, expected {text:?}");
                }
                Err(e) => return fail("inner-html", js(&e)),
            }
        }
    }
    Ok(())
}
pub fn page_around(kids: Vec<N>) -> N {
    let e = |tag: &str, attrs: &[(&str, &str)], kids| N::E {
        ns: 0,
        tag: tag.into(),
        attrs: attrs.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
        kids,
    };
    let side = e("div", &[("class", "x")], vec![N::T("side".into())]);
    let mount = e("div", &[("id", "mount"), ("class", "m")], kids);
    let main = e("main", &[], vec![N::T(" ".into()), side.clone(), mount, N::C("end".into())]);
    e("html", &[], vec![e("head", &[], vec![]), e("body", &[("class", "b")], vec![side, main, N::T("\n".into())])])
}
fn w01(w: &Web<(String, String)>, fragment: bool) -> Verdict {
    let srcs = [w.src(&w.p.0), w.src(&w.p.1)];
    with_src(&srcs, fragment, |d| {
        let Some(patches) = parity(&d[0], &d[1], w.strict)? else { return Ok(Pass::new(false)) };
        entries(&d[0], &d[1], w.strict, &patches)?;
        Ok(web_labels(w, &patches, &d[1](), Pass::new(!patches.is_empty())))
    })
}
fn over<P>(w: &Web<P>, f: impl Fn(&P) -> (String, String)) -> Web<(String, String)> {
    Web { p: f(&w.p), names: w.names, tag: w.tag, strict: w.strict }
}
fn pair_srcs(p: &Pair) -> (String, String) {
    (p.a.html(), p.b().html())
}
fn soup_srcs(p: &Soup) -> (String, String) {
    (p.a.concat(), p.b().concat())
}
fn explain_web(w: &Web<(String, String)>, fragment: bool) -> String {
    let srcs = [w.src(&w.p.0), w.src(&w.p.1)];
    with_src(&srcs, fragment, |d| {
        let (a, b) = (d[0](), d[1]());
        format!("old: {}\nnew: {}\npatches: {:#?}", srcs[0], srcs[1], engine::guarded(|| Ok(hotmeal::diff(&a, &b))))
    })
}

/// Pages served as markup: what the browser's own parser makes of it.
fn w01_markup(w: &Web<(String, String)>) -> Verdict {
    let (a, b) = (w.src(&w.p.0), w.src(&w.p.1));
    with_src(&[a.clone(), b.clone()], false, |d| {
        load(&d[1](), w.strict);
        if let Err(e) = hotmeal_wasm::set_body_inner_html(&a) {
            return fail("inner-html", js(&e));
        }
        same_as(&body_of(&d[0]()).unwrap(), "after set_body_inner_html")?;
        let json = match hotmeal_wasm::diff_html(&a, &b) {
            Ok(j) => j,
            Err(e) => return fail("diff-error", js(&e)),
        };
        let owned = match hotmeal_wasm::diff_html_patches(&a, &b) {
            Ok(p) => p,
            Err(e) => return fail("diff-error", js(&e)),
        };
        let list: Vec<Patch<'static>> = match facet_json::from_str(&json) {
            Ok(l) => l,
            Err(e) => return fail("decode", format!("{e:?}")),
        };
        ensure!(list == owned, "diff", "diff_html gives\n{list:?}\ndiff_html_patches\n{owned:?}");
        match hotmeal_wasm::apply_patches_json(&json) {
            Ok(n) => ensure!(n == list.len(), "count", "{n} of {} patches applied", list.len()),
            Err(e) => return fail("apply-error", js(&e)),
        }
        same_as(&body_of(&d[1]()).unwrap(), "after apply_patches_json")?;
        Ok(web_labels(w, &list, &d[1](), Pass::new(!list.is_empty())))
    })
}
fn body_srcs(p: &Pair) -> (String, String) {
    let bare = |d: &Doc| {
        let mut s = String::new();
        d.body.iter().for_each(|n| write(n, &mut s));
        s
    };
    (bare(&p.a), bare(&p.b()))
}

/// Patches of every kind, whether `diff` makes them or not.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Syn {
    Text(u16, String),
    Attr(u16, u8, String),
    RmAttr(u16, u8),
    Props(u16, Vec<(u8, String)>),
    /// A text among the changes, for a node of any kind
    PropText(u16, Option<String>, Vec<(u8, String)>),
    Element(u16, u8, Nd),
    Leaf(u16, u8, bool, String),
    Remove(u16),
    Move(u16, u16, u8),
    FromSlot(u8, u16, u8),
    DropSlot(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Synth {
    pub a: Doc,
    pub ops: Vec<Syn>,
    pub strict: bool,
}
fn synth() -> BoxedStrategy<Synth> {
    let g = Gen { tags: 2, opaque: 0, size: 12 };
    let (n, i) = (any::<u16>, any::<u8>);
    let op = prop_oneof![
        2 => (n(), text()).prop_map(|(a, t)| Syn::Text(a, t)),
        3 => (n(), i(), value()).prop_map(|(a, k, v)| Syn::Attr(a, k, v)),
        2 => (n(), i()).prop_map(|(a, k)| Syn::RmAttr(a, k)),
        3 => (n(), prop::collection::vec((i(), value()), 0..4)).prop_map(|(a, v)| Syn::Props(a, v)),
        1 => (n(), prop::option::weighted(0.8, text()), prop::collection::vec((i(), value()), 0..2)).prop_map(|(a, t, v)| Syn::PropText(a, t, v)),
        4 => (n(), i(), node(g)).prop_map(|(a, p, e)| Syn::Element(a, p, e)),
        2 => (n(), i(), any::<bool>(), text()).prop_map(|(a, p, c, t)| Syn::Leaf(a, p, c, t)),
        2 => n().prop_map(Syn::Remove),
        4 => (n(), n(), i()).prop_map(|(a, b, p)| Syn::Move(a, b, p)),
        3 => (i(), n(), i()).prop_map(|(s, b, p)| Syn::FromSlot(s, b, p)),
        1 => i().prop_map(Syn::DropSlot),
    ];
    (doc(g), prop::collection::vec(op, 1..12), any::<bool>()).prop_map(|(a, ops, strict)| Synth { a, ops, strict }).boxed()
}
fn some_name(k: u8) -> QualName {
    let plain = |l: &str| QualName::new(None, "".into(), l.into());
    match k % 24 {
        20 => QualName::new(Some("xlink".into()), "http://www.w3.org/1999/xlink".into(), "href".into()),
        21 => QualName::new(Some("xml".into()), "http://www.w3.org/XML/1998/namespace".into(), "lang".into()),
        22 => QualName::new(None, "http://www.w3.org/2000/xmlns/".into(), "xmlns".into()),
        23 => QualName::new(Some("xmlns".into()), "http://www.w3.org/2000/xmlns/".into(), "xlink".into()),
        k => plain(NAMES[k as usize]),
    }
}
/// Elements of the tree and everything in it, with their paths.
fn places(d: &Document, slot: u32, n: hotmeal::NodeId, path: &mut Vec<u32>, out: &mut Vec<(Vec<u32>, hotmeal::NodeId)>) {
    out.push((path.clone(), n));
    for (i, c) in d.children(n).enumerate() {
        path.push(i as u32);
        places(d, slot, c, path, out);
        path.pop();
    }
}
/// The names that HTML and foreign elements spell alike.
fn tag_name(t: u8) -> hotmeal::LocalName {
    match tag(t) {
        "foreignObject" => "desc".into(),
        "linearGradient" => "use".into(),
        t => t.into(),
    }
}
fn content(n: &Nd) -> Option<hotmeal::InsertContent<'static>> {
    Some(match n {
        Nd::T(t) => hotmeal::InsertContent::Text(Stem::from(t.clone())),
        Nd::C(t) => hotmeal::InsertContent::Comment(Stem::from(t.clone())),
        Nd::E(t, a, k) => hotmeal::InsertContent::Element { tag: tag_name(*t), attrs: pairs(a), children: k.iter().filter_map(content).collect() },
    })
}
fn pairs(a: &[(u8, String)]) -> Vec<hotmeal::AttrPair<'static>> {
    let mut out: Vec<hotmeal::AttrPair<'static>> = vec![];
    for (k, v) in a {
        let name = some_name(*k);
        if !out.iter().any(|p| clash(&p.name, &name)) {
            out.push(hotmeal::AttrPair { name, value: Stem::from(v.clone()) });
        }
    }
    out
}
/// Names the DOM interface cannot tell apart.
fn clash(a: &QualName, b: &QualName) -> bool {
    let q = |x: &QualName| x.prefix.as_ref().map_or(x.local.to_string(), |p| format!("{p}:{}", x.local));
    q(a) == q(b)
}
struct Host {
    x: Document<'static>,
    native: HashMap<u32, hotmeal::NodeId>,
    slots: Slots,
    next: u32,
    kinds: std::collections::BTreeSet<&'static str>,
}
impl Host {
    /// Where an insertion goes: a position behind the children, or one whose
    /// occupant moves to a new slot.
    fn spot(&mut self, parent: &[u32], id: hotmeal::NodeId, p: u8) -> (NodeRef, Option<u32>) {
        let n = self.x.children(id).count() as u32;
        let at = p as u32 % (n + 2);
        let mut path = parent.to_vec();
        path.push(at);
        let slot = (at < n).then(|| {
            let first = p as u32 / 8;
            self.next += 1;
            // in any order of their numbers
            (0..40).map(|i| 1 + (first + i) % 40).find(|s| !self.native.contains_key(s)).unwrap_or(40 + self.next)
        });
        (NodeRef(NodePath(path.into())), slot)
    }
    fn make(&mut self, op: &Syn) -> Option<Patch<'static>> {
        let body = self.x.body().unwrap();
        let mut all = vec![];
        places(&self.x, 0, body, &mut vec![0], &mut all);
        let mut held: Vec<u32> = self.native.keys().copied().filter(|s| *s != 0).collect();
        held.sort();
        for s in &held {
            places(&self.x, *s, self.native[s], &mut vec![*s], &mut all);
        }
        let els: Vec<_> = all.iter().filter(|p| matches!(self.x.get(p.1).kind, NodeKind::Element(_))).cloned().collect();
        let el = |i: u16| els[i as usize % els.len()].clone();
        let path = |p: &Vec<u32>| NodePath(p.clone().into());
        Some(match op {
            Syn::Text(i, t) => {
                let leaves: Vec<_> = all.iter().filter(|p| !matches!(self.x.get(p.1).kind, NodeKind::Element(_))).collect();
                Patch::SetText { path: path(&leaves.get(*i as usize % leaves.len().max(1))?.0), text: Stem::from(t.clone()) }
            }
            Syn::Attr(i, k, v) => {
                let (p, id) = el(*i);
                let name = some_name(*k);
                let NodeKind::Element(e) = &self.x.get(id).kind else { unreachable!() };
                if e.attrs.iter().any(|a| a.0 != name && clash(&a.0, &name)) {
                    return None;
                }
                Patch::SetAttribute { path: path(&p), name, value: Stem::from(v.clone()) }
            }
            Syn::RmAttr(i, k) => {
                let (p, id) = el(*i);
                let NodeKind::Element(e) = &self.x.get(id).kind else { unreachable!() };
                let name = match e.attrs.get(*k as usize / 2 % e.attrs.len().max(1)) {
                    Some(a) if k % 2 == 0 => a.0.clone(),
                    _ => some_name(k / 2),
                };
                if e.attrs.iter().any(|a| a.0 != name && clash(&a.0, &name)) {
                    return None;
                }
                Patch::RemoveAttribute { path: path(&p), name }
            }
            Syn::Props(i, v) => {
                let (p, id) = el(*i);
                let NodeKind::Element(e) = &self.x.get(id).kind else { unreachable!() };
                let mut changes = vec![];
                let mut names: Vec<QualName> = vec![];
                for (k, v) in v {
                    let (name, keep) = match e.attrs.get(*k as usize / 3 % e.attrs.len().max(1)) {
                        Some(a) if k % 3 > 0 => (a.0.clone(), k % 3 == 1),
                        _ => (some_name(k / 3), false),
                    };
                    if names.iter().any(|n| clash(n, &name)) {
                        continue;
                    }
                    names.push(name.clone());
                    changes.push(hotmeal::PropChange { name: hotmeal::PropKey::Attr(name), value: (!keep).then(|| Stem::from(v.clone())) });
                }
                Patch::UpdateProps { path: path(&p), changes }
            }
            Syn::PropText(i, t, v) => {
                let (p, _) = &all[*i as usize % all.len()];
                let mut changes = vec![hotmeal::PropChange { name: hotmeal::PropKey::Text, value: t.clone().map(Stem::from) }];
                if let Some((k, v)) = v.first() {
                    let c = hotmeal::PropChange { name: hotmeal::PropKey::Attr(some_name(*k)), value: Some(Stem::from(v.clone())) };
                    changes.insert(*k as usize % 2, c);
                }
                Patch::UpdateProps { path: path(p), changes }
            }
            Syn::Element(i, p, e) => {
                let Nd::E(t, a, k) = e else { return None };
                let (pp, id) = el(*i);
                let (at, detach_to_slot) = self.spot(&pp, id, *p);
                Patch::InsertElement { at, tag: tag_name(*t), attrs: pairs(a), children: k.iter().filter_map(content).collect(), detach_to_slot }
            }
            Syn::Leaf(i, p, c, t) => {
                let (pp, id) = el(*i);
                let (at, detach_to_slot) = self.spot(&pp, id, *p);
                let text = Stem::from(t.clone());
                if *c { Patch::InsertComment { at, text, detach_to_slot } } else { Patch::InsertText { at, text, detach_to_slot } }
            }
            Syn::Remove(i) => {
                let (p, _) = &all[*i as usize % all.len()];
                if p.as_slice() == [0] {
                    return None;
                }
                Patch::Remove { node: NodeRef(path(p)) }
            }
            Syn::Move(i, j, at) => {
                let (from, _) = &all[*i as usize % all.len()];
                let (pp, id) = el(*j);
                // neither the body nor into itself; and not over itself
                if from.as_slice() == [0] || pp.starts_with(from) {
                    return None;
                }
                let (to, detach_to_slot) = self.spot(&pp, id, *at);
                if to.0.0[..] == from[..] || from[..].starts_with(&to.0.0) {
                    return None;
                }
                Patch::Move { from: NodeRef(path(from)), to, detach_to_slot }
            }
            Syn::FromSlot(s, j, at) => {
                let s = *held.get(*s as usize % held.len().max(1))?;
                let (pp, id) = el(*j);
                if pp[0] == s {
                    return None;
                }
                let (to, detach_to_slot) = self.spot(&pp, id, *at);
                Patch::Move { from: NodeRef(path(&vec![s])), to, detach_to_slot }
            }
            Syn::DropSlot(s) => Patch::Remove { node: NodeRef(path(&vec![*held.get(*s as usize % held.len().max(1))?])) },
        })
    }
}
fn kind(p: &Patch) -> &'static str {
    match p {
        Patch::InsertElement { .. } => "InsertElement",
        Patch::InsertText { .. } => "InsertText",
        Patch::InsertComment { .. } => "InsertComment",
        Patch::Remove { .. } => "Remove",
        Patch::SetText { .. } => "SetText",
        Patch::SetAttribute { .. } => "SetAttribute",
        Patch::RemoveAttribute { .. } => "RemoveAttribute",
        Patch::Move { .. } => "Move",
        Patch::UpdateProps { .. } => "UpdateProps",
        Patch::OpaqueChanged { .. } => "OpaqueChanged",
    }
}
fn w01_synth(s: &Synth) -> Verdict {
    with_src(&[s.a.html().replace("data-hotmeal-opaque", "data-hotmeal-")], false, |d| {
        let mut x = d[0]();
        if !has_body(&x) {
            return Ok(Pass::new(false));
        }
        load(&x, s.strict);
        let native = x.init_patch_slots();
        let mut h = Host { x, native, slots: Slots::new(), next: 0, kinds: Default::default() };
        for op in &s.ops {
            let Some(p) = h.make(op) else { continue };
            if let Patch::Move { from, .. } = &p
                && from.0.0.len() == 1
            {
                let slot = from.0.0[0];
                h.apply(&p)?;
                h.native.remove(&slot);
                continue;
            }
            if let Patch::Remove { node } = &p
                && node.0.0.len() == 1
            {
                let slot = node.0.0[0];
                h.apply(&p)?;
                h.native.remove(&slot);
                continue;
            }
            h.apply(&p)?;
        }
        let n = h.kinds.len();
        let mut pass = Pass::new(n >= 2).label(s.strict, "old name rules").label(h.next > 1, "several slots");
        for k in &h.kinds {
            pass = pass.label(true, k);
        }
        Ok(pass)
    })
}
impl Host {
    fn apply(&mut self, p: &Patch<'static>) -> Result<(), Fail> {
        self.kinds.insert(kind(p));
        if let Err(e) = self.x.apply_patch_with_slots(p.clone(), &mut self.native) {
            return fail("native", format!("natively, {p:?} failed: {e:?}"));
        }
        if let Err(e) = hotmeal_wasm::apply_patches_with_slots(std::slice::from_ref(p), &mut self.slots) {
            return fail("apply-error", format!("in the browser, {p:?} failed: {}", js(&e)));
        }
        same_as(&body_of(&self.x).unwrap(), &format!("after {p:?}"))
    }
}

// --------------------------------------------------------------------- W02

fn browse(w: &Web<Vec<String>>, mount: bool) -> Verdict {
    let srcs: Vec<String> = w.p.iter().map(|s| w.src(s)).collect();
    with_src(&srcs, false, |d| {
        if d.iter().any(|d| !has_body(&d())) {
            return Ok(Pass::new(false));
        }
        let first = d[0]();
        let old = body_of(&first).unwrap();
        if mount {
            fake::open(&spec(&page_around(old.kids().to_vec())), w.strict, hooks());
        } else {
            load(&first, w.strict);
        }
        let (mut rounds, mut total) = (0, 0);
        for i in 1..d.len() {
            let (old, new) = (d[i - 1](), d[i]());
            let patches: Vec<Patch<'static>> = diff(&old, &new)?.into_iter().map(|p| p.into_owned()).collect();
            let blob = match facet_postcard::to_vec(&patches) {
                Ok(b) => b,
                Err(e) => return fail("encode", format!("{e:?}")),
            };
            let r = if mount { hotmeal_wasm::apply_patches_postcard_on(&blob, "#mount") } else { hotmeal_wasm::apply_patches_postcard_on(&blob, "body") };
            if let Err(e) = r {
                return fail("apply-error", format!("state {i}: {}", js(&e)));
            }
            let want = body_of(&new).unwrap();
            if mount {
                let want = page_around(want.kids().to_vec());
                let (want, got) = (norm(&want, true), norm(&read(&fake::root()), true));
                ensure!(got == want, "wrong-result", "state {i}: the page is\n{}\nexpected\n{}", got.show(), want.show());
            } else {
                same_as(&want, &format!("state {i}"))?;
            }
            rounds += !patches.is_empty() as usize;
            total += patches.len();
        }
        Ok(Pass::new(rounds >= 2).label(total > 20, "over 20 patches").label(w.strict, "old name rules"))
    })
}
fn explain_states(w: &Web<Vec<String>>) -> String {
    let srcs: Vec<String> = w.p.iter().map(|s| w.src(s)).collect();
    with_src(&srcs, false, |d| {
        let mut s = String::new();
        for i in 0..d.len() {
            s.push_str(&format!("state {i}: {:?}\n", srcs[i]));
            if i > 0 {
                let (o, n) = (d[i - 1](), d[i]());
                s.push_str(&format!("  patches: {:?}\n", engine::guarded(|| Ok(hotmeal::diff(&o, &n)))));
            }
        }
        s
    })
}
pub fn states<P>(w: &Web<P>, f: impl Fn(&P) -> Vec<String>) -> Web<Vec<String>> {
    Web { p: f(&w.p), names: w.names, tag: w.tag, strict: w.strict }
}
pub fn hist_srcs(h: &Hist) -> Vec<String> {
    h.docs().iter().map(Doc::html).collect()
}
pub fn hist_bodies(h: &Hist) -> Vec<String> {
    h.docs()
        .iter()
        .map(|d| {
            let mut s = String::new();
            d.body.iter().for_each(|n| write(n, &mut s));
            s
        })
        .collect()
}

// --------------------------------------------------------------------- W03

fn w03(p: &Pair) -> Verdict {
    with_src(&[p.a.html(), p.b().html()], false, |d| {
        let (da, db) = (d[0](), d[1]());
        if !has_body(&da) || !has_body(&db) {
            return Ok(Pass::new(false));
        }
        let patches = diff(&da, &db)?;
        load(&da, false);
        let body = JsValue::from(web_sys::window().unwrap().document().unwrap().body().unwrap());
        let body = fake::number(&body).unwrap();
        let mut x = d[0]();
        let mut native = x.init_patch_slots();
        let mut slots = Slots::new();
        let mut sent = 0;
        for (i, q) in patches.iter().enumerate() {
            let before = shown();
            let opaque = match q {
                Patch::OpaqueChanged { path, content } => Some((path, content.as_ref().to_string())),
                _ => {
                    if let Err(e) = x.apply_patch_with_slots(q.clone(), &mut native) {
                        return fail("native", format!("natively, patch {i} ({q:?}) failed: {e:?}"));
                    }
                    None
                }
            };
            if let Err(e) = hotmeal_wasm::apply_patches_with_slots(std::slice::from_ref(q), &mut slots) {
                return fail("apply-error", format!("in the browser, patch {i} ({q:?}) failed: {}", js(&e)));
            }
            let events = fake::events();
            same_as(&body_of(&x).unwrap(), &format!("after patch {i} ({q:?})"))?;
            let Some((path, content)) = opaque else {
                ensure!(events.is_empty(), "event", "patch {i} ({q:?}) sends {events:?}");
                continue;
            };
            sent += 1;
            ensure!(shown() == before, "touched", "patch {i} ({q:?}) changes the document");
            ensure!(events.len() == 1, "event", "patch {i} ({q:?}) sends {} events", events.len());
            let e = &events[0];
            ensure!(e.kind == "hotmeal:opaque-changed" && e.bubbles, "event", "patch {i} ({q:?}) sends {e:?}");
            if path.0[0] == 0 {
                let want = fake::at(body, &path.0[1..]);
                ensure!(Some(e.target) == want, "target", "patch {i} ({q:?}) sends the event to {:?}, expected {:?}", fake::describe(e.target), want.map(fake::describe));
            }
            let get = |k: &str| js_sys::Reflect::get(&e.detail, &JsValue::from_str(k)).unwrap_or(JsValue::UNDEFINED);
            ensure!(get("content").as_string() == Some(content.clone()), "content", "the event's content is {:?}, expected {content:?}", get("content"));
            ensure!(fake::number(&get("element")) == Some(e.target), "element", "the event's element is {:?}, the target {}", get("element"), e.target);
            let key = match fake::describe(e.target) {
                Spec::Element { attrs, .. } => attrs.iter().find(|a| a.2 == "data-hotmeal-opaque").map(|a| a.3.clone()),
                _ => None,
            };
            ensure!(key.is_some() && get("key").as_string() == key, "key", "the event's key is {:?}, expected {key:?}", get("key"));
        }
        Ok(labels(&patches, Pass::new(sent > 0)).label(sent > 1, "several announced").label(patches.len() > sent && sent > 0, "among other patches"))
    })
}

// --------------------------------------------------------------------- W04

fn w04(w: &Web<Vec<String>>) -> Verdict {
    let srcs: Vec<String> = w.p.iter().map(|s| w.src(s)).collect();
    with_src(&srcs, false, |d| {
        let n = d.len();
        let (mut errors, mut fine) = (0, 0);
        for i in 0..n - 1 {
            for j in [(i + 2) % n, (i + n - 1) % n, 0] {
                if j == i {
                    continue;
                }
                let patches = diff(&d[i](), &d[i + 1]())?;
                let page = d[j]();
                load(&page, w.strict);
                match hotmeal_wasm::apply_patches(&patches) {
                    Ok(k) => {
                        ensure!(k == patches.len(), "count", "{k} of {} patches applied", patches.len());
                        fine += 1
                    }
                    Err(e) => {
                        ensure!(e.as_string().is_some_and(|s| s.starts_with("patch ")), "error", "the error does not say which patch failed: {e:?}");
                        errors += 1
                    }
                }
                ensure!(fake::sound(), "unsound", "the document is not a tree after {patches:?}");
                load(&page, w.strict);
                let mut slots = Slots::new();
                for p in patches.iter().rev().chain(&patches) {
                    let _ = hotmeal_wasm::apply_patches_with_slots(std::slice::from_ref(p), &mut slots);
                }
                ensure!(fake::sound(), "unsound", "the document is not a tree after {patches:?} in either order");
            }
        }
        // and without anything to apply them to
        let patches = diff(&d[0](), &d[n - 1]())?;
        load(&d[0](), w.strict);
        let before = read(&fake::root());
        ensure!(hotmeal_wasm::apply_patches_on(&patches, "#nowhere").is_err(), "mount", "a mount point that does not exist");
        ensure!(hotmeal_wasm::apply_patches_on(&patches, "<>").is_err(), "mount", "a selector that is none");
        ensure!(read(&fake::root()) == before, "mount", "the page changed for want of a mount point");
        Ok(Pass::new(errors > 0).label(fine > 0, "patches that happen to fit"))
    })
}

fn w04_wild(w: &crate::wild::Wild) -> Verdict {
    with_src(&w.srcs(), false, |d| {
        let patches = w.patches(&d[0](), &d[1]())?;
        let page = d[0]();
        load(&page, w.strict);
        let whole = hotmeal_wasm::apply_patches(&patches);
        ensure!(fake::sound(), "unsound", "the document is not a tree after {patches:?}");
        load(&page, w.strict);
        let mut slots = Slots::new();
        let (mut fine, mut first) = (0, None);
        let mut x = d[0]();
        let mut native = x.init_patch_slots();
        let (mut together, mut refused) = (true, false);
        for (i, p) in patches.iter().enumerate() {
            if first.is_none() && fake::body().is_none() {
                // a made up patch removed the body, which each call looks for anew
                return Ok(Pass::new(fine > 1).label(true, "body removed"));
            }
            // neither does one move or remove the body
            together &= !matches!(p, Patch::Move { from: n, .. } | Patch::Remove { node: n } if n.0.0[..] == [0]);
            let before = together.then(|| read(&fake::root()));
            let here = hotmeal_wasm::apply_patches_with_slots(std::slice::from_ref(p), &mut slots);
            // as long as both are the same page, what the native document refuses has no effect
            if first.is_none() && together && !matches!(p, Patch::OpaqueChanged { .. }) {
                // no patch of a diff goes to a taken place without a free slot for what is there
                let over = match p {
                    Patch::InsertElement { at, detach_to_slot, .. }
                    | Patch::InsertText { at, detach_to_slot, .. }
                    | Patch::InsertComment { at, detach_to_slot, .. }
                    | Patch::Move { to: at, detach_to_slot, .. } => match detach_to_slot {
                        None => crate::opaque::navigate(&x, &at.0.0, &native).is_some(),
                        Some(s) => native.contains_key(s),
                    },
                    _ => false,
                };
                let there = x.apply_patch_with_slots(p.clone(), &mut native);
                // the browser empties a slot that is used
                if let Patch::Move { from: n, .. } | Patch::Remove { node: n } = p
                    && let [slot] = n.0.0[..]
                    && slot > 0
                {
                    native.remove(&slot);
                }
                let both = !over && there.is_ok() && here.is_ok();
                match (there, &here) {
                    (Ok(()), Ok(_)) => {}
                    (Err(_), Err(_)) => refused = true,
                    (Err(_), Ok(_)) if before == Some(read(&fake::root())) => {}
                    (n, b) => return engine::fail("refusal", format!("patch {i} {p:?}: natively {n:?}, in the browser {b:?}")),
                }
                together = both && x.body().is_some();
            }
            match here {
                Ok(k) => {
                    ensure!(k == 1, "count", "{k} patches applied of one");
                    fine += 1
                }
                Err(_) => first = first.or(Some(i)),
            }
            ensure!(fake::sound(), "unsound", "the document is not a tree after {:?}", &patches[..=i]);
        }
        match (whole, first) {
            (Ok(k), None) => ensure!(k == patches.len(), "count", "{k} of {} patches applied", patches.len()),
            (Err(e), Some(i)) => {
                ensure!(e.as_string().is_some_and(|s| s.starts_with(&format!("patch {i}:"))), "error", "patch {i} fails; the error is {e:?}")
            }
            (whole, first) => return engine::fail("whole", format!("as a whole: {whole:?}; one by one the first to fail: {first:?}")),
        }
        Ok(Pass::new(fine > 1).label(first.is_some(), "errors").label(first.is_none(), "all fit").label(fine > 4, "over 4 fit").label(refused, "refused by both"))
    })
}

pub fn run(ctx: &Ctx) {
    let g = |tags, opaque| Gen { tags, opaque, size: 20 };
    let rule = |base: &str, nt: &str| format!("{base}; unusual attribute and element names, browsers with old and new rules for names; non-trivial: {nt}");
    match ctx.id.as_str() {
        "W01" => {
            let nt = "the patch list is not empty";
            ctx.campaign("safe", &rule(PAIRS, nt), ctx.cases(60_000, 2_000_000), || web(pair(g(0, 0))), |w| w01(&over(w, pair_srcs), false), |w| explain_web(&over(w, pair_srcs), false));
            ctx.campaign("all-tags", &rule(PAIRS, nt), ctx.cases(60_000, 2_000_000), || web(pair(g(2, 0))), |w| w01(&over(w, pair_srcs), false), |w| explain_web(&over(w, pair_srcs), false));
            ctx.campaign("soup", &rule(SOUP, nt), ctx.cases(60_000, 2_000_000), || web(soup_pair()), |w| w01(&over(w, soup_srcs), w.p.fragment), |w| explain_web(&over(w, soup_srcs), w.p.fragment));
            ctx.campaign("large", &rule(LARGE, nt), ctx.cases(240, 10_000), || web(big(1..2)), |w| w01(&over(w, |g: &Big| { let mut v = g.htmls(); let b = v.pop().unwrap(); (v.pop().unwrap(), b) }), false), |w| w.p.htmls().join("\n"));
            ctx.campaign("real", &rule(REAL, nt), ctx.cases(6_000, 200_000), || web(real(60, 1..2, false)), |w| w01(&over(w, |r: &Real| r.pair()), false), |w| w.p.show());
            ctx.campaign("markup", &rule("the bodies of H01's pairs as markup given to the browser", nt), ctx.cases(60_000, 2_000_000), || web(pair(g(0, 0))), |w| w01_markup(&over(w, body_srcs)), |w| explain_web(&over(w, body_srcs), false));
            ctx.campaign("every-kind", "a document and 1..11 patches of all kinds at places that exist, with and without slots; non-trivial: at least two kinds", ctx.cases(80_000, 3_000_000), synth, w01_synth, |s| s.a.html());
        }
        "W02" => {
            let nt = "at least two of the steps produced patches";
            let d = "a page and 2..7 successive states of it";
            ctx.campaign("states", &rule(d, nt), ctx.cases(40_000, 1_500_000), || web(hist(g(2, 0))), |w| browse(&states(w, hist_srcs), false), |w| explain_states(&states(w, hist_srcs)));
            ctx.campaign("mount-point", &rule("a mount point in a page and 2..7 successive states of its content", nt), ctx.cases(40_000, 1_500_000), || web(hist(g(0, 0))), |w| browse(&states(w, hist_bodies), true), |w| explain_states(&states(w, hist_bodies)));
            ctx.campaign("large", &rule(LARGE, nt), ctx.cases(400, 15_000), || web(big(2..6)), |w| browse(&states(w, |g: &Big| g.htmls()), false), |w| explain_states(&states(w, |g: &Big| g.htmls())));
            ctx.campaign("real", &rule(REAL, nt), ctx.cases(6_000, 200_000), || web(real(60, 2..6, false)), |w| browse(&states(w, |r: &Real| r.srcs()), false), |w| w.p.show());
            ctx.campaign("soup-states", &rule(SOUP, nt), ctx.cases(40_000, 1_500_000), || web(soup_hist()), |w| browse(&states(w, |h: &SoupHist| h.srcs()), false), |w| explain_states(&states(w, |h: &SoupHist| h.srcs())));
        }
        "W03" => ctx.campaign("opaque", "as the pairs of H05; non-trivial: at least one announcement", ctx.cases(120_000, 4_000_000), || pair(g(0, 8)).prop_map(|p| Pair { api: false, ..p }).boxed(), w03, explain),
        "W04" => {
            ctx.campaign("stale", &rule("histories as in W02, each step's patches applied to other states, whole and one by one", "some application reports an error"), ctx.cases(30_000, 1_000_000), || web(hist(Gen { tags: 0, opaque: 1, size: 16 })), |w| w04(&states(w, hist_srcs)), |w| explain_states(&states(w, hist_srcs)));
            ctx.campaign("made-up", "a page and 1..11 patches of any kind at any path of up to 5 steps and into any of 4 slots, alone or among the patches of an edit; whole and one by one, going on after errors; non-trivial: at least two fit", ctx.cases(100_000, 3_000_000), crate::wild::wild, w04_wild, crate::wild::explain);
        }
        _ => unreachable!(),
    }
}

//! The DOM interface (H08), strings (H09), attribute lists (H10), stale patches (H12).
use crate::checks::{Hist, diff, hist, t, with_src};
use crate::model::*;
use engine::proptest::prelude::*;
use engine::{Ctx, Pass, Verdict, ensure};
use hotmeal::{Document, HtmlProps, NodeId, NodeKind, PropKey, QualName, Stem, StrTendril};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::hash::{DefaultHasher, Hash, Hasher};

// --------------------------------------------------------------------- H08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    El(u8),
    Text(String),
    Comment(String),
    Append(u8, u8),
    Before(u8, u8),
    After(u8, u8),
    Remove(u8),
    Attr(u8, u8, String),
    RmAttr(u8, u8),
    SetText(u8, String),
    Fork,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Run {
    /// Start from a parsed document or from `Document::new()`
    pub from: Option<Doc>,
    pub ops: Vec<Op>,
}
fn run_strategy() -> BoxedStrategy<Run> {
    let i = any::<u8>();
    let op = prop_oneof![
        4 => (0u8..14).prop_map(Op::El),
        3 => text().prop_map(Op::Text),
        1 => comment().prop_map(Op::Comment),
        8 => (i, i).prop_map(|(a, b)| Op::Append(a, b)),
        5 => (i, i).prop_map(|(a, b)| Op::Before(a, b)),
        5 => (i, i).prop_map(|(a, b)| Op::After(a, b)),
        3 => i.prop_map(Op::Remove),
        4 => (i, 0u8..8, value()).prop_map(|(a, k, v)| Op::Attr(a, k, v)),
        2 => (i, 0u8..8).prop_map(|(a, k)| Op::RmAttr(a, k)),
        2 => (i, text()).prop_map(|(a, s)| Op::SetText(a, s)),
        1 => Just(Op::Fork),
    ];
    (prop::option::weighted(0.4, doc(Gen { tags: 0, opaque: 0, size: 10 })), prop::collection::vec(op, 1..50)).prop_map(|(from, ops)| Run { from, ops }).boxed()
}
#[derive(Clone, Debug)]
enum Mk {
    E(String, Vec<(String, String)>),
    T(String),
    C(String),
}
#[derive(Clone, Debug)]
struct Mn {
    k: Mk,
    up: Option<usize>,
    kids: Vec<usize>,
}
#[derive(Clone, Default)]
struct Model {
    n: Vec<Mn>,
    id: Vec<NodeId>,
    root: usize,
    /// The root of a parsed document hangs below a node for the document,
    /// beside the comments around it. It stays there.
    pinned: bool,
}
impl Model {
    fn add(&mut self, k: Mk, id: NodeId) -> usize {
        self.n.push(Mn { k, up: None, kids: vec![] });
        self.id.push(id);
        self.n.len() - 1
    }
    fn load(&mut self, d: &Document, id: NodeId) -> usize {
        let k = match &d.get(id).kind {
            NodeKind::Element(e) => Mk::E(e.tag.to_string(), e.attrs.iter().map(|(k, v)| (qname(k), v.to_string())).collect()),
            NodeKind::Text(t) => Mk::T(t.to_string()),
            NodeKind::Comment(t) => Mk::C(t.to_string()),
            NodeKind::Document => unreachable!("a document below an element"),
        };
        let i = self.add(k, id);
        for c in d.children(id).collect::<Vec<_>>() {
            let c = self.load(d, c);
            self.n[c].up = Some(i);
            self.n[i].kids.push(c);
        }
        i
    }
    fn cut(&mut self, c: usize) {
        if let Some(p) = self.n[c].up.take() {
            self.n[p].kids.retain(|x| *x != c);
        }
    }
    fn put(&mut self, p: usize, i: usize, c: usize) {
        self.n[c].up = Some(p);
        self.n[p].kids.insert(i, c);
    }
    /// Whether `a` is `b` or above it.
    fn above(&self, a: usize, b: usize) -> bool {
        let mut x = Some(b);
        while let Some(i) = x {
            if i == a {
                return true;
            }
            x = self.n[i].up;
        }
        false
    }
    fn tree(&self, i: usize) -> N {
        match &self.n[i].k {
            Mk::T(t) => N::T(t.clone()),
            Mk::C(t) => N::C(t.clone()),
            Mk::E(t, a) => N::E { ns: 0, tag: t.clone(), attrs: a.clone(), kids: self.n[i].kids.iter().map(|c| self.tree(*c)).collect() },
        }
    }
    fn agree(&self, d: &Document) -> Result<(), engine::Fail> {
        let of_id: HashMap<NodeId, usize> = self.id.iter().enumerate().map(|(i, x)| (*x, i)).collect();
        ensure!(of_id.len() == self.id.len(), "same-id", "two nodes have the same id");
        let nm = |x: Option<NodeId>| x.map(|x| of_id.get(&x).copied().unwrap_or(usize::MAX));
        for (i, n) in self.n.iter().enumerate() {
            let id = self.id[i];
            let what = format!("node {i} ({:?})", n.k);
            let kids: Vec<usize> = d.children(id).map(|c| of_id.get(&c).copied().unwrap_or(usize::MAX)).collect();
            ensure!(kids == n.kids, "children", "{what} has children {kids:?}, expected {:?}", n.kids);
            ensure!(nm(d.first_child(id)) == n.kids.first().copied(), "first", "{what}: first_child");
            ensure!(nm(d.last_child(id)) == n.kids.last().copied(), "last", "{what}: last_child");
            ensure!(d.child_count(id) == n.kids.len(), "count", "{what}: child_count {}", d.child_count(id));
            if n.up.is_none() {
                let (got, want) = (norm(&of(d, id), false), norm(&self.tree(i), false));
                ensure!(got == want, "content", "{what} is\n{}\nexpected\n{}", got.show(), want.show());
            }
            if self.pinned && i == self.root {
                continue;
            }
            ensure!(nm(d.parent(id)) == n.up, "parent", "{what} has parent {:?}, expected {:?}", nm(d.parent(id)), n.up);
            let at = n.up.map(|p| (p, self.n[p].kids.iter().position(|c| *c == i).unwrap()));
            let next = at.and_then(|(p, j)| self.n[p].kids.get(j + 1).copied());
            let prev = at.and_then(|(p, j)| if j > 0 { Some(self.n[p].kids[j - 1]) } else { None });
            ensure!(nm(d.next_sibling(id)) == next, "next", "{what}: next_sibling {:?}, expected {next:?}", nm(d.next_sibling(id)));
            ensure!(nm(d.prev_sibling(id)) == prev, "prev", "{what}: prev_sibling {:?}, expected {prev:?}", nm(d.prev_sibling(id)));
        }
        let kid = |t: &str| self.n[self.root].kids.iter().copied().find(|c| matches!(&self.n[*c].k, Mk::E(x, _) if x == t));
        ensure!(nm(d.body()) == kid("body"), "body", "body() is {:?}, expected {:?}", nm(d.body()), kid("body"));
        ensure!(nm(d.head()) == kid("head"), "head", "head() is {:?}, expected {:?}", nm(d.head()), kid("head"));
        ensure!(d.dump_body().is_some() == kid("body").is_some(), "dump", "dump_body and body disagree");
        ensure!(d.root == self.id[self.root], "root", "the root changed");
        Ok(())
    }
}
fn key(k: u8) -> QualName {
    // some names differ in prefix and namespace only
    match k {
        6 => QualName::new(Some("xlink".into()), "http://www.w3.org/1999/xlink".into(), "href".into()),
        7 => QualName::new(None, "http://www.w3.org/1999/xlink".into(), "href".into()),
        k => QualName::new(None, html5ever::ns!(), attr(k).into()),
    }
}
fn h08(r: &Run) -> Verdict {
    let src = r.from.as_ref().map(|d| d.html()).unwrap_or_default();
    with_src(&[src], false, |f| {
        let mut d: Document<'static> = if r.from.is_some() { f[0]() } else { Document::new() };
        let mut m = Model::default();
        m.root = m.load(&d, d.root);
        m.pinned = r.from.is_some();
        let mut forks: Vec<(Document<'static>, Model)> = vec![];
        m.agree(&d)?;
        let (mut moved, mut skipped) = (0, 0);
        for (k, op) in r.ops.iter().enumerate() {
            let n = m.n.len();
            let at = |i: u8| i as usize % n;
            let pin = |m: &Model, c: usize| m.pinned && c == m.root;
            let place = |m: &Model, s: usize, c: usize| m.n[s].up.is_some() && s != c && !m.above(c, s) && !pin(m, c);
            match op {
                Op::El(t) => {
                    let id = d.create_element(tag(*t));
                    m.add(Mk::E(tag(*t).into(), vec![]), id);
                }
                Op::Text(s) => {
                    let id = d.create_text(s.clone());
                    m.add(Mk::T(s.clone()), id);
                }
                Op::Comment(s) => {
                    let id = d.create_comment(s.clone());
                    m.add(Mk::C(s.clone()), id);
                }
                Op::Append(p, c) => {
                    let (p, c) = (at(*p), at(*c));
                    if !matches!(m.n[p].k, Mk::E(..)) || m.above(c, p) || pin(&m, c) {
                        skipped += 1;
                        continue;
                    }
                    d.append_child(m.id[p], m.id[c]);
                    m.cut(c);
                    let end = m.n[p].kids.len();
                    m.put(p, end, c);
                    moved += 1;
                }
                Op::Before(s, c) | Op::After(s, c) => {
                    let (s, c) = (at(*s), at(*c));
                    if !place(&m, s, c) {
                        skipped += 1;
                        continue;
                    }
                    let after = matches!(op, Op::After(..));
                    if after { d.insert_after(m.id[s], m.id[c]) } else { d.insert_before(m.id[s], m.id[c]) }
                    m.cut(c);
                    let p = m.n[s].up.unwrap();
                    let i = m.n[p].kids.iter().position(|x| *x == s).unwrap();
                    m.put(p, i + after as usize, c);
                    moved += 1;
                }
                Op::Remove(c) => {
                    let c = at(*c);
                    if pin(&m, c) {
                        skipped += 1;
                        continue;
                    }
                    d.remove(m.id[c]);
                    m.cut(c);
                }
                Op::Attr(e, k, v) => {
                    let e = at(*e);
                    d.set_attr(m.id[e], key(*k), v.clone());
                    if let Mk::E(_, a) = &mut m.n[e].k {
                        let q = qname(&key(*k));
                        match a.iter_mut().find(|x| x.0 == q) {
                            Some(x) => x.1 = v.clone(),
                            None => a.push((q, v.clone())),
                        }
                    }
                }
                Op::RmAttr(e, k) => {
                    let e = at(*e);
                    d.remove_attr(m.id[e], &key(*k));
                    if let Mk::E(_, a) = &mut m.n[e].k {
                        let q = qname(&key(*k));
                        a.retain(|x| x.0 != q);
                    }
                }
                Op::SetText(e, s) => {
                    let e = at(*e);
                    d.set_text(m.id[e], s.clone());
                    if let Mk::T(x) = &mut m.n[e].k {
                        *x = s.clone();
                    }
                }
                Op::Fork => forks.push((d.clone(), m.clone())),
            }
            if let Err(mut f) = m.agree(&d) {
                f.msg = format!("after operation {k} {op:?}: {}", f.msg);
                return Err(f);
            }
        }
        for (d, m) in &forks {
            if let Err(mut f) = m.agree(d) {
                f.msg = format!("a clone changed with the original: {}", f.msg);
                return Err(f);
            }
        }
        Ok(Pass::new(moved > 2).label(!forks.is_empty(), "clone").label(skipped > 0, "skipped an operation without meaning").label(r.from.is_some(), "parsed document").label(moved > 10, "over 10 placements"))
    })
}

// --------------------------------------------------------------------- H09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum So {
    New(u8, String),
    Push(u8, String),
    PushTendril(u8, String),
    Clone(u8),
    Own(u8),
}
fn strings() -> BoxedStrategy<Vec<So>> {
    let i = any::<u8>();
    let s = prop_oneof![4 => text(), 1 => value(), 1 => "[a-z]{20,40}", 1 => Just(String::new()), 1 => "\\PC{0,30}"];
    let op = prop_oneof![
        4 => (0u8..6, s.clone()).prop_map(|(a, s)| So::New(a, s)),
        5 => (i, s.clone()).prop_map(|(a, s)| So::Push(a, s)),
        2 => (i, s).prop_map(|(a, s)| So::PushTendril(a, s)),
        2 => i.prop_map(So::Clone),
        2 => i.prop_map(So::Own),
    ];
    prop::collection::vec(op, 1..30).boxed()
}
fn h09(ops: &Vec<So>) -> Verdict {
    fn h<T: Hash + ?Sized>(x: &T) -> u64 {
        let mut s = DefaultHasher::new();
        x.hash(&mut s);
        s.finish()
    }
    // what is borrowed lives as long as the operations do
    let src = ops.clone();
    let mut v: Vec<(Stem, String)> = vec![];
    let mut pushed = 0;
    for (k, op) in src.iter().enumerate() {
        let n = v.len();
        let at = |i: &u8| *i as usize % n.max(1);
        match op {
            So::New(how, s) => {
                let x = match how {
                    0 | 1 => Stem::from(s.as_str()),
                    2 => Stem::from(s.clone()),
                    3 => Stem::from(t(s)),
                    4 => Stem::from(&t(s)),
                    _ if s.is_empty() => Stem::default(),
                    _ => Stem::Borrowed(s.as_str()),
                };
                v.push((x, s.clone()));
            }
            _ if n == 0 => continue,
            So::Push(i, s) => {
                let x = &mut v[at(i)];
                x.0.push_str(s);
                x.1.push_str(s);
                pushed += 1;
            }
            So::PushTendril(i, s) => {
                let x = &mut v[at(i)];
                x.0.push_tendril(&StrTendril::from(s.as_str()));
                x.1.push_str(s);
                pushed += 1;
            }
            So::Clone(i) => {
                let x = v[at(i)].clone();
                v.push(x);
            }
            So::Own(i) => {
                let x = &mut v[at(i)];
                x.0 = std::mem::take(&mut x.0).into_owned();
            }
        }
        for (i, (a, s)) in v.iter().enumerate() {
            let ok = a.as_str() == s
                && a.as_ref() == s.as_str()
                && &**a == s.as_str()
                && a.len() == s.len()
                && a.is_empty() == s.is_empty()
                && *a == *s.as_str()
                && *a == s.as_str()
                && a.to_string() == *s
                && format!("{a:?}") == format!("{s:?}")
                && format!("{a:>8}") == format!("{s:>8}")
                && h(a) == h(s.as_str());
            ensure!(ok, "string", "after {k} {op:?}: string {i} is {a:?}, expected {s:?}");
        }
        if k % 5 == 4 {
            for (a, s) in &v {
                for (b, r) in &v {
                    ensure!((a == b) == (s == r), "eq", "{a:?} == {b:?}");
                }
            }
            let m: HashMap<Stem, usize> = v.iter().enumerate().map(|(i, x)| (x.0.clone(), i)).collect();
            for (_, s) in &v {
                ensure!(m.get(s.as_str()).is_some_and(|i| v[*i].1 == *s), "lookup", "{s:?} is not found in a map");
            }
        }
    }
    let borrowed = v.iter().any(|x| matches!(x.0, Stem::Borrowed(_)));
    Ok(Pass::new(pushed > 0 && v.len() > 1).label(borrowed, "borrowed").label(pushed > 5, "over 5 appends"))
}

// --------------------------------------------------------------------- H10

type Attrs = Vec<(u8, String)>;
fn props(a: &Attrs) -> HtmlProps<'static> {
    let mut out: Vec<(QualName, Stem<'static>)> = vec![];
    for (k, v) in a {
        if !out.iter().any(|x| x.0 == key(*k)) {
            out.push((key(*k), Stem::from(v.clone())));
        }
    }
    HtmlProps { attrs: out }
}
fn two_lists() -> BoxedStrategy<(Attrs, Attrs)> {
    let list = prop::collection::vec((0u8..8, prop_oneof![3 => prop::sample::select(vec!["a", "b", ""]).prop_map(String::from), 1 => value()]), 0..8);
    (list.clone(), list, prop::collection::vec((any::<u8>(), any::<u8>(), value()), 0..3), any::<bool>())
        .prop_map(|(a, b, edits, near)| {
            if !near {
                return (a, b);
            }
            let mut b = a.clone();
            for (i, how, v) in edits {
                let n = b.len();
                if n == 0 {
                    break;
                }
                let (i, j) = (i as usize % n, how as usize / 4 % n);
                match how % 4 {
                    0 => b[i].1 = v,
                    1 => b.swap(i, j),
                    2 => drop(b.remove(i)),
                    _ => b.push((how / 4 % 8, v)),
                }
            }
            (a, b)
        })
        .boxed()
}
fn h10((a, b): &(Attrs, Attrs)) -> Verdict {
    use cinereus::{PropValue, Properties};
    let (a, b) = (props(a), props(b));
    let (s, r) = (a.similarity(&b), b.similarity(&a));
    ensure!((0.0..=1.0).contains(&s), "range", "similarity {s}");
    ensure!(s == r, "symmetric", "similarity {s} one way, {r} the other");
    ensure!(a.similarity(&a) == 1.0 && b.similarity(&b) == 1.0, "reflexive", "a list is not similar to itself");
    let common = a.attrs.iter().filter(|x| b.attrs.iter().any(|y| x.0 == y.0)).count();
    let all = a.attrs.len() + b.attrs.len();
    let want = if all == 0 { 1.0 } else { 2.0 * common as f64 / all as f64 };
    ensure!((s - want).abs() < 1e-12, "dice", "similarity {s}, the share of common names is {want}");
    ensure!(a.len() == a.attrs.len() && a.is_empty() == a.attrs.is_empty(), "len", "len {} of {} attributes", a.len(), a.attrs.len());
    let d = a.diff(&b);
    let keys: Vec<_> = d.iter().map(|p| p.key.clone()).collect();
    let want: Vec<_> = b.attrs.iter().map(|x| PropKey::Attr(x.0.clone())).collect();
    ensure!(keys == want, "keys", "the final state lists {keys:?}, expected {want:?}");
    let mut changed = false;
    for (p, (k, v)) in d.iter().zip(&b.attrs) {
        let old = a.attrs.iter().find(|x| x.0 == *k).map(|x| &x.1);
        match &p.value {
            PropValue::Same => ensure!(old == Some(v), "same", "{:?} is called unchanged: {old:?} before, {v:?} after", p.key),
            PropValue::Different(x) => {
                changed = true;
                ensure!(x == v, "value", "{:?} becomes {x:?}, expected {v:?}", p.key)
            }
        }
    }
    let silent = !changed && a.attrs.len() <= d.len();
    ensure!(silent == (a.attrs == b.attrs), "silent", "{:?} to {:?}: {}", a.attrs, b.attrs, if silent { "nothing to do" } else { "something to do" });
    // names print as they are written
    for k in want {
        let PropKey::Attr(q) = &k else { unreachable!() };
        let w = match &q.prefix {
            Some(p) => format!("{p}:{}", q.local),
            None => q.local.to_string(),
        };
        ensure!(k.to_string() == w, "display", "{k} for {w}");
    }
    Ok(Pass::new(!silent).label(silent, "equal").label(common > 1 && !silent, "two in common").label(s > 0.0 && s < 1.0, "partly similar"))
}

// --------------------------------------------------------------------- H12

/// Patches of a later step applied to an earlier state.
fn stale(h: &Hist) -> Verdict {
    let srcs: Vec<String> = h.docs().iter().map(Doc::html).collect();
    with_src(&srcs, false, |f| {
        let n = f.len();
        let (mut errors, mut fine) = (0, 0);
        for i in 0..n - 1 {
            for j in [(i + 2) % n, (i + n - 1) % n, 0] {
                if j == i {
                    continue;
                }
                let patches = diff(&f[i](), &f[i + 1]())?;
                let mut x: Document<'static> = f[j]();
                let all = x.apply_patches(patches.clone());
                if all.is_ok() { fine += 1 } else { errors += 1 }
                sound(&x, &patches)?;
                // and one by one, going on after errors
                let mut y: Document<'static> = f[j]();
                let mut slots = y.init_patch_slots();
                for p in patches.iter().rev().chain(&patches) {
                    let _ = y.apply_patch_with_slots(p.clone(), &mut slots);
                }
                sound(&y, &patches)?;
            }
        }
        Ok(Pass::new(errors > 0).label(fine > 0, "patches that happen to fit"))
    })
}
/// Links agree in both directions and every node is in one place.
pub fn sound(d: &Document, patches: &[hotmeal::Patch]) -> Result<(), engine::Fail> {
    let mut seen = std::collections::HashSet::new();
    let mut todo = vec![d.root];
    while let Some(n) = todo.pop() {
        ensure!(seen.insert(n), "cycle", "a node is in the tree twice after {patches:?}");
        let mut prev = None;
        let leaf = matches!(d.get(n).kind, hotmeal::NodeKind::Text(_) | hotmeal::NodeKind::Comment(_));
        for c in d.children(n) {
            ensure!(!leaf, "leaf", "a text or comment has a child after {patches:?}");
            ensure!(d.parent(c) == Some(n), "parent", "a child has another parent after {patches:?}");
            ensure!(d.prev_sibling(c) == prev, "sibling", "siblings disagree after {patches:?}");
            prev = Some(c);
            todo.push(c);
            ensure!(seen.len() < 5000, "cycle", "the tree has no end");
        }
    }
    let _ = d.to_html();
    Ok(())
}
pub fn run(ctx: &Ctx) {
    match ctx.id.as_str() {
        "H08" => ctx.campaign("histories", "1..50 operations on a new or parsed document; non-trivial: at least three placements", ctx.cases(60_000, 2_000_000), run_strategy, h08, |_| String::new()),
        "H09" => ctx.campaign("histories", "1..30 operations on strings of every origin; non-trivial: an append and two strings", ctx.cases(150_000, 4_000_000), strings, h09, |_| String::new()),
        "H10" => ctx.campaign("lists", "two attribute lists, unrelated or a few edits apart, with names that differ only in namespace or prefix; non-trivial: the lists differ", ctx.cases(300_000, 8_000_000), two_lists, h10, |_| String::new()),
        "H12" => {
            ctx.campaign("stale", "histories as in H02, each step's patches applied to other states of the document, whole and one by one in both orders; non-trivial: some application reports an error", ctx.cases(30_000, 1_000_000), || hist(Gen { tags: 0, opaque: 1, size: 16 }), stale, |_| String::new());
            ctx.campaign("made-up", "a document and 1..11 patches of any kind at any path of up to 5 steps and into any of 4 slots, alone or among the patches of an edit; whole and one by one, going on after errors; non-trivial: at least two fit", ctx.cases(150_000, 4_000_000), crate::wild::wild, crate::wild::h12, crate::wild::explain);
        }
        "H13" => ctx.campaign("effects", "a document and 1..15 patches of all kinds but OpaqueChanged, made for the state each of them meets (now and then at no place or at a node of another kind), with names that differ in prefix or namespace; one by one and in one call; non-trivial: at least two kinds", ctx.cases(200_000, 6_000_000), crate::effect::effects, crate::effect::h13, crate::effect::explain),
        _ => unreachable!(),
    }
}

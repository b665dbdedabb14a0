//! Diffing and applying: H01, H02, H03, H04, H11; dispatch.
use crate::model::*;
use crate::real::{REAL, Real, real};
use engine::proptest::prelude::*;
use engine::{Ctx, Fail, Pass, Verdict, ensure, fail};
use hotmeal::{Document, NodeId, NodeKind, Patch, StrTendril};
use serde::{Deserialize, Serialize};

/// An old document, edits that make the new one out of it (or another document
/// altogether), and how the documents come into being.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pair {
    pub a: Doc,
    pub edits: Vec<Ed>,
    pub other: Option<Doc>,
    pub api: bool,
}
impl Pair {
    pub fn b(&self) -> Doc {
        let mut d = self.other.clone().unwrap_or_else(|| self.a.clone());
        for e in &self.edits {
            apply(&mut d, e);
            if size(&d.body) > 200 {
                break;
            }
        }
        d
    }
}
pub fn edits(g: Gen) -> BoxedStrategy<Vec<Ed>> {
    prop_oneof![4 => prop::collection::vec(edit(g), 1..4), 3 => prop::collection::vec(edit(g), 3..12), 1 => Just(vec![])].boxed()
}
pub fn pair(g: Gen) -> BoxedStrategy<Pair> {
    (doc(g), edits(g), prop_oneof![3 => Just(None), 1 => doc(g).prop_map(Some)], prop::bool::weighted(0.3))
        .prop_map(|(a, edits, other, api)| Pair { a, edits, other, api })
        .boxed()
}

/// Any strings: pieces of markup, and edits of the list of pieces.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Soup {
    pub a: Vec<String>,
    /// (what, where, where to, piece)
    pub edits: Vec<(u8, u16, u16, String)>,
    pub fragment: bool,
}
pub fn soup_edits() -> BoxedStrategy<Vec<(u8, u16, u16, String)>> {
    let piece = soup().prop_map(|v| v.into_iter().next().unwrap_or_default());
    prop::collection::vec((any::<u8>(), any::<u16>(), any::<u16>(), piece), 0..6).boxed()
}
pub fn soup_pair() -> BoxedStrategy<Soup> {
    (soup(), soup_edits(), prop::bool::weighted(0.1)).prop_map(|(a, edits, fragment)| Soup { a, edits, fragment }).boxed()
}
pub fn soup_apply(v: &mut Vec<String>, e: &(u8, u16, u16, String)) {
    let n = v.len();
    let (i, j) = (e.1 as usize % n.max(1), e.2 as usize % n.max(1));
    match e.0 % 6 {
        0 | 1 => v.insert(e.1 as usize % (n + 1), e.3.clone()),
        _ if n == 0 => {}
        2 => drop(v.remove(i)),
        3 => v[i] = e.3.clone(),
        4 => v.swap(i, j),
        _ => {
            let p = v[i].clone();
            v.insert(j, p);
        }
    }
}
impl Soup {
    pub fn b(&self) -> Vec<String> {
        let mut v = self.a.clone();
        self.edits.iter().for_each(|e| soup_apply(&mut v, e));
        v
    }
}

pub fn t(s: &str) -> StrTendril {
    StrTendril::from(s)
}

pub type Make<'x> = &'x dyn Fn() -> Document<'static>;

/// Calls `f` with a parser for each string; the strings' buffers outlive every
/// document made in it.
pub fn with_src<R>(srcs: &[String], fragment: bool, f: impl FnOnce(&[Box<dyn Fn() -> Document<'static>>]) -> R) -> R {
    let ts: Vec<*mut StrTendril> = srcs.iter().map(|s| Box::into_raw(Box::new(t(s)))).collect();
    struct Free(Vec<*mut StrTendril>);
    impl Drop for Free {
        fn drop(&mut self) {
            for p in &self.0 {
                unsafe { drop(Box::from_raw(*p)) }
            }
        }
    }
    let free = Free(ts);
    let fs: Vec<Box<dyn Fn() -> Document<'static>>> = free
        .0
        .iter()
        .map(|p| {
            let r: &'static StrTendril = unsafe { &**p };
            Box::new(move || if fragment { hotmeal::parse_body_fragment(r) } else { hotmeal::parse(r) }) as Box<dyn Fn() -> _>
        })
        .collect();
    f(&fs)
}
pub fn with_docs<R>(p: &Pair, f: impl FnOnce(Make, Make) -> R) -> R {
    let (a, b) = (p.a.clone(), p.b());
    if p.api {
        f(&|| build(&a), &|| build(&b))
    } else {
        with_src(&[a.html(), b.html()], false, |d| f(&d[0], &d[1]))
    }
}
pub fn with_soup<R>(p: &Soup, f: impl FnOnce(Make, Make) -> R) -> R {
    with_src(&[p.a.concat(), p.b().concat()], p.fragment, |d| f(&d[0], &d[1]))
}
/// Without the mark of opaque elements: their content is the host page's business.
fn unmark(s: String) -> String {
    crate::model::unmark(&s)
}

fn explain_docs(a: Make, b: Make) -> String {
    let (a, b) = (a(), b());
    let patches = engine::guarded(|| Ok(hotmeal::diff(&a, &b)));
    format!("old: {}\nnew: {}\npatches: {:#?}", a.to_html(), b.to_html(), patches)
}
pub fn explain(p: &Pair) -> String {
    with_docs(p, |a, b| explain_docs(a, b))
}
pub fn explain_soup(p: &Soup) -> String {
    format!("old: {:?}\nnew: {:?}\n{}", p.a.concat(), p.b().concat(), with_soup(p, |a, b| explain_docs(a, b)))
}

pub fn diff<'a>(a: &Document<'a>, b: &Document<'a>) -> Result<Vec<Patch<'a>>, Fail> {
    match hotmeal::diff(a, b) {
        Ok(p) => Ok(p),
        Err(e) => fail("diff-error", format!("diff failed: {e:?}")),
    }
}

pub fn labels(p: &[Patch], pass: Pass) -> Pass {
    let any = |f: &dyn Fn(&Patch) -> bool| p.iter().any(f);
    pass.label(p.is_empty(), "no patches")
        .label(any(&|p| matches!(p, Patch::Move { .. })), "move")
        .label(any(&|p| matches!(p, Patch::Remove { .. })), "remove")
        .label(any(&|p| matches!(p, Patch::InsertElement { .. })), "insert element")
        .label(any(&|p| matches!(p, Patch::InsertElement { children, .. } if !children.is_empty())), "insert with content")
        .label(any(&|p| matches!(p, Patch::UpdateProps { .. })), "props")
        .label(any(&|p| matches!(p, Patch::SetText { .. })), "settext")
        .label(any(&|p| matches!(p, Patch::OpaqueChanged { .. })), "opaque changed")
        .label(
            any(&|p| {
                matches!(
                    p,
                    Patch::Move { detach_to_slot: Some(_), .. }
                        | Patch::InsertElement { detach_to_slot: Some(_), .. }
                        | Patch::InsertText { detach_to_slot: Some(_), .. }
                )
            }),
            "slot",
        )
}

/// Applies the patches one by one.
pub fn apply_all<'a>(x: &mut Document<'a>, patches: &[Patch<'a>]) -> Result<(), Fail> {
    let mut slots = x.init_patch_slots();
    for (i, q) in patches.iter().enumerate() {
        if let Err(e) = x.apply_patch_with_slots(q.clone(), &mut slots) {
            return fail("apply-error", format!("patch {i} ({q:?}) failed: {e:?}"));
        }
    }
    Ok(())
}
/// The body of a document a list of patches was applied to, against the new one's.
pub fn same_body(x: &Document, b: &Document, ns: bool) -> Result<(), Fail> {
    let want = body_of(b).map(|n| norm(&n, ns));
    let got = body_of(x).map(|n| norm(&n, ns));
    match (&want, &got) {
        (Some(w), Some(g)) => {
            ensure!(w == g, "wrong-result", "applying the patches gives\n{}\nexpected\n{}", g.show(), w.show());
            // an element built into the wrong namespace is written by other rules
            let alike = ns || body_of(b).map(|n| norm(&n, true)) == body_of(x).map(|n| norm(&n, true));
            ensure!(!alike || x.to_body_html() == b.to_body_html(), "wrong-html", "the patched body is {:?}, the new one {:?}", x.to_body_html(), b.to_body_html());
        }
        (None, Some(g)) => ensure!(g.is_bare(), "wrong-result", "the new document has no body, the patched one {}", g.show()),
        (Some(w), None) => ensure!(w.is_bare(), "wrong-result", "no body after patching, expected {}", w.show()),
        (None, None) => {}
    }
    Ok(())
}

// --------------------------------------------------------------------- H01

fn roundtrip(a: Make, b: Make, ns: bool) -> Verdict {
    let (da, db) = (a(), b());
    let patches = diff(&da, &db)?;
    let mut x = a();
    apply_all(&mut x, &patches)?;
    same_body(&x, &db, ns)?;
    let mut y = a();
    if let Err(e) = y.apply_patches(patches.clone()) {
        return fail("apply-error", format!("apply_patches failed: {e:?}"));
    }
    same_body(&y, &db, ns)?;
    let bodies = da.body().is_some() as u8 + db.body().is_some() as u8;
    let foreign = body_of(&db).is_some_and(|n| n.has(&|n| matches!(n, N::E { ns: 1.., .. })));
    Ok(labels(&patches, Pass::new(!patches.is_empty())).label(bodies == 1, "body on one side only").label(foreign, "svg or math"))
}
pub fn h01(p: &Pair) -> Verdict {
    with_docs(p, |a, b| roundtrip(a, b, !p.api))
}
pub fn h01_soup(p: &Soup) -> Verdict {
    with_src(&[unmark(p.a.concat()), unmark(p.b().concat())], p.fragment, |d| roundtrip(&d[0], &d[1], true))
}

// --------------------------------------------------------------------- H02

/// A document and the states it goes through.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub a: Doc,
    pub steps: Vec<Vec<Ed>>,
    pub other: Option<(u8, Doc)>,
}
pub fn hist(g: Gen) -> BoxedStrategy<Hist> {
    (
        doc(g),
        prop::collection::vec(prop::collection::vec(edit(g), 0..5), 2..8),
        prop::option::weighted(0.15, (any::<u8>(), doc(g))),
    )
        .prop_map(|(a, steps, other)| Hist { a, steps, other })
        .boxed()
}
impl Hist {
    pub fn docs(&self) -> Vec<Doc> {
        let mut d = self.a.clone();
        let mut out = vec![d.clone()];
        for (i, s) in self.steps.iter().enumerate() {
            if let Some((k, o)) = &self.other
                && *k as usize % self.steps.len() == i
            {
                d = o.clone();
            }
            for e in s {
                apply(&mut d, e);
            }
            if size(&d.body) > 150 {
                d.body.truncate(1);
            }
            out.push(d.clone());
        }
        out
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SoupHist {
    pub a: Vec<String>,
    pub steps: Vec<Vec<(u8, u16, u16, String)>>,
}
pub fn soup_hist() -> BoxedStrategy<SoupHist> {
    (soup(), prop::collection::vec(soup_edits(), 2..6)).prop_map(|(a, steps)| SoupHist { a, steps }).boxed()
}
impl SoupHist {
    pub fn srcs(&self) -> Vec<String> {
        let mut v = self.a.clone();
        let mut out = vec![v.concat()];
        for s in &self.steps {
            s.iter().for_each(|e| soup_apply(&mut v, e));
            out.push(v.concat());
        }
        out
    }
}
fn follow(srcs: &[String]) -> Verdict {
    with_src(srcs, false, |d| {
        let mut client = d[0]();
        let (mut total, mut rounds, mut gaps) = (0, 0, false);
        for i in 1..d.len() {
            let (old, new) = (d[i - 1](), d[i]());
            let patches = diff(&old, &new)?;
            if let Err(mut f) = apply_all(&mut client, &patches).and_then(|()| same_body(&client, &new, true)) {
                f.msg = format!("state {i}: {}", f.msg);
                return Err(f);
            }
            total += patches.len();
            rounds += !patches.is_empty() as usize;
            gaps |= body_of(&client).is_some_and(|n| n.has(&|n| matches!(n, N::T(t) if t.is_empty())));
        }
        Ok(Pass::new(rounds >= 2).label(gaps, "placeholders left behind").label(rounds > 4, "many changes").label(total > 20, "over 20 patches"))
    })
}
fn explain_srcs(srcs: &[String]) -> String {
    with_src(srcs, false, |d| {
        let mut s = String::new();
        for i in 0..d.len() {
            s.push_str(&format!("state {i}: {:?}\n", srcs[i]));
            if i > 0 {
                let (o, n) = (d[i - 1](), d[i]());
                s.push_str(&format!("  patches: {:?}\n", engine::guarded(|| Ok(hotmeal::diff(&o, &n)))));
            }
        }
        s
    })
}
fn doc_srcs(h: &Hist) -> Vec<String> {
    h.docs().iter().map(Doc::html).collect()
}

// --------------------------------------------------------------------- H03

fn silence(a: Make, b: Make, ns: bool) -> Verdict {
    let (da, db) = (a(), b());
    for (x, y, what) in [(a(), a(), "old"), (b(), b(), "new")] {
        let p = diff(&x, &y)?;
        ensure!(p.is_empty(), "noise", "{} patches for two copies of the {what} document: {p:?}", p.len());
        let p = diff(&x, &x)?;
        ensure!(p.is_empty(), "noise", "{} patches for the {what} document and itself: {p:?}", p.len());
        let c = x.clone();
        let p = diff(&x, &c)?;
        ensure!(p.is_empty(), "noise", "{} patches for the {what} document and its clone: {p:?}", p.len());
    }
    let patches = diff(&da, &db)?;
    let again = diff(&a(), &b())?;
    ensure!(patches == again, "unstable", "diffing the same documents twice gives\n{patches:?}\nand\n{again:?}");
    let strip = |d: &Document| body_of(d).map(|n| if ns { n } else { norm_ns(&n) });
    let (na, nb) = (strip(&da), strip(&db));
    match (&na, &nb) {
        (Some(x), Some(y)) => {
            ensure!(
                patches.is_empty() == (x == y),
                if patches.is_empty() { "missed" } else { "noise" },
                "the bodies are {}, and there are {} patches: {patches:?}",
                if x == y { "equal" } else { "different" },
                patches.len()
            );
        }
        (Some(x), None) | (None, Some(x)) => {
            ensure!(patches.is_empty() == x.is_bare(), "missed", "body on one side only, {} patches", patches.len())
        }
        (None, None) => ensure!(patches.is_empty(), "noise", "no bodies, {} patches", patches.len()),
    }
    Ok(labels(&patches, Pass::new(!patches.is_empty())).label(na == nb, "equal bodies"))
}
/// As `norm`, but keeps empty text.
fn norm_ns(n: &N) -> N {
    match n {
        N::E { tag, attrs, kids, .. } => N::E { ns: 0, tag: tag.clone(), attrs: attrs.clone(), kids: kids.iter().map(norm_ns).collect() },
        N::D(k) => N::D(k.iter().map(norm_ns).collect()),
        o => o.clone(),
    }
}
fn one_edit(g: Gen) -> BoxedStrategy<Pair> {
    (doc(g), prop::collection::vec(edit(g), 0..2), any::<bool>())
        .prop_map(|(a, edits, api)| Pair { a, edits, other: None, api })
        .boxed()
}

// --------------------------------------------------------------------- H04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Local {
    pub a: Doc,
    pub e: Ed,
    pub api: bool,
}
/// Every leaf text is different and nothing is empty. Different texts may look alike.
fn uniquify(k: &[Nd], n: &mut usize) -> Vec<Nd> {
    let text = |t: &str, n: usize| match n % 9 {
        1 => format!("{t}~{n}"),
        2 => format!("{n}^{t}"),
        3 => format!("t{n} "),
        4 => format!(" t{n}"),
        5 => format!("T{n}\n"),
        6 => format!("t{n} lorem ipsum dolor sit amet, consectetur adipiscing elit"),
        _ => format!("t{n}"),
    };
    let mut out: Vec<Nd> = vec![];
    for c in k {
        match c {
            Nd::T(_) if matches!(out.last(), Some(Nd::T(_))) => {}
            Nd::T(t) => {
                *n += 1;
                out.push(Nd::T(text(t, *n)));
            }
            Nd::C(_) => {
                *n += 1;
                out.push(Nd::C(if *n % 2 == 0 { format!("c{n} ") } else { format!("c{n}") }));
            }
            Nd::E(t, a, k) => {
                let mut k = uniquify(k, n);
                if k.is_empty() {
                    *n += 1;
                    k.push(Nd::T(text("", *n)));
                }
                out.push(Nd::E(*t, a.clone(), k));
            }
        }
    }
    out
}
fn no_adjacent_text(k: &[Nd]) -> bool {
    k.windows(2).all(|w| !matches!(w, [Nd::T(_), Nd::T(_)])) && k.iter().all(|n| if let Nd::E(_, _, k) = n { no_adjacent_text(k) } else { true })
}
fn local(g: Gen) -> BoxedStrategy<Local> {
    let i = any::<u16>();
    let e = prop_oneof![
        3 => (i, prop::sample::select(vec!["changed", " Changed ", "a & b < c", "t1  ", "c"])).prop_map(|(a, t)| Ed::Text(a, t.into())),
        3 => (i, prop_oneof![4 => 0u8..6, 1 => 12u8..15], value()).prop_map(|(a, k, v)| Ed::Attr(a, k, v)),
        2 => (i, 0u8..6).prop_map(|(a, k)| Ed::RmAttr(a, k)),
        2 => (i, 1u8..4).prop_map(|(a, k)| Ed::RotAttrs(a, k)),
        3 => (i, i, any::<bool>(), 0u8..4).prop_map(|(a, b, el, t)| Ed::Ins(a, b, if el { Nd::E(t, vec![], vec![Nd::T("new".into())]) } else { Nd::T("new".into()) })),
        2 => (i, i, node(Gen { size: 6, ..g })).prop_map(|(a, b, n)| Ed::Ins(a, b, n)),
        3 => i.prop_map(Ed::Del),
        3 => (i, i).prop_map(|(a, b)| Ed::Swap(a, b)),
        2 => i.prop_map(Ed::Rev),
        1 => (0u8..6, value()).prop_map(|(k, v)| Ed::BodyAttr(k, v)),
    ];
    (doc(g), e, prop::bool::weighted(0.5)).prop_map(|(a, e, api)| Local { a, e, api }).boxed()
}
fn local_docs(l: &Local) -> Option<(Doc, Doc)> {
    let mut a = l.a.clone();
    a.body = uniquify(&a.body, &mut 0);
    if a.body.is_empty() || matches!(&l.e, Ed::Text(_, t) if t.trim().is_empty()) || (a.form % 4 > 1 && matches!(l.e, Ed::BodyAttr(..))) {
        return None;
    }
    let mut b = a.clone();
    let e = match &l.e {
        Ed::Ins(p, i, n) => Ed::Ins(*p, *i, uniquify(std::slice::from_ref(n), &mut 5000).remove(0)),
        e => e.clone(),
    };
    (apply(&mut b, &e) && no_adjacent_text(&b.body)).then_some((a, b))
}
fn index(d: &Document, n: NodeId, path: &mut Vec<u32>, out: &mut Vec<(Vec<u32>, NodeId, N)>) {
    out.push((path.clone(), n, of(d, n)));
    let kids: Vec<_> = d.children(n).filter(|c| !matches!(&d.get(*c).kind, NodeKind::Text(t) if t.is_empty())).collect();
    for (i, c) in kids.into_iter().enumerate() {
        path.push(i as u32);
        index(d, c, path, out);
        path.pop();
    }
}
fn h04(l: &Local) -> Verdict {
    let Some((a, b)) = local_docs(l) else { return Ok(Pass::new(false)) };
    let p = Pair { a, edits: vec![], other: Some(b), api: l.api };
    with_docs(&p, |fa, fb| {
        let (da, db) = (fa(), fb());
        let patches = diff(&da, &db)?;
        let mut x = fa();
        let (bx, bb) = (x.body().unwrap(), db.body().unwrap());
        let mut old = vec![];
        index(&x, bx, &mut vec![0], &mut old);
        apply_all(&mut x, &patches)?;
        same_body(&x, &db, !l.api)?;
        let mut new = vec![];
        index(&x, bx, &mut vec![0], &mut new);
        let mut plan = vec![];
        index(&db, bb, &mut vec![0], &mut plan);
        let changed = norm_ns(&of(&da, da.body().unwrap())) != norm_ns(&of(&db, bb));
        ensure!(changed || patches.is_empty(), "noise", "nothing changed, patches: {patches:?}");
        // subtrees that are the same before and after are the same nodes
        let mut kept = 0;
        for (_, id, n) in &new {
            let n = norm_ns(n);
            if let Some((_, was, _)) = old.iter().find(|o| norm_ns(&o.2) == n) {
                kept += 1;
                ensure!(was == id, "rebuilt", "{} did not change, and is another node after patching", n.show());
            }
        }
        // so are the ancestors of the place edited: they keep their places
        let structure = |n: &N| match n {
            N::E { tag, kids, .. } => (tag.clone(), kids.len()),
            _ => (String::new(), 0),
        };
        let mut spine = 0;
        for (path, id, n) in &new {
            if let Some((_, was, o)) = old.iter().find(|o| o.0 == *path)
                && n.has(&|c| matches!(c, N::T(_) | N::C(_)) && o.has(&|d| d == c))
                && structure(o).0 == structure(n).0
            {
                spine += 1;
                ensure!(was == id, "spine", "{} keeps its place and part of its content, and is another node after patching", n.show());
            }
        }
        if changed {
            match &l.e {
                Ed::Text(_, want) => {
                    let ok = matches!(&patches[..], [Patch::SetText { path, text }] if {
                        plan.iter().any(|(p, _, n)| *p == path.0.as_slice() && matches!(n, N::T(t) | N::C(t) if t == text.as_ref() && t.trim_start() == want.trim_start()))
                    });
                    ensure!(ok, "not-minimal", "one text changed, patches: {patches:?}");
                }
                Ed::Attr(..) | Ed::RmAttr(..) | Ed::RotAttrs(..) | Ed::BodyAttr(..) => {
                    let ok = matches!(&patches[..], [Patch::UpdateProps { path, .. }] if {
                        plan.iter().zip(&old).any(|(n, o)| n.0 == path.0.as_slice() && norm_ns(&n.2) != norm_ns(&o.2))
                    });
                    ensure!(ok, "not-minimal", "attributes of one element changed, patches: {patches:?}");
                }
                _ => {
                    // every node of a subtree that comes or goes may take a patch, and so may every sibling
                    let siblings = old.iter().chain(&plan).map(|n| n.2.kids().len()).max().unwrap_or(0);
                    let most = 2 + siblings + old.len().abs_diff(plan.len());
                    ensure!(patches.len() <= most, "not-minimal", "{} patches for one local edit (at most {most} needed): {patches:?}", patches.len());
                }
            }
        }
        Ok(labels(&patches, Pass::new(changed && kept > 0)).label(spine > 2, "deep").label(kept > 5, "much unchanged"))
    })
}
fn explain_local(l: &Local) -> String {
    match local_docs(l) {
        Some((a, b)) => explain(&Pair { a, edits: vec![], other: Some(b), api: l.api }),
        None => String::new(),
    }
}

// --------------------------------------------------------------------- H11

fn codecs(a: Make, b: Make) -> Verdict {
    let patches = diff(&a(), &b())?;
    let owned: Vec<Patch<'static>> = patches.iter().cloned().map(|p| p.into_owned()).collect();
    ensure!(owned == patches, "into-owned", "into_owned changed\n{patches:?}\nto\n{owned:?}");
    let blob = match facet_postcard::to_vec(&owned) {
        Ok(b) => b,
        Err(e) => return fail("encode", format!("{e:?}")),
    };
    let back: Vec<Patch<'static>> = match facet_postcard::from_slice(&blob) {
        Ok(b) => b,
        Err(e) => return fail("decode", format!("{e:?}")),
    };
    ensure!(back == owned, "postcard", "patches\n{owned:?}\ncome back from postcard as\n{back:?}");
    let json = match facet_json::to_string(&owned) {
        Ok(b) => b,
        Err(e) => return fail("encode", format!("{e:?}")),
    };
    let back: Vec<Patch<'static>> = match facet_json::from_str(&json) {
        Ok(b) => b,
        Err(e) => return fail("decode", format!("{e:?}")),
    };
    ensure!(back == owned, "json", "patches\n{owned:?}\ncome back from JSON as\n{back:?}");
    for p in &owned {
        ensure!(!format!("{p:?}").is_empty(), "debug", "a patch prints as nothing");
    }
    // the decoded patches do the same
    let (mut x, mut y) = (a(), a());
    apply_all(&mut x, &patches)?;
    apply_all(&mut y, &back)?;
    ensure!(of(&x, x.root) == of(&y, y.root), "decoded-apply", "decoded patches give another document");
    let prefixed = owned.iter().any(|p| matches!(p, Patch::InsertElement { attrs, .. } if attrs.iter().any(|a| a.name.prefix.is_some())));
    Ok(labels(&patches, Pass::new(!patches.is_empty())).label(prefixed, "prefixed attribute"))
}

// ---------------------------------------------------------------- dispatch

pub const LARGE: &str = "pages of up to four parts (lists, tables, cards all alike, paragraphs, svg, pre, mixtures, nesting) of 0..900 items; items \
    are added, removed, changed, swapped, reversed, rotated, sorted, copied and moved between parts";
pub const PAIRS: &str = "an old document of 0..~60 nodes (full page / body tag / bare content, doctype or not; repeated \
pieces common) and a new one after 0..12 edits out of 16 kinds, or an unrelated one; 70% parsed from source text, 30% built \
through the DOM interface";
pub const SOUP: &str = "strings of up to 14 pieces of broken and unusual markup (unclosed and misnested tags, tables, SVG, MathML, \
templates, comments, entities, control characters) and 0..5 edits of the pieces";

pub fn run(ctx: &Ctx) {
    let g = |tags, opaque| Gen { tags, opaque, size: 24 };
    let rule = |base: &str, nt: &str| format!("{base}; non-trivial: {nt}");
    match ctx.id.as_str() {
        "H01" => {
            let nt = "the patch list is not empty";
            ctx.campaign("safe", &rule(PAIRS, nt), ctx.cases(300_000, 8_000_000), || pair(g(0, 0)), h01, explain);
            ctx.campaign("all-tags", &rule(PAIRS, nt), ctx.cases(300_000, 8_000_000), || pair(g(2, 0)), h01, explain);
            ctx.campaign("foreign", &rule(PAIRS, nt), ctx.cases(150_000, 4_000_000), || pair(g(3, 0)), h01, explain);
            ctx.campaign("soup", &rule(SOUP, nt), ctx.cases(300_000, 8_000_000), soup_pair, h01_soup, explain_soup);
            ctx.campaign("large", &rule(LARGE, nt), ctx.cases(1_000, 40_000), || big(1..2), |g: &Big| {
                let v = g.htmls();
                let n = g.parts.iter().map(|p| p.1).max().unwrap_or(0);
                Ok(with_src(&v, false, |d| roundtrip(&d[0], &d[1], true))?.label(n >= 300, "over 300 items"))
            }, |g: &Big| g.htmls().join("\n"));
            ctx.campaign("real", &rule(REAL, nt), ctx.cases(20_000, 600_000), || real(60, 1..2, false), |r: &Real| with_src(&r.srcs(), false, |d| roundtrip(&d[0], &d[1], true)), Real::show);
        }
        "H02" => {
            let nt = "at least two of the steps produced patches";
            let d = "a document and 2..7 successive states of it, each 0..4 edits after the previous";
            ctx.campaign("states", &rule(d, nt), ctx.cases(80_000, 3_000_000), || hist(g(0, 0)), |h: &Hist| follow(&doc_srcs(h)), |h: &Hist| explain_srcs(&doc_srcs(h)));
            ctx.campaign("states-all-tags", &rule(d, nt), ctx.cases(80_000, 3_000_000), || hist(g(2, 0)), |h: &Hist| follow(&doc_srcs(h)), |h: &Hist| explain_srcs(&doc_srcs(h)));
            ctx.campaign("soup-states", &rule(SOUP, nt), ctx.cases(100_000, 3_000_000), soup_hist, |h: &SoupHist| follow(&h.srcs().into_iter().map(unmark).collect::<Vec<_>>()), |h: &SoupHist| explain_srcs(&h.srcs().into_iter().map(unmark).collect::<Vec<_>>()));
            ctx.campaign("large", &rule(LARGE, nt), ctx.cases(400, 15_000), || big(2..7), |g: &Big| follow(&g.htmls()), |g: &Big| explain_srcs(&g.htmls()));
            ctx.campaign("real", &rule(REAL, nt), ctx.cases(6_000, 200_000), || real(60, 2..6, false), |r: &Real| follow(&r.srcs()), Real::show);
        }
        "H03" => {
            ctx.campaign("large", &rule(LARGE, "the documents differ"), ctx.cases(500, 20_000), || big(1..2), |g: &Big| with_src(&g.htmls(), false, |d| silence(&d[0], &d[1], true)), |g: &Big| g.htmls().join("\n"));
            let nt = "the documents differ";
            ctx.campaign("real", &rule(REAL, nt), ctx.cases(10_000, 300_000), || real(60, 0..2, true), |r: &Real| { let (a, b) = r.pair(); with_src(&[a, b], false, |d| silence(&d[0], &d[1], true)) }, Real::show);
            ctx.campaign("pairs", &rule(PAIRS, nt), ctx.cases(120_000, 4_000_000), || pair(g(1, 0)), |p| with_docs(p, |a, b| silence(a, b, !p.api)), explain);
            ctx.campaign("one-edit", &rule("as the pairs of H01 with at most one edit", nt), ctx.cases(120_000, 4_000_000), || one_edit(g(2, 0)), |p| with_docs(p, |a, b| silence(a, b, !p.api)), explain);
            ctx.campaign("opaque", &rule("as the pairs of H01 with opaque elements", nt), ctx.cases(120_000, 4_000_000), || pair(g(0, 8)), |p| with_docs(p, |a, b| silence(a, b, !p.api)), explain);
            ctx.campaign("soup", &rule(SOUP, nt), ctx.cases(120_000, 4_000_000), soup_pair, |p| with_soup(p, |a, b| silence(a, b, true)), explain_soup);
        }
        "H04" => {
            ctx.campaign(
                "local-edit",
                "documents in which all texts differ and one edit: a text, an attribute set, removed or reordered, a leaf \
                 inserted, a subtree deleted, siblings swapped or reversed, an attribute of the body; non-trivial: something \
                 changed and something did not",
                ctx.cases(250_000, 8_000_000),
                || local(g(0, 0)),
                h04,
                explain_local,
            );
        }
        "H05" => {
            let nt = "an opaque element of the old document is kept";
            ctx.campaign("opaque", &rule("as the pairs of H01 with a third of the elements opaque", nt), ctx.cases(250_000, 8_000_000), || pair(g(0, 8)), crate::opaque::h05, explain);
            ctx.campaign("opaque-all-tags", &rule("as the pairs of H01 with opaque elements of every kind", nt), ctx.cases(250_000, 8_000_000), || pair(g(1, 5)), crate::opaque::h05, explain);
            ctx.campaign("real", &rule(REAL, nt), ctx.cases(10_000, 300_000), || real(80, 1..2, true), |r: &Real| with_src(&r.srcs(), false, |d| crate::opaque::h05_of(&d[0], &d[1])), Real::show);
            let nt = "an opaque element's content is replaced";
            ctx.campaign("applied-real", &rule(REAL, nt), ctx.cases(10_000, 300_000), || real(80, 1..2, true), |r: &Real| with_src(&r.srcs(), false, |d| crate::opaque::applied(&d[0], &d[1])), Real::show);
            ctx.campaign("applied", &rule("as the pairs of H01 with opaque elements of every kind, all patches applied", nt), ctx.cases(150_000, 4_000_000), || prop_oneof![pair(g(1, 8)), pair(g(2, 8)), pair(g(3, 8))].prop_map(|p| Pair { api: false, ..p }), crate::opaque::h05_applied, explain);
            ctx.campaign("applied-soup", &rule(SOUP, nt), ctx.cases(100_000, 3_000_000), soup_pair, crate::opaque::h05_soup, explain_soup);
            ctx.campaign("applied-inside", &rule("markup soup in opaque elements of 29 kinds", nt), ctx.cases(150_000, 4_000_000), || (any::<u8>(), soup_pair()), crate::opaque::h05_inside, |w| explain_soup(&crate::opaque::inside(w)));
        }
        "H11" => {
            let nt = "the patch list is not empty";
            ctx.campaign("pairs", &rule(PAIRS, nt), ctx.cases(100_000, 3_000_000), || pair(g(2, 2)), |p| with_docs(p, |a, b| codecs(a, b)), explain);
            ctx.campaign("soup", &rule(SOUP, nt), ctx.cases(100_000, 3_000_000), soup_pair, |p| with_soup(p, |a, b| codecs(a, b)), explain_soup);
            ctx.campaign("real", &rule(REAL, nt), ctx.cases(6_000, 200_000), || real(60, 1..2, true), |r: &Real| with_src(&r.srcs(), false, |d| codecs(&d[0], &d[1])), Real::show);
        }
        #[cfg(feature = "server")]
        "S01" | "S02" | "S03" | "S04" | "S05" => crate::server::run(ctx),
        #[cfg(feature = "live")]
        "W05" => crate::live::run(ctx),
        #[cfg(feature = "wasm")]
        "W01" | "W02" | "W03" | "W04" => crate::wasm::run(ctx),
        "H06" | "H07" => crate::parse::run(ctx),
        "H08" | "H09" | "H10" | "H12" | "H13" => crate::dom::run(ctx),
        _ => {
            eprintln!("harness error: unknown property {}", ctx.id);
            std::process::exit(2);
        }
    }
}

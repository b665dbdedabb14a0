//! H05: elements marked `data-hotmeal-opaque`.
use crate::checks::*;
use crate::model::*;
use engine::{Fail, Pass, Verdict, ensure, fail};
use hotmeal::{Document, NodeId, NodeKind, Patch};
use std::collections::HashMap;

pub fn navigate(doc: &Document, path: &[u32], slots: &HashMap<u32, NodeId>) -> Option<NodeId> {
    let mut cur = *slots.get(path.first()?)?;
    for i in &path[1..] {
        cur = doc.children(cur).nth(*i as usize)?;
    }
    Some(cur)
}

pub fn is_opaque(doc: &Document, id: NodeId) -> bool {
    matches!(&doc.get(id).kind, NodeKind::Element(e) if e.attrs.iter().any(|(k, _)| k.local.as_ref() == "data-hotmeal-opaque"))
}

fn below(doc: &Document, id: NodeId) -> Vec<NodeId> {
    doc.children(id).flat_map(|c| std::iter::once(c).chain(below(doc, c)).collect::<Vec<_>>()).collect()
}

fn shell(n: &N) -> N {
    match n {
        N::E { tag, attrs, .. } => N::E { ns: 0, tag: tag.clone(), attrs: attrs.clone(), kids: vec![] },
        o => o.clone(),
    }
}

struct W<'x> {
    x: &'x Document<'x>,
    b: &'x Document<'x>,
    events: &'x HashMap<NodeId, String>,
    seen: usize,
    kept: usize,
    /// what each opaque element of the old document held
    held: &'x HashMap<NodeId, Vec<NodeId>>,
    /// the body, if it is opaque on one side only and so counts as plain
    plain: Option<NodeId>,
}
impl W<'_> {
    fn walk(&mut self, x: NodeId, b: NodeId) -> Result<(), Fail> {
        let (nx, nb) = (of(self.x, x), of(self.b, b));
        ensure!(shell(&nx) == shell(&nb), "wrong-result", "got {}, expected {}", shell(&nx).show(), shell(&nb).show());
        if is_opaque(self.b, b) && self.plain != Some(b) {
            self.seen += 1;
            if let Some(h) = self.held.get(&x) {
                self.kept += 1;
                ensure!(*h == below(self.x, x), "opaque-touched", "the content of an opaque element was changed in place: {}", nx.show());
            }
            let same = norm(&nx, false).kids() == norm(&nb, false).kids();
            let want = crate::parse::inner(&nb);
            match self.events.get(&x) {
                Some(c) => {
                    ensure!(crate::parse::read_in(c, &nb) == crate::parse::read_in(&want, &nb), "opaque-content", "content announced for an opaque element is {c:?}, the new content is {want:?}");
                    ensure!(!same, "opaque-needless", "a change is announced for an opaque element whose content did not change: {want:?}");
                }
                None => ensure!(same, "opaque-missed", "the element holds {}, the new document has {}, and no change is announced", nx.show(), nb.show()),
            }
            return Ok(());
        }
        let empty = |d: &Document, n: NodeId| matches!(&d.get(n).kind, NodeKind::Text(t) if t.is_empty());
        let kx: Vec<_> = self.x.children(x).filter(|n| !empty(self.x, *n)).collect();
        let kb: Vec<_> = self.b.children(b).filter(|n| !empty(self.b, *n)).collect();
        ensure!(kx.len() == kb.len(), "wrong-result", "got {}, expected {}", nx.show(), nb.show());
        kx.into_iter().zip(kb).try_for_each(|(x, b)| self.walk(x, b))
    }
}

pub fn h05(p: &Pair) -> Verdict {
    with_docs(p, |a, b| h05_of(a, b))
}
pub fn h05_of(a: Make, b: Make) -> Verdict {
    {
        let (da, db) = (a(), b());
        let patches = diff(&da, &db)?;
        let mut x = a();
        let (Some(bx), Some(bb)) = (x.body(), db.body()) else { return Ok(Pass::new(false)) };
        let both = is_opaque(&da, da.body().unwrap()) && is_opaque(&db, bb);
        let held: HashMap<NodeId, Vec<NodeId>> = {
            let mut m = HashMap::new();
            let mut st = vec![bx];
            while let Some(n) = st.pop() {
                if is_opaque(&x, n) && (n != bx || both) {
                    m.insert(n, below(&x, n));
                } else {
                    st.extend(x.children(n));
                }
            }
            m
        };
        let mut slots = x.init_patch_slots();
        let mut events: HashMap<NodeId, String> = HashMap::new();
        for (i, q) in patches.iter().enumerate() {
            if let Patch::OpaqueChanged { path, content } = q {
                let Some(n) = navigate(&x, &path.0, &slots) else {
                    return fail("opaque-path", format!("patch {i} ({q:?}) names a node that is not there"));
                };
                ensure!(is_opaque(&x, n), "opaque-path", "patch {i} ({q:?}) names {}, which is not opaque", of(&x, n).show());
                ensure!(events.insert(n, content.as_ref().to_string()).is_none(), "opaque-twice", "two changes are announced for one element");
                continue;
            }
            if let Err(e) = x.apply_patch_with_slots(q.clone(), &mut slots) {
                return fail("apply-error", format!("patch {i} ({q:?}) failed: {e:?}"));
            }
        }
        let mut w = W { x: &x, b: &db, events: &events, seen: 0, kept: 0, held: &held, plain: (!both).then_some(bb) };
        w.walk(bx, bb)?;
        let (seen, kept) = (w.seen, w.kept);
        let n = events.len();
        ensure!(n <= seen, "opaque-stray", "a change is announced for an element that is not in the new document");
        Ok(labels(&patches, Pass::new(kept > 0)).label(n > 0, "announced").label(kept > 1, "several kept").label(seen > kept, "new opaque"))
    }
}

/// Everything applied, announced contents included, which are read as markup
/// inside the element they are for.
pub fn h05_applied(p: &Pair) -> Verdict {
    with_docs(p, |a, b| applied(a, b))
}
pub fn h05_soup(p: &Soup) -> Verdict {
    with_soup(p, |a, b| applied(a, b))
}
/// Markup soup on both sides inside an opaque element of this kind.
pub const AROUND: &[&str] = &[
    "<div", "<table", "<script", "<textarea", "<svg", "<math", "<template", "<select", "<ul", "<p", "<pre", "<table><tbody", "<table><tr",
    "<math><annotation-xml encoding=text/html", "<noscript", "<iframe", "<style", "<svg><foreignObject", "<svg><desc", "<math><mi", "<a", "<button",
    "<option", "<x-y", "<form", "<table><caption", "<ruby", "<li", "<b",
];
pub fn inside(w: &(u8, Soup)) -> Soup {
    let mut s = w.1.clone();
    s.a.insert(0, format!("{} data-hotmeal-opaque>", AROUND[w.0 as usize % AROUND.len()]));
    s.edits.iter_mut().for_each(|e| e.1 = e.1.max(1));
    s
}
pub fn h05_inside(w: &(u8, Soup)) -> Verdict {
    h05_soup(&inside(w))
}
pub fn applied(a: Make, b: Make) -> Verdict {
    let (da, db) = (a(), b());
    let patches = diff(&da, &db)?;
    let mut x = a();
    let (Some(bx), Some(bb)) = (x.body(), db.body()) else { return Ok(Pass::new(false)) };
    let mut slots = x.init_patch_slots();
    let mut n = 0;
    for (i, q) in patches.iter().enumerate() {
        let target = match q {
            Patch::OpaqueChanged { path, content } => navigate(&x, &path.0, &slots).map(|n| (n, content.as_ref().to_string())),
            _ => None,
        };
        if let Err(e) = x.apply_patch_with_slots(q.clone(), &mut slots) {
            return fail("apply-error", format!("patch {i} ({q:?}) failed: {e:?}"));
        }
        if let Some((id, content)) = target {
            n += 1;
            let want = crate::parse::read_in(&content, &of(&x, id));
            let got = of(&x, id).kids().to_vec();
            ensure!(got == want, "opaque-applied", "{content:?} applied to {} gives\n{}\nexpected\n{}", shell(&of(&x, id)).show(), N::D(got).show(), N::D(want).show());
        }
    }
    // content whose markup reads back as that content
    let exact = !of(&db, bb).has(&|e| e.opaque() && join(&N::D(crate::parse::read_in(&crate::parse::inner(e), e))) != join(&N::D(e.kids().to_vec())));
    if exact {
        let (got, want) = (join(&of(&x, bx)), join(&of(&db, bb)));
        ensure!(got == want, "wrong-result", "got\n{}\nexpected\n{}", got.show(), want.show());
    }
    Ok(labels(&patches, Pass::new(n > 0)).label(exact && n > 0, "exact").label(n > 1, "several"))
}

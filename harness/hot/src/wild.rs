//! Patches nobody computed: any kind, at any path, into any slot.
use crate::checks::{apply_all, diff, with_src};
use crate::dom::sound;
use crate::model::*;
use engine::proptest::prelude::*;
use engine::{Pass, Verdict, ensure};
use hotmeal::{AttrPair, Document, InsertContent, LocalName, NodePath, NodeRef, Patch, PropChange, PropKey, QualName, Stem};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub kind: u8,
    pub at: Vec<u8>,
    pub from: Vec<u8>,
    pub slot: Option<u8>,
    pub text: String,
    pub what: Nd,
}
/// A document, patches made up, and where among them those of an edit go.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wild {
    pub a: Doc,
    pub edits: Vec<Ed>,
    pub ops: Vec<(u8, Op)>,
    pub strict: bool,
}
fn path() -> BoxedStrategy<Vec<u8>> {
    let step = prop_oneof![8 => 0u8..4, 1 => 4u8..8, 1 => Just(30u8)];
    prop_oneof![
        12 => (prop_oneof![6 => Just(0u8), 4 => 1u8..4], prop::collection::vec(step, 0..5)).prop_map(|(s, mut v)| {
            v.insert(0, s);
            v
        }),
        1 => Just(vec![]),
    ]
    .boxed()
}
pub fn wild() -> BoxedStrategy<Wild> {
    let g = Gen { tags: 0, opaque: 1, size: 12 };
    let op = (any::<u8>(), path(), path(), prop::option::of(0u8..4), text(), node(Gen { size: 4, ..g }))
        .prop_map(|(kind, at, from, slot, text, what)| Op { kind, at, from, slot, text, what });
    let edits = prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(edit(g), 1..4)];
    (doc(g), edits, prop::collection::vec((any::<u8>(), op), 1..12), any::<bool>())
        .prop_map(|(a, edits, ops, strict)| Wild { a, edits, ops, strict })
        .boxed()
}
fn np(p: &[u8]) -> NodePath {
    NodePath(p.iter().map(|x| *x as u32).collect())
}
fn name(k: u8) -> QualName {
    QualName::new(None, "".into(), attr(k).into())
}
fn attrs_of(a: &[(u8, String)]) -> Vec<AttrPair<'static>> {
    plain_attrs(a).into_iter().map(|(k, v)| AttrPair { name: QualName::new(None, "".into(), k.into()), value: Stem::from(v) }).collect()
}
fn content(n: &Nd) -> InsertContent<'static> {
    match n {
        Nd::T(t) => InsertContent::Text(Stem::from(t.clone())),
        Nd::C(t) => InsertContent::Comment(Stem::from(t.clone())),
        Nd::E(t, a, k) => InsertContent::Element { tag: LocalName::from(tag(*t)), attrs: attrs_of(a), children: k.iter().map(content).collect() },
    }
}
impl Op {
    fn patch(&self) -> Patch<'static> {
        let at = NodeRef(np(&self.at));
        let slot = self.slot.map(u32::from);
        let text = Stem::from(self.text.clone());
        match self.kind % 16 {
            0 | 1 => {
                let (tag, attrs, children) = match &self.what {
                    Nd::E(t, a, k) => (tag(*t), attrs_of(a), k.iter().map(content).collect()),
                    n => ("p", vec![], vec![content(n)]),
                };
                Patch::InsertElement { at, tag: LocalName::from(tag), attrs, children, detach_to_slot: slot }
            }
            2 => Patch::InsertText { at, text, detach_to_slot: slot },
            3 => Patch::InsertComment { at, text, detach_to_slot: slot },
            4..=6 => Patch::Remove { node: at },
            7 => Patch::SetText { path: np(&self.at), text },
            8 => Patch::SetAttribute { path: np(&self.at), name: name(self.kind / 16), value: text },
            9 => Patch::RemoveAttribute { path: np(&self.at), name: name(self.kind / 16) },
            10 => {
                let changes = match self.kind / 128 {
                    0 => vec![PropChange { name: PropKey::Text, value: self.slot.map(|_| text) }],
                    _ => vec![PropChange { name: PropKey::Attr(name(self.kind / 16)), value: self.slot.map(|_| text) }],
                };
                Patch::UpdateProps { path: np(&self.at), changes }
            }
            11 => Patch::OpaqueChanged { path: np(&self.at), content: text },
            _ => Patch::Move { from: NodeRef(np(&self.from)), to: at, detach_to_slot: slot },
        }
    }
}
impl Wild {
    pub fn srcs(&self) -> Vec<String> {
        let mut b = self.a.clone();
        self.edits.iter().for_each(|e| drop(apply(&mut b, e)));
        vec![self.a.html(), b.html()]
    }
    /// The made up patches, among those that lead from the first document to the second.
    pub fn patches(&self, a: &Document<'static>, b: &Document<'static>) -> Result<Vec<Patch<'static>>, engine::Fail> {
        let mut out = diff(a, b)?;
        for (i, op) in &self.ops {
            out.insert(*i as usize % (out.len() + 1), op.patch());
        }
        Ok(out)
    }
}
pub fn h12(w: &Wild) -> Verdict {
    with_src(&w.srcs(), false, |f| {
        let patches = w.patches(&f[0](), &f[1]())?;
        let mut x = f[0]();
        let whole = x.apply_patches(patches.clone());
        sound(&x, &patches)?;
        // going on after errors
        let mut y = f[0]();
        let mut slots = y.init_patch_slots();
        let (mut fine, mut errors) = (0, 0);
        for p in &patches {
            match y.apply_patch_with_slots(p.clone(), &mut slots) {
                Ok(()) => fine += 1,
                Err(_) => errors += 1,
            }
            sound(&y, &patches)?;
        }
        ensure!(whole.is_ok() == (errors == 0), "whole", "applied as a whole: {whole:?}, one by one: {errors} errors");
        if errors == 0 {
            let mut z = f[0]();
            apply_all(&mut z, &patches)?;
            ensure!(of(&x, x.root) == of(&z, z.root), "whole", "the whole list and its patches one by one give different documents");
        }
        Ok(Pass::new(fine > 1).label(errors > 0, "errors").label(errors == 0, "all fit").label(fine > 4, "over 4 fit"))
    })
}
pub fn explain(w: &Wild) -> String {
    let s = w.srcs();
    with_src(&s, false, |f| format!("old: {:?}\npatches: {:#?}", s[0], w.patches(&f[0](), &f[1]()).ok()))
}

//! Model trees, recipes that generate them, mutations, and builders that turn
//! them into the trees cinereus works on.

use super::ci as cinereus;
use cinereus::indextree::{Arena, NodeId};
use cinereus::{
    DiffTree, NodeData, NodeHash, PropValue, Properties, PropertyInFinalState, SimpleTypes, Tree,
};
use engine::proptest::collection::vec;
use engine::proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use std::fmt;

// ---------------------------------------------------------------- types

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Kd(pub u8);
impl fmt::Display for Kd {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "k{}", self.0)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Tx(pub u32);
impl fmt::Display for Tx {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "t{}", self.0)
    }
}

/// Ordered attributes plus a gate: different gates are wholly dissimilar.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Attrs {
    pub gate: u8,
    pub list: Vec<(u8, u32)>,
}

impl Properties for Attrs {
    type Key = Kd;
    type Value = Tx;

    fn similarity(&self, other: &Self) -> f64 {
        if self.gate != other.gate {
            return 0.0;
        }
        let n = self.list.len() + other.list.len();
        if n == 0 {
            return 1.0;
        }
        let c = self.list.iter().filter(|(k, _)| other.list.iter().any(|(o, _)| o == k)).count();
        2.0 * c as f64 / n as f64
    }

    fn diff(&self, other: &Self) -> Vec<PropertyInFinalState<Kd, Tx>> {
        let mut out: Vec<PropertyInFinalState<Kd, Tx>> = other
            .list
            .iter()
            .map(|(k, v)| PropertyInFinalState {
                key: Kd(*k),
                value: if self.list.contains(&(*k, *v)) {
                    PropValue::Same
                } else {
                    PropValue::Different(Tx(*v))
                },
            })
            .collect();
        // A pure reordering is signalled by marking one entry as different.
        let keys_differ = self.list.len() == other.list.len()
            && self.list.iter().zip(&other.list).any(|(a, b)| a.0 != b.0);
        if keys_differ && out.iter().all(|p| p.value == PropValue::Same) {
            out[0].value = PropValue::Different(Tx(other.list[0].1));
        }
        out
    }

    fn is_empty(&self) -> bool {
        self.list.is_empty()
    }
    fn len(&self) -> usize {
        self.list.len()
    }
}

pub type TT = SimpleTypes<Kd, Attrs, Tx>;

// ---------------------------------------------------------------- model tree

#[derive(Clone, Debug, PartialEq)]
pub struct MNode {
    pub kind: u8,
    pub text: Option<u32>,
    pub attrs: Attrs,
    pub opaque: bool,
    pub children: Vec<usize>,
    pub parent: Option<usize>,
    /// Provenance: equal ids in two trees mean "the same node, edited".
    pub id: u32,
}

/// Always compacted: node 0 is the root and indices follow pre-order.
#[derive(Clone, Debug, PartialEq)]
pub struct MTree {
    pub n: Vec<MNode>,
}

impl MTree {
    pub fn len(&self) -> usize {
        self.n.len()
    }
    pub fn pos(&self, i: usize) -> usize {
        match self.n[i].parent {
            Some(p) => self.n[p].children.iter().position(|c| *c == i).unwrap(),
            None => 0,
        }
    }
    pub fn is_leaf(&self, i: usize) -> bool {
        self.n[i].children.is_empty()
    }
    pub fn subtree(&self, i: usize) -> Vec<usize> {
        let mut out = vec![];
        let mut st = vec![i];
        while let Some(x) = st.pop() {
            out.push(x);
            st.extend(self.n[x].children.iter().rev());
        }
        out
    }
    pub fn post_order(&self, i: usize) -> Vec<usize> {
        // reverse of (node, children right-to-left)
        let mut out = vec![];
        let mut st = vec![i];
        while let Some(x) = st.pop() {
            out.push(x);
            st.extend(self.n[x].children.iter());
        }
        out.reverse();
        out
    }
    pub fn is_anc_or_self(&self, anc: usize, mut i: usize) -> bool {
        loop {
            if i == anc {
                return true;
            }
            match self.n[i].parent {
                Some(p) => i = p,
                None => return false,
            }
        }
    }
    pub fn depth(&self, mut i: usize) -> usize {
        let mut d = 0;
        while let Some(p) = self.n[i].parent {
            d += 1;
            i = p;
        }
        d
    }
    pub fn height(&self, i: usize) -> usize {
        // heights bottom-up, iterative
        let mut h = vec![0usize; self.len()];
        for x in self.post_order(i) {
            h[x] = self.n[x].children.iter().map(|c| h[*c] + 1).max().unwrap_or(0);
        }
        h[i]
    }
    /// Nodes strictly inside an opaque node.
    pub fn inside_opaque(&self) -> Vec<bool> {
        let mut v = vec![false; self.len()];
        for i in 0..self.len() {
            if let Some(p) = self.n[i].parent {
                v[i] = v[p] || self.n[p].opaque;
            }
        }
        v
    }
    pub fn compact(nodes: &[MNode], root: usize) -> MTree {
        let mut out: Vec<MNode> = vec![];
        let mut st = vec![(root, None)];
        while let Some((x, p)) = st.pop() {
            let me = out.len();
            let mut nn = nodes[x].clone();
            nn.children = vec![];
            nn.parent = p;
            out.push(nn);
            if let Some(p) = p {
                let p: usize = p;
                out[p].children.push(me);
            }
            for c in nodes[x].children.iter().rev() {
                st.push((*c, Some(me)));
            }
        }
        MTree { n: out }
    }
    /// Same structure and content (ignores provenance).
    pub fn same(&self, o: &MTree) -> bool {
        self.len() == o.len()
            && self.n.iter().zip(&o.n).all(|(a, b)| {
                a.kind == b.kind
                    && a.text == b.text
                    && a.attrs == b.attrs
                    && a.opaque == b.opaque
                    && a.children == b.children
            })
    }
    pub fn render(&self) -> String {
        let mut s = String::new();
        for i in 0..self.len() {
            let n = &self.n[i];
            s.push_str(&format!("{}{}: k{}", "  ".repeat(self.depth(i)), i, n.kind));
            if let Some(t) = n.text {
                s.push_str(&format!(" text={t}"));
            }
            if n.attrs != Attrs::default() {
                s.push_str(&format!(" attrs={:?} gate={}", n.attrs.list, n.attrs.gate));
            }
            if n.opaque {
                s.push_str(" OPAQUE");
            }
            s.push('\n');
        }
        s
    }
}

// ---------------------------------------------------------------- recipes

/// One node: parent selector, kind, text, attributes, flags.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct NodeRec(pub u16, pub u8, pub u8, pub Vec<(u8, u8)>, pub u8);

/// One mutation: operation, three selectors, a value.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MutRec(pub u8, pub u16, pub u16, pub u16, pub u8);

/// Shape of the generated population.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Prof {
    /// number of kinds
    pub kinds: u8,
    /// number of distinct text values
    pub texts: u8,
    /// 0 random parent, 1 deep, 2 wide, 3 recent parent
    pub shape: u8,
    /// how often a node carries attributes (0 never .. 4 always)
    pub attrs: u8,
    /// number of gates
    pub gates: u8,
    /// 0 = none, else one node in `opaque` is opaque
    pub opaque: u8,
    /// root has a kind of its own
    pub root_unique: bool,
    /// text-bearing kinds are leaves (as in HTML)
    pub html: bool,
}

pub fn prof() -> impl Strategy<Value = Prof> {
    (
        1u8..=4,
        1u8..=5,
        0u8..4,
        0u8..5,
        prop_oneof![3 => Just(1u8), 1 => Just(2u8)],
        prop_oneof![3 => Just(0u8), 1 => 3u8..12],
        prop::bool::weighted(0.6),
        any::<bool>(),
    )
        .prop_map(|(kinds, texts, shape, attrs, gates, opaque, root_unique, html)| Prof {
            kinds,
            texts,
            shape,
            attrs,
            gates,
            opaque,
            root_unique,
            html,
        })
}

pub fn node_rec() -> impl Strategy<Value = NodeRec> {
    (any::<u16>(), any::<u8>(), any::<u8>(), vec((0u8..5, 0u8..4), 0..4), any::<u8>())
        .prop_map(|(p, k, t, a, f)| NodeRec(p, k, t, a, f))
}

pub fn mut_rec() -> impl Strategy<Value = MutRec> {
    (any::<u8>(), any::<u16>(), any::<u16>(), any::<u16>(), any::<u8>())
        .prop_map(|(o, x, y, z, v)| MutRec(o, x, y, z, v))
}

pub fn nodes(max: usize) -> BoxedStrategy<Vec<NodeRec>> {
    prop_oneof![
        900 => vec(node_rec(), 0..6),
        1200 => vec(node_rec(), 0..16),
        600 => vec(node_rec(), 0..max.max(17)),
        // long sibling lists and long chains
        8 => vec(node_rec(), 100..420),
        2 => vec(node_rec(), 300..700),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum BSide {
    /// B is A after these mutations.
    Mutated(Vec<MutRec>),
    /// B is generated on its own.
    Independent(Vec<NodeRec>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Pair {
    pub prof: Prof,
    pub a: Vec<NodeRec>,
    pub b: BSide,
    /// see `HashMode`
    pub hash: u8,
    pub min_height: u8,
    pub thr: u8,
    pub lay_a: u32,
    pub lay_b: u32,
}

pub fn pair(max: usize) -> impl Strategy<Value = Pair> {
    (
        prof(),
        nodes(max),
        prop_oneof![
            5 => vec(mut_rec(), 0..4).prop_map(BSide::Mutated),
            3 => vec(mut_rec(), 2..12).prop_map(BSide::Mutated),
            3 => nodes(max).prop_map(BSide::Independent),
        ],
        0u8..2,
        0u8..8,
        0u8..10,
        any::<u32>(),
        any::<u32>(),
    )
        .prop_map(|(prof, a, b, hash, min_height, thr, lay_a, lay_b)| Pair {
            prof,
            a,
            b,
            hash,
            min_height,
            thr,
            lay_a,
            lay_b,
        })
}

pub fn min_height(v: u8) -> usize {
    [1, 0, 0, 1, 1, 2, 3, 50][v as usize % 8]
}
pub fn threshold(v: u8) -> f64 {
    [0.5, 0.5, 0.5, 0.5, 0.3, 0.7, 0.0, 1.0, 0.5, 0.4][v as usize % 10]
}
pub fn config(p: &Pair) -> cinereus::MatchingConfig {
    cinereus::MatchingConfig {
        similarity_threshold: threshold(p.thr),
        min_height: min_height(p.min_height),
    }
}

/// Keeps reduced recipes inside the generator's domain.
fn sane(p: &Prof) -> Prof {
    Prof { kinds: p.kinds.max(1), texts: p.texts.max(1), gates: p.gates.max(1), ..p.clone() }
}

fn texty(prof: &Prof, kind: u8) -> bool {
    let _ = prof;
    kind % 3 == 1
}

fn dedup(list: &[(u8, u8)]) -> Vec<(u8, u32)> {
    let mut out: Vec<(u8, u32)> = vec![];
    for (k, v) in list {
        if !out.iter().any(|(o, _)| o == k) {
            out.push((*k, *v as u32));
        }
    }
    out
}

pub const ROOT_KIND: u8 = 201; // 201 % 3 == 0: an element kind

fn fill(prof: &Prof, r: &NodeRec, root: bool, id: u32) -> MNode {
    let kind = if root && prof.root_unique {
        ROOT_KIND
    } else if root && (r.2 >> 5 != 7 || prof.html) {
        0
    } else {
        r.1 % prof.kinds
    };
    let t = texty(prof, kind);
    let attrs = if (t && prof.html) || (r.4 & 3) >= prof.attrs {
        vec![]
    } else {
        dedup(&r.3)
    };
    let mut opaque = prof.opaque != 0 && (r.4 >> 2) % prof.opaque == 0 && !(t && prof.html);
    if root {
        // an opaque root leaves nothing to diff: rarely
        opaque &= (r.2 >> 2) & 7 == 3;
    }
    let gate = if root && r.2 % 8 != 5 { 0 } else { (r.4 >> 5) % prof.gates };
    MNode {
        kind,
        text: t.then_some((r.2 % prof.texts) as u32),
        attrs: Attrs { gate, list: attrs },
        opaque,
        children: vec![],
        parent: None,
        id,
    }
}

fn may_have_children(prof: &Prof, n: &MNode) -> bool {
    !(prof.html && n.text.is_some())
}

pub fn build_model(prof: &Prof, recs: &[NodeRec], id0: u32) -> MTree {
    let prof = &sane(prof);
    let root = match recs.last() {
        Some(l) => NodeRec(0, l.1, l.2, if l.0 % 3 == 0 { l.3.clone() } else { vec![] }, l.4),
        None => NodeRec(0, 0, 0, vec![], 0),
    };
    let mut v: Vec<MNode> = vec![fill(prof, &root, true, id0)];
    for (i, r) in recs.iter().enumerate() {
        let n = fill(prof, r, false, id0 + 1 + i as u32);
        let cand: Vec<usize> = (0..v.len()).filter(|&c| may_have_children(prof, &v[c])).collect();
        let m = cand.len();
        let sel = r.0 as usize;
        let p = cand[match prof.shape {
            0 => sel % m,
            1 => m - 1 - (sel % m.min(2)),
            2 if recs.len() > 100 && sel % 7 > 0 => 0,
            2 => (sel % m.min(3)).min(m - 1),
            _ => m - 1 - (sel % m.min(5)),
        }];
        let at = v[p].children.len().min(sel / 7 % (v[p].children.len() + 1));
        let me = v.len();
        v.push(n);
        v[p].children.insert(at, me);
    }
    fix_parents(&mut v);
    MTree::compact(&v, 0)
}

fn fix_parents(v: &mut [MNode]) {
    for i in 0..v.len() {
        for c in v[i].children.clone() {
            v[c].parent = Some(i);
        }
    }
}

/// Applies mutations. Returns the tree and how many mutations took effect.
pub fn mutate(prof: &Prof, a: &MTree, muts: &[MutRec]) -> (MTree, usize) {
    let prof = &sane(prof);
    let mut t = a.clone();
    let mut applied = 0;
    let mut fresh = 1_000_000u32;
    for m in muts {
        let before = t.clone();
        t = mutate_one(prof, &t, m, &mut fresh);
        if !t.same(&before) {
            applied += 1;
        }
    }
    (t, applied)
}

pub const MUT_KINDS: u8 = 17;

fn mutate_one(prof: &Prof, t: &MTree, m: &MutRec, fresh: &mut u32) -> MTree {
    let mut v = t.n.clone();
    let n = v.len();
    let x = m.1 as usize % n; // any node
    let nr = if n > 1 { 1 + m.1 as usize % (n - 1) } else { 0 }; // non-root
    let containers: Vec<usize> = (0..n).filter(|&i| may_have_children(prof, &v[i])).collect();
    let cont = containers[m.2 as usize % containers.len()];
    let mut newid = || {
        *fresh += 1;
        *fresh
    };
    let rec = NodeRec(
        m.2,
        m.4,
        (m.3 >> 8) as u8,
        vec![((m.3 % 5) as u8, (m.3 / 5 % 4) as u8), ((m.3 / 20 % 5) as u8, (m.3 / 100 % 4) as u8)],
        (m.1 >> 8) as u8,
    );
    let detach = |v: &mut Vec<MNode>, i: usize| {
        let p = v[i].parent.unwrap();
        let k = v[p].children.iter().position(|c| *c == i).unwrap();
        v[p].children.remove(k);
    };
    let insert = |v: &mut Vec<MNode>, p: usize, i: usize, sel: usize| {
        let k = sel % (v[p].children.len() + 1);
        v[p].children.insert(k, i);
        v[i].parent = Some(p);
    };
    match m.0 % MUT_KINDS {
        0 => {
            // text change on some text node
            let ts: Vec<usize> = (0..n).filter(|&i| v[i].text.is_some()).collect();
            if !ts.is_empty() {
                let i = ts[m.1 as usize % ts.len()];
                v[i].text = Some((m.4 % prof.texts.saturating_add(1)) as u32 + (m.2 % 2) as u32 * 50);
            }
        }
        1 => {
            // set an attribute
            if !(prof.html && v[x].text.is_some()) {
                let k = (m.2 % 5) as u8;
                let val = (m.4 % 5) as u32;
                match v[x].attrs.list.iter_mut().find(|(o, _)| *o == k) {
                    Some(e) => e.1 = val,
                    None => {
                        let at = m.3 as usize % (v[x].attrs.list.len() + 1);
                        v[x].attrs.list.insert(at, (k, val));
                    }
                }
            }
        }
        2 => {
            // remove an attribute
            let c: Vec<usize> = (0..n).filter(|&i| !v[i].attrs.list.is_empty()).collect();
            if !c.is_empty() {
                let i = c[m.1 as usize % c.len()];
                let k = m.2 as usize % v[i].attrs.list.len();
                v[i].attrs.list.remove(k);
            }
        }
        3 => {
            // reorder attributes
            let c: Vec<usize> = (0..n).filter(|&i| v[i].attrs.list.len() > 1).collect();
            if !c.is_empty() {
                let i = c[m.1 as usize % c.len()];
                let l = v[i].attrs.list.len();
                v[i].attrs.list.rotate_left(1 + m.2 as usize % (l - 1));
            }
        }
        4 => {
            // delete a subtree
            if nr != 0 {
                detach(&mut v, nr);
            }
        }
        5 => {
            // unwrap: replace a node by its children
            if nr != 0 {
                let p = v[nr].parent.unwrap();
                let k = v[p].children.iter().position(|c| *c == nr).unwrap();
                let ch = v[nr].children.clone();
                v[p].children.splice(k..=k, ch);
            }
        }
        6 => {
            // insert a leaf
            let nn = fill(prof, &rec, false, newid());
            v.push(nn);
            insert(&mut v, cont, n, m.3 as usize);
        }
        7 => {
            // duplicate a subtree somewhere
            if nr != 0 && n < 200 {
                let sub = t.subtree(nr);
                if sub.len() < 40 {
                    let base = v.len();
                    let idx: HashMap<usize, usize> =
                        sub.iter().enumerate().map(|(k, s)| (*s, base + k)).collect();
                    for s in &sub {
                        let mut c = t.n[*s].clone();
                        c.id = newid();
                        c.children = c.children.iter().map(|k| idx[k]).collect();
                        v.push(c);
                    }
                    insert(&mut v, cont, base, m.3 as usize);
                }
            }
        }
        8 | 9 => {
            // move a subtree
            if nr != 0 && !t.is_anc_or_self(nr, cont) {
                detach(&mut v, nr);
                insert(&mut v, cont, nr, m.3 as usize);
            }
        }
        10 => {
            // swap two siblings
            let c: Vec<usize> = (0..n).filter(|&i| v[i].children.len() > 1).collect();
            if !c.is_empty() {
                let p = c[m.1 as usize % c.len()];
                let l = v[p].children.len();
                v[p].children.swap(m.2 as usize % l, m.3 as usize % l);
            }
        }
        11 => {
            // change a kind
            if nr != 0 {
                let k = m.4 % prof.kinds;
                if texty(prof, k) == v[nr].text.is_some() {
                    v[nr].kind = k;
                }
            }
        }
        12 => {
            // wrap a node
            if nr != 0 {
                let nn = fill(prof, &rec, false, newid());
                if may_have_children(prof, &nn) {
                    let p = v[nr].parent.unwrap();
                    let k = v[p].children.iter().position(|c| *c == nr).unwrap();
                    v.push(nn);
                    v[p].children[k] = n;
                    v[n].children.push(nr);
                }
            }
        }
        13 => {
            // reverse or rotate children
            let c: Vec<usize> = (0..n).filter(|&i| v[i].children.len() > 1).collect();
            if !c.is_empty() {
                let p = c[m.1 as usize % c.len()];
                if m.2 % 2 == 0 {
                    v[p].children.reverse();
                } else {
                    let l = v[p].children.len();
                    v[p].children.rotate_left(1 + m.3 as usize % (l - 1));
                }
            }
        }
        14 => {
            // delete all children
            v[x].children.clear();
        }
        15 => {
            // exchange parent and child: p{..q{..}..} -> q{..p{..}..}
            if nr != 0 && v[nr].parent != Some(0) {
                let q = nr;
                let p = v[q].parent.unwrap();
                if may_have_children(prof, &v[q]) && may_have_children(prof, &v[p]) {
                    let g = v[p].parent.unwrap();
                    detach(&mut v, q);
                    let k = v[g].children.iter().position(|c| *c == p).unwrap();
                    v[g].children[k] = q;
                    v[q].parent = Some(g);
                    insert(&mut v, q, p, m.3 as usize);
                }
            }
        }
        _ => {
            // flip opacity or gate
            if (nr != 0 || m.3 % 4 == 0) && prof.opaque != 0 && m.2 % 2 == 0 && !(prof.html && v[nr].text.is_some()) {
                v[nr].opaque = !v[nr].opaque;
            } else if nr == 0 && m.3 % 4 == 1 && !prof.root_unique && !prof.html {
                v[nr].kind = m.4 as u8 % prof.kinds;
                v[nr].text = texty(prof, v[nr].kind).then_some(0);
            } else if (nr != 0 || m.3 % 4 == 2) && prof.gates > 1 {
                v[nr].attrs.gate ^= 1;
            }
        }
    }
    fix_parents(&mut v);
    MTree::compact(&v, 0)
}

/// Makes every node's own content unique, keyed by provenance: equal ids in
/// two trees still have equal content unless an edit changed it.
pub fn uniquify(t: &MTree) -> MTree {
    let mut t = t.clone();
    for n in &mut t.n {
        if let Some(x) = n.text {
            n.text = Some(n.id * 64 + x % 64);
        }
        n.attrs.list.push((200, n.id));
    }
    t
}

pub fn models(p: &Pair) -> (MTree, MTree) {
    let a = build_model(&p.prof, &p.a, 0);
    let b = match &p.b {
        BSide::Mutated(m) => mutate(&p.prof, &a, m).0,
        BSide::Independent(r) => build_model(&p.prof, r, 500_000),
    };
    (a, b)
}

// ---------------------------------------------------------------- hashes

fn mix(mut h: u64, v: u64) -> u64 {
    h ^= v.wrapping_add(0x9E3779B97F4A7C15).wrapping_add(h << 6).wrapping_add(h >> 2);
    h = h.wrapping_mul(0xbf58476d1ce4e5b9);
    h ^ (h >> 31)
}

/// 0: everything; 1: everything but attributes (as hotmeal does);
/// 2: mode 0 reduced to 2 bits; 3: arbitrary per node; 4: constant;
/// 5: shape only
pub fn hashes(t: &MTree, mode: u8, salt: u64) -> Vec<u64> {
    let mut h = vec![0u64; t.len()];
    for i in t.post_order(0) {
        let n = &t.n[i];
        let mut x = mix(17 ^ salt, 3);
        if mode != 5 {
            x = mix(x, n.kind as u64 + 1000);
            x = mix(x, n.text.map_or(7, |t| t as u64 + 100));
        }
        if mode == 0 || mode == 2 {
            x = mix(x, n.attrs.gate as u64);
            for (k, v) in &n.attrs.list {
                x = mix(x, (*k as u64) << 16 | *v as u64);
            }
        }
        x = mix(x, 0xABCD + n.children.len() as u64);
        for c in &n.children {
            x = mix(x, h[*c]);
        }
        h[i] = x;
    }
    match mode {
        2 => h.iter().map(|x| x & 3).collect(),
        3 => (0..t.len()).map(|i| mix(salt, i as u64) % 5).collect(),
        4 => vec![0; t.len()],
        _ => h,
    }
}

// ---------------------------------------------------------------- builders

fn prng(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn data(n: &MNode, h: u64) -> NodeData<TT> {
    NodeData::new(NodeHash(h), Kd(n.kind), n.attrs.clone(), n.text.map(Tx))
}

/// A `Tree` plus opacity, with the node ids of the model's nodes.
pub struct Built {
    pub tree: Tree<TT>,
    pub ids: Vec<NodeId>,
    pub back: HashMap<NodeId, usize>,
    pub opaque: HashSet<NodeId>,
}

/// `layout` decides the order in which nodes enter the arena: the low bits
/// pick pre-order, breadth-first, or a random order with unrelated and removed
/// nodes in between, in the last case below a node of a larger tree. The
/// model's sibling order is kept in every case.
pub fn build(t: &MTree, h: &[u64], layout: u32) -> Built {
    let mut ids: Vec<Option<NodeId>> = vec![None; t.len()];
    let tree = match layout % 4 {
        0 | 1 => {
            let order: Vec<usize> = if layout % 4 == 0 {
                (0..t.len()).collect()
            } else {
                let mut q = vec![0];
                let mut i = 0;
                while i < q.len() {
                    q.extend(t.n[q[i]].children.iter());
                    i += 1;
                }
                q
            };
            let mut tree: Tree<TT> = Tree::new(data(&t.n[0], h[0]));
            ids[0] = Some(tree.root);
            for &i in order.iter().skip(1) {
                let p = ids[t.n[i].parent.unwrap()].unwrap();
                ids[i] = Some(tree.add_child(p, data(&t.n[i], h[i])));
            }
            tree
        }
        _ => {
            let mut s = layout as u64;
            let mut arena: Arena<NodeData<TT>> = Arena::new();
            let mut order: Vec<usize> = (0..t.len()).collect();
            for i in (1..order.len()).rev() {
                order.swap(i, prng(&mut s) as usize % (i + 1));
            }
            let junk = |arena: &mut Arena<NodeData<TT>>, s: &mut u64| {
                let r = prng(s);
                if r % 3 == 0 {
                    let j = arena.new_node(data(&t.n[0], r));
                    if r % 2 == 0 {
                        j.remove(arena);
                    }
                }
            };
            for &i in &order {
                junk(&mut arena, &mut s);
                ids[i] = Some(arena.new_node(data(&t.n[i], h[i])));
            }
            for i in 0..t.len() {
                for c in &t.n[i].children {
                    ids[i].unwrap().append(ids[*c].unwrap(), &mut arena);
                }
            }
            junk(&mut arena, &mut s);
            if layout % 4 == 3 {
                // the tree is a part of a larger one: its root has a parent
                // and siblings that do not belong to the tree
                let top = arena.new_node(data(&t.n[0], h[0]));
                let around: Vec<NodeId> = (0..3).map(|i| arena.new_node(data(&t.n[i % t.len()], h[i % t.len()]))).collect();
                top.append(around[0], &mut arena);
                around[0].append(around[1], &mut arena);
                top.append(ids[0].unwrap(), &mut arena);
                top.append(around[2], &mut arena);
            }
            Tree { arena, root: ids[0].unwrap() }
        }
    };
    let ids: Vec<NodeId> = ids.into_iter().map(|i| i.unwrap()).collect();
    let back = ids.iter().enumerate().map(|(i, id)| (*id, i)).collect();
    let opaque = (0..t.len()).filter(|&i| t.n[i].opaque).map(|i| ids[i]).collect();
    Built { tree, ids, back, opaque }
}

impl DiffTree for Built {
    type Types = TT;
    fn root(&self) -> NodeId {
        DiffTree::root(&self.tree)
    }
    fn node_count(&self) -> usize {
        self.tree.node_count()
    }
    fn hash(&self, id: NodeId) -> NodeHash {
        DiffTree::hash(&self.tree, id)
    }
    fn kind(&self, id: NodeId) -> &Kd {
        DiffTree::kind(&self.tree, id)
    }
    fn properties(&self, id: NodeId) -> &Attrs {
        self.tree.properties(id)
    }
    fn text(&self, id: NodeId) -> Option<&Tx> {
        DiffTree::text(&self.tree, id)
    }
    fn parent(&self, id: NodeId) -> Option<NodeId> {
        DiffTree::parent(&self.tree, id)
    }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        DiffTree::children(&self.tree, id)
    }
    fn child_count(&self, id: NodeId) -> usize {
        DiffTree::child_count(&self.tree, id)
    }
    fn position(&self, id: NodeId) -> usize {
        DiffTree::position(&self.tree, id)
    }
    fn height(&self, id: NodeId) -> usize {
        DiffTree::height(&self.tree, id)
    }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ {
        DiffTree::iter(&self.tree)
    }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ {
        DiffTree::post_order(&self.tree)
    }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        DiffTree::descendants(&self.tree, id)
    }
    fn is_opaque(&self, id: NodeId) -> bool {
        self.opaque.contains(&id)
    }
}

/// A `DiffTree` of our own over plain vectors (node ids minted by an arena of
/// units), using the trait's default `child_count` and `position`. Counts the
/// calls made into it, and panics once a budget is used up.
pub struct VTree {
    pub m: MTree,
    pub h: Vec<NodeHash>,
    pub kinds: Vec<Kd>,
    pub texts: Vec<Option<Tx>>,
    pub ids: Vec<NodeId>,
    pub back: HashMap<NodeId, usize>,
    pub heights: Vec<usize>,
    pub budget: std::cell::Cell<u64>,
}

pub const BUDGET_MSG: &str = "WORK-BUDGET-EXCEEDED";

impl VTree {
    pub fn new(m: &MTree, h: &[u64], layout: u32, budget: u64) -> VTree {
        let mut arena: Arena<()> = Arena::new();
        let mut s = layout as u64 ^ 0x55;
        let total = m.len() + (layout as usize >> 3) % 7;
        let mut pool: Vec<NodeId> = (0..total).map(|_| arena.new_node(())).collect();
        for i in (1..pool.len()).rev() {
            pool.swap(i, prng(&mut s) as usize % (i + 1));
        }
        pool.truncate(m.len());
        let mut heights = vec![0; m.len()];
        for x in m.post_order(0) {
            heights[x] = m.n[x].children.iter().map(|c| heights[*c] + 1).max().unwrap_or(0);
        }
        VTree {
            h: h.iter().map(|x| NodeHash(*x)).collect(),
            kinds: m.n.iter().map(|n| Kd(n.kind)).collect(),
            texts: m.n.iter().map(|n| n.text.map(Tx)).collect(),
            back: pool.iter().enumerate().map(|(i, id)| (*id, i)).collect(),
            ids: pool,
            heights,
            m: m.clone(),
            budget: std::cell::Cell::new(budget),
        }
    }
    fn ix(&self, id: NodeId) -> usize {
        let b = self.budget.get();
        if b == 0 {
            panic!("{BUDGET_MSG}");
        }
        self.budget.set(b - 1);
        *self.back.get(&id).unwrap_or_else(|| panic!("asked about a node id that is not in this tree"))
    }
}

impl DiffTree for VTree {
    type Types = TT;
    fn root(&self) -> NodeId {
        self.ids[0]
    }
    fn node_count(&self) -> usize {
        self.m.len()
    }
    fn hash(&self, id: NodeId) -> NodeHash {
        self.h[self.ix(id)]
    }
    fn kind(&self, id: NodeId) -> &Kd {
        &self.kinds[self.ix(id)]
    }
    fn properties(&self, id: NodeId) -> &Attrs {
        &self.m.n[self.ix(id)].attrs
    }
    fn text(&self, id: NodeId) -> Option<&Tx> {
        self.texts[self.ix(id)].as_ref()
    }
    fn parent(&self, id: NodeId) -> Option<NodeId> {
        self.m.n[self.ix(id)].parent.map(|p| self.ids[p])
    }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        self.m.n[self.ix(id)].children.iter().map(|c| self.ids[*c])
    }
    fn height(&self, id: NodeId) -> usize {
        self.heights[self.ix(id)]
    }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ {
        self.ids.iter().copied()
    }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ {
        self.m.post_order(0).into_iter().map(|i| self.ids[i])
    }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        self.m.subtree(self.ix(id)).into_iter().map(|i| self.ids[i])
    }
    fn is_opaque(&self, id: NodeId) -> bool {
        self.m.n[self.ix(id)].opaque
    }
}

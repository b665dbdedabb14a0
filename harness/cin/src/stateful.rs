//! Stateful checks of the two data structures: `Tree` and `Matching`.

use crate::plain::model::*;
use cinereus::indextree::{Arena, NodeId};
use cinereus::{DiffTree, Matching, NodeData, NodeHash, Properties, SimpleTypes, Tree};
use engine::proptest::collection::vec;
use engine::proptest::prelude::*;
use engine::{Ctx, Fail, Pass, Verdict, ensure};
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};

// ----------------------------------------------------------------------- Tree

#[derive(Clone, Debug, Serialize, Deserialize)]
enum TOp {
    /// add_child under a live node
    Add(u16, u8, u32),
    /// move a live subtree under another node through the public arena
    Move(u16, u16, u16),
    /// remove a subtree through the public arena (ids may be reused later)
    Remove(u16),
    /// change the data of a node through the public arena
    Set(u16, u8, u32),
}

/// Implements only the trait's required methods, so that its provided methods
/// are the ones under test.
struct Minimal<'a>(&'a Tree<TT>);
impl DiffTree for Minimal<'_> {
    type Types = TT;
    fn root(&self) -> NodeId {
        self.0.root
    }
    fn node_count(&self) -> usize {
        self.0.arena.count()
    }
    fn hash(&self, id: NodeId) -> NodeHash {
        self.0.get(id).hash
    }
    fn kind(&self, id: NodeId) -> &Kd {
        &self.0.get(id).kind
    }
    fn properties(&self, id: NodeId) -> &Attrs {
        &self.0.get(id).properties
    }
    fn text(&self, id: NodeId) -> Option<&Tx> {
        self.0.get(id).text.as_ref()
    }
    fn parent(&self, id: NodeId) -> Option<NodeId> {
        self.0.parent(id)
    }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        self.0.children(id)
    }
    fn height(&self, id: NodeId) -> usize {
        self.0.height(id)
    }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ {
        self.0.iter()
    }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ {
        self.0.post_order()
    }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        self.0.descendants(id)
    }
}

struct Model {
    n: Vec<(NodeId, u8, u32, Vec<usize>, Option<usize>, bool)>,
}

impl Model {
    fn live(&self) -> Vec<usize> {
        let mut out = vec![];
        let mut st = vec![0];
        while let Some(x) = st.pop() {
            out.push(x);
            st.extend(self.n[x].3.iter().rev());
        }
        out
    }
    fn sub(&self, i: usize) -> Vec<usize> {
        let mut out = vec![];
        let mut st = vec![i];
        while let Some(x) = st.pop() {
            out.push(x);
            st.extend(self.n[x].3.iter().rev());
        }
        out
    }
    fn post(&self, i: usize, out: &mut Vec<usize>) {
        for c in &self.n[i].3 {
            self.post(*c, out);
        }
        out.push(i);
    }
    fn height(&self, i: usize) -> usize {
        self.n[i].3.iter().map(|c| 1 + self.height(*c)).max().unwrap_or(0)
    }
    fn unlink(&mut self, i: usize) {
        if let Some(p) = self.n[i].4.take() {
            self.n[p].3.retain(|c| *c != i);
        }
    }
}

fn nd(kind: u8, v: u32) -> NodeData<TT> {
    let attrs = Attrs { gate: 0, list: vec![(kind, v)] };
    if kind % 2 == 0 {
        NodeData::text_node(NodeHash(v as u64 * 3 + 1), Kd(kind), Tx(v))
    } else if kind % 3 == 0 {
        NodeData::new(NodeHash::from(v as u64 * 3 + 1), Kd(kind), attrs, Some(Tx(v)))
    } else {
        NodeData::element(NodeHash(v as u64 * 3 + 1), Kd(kind), attrs)
    }
}

fn compare(t: &Tree<TT>, m: &Model) -> Result<(), Fail> {
    let ids = |v: &[usize]| -> Vec<NodeId> { v.iter().map(|i| m.n[*i].0).collect() };
    let live = m.live();
    let want_iter = ids(&live);
    let mut po = vec![];
    m.post(0, &mut po);
    let want_post = ids(&po);
    let mini = Minimal(t);
    macro_rules! eq {
        ($sig:expr, $got:expr, $want:expr, $ctx:expr) => {{
            let (g, w) = ($got, $want);
            ensure!(g == w, $sig, "{} of node {:?}: got {g:?}, expected {w:?}", $sig, $ctx);
        }};
    }
    eq!("root", DiffTree::root(t), m.n[0].0, 0);
    eq!("iter", Tree::iter(t).collect::<Vec<_>>(), want_iter.clone(), "root");
    eq!("iter", DiffTree::iter(t).collect::<Vec<_>>(), want_iter, "root");
    eq!("post_order", Tree::post_order(t).collect::<Vec<_>>(), want_post.clone(), "root");
    eq!("post_order", DiffTree::post_order(t).collect::<Vec<_>>(), want_post, "root");
    for &i in &live {
        let (id, kind, v, kids, parent, _) = &m.n[i];
        let (id, kind, v) = (*id, *kind, *v);
        let data = nd(kind, v);
        let got = t.get(id);
        eq!("data", (got.hash, got.kind, got.properties.clone(), got.text), (data.hash, data.kind, data.properties.clone(), data.text), i);
        let c = t.get(id).clone();
        eq!("clone", (c.hash, c.kind, c.properties, c.text), (data.hash, data.kind, data.properties.clone(), data.text), i);
        eq!("hash", DiffTree::hash(t, id), data.hash, i);
        eq!("kind", *DiffTree::kind(t, id), data.kind, i);
        eq!("properties", DiffTree::properties(t, id).clone(), data.properties.clone(), i);
        eq!("text", DiffTree::text(t, id).copied(), data.text, i);
        let wp = parent.map(|p| m.n[p].0);
        eq!("parent", Tree::parent(t, id), wp, i);
        eq!("parent", DiffTree::parent(t, id), wp, i);
        let wk = ids(kids);
        eq!("children", Tree::children(t, id).collect::<Vec<_>>(), wk.clone(), i);
        eq!("children", DiffTree::children(t, id).collect::<Vec<_>>(), wk, i);
        eq!("child_count", Tree::child_count(t, id), kids.len(), i);
        eq!("child_count", DiffTree::child_count(t, id), kids.len(), i);
        eq!("child_count/provided", mini.child_count(id), kids.len(), i);
        let pos = parent.map_or(0, |p| m.n[p].3.iter().position(|c| *c == i).unwrap());
        eq!("position", Tree::position(t, id), pos, i);
        eq!("position", DiffTree::position(t, id), pos, i);
        eq!("position/provided", mini.position(id), pos, i);
        eq!("opaque/provided", mini.is_opaque(id) || DiffTree::is_opaque(t, id), false, i);
        let h = m.height(i);
        eq!("height", Tree::height(t, id), h, i);
        eq!("height", DiffTree::height(t, id), h, i);
        let wd = ids(&m.sub(i));
        eq!("descendants", Tree::descendants(t, id).collect::<Vec<_>>(), wd.clone(), i);
        eq!("descendants", DiffTree::descendants(t, id).collect::<Vec<_>>(), wd, i);
    }
    Ok(())
}

fn t_tree(ops: &Vec<TOp>) -> Verdict {
    let mut t: Tree<TT> = Tree::new(nd(1, 0));
    let mut m = Model { n: vec![(t.root, 1, 0, vec![], None, true)] };
    compare(&t, &m)?;
    let (mut removed, mut moved, mut reused) = (false, false, false);
    let mut seen: HashSet<usize> = HashSet::new();
    for op in ops {
        let live = m.live();
        let pick = |s: u16| live[s as usize % live.len()];
        match *op {
            TOp::Add(p, k, v) => {
                let p = pick(p);
                let before = t.node_count();
                let id = t.add_child(m.n[p].0, nd(k, v));
                let _ = before;
                reused |= !seen.insert(usize::from(id));
                let me = m.n.len();
                m.n.push((id, k, v, vec![], Some(p), true));
                m.n[p].3.push(me);
            }
            TOp::Move(x, p, at) => {
                let (x, p) = (pick(x), pick(p));
                if x == 0 || m.sub(x).contains(&p) {
                    continue;
                }
                moved = true;
                m.n[x].0.detach(&mut t.arena);
                m.unlink(x);
                let k = at as usize % (m.n[p].3.len() + 1);
                if k == m.n[p].3.len() {
                    m.n[p].0.append(m.n[x].0, &mut t.arena);
                } else {
                    let sib = m.n[p].3[k];
                    m.n[sib].0.insert_before(m.n[x].0, &mut t.arena);
                }
                m.n[p].3.insert(k, x);
                m.n[x].4 = Some(p);
            }
            TOp::Remove(x) => {
                let x = pick(x);
                if x == 0 {
                    continue;
                }
                removed = true;
                m.n[x].0.remove_subtree(&mut t.arena);
                m.unlink(x);
            }
            TOp::Set(x, k, v) => {
                let x = pick(x);
                *t.arena.get_mut(m.n[x].0).unwrap().get_mut() = nd(k, v);
                m.n[x].1 = k;
                m.n[x].2 = v;
            }
        }
        if ops.len() < 60 {
            compare(&t, &m)?;
        }
    }
    compare(&t, &m)?;
    // a plain tree of the convenience constructors
    let s: NodeData<SimpleTypes<&'static str>> = NodeData::simple_u64(9, "x");
    let u: NodeData<SimpleTypes<&'static str>> = NodeData::simple(NodeHash(9), "x");
    ensure!(
        s.hash == u.hash && u64::from(s.hash) == 9 && s.kind == u.kind && s.text.is_none() && u.text.is_none(),
        "constructors",
        "convenience constructors disagree"
    );
    let p = &s.properties;
    ensure!(
        p.is_empty() && p.len() == 0 && p.diff(&u.properties).is_empty() && p.similarity(&u.properties) == 1.0,
        "no-properties",
        "a node without properties has some"
    );
    Ok(Pass::new(m.live().len() > 3)
        .label(removed, "removed-subtree")
        .label(moved, "moved-subtree")
        .label(reused, "arena-slot-reused")
        .label(m.live().len() > 15, "over-15-nodes"))
}

pub fn tree(ctx: &Ctx) {
    ctx.campaign(
        "operations",
        "1..40 operations on a tree: add_child, and moving, removing, changing nodes through the public arena; after each \
         one every query of every live node (inherent, trait, and the trait's provided methods) is compared with a model; \
         non-trivial: more than 3 nodes at the end",
        ctx.cases(60_000, 1_500_000),
        || {
            vec(
                prop_oneof![
                    6 => (any::<u16>(), any::<u8>(), any::<u32>()).prop_map(|(a, b, c)| TOp::Add(a, b, c)),
                    2 => (any::<u16>(), any::<u16>(), any::<u16>()).prop_map(|(a, b, c)| TOp::Move(a, b, c)),
                    1 => any::<u16>().prop_map(TOp::Remove),
                    1 => (any::<u16>(), any::<u8>(), any::<u32>()).prop_map(|(a, b, c)| TOp::Set(a, b, c)),
                ],
                1..40,
            )
        },
        t_tree,
        |_| String::new(),
    );
    ctx.campaign(
        "large",
        "as operations, 200..600 of them, most of them adding children to three nodes; everything compared at the end; \
         non-trivial: more than 3 nodes at the end",
        ctx.cases(1_500, 40_000),
        || {
            vec(
                prop_oneof![
                    12 => (0u16..3, any::<u8>(), any::<u32>()).prop_map(|(a, b, c)| TOp::Add(a, b, c)),
                    4 => (any::<u16>(), any::<u8>(), any::<u32>()).prop_map(|(a, b, c)| TOp::Add(a, b, c)),
                    4 => (any::<u16>(), 0u16..4, any::<u16>()).prop_map(|(a, b, c)| TOp::Move(a, b, c)),
                    1 => (300u16..).prop_map(TOp::Remove),
                ],
                200..600,
            )
        },
        t_tree,
        |_| String::new(),
    );
}

// -------------------------------------------------------------------- Matching

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MCase {
    /// None: new(); Some: with_capacity
    cap: Option<(u8, u8)>,
    sizes: (u8, u8),
    picks: Vec<(u16, u16)>,
    remove_first: bool,
}

fn t_matching(c: &MCase) -> Verdict {
    let mk = |n: u8| -> Vec<NodeId> {
        let mut arena: Arena<u8> = Arena::new();
        let mut v: Vec<NodeId> = (0..n as usize + 1).map(|_| arena.new_node(0)).collect();
        if c.remove_first {
            // freed and reused slots: ids with another generation
            for id in v.drain(..v.len() / 2).collect::<Vec<_>>() {
                id.remove(&mut arena);
            }
            let k = v.len();
            v.extend((0..k).map(|_| arena.new_node(1)));
        }
        v
    };
    let (na, nb) = (mk(c.sizes.0), mk(c.sizes.1));
    let mut m = match c.cap {
        None => Matching::default(),
        Some((a, b)) => Matching::with_capacity(a as usize, b as usize),
    };
    let mut ab: HashMap<NodeId, NodeId> = HashMap::new();
    let mut ba: HashMap<NodeId, NodeId> = HashMap::new();
    let mut order = vec![];
    let check = |m: &Matching, ab: &HashMap<NodeId, NodeId>, ba: &HashMap<NodeId, NodeId>, order: &Vec<(NodeId, NodeId)>| -> Result<(), Fail> {
        ensure!(m.len() == order.len(), "len", "len() = {}, {} pairs were added", m.len(), order.len());
        ensure!(m.is_empty() == order.is_empty(), "is_empty", "is_empty() = {} with {} pairs", m.is_empty(), order.len());
        let got: HashSet<(NodeId, NodeId)> = m.pairs().collect();
        let want: HashSet<(NodeId, NodeId)> = order.iter().copied().collect();
        ensure!(m.pairs().count() == order.len() && got == want, "pairs", "pairs() lists {got:?}, added {want:?}");
        for a in &na {
            ensure!(m.get_b(*a) == ab.get(a).copied(), "get_b", "get_b({a}) = {:?}, expected {:?}", m.get_b(*a), ab.get(a));
            ensure!(m.contains_a(*a) == ab.contains_key(a), "contains_a", "contains_a({a}) = {}", m.contains_a(*a));
        }
        for b in &nb {
            ensure!(m.get_a(*b) == ba.get(b).copied(), "get_a", "get_a({b}) = {:?}, expected {:?}", m.get_a(*b), ba.get(b));
            ensure!(m.contains_b(*b) == ba.contains_key(b), "contains_b", "contains_b({b}) = {}", m.contains_b(*b));
        }
        Ok(())
    };
    check(&m, &ab, &ba, &order)?;
    for &(x, y) in &c.picks {
        let (a, b) = (na[x as usize % na.len()], nb[y as usize % nb.len()]);
        if ab.contains_key(&a) || ba.contains_key(&b) {
            continue;
        }
        m.add(a, b);
        ab.insert(a, b);
        ba.insert(b, a);
        order.push((a, b));
        check(&m, &ab, &ba, &order)?;
    }
    let beyond = c.cap.is_some_and(|(x, y)| {
        order.iter().any(|(a, b)| usize::from(*a) >= x as usize || usize::from(*b) >= y as usize)
    });
    Ok(Pass::new(order.len() > 2)
        .label(beyond, "grown-beyond-capacity")
        .label(c.cap.is_none(), "no-capacity")
        .label(order.len() > 10, "over-10-pairs"))
}

pub fn matching(ctx: &Ctx) {
    ctx.campaign(
        "operations",
        "a matching built with or without capacity, up to 40 one-to-one additions of nodes of two arenas in random \
         order (some with reused slots); after each one every lookup of every node of both arenas, the pair list and \
         the size are compared with a pair of maps; non-trivial: more than two pairs",
        ctx.cases(100_000, 3_000_000),
        || {
            (
                prop::option::of((0u8..40, 0u8..40)),
                (0u8..40, 0u8..40),
                vec((any::<u16>(), any::<u16>()), 0..40),
                any::<bool>(),
            )
                .prop_map(|(cap, sizes, picks, remove_first)| MCase { cap, sizes, picks, remove_first })
        },
        t_matching,
        |_| String::new(),
    );
}

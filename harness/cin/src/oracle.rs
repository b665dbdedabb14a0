//! Independent judges of what cinereus returns: a model of edit scripts, a
//! declarative final-state evaluator and a step-by-step applier following the
//! documented displacement semantics.

use super::ci as cinereus;
use super::model::*;
use cinereus::indextree::NodeId;
use cinereus::{EditOp, Matching, PropValue};
use engine::{Fail, ensure, fail};
use std::collections::HashMap;

/// An edit operation in terms of model indices.
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Text { a: usize, b: usize, text: u32 },
    Props { a: usize, b: usize, changes: Vec<(u8, Option<u32>)> },
    Insert { b: usize, parent: usize, pos: usize, kind: u8 },
    Move { a: usize, b: usize, parent: usize, pos: usize },
    Delete { a: usize },
}

impl Op {
    pub fn structural(&self) -> bool {
        matches!(self, Op::Insert { .. } | Op::Move { .. } | Op::Delete { .. })
    }
}

pub type Back = HashMap<NodeId, usize>;

fn at(m: &Back, id: NodeId, what: &str) -> Result<usize, Fail> {
    match m.get(&id) {
        Some(i) => Ok(*i),
        None => fail("foreign-node", format!("{what} names a node ({}) that is not in the tree", usize::from(id))),
    }
}

pub fn translate(ops: &[EditOp<TT>], ba: &Back, bb: &Back) -> Result<Vec<Op>, Fail> {
    ops.iter()
        .map(|op| {
            Ok(match op {
                EditOp::SetText { node_a, node_b, text } => Op::Text {
                    a: at(ba, *node_a, "SetText.node_a")?,
                    b: at(bb, *node_b, "SetText.node_b")?,
                    text: text.0,
                },
                EditOp::UpdateProperties { node_a, node_b, changes } => Op::Props {
                    a: at(ba, *node_a, "UpdateProperties.node_a")?,
                    b: at(bb, *node_b, "UpdateProperties.node_b")?,
                    changes: changes
                        .iter()
                        .map(|c| {
                            (c.key.0, match &c.value {
                                PropValue::Same => None,
                                PropValue::Different(v) => Some(v.0),
                            })
                        })
                        .collect(),
                },
                EditOp::Insert { node_b, parent_b, position, kind } => Op::Insert {
                    b: at(bb, *node_b, "Insert.node_b")?,
                    parent: at(bb, *parent_b, "Insert.parent_b")?,
                    pos: *position,
                    kind: kind.0,
                },
                EditOp::Move { node_a, node_b, new_parent_b, new_position } => Op::Move {
                    a: at(ba, *node_a, "Move.node_a")?,
                    b: at(bb, *node_b, "Move.node_b")?,
                    parent: at(bb, *new_parent_b, "Move.new_parent_b")?,
                    pos: *new_position,
                },
                EditOp::Delete { node_a } => Op::Delete { a: at(ba, *node_a, "Delete.node_a")? },
            })
        })
        .collect()
}

/// A matching in model indices, read through both directions and the pair list.
#[derive(Clone, Debug, PartialEq)]
pub struct MM {
    pub a2b: Vec<Option<usize>>,
    pub b2a: Vec<Option<usize>>,
    pub pairs: Vec<(usize, usize)>,
}

pub fn read_matching(
    m: &Matching,
    ida: &[NodeId],
    idb: &[NodeId],
    ba: &Back,
    bb: &Back,
) -> Result<MM, Fail> {
    let mut a2b = vec![None; ida.len()];
    let mut b2a = vec![None; idb.len()];
    for (i, id) in ida.iter().enumerate() {
        if let Some(b) = m.get_b(*id) {
            a2b[i] = Some(at(bb, b, "match of a tree-A node")?);
        }
        ensure!(m.contains_a(*id) == a2b[i].is_some(), "table", "contains_a disagrees with get_b on A node {i}");
    }
    for (i, id) in idb.iter().enumerate() {
        if let Some(a) = m.get_a(*id) {
            b2a[i] = Some(at(ba, a, "match of a tree-B node")?);
        }
        ensure!(m.contains_b(*id) == b2a[i].is_some(), "table", "contains_b disagrees with get_a on B node {i}");
    }
    let mut pairs = vec![];
    for (a, b) in m.pairs() {
        pairs.push((at(ba, a, "matched pair, A side")?, at(bb, b, "matched pair, B side")?));
    }
    Ok(MM { a2b, b2a, pairs })
}

/// One-to-one, both directions and the pair list agreeing.
pub fn check_one_to_one(mm: &MM, len: usize, empty: bool) -> Result<(), Fail> {
    ensure!(mm.pairs.len() == len, "count", "len() = {len} but {} pairs are listed", mm.pairs.len());
    ensure!(empty == (len == 0), "count", "is_empty() = {empty} with {len} pairs");
    let mut sa = vec![false; mm.a2b.len()];
    let mut sb = vec![false; mm.b2a.len()];
    for &(a, b) in &mm.pairs {
        ensure!(!sa[a], "twice", "A node {a} is matched more than once: {:?}", mm.pairs);
        ensure!(!sb[b], "twice", "B node {b} is matched more than once: {:?}", mm.pairs);
        sa[a] = true;
        sb[b] = true;
        ensure!(mm.a2b[a] == Some(b), "direction", "pair ({a},{b}) listed but A node {a} maps to {:?}", mm.a2b[a]);
        ensure!(mm.b2a[b] == Some(a), "direction", "pair ({a},{b}) listed but B node {b} maps to {:?}", mm.b2a[b]);
    }
    for (a, s) in sa.iter().enumerate() {
        ensure!(*s || mm.a2b[a].is_none(), "direction", "A node {a} maps to {:?} but is in no pair", mm.a2b[a]);
    }
    for (b, s) in sb.iter().enumerate() {
        ensure!(*s || mm.b2a[b].is_none(), "direction", "B node {b} maps to {:?} but is in no pair", mm.b2a[b]);
    }
    Ok(())
}

/// The tree with the content of opaque nodes cut off; `keep[i]` tells which
/// original indices remain (they are those not strictly inside opaque nodes).
pub fn children_visible(t: &MTree, i: usize) -> &[usize] {
    if t.n[i].opaque { &[] } else { &t.n[i].children }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum N {
    A(usize),
    B(usize),
}

#[derive(Clone, Debug)]
struct Content {
    kind: u8,
    text: Option<u32>,
    attrs: Vec<(u8, u32)>,
}

fn content(t: &MTree, i: usize) -> Content {
    Content {
        kind: t.n[i].kind,
        text: t.n[i].text,
        attrs: t.n[i].attrs.list.iter().map(|(k, v)| (*k, *v)).collect(),
    }
}

fn apply_content(c: &mut Content, op: &Op) -> Result<(), Fail> {
    match op {
        Op::Text { text, .. } => c.text = Some(*text),
        Op::Props { changes, a, .. } => {
            let old = c.attrs.clone();
            c.attrs = vec![];
            for (k, v) in changes {
                let v = match v {
                    Some(v) => *v,
                    None => match old.iter().find(|(o, _)| o == k) {
                        Some((_, v)) => *v,
                        None => {
                            return fail("same-of-absent", format!("UpdateProperties on A node {a} keeps property {k} it does not have"));
                        }
                    },
                };
                c.attrs.push((*k, v));
            }
        }
        _ => {}
    }
    Ok(())
}

fn same_content(c: &Content, t: &MTree, b: usize, check_kind: bool) -> bool {
    let e = content(t, b);
    (!check_kind || (c.kind == e.kind && c.text == e.text)) && c.attrs == e.attrs
}

/// Final-state reading of a script, order-insensitive: every node that the
/// script does not mention keeps its place; every mentioned node has the place
/// the script gives it. The outcome must be tree B.
pub fn check_final(a: &MTree, b: &MTree, mm: &MM, ops: &[Op], check_kind: bool) -> Result<(), Fail> {
    let ina = a.inside_opaque();
    let inb = b.inside_opaque();
    // place of every surviving node: (parent as B index or unmatched A, position)
    let mut place: HashMap<N, (N, usize)> = HashMap::new();
    let mut cont: HashMap<N, Content> = HashMap::new();
    for i in 0..a.len() {
        if ina[i] {
            continue;
        }
        cont.insert(N::A(i), content(a, i));
        if let Some(p) = a.n[i].parent {
            place.insert(N::A(i), (N::A(p), a.pos(i)));
        }
    }
    let live_b = |b: usize| match mm.b2a[b] {
        Some(x) => N::A(x),
        None => N::B(b),
    };
    for op in ops {
        match op {
            Op::Insert { b: nb, parent, pos, kind } => {
                ensure!(!cont.contains_key(&N::B(*nb)), "insert-twice", "B node {nb} is inserted twice");
                let mut c = content(b, *nb);
                c.kind = *kind;
                cont.insert(N::B(*nb), c);
                place.insert(N::B(*nb), (live_b(*parent), *pos));
            }
            Op::Move { a: na, parent, pos, .. } => {
                place.insert(N::A(*na), (live_b(*parent), *pos));
            }
            Op::Delete { a: na } => {
                ensure!(cont.remove(&N::A(*na)).is_some(), "delete-twice", "A node {na} is deleted twice or is not editable");
                place.remove(&N::A(*na));
            }
            Op::Text { a: na, .. } | Op::Props { a: na, .. } => {
                let c = cont.get_mut(&N::A(*na));
                ensure!(c.is_some(), "edit-dead", "{op:?} edits a node that is gone");
                apply_content(c.unwrap(), op)?;
            }
        }
    }
    let visible = (0..b.len()).filter(|i| !inb[*i]).count();
    ensure!(cont.len() == visible, "node-count", "script leaves {} nodes, B has {visible}", cont.len());
    for i in 0..b.len() {
        if inb[i] {
            continue;
        }
        let me = live_b(i);
        let Some(c) = cont.get(&me) else {
            return fail("missing", format!("B node {i} is not in the result"));
        };
        ensure!(
            same_content(c, b, i, check_kind),
            "content",
            "B node {i} ends up as {c:?}, should be {:?}",
            content(b, i)
        );
        let want = b.n[i].parent.map(|p| (live_b(p), b.pos(i)));
        let got = place.get(&me).copied();
        ensure!(got == want, "place", "B node {i} ({me:?}) ends up at {got:?}, should be at {want:?}");
    }
    Ok(())
}

/// Applies the script one operation at a time to a mutable copy of A with the
/// documented semantics: absolute positions, no sibling shifting, gap filling,
/// an occupant of the target position is displaced into a slot.
pub struct Replay {
    pub displaced: usize,
    pub gaps: usize,
}

pub fn replay(a: &MTree, b: &MTree, mm: &MM, ops: &[Op], check_kind: bool) -> Result<Replay, Fail> {
    #[derive(Clone)]
    struct Nd {
        parent: Option<N>,
        kids: Vec<Option<N>>,
        c: Content,
        dead: bool,
        slot: bool,
    }
    let ina = a.inside_opaque();
    let inb = b.inside_opaque();
    let mut w: HashMap<N, Nd> = HashMap::new();
    for i in 0..a.len() {
        if !ina[i] {
            w.insert(N::A(i), Nd {
                parent: a.n[i].parent.map(N::A),
                kids: children_visible(a, i).iter().map(|c| Some(N::A(*c))).collect(),
                c: content(a, i),
                dead: false,
                slot: false,
            });
        }
    }
    let mut stats = Replay { displaced: 0, gaps: 0 };
    let live_b = |b: usize| match mm.b2a[b] {
        Some(x) => N::A(x),
        None => N::B(b),
    };
    fn detach(w: &mut HashMap<N, Nd>, n: N) {
        if let Some(p) = w.get_mut(&n).unwrap().parent.take() {
            let k = w[&p].kids.iter().position(|c| *c == Some(n)).unwrap();
            w.get_mut(&p).unwrap().kids[k] = None;
        }
    }
    fn put(w: &mut HashMap<N, Nd>, n: N, p: N, pos: usize, st: &mut Replay) {
        let kids = &mut w.get_mut(&p).unwrap().kids;
        while kids.len() < pos {
            kids.push(None);
            st.gaps += 1;
        }
        let mut out = None;
        if pos == kids.len() {
            kids.push(Some(n));
        } else {
            out = kids[pos].replace(n);
        }
        if let Some(o) = out {
            st.displaced += 1;
            let o = w.get_mut(&o).unwrap();
            o.parent = None;
            o.slot = true;
        }
        let me = w.get_mut(&n).unwrap();
        me.parent = Some(p);
        me.slot = false;
    }
    for (k, op) in ops.iter().enumerate() {
        let need = |w: &HashMap<N, Nd>, n: N, role: &str| -> Result<(), Fail> {
            match w.get(&n) {
                Some(x) if !x.dead => Ok(()),
                Some(_) => fail("uses-deleted", format!("op {k} {op:?}: {role} {n:?} was already deleted")),
                None => fail("uses-absent", format!("op {k} {op:?}: {role} {n:?} does not exist at this point")),
            }
        };
        match op {
            Op::Text { a: na, .. } | Op::Props { a: na, .. } => {
                need(&w, N::A(*na), "node")?;
                apply_content(&mut w.get_mut(&N::A(*na)).unwrap().c, op)?;
            }
            Op::Insert { b: nb, parent, pos, kind } => {
                let p = live_b(*parent);
                need(&w, p, "parent")?;
                ensure!(!w.contains_key(&N::B(*nb)), "insert-twice", "op {k}: B node {nb} inserted twice");
                let mut c = content(b, *nb);
                c.kind = *kind;
                w.insert(N::B(*nb), Nd { parent: None, kids: vec![], c, dead: false, slot: false });
                put(&mut w, N::B(*nb), p, *pos, &mut stats);
            }
            Op::Move { a: na, parent, pos, .. } => {
                let p = live_b(*parent);
                need(&w, N::A(*na), "node")?;
                need(&w, p, "parent")?;
                let mut up = Some(p);
                while let Some(x) = up {
                    ensure!(x != N::A(*na), "into-itself", "op {k} {op:?}: the new parent {p:?} is inside the node at this point");
                    up = w[&x].parent;
                }
                detach(&mut w, N::A(*na));
                put(&mut w, N::A(*na), p, *pos, &mut stats);
            }
            Op::Delete { a: na } => {
                need(&w, N::A(*na), "node")?;
                let still: Vec<N> = w[&N::A(*na)].kids.iter().flatten().copied().collect();
                ensure!(still.is_empty(), "delete-with-children", "op {k} {op:?}: node still has children {still:?}");
                detach(&mut w, N::A(*na));
                w.get_mut(&N::A(*na)).unwrap().dead = true;
            }
        }
    }
    // compare with B
    let stuck: Vec<N> = w.iter().filter(|(_, x)| x.slot && !x.dead).map(|(n, _)| *n).collect();
    ensure!(stuck.is_empty(), "orphan", "nodes displaced and never placed again: {stuck:?}");
    let root = live_b(0);
    let mut stack = vec![(root, 0usize)];
    let mut seen = 0;
    while let Some((n, i)) = stack.pop() {
        seen += 1;
        let x = &w[&n];
        ensure!(!x.dead, "missing", "B node {i} is deleted at the end");
        ensure!(
            same_content(&x.c, b, i, check_kind),
            "content",
            "B node {i} ends up as {:?}, should be {:?}",
            x.c,
            content(b, i)
        );
        let kids: Vec<N> = x.kids.iter().flatten().copied().collect();
        let want: Vec<N> = children_visible(b, i).iter().map(|c| live_b(*c)).collect();
        ensure!(kids == want, "children", "B node {i} ends up with children {kids:?}, should be {want:?}");
        stack.extend(children_visible(b, i).iter().map(|c| (live_b(*c), *c)));
    }
    let visible = (0..b.len()).filter(|i| !inb[*i]).count();
    ensure!(seen == visible, "node-count", "{seen} nodes reachable, B has {visible}");
    let alive = w.values().filter(|x| !x.dead).count();
    ensure!(alive == visible, "leak", "{alive} nodes alive at the end, B has {visible}");
    Ok(stats)
}

/// The script contains exactly the operations the matching calls for.
pub fn check_exact(a: &MTree, b: &MTree, mm: &MM, ops: &[Op]) -> Result<(), Fail> {
    let ina = a.inside_opaque();
    let inb = b.inside_opaque();
    let mut ins = vec![0; b.len()];
    let mut del = vec![0; a.len()];
    let mut mov = vec![0; a.len()];
    let mut txt = vec![0; a.len()];
    let mut prp = vec![0; a.len()];
    for op in ops {
        match op {
            Op::Insert { b: x, .. } => ins[*x] += 1,
            Op::Delete { a: x } => del[*x] += 1,
            Op::Move { a: x, b: y, .. } => {
                ensure!(mm.a2b[*x] == Some(*y), "wrong-partner", "{op:?}: node_b is not the match of node_a");
                mov[*x] += 1
            }
            Op::Text { a: x, b: y, .. } => {
                ensure!(mm.a2b[*x] == Some(*y), "wrong-partner", "{op:?}: node_b is not the match of node_a");
                txt[*x] += 1
            }
            Op::Props { a: x, b: y, .. } => {
                ensure!(mm.a2b[*x] == Some(*y), "wrong-partner", "{op:?}: node_b is not the match of node_a");
                prp[*x] += 1
            }
        }
    }
    for i in 0..b.len() {
        let want = (mm.b2a[i].is_none() && !inb[i] && b.n[i].parent.is_some()) as i32;
        ensure!(ins[i] == want, "insert-count", "B node {i}: {} Insert operations, expected {want}", ins[i]);
    }
    for i in 0..a.len() {
        let m = mm.a2b[i];
        let active = !ina[i] && m.is_none_or(|b| !inb[b]);
        let want = (m.is_none() && !ina[i]) as i32;
        ensure!(del[i] == want, "delete-count", "A node {i}: {} Delete operations, expected {want}", del[i]);
        let (mut wm, mut wt, mut wp) = (0, 0, 0);
        if let (true, Some(j)) = (active, m) {
            if let (Some(pa), Some(pb)) = (a.n[i].parent, b.n[j].parent) {
                wm = (mm.a2b[pa] != Some(pb) || a.pos(i) != b.pos(j)) as i32;
            }
            wt = (a.n[i].text != b.n[j].text && b.n[j].text.is_some()) as i32;
            wp = (a.n[i].attrs.list != b.n[j].attrs.list) as i32;
        }
        ensure!(mov[i] == wm, "move-count", "A node {i}: {} Move operations, expected {wm}", mov[i]);
        ensure!(txt[i] == wt, "settext-count", "A node {i}: {} SetText operations, expected {wt}", txt[i]);
        ensure!(prp[i] == wp, "props-count", "A node {i}: {} UpdateProperties operations, expected {wp}", prp[i]);
    }
    Ok(())
}

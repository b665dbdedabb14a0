use crate::plain::model::*;
use crate::plain::oracle::*;
use cinereus::{EditOp, Matching, MatchingConfig, Properties, compute_matching, diff_trees, diff_trees_with_matching, generate_edit_script};
use engine::proptest::collection::vec;
use engine::proptest::prelude::*;
use engine::{Ctx, Fail, Pass, Verdict, ensure};
use serde::{Deserialize, Serialize};

/// One diff of a generated pair through the public entry point.
pub struct Run {
    pub a: MTree,
    pub b: MTree,
    pub ha: Vec<u64>,
    pub hb: Vec<u64>,
    pub mm: MM,
    pub ops: Vec<Op>,
    pub len: usize,
    pub empty: bool,
}

pub fn run_models(a: MTree, b: MTree, hash: u8, lay: (u32, u32), cfg: &MatchingConfig) -> Result<Run, Fail> {
    let (sa, sb) = if hash == 3 { (11, 12) } else { (0, 0) };
    let ha = hashes(&a, hash, sa);
    let hb = hashes(&b, hash, sb);
    let ta = build(&a, &ha, lay.0);
    let tb = build(&b, &hb, lay.1);
    let (ops, m) = diff_trees_with_matching(&ta, &tb, cfg);
    let mm = read_matching(&m, &ta.ids, &tb.ids, &ta.back, &tb.back)?;
    let ops = translate(&ops, &ta.back, &tb.back)?;
    Ok(Run { a, b, ha, hb, mm, ops, len: m.len(), empty: m.is_empty() })
}

pub fn run_pair(p: &Pair) -> Result<Run, Fail> {
    let (a, b) = models(p);
    run_models(a, b, p.hash, (p.lay_a, p.lay_b), &config(p))
}

fn show(a: &MTree, b: &MTree, cfg: &MatchingConfig, hash: u8, lay: (u32, u32)) -> String {
    let mut s = format!(
        "tree A:\n{}tree B:\n{}similarity_threshold={} min_height={} hash mode {hash}\n",
        a.render(),
        b.render(),
        cfg.similarity_threshold,
        cfg.min_height,
    );
    let (a, b, cfg) = (a.clone(), b.clone(), cfg.clone());
    if let Ok(Ok(r)) =
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_models(a, b, hash, lay, &cfg)))
    {
        s.push_str(&format!("matching: {:?}\nscript:\n", r.mm.pairs));
        for o in &r.ops {
            s.push_str(&format!("  {o:?}\n"));
        }
    }
    s
}

pub fn explain_pair(p: &Pair) -> String {
    let (a, b) = models(p);
    show(&a, &b, &config(p), p.hash, (p.lay_a, p.lay_b))
}

fn rooted(r: &Run) -> bool {
    r.mm.a2b[0] == Some(0)
}

fn sim_ok(a: &MTree, x: usize, b: &MTree, y: usize, thr: f64) -> bool {
    a.n[x].attrs.similarity(&b.n[y].attrs) >= thr
}

pub fn labels(r: &Run, p: Pass) -> Pass {
    let cross = r.mm.pairs.iter().any(|&(x, y)| match (r.a.n[x].parent, r.b.n[y].parent) {
        (Some(p), Some(q)) => r.mm.a2b[p] != Some(q),
        _ => false,
    });
    let inverted = r.mm.pairs.iter().any(|&(x, y)| {
        r.a.n[x].parent.and_then(|p| r.mm.a2b[p]).is_some_and(|q| q != y && r.b.is_anc_or_self(y, q))
    });
    p.label(r.ops.is_empty(), "empty-script")
        .label(r.ops.iter().any(|o| matches!(o, Op::Move { .. })), "has-move")
        .label(cross, "parent-changing-move")
        .label(inverted, "parent-child-inverted")
        .label(r.ops.iter().any(|o| matches!(o, Op::Insert { .. })), "has-insert")
        .label(r.ops.iter().any(|o| matches!(o, Op::Delete { .. })), "has-delete")
        .label(r.ops.iter().any(|o| matches!(o, Op::Text { .. })), "has-settext")
        .label(r.ops.iter().any(|o| matches!(o, Op::Props { .. })), "has-props")
        .label(r.a.n.iter().chain(&r.b.n).any(|n| n.opaque), "has-opaque")
        .label(r.a.len().max(r.b.len()) > 20, "over-20-nodes")
        .label(r.a.len().max(r.b.len()) > 200, "over-200-nodes")
        .label(r.a.n.iter().chain(&r.b.n).any(|n| n.children.len() > 255), "over-255-siblings")
        .label(r.mm.a2b[0] != Some(0), "roots-unmatched")
}

fn adapt(max: usize, f: impl Fn(&mut Pair) + 'static) -> BoxedStrategy<Pair> {
    pair(max)
        .prop_map(move |mut p| {
            f(&mut p);
            p
        })
        .boxed()
}

// ---------------------------------------------------------- small-scope space

/// All ordered trees of at most `n` nodes whose non-root nodes carry one of
/// `labels` labels, as parent vectors in pre-order.
fn small_trees(n: usize, labels: u8) -> Vec<MTree> {
    fn shapes(n: usize) -> Vec<Vec<usize>> {
        // parent vectors in pre-order: parent of node i is on the path to i-1
        let mut out = vec![vec![0usize]];
        for _ in 1..n {
            let mut next = vec![];
            for s in &out {
                let mut p = s.len() - 1;
                loop {
                    let mut t = s.clone();
                    t.push(p);
                    next.push(t);
                    if p == 0 {
                        break;
                    }
                    p = s[p];
                }
            }
            out = next;
        }
        out
    }
    let mut all = vec![];
    for size in 1..=n {
        for s in shapes(size) {
            for code in 0..(labels as usize).pow(size as u32 - 1) {
                let mut c = code;
                let mut v: Vec<MNode> = (0..size)
                    .map(|i| {
                        let l = if i == 0 { 0 } else { c % labels as usize };
                        if i > 0 {
                            c /= labels as usize;
                        }
                        let (kind, text) = match l {
                            0 => (0, None),
                            1 => (1, Some(0)),
                            2 => (1, Some(1)),
                            _ => (3, None),
                        };
                        MNode {
                            kind,
                            text,
                            attrs: Attrs::default(),
                            opaque: false,
                            children: vec![],
                            parent: (i > 0).then_some(s[i]),
                            id: i as u32,
                        }
                    })
                    .collect();
                for i in 1..size {
                    v[s[i]].children.push(i);
                }
                all.push(MTree { n: v });
            }
        }
    }
    all
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Small {
    nodes: usize,
    labels: u8,
    a: usize,
    b: usize,
    min_height: usize,
}

fn small_space(
    ctx: &Ctx,
    name: &str,
    nodes: usize,
    labels: u8,
    test: impl Fn(&Run) -> Verdict + Sync,
) {
    let trees = small_trees(nodes, labels);
    let n = trees.len() as u64;
    let pick = |s: &Small| -> (MTree, MTree) {
        let own;
        let t = if (s.nodes, s.labels) == (nodes, labels) {
            &trees
        } else {
            own = small_trees(s.nodes, s.labels);
            &own
        };
        (t[s.a].clone(), t[s.b].clone())
    };
    let cfg = |s: &Small| MatchingConfig { similarity_threshold: 0.5, min_height: s.min_height };
    ctx.enumerate(
        name,
        &format!(
            "every ordered pair of the {n} ordered trees with at most {nodes} nodes and {labels} node labels, \
             min_height 0 and 1, threshold 0.5 (complete enumeration); non-trivial: the script is not empty"
        ),
        n * n * 2,
        |i| {
            Some(Small {
                nodes,
                labels,
                a: ((i / 2) / n) as usize,
                b: ((i / 2) % n) as usize,
                min_height: (i % 2) as usize,
            })
        },
        |s: &Small| {
            let (a, b) = pick(s);
            let r = run_models(a, b, 0, (0, 2), &cfg(s))?;
            test(&r)
        },
        |s: &Small| {
            let (a, b) = pick(s);
            show(&a, &b, &cfg(s), 0, (0, 2))
        },
    );
}

// ------------------------------------------------------- supplied matchings

/// A pair of trees plus selectors from which a valid matching is built.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Supplied {
    pair: Pair,
    picks: Vec<(u16, u16)>,
}

fn supplied(max: usize) -> impl Strategy<Value = Supplied> {
    (pair(max), vec((any::<u16>(), any::<u16>()), 0..40)).prop_map(|(pair, picks)| Supplied { pair, picks })
}

struct SuppliedRun {
    a: MTree,
    b: MTree,
    mm: MM,
    ops: Vec<Op>,
    inverse: Vec<Op>,
}

fn run_supplied(s: &Supplied) -> Result<SuppliedRun, Fail> {
    let (a, b) = models(&s.pair);
    let ha = hashes(&a, s.pair.hash, 0);
    let hb = hashes(&b, s.pair.hash, 0);
    let ta = build(&a, &ha, s.pair.lay_a);
    let tb = build(&b, &hb, s.pair.lay_b);
    let (ia, ib) = (a.inside_opaque(), b.inside_opaque());
    let mut a2b = vec![None; a.len()];
    let mut b2a = vec![None; b.len()];
    let mut pairs = vec![(0, 0)];
    a2b[0] = Some(0);
    b2a[0] = Some(0);
    for &(x, y) in &s.picks {
        if a.len() < 2 {
            break;
        }
        let x = 1 + x as usize % (a.len() - 1);
        if a2b[x].is_some() || ia[x] {
            continue;
        }
        let cand: Vec<usize> = (1..b.len())
            .filter(|&y| {
                b2a[y].is_none()
                    && !ib[y]
                    && b.n[y].kind == a.n[x].kind
                    && b.n[y].attrs.gate == a.n[x].attrs.gate
                    && b.n[y].opaque == a.n[x].opaque
            })
            .collect();
        if cand.is_empty() {
            continue;
        }
        let y = cand[y as usize % cand.len()];
        a2b[x] = Some(y);
        b2a[y] = Some(x);
        pairs.push((x, y));
    }
    // the root pair does not come first in general
    let k = s.picks.len() % pairs.len();
    pairs.rotate_left(k);
    let mut m = Matching::with_capacity(s.picks.len(), a.len() / 2);
    let mut inv = Matching::new();
    for &(x, y) in &pairs {
        m.add(ta.ids[x], tb.ids[y]);
        inv.add(tb.ids[y], ta.ids[x]);
    }
    let ops = translate(&generate_edit_script(&ta, &tb, &m), &ta.back, &tb.back)?;
    let inverse = translate(&generate_edit_script(&tb, &ta, &inv), &tb.back, &ta.back)?;
    Ok(SuppliedRun { a, b, mm: MM { a2b, b2a, pairs }, ops, inverse })
}

fn explain_supplied(s: &Supplied) -> String {
    let Ok(Ok(r)) = std::panic::catch_unwind(|| run_supplied(s)) else {
        return explain_pair(&s.pair);
    };
    let mut t = format!("tree A:\n{}tree B:\n{}matching: {:?}\nscript:\n", r.a.render(), r.b.render(), r.mm.pairs);
    for o in &r.ops {
        t.push_str(&format!("  {o:?}\n"));
    }
    t
}

// -------------------------------------------------------- hostile inputs

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hostile {
    pair: Pair,
    hash: u8,
    thr: u8,
    min_height: u8,
}

fn hostile() -> impl Strategy<Value = Hostile> {
    (pair(90), 0u8..6, 0u8..7, 0u8..5).prop_map(|(pair, hash, thr, min_height)| Hostile {
        pair,
        hash,
        thr,
        min_height,
    })
}

fn hostile_cfg(h: &Hostile) -> MatchingConfig {
    MatchingConfig {
        similarity_threshold: [0.5, f64::NAN, -1.0, f64::INFINITY, 0.0, 1.5, f64::MIN_POSITIVE][h.thr as usize % 7],
        min_height: [0, 1, 4, usize::MAX, 2][h.min_height as usize % 5],
    }
}

fn t_hostile(h: &Hostile) -> Verdict {
    let (a, b) = models(&h.pair);
    let (sa, sb) = if h.hash == 3 { (11, 12) } else { (0, 0) };
    let ha = hashes(&a, h.hash, sa);
    let hb = hashes(&b, h.hash, sb);
    // generous polynomial bound on calls into the trees
    let n = (a.len() + b.len()) as u64;
    let budget = 20_000 + 60 * n * n * (1 + n / 8);
    let ta = VTree::new(&a, &ha, h.pair.lay_a, budget);
    let tb = VTree::new(&b, &hb, h.pair.lay_b, budget);
    let (ops, m) = diff_trees_with_matching(&ta, &tb, &hostile_cfg(h));
    let mm = read_matching(&m, &ta.ids, &tb.ids, &ta.back, &tb.back)?;
    let ops = translate(&ops, &ta.back, &tb.back)?;
    check_one_to_one(&mm, m.len(), m.is_empty())?;
    check_exact(&a, &b, &mm, &ops)?;
    let rooted = mm.a2b[0] == Some(0);
    // with lying hashes a matched pair may differ in kind: judge structure only
    if rooted {
        check_final(&a, &b, &mm, &ops, false)?;
        replay(&a, &b, &mm, &ops, false)?;
    }
    let used = budget - ta.budget.get().min(tb.budget.get());
    let lying = (0..a.len()).any(|x| {
        mm.a2b[x].is_some_and(|y| ha[x] == hb[y] && (a.n[x].kind != b.n[y].kind || a.n[x].text != b.n[y].text))
    });
    Ok(Pass::new(h.hash >= 2 || h.thr % 7 != 0)
        .label(lying, "hash-collision-matched")
        .label(h.thr % 7 == 1, "nan-threshold")
        .label(rooted, "roots-matched")
        .label(n > 60, "over-60-nodes")
        .label(used * 20 > budget, "over-5%-of-work-budget"))
}

// ----------------------------------------------------------- huge documents

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    shape: u8,
    nodes: u16,
    kinds: u8,
    texts: u16,
    muts: Vec<MutRec>,
    hash: u8,
    thr: u8,
    min_height: u8,
    lay: (u32, u32),
    counted: bool,
}

/// Deeper than a stack of 2 MiB has frames for.
fn abyss() -> impl Strategy<Value = Huge> {
    let shape = engine::proptest::sample::select(std::vec![0u8, 2, 5, 6, 8, 10, 13, 14]);
    (shape, 30_000u16..50_000, 1u8..3, 0u8..2, any::<(u32, u32)>(), prop::bool::weighted(0.7)).prop_map(|(shape, nodes, kinds, hash, lay, counted)| Huge {
        shape,
        nodes: if shape % 4 == 2 { nodes } else { nodes / 2 },
        kinds,
        texts: 60_000,
        muts: std::vec![],
        hash,
        thr: 0,
        min_height: 0,
        lay,
        counted,
    })
}

fn huge() -> impl Strategy<Value = Huge> {
    (
        0u8..8,
        prop_oneof![200u16..600, 600u16..1500, 1500u16..4000],
        1u8..4,
        prop_oneof![Just(1u16), 2u16..9, Just(60_000u16)],
        vec(mut_rec(), 0..5),
        prop_oneof![3 => 0u8..2, 1 => 2u8..6],
        prop_oneof![3 => Just(0u8), 1 => 0u8..7],
        0u8..5,
        any::<(u32, u32)>(),
        any::<bool>(),
    )
        .prop_map(|(shape, nodes, kinds, texts, muts, hash, thr, min_height, lay, counted)| Huge {
            shape,
            nodes,
            kinds,
            texts,
            muts,
            hash,
            thr,
            min_height,
            lay,
            counted,
        })
}

impl Huge {
    fn prof(&self) -> Prof {
        Prof { kinds: self.kinds, texts: 4, shape: 0, attrs: 1, gates: 1, opaque: 0, root_unique: false, html: false }
    }
    fn models(&self) -> (MTree, MTree) {
        let n = self.nodes as usize + 1;
        let side = (n as f64).sqrt() as usize + 1;
        let mut v: Vec<MNode> = vec![];
        for i in 0..n {
            let parent = (i > 0).then(|| match self.shape % 8 {
                0 => i - 1,                                     // chain
                1 => 0,                                         // one long list
                2 => (i - 1) / 2 * 2,                           // chain with a leaf at every node
                3 => (i - 1) / 2,                               // binary
                4 => if i % side == 1 { 0 } else { i - 1 },     // a list of chains
                5 => if i < side { i - 1 } else { i % side },   // a chain with a list at every node
                6 => if i < n / 2 { i - 1 } else { n / 2 - 1 }, // a chain that ends in a list
                _ => i / 40 * 40 / 40,                          // a wide tree
            });
            let parent = parent.map(|p: usize| p.min(i - 1));
            v.push(MNode {
                kind: 1 + (i % self.kinds.max(1) as usize) as u8,
                text: Some((i % self.texts.max(1) as usize) as u32),
                attrs: Attrs::default(),
                opaque: false,
                children: vec![],
                parent,
                id: i as u32,
            });
            if let Some(p) = parent {
                v[p].children.push(i);
            }
        }
        let a = MTree::compact(&v, 0);
        let (mut b, _) = mutate(&self.prof(), &a, &self.muts);
        if self.shape >= 8 {
            b.n[0].text = Some(9);
        }
        (a, b)
    }
}

/// The diff runs on a thread with the stack Rust gives every thread.
fn on_small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, f).expect("thread");
        t.join().unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

fn t_huge(h: &Huge) -> Verdict {
    let (a, b) = h.models();
    let (sa, sb) = if h.hash == 3 { (11, 12) } else { (0, 0) };
    let (ha, hb) = (hashes(&a, h.hash, sa), hashes(&b, h.hash, sb));
    let n = (a.len() + b.len()) as u64;
    let budget = 20_000 + 60 * n * n;
    let cfg = MatchingConfig {
        similarity_threshold: [0.5, f64::NAN, -1.0, f64::INFINITY, 0.0, 1.5, f64::MIN_POSITIVE][h.thr as usize % 7],
        min_height: [1, 0, 4, usize::MAX, 2][h.min_height as usize % 5],
    };
    let (mm, len, empty, ops, used) = on_small_stack(|| -> Result<_, Fail> {
        macro_rules! go {
            ($ta:expr, $tb:expr) => {{
                let (ta, tb) = ($ta, $tb);
                let (ops, m) = diff_trees_with_matching(ta, tb, &cfg);
                let mm = read_matching(&m, &ta.ids, &tb.ids, &ta.back, &tb.back)?;
                let ops = translate(&ops, &ta.back, &tb.back)?;
                (mm, m.len(), m.is_empty(), ops)
            }};
        }
        if h.counted {
            let (ta, tb) = (VTree::new(&a, &ha, h.lay.0, budget), VTree::new(&b, &hb, h.lay.1, budget));
            let (mm, l, e, ops) = go!(&ta, &tb);
            Ok((mm, l, e, ops, budget - ta.budget.get().min(tb.budget.get())))
        } else {
            let (mm, l, e, ops) = go!(&build(&a, &ha, h.lay.0), &build(&b, &hb, h.lay.1));
            Ok((mm, l, e, ops, 0))
        }
    })?;
    if std::env::var("HUGE").is_ok() {
        println!("{} shape {} k{} t{} m{} hash {} thr {} mh {} used {used} {:.4}", n, h.shape, h.kinds, h.texts, h.muts.len(), h.hash, h.thr, cfg.min_height, used as f64 / (n * n) as f64);
    }
    check_one_to_one(&mm, len, empty)?;
    check_exact(&a, &b, &mm, &ops)?;
    let rooted = mm.a2b[0] == Some(0);
    if rooted {
        check_final(&a, &b, &mm, &ops, false)?;
        replay(&a, &b, &mm, &ops, false)?;
    }
    Ok(Pass::new(!ops.is_empty())
        .label(rooted, "roots-matched")
        .label(n > 2000, "over-2000-nodes")
        .label(a.height(0) > 300, "over-300-levels")
        .label(a.height(0) > 10_000, "over-10000-levels")
        .label((0..a.len()).any(|i| a.n[i].children.len() > 300), "over-300-siblings"))
}

// ---------------------------------------------------- representation variants

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Variant {
    pair: Pair,
    lay2: (u32, u32),
    salt: u32,
}

fn relabel_kinds(t: &MTree, salt: u32) -> MTree {
    let mut t = t.clone();
    for n in &mut t.n {
        n.kind = n.kind.wrapping_mul(2 * (salt % 100) as u8 + 1).wrapping_add((salt >> 8) as u8);
    }
    t
}

fn run_v(a: &MTree, b: &MTree, ha: &[u64], hb: &[u64], lay: (u32, u32), cfg: &MatchingConfig, how: u8) -> Result<(MM, Vec<Op>), Fail> {
    macro_rules! go {
        ($ta:expr, $tb:expr) => {{
            let (ta, tb) = ($ta, $tb);
            let m = compute_matching(&ta, &tb, cfg);
            let ops = generate_edit_script(&ta, &tb, &m);
            Ok((
                read_matching(&m, &ta.ids, &tb.ids, &ta.back, &tb.back)?,
                translate(&ops, &ta.back, &tb.back)?,
            ))
        }};
    }
    let big = u64::MAX;
    match how {
        0 => go!(build(a, ha, lay.0), build(b, hb, lay.1)),
        1 => go!(build(a, ha, lay.0), VTree::new(b, hb, lay.1, big)),
        2 => go!(VTree::new(a, ha, lay.0, big), build(b, hb, lay.1)),
        _ => go!(VTree::new(a, ha, lay.0, big), VTree::new(b, hb, lay.1, big)),
    }
}

type Simple = cinereus::Tree<cinereus::SimpleTypes<Kd>>;
fn simple(t: &MTree, h: &[u64]) -> (Simple, Vec<cinereus::indextree::NodeId>, Back) {
    let nd = |i: usize| cinereus::NodeData::simple_u64(h[i], Kd(t.n[i].kind));
    let mut out = Simple::new(nd(0));
    let mut ids = vec![out.root];
    for i in 1..t.len() {
        let p = ids[t.n[i].parent.unwrap()];
        ids.push(out.add_child(p, nd(i)));
    }
    let back = ids.iter().enumerate().map(|(i, id)| (*id, i)).collect();
    (out, ids, back)
}

fn t_variant(v: &Variant) -> Verdict {
    let p = &v.pair;
    let (a, b) = models(p);
    let cfg = config(p);
    let ha = hashes(&a, p.hash, 0);
    let hb = hashes(&b, p.hash, 0);
    let base = run_v(&a, &b, &ha, &hb, (p.lay_a, p.lay_b), &cfg, 0)?;
    let same = |what: &str, o: &(MM, Vec<Op>)| -> Result<(), Fail> {
        ensure!(
            o.0.a2b == base.0.a2b,
            format!("{what}/matching"),
            "{what}: matching differs\n base: {:?}\n now:  {:?}",
            base.0.pairs,
            o.0.pairs
        );
        ensure!(
            o.1 == base.1,
            format!("{what}/script"),
            "{what}: script differs\n base: {:?}\n now:  {:?}",
            base.1,
            o.1
        );
        Ok(())
    };
    // repeated call
    same("second call", &run_v(&a, &b, &ha, &hb, (p.lay_a, p.lay_b), &cfg, 0)?)?;
    // another arena layout (both sides), with junk and removed nodes
    same("arena layout", &run_v(&a, &b, &ha, &hb, v.lay2, &cfg, 0)?)?;
    // other tree representations, mixed on the two sides
    same("custom tree for B", &run_v(&a, &b, &ha, &hb, v.lay2, &cfg, 1)?)?;
    same("custom tree for A", &run_v(&a, &b, &ha, &hb, v.lay2, &cfg, 2)?)?;
    same("custom trees", &run_v(&a, &b, &ha, &hb, v.lay2, &cfg, 3)?)?;
    // hashes renamed one-to-one
    let ren = |h: &[u64]| -> Vec<u64> {
        h.iter().map(|x| x.wrapping_mul(0x9E3779B97F4A7C15 | 1).rotate_left(v.salt % 64) ^ v.salt as u64).collect()
    };
    same("hash renaming", &run_v(&a, &b, &ren(&ha), &ren(&hb), v.lay2, &cfg, 0)?)?;
    // kinds renamed one-to-one
    let (a2, b2) = (relabel_kinds(&a, v.salt), relabel_kinds(&b, v.salt));
    let mut k = run_v(&a2, &b2, &ha, &hb, (p.lay_a, p.lay_b), &cfg, 0)?;
    for o in &mut k.1 {
        if let Op::Insert { b: i, kind, .. } = o {
            ensure!(*kind == b2.n[*i].kind, "kind renaming/insert", "Insert reports kind {kind}");
            *kind = b.n[*i].kind;
        }
    }
    same("kind renaming", &k)?;
    // the convenience entry points
    let (ta, tb) = (build(&a, &ha, p.lay_a), build(&b, &hb, p.lay_b));
    let o1 = translate(&diff_trees(&ta, &tb, &cfg), &ta.back, &tb.back)?;
    ensure!(o1 == base.1, "diff_trees", "diff_trees gives another script\n base: {:?}\n now: {o1:?}", base.1);
    let (o2, m2) = diff_trees_with_matching(&ta, &tb, &cfg);
    let o2 = translate(&o2, &ta.back, &tb.back)?;
    let m2 = read_matching(&m2, &ta.ids, &tb.ids, &ta.back, &tb.back)?;
    same("diff_trees_with_matching", &(m2, o2))?;
    // plain Tree, without the opacity wrapper
    if !a.n.iter().chain(&b.n).any(|n| n.opaque) {
        let (o3, m3) = diff_trees_with_matching(&ta.tree, &tb.tree, &cfg);
        let o3 = translate(&o3, &ta.back, &tb.back)?;
        let m3 = read_matching(&m3, &ta.ids, &tb.ids, &ta.back, &tb.back)?;
        same("plain Tree", &(m3, o3))?;
    }
    // trees whose nodes have neither properties nor text, of a type that says so
    let bare = |t: &MTree| {
        let mut t = t.clone();
        t.n.iter_mut().for_each(|n| (n.text, n.attrs, n.opaque) = (None, Attrs::default(), false));
        t
    };
    let (a3, b3) = (bare(&a), bare(&b));
    let base3 = run_v(&a3, &b3, &ha, &hb, (p.lay_a, p.lay_b), &cfg, 0)?;
    let (sa, sb) = (simple(&a3, &ha), simple(&b3, &hb));
    let (ops, m) = diff_trees_with_matching(&sa.0, &sb.0, &cfg);
    let m = read_matching(&m, &sa.1, &sb.1, &sa.2, &sb.2)?;
    let at = |b: &Back, id| b.get(&id).copied().unwrap_or(usize::MAX);
    let ops: Vec<Op> = ops
        .iter()
        .map(|o| match o {
                EditOp::Insert { node_b, parent_b, position, kind } => Op::Insert { b: at(&sb.2, *node_b), parent: at(&sb.2, *parent_b), pos: *position, kind: kind.0 },
                EditOp::Move { node_a, node_b, new_parent_b, new_position } => {
                    Op::Move { a: at(&sa.2, *node_a), b: at(&sb.2, *node_b), parent: at(&sb.2, *new_parent_b), pos: *new_position }
                }
                EditOp::Delete { node_a } => Op::Delete { a: at(&sa.2, *node_a) },
                _ => Op::Delete { a: usize::MAX },
            })
        .collect();
    ensure!(m.a2b == base3.0.a2b, "simple types/matching", "without properties and text: matching differs\n base: {:?}\n now:  {:?}", base3.0.pairs, m.pairs);
    ensure!(ops == base3.1, "simple types/script", "without properties and text: script differs\n base: {:?}\n now:  {ops:?}", base3.1);
    Ok(Pass::new(base.1.len() > 1)
        .label(base.1.is_empty(), "empty-script")
        .label(base.1.iter().filter(|o| matches!(o, Op::Move { .. })).count() > 1, "several-moves"))
}

// ------------------------------------------------------------ local edits (C10)

const LOCAL: [u8; 9] = [0, 1, 2, 3, 4, 6, 10, 13, 14];

/// Trees whose nodes all differ, one local edit, leaves included in hashing.
fn local_pair() -> BoxedStrategy<Pair> {
    adapt(50, |p| {
        p.prof.gates = 1;
        p.prof.opaque = 0;
        p.hash = 0;
        p.min_height = 1; // selects min_height 0
        p.thr = 0;
        let mut m = match &p.b {
            BSide::Mutated(m) => m.clone(),
            BSide::Independent(r) => {
                r.iter().map(|r| MutRec(r.1, r.0, r.0.rotate_left(5), r.0.rotate_left(9), r.2)).collect()
            }
        };
        m.truncate(1);
        for x in &mut m {
            x.0 = LOCAL[x.0 as usize % 9];
        }
        p.b = BSide::Mutated(m);
    })
}

fn local_models(p: &Pair) -> (MTree, MTree) {
    let (a, b) = models(p);
    (uniquify(&a), uniquify(&b))
}

fn t_local(p: &Pair) -> Verdict {
    let (a, b) = local_models(p);
    let r = run_models(a, b, 0, (p.lay_a, p.lay_b), &MatchingConfig { similarity_threshold: 0.5, min_height: 0 })?;
    let (a, b) = (&r.a, &r.b);
    // the script that a diff knowing the edit would produce
    let find_b = |id: u32| b.n.iter().position(|n| n.id == id);
    let mut want_ops = 0;
    for i in 0..a.len() {
        let w = find_b(a.n[i].id);
        ensure!(
            r.mm.a2b[i] == w,
            "identity",
            "after one local edit A node {i} is matched with {:?}, it is B node {w:?}",
            r.mm.a2b[i]
        );
        match w {
            None => want_ops += 1,
            Some(j) => {
                want_ops += (a.n[i].text != b.n[j].text) as usize;
                want_ops += (a.n[i].attrs != b.n[j].attrs) as usize;
                want_ops += (a.pos(i) != b.pos(j)) as usize;
            }
        }
    }
    want_ops += (0..b.len()).filter(|j| a.n.iter().all(|n| n.id != b.n[*j].id)).count();
    ensure!(r.ops.len() == want_ops, "op-count", "{} operations for one local edit, {want_ops} are needed: {:?}", r.ops.len(), r.ops);
    Ok(labels(&r, Pass::new(!r.ops.is_empty())).label(r.ops.len() == 1, "single-op"))
}

/// Only attributes change, hashes ignore attributes (hotmeal's convention).
fn attr_pair() -> BoxedStrategy<Pair> {
    adapt(50, |p| {
        p.prof.gates = 1;
        p.prof.opaque = 0;
        p.hash = 1;
        p.min_height = 1;
        let mut m = match &p.b {
            BSide::Mutated(m) => m.clone(),
            BSide::Independent(r) => {
                r.iter().map(|r| MutRec(r.1, r.0, r.0.rotate_left(5), r.0.rotate_left(9), r.2)).collect()
            }
        };
        for x in &mut m {
            x.0 = 1 + x.0 % 3;
        }
        p.b = BSide::Mutated(m);
    })
}

fn t_attr_only(p: &Pair) -> Verdict {
    let r = run_pair(p)?;
    let changed: Vec<usize> = (0..r.a.len()).filter(|&i| r.a.n[i].attrs != r.b.n[i].attrs).collect();
    ensure!(
        r.ops.len() == changed.len(),
        "op-count",
        "{} nodes changed attributes but the script has {} operations: {:?}",
        changed.len(),
        r.ops.len(),
        r.ops
    );
    for o in &r.ops {
        ensure!(
            matches!(o, Op::Props { a, b, .. } if a == b && changed.contains(a)),
            "other-op",
            "attribute-only edit produced {o:?}"
        );
    }
    Ok(labels(&r, Pass::new(!changed.is_empty())).label(changed.len() > 2, "several-nodes-changed"))
}

// -------------------------------------------------------------------- C15 / C16

fn t_survive(p: &Pair) -> Verdict {
    let r = run_pair(p)?;
    let mut n = 0;
    let mut moved = false;
    let mut count_a = std::collections::HashMap::new();
    let mut where_b: std::collections::HashMap<u64, Vec<usize>> = Default::default();
    for h in &r.ha {
        *count_a.entry(*h).or_insert(0) += 1;
    }
    for (i, h) in r.hb.iter().enumerate() {
        where_b.entry(*h).or_default().push(i);
    }
    for x in 0..r.a.len() {
        let Some(ys) = where_b.get(&r.ha[x]) else { continue };
        if count_a[&r.ha[x]] != 1 || ys.len() != 1 || r.a.height(x) < min_height(p.min_height) {
            continue;
        }
        let y = ys[0];
        let (mut u, mut v) = (x, y);
        let reachable = loop {
            match (r.a.n[u].parent, r.b.n[v].parent) {
                (None, None) => break true,
                (Some(s), Some(t)) => {
                    if r.a.n[s].kind != r.b.n[t].kind {
                        break false;
                    }
                    (u, v) = (s, t);
                }
                _ => break false,
            }
        };
        if !reachable {
            continue;
        }
        n += 1;
        moved |= r.a.pos(x) != r.b.pos(y) || r.a.n[x].parent.and_then(|q| r.mm.a2b[q]) != r.b.n[y].parent;
        let mut todo = vec![(x, y)];
        while let Some((u, v)) = todo.pop() {
            ensure!(r.mm.a2b[u] == Some(v), "lost", "unchanged subtree at A node {x} (B node {y}): its A node {u} is matched with {:?} instead of {v}", r.mm.a2b[u]);
            ensure!(
                !r.ops.iter().any(|o| matches!(o, Op::Delete { a } if *a == u) || matches!(o, Op::Insert { b, .. } if *b == v)),
                "rebuilt",
                "unchanged subtree at A node {x}: its A node {u} is deleted or inserted again"
            );
            todo.extend(r.a.n[u].children.iter().copied().zip(r.b.n[v].children.iter().copied()));
        }
    }
    Ok(labels(&r, Pass::new(n > 0 && !r.ops.is_empty())).label(moved, "carried-over-by-move"))
}

fn t_reuse(p: &Pair) -> Verdict {
    let r = run_pair(p)?;
    let (ia, ib) = (r.a.inside_opaque(), r.b.inside_opaque());
    let thr = threshold(p.thr);
    let mut near = false;
    for x in 1..r.a.len() {
        for y in 1..r.b.len() {
            let (s, t) = (r.a.n[x].parent.unwrap(), r.b.n[y].parent.unwrap());
            if r.mm.a2b[s] == Some(t) && r.a.pos(x) == r.b.pos(y) && r.mm.a2b[x] == Some(y) && r.ha[x] != r.hb[y] {
                near = true;
            }
            if ia[x]
                || ib[y]
                || r.mm.a2b[x].is_some()
                || r.mm.b2a[y].is_some()
                || r.a.n[x].kind != r.b.n[y].kind
                || r.a.n[x].opaque != r.b.n[y].opaque
            {
                continue;
            }
            let leaves = r.a.is_leaf(x) && r.b.is_leaf(y);
            let sim = sim_ok(&r.a, x, &r.b, y, thr);
            if r.mm.a2b[s] == Some(t) {
                ensure!(
                    !(r.a.pos(x) == r.b.pos(y) && sim),
                    "in-place",
                    "A node {x} is deleted and the similar B node {y} of the same kind inserted at the same place"
                );
                ensure!(
                    !(leaves && r.ha[x] == r.hb[y]),
                    "same-leaf",
                    "leaf A node {x} is deleted and the identical leaf B node {y} inserted under the same parent"
                );
            }
            if leaves
                && r.mm.a2b[s].is_none()
                && r.mm.b2a[t].is_none_or(|q| r.a.is_anc_or_self(q, x))
            {
                ensure!(
                    !(r.ha[x] == r.hb[y] || sim),
                    "orphan-leaf",
                    "leaf A node {x} of a deleted parent is deleted although the same leaf (B node {y}) is inserted elsewhere"
                );
            }
        }
    }
    // identical leaves that could both stay where they are
    let alike = |x: usize, y: usize| {
        let (n, m) = (&r.a.n[x], &r.b.n[y]);
        r.a.is_leaf(x) && r.b.is_leaf(y) && r.ha[x] == r.hb[y] && n.kind == m.kind && n.opaque == m.opaque && n.attrs == m.attrs && n.text == m.text
    };
    for x in 1..r.a.len() {
        let s = r.a.n[x].parent.unwrap();
        let (Some(y), Some(t)) = (r.mm.a2b[x], r.mm.a2b[s]) else { continue };
        if r.b.n[y].parent != Some(t) || !alike(x, y) {
            continue;
        }
        let (Some(&u), Some(&v)) = (r.a.n[s].children.get(r.b.pos(y)), r.b.n[t].children.get(r.a.pos(x))) else { continue };
        ensure!(
            u == x || r.mm.a2b[u] != Some(v) || !alike(x, v) || !alike(u, v) || !alike(u, y),
            "exchanged",
            "the identical leaves A node {x} and {u} are matched with B node {y} and {v}, each with the one at the other's place"
        );
    }
    Ok(labels(&r, Pass::new(near || !r.ops.is_empty())).label(near, "edited-in-place"))
}

// ------------------------------------------------------------------------- C18

/// What is matched away from its place, or not at all, is so by its content.
fn t_content(p: &Pair) -> Verdict {
    content(p, run_pair(p)?)
}
/// Distinct nodes, some of them moved and what is in them edited.
fn t_sections(p: &Pair) -> Verdict {
    let (a, b) = local_models(p);
    content(p, run_models(a, b, p.hash, (p.lay_a, p.lay_b), &config(p))?)
}
fn sections() -> BoxedStrategy<Pair> {
    adapt(60, |p| {
        p.prof.opaque = 0;
        p.prof.gates = 1;
        p.prof.shape = [3, 3, 0, 1][p.prof.shape as usize % 4];
        p.thr = [0, 0, 4, 4, 9, 0, 4, 5, 0, 9][p.thr as usize % 10];
        p.prof.kinds = 1 + p.prof.kinds % 2;
        p.prof.html = false;
        p.hash = 0;
        p.min_height = 1 + p.min_height % 3; // 0, 0 or 1
        let mut m = match &p.b {
            BSide::Mutated(m) => m.clone(),
            BSide::Independent(r) => r.iter().map(|r| MutRec(r.1, r.0, r.0.rotate_left(5), r.0.rotate_left(9), r.2)).collect(),
        };
        m.truncate(8);
        for x in &mut m {
            x.0 = [8, 8, 8, 10, 0, 6, 4, 14][x.0 as usize % 8];
        }
        p.b = BSide::Mutated(m);
    })
}
fn content(p: &Pair, r: Run) -> Verdict {
    let (a, b) = (&r.a, &r.b);
    let thr = threshold(p.thr);
    if thr <= 0.0 {
        return Ok(Pass::new(false));
    }
    let size = |t: &MTree| {
        let mut n = vec![1usize; t.len()];
        (1..t.len()).rev().for_each(|i| n[t.n[i].parent.unwrap()] += n[i]);
        n
    };
    let (na, nb) = (size(a), size(b));
    // pairs that lie in an identical subtree which is the only one on either side, in reach of each other
    let mut sure = vec![None; a.len()];
    let once = |h: &[u64]| {
        let mut m: std::collections::HashMap<u64, Vec<usize>> = Default::default();
        h.iter().enumerate().for_each(|(i, h)| m.entry(*h).or_default().push(i));
        m
    };
    let (ma, mb) = (once(&r.ha), once(&r.hb));
    for x in 0..a.len() {
        if ma[&r.ha[x]].len() != 1 || a.height(x) < min_height(p.min_height) {
            continue;
        }
        let Some([y]) = mb.get(&r.ha[x]).map(|v| &v[..]) else { continue };
        let (mut u, mut v) = (x, *y);
        let reachable = loop {
            match (a.n[u].parent, b.n[v].parent) {
                (None, None) => break a.n[u].kind == b.n[v].kind,
                (Some(s), Some(t)) if a.n[s].kind == b.n[t].kind => (u, v) = (s, t),
                _ => break false,
            }
        };
        if reachable {
            let mut todo = vec![(x, *y)];
            while let Some((u, v)) = todo.pop() {
                sure[u] = Some(v).filter(|v| r.mm.a2b[u] == Some(*v));
                todo.extend(a.n[u].children.iter().copied().zip(b.n[v].children.iter().copied()));
            }
        }
    }
    // how many nodes in x have a counterpart in y
    let common = |m: &[Option<usize>], x: usize, y: usize| -> usize {
        let mut n = 0;
        let mut todo = a.n[x].children.clone();
        while let Some(u) = todo.pop() {
            n += m[u].is_some_and(|v| v != y && b.is_anc_or_self(y, v)) as usize;
            todo.extend(a.n[u].children.iter().copied());
        }
        n
    };
    let fits = |x: usize, y: usize| {
        a.n[x].kind == b.n[y].kind
            && (x == 0) == (y == 0)
            && !b.is_leaf(y)
            && sim_ok(a, x, b, y, thr)
            && a.n[x].parent.is_none_or(|p| r.mm.a2b[p].is_none_or(|q| b.is_anc_or_self(q, y)))
            && b.n[y].parent.is_none_or(|p| r.mm.b2a[p].is_none_or(|q| a.is_anc_or_self(q, x)))
    };
    let (ia, ib) = (a.inside_opaque(), b.inside_opaque());
    let opaque = a.n.iter().chain(&b.n).any(|n| n.opaque);
    let (mut by_content, mut parted) = (0, 0);
    for x in 0..a.len() {
        // at least this share is carried over, whatever else is matched
        let least = |y: usize| 2.0 * common(&sure, x, y) as f64 / (na[x] + nb[y]) as f64;
        let others = || (0..b.len()).filter(|&y| r.mm.b2a[y].is_none() && !ib[y] && fits(x, y)).map(|y| (y, least(y)));
        let Some(y) = r.mm.a2b[x] else {
            if ia[x] || opaque {
                continue;
            }
            for (y, s) in others() {
                ensure!(s < thr, "lost", "A node {x} is deleted and B node {y} inserted although {s} of their content is the same, with a threshold of {thr}");
                parted += 1;
            }
            continue;
        };
        let in_place = match (a.n[x].parent, b.n[y].parent) {
            (None, None) => true,
            (Some(s), Some(t)) => r.mm.a2b[s] == Some(t) && a.pos(x) == b.pos(y),
            _ => false,
        };
        if in_place || r.ha[x] == r.hb[y] || (a.n[x].opaque && b.n[y].opaque) || (a.is_leaf(x) && b.is_leaf(y)) {
            continue;
        }
        by_content += 1;
        let score = 2.0 * common(&r.mm.a2b, x, y) as f64 / (na[x] + nb[y] - 2) as f64;
        ensure!(score >= thr, "strangers", "A node {x} is matched with B node {y} elsewhere, with {score} of their content matched and a threshold of {thr}");
        if opaque {
            continue;
        }
        for (z, s) in others() {
            ensure!(s <= score, "second-best", "A node {x} is matched with B node {y}, {score} of their content matched, although B node {z} is free and has {s}");
        }
    }
    Ok(labels(&r, Pass::new(by_content > 0 || parted > 0))
        .label(by_content > 0, "by-content")
        .label(by_content > 2, "several-by-content")
        .label(parted > 0, "too-different"))
}

// ------------------------------------------------------------------- dispatch

const RULE: &str = "tree A from a node recipe (0..40 nodes, now and then 100..700; random, deep, wide or local parents; 1..4 kinds; text, \
ordered attributes, dissimilarity gates, opaque nodes), tree B = A after 0..12 mutations out of 17 kinds or an \
independent tree; Merkle hashes with or without attributes, min_height in {0,1,2,3,50}, threshold in \
{0,.3,.4,.5,.7,1}, arena layout pre-order / breadth-first / shuffled with junk";

pub fn run(ctx: &Ctx) {
    let rule = |nt: &str| format!("{RULE}; non-trivial: {nt}");
    match ctx.id.as_str() {
        "C01" => {
            ctx.campaign(
                "pairs",
                &rule("roots matched and the script not empty"),
                ctx.cases(600_000, 30_000_000),
                || pair(40),
                |p: &Pair| {
                    let r = run_pair(p)?;
                    let same_root = r.a.n[0].kind == r.b.n[0].kind && sim_ok(&r.a, 0, &r.b, 0, threshold(p.thr));
                    ensure!(
                        rooted(&r) || !same_root,
                        "roots",
                        "the roots are of the same kind and similar but not matched: no script can give the new tree"
                    );
                    if rooted(&r) {
                        check_final(&r.a, &r.b, &r.mm, &r.ops, true)?;
                    }
                    Ok(labels(&r, Pass::new(rooted(&r) && !r.ops.is_empty())))
                },
                explain_pair,
            );
            let t = |r: &Run| {
                ensure!(rooted(r), "roots", "roots of the same kind are not matched");
                check_final(&r.a, &r.b, &r.mm, &r.ops, true)?;
                Ok(Pass::new(!r.ops.is_empty()))
            };
            small_space(ctx, "small-3-labels", if ctx.thorough { 5 } else { 4 }, 3, t);
            small_space(ctx, "small-2-labels", if ctx.thorough { 6 } else { 5 }, 2, t);
        }
        "C02" => {
            let t = |r: &Run| {
                let s = replay(&r.a, &r.b, &r.mm, &r.ops, true)?;
                Ok(Pass::new(s.displaced + s.gaps > 0)
                    .label(s.displaced > 0, "displacement")
                    .label(s.gaps > 0, "gap-filled")
                    .label(s.displaced > 2, "over-2-displaced"))
            };
            ctx.campaign(
                "pairs",
                &rule("replaying the script displaced a node or filled a gap"),
                ctx.cases(600_000, 30_000_000),
                || pair(40),
                |p: &Pair| {
                    let r = run_pair(p)?;
                    if !rooted(&r) {
                        return Ok(labels(&r, Pass::new(false)));
                    }
                    let v = t(&r)?;
                    let l = v.labels.clone();
                    let mut p = labels(&r, v);
                    p.labels.extend(l.into_iter().filter(|_| false));
                    Ok(p)
                },
                explain_pair,
            );
            small_space(ctx, "small-3-labels", if ctx.thorough { 5 } else { 4 }, 3, t);
            small_space(ctx, "small-2-labels", if ctx.thorough { 6 } else { 5 }, 2, t);
        }
        "C03" => {
            ctx.campaign(
                "same",
                &rule("at least two nodes; B is A, rebuilt in another arena layout"),
                ctx.cases(600_000, 20_000_000),
                || {
                    (adapt(60, |p| p.b = BSide::Mutated(vec![])), 0u8..6)
                        .prop_map(|(mut p, h)| {
                            p.hash = h;
                            p
                        })
                },
                |p: &Pair| {
                    let (a, b) = models(p);
                    let ha = hashes(&a, p.hash, 5);
                    let (ta, tb) = (build(&a, &ha, p.lay_a), build(&b, &ha, p.lay_b));
                    let (ops, m) = diff_trees_with_matching(&ta, &tb, &config(p));
                    let mm = read_matching(&m, &ta.ids, &tb.ids, &ta.back, &tb.back)?;
                    let ops = translate(&ops, &ta.back, &tb.back)?;
                    ensure!(ops.is_empty(), "not-empty", "diff of a tree with itself has operations: {ops:?}");
                    // Whatever is matched is matched with its own copy, and only
                    // nodes inside opaque content are left out.
                    let ia = a.inside_opaque();
                    for i in 0..a.len() {
                        let want = if ia[i] { None } else { Some(i) };
                        ensure!(mm.a2b[i] == want, "not-identity", "node {i} is matched with {:?}", mm.a2b[i]);
                    }
                    Ok(Pass::new(a.len() > 1)
                        .label(a.len() > 20, "over-20-nodes")
                        .label(p.hash >= 2, "colliding-hashes")
                        .label(a.height(0) < min_height(p.min_height), "hash-phase-disabled")
                        .label(a.n.iter().any(|n| n.opaque), "has-opaque"))
                },
                explain_pair,
            );
        }
        "C04" => {
            let t = |r: &Run, thr: Option<f64>| {
                check_one_to_one(&r.mm, r.len, r.empty)?;
                for &(x, y) in &r.mm.pairs {
                    ensure!(
                        r.a.n[x].kind == r.b.n[y].kind,
                        "kind",
                        "A node {x} of kind {} matched with B node {y} of kind {}",
                        r.a.n[x].kind,
                        r.b.n[y].kind
                    );
                }
                let _ = thr;
                Ok(Pass::new(r.mm.pairs.len() > 1))
            };
            ctx.campaign(
                "pairs",
                &rule("at least two matched pairs and a non-empty script"),
                ctx.cases(600_000, 30_000_000),
                || pair(60),
                |p: &Pair| {
                    let r = run_pair(p)?;
                    let v = t(&r, None)?;
                    Ok(labels(&r, Pass::new(v.nontrivial && !r.ops.is_empty())))
                },
                explain_pair,
            );
            small_space(ctx, "small-3-labels", if ctx.thorough { 5 } else { 4 }, 3, |r| t(r, None));
        }
        "C05" => {
            let t = |r: &Run| {
                check_exact(&r.a, &r.b, &r.mm, &r.ops)?;
                Ok(Pass::new(!r.ops.is_empty()))
            };
            ctx.campaign(
                "pairs",
                &rule("the script is not empty and some matched node needs no operation"),
                ctx.cases(600_000, 30_000_000),
                || pair(40),
                |p: &Pair| {
                    let r = run_pair(p)?;
                    t(&r)?;
                    let touched: std::collections::HashSet<usize> = r
                        .ops
                        .iter()
                        .filter_map(|o| match o {
                            Op::Move { a, .. } | Op::Text { a, .. } | Op::Props { a, .. } => Some(*a),
                            _ => None,
                        })
                        .collect();
                    Ok(labels(&r, Pass::new(!r.ops.is_empty() && touched.len() < r.mm.pairs.len())))
                },
                explain_pair,
            );
            small_space(ctx, "small-3-labels", if ctx.thorough { 5 } else { 4 }, 3, t);
        }
        "C06" => {
            ctx.campaign(
                "supplied-matching",
                &rule("plus a random kind- and opacity-preserving one-to-one matching containing the root pair, pairs in \
                       random order; non-trivial: at least one parent-changing or position-changing Move"),
                ctx.cases(500_000, 20_000_000),
                || supplied(40),
                |s: &Supplied| {
                    let (a, b) = models(&s.pair);
                    let (ra, rb) = (&a.n[0], &b.n[0]);
                    if (ra.kind, ra.attrs.gate, ra.opaque) != (rb.kind, rb.attrs.gate, rb.opaque) {
                        // the root pair would not be a valid match
                        return Ok(Pass::new(false));
                    }
                    let r = run_supplied(s)?;
                    check_exact(&r.a, &r.b, &r.mm, &r.ops)?;
                    check_final(&r.a, &r.b, &r.mm, &r.ops, true)?;
                    let st = replay(&r.a, &r.b, &r.mm, &r.ops, true)?;
                    // the reverse diff under the reverse matching
                    let im = MM {
                        a2b: r.mm.b2a.clone(),
                        b2a: r.mm.a2b.clone(),
                        pairs: r.mm.pairs.iter().map(|&(x, y)| (y, x)).collect(),
                    };
                    check_exact(&r.b, &r.a, &im, &r.inverse)?;
                    check_final(&r.b, &r.a, &im, &r.inverse, true)?;
                    let c = |o: &[Op], f: fn(&Op) -> bool| o.iter().filter(|x| f(x)).count();
                    let (i1, d1) = (
                        c(&r.ops, |o| matches!(o, Op::Insert { .. })),
                        c(&r.ops, |o| matches!(o, Op::Delete { .. })),
                    );
                    let (i2, d2) = (
                        c(&r.inverse, |o| matches!(o, Op::Insert { .. })),
                        c(&r.inverse, |o| matches!(o, Op::Delete { .. })),
                    );
                    ensure!(i1 == d2 && d1 == i2, "duality", "{i1} inserts/{d1} deletes forward, {i2}/{d2} backward");
                    let inverted = r.mm.pairs.iter().any(|&(x, y)| {
                        r.a.n[x].parent.and_then(|p| r.mm.a2b[p]).is_some_and(|q| q != y && r.b.is_anc_or_self(y, q))
                    });
                    let mv = c(&r.ops, |o| matches!(o, Op::Move { .. }));
                    Ok(Pass::new(mv > 0)
                        .label(mv > 0, "has-move")
                        .label(mv > 5, "over-5-moves")
                        .label(inverted, "ancestor-descendant-inverted")
                        .label(st.displaced > 0, "displacement")
                        .label(st.gaps > 0, "gap-filled")
                        .label(r.a.n.iter().chain(&r.b.n).any(|n| n.opaque), "has-opaque"))
                },
                explain_supplied,
            );
        }
        "C07" => {
            ctx.campaign(
                "opaque",
                &rule("some opaque node has content on both sides and the script is not empty"),
                ctx.cases(600_000, 20_000_000),
                || {
                    adapt(40, |p| {
                        p.prof.opaque = 2 + p.prof.opaque % 6;
                    })
                },
                |p: &Pair| {
                    let r = run_pair(p)?;
                    let (ia, ib) = (r.a.inside_opaque(), r.b.inside_opaque());
                    for &(x, y) in &r.mm.pairs {
                        ensure!(!ia[x], "match-inside", "pair ({x},{y}): A node {x} lies inside an opaque node");
                        ensure!(!ib[y], "match-inside", "pair ({x},{y}): B node {y} lies inside an opaque node");
                    }
                    for o in &r.ops {
                        let (oa, ob) = match o {
                            Op::Text { a, b, .. } | Op::Props { a, b, .. } | Op::Move { a, b, .. } => (Some(*a), Some(*b)),
                            Op::Insert { b, .. } => (None, Some(*b)),
                            Op::Delete { a } => (Some(*a), None),
                        };
                        ensure!(
                            !oa.is_some_and(|a| ia[a]) && !ob.is_some_and(|b| ib[b]),
                            "edit-inside",
                            "{o:?} edits the content of an opaque node"
                        );
                        if let Op::Insert { parent, .. } | Op::Move { parent, .. } = o {
                            ensure!(
                                !ib[*parent] && !r.b.n[*parent].opaque,
                                "target-inside",
                                "{o:?} places a node inside an opaque node"
                            );
                        }
                    }
                    // With content cut off at opaque nodes the script is still right.
                    if rooted(&r) {
                        check_final(&r.a, &r.b, &r.mm, &r.ops, true)?;
                        replay(&r.a, &r.b, &r.mm, &r.ops, true)?;
                    }
                    let ca = (0..r.a.len()).any(|i| ia[i]);
                    let cb = (0..r.b.len()).any(|i| ib[i]);
                    if let Some((x, y)) =
                        r.mm.pairs.iter().find(|&&(x, y)| (x, y) != (0, 0) && r.a.n[x].opaque != r.b.n[y].opaque)
                    {
                        ensure!(false, "uneven", "A node {x} is matched with B node {y}, and only one of them is opaque");
                    }
                    let uneven = (1..r.a.len()).any(|x| {
                        r.a.n[x].opaque
                            && (1..r.b.len()).any(|y| !r.b.n[y].opaque && r.a.n[x].kind == r.b.n[y].kind && r.ha[x] == r.hb[y])
                    });
                    Ok(labels(&r, Pass::new(ca && cb && !r.ops.is_empty()))
                        .label(uneven, "opaque-and-plain-twins")
                        .label(
                            r.mm.pairs.iter().any(|&(x, y)| r.a.n[x].opaque && r.ha[x] != r.hb[y]),
                            "opaque-content-changed",
                        ))
                },
                explain_pair,
            );
        }
        "C08" => {
            ctx.campaign(
                "gated",
                &rule("a dissimilar same-kind candidate exists somewhere"),
                ctx.cases(600_000, 30_000_000),
                || {
                    adapt(40, |p| {
                        p.prof.gates = 1 + p.prof.gates % 3;
                        p.prof.attrs = p.prof.attrs.max(2);
                    })
                },
                |p: &Pair| {
                    let r = run_pair(p)?;
                    let thr = threshold(p.thr);
                    for &(x, y) in &r.mm.pairs {
                        ensure!(
                            r.ha[x] == r.hb[y]
                                || sim_ok(&r.a, x, &r.b, y, thr)
                                || r.a.n[x].opaque
                                || r.b.n[y].opaque,
                            "dissimilar",
                            "A node {x} and B node {y} differ, have similarity {} < {thr}, and are matched",
                            r.a.n[x].attrs.similarity(&r.b.n[y].attrs)
                        );
                    }
                    let tempting = (1..r.a.len()).any(|x| {
                        (1..r.b.len()).any(|y| r.a.n[x].kind == r.b.n[y].kind && !sim_ok(&r.a, x, &r.b, y, thr))
                    });
                    Ok(labels(&r, Pass::new(tempting)).label(tempting, "dissimilar-candidate"))
                },
                explain_pair,
            );
        }
        "C09" => {
            let t = |r: &Run, thr: f64| {
                let sim = sim_ok(&r.a, 0, &r.b, 0, thr);
                if r.a.n[0].kind == r.b.n[0].kind && sim {
                    ensure!(rooted(r), "roots", "roots of the same kind and similar properties are not matched");
                }
                for &(x, y) in &r.mm.pairs {
                    ensure!((x == 0) == (y == 0), "root-with-inner", "a root is matched with an inner node: ({x},{y})");
                }
                let mut outside = false;
                for &(x, y) in &r.mm.pairs {
                    let Some(q) = r.a.n[x].parent.and_then(|p| r.mm.a2b[p]) else { continue };
                    let inside = q != y && r.b.is_anc_or_self(q, y);
                    outside |= !inside;
                    let twin = r.ha[x] == r.hb[y] || r.a.n[x].opaque || r.b.n[y].opaque;
                    ensure!(
                        inside || (twin && r.a.depth(x) == r.b.depth(y)),
                        "cross-level",
                        "A node {x} is matched with B node {y}, outside B node {q} which its parent is matched with"
                    );
                }
                Ok(Pass::new(!r.ops.is_empty()).label(outside, "same-depth-twin-elsewhere"))
            };
            ctx.campaign(
                "pairs",
                &rule("the script is not empty"),
                ctx.cases(600_000, 30_000_000),
                || pair(40),
                |p: &Pair| {
                    let r = run_pair(p)?;
                    let v = t(&r, threshold(p.thr))?;
                    Ok(labels(&r, v))
                },
                explain_pair,
            );
            small_space(ctx, "small-3-labels", if ctx.thorough { 5 } else { 4 }, 3, |r| t(r, 0.5));
            small_space(ctx, "small-2-labels", if ctx.thorough { 6 } else { 5 }, 2, |r| t(r, 0.5));
        }
        "C10" => {
            ctx.campaign(
                "one-local-edit",
                "tree of 1..50 nodes with pairwise different content; one edit: text, attribute set/removed/reordered, \
                 subtree deleted, leaf inserted, siblings swapped/rotated/reversed, children cleared; min_height 0, \
                 threshold 0.5; non-trivial: the edit changed something",
                ctx.cases(500_000, 20_000_000),
                local_pair,
                t_local,
                |p: &Pair| {
                    let (a, b) = local_models(p);
                    show(&a, &b, &MatchingConfig { similarity_threshold: 0.5, min_height: 0 }, 0, (p.lay_a, p.lay_b))
                },
            );
            ctx.campaign(
                "attributes-only",
                "arbitrary tree (repeated content allowed), any number of attribute edits, hashes that ignore \
                 attributes, min_height 0; non-trivial: some node's attributes changed",
                ctx.cases(400_000, 15_000_000),
                attr_pair,
                t_attr_only,
                explain_pair,
            );
        }
        "C11" => {
            ctx.campaign(
                "variants",
                &rule("diffed 9 ways: again, other arena layouts, other DiffTree implementations on either side, hashes \
                       and kinds renamed one-to-one, each public entry point; non-trivial: more than one operation"),
                ctx.cases(150_000, 6_000_000),
                || {
                    (pair(40), any::<(u32, u32)>(), any::<u32>())
                        .prop_map(|(pair, lay2, salt)| Variant { pair, lay2, salt })
                },
                t_variant,
                |v: &Variant| explain_pair(&v.pair),
            );
        }
        "C14" => {
            ctx.campaign(
                "hostile",
                "as the pair generator with up to 90 nodes, hashes Merkle / reduced to 2 bits / arbitrary / constant / \
                 shape-only, thresholds NaN, -1, inf, 0, 1.5, tiny, min_height 0..usize::MAX; non-trivial: hashes collide \
                 by construction or the threshold is not 0.5",
                ctx.cases(250_000, 10_000_000),
                hostile,
                t_hostile,
                |h: &Hostile| {
                    let (a, b) = models(&h.pair);
                    show(&a, &b, &hostile_cfg(h), h.hash, (h.pair.lay_a, h.pair.lay_b))
                },
            );
            ctx.campaign(
                "huge",
                "chains, lists, combs, binary trees and mixtures of 200 to 4000 nodes with repeated or distinct texts and up to \
                 four edits, on a thread with a 2 MiB stack; non-trivial: the script is not empty",
                ctx.cases(300, 12_000),
                huge,
                t_huge,
                |h: &Huge| format!("{h:?}"),
            );
            ctx.campaign(
                "abyss",
                "chains, combs and chains that end in a list, 15,000 to 25,000 levels deep, equal or different at the root, on a thread with a \
                 2 MiB stack; non-trivial: the script is not empty",
                ctx.cases(32, 600),
                abyss,
                t_huge,
                |h: &Huge| format!("{h:?}"),
            );
        }
        "C15" => {
            ctx.campaign(
                "unique-subtrees",
                &rule("a subtree occurring once in each tree, same depth, same kinds above it, at least min_height high, \
                       and a non-empty script"),
                ctx.cases(600_000, 20_000_000),
                || {
                    adapt(40, |p| {
                        p.prof.opaque = 0;
                        p.prof.texts = p.prof.texts.saturating_mul(8);
                        if p.lay_a % 3 == 0 {
                            p.min_height = 1;
                        }
                    })
                },
                t_survive,
                explain_pair,
            );
        }
        "C16" => {
            ctx.campaign(
                "reuse",
                &rule("a node was edited in place or the script is not empty"),
                ctx.cases(500_000, 20_000_000),
                || pair(32),
                t_reuse,
                explain_pair,
            );
        }
        "C18" => {
            ctx.campaign(
                "content",
                &rule("a node matched away from its place, or two unmatched ones that could have been but for their content"),
                ctx.cases(400_000, 15_000_000),
                || {
                    adapt(40, |p| {
                        if p.lay_b % 8 > 0 {
                            p.prof.opaque = 0;
                        }
                        p.prof.texts = p.prof.texts.saturating_mul(8);
                        if p.lay_a % 3 > 0 {
                            p.min_height = 1;
                        }
                    })
                },
                t_content,
                explain_pair,
            );
            ctx.campaign(
                "sections",
                &rule("as content, all nodes distinct, up to 8 of them moved, swapped, edited, added or removed"),
                ctx.cases(400_000, 15_000_000),
                sections,
                t_sections,
                |p: &Pair| {
                    let (a, b) = local_models(p);
                    show(&a, &b, &config(p), p.hash, (p.lay_a, p.lay_b))
                },
            );
        }
        #[cfg(feature = "instr")]
        "C17" => {
            crate::diag::install_subscriber();
            ctx.campaign(
                "diagnostics",
                &rule("at least one similarity comparison was counted"),
                ctx.cases(100_000, 4_000_000),
                || pair(32),
                crate::diag::t_instr,
                explain_pair,
            );
        }
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(2);
        }
    }
}

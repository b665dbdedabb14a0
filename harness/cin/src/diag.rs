//! C17: the diagnostics features of cinereus do not change its results.
use crate::checks::{labels, run_pair};
use crate::plain::model::*;
use engine::{Pass, Verdict, ensure};

pub fn install_subscriber() {
    let _ = tracing::subscriber::set_global_default(Sub);
}

struct Sub;
impl tracing::Subscriber for Sub {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        struct V(usize);
        impl tracing::field::Visit for V {
            fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
                self.0 += format!("{v:?}").len();
            }
        }
        let mut v = V(0);
        e.record(&mut v);
        std::hint::black_box(v.0);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

pub fn t_instr(p: &Pair) -> Verdict {
    use crate::instr::{ci, model as im, oracle as io};
    let base = run_pair(p)?;
    // same recipe through the instrumented build's copy of the harness types
    let js = serde_json_pair(p);
    let (a, b) = im::models(&js);
    let (ha, hb) = (im::hashes(&a, p.hash, 0), im::hashes(&b, p.hash, 0));
    let (ta, tb) = (im::build(&a, &ha, p.lay_a), im::build(&b, &hb, p.lay_b));
    ci::reset_stats();
    let (ops, m) = ci::diff_trees_with_matching(&ta, &tb, &im::config(&js));
    let (calls, _, _) = ci::get_stats();
    let mm = io::read_matching(&m, &ta.ids, &tb.ids, &ta.back, &tb.back)?;
    let ops = io::translate(&ops, &ta.back, &tb.back)?;
    ensure!(
        mm.pairs == base.mm.pairs,
        "matching",
        "with diagnostics on the matching is {:?}, without {:?}",
        mm.pairs,
        base.mm.pairs
    );
    let (x, y) = (format!("{ops:?}"), format!("{:?}", base.ops));
    ensure!(x == y, "script", "with diagnostics on the script is {x}, without {y}");
    Ok(labels(&base, Pass::new(calls > 0)).label(calls > 3, "several-comparisons"))
}

fn serde_json_pair(p: &Pair) -> crate::instr::model::Pair {
    use crate::instr::model as im;
    im::Pair {
        prof: im::Prof {
            kinds: p.prof.kinds,
            texts: p.prof.texts,
            shape: p.prof.shape,
            attrs: p.prof.attrs,
            gates: p.prof.gates,
            opaque: p.prof.opaque,
            root_unique: p.prof.root_unique,
            html: p.prof.html,
        },
        a: p.a.iter().map(|r| im::NodeRec(r.0, r.1, r.2, r.3.clone(), r.4)).collect(),
        b: match &p.b {
            BSide::Mutated(m) => im::BSide::Mutated(m.iter().map(|m| im::MutRec(m.0, m.1, m.2, m.3, m.4)).collect()),
            BSide::Independent(r) => {
                im::BSide::Independent(r.iter().map(|r| im::NodeRec(r.0, r.1, r.2, r.3.clone(), r.4)).collect())
            }
        },
        hash: p.hash,
        min_height: p.min_height,
        thr: p.thr,
        lay_a: p.lay_a,
        lay_b: p.lay_b,
    }
}


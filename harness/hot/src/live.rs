//! The browser client's live reload: connections that fail, end and come back,
//! in virtual time, with the events of the server in between (W05).
use crate::checks::*;
use crate::model::*;
use crate::wasm::*;
use engine::proptest::prelude::*;
use engine::{Ctx, Pass, Verdict, ensure, fail};
use hotmeal::Patch;
use hotmeal_server::LiveReloadEvent as Ev;
use hotmeal_wasm_live as _;
use roam_session::sim::{self, Did, Plan};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::JsValue;
use web_sys::fake;

unsafe extern "Rust" {
    #[link_name = "js_start_live_reload"]
    fn start_live_reload(ws_url: &str, mount_selector: &str) -> Result<(), JsValue>;
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sess {
    /// 0: refused, 1: no handshake, else connected
    pub how: u8,
    pub before: u8,
    /// 0: subscription refused, 1: no answer, else accepted
    pub answer: u8,
    pub events: Vec<u8>,
    pub ends_well: bool,
    pub slow: u8,
    pub pause: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Live {
    pub web: Web<Hist>,
    pub sessions: Vec<Sess>,
    pub order: Vec<u8>,
    pub path: Option<String>,
    /// 0: body, 1: an element, 2: an element that is not there, 3: no selector
    pub mount: u8,
    pub url: String,
}
fn live() -> BoxedStrategy<Live> {
    let sess = (prop_oneof![1 => Just(0u8), 1 => Just(1u8), 3 => Just(2u8)], 0u8..4, prop_oneof![1 => Just(0u8), 1 => Just(1u8), 6 => Just(2u8)], prop::collection::vec(any::<u8>(), 0..5), any::<bool>(), 0u8..3, prop_oneof![Just(0u16), 1u16..300, Just(20_000u16)])
        .prop_map(|(how, before, answer, events, ends_well, slow, pause)| Sess { how, before, answer, events, ends_well, slow, pause });
    let dead = (0u8..2, 5usize..12).prop_map(|(how, n)| vec![Sess { how, before: 0, answer: 0, events: vec![], ends_well: true, slow: 0, pause: 0 }; n]);
    let sessions = prop_oneof![
        6 => prop::collection::vec(sess.clone(), 0..6),
        // a server that stays away for long
        1 => (prop::collection::vec(sess.clone(), 0..3), dead, prop::collection::vec(sess, 0..3)).prop_map(|(mut a, b, c)| {
            a.extend(b);
            a.extend(c);
            a
        }),
    ];
    let path = prop_oneof![1 => Just(None), 6 => prop::sample::select(vec!["/", "/guide/", "/a%20b", "/é", "/index.html", ""]).prop_map(|p| Some(p.to_string()))];
    let url = prop::sample::select(vec!["ws://localhost:8000/_/ws", "wss://example.org/x", ""]).prop_map(String::from);
    (web(hist(Gen { tags: 0, opaque: 0, size: 12 })), sessions, prop::collection::vec(any::<u8>(), 0..6), path, prop_oneof![4 => Just(0u8), 4 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)], url)
        .prop_map(|(web, sessions, order, path, mount, url)| Live { web, sessions, order, path, mount, url })
        .boxed()
}
fn w05(l: &Live) -> Verdict {
    let mount = l.mount % 4;
    let w = states(&l.web, if mount == 0 { hist_srcs } else { hist_bodies });
    let srcs: Vec<String> = w.p.iter().map(|s| w.src(s)).collect();
    with_src(&srcs, false, |d| {
        if d.iter().any(|d| !has_body(&d())) {
            return Ok(Pass::new(false));
        }
        let page = |i: usize| {
            let b = body_of(&d[i]()).unwrap();
            norm(&if mount == 0 { b } else { page_around(b.kids().to_vec()) }, true)
        };
        let now = move || norm(&if mount == 0 { fake::body().map_or(N::D(vec![]), |b| read(&b)) } else { read(&fake::root()) }, true);
        if mount == 0 {
            load(&d[0](), w.strict);
        } else {
            fake::open(&spec(&page_around(body_of(&d[0]()).unwrap().kids().to_vec())), w.strict, hooks());
        }
        fake::set_path(l.path.as_deref());
        let selector = ["body", "#mount", "#nowhere", "<>"][mount as usize];
        // what is to happen
        let (mut at, mut wait, mut i, mut reloads) = (0u64, 100u64, 0, 0);
        let (mut plans, mut want, mut seen, mut steps) = (vec![], vec![], vec![], 0);
        for s in &l.sessions {
            let (connects, shakes) = (s.how > 0, s.how > 1);
            let answer = (s.answer != 1).then_some(s.answer > 1);
            let mut events: Vec<sim::Args> = vec![];
            want.push(Did::Connect { url: l.url.clone(), at });
            if connects && shakes {
                let args = l.path.clone().unwrap_or("/".into());
                want.push(Did::Call { method: "subscribe".into(), args, at });
                for e in &s.events {
                    let e = match e % 8 {
                        0 => Ev::Reload,
                        1 => Ev::HeadChanged { route: "/guide/".into() },
                        2 => Ev::Patches { route: "/".into(), patches_blob: vec![3, 0xff] },
                        3 => Ev::Patches { route: "/".into(), patches_blob: vec![] },
                        _ if i + 1 < d.len() => {
                            let patches: Vec<Patch<'static>> = diff(&d[i](), &d[i + 1]())?.into_iter().map(|p| p.into_owned()).collect();
                            i += 1;
                            match facet_postcard::to_vec(&patches) {
                                Ok(patches_blob) => {
                                    steps += !patches.is_empty() as usize;
                                    Ev::Patches { route: "/".into(), patches_blob }
                                }
                                Err(e) => return fail("encode", format!("{e:?}")),
                            }
                        }
                        _ => continue,
                    };
                    reloads += matches!(e, Ev::Reload | Ev::HeadChanged { .. }) as usize;
                    seen.push((page(if mount < 2 { i } else { 0 }), reloads, e.clone()));
                    events.push(Rc::new(move || Box::new((e.clone(),))));
                }
            }
            // a subscription that is refused ends the connection then
            let pause = if answer == Some(false) { 0 } else { s.pause as u64 };
            if connects && shakes {
                at += pause * (events.len().saturating_sub(s.before as usize) as u64 + 1);
            }
            want.push(Did::Ended { at });
            if connects && shakes && answer == Some(true) {
                wait = 100;
            }
            at += wait;
            wait = (wait * 2).min(5000);
            plans.push(Plan { connects, shakes, before: s.before as usize, answer, events, ends_well: s.ends_well, pause, slow: s.slow });
        }
        want.push(Did::Connect { url: l.url.clone(), at });
        let got: Rc<RefCell<Vec<(N, usize)>>> = Rc::default();
        let note = got.clone();
        let started = RefCell::new(Ok(()));
        let did = sim::run(plans, &l.order, Rc::new(move || note.borrow_mut().push((now(), fake::reloads()))), || {
            *started.borrow_mut() = unsafe { start_live_reload(&l.url, selector) };
        });
        ensure!(started.borrow().is_ok(), "start", "start_live_reload: {:?}", started.borrow());
        ensure!(did == want, "connections", "the client did\n{did:#?}\nexpected\n{want:#?}");
        for (k, (got, (page, reloads, e))) in got.borrow().iter().zip(&seen).enumerate() {
            ensure!(got.1 == *reloads, "reloads", "after event {k} ({e:?}) the page was loaded anew {} times, expected {reloads}", got.1);
            ensure!(got.0 == *page, "page", "after event {k} ({e:?}) the page is\n{}\nexpected\n{}", got.0.show(), page.show());
        }
        ensure!(got.borrow().len() == seen.len(), "events", "{} of {} events were handled", got.borrow().len(), seen.len());
        let on = l.sessions.iter().filter(|s| s.how > 1).count();
        Ok(Pass::new(l.sessions.len() > 1 && steps > 0 && mount < 2)
            .label(on > 1 && steps > 1, "several connections with patches")
            .label(wait == 5000, "longest wait")
            .label(reloads > 0, "reload")
            .label(mount > 1, "no mount point"))
    })
}
fn explain(l: &Live) -> String {
    let w = states(&l.web, if l.mount.is_multiple_of(4) { hist_srcs } else { hist_bodies });
    w.p.iter().enumerate().map(|(i, s)| format!("state {i}: {:?}\n", w.src(s))).collect()
}

pub fn run(ctx: &Ctx) {
    ctx.campaign(
        "connections",
        "a page, its later states, and 0..14 connections, each refused, without handshake, or taken; subscriptions accepted, \
         refused or unanswered; 0..4 events on each (the patches to the next state, patches that do not decode, reloads, head changes), \
         before and after the answer; tasks in any order; non-trivial: at least two connections and one step of patches that have a mount point",
        ctx.cases(40_000, 1_500_000),
        live,
        w05,
        explain,
    );
}

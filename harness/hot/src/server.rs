//! hotmeal-server: the cache (S01), what clients see (S02), injection into
//! pages (S03), events on the wire (S04), the loader script (S05).
use crate::checks::{Hist, SoupHist, apply_all, hist, same_body, soup_hist, t, with_src};
use crate::model::*;
use crate::parse::raw;
use engine::proptest::prelude::*;
use engine::{Ctx, Pass, Verdict, ensure};
use hotmeal::{Document, Patch};
use hotmeal_server::{LiveReloadEvent as Ev, LiveReloadServer, inject_into_head, loader_script};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

fn unmark(s: String) -> String {
    crate::model::unmark(&s)
}
const ROUTES: [&str; 4] = ["/", "/a", "/a/", ""];
const HEADS: [&str; 4] = ["", "<link rel=a>", "<link rel=b>", " "];
fn same(a: &Document, b: &Document) -> bool {
    match (body_of(a), body_of(b)) {
        (Some(x), Some(y)) => x == y,
        (Some(x), None) | (None, Some(x)) => x.is_bare(),
        (None, None) => true,
    }
}
fn decode(blob: &[u8]) -> Result<Vec<Patch<'static>>, engine::Fail> {
    match facet_postcard::from_slice(blob) {
        Ok(p) => Ok(p),
        Err(e) => engine::fail("undecodable", format!("the patches of an event cannot be decoded: {e:?}")),
    }
}
/// Over the wire and back.
fn sent(e: &Ev) -> Result<Ev, engine::Fail> {
    match Ev::from_postcard(&e.to_postcard()) {
        Ok(x) => {
            ensure!(format!("{x:?}") == format!("{e:?}"), "event", "{e:?} arrives as {x:?}");
            Ok(x)
        }
        Err(x) => engine::fail("event", format!("{e:?} cannot be decoded: {x:?}")),
    }
}

// --------------------------------------------------------------------- S01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Html(u8, u8),
    Head(u8, u8),
    Diff(u8, u8),
    DiffHead(u8, u8, u8),
    Remove(u8),
    Clear,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cache {
    pub pages: Hist,
    pub soup: SoupHist,
    pub ops: Vec<Op>,
}
impl Cache {
    /// Versions of a page, variants of them that differ outside of the body or only
    /// in spelling, and other texts.
    fn pool(&self) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for d in self.pages.docs().iter().take(4) {
            v.push(d.html());
            v.push(format!("{}<!-- after -->", d.html()));
            v.push(format!("<!-- before -->{}", d.html()));
        }
        v.extend(self.soup.srcs().into_iter().take(3));
        v.push(String::new());
        v.into_iter().map(unmark).collect()
    }
}
fn cache() -> BoxedStrategy<Cache> {
    let r = prop_oneof![4 => Just(0u8), 2 => 1u8..4];
    let (v, h) = (any::<u8>(), prop_oneof![3 => Just(1u8), 2 => 0u8..4]);
    let op = prop_oneof![
        3 => (r.clone(), v).prop_map(|(r, v)| Op::Html(r, v)),
        2 => (r.clone(), h.clone()).prop_map(|(r, h)| Op::Head(r, h)),
        6 => (r.clone(), v).prop_map(|(r, v)| Op::Diff(r, v)),
        5 => (r.clone(), v, h).prop_map(|(r, v, h)| Op::DiffHead(r, v, h)),
        1 => r.prop_map(Op::Remove),
        1 => Just(Op::Clear),
    ];
    (hist(Gen { tags: 2, opaque: 0, size: 8 }), soup_hist(), prop::collection::vec(op, 1..25)).prop_map(|(pages, soup, ops)| Cache { pages, soup, ops }).boxed()
}
fn s01(c: &Cache) -> Verdict {
    let pool = c.pool();
    let (mut html, mut heads): (BTreeMap<u8, String>, BTreeMap<u8, String>) = Default::default();
    let mut s = LiveReloadServer::default();
    let (mut patched, mut silent, mut reloads, mut changed) = (0, 0, 0, 0);
    for (k, op) in c.ops.iter().enumerate() {
        let page = |v: &u8| &pool[*v as usize % pool.len()];
        let what = format!("operation {k} {op:?}");
        // what a diff of the bodies is to say
        let mut judge = |got: Option<Ev>, r: u8, new: &String, html: &mut BTreeMap<u8, String>| -> Result<(), engine::Fail> {
            let old = html.insert(r, new.clone());
            let got = got.map(|e| sent(&e)).transpose()?;
            let Some(old) = old else {
                ensure!(matches!(got, Some(Ev::Reload)), "unknown-page", "{what}: the page was unknown, and the event is {got:?}");
                reloads += 1;
                return Ok(());
            };
            with_src(&[old.clone(), new.clone()], false, |f| {
                let (a, b) = (f[0](), f[1]());
                match &got {
                    None => {
                        silent += 1;
                        ensure!(same(&a, &b), "missed", "{what}: no event, and the body changed\nfrom {old:?}\nto   {new:?}")
                    }
                    Some(Ev::Patches { route, patches_blob }) => {
                        patched += 1;
                        ensure!(route == ROUTES[r as usize], "route", "{what}: the patches are for {route:?}");
                        ensure!(!same(&a, &b), "noise", "{what}: patches, and the body did not change");
                        let mut x = f[0]();
                        apply_all(&mut x, &decode(patches_blob)?)?;
                        same_body(&x, &b, true)?;
                    }
                    e => return engine::fail("event", format!("{what}: {e:?} for a known page")),
                }
                Ok(())
            })
        };
        match op {
            Op::Html(r, v) => {
                let got = s.cache_html(ROUTES[*r as usize], page(v));
                let want = html.insert(*r, page(v).clone());
                ensure!(got == want, "previous", "{what}: the previous page is {got:?}, expected {want:?}");
            }
            Op::Head(r, h) => {
                let got = s.cache_head_injections(ROUTES[*r as usize], HEADS[*h as usize]);
                let old = heads.insert(*r, HEADS[*h as usize].into()).unwrap_or_default();
                ensure!(got == (old != HEADS[*h as usize]), "head", "{what}: {got} for a head that was {old:?}");
            }
            Op::Diff(r, v) => judge(s.diff_route(ROUTES[*r as usize], page(v)), *r, page(v), &mut html)?,
            Op::DiffHead(r, v, h) => {
                let got = s.diff_route_with_head(ROUTES[*r as usize], page(v), HEADS[*h as usize]);
                let old = heads.insert(*r, HEADS[*h as usize].into()).unwrap_or_default();
                if old == HEADS[*h as usize] {
                    judge(got, *r, page(v), &mut html)?;
                } else {
                    html.insert(*r, page(v).clone());
                    ensure!(matches!(&got, Some(Ev::HeadChanged { route }) if route == ROUTES[*r as usize]), "head", "{what}: {got:?} for a head that was {old:?}");
                    changed += 1;
                }
            }
            Op::Remove(r) => {
                let got = s.remove_route(ROUTES[*r as usize]);
                let want = html.remove(r).is_some() | heads.remove(r).is_some();
                ensure!(got == want, "remove", "{what}: {got}, expected {want}");
            }
            Op::Clear => {
                s.clear();
                html.clear();
                heads.clear();
            }
        }
        let mut got = s.cached_routes();
        got.sort();
        let mut want: Vec<String> = html.keys().map(|r| ROUTES[*r as usize].into()).collect();
        want.sort();
        ensure!(got == want, "routes", "{what}: the routes are {got:?}, expected {want:?}");
    }
    Ok(Pass::new(patched > 0)
        .label(silent > 0, "nothing to send")
        .label(reloads > 0, "unknown page")
        .label(changed > 0, "head changed")
        .label(patched > 3, "over 3 patch lists"))
}

// --------------------------------------------------------------------- S02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// A browser loads the page.
    Visit(u8),
    /// The page goes on to its next version.
    Next(u8),
    /// So does the page, and something is injected into the head.
    NextHead(u8, u8),
    /// The page goes back to an earlier version.
    Back(u8, u8),
    Forget(u8),
    Clear,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct World {
    pub routes: Vec<Result<Hist, SoupHist>>,
    pub steps: Vec<Step>,
}
fn world() -> BoxedStrategy<World> {
    let route = prop_oneof![
        3 => hist(Gen { tags: 0, opaque: 0, size: 10 }).prop_map(Ok),
        2 => hist(Gen { tags: 2, opaque: 0, size: 10 }).prop_map(Ok),
        1 => soup_hist().prop_map(Err),
    ];
    let r = 0u8..4;
    let step = prop_oneof![
        4 => r.clone().prop_map(Step::Visit),
        6 => r.clone().prop_map(Step::Next),
        4 => (r.clone(), prop_oneof![5 => Just(1u8), 1 => 0u8..4]).prop_map(|(r, h)| Step::NextHead(r, h)),
        2 => (r.clone(), any::<u8>()).prop_map(|(r, v)| Step::Back(r, v)),
        1 => r.prop_map(Step::Forget),
        1 => Just(Step::Clear),
    ];
    (prop::collection::vec(route, 1..4), prop::collection::vec(step, 3..30)).prop_map(|(routes, steps)| World { routes, steps }).boxed()
}
impl World {
    fn srcs(&self) -> Vec<Vec<String>> {
        self.routes
            .iter()
            .map(|r| match r {
                Ok(h) => h.docs().iter().map(|d| unmark(d.html())).collect(),
                Err(s) => s.srcs().into_iter().map(unmark).collect(),
            })
            .collect()
    }
}
fn s02(w: &World) -> Verdict {
    let srcs = w.srcs();
    let mut first = vec![0];
    for s in &srcs {
        first.push(first.last().unwrap() + s.len());
    }
    with_src(&srcs.concat(), false, |f| {
        let n = srcs.len();
        let mut server = LiveReloadServer::new();
        let mut at = vec![0usize; n];
        let mut clients: Vec<Vec<Document<'static>>> = vec![vec![]; n];
        let (mut patched, mut reloaded, mut late) = (0, 0, false);
        for (k, step) in w.steps.iter().enumerate() {
            let mut event = None;
            let mut go = |r: &u8, v: Option<u8>, head: Option<&str>, at: &mut Vec<usize>| {
                let r = *r as usize % n;
                at[r] = match v {
                    Some(v) => v as usize % srcs[r].len(),
                    None => (at[r] + 1) % srcs[r].len(),
                };
                let html = &srcs[r][at[r]];
                event = Some((r, match head {
                    None => server.diff_route(ROUTES[r], html),
                    Some(h) => server.diff_route_with_head(ROUTES[r], html, h),
                }));
            };
            match step {
                Step::Visit(r) => {
                    let r = *r as usize % n;
                    server.cache_html(ROUTES[r], &srcs[r][at[r]]);
                    late |= !clients[r].is_empty();
                    clients[r].push(f[first[r] + at[r]]());
                }
                Step::Next(r) => go(r, None, None, &mut at),
                Step::NextHead(r, h) => go(r, None, Some(HEADS[*h as usize]), &mut at),
                Step::Back(r, v) => go(r, Some(*v), None, &mut at),
                Step::Forget(r) => drop(server.remove_route(ROUTES[*r as usize % n])),
                Step::Clear => server.clear(),
            }
            if let Some((r, Some(e))) = &event {
                match sent(e)? {
                    Ev::Reload => {
                        clients[*r].iter_mut().for_each(|c| *c = f[first[*r] + at[*r]]());
                        reloaded += clients[*r].len();
                    }
                    Ev::HeadChanged { route } => {
                        let r = ROUTES.iter().position(|x| *x == route).unwrap();
                        clients[r].iter_mut().for_each(|c| *c = f[first[r] + at[r]]());
                        reloaded += clients[r].len();
                    }
                    Ev::Patches { route, patches_blob } => {
                        let r = ROUTES.iter().position(|x| *x == route).unwrap();
                        for c in &mut clients[r] {
                            if let Err(mut f) = apply_all(c, &decode(&patches_blob)?) {
                                f.msg = format!("step {k} {step:?}: {}", f.msg);
                                return Err(f);
                            }
                            patched += 1;
                        }
                    }
                }
            }
            for r in 0..n {
                let now = f[first[r] + at[r]]();
                for c in &clients[r] {
                    if let Err(mut f) = same_body(c, &now, true) {
                        f.msg = format!("after step {k} {step:?}, a client of route {r} at version {}: {}", at[r], f.msg);
                        return Err(f);
                    }
                }
            }
        }
        Ok(Pass::new(patched > 1).label(reloaded > 0, "reloads").label(late, "several clients of a page").label(patched > 8, "over 8 patch lists applied"))
    })
}
fn explain_world(w: &World) -> String {
    w.srcs().iter().enumerate().map(|(r, s)| format!("route {r}: {s:#?}\n")).collect::<String>() + &format!("steps: {:?}", w.steps)
}

// --------------------------------------------------------------------- S03

const COMMENTS: &[&str] = &["<!-- head -->", "<!--<head>-->", "<!-- <head> ' -->", "<!-->", "<!-- <header> > -->", "<!--\"-->", "\n", " ", "<!--é日本-->", "<!-- a --><!-- <HEAD> -->", "<!-- <head> --!>", "<!--->", "<!--x--!>", "<?xml version=\"1.0\"?>", "<?x <head?>", "<!x \"<head\">", "</ <head>", "</!head \">", "</>"];
const DOCTYPES: &[&str] = &["", "<!DOCTYPE html>", "<!doctype html>\n", "\u{feff}<!DOCTYPE html>", "<!DOCTYPE html PUBLIC \"-//W3C//DTD HTML 4.01//EN\" \"http://www.w3.org/TR/html4/strict.dtd\">", "<!DOCTYPE html SYSTEM \"<head\">", "<!DOCTYPE html PUBLIC '<head lang=en' \"it's\">"];
const ATS: &[&str] = &["", "", "", " lang=en", " class=\"a b\"", " data-x=\"a>b\"", " data-x='<head>'", " data-x='it\"s>'", "\n id=x\n", " data-t=\"<header>\"", " a b c", " data-x=\"İ\"", " title=it's", " a=b\"c", " a = 'x>y'", " ='", " a ='>' b=c'd", " a=b='c", "/", " / a=\"/>\"/", " a=/ b='>'", " a=b/='", " a/='", " \"a='>'", " =a='>'"];
const REST: &[&str] = &["<title>t</title>", "<meta charset=utf-8>", "<script>\"<head>\"</script>", "<header>x</header>", "<HEADER class=a>", "<body>", "<body class=b>", "<p>a > b", "<div>é</div>", "text", "</head>", "</body>", "</html>", "<style>a>b{}</style>", " ", "<head>", "<!-- <head> -->", "<thead>", "<h1>"];
const CONTENT: &[&str] = &["", "<meta name=injected>", "<script data-injected>a<b && \"</head>\"</script>", "<style data-injected>head>title{}</style>", "<link data-injected href='x>y'>"];
/// Indices into the tables.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Page {
    doctype: u8,
    before: Vec<u8>,
    html: Option<(u8, u8)>,
    between: Vec<u8>,
    head: Option<(u8, u8)>,
    rest: Vec<u8>,
    content: u8,
    /// Pieces of one more comment before the html tag and one behind it
    odd: [Vec<u8>; 2],
    /// More attributes of the html and the head tag: space, name, equals sign, quotes, value
    ats: [Vec<[u8; 5]>; 2],
}
/// A comment of these pieces, unless it would end early or not at all.
fn comment_of(v: &[u8]) -> String {
    let Some((last, v)) = v.split_last() else { return String::new() };
    let mid: String = v.iter().map(|i| of_table(&[" ", "x", ">", "-", "<head>", "!", "<", "\"", "'", "--", "--!", "<!--", "é"], *i)).collect();
    let s = mid + ["-->", "--!>"][*last as usize % 2];
    let ends = ["-->", "--!>"].iter().filter_map(|e| s.find(e).map(|i| i + e.len())).min();
    if ends != Some(s.len()) || s.starts_with('>') || s.starts_with("->") { String::new() } else { format!("<!--{s}") }
}
fn ats_of(v: &[[u8; 5]]) -> String {
    v.iter()
        .map(|[ws, name, eq, quote, val]| {
            let name = of_table(&["a", "data-x", "b\"", "'c", "<head", "d\"e", "É", "head"], *name);
            let ws = of_table(&[" ", "\n", "\t ", " / "], *ws);
            let eq = of_table(&["", " ", "=", " =", "= ", " = "], *eq);
            if !eq.contains('=') {
                return format!("{ws}{name}");
            }
            match quote % 3 {
                0 => format!("{ws}{name}{eq}\"{}\"", of_table(&["", ">", "'", "<head>", "a='", "/>", " x ", "é>"], *val)),
                1 => format!("{ws}{name}{eq}'{}'", of_table(&["", ">", "\"", "<head>", "a=\"", "/>", " x ", "é>"], *val)),
                _ => format!("{ws}{name}{eq}{}", of_table(&["v", "/", "b\"", "b'", "<head", "=", "a=\"b", "é"], *val)),
            }
        })
        .collect()
}
fn of_table(t: &'static [&'static str], i: u8) -> &'static str {
    t[i as usize % t.len()]
}
impl Page {
    /// What comes before the head tag, the head tag, what comes after it.
    fn parts(&self) -> (String, String, String) {
        let all = |t, v: &[u8]| v.iter().map(|i| of_table(t, *i)).collect::<String>();
        let tag = |t, x: Option<(u8, u8)>, more: &[[u8; 5]]| x.map(|(n, a)| format!("<{}{}{}>", of_table(t, n), of_table(ATS, a), ats_of(more))).unwrap_or_default();
        let doctype = of_table(DOCTYPES, self.doctype);
        let (a, b) = self.before.split_at(if doctype.starts_with('\u{feff}') { 0 } else { self.before.len() / 2 });
        let html = tag(&["html", "HTML", "Html"], self.html, &self.ats[0]);
        let first = all(COMMENTS, a) + doctype + &all(COMMENTS, b) + &comment_of(&self.odd[0]) + &html + &comment_of(&self.odd[1]) + &all(COMMENTS, &self.between);
        (first, tag(&["head", "HEAD", "Head"], self.head, &self.ats[1]), all(REST, &self.rest))
    }
}
fn page() -> BoxedStrategy<Page> {
    let i = any::<u8>();
    let list = |n| prop::collection::vec(i, 0..n);
    let odd = || prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(i, 1..7)];
    let at = || prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec([i, i, i, i, i], 1..4)];
    (i, list(4), prop::option::weighted(0.8, (i, i)), list(3), prop::option::weighted(0.75, (i, i)), list(6), i, [odd(), odd()], [at(), at()])
        .prop_map(|(doctype, before, html, between, head, rest, content, odd, ats)| Page { doctype, before, html, between, head, rest, content, odd, ats })
        .boxed()
}
fn injected(n: &N) -> bool {
    matches!(n, N::E { attrs, .. } if attrs.iter().any(|a| a.0 == "data-injected" || a.1 == "injected"))
}
fn s03(p: &Page) -> Verdict {
    let (first, head, rest) = p.parts();
    let page = first.clone() + &head + &rest;
    let content = of_table(CONTENT, p.content);
    let got = inject_into_head(&page, content);
    if p.head.is_none() {
        let later = p.rest.iter().any(|i| of_table(REST, *i) == "<head>");
        ensure!(later || got == content.to_string() + &page, "no-head", "{page:?} without a head tag becomes {got:?}");
        return Ok(Pass::new(false).label(true, "no head tag"));
    }
    // a reader finds the content, and nothing else has changed
    let (old, new) = (raw(&page), raw(&got));
    ensure!(old.doctype == new.doctype && old.quirks == new.quirks, "doctype", "the document type of {got:?}");
    let (want, mut tree) = (old.root.unwrap(), new.root.unwrap());
    let shown = tree.show();
    if !content.is_empty() {
        let N::E { kids, .. } = &mut tree else { unreachable!() };
        let head = kids.iter_mut().find_map(|k| match k {
            N::E { tag, kids, .. } if tag == "head" => Some(kids),
            _ => None,
        });
        let Some(head) = head else { return engine::fail("lost", format!("no head in {got:?}")) };
        ensure!(head.first().is_some_and(injected), "misplaced", "the head does not begin with the content: {got:?} reads {shown}");
        head.remove(0);
    }
    ensure!(tree == want, "damaged", "without the content, {got:?} reads\n{}\nexpected\n{}", tree.show(), want.show());
    Ok(Pass::new(!content.is_empty() && first.contains('<')).label(first.to_lowercase().contains("<head"), "head mentioned before"))
}
/// Whatever the text is: nothing of it is lost.
fn s03_any((v, content): &(Vec<String>, String)) -> Verdict {
    let page = v.concat();
    let got = inject_into_head(&page, content);
    let fits = (0..=page.len()).any(|i| page.is_char_boundary(i) && got.len() == page.len() + content.len() && got[..i] == page[..i] && got[i..].starts_with(content.as_str()) && got[i + content.len()..] == page[i..]);
    ensure!(fits, "damaged", "{page:?} with {content:?} becomes {got:?}");
    let at_start = got == content.clone() + &page;
    let has = page.to_ascii_lowercase().contains("<head");
    ensure!(has || at_start, "no-head", "{page:?} without a head tag becomes {got:?}");
    Ok(Pass::new(!page.is_empty() && !content.is_empty()).label(!at_start, "into a head"))
}

// --------------------------------------------------------------------- S04

type Event = (u8, String, Vec<u8>);
fn event() -> BoxedStrategy<Event> {
    let route = prop_oneof![3 => text(), 1 => "\\PC{0,40}", 1 => "[a-z/]{100,300}"];
    (0u8..3, route, prop_oneof![2 => prop::collection::vec(any::<u8>(), 0..10), 1 => prop::collection::vec(any::<u8>(), 100..700)]).boxed()
}
fn s04(e: &Event) -> Verdict {
    let (route, patches_blob) = (e.1.clone(), e.2.clone());
    let x = match e.0 {
        0 => Ev::Reload,
        1 => Ev::Patches { route, patches_blob },
        _ => Ev::HeadChanged { route },
    };
    let back = sent(&x)?;
    ensure!(
        match (&x, &back) {
            (Ev::Reload, Ev::Reload) => true,
            (Ev::Patches { route: a, patches_blob: b }, Ev::Patches { route: c, patches_blob: d }) => a == c && b == d,
            (Ev::HeadChanged { route: a }, Ev::HeadChanged { route: b }) => a == b,
            _ => false,
        },
        "event",
        "{x:?} arrives as {back:?}"
    );
    // what was cut short is refused
    let bytes = x.to_postcard();
    for cut in 0..bytes.len() {
        ensure!(Ev::from_postcard(&bytes[..cut]).is_err(), "truncated", "the first {cut} of {} bytes of {x:?} decode", bytes.len());
    }
    Ok(Pass::new(e.0 != 0))
}

// --------------------------------------------------------------------- S05

fn js() -> BoxedStrategy<[String; 4]> {
    let s = prop_oneof![
        3 => prop::sample::select(vec!["/hotmeal_wasm.js", "#content", "body", "ws://localhost:3000/_lr", ""]).prop_map(String::from),
        2 => prop::sample::select(vec!["div[data-x=\"y\"]", "#a\\:b", "x'y", "</script>", "<!--<script>", "a\nb", "a\rb", "${x}", "`", "{0}", "{wasm_url}", "a\\", "\\\"", "\\u0041", "é\u{2028}日", "\0", "]]>", "<script", "-->"]).prop_map(String::from),
        2 => "[\"\\\\<>/a-c ]{0,8}",
        1 => "\\PC{0,10}",
    ];
    [s.clone(), s.clone(), s.clone(), s].boxed()
}
/// The string literals of a script, in order, and the script with `$` for each.
fn literals(s: &str) -> Option<(Vec<String>, String)> {
    let (mut out, mut rest) = (vec![], String::new());
    let mut c = s.chars();
    let hex = |c: &mut std::str::Chars, n: usize| -> Option<char> {
        let h: String = c.take(n).collect();
        char::from_u32(u32::from_str_radix(&h, 16).ok()?)
    };
    while let Some(x) = c.next() {
        if !matches!(x, '"' | '\'') {
            rest.push(x);
            continue;
        }
        let mut v = String::new();
        loop {
            match c.next()? {
                y if y == x => break,
                '\n' | '\r' => return None,
                '\\' => match c.next()? {
                    'n' => v.push('\n'),
                    'r' => v.push('\r'),
                    't' => v.push('\t'),
                    'b' => v.push('\u{8}'),
                    'f' => v.push('\u{c}'),
                    'v' => v.push('\u{b}'),
                    '0' => v.push('\0'),
                    'x' => v.push(hex(&mut c, 2)?),
                    'u' => {
                        let mut d = c.clone();
                        if d.next() == Some('{') {
                            c.next();
                            let h: String = c.by_ref().take_while(|x| *x != '}').collect();
                            v.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                        } else {
                            v.push(hex(&mut c, 4)?);
                        }
                    }
                    y => v.push(y),
                },
                y => v.push(y),
            }
        }
        out.push(v);
        rest.push('$');
    }
    Some((out, rest))
}
fn s05(v: &[String; 4]) -> Verdict {
    let s = loader_script(&v[0], &v[1], &v[2], &v[3]);
    let page = t(&format!("<!DOCTYPE html><html><head>{s}</head><body></body></html>"));
    let d = hotmeal::parse(&page);
    let tree = of(&d, d.root);
    let head = tree.kids().iter().find(|k| matches!(k, N::E { tag, .. } if tag == "head"));
    let ok = match head.map(|h| h.kids()) {
        Some([N::E { tag, attrs, kids, .. }]) if tag == "script" && attrs == &[("type".to_string(), "module".to_string())] => match kids.as_slice() {
            [N::T(text)] => Some(text.clone()),
            _ => None,
        },
        _ => None,
    };
    ensure!(ok.is_some() && tree.count() == 5, "markup", "{s:?} is not one script element in the head: {}", tree.show());
    let text = ok.unwrap();
    let Some((got, rest)) = literals(&text) else { return engine::fail("script", format!("not a script: {text:?}")) };
    let want = [&v[0], &v[1], &v[3], &v[2]];
    ensure!(got.iter().eq(want), "strings", "the strings are {got:?}, expected {want:?}");
    let plain = literals(&loader_script("", "", "", "").replace("<script type=\"module\">", "").replace("</script>", "")).map(|x| x.1);
    ensure!(Some(&rest) == plain.as_ref(), "script", "the script around the strings depends on them: {rest:?}");
    Ok(Pass::new(v.iter().any(|s| s.contains(['"', '\\', '<', '\n', '\r', '\0']))))
}

pub fn run(ctx: &Ctx) {
    match ctx.id.as_str() {
        "S01" => ctx.campaign("operations", "1..25 operations on four routes with versions of a page, respellings of them and markup soup; non-trivial: a patch list was sent", ctx.cases(40_000, 1_500_000), cache, s01, |c| format!("pages: {:#?}", c.pool())),
        "S02" => ctx.campaign("world", "3..30 visits, changes, head injections and evictions on 1..3 routes with any number of clients; non-trivial: at least two patch lists applied", ctx.cases(40_000, 1_500_000), world, s02, explain_world),
        "S03" => {
            ctx.campaign("pages", "pages with comments, document type, html and head tags with attributes, and content after them; non-trivial: something to inject and something before the head", ctx.cases(200_000, 5_000_000), page, s03, |p| format!("{:?}", p.parts()));
            ctx.campaign("soup", "markup soup and any content; non-trivial: neither is empty", ctx.cases(100_000, 3_000_000), || (soup(), text()).boxed(), s03_any, |(v, _)| format!("{:?}", v.concat()));
        }
        "S04" => ctx.campaign("events", "events of all kinds with any route and bytes; non-trivial: not a mere reload", ctx.cases(150_000, 4_000_000), event, s04, |_| String::new()),
        "S05" => ctx.campaign("strings", "four strings, plain or with characters that mean something in HTML or JavaScript; non-trivial: at least one of the latter", ctx.cases(150_000, 4_000_000), js, s05, |v| loader_script(&v[0], &v[1], &v[2], &v[3])),
        _ => unreachable!(),
    }
}

//! Parsing (H07) and serialisation (H06).
use crate::checks::{Make, PAIRS, Soup, soup_pair, with_src};
use crate::model::*;
use crate::real::{REAL, Real, real};
use engine::proptest::prelude::*;
use engine::{Ctx, Fail, Pass, Verdict, ensure};
use hotmeal::{Document, QualName, StrTendril};
use tendril::TendrilSink;
use html5ever::tree_builder::{ElemName, ElementFlags, NodeOrText, QuirksMode, TreeSink};
use html5ever::Attribute;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};

// ------------------------------------------------- the harness's own DOM

enum K {
    Doc,
    El(QualName, Vec<(QualName, String)>, bool),
    Text(String),
    Comment(String),
}
struct Node {
    k: K,
    up: Option<usize>,
    kids: Vec<usize>,
}
struct Sink {
    n: RefCell<Vec<Node>>,
    doctype: RefCell<Option<String>>,
    errors: Cell<usize>,
    quirks: Cell<bool>,
}
pub struct Parsed {
    /// The root element
    pub root: Option<N>,
    pub doctype: Option<String>,
    pub errors: usize,
    pub quirks: bool,
}
#[derive(Debug)]
struct Name(QualName);
impl ElemName for Name {
    fn ns(&self) -> &html5ever::Namespace {
        &self.0.ns
    }
    fn local_name(&self) -> &html5ever::LocalName {
        &self.0.local
    }
}
impl Sink {
    fn new() -> Self {
        Sink {
            n: RefCell::new(vec![Node { k: K::Doc, up: None, kids: vec![] }]),
            doctype: RefCell::new(None),
            errors: Cell::new(0),
            quirks: Cell::new(false),
        }
    }
    fn add(&self, k: K) -> usize {
        let mut n = self.n.borrow_mut();
        n.push(Node { k, up: None, kids: vec![] });
        n.len() - 1
    }
    fn cut(&self, c: usize) {
        let mut n = self.n.borrow_mut();
        if let Some(p) = n[c].up.take() {
            n[p].kids.retain(|x| *x != c);
        }
    }
    /// Puts `c` among the children of `p`, before position `i`.
    fn put(&self, p: usize, i: usize, c: NodeOrText<usize>) {
        match c {
            NodeOrText::AppendNode(c) => {
                let mut n = self.n.borrow_mut();
                n[c].up = Some(p);
                n[p].kids.insert(i, c);
            }
            NodeOrText::AppendText(t) => {
                {
                    let mut n = self.n.borrow_mut();
                    if i > 0 {
                        let prev = n[p].kids[i - 1];
                        if let K::Text(s) = &mut n[prev].k {
                            s.push_str(t.as_ref());
                            return;
                        }
                    }
                }
                let c = self.add(K::Text(t.as_ref().to_string()));
                let mut n = self.n.borrow_mut();
                n[c].up = Some(p);
                n[p].kids.insert(i, c);
            }
        }
    }
    fn tree(&self, i: usize) -> N {
        let n = self.n.borrow();
        let kids = || n[i].kids.iter().map(|c| self.tree(*c)).collect();
        match &n[i].k {
            K::Doc => N::D(kids()),
            K::Text(t) => N::T(t.clone()),
            K::Comment(t) => N::C(t.clone()),
            K::El(q, a, _) => N::E {
                ns: match q.ns.as_ref() {
                    "http://www.w3.org/2000/svg" => 1,
                    "http://www.w3.org/1998/Math/MathML" => 2,
                    _ => 0,
                },
                tag: q.local.to_string(),
                attrs: a.iter().map(|(k, v)| (qname(k), v.clone())).collect(),
                kids: kids(),
            },
        }
    }
}
impl TreeSink for Sink {
    type Handle = usize;
    type Output = Parsed;
    type ElemName<'b> = Name;
    fn finish(self) -> Parsed {
        let root = self.n.borrow()[0].kids.iter().copied().find(|c| matches!(self.n.borrow()[*c].k, K::El(..)));
        Parsed {
            root: root.map(|r| self.tree(r)),
            doctype: self.doctype.borrow().clone(),
            errors: self.errors.get(),
            quirks: self.quirks.get(),
        }
    }
    fn parse_error(&self, _msg: Cow<'static, str>) {
        self.errors.set(self.errors.get() + 1);
    }
    fn get_document(&self) -> usize {
        0
    }
    fn elem_name<'b>(&'b self, t: &'b usize) -> Name {
        match &self.n.borrow()[*t].k {
            K::El(q, _, _) => Name(QualName::new(None, q.ns.clone(), q.local.clone())),
            _ => panic!("the name of what is no element"),
        }
    }
    fn create_element(&self, name: QualName, attrs: Vec<Attribute>, f: ElementFlags) -> usize {
        let a = attrs.into_iter().map(|a| (a.name, a.value.as_ref().to_string())).collect();
        self.add(K::El(name, a, f.mathml_annotation_xml_integration_point))
    }
    fn create_comment(&self, t: StrTendril) -> usize {
        self.add(K::Comment(t.as_ref().to_string()))
    }
    fn create_pi(&self, _: StrTendril, _: StrTendril) -> usize {
        self.add(K::Comment(String::new()))
    }
    fn append(&self, p: &usize, c: NodeOrText<usize>) {
        if let NodeOrText::AppendNode(c) = &c {
            self.cut(*c);
        }
        let i = self.n.borrow()[*p].kids.len();
        self.put(*p, i, c);
    }
    fn append_before_sibling(&self, s: &usize, c: NodeOrText<usize>) {
        if let NodeOrText::AppendNode(c) = &c {
            self.cut(*c);
        }
        let p = self.n.borrow()[*s].up.expect("a sibling has a parent");
        let i = self.n.borrow()[p].kids.iter().position(|x| x == s).unwrap();
        self.put(p, i, c);
    }
    fn append_based_on_parent_node(&self, e: &usize, prev: &usize, c: NodeOrText<usize>) {
        if self.n.borrow()[*e].up.is_some() { self.append_before_sibling(e, c) } else { self.append(prev, c) }
    }
    fn append_doctype_to_document(&self, name: StrTendril, _: StrTendril, _: StrTendril) {
        *self.doctype.borrow_mut() = Some(name.as_ref().to_string());
    }
    fn get_template_contents(&self, t: &usize) -> usize {
        *t
    }
    fn same_node(&self, a: &usize, b: &usize) -> bool {
        a == b
    }
    fn set_quirks_mode(&self, m: QuirksMode) {
        self.quirks.set(m == QuirksMode::Quirks);
    }
    fn add_attrs_if_missing(&self, t: &usize, attrs: Vec<Attribute>) {
        if let K::El(_, a, _) = &mut self.n.borrow_mut()[*t].k {
            for x in attrs {
                if !a.iter().any(|(k, _)| *k == x.name) {
                    a.push((x.name, x.value.as_ref().to_string()));
                }
            }
        }
    }
    fn remove_from_parent(&self, t: &usize) {
        self.cut(*t);
    }
    fn reparent_children(&self, from: &usize, to: &usize) {
        let kids = std::mem::take(&mut self.n.borrow_mut()[*from].kids);
        for c in kids {
            let mut n = self.n.borrow_mut();
            n[c].up = Some(*to);
            n[*to].kids.push(c);
        }
    }
    fn is_mathml_annotation_xml_integration_point(&self, h: &usize) -> bool {
        matches!(&self.n.borrow()[*h].k, K::El(_, _, true))
    }
}

pub fn raw(s: &str) -> Parsed {
    html5ever::parse_document(Sink::new(), Default::default()).one(StrTendril::from(s))
}
/// What `hotmeal::parse` is to read: the text itself if it declares its type; else
/// as a standards mode document, and bare content as that of a body.
pub fn read(s: &str) -> Parsed {
    let p = raw(s);
    if p.doctype.is_some() {
        return p;
    }
    let l = s.to_ascii_lowercase();
    let mut p = if l.contains("<html") || l.contains("<body") {
        raw(&format!("<!DOCTYPE html>{s}"))
    } else {
        raw(&format!("<!DOCTYPE html><html><body>{s}</body></html>"))
    };
    p.doctype = None;
    p
}
pub fn read_fragment(s: &str) -> Parsed {
    fragment_in(s, "http://www.w3.org/1999/xhtml", "body")
}
/// The content of an element, from its markup.
pub fn fragment_in(s: &str, ns: &str, local: &str) -> Parsed {
    fragment_with(s, ns, local, &[])
}
/// The same, inside an element with these attributes.
pub fn fragment_with(s: &str, ns: &str, local: &str, attrs: &[(String, String)]) -> Parsed {
    let context = QualName::new(None, ns.into(), local.into());
    let attrs = attrs.iter().map(|(k, v)| Attribute { name: QualName::new(None, "".into(), k.as_str().into()), value: StrTendril::from(v.as_str()) }).collect();
    html5ever::parse_fragment(Sink::new(), Default::default(), context, attrs, true).one(StrTendril::from(s))
}

// --------------------------------------------------------------------- H07

fn root_of(d: &Document) -> Option<N> {
    match of(d, d.root) {
        e @ N::E { .. } => Some(e),
        _ => None,
    }
}
fn doctype(d: &Document) -> Option<String> {
    d.doctype.as_ref().map(|s| s.as_ref().to_string())
}
fn parses(s: &str, fragment: bool) -> Verdict {
    let want = if fragment { read_fragment(s) } else { read(s) };
    let pass = with_src(&[s.to_string()], fragment, |f| -> Verdict {
        let d = f[0]();
        let got = root_of(&d);
        let show = |n: &Option<N>| n.as_ref().map(N::show).unwrap_or_default();
        ensure!(got == want.root, "tree", "parsed as\n{}\nexpected\n{}", show(&got), show(&want.root));
        ensure!(doctype(&d) == want.doctype, "doctype", "doctype {:?}, expected {:?}", doctype(&d), want.doctype);
        ensure!(d.errors.len() == want.errors, "errors", "{} parse errors, expected {}", d.errors.len(), want.errors);
        // what the document says about itself
        let kid = |t: &str| want.root.as_ref().and_then(|r| r.kids().iter().position(|k| matches!(k, N::E { tag, .. } if tag == t)));
        let at = |i: Option<usize>| i.and_then(|i| d.children(d.root).nth(i));
        ensure!(d.body() == at(kid("body")), "body", "body() is not the body");
        ensure!(d.head() == at(kid("head")), "head", "head() is not the head");
        // an equal document, whatever it borrows
        let c = d.clone();
        ensure!(root_of(&c) == want.root, "clone", "the clone differs");
        Ok(Pass::new(want.root.as_ref().is_some_and(|r| r.count() > 3)))
    })?;
    let has = |f: &dyn Fn(&N) -> bool| want.root.as_ref().is_some_and(|r| r.has(f));
    Ok(pass
        .label(want.errors > 0, "errors")
        .label(want.doctype.is_some(), "doctype")
        .label(want.quirks, "quirks")
        .label(has(&|n| matches!(n, N::E { ns: 1.., .. })), "svg or math")
        .label(has(&|n| matches!(n, N::C(_))), "comment"))
}

/// Pages: markup with a beginning that says what it is.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Page {
    pub lead: Vec<String>,
    pub rest: Vec<String>,
    pub fragment: bool,
}
impl Page {
    fn src(&self) -> String {
        format!("{}{}", self.lead.concat(), self.rest.concat())
    }
}
fn page() -> BoxedStrategy<Page> {
    let lead = prop::sample::select(vec![
        "<!DOCTYPE html>", "<!doctype HTML>", "<!DOCTYPE html PUBLIC \"-//W3C//DTD HTML 4.01//EN\" \"x\">", "<!DOCTYPE>", "<!DOCTYPE svg>",
        "<!-- c -->", "<!-->", "<!--x--!>", " ", "\n", "\u{feff}", "<html>", "<html lang=en>", "<head>", "</head>", "<title>T</title>", "<body>",
        "<body class=a>", "text", "<!DOCTYPE html", "<!doc", "<meta charset=utf-8>", "<?xml version='1.0'?>", "<!-- <html> -->", "<HTML>", "<BODY>", "<bodyx>", "<htm", "<link>", "\u{c}", "\u{a0}",
    ])
    .prop_map(String::from);
    let lead = prop_oneof![4 => lead.clone(), 1 => (lead, any::<u32>()).prop_map(|(l, m)| cased(&l, m))];
    (prop::collection::vec(lead, 0..6), soup(), prop::bool::weighted(0.15)).prop_map(|(lead, rest, fragment)| Page { lead, rest, fragment }).boxed()
}

// --------------------------------------------------------------------- H06

const RAW: &[&str] = &["style", "script", "xmp", "iframe", "noembed", "noframes", "plaintext", "noscript"];
const NO_END: &[&str] = &[
    "area", "base", "basefont", "bgsound", "br", "col", "embed", "frame", "hr", "img", "input", "keygen", "link", "meta", "param", "source",
    "track", "wbr",
];
/// The fragment serialisation algorithm of the HTML standard, for one node.
pub fn standard(n: &N, parent: Option<&str>, out: &mut String) {
    let esc = |s: &str, attr: bool, out: &mut String| {
        for c in s.chars() {
            match c {
                '&' => out.push_str("&amp;"),
                '\u{a0}' => out.push_str("&nbsp;"),
                '<' => out.push_str("&lt;"),
                '>' => out.push_str("&gt;"),
                '"' if attr => out.push_str("&quot;"),
                c => out.push(c),
            }
        }
    };
    match n {
        N::D(k) => k.iter().for_each(|k| standard(k, None, out)),
        N::C(t) => {
            out.push_str("<!--");
            out.push_str(t);
            out.push_str("-->");
        }
        N::T(t) if parent.is_some_and(|p| RAW.contains(&p)) => out.push_str(t),
        N::T(t) => esc(t, false, out),
        N::E { ns, tag, attrs, kids } => {
            out.push('<');
            out.push_str(tag);
            for (k, v) in attrs {
                out.push(' ');
                out.push_str(k.split('{').next().unwrap());
                out.push_str("=\"");
                esc(v, true, out);
                out.push('"');
            }
            out.push('>');
            if *ns == 0 && NO_END.contains(&tag.as_str()) {
                return;
            }
            kids.iter().for_each(|k| standard(k, (*ns == 0).then_some(tag.as_str()), out));
            out.push_str("</");
            out.push_str(tag);
            out.push('>');
        }
    }
}

/// The inner HTML of an element as the standard has it, and what it reads as there.
pub fn inner(e: &N) -> String {
    let tag = match e {
        N::E { ns: 0, tag, .. } => Some(tag.as_str()),
        _ => None,
    };
    let mut s = String::new();
    e.kids().iter().for_each(|k| standard(k, tag, &mut s));
    s
}
pub fn read_in(content: &str, e: &N) -> Vec<N> {
    let N::E { ns, tag, attrs, .. } = e else { return vec![] };
    let p = fragment_with(content, URLS[*ns as usize], tag, attrs);
    p.root.map_or(vec![], |r| r.kids().to_vec())
}

/// Wherever HTML can express a document at all, `to_html` does.
fn writes(make: Make) -> Verdict {
    let d = make();
    let root = root_of(&d);
    let html = d.to_html();
    let (dt, bare) = (doctype(&d), d.to_html_without_doctype());
    let pre = dt.as_ref().map(|t| format!("<!DOCTYPE {t}>")).unwrap_or_default();
    ensure!(html == format!("{pre}{bare}"), "doctype", "to_html is {html:?}, to_html_without_doctype {bare:?}");
    let body = match d.body() {
        None => String::new(),
        Some(b) => d.serialize_inner_html(b),
    };
    ensure!(d.to_body_html() == body, "body", "to_body_html is {:?}, the inner html of the body {body:?}", d.to_body_html());
    if d.body().is_some() {
        ensure!(bare.contains(&format!(">{body}</body>")), "body", "to_body_html {body:?} is not in {bare:?}");
    }
    // the inner html of every element, alone
    let mut todo = vec![d.root];
    while let Some(id) = todo.pop() {
        todo.extend(d.children(id));
        let e = of(&d, id);
        let (got, std) = (d.serialize_inner_html(id), inner(&e));
        if read_in(&std, &e) == e.kids() {
            ensure!(read_in(&got, &e) == e.kids(), "inner", "the inner html of {} is {got:?}, which reads as another content there", e.show());
        }
    }
    ensure!(d.clone().to_html() == html && make().to_html() == html, "stable", "another copy serialises otherwise");
    let mut std = pre.clone();
    if let Some(r) = &root {
        standard(r, None, &mut std);
    }
    let want = read(&std);
    let expressible = root.is_some() && want.root == root && want.doctype == dt;
    if expressible {
        let got = read(&html);
        let show = |n: &Option<N>| n.as_ref().map(N::show).unwrap_or_default();
        ensure!(got.root == root, "lossy", "{html:?} reads as\n{}\nthe document is\n{}", show(&got.root), show(&root));
        for v in VOID {
            let named = |n: &N| matches!(n, N::E { ns, tag, .. } if tag == v && *ns > 0);
            let end = format!("</{v}>");
            let mentions = |n: &N| matches!(n, N::T(t) | N::C(t) if t.contains(&end));
            let r = root.as_ref().unwrap();
            ensure!(!bare.contains(&end) || r.has(&named) || r.has(&mentions), "void", "{bare:?} has an end tag {end}, though {v} has none");
        }
        ensure!(got.doctype == dt, "lossy-doctype", "{html:?} has doctype {:?}, the document {dt:?}", got.doctype);
        // and again, through hotmeal itself
        with_src(&[html.clone()], false, |f| -> Result<(), Fail> {
            let e = f[0]();
            ensure!(root_of(&e) == root && doctype(&e) == dt, "reparse", "parse(to_html) is another document");
            ensure!(e.to_html() == html, "unstable", "serialised again: {:?}, before: {html:?}", e.to_html());
            Ok(())
        })?;
    }
    let has = |f: &dyn Fn(&N) -> bool| root.as_ref().is_some_and(|r| r.has(f));
    Ok(Pass::new(expressible && root.as_ref().is_some_and(|r| r.count() > 3))
        .label(!expressible, "not expressible")
        .label(has(&|n| matches!(n, N::E { tag, .. } if RAW.contains(&tag.as_str()))), "raw text element")
        .label(has(&|n| matches!(n, N::E { ns: 1.., .. })), "svg or math")
        .label(has(&|n| matches!(n, N::E { attrs, .. } if attrs.iter().any(|a| a.0.contains(':')))), "prefixed attribute"))
}

// a grammar of documents that HTML can express

fn t_in(raw: &'static [&'static str]) -> BoxedStrategy<Nd2> {
    prop_oneof![3 => text(), 1 => prop::sample::select(raw.to_vec()).prop_map(String::from)]
        .prop_map(|t| Nd2::T(t.replace(['\r', '\0'], "").replace("</", "< /").replace("<!--", "<!-")))
        .boxed()
}
/// As `Nd`, with namespaces and names spelt out.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Nd2 {
    E(u8, String, Vec<(String, String)>, Vec<Nd2>),
    T(String),
    C(String),
}
fn a2() -> BoxedStrategy<Vec<(String, String)>> {
    attrs(0).prop_map(|v| v.into_iter().map(|(k, v)| (attr(k).to_string(), v.replace('\r', ""))).collect()).boxed()
}
fn el(names: &'static [&'static str], ns: u8, kids: BoxedStrategy<Vec<Nd2>>) -> BoxedStrategy<Nd2> {
    (prop::sample::select(names.to_vec()), a2(), kids).prop_map(move |(t, a, k)| Nd2::E(ns, t.into(), a, k)).boxed()
}
fn list(x: BoxedStrategy<Nd2>, max: usize) -> BoxedStrategy<Vec<Nd2>> {
    prop::collection::vec(x, 0..max).boxed()
}
fn phrasing(depth: u32) -> BoxedStrategy<Nd2> {
    let txt = t_in(&["<x", "a>b", "&lt", "\u{a0}", "a & b"]);
    let raw = prop_oneof![
        el(&["script"], 0, list(t_in(&["if (a < b && c > d) {}", "&amp;"]), 2)),
        el(&["style"], 0, list(t_in(&["a > b { c: \"d\" }", "&lt;"]), 2)),
        el(&["noscript"], 0, list(t_in(&["<b>x<i>", "&amp;"]), 2)),
        el(&["iframe"], 0, list(t_in(&["<b>x<i>", "&amp;", "a < b"]), 2)),
        el(&["textarea"], 0, list(t_in(&["<b>x<i>", "&amp;", "a < b"]), 2)),
    ];
    let void = el(&["br", "img", "input", "wbr", "embed"], 0, Just(vec![]).boxed());
    if depth == 0 {
        return prop_oneof![6 => txt, 1 => comment().prop_map(Nd2::C), 1 => void].boxed();
    }
    let inner = list(phrasing(depth - 1), 4);
    prop_oneof![
        6 => txt,
        1 => comment().prop_map(Nd2::C),
        2 => void,
        1 => raw,
        5 => el(&["span", "em", "b", "i", "u", "code", "label", "x-card", "strong", "small"], 0, inner.clone()),
        1 => el(&["svg"], 1, list(svg(depth - 1), 4)),
        1 => el(&["math"], 2, list(math(depth - 1), 4)),
        1 => el(&["select"], 0, list(el(&["option"], 0, list(t_in(&["a<b"]), 2)), 3)),
    ]
    .boxed()
}
fn svg(depth: u32) -> BoxedStrategy<Nd2> {
    let xl = (value(), prop::sample::select(vec!["xlink:href{http://www.w3.org/1999/xlink}", "xml:lang{http://www.w3.org/XML/1998/namespace}", "viewBox", "preserveAspectRatio"]))
        .prop_map(|(v, k)| Nd2::E(1, "use".into(), vec![(k.into(), v.replace('\r', ""))], vec![]))
        .boxed();
    let txt = t_in(&["a<b", "x & y", "a > b"]);
    if depth == 0 {
        return prop_oneof![2 => xl, 1 => txt, 2 => el(&["path", "rect", "circle"], 1, Just(vec![]).boxed())].boxed();
    }
    let inner = list(svg(depth - 1), 4);
    prop_oneof![
        2 => xl,
        1 => txt.clone(),
        1 => comment().prop_map(Nd2::C),
        4 => el(&["g", "path", "linearGradient", "text", "a"], 1, inner),
        // names that mean something else in HTML
        2 => el(&["style", "script", "iframe", "textarea", "noscript", "xmp"], 1, list(prop_oneof![3 => txt.clone(), 1 => svg(0)].boxed(), 3)),
        2 => el(&["source", "link", "input", "area", "track", "param", "col"], 1, list(svg(0), 2)),
        2 => el(&["title", "desc", "foreignObject"], 1, list(phrasing(depth - 1), 3)),
    ]
    .boxed()
}
fn math(depth: u32) -> BoxedStrategy<Nd2> {
    let txt = t_in(&["a<b", "x & y"]);
    if depth == 0 {
        return prop_oneof![1 => txt, 2 => el(&["mspace", "none"], 2, Just(vec![]).boxed())].boxed();
    }
    prop_oneof![
        1 => txt,
        3 => el(&["mrow", "mfrac", "msup"], 2, list(math(depth - 1), 4)),
        2 => el(&["mi", "mo", "mtext"], 2, list(phrasing(depth - 1), 3)),
        1 => el(&["style", "script", "link", "input"], 2, list(math(0), 2)),
    ]
    .boxed()
}
fn flow(depth: u32) -> BoxedStrategy<Nd2> {
    if depth == 0 {
        return phrasing(0);
    }
    let inner = list(flow(depth - 1), 5);
    let td = el(&["td", "th"], 0, inner.clone());
    let tr = el(&["tr"], 0, list(td, 3));
    prop_oneof![
        5 => el(&["div", "section", "article", "main", "aside", "blockquote"], 0, inner.clone()),
        2 => el(&["p", "h1", "h2", "pre"], 0, list(phrasing(depth - 1), 4)),
        2 => el(&["ul", "ol"], 0, list(el(&["li"], 0, inner.clone()), 4)),
        1 => el(&["dl"], 0, list(el(&["dt", "dd"], 0, inner.clone()), 4)),
        1 => el(&["table"], 0, list(el(&["tbody", "thead"], 0, list(tr, 3)), 3)),
        1 => el(&["hr"], 0, Just(vec![]).boxed()),
        1 => el(&["template"], 0, list(phrasing(depth - 1), 3)),
        1 => el(&["noembed", "noframes", "xmp"], 0, list(t_in(&["<b>", "&amp;"]), 2)),
        4 => phrasing(depth - 1),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tree {
    pub doctype: bool,
    pub head: Vec<Nd2>,
    pub body_attrs: Vec<(String, String)>,
    pub body: Vec<Nd2>,
}
fn tree() -> BoxedStrategy<Tree> {
    let head = prop_oneof![
        el(&["title"], 0, list(t_in(&["a<b", "&amp;"]), 2)),
        el(&["style", "script", "noscript"], 0, list(t_in(&["a<b", "&amp;"]), 2)),
        el(&["meta", "link", "base"], 0, Just(vec![]).boxed()),
    ];
    (any::<bool>(), prop::collection::vec(head, 0..3), a2(), list(flow(3), 5))
        .prop_map(|(doctype, head, body_attrs, body)| Tree { doctype, head, body_attrs, body })
        .boxed()
}
fn lower(n: &Nd2, out: &mut Vec<N>) {
    match n {
        Nd2::T(t) => match out.last_mut() {
            _ if t.is_empty() => {}
            Some(N::T(p)) => p.push_str(t),
            _ => out.push(N::T(t.clone())),
        },
        Nd2::C(t) => out.push(N::C(t.clone())),
        Nd2::E(ns, tag, attrs, kids) => {
            let mut k = vec![];
            kids.iter().for_each(|c| lower(c, &mut k));
            if matches!(tag.as_str(), "pre" | "textarea")
                && *ns == 0
                && let Some(N::T(t)) = k.first_mut()
                && t.starts_with('\n')
            {
                t.insert(0, 'n');
            }
            out.push(N::E { ns: *ns, tag: tag.clone(), attrs: attrs.clone(), kids: k });
        }
    }
}
impl Tree {
    fn plain(&self) -> N {
        let e = |tag: &str, attrs: &[(String, String)], k: &[Nd2]| {
            let mut kids = vec![];
            k.iter().for_each(|c| lower(c, &mut kids));
            N::E { ns: 0, tag: tag.into(), attrs: attrs.to_vec(), kids }
        };
        let (h, b) = (e("head", &[], &self.head), e("body", &self.body_attrs, &self.body));
        N::E { ns: 0, tag: "html".into(), attrs: vec![], kids: vec![h, b] }
    }
    fn src(&self) -> String {
        let mut s = String::from(if self.doctype { "<!DOCTYPE html>" } else { "" });
        standard(&self.plain(), None, &mut s);
        s
    }
}
/// Documents HTML can express, as the generator means them, survive the way through text.
fn grammar(t: &Tree) -> Verdict {
    let plain = t.plain();
    let src = t.src();
    let same = read(&src).root.as_ref() == Some(&plain);
    let pass = with_src(&[src.clone()], false, |f| -> Verdict {
        if same {
            let d = f[0]();
            let got = root_of(&d);
            ensure!(got.as_ref() == Some(&plain), "meaning", "{src:?} parsed as {:?}", got.map(|n| n.show()));
        }
        writes(&f[0])
    })?;
    Ok(pass.label(same, "as the generator means it"))
}

pub fn run(ctx: &Ctx) {
    let g = |tags, opaque| Gen { tags, opaque, size: 24 };
    match ctx.id.as_str() {
        "H06" => {
            let rule = |b: &str| format!("{b}; non-trivial: HTML can express the document (by the standard's serialisation and the parser) and it has more than 3 nodes");
            ctx.campaign("grammar", &rule("documents derived from a grammar of expressible content: text levels, lists, tables, raw text, RCDATA, SVG, MathML, integration points"), ctx.cases(60_000, 2_000_000), tree, grammar, |t: &Tree| t.src());
            ctx.campaign("soup", &rule("strings of markup pieces"), ctx.cases(150_000, 4_000_000), soup_pair, |p: &Soup| with_src(&[p.a.concat()], p.fragment, |f| writes(&f[0])), |p: &Soup| p.a.concat());
            ctx.campaign("pages", &rule("pages with doctypes, comments and structure tags in front"), ctx.cases(100_000, 3_000_000), page, |p: &Page| with_src(&[p.src()], p.fragment, |f| writes(&f[0])), |p: &Page| p.src());
            ctx.campaign("built", &rule("documents built through the DOM interface"), ctx.cases(60_000, 2_000_000), move || doc(g(1, 0)), |d: &Doc| writes(&|| build(d)), |d: &Doc| d.html());
            ctx.campaign("real", &rule(REAL), ctx.cases(5_000, 150_000), || real(60, 0..2, false), |r: &Real| with_src(&r.srcs()[..1], false, |f| writes(&f[0])), Real::show);
        }
        "H07" => {
            let rule = |b: &str| format!("{b}; non-trivial: more than 3 nodes");
            ctx.campaign("soup", &rule("strings of up to 14 pieces of broken and unusual markup"), ctx.cases(250_000, 8_000_000), soup_pair, |p: &Soup| parses(&p.a.concat(), p.fragment), |p: &Soup| p.a.concat());
            ctx.campaign("pages", &rule("the same, with doctypes, comments, byte order marks and structure tags in front"), ctx.cases(250_000, 8_000_000), page, |p: &Page| parses(&p.src(), p.fragment), |p: &Page| p.src());
            ctx.campaign("documents", &rule(PAIRS), ctx.cases(100_000, 3_000_000), move || doc(g(2, 2)), |d: &Doc| parses(&d.html(), false), |d: &Doc| d.html());
            ctx.campaign("real", &rule(REAL), ctx.cases(20_000, 600_000), || (real(60, 1..2, false), any::<bool>()).boxed(), |r: &(Real, bool)| parses(&r.0.pair().1, r.1), |r: &(Real, bool)| r.0.show());
        }
        _ => unreachable!(),
    }
}

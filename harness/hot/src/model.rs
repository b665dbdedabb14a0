//! Generated documents and edits, the harness's own HTML writer, and the plain
//! tree every result is compared in.

use engine::proptest::collection::vec;
use engine::proptest::prelude::*;
use hotmeal::{Document, NodeId, NodeKind, QualName};
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------ plain trees

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N {
    E { ns: u8, tag: String, attrs: Vec<(String, String)>, kids: Vec<N> },
    T(String),
    C(String),
    D(Vec<N>),
}

pub const URLS: [&str; 3] = ["http://www.w3.org/1999/xhtml", "http://www.w3.org/2000/svg", "http://www.w3.org/1998/Math/MathML"];

pub fn qname(q: &QualName) -> String {
    let p = q.prefix.as_ref().map(|p| format!("{p}:")).unwrap_or_default();
    let ns: &str = q.ns.as_ref();
    if ns.is_empty() { format!("{p}{}", q.local) } else { format!("{p}{}{{{ns}}}", q.local) }
}

pub fn of(doc: &Document, id: NodeId) -> N {
    let kids = || doc.children(id).map(|c| of(doc, c)).collect::<Vec<_>>();
    let n = doc.get(id);
    match &n.kind {
        NodeKind::Document => N::D(kids()),
        NodeKind::Text(t) => N::T(t.as_ref().to_string()),
        NodeKind::Comment(t) => N::C(t.as_ref().to_string()),
        NodeKind::Element(e) => N::E {
            ns: match n.ns {
                hotmeal::Namespace::Html => 0,
                hotmeal::Namespace::Svg => 1,
                hotmeal::Namespace::MathMl => 2,
            },
            tag: e.tag.to_string(),
            attrs: e.attrs.iter().map(|(k, v)| (qname(k), v.as_ref().to_string())).collect(),
            kids: kids(),
        },
    }
}

pub fn body_of(doc: &Document) -> Option<N> {
    doc.body().map(|b| of(doc, b))
}

/// Without empty text nodes (positions a patch emptied), and without the
/// namespaces when `ns` is false.
pub fn norm(n: &N, ns: bool) -> N {
    let ks = |k: &Vec<N>| {
        k.iter().filter(|c| !matches!(c, N::T(t) if t.is_empty())).map(|c| norm(c, ns)).collect::<Vec<_>>()
    };
    match n {
        N::E { ns: s, tag, attrs, kids } => {
            N::E { ns: if ns { *s } else { 0 }, tag: tag.clone(), attrs: attrs.clone(), kids: ks(kids) }
        }
        N::D(k) => N::D(ks(k)),
        o => o.clone(),
    }
}

/// Also joins neighbouring text nodes, as a reader of the markup must.
pub fn join(n: &N) -> N {
    let ks = |k: &Vec<N>| {
        let mut out: Vec<N> = vec![];
        for c in k {
            match (out.last_mut(), join(c)) {
                (_, N::T(t)) if t.is_empty() => {}
                (Some(N::T(p)), N::T(t)) => p.push_str(&t),
                (_, c) => out.push(c),
            }
        }
        out
    };
    match n {
        N::E { ns, tag, attrs, kids } => {
            N::E { ns: *ns, tag: tag.clone(), attrs: attrs.clone(), kids: ks(kids) }
        }
        N::D(k) => N::D(ks(k)),
        o => o.clone(),
    }
}

impl N {
    pub fn kids(&self) -> &[N] {
        match self {
            N::E { kids, .. } | N::D(kids) => kids,
            _ => &[],
        }
    }
    pub fn count(&self) -> usize {
        1 + self.kids().iter().map(|k| k.count()).sum::<usize>()
    }
    pub fn has(&self, f: &dyn Fn(&N) -> bool) -> bool {
        f(self) || self.kids().iter().any(|k| k.has(f))
    }
    /// An element with neither attributes nor children.
    pub fn is_bare(&self) -> bool {
        matches!(self, N::E { attrs, kids, .. } if attrs.is_empty() && kids.is_empty())
    }
    pub fn opaque(&self) -> bool {
        matches!(self, N::E { attrs, .. } if attrs.iter().any(|a| a.0 == "data-hotmeal-opaque"))
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_in(&mut s);
        s
    }
    fn show_in(&self, s: &mut String) {
        match self {
            N::T(t) => s.push_str(&format!("{t:?}")),
            N::C(t) => s.push_str(&format!("!{t:?}")),
            N::D(k) => k.iter().for_each(|k| k.show_in(s)),
            N::E { ns, tag, attrs, kids } => {
                let p = ["", "svg:", "math:"][*ns as usize];
                s.push_str(&format!("({p}{tag}"));
                for (k, v) in attrs {
                    s.push_str(&format!(" {k}={v:?}"));
                }
                for k in kids {
                    s.push(' ');
                    k.show_in(s);
                }
                s.push(')');
            }
        }
    }
}

// -------------------------------------------------------------- generation

pub const TAGS: &[&str] = &[
    "div", "span", "section", "x-card", "em", "p", "ul", "li", "a", "b", "article", "h2", // 0..12 ordinary
    "br", "img", "input", // 12..15 void
    "table", "tbody", "tr", "td", // 15..19
    "svg", "g", "path", "foreignObject", "title", "math", "mi", // 19..26
    "script", "style", "textarea", "pre", "button", "select", "option", "form", "template", "noscript", // 26..36
    "iframe", "main", "i", "u", "label", "dl", "dt", "dd", "body", "html", "head", // 36..47
    "area", "base", "col", "embed", "hr", "link", "meta", "param", "source", "track", "wbr", // 47..58
    "mo", "mn", "ms", "mtext", "annotation-xml", "mrow", "mglyph", "malignmark", "desc", "linearGradient", "use", // 58..69
    "caption", "colgroup", "thead", "tfoot", "th", "h1", "strong", "nobr", "font", "marquee", "object", "details", "summary",
    "ruby", "rt", "rp", "optgroup", "fieldset", "legend", "video", "audio", "picture", "canvas", "dialog", "center", "xmp",
    "noembed", "noframes", "address", "ol", "s", "code", "keygen", "image", "frameset", "frame", "applet", "search", "datalist", // 69..108
];
/// Elements that nest in any way without the parser rearranging them.
pub const SAFE: &[u8] = &[0, 1, 2, 3, 10, 37];
pub const ATTRS: &[&str] = &[
    "class", "id", "style", "href", "title", "data-x", "data-hotmeal-opaque", "src", "data-y", "aria-label",
    "type", "hidden", "xlink:href", "xml:lang", "lang", "xmlns", "xmlns:xlink", "encoding", // 17: decides what an annotation-xml holds
];
pub const VOID: &[&str] = &[
    "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr",
];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Nd {
    /// tag, attributes, children
    E(u8, Vec<(u8, String)>, Vec<Nd>),
    T(String),
    C(String),
}

pub fn tag(i: u8) -> &'static str {
    TAGS[i as usize % TAGS.len()]
}
pub fn attr(i: u8) -> &'static str {
    ATTRS[i as usize % ATTRS.len()]
}

pub fn esc_text(s: &str, out: &mut String) {
    for c in s.chars() {
        match c {
            '&' => out.push_str("&amp;"),
            '<' => out.push_str("&lt;"),
            '>' => out.push_str("&gt;"),
            c => out.push(c),
        }
    }
}
pub fn esc_attr(s: &str, out: &mut String) {
    for c in s.chars() {
        match c {
            '&' => out.push_str("&amp;"),
            '"' => out.push_str("&#34;"),
            c => out.push(c),
        }
    }
}
pub fn write_attrs(a: &[(u8, String)], out: &mut String) {
    for (i, (k, v)) in a.iter().enumerate() {
        if a[..i].iter().any(|(j, _)| attr(*j) == attr(*k)) {
            continue;
        }
        out.push(' ');
        out.push_str(attr(*k));
        out.push_str("=\"");
        esc_attr(v, out);
        out.push('"');
    }
}
pub fn write(n: &Nd, out: &mut String) {
    match n {
        Nd::T(t) => esc_text(t, out),
        Nd::C(t) => {
            out.push_str("<!--");
            out.push_str(t);
            out.push_str("-->");
        }
        Nd::E(t, a, k) => {
            let t = tag(*t);
            out.push('<');
            out.push_str(t);
            write_attrs(a, out);
            out.push('>');
            if VOID.contains(&t) {
                return;
            }
            for c in k {
                match (t, c) {
                    ("script" | "style" | "noscript" | "iframe" | "xmp" | "noembed" | "noframes", Nd::T(x)) => out.push_str(&x.replace('<', "")),
                    _ => write(c, out),
                }
            }
            out.push_str("</");
            out.push_str(t);
            out.push('>');
        }
    }
}
/// The tree a parser is to build from what `write` wrote, for ordinary tags.
pub fn plain(n: &Nd) -> N {
    match n {
        Nd::T(t) => N::T(t.clone()),
        Nd::C(t) => N::C(t.clone()),
        Nd::E(t, a, k) => N::E { ns: 0, tag: tag(*t).into(), attrs: plain_attrs(a), kids: k.iter().map(plain).collect() },
    }
}
pub fn plain_attrs(a: &[(u8, String)]) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    for (k, v) in a {
        if !out.iter().any(|(j, _)| j == attr(*k)) {
            out.push((attr(*k).into(), v.clone()));
        }
    }
    out
}

/// A whole document as source text.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Doc {
    /// 0: full document, 1: body tag only, 2: bare content, 3: no html structure but a doctype
    pub form: u8,
    pub doctype: bool,
    /// A comment in front of `<html>`
    pub lead: bool,
    pub head: Vec<Nd>,
    pub html_attrs: Vec<(u8, String)>,
    pub body_attrs: Vec<(u8, String)>,
    pub body: Vec<Nd>,
}

impl Doc {
    pub fn html(&self) -> String {
        let mut s = String::new();
        if self.doctype {
            s.push_str("<!DOCTYPE html>");
        }
        if self.lead {
            s.push_str("<!--lead-->");
        }
        match self.form % 4 {
            0 => {
                s.push_str("<html");
                write_attrs(&self.html_attrs, &mut s);
                s.push_str("><head>");
                self.head.iter().for_each(|n| write(n, &mut s));
                s.push_str("</head><body");
                write_attrs(&self.body_attrs, &mut s);
                s.push('>');
                self.body.iter().for_each(|n| write(n, &mut s));
                s.push_str("</body></html>");
            }
            1 => {
                s.push_str("<body");
                write_attrs(&self.body_attrs, &mut s);
                s.push('>');
                self.body.iter().for_each(|n| write(n, &mut s));
            }
            _ => self.body.iter().for_each(|n| write(n, &mut s)),
        }
        s
    }
}

pub fn text() -> BoxedStrategy<String> {
    let one = prop_oneof![
        6 => prop::sample::select(vec!["a", "b", "hello", "one two", "x", "lorem ipsum dolor sit amet", "42"]).prop_map(String::from),
        2 => prop::sample::select(vec![" ", "\n  ", "  a  ", "é", "日本語 text", "🦀", "a\u{a0}b", "\t", "cr\rlf", "line\nline", "Hello", "a ", " a"]).prop_map(String::from),
        2 => prop::sample::select(vec!["<", ">", "&", "&amp;", "&lt;b>", "a<b", "\"q\"", "'", "&copy", "&#65;", "</div>", "<!--", "-->", "]]>"]).prop_map(String::from),
        1 => "[a-c]{1,3}",
        1 => "\\PC{1,6}",
    ]
    .boxed();
    prop_oneof![8 => one.clone(), 1 => vec(one, 2..5).prop_map(|v| v.concat())].boxed()
}
pub fn comment() -> BoxedStrategy<String> {
    prop_oneof![
        4 => prop::sample::select(vec!["c", "note", " spaced ", "", "a - b", "<b>", "&amp;", "x\ny"]).prop_map(String::from),
        1 => "[a-c ]{0,4}",
    ]
    .boxed()
}
pub fn value() -> BoxedStrategy<String> {
    let one = prop_oneof![
        6 => prop::sample::select(vec!["a", "b", "c", "", "x y", "1", "false", "true"]).prop_map(String::from),
        2 => prop::sample::select(vec!["\"", "'", "<", ">", "&", "&amp;", "a&b=c", "é", "\n", " lead", "javascript:x", "A", "a ", "text/html", "Application/XHTML+xml"]).prop_map(String::from),
        1 => "[a-d]{1,4}",
    ]
    .boxed();
    let lead = prop::sample::select(vec!["javascript:", "data:text/html,", "http://h/?a=b", "#", "/", "{", "[", "$", "color: red; "]);
    prop_oneof![
        10 => one.clone(),
        1 => vec(one.clone(), 2..5).prop_map(|v| v.concat()),
        1 => (lead, vec(one, 1..4)).prop_map(|(l, v)| format!("{l}{}", v.concat())),
    ]
    .boxed()
}
pub fn attrs(opaque: u32) -> BoxedStrategy<Vec<(u8, String)>> {
    let key = prop_oneof![20 => 0u8..6, 5 => 7u8..18];
    let key = if opaque > 0 { prop_oneof![24 => key, opaque => Just(6u8)].boxed() } else { key.boxed() };
    vec((key, value()), 0..4).prop_map(dedup).boxed()
}
fn dedup(a: Vec<(u8, String)>) -> Vec<(u8, String)> {
    let mut out: Vec<(u8, String)> = vec![];
    for x in a {
        if !out.iter().any(|y| y.0 == x.0) {
            out.push(x);
        }
    }
    out
}

#[derive(Clone, Copy, Debug)]
pub struct Gen {
    /// 0: only freely nesting tags, 1: ordinary, 2: everything, 3: much SVG and MathML
    pub tags: u8,
    /// weight of the opaque mark among attributes
    pub opaque: u32,
    pub size: u32,
}

pub fn node(g: Gen) -> BoxedStrategy<Nd> {
    let t = match g.tags {
        0 => prop::sample::select(SAFE.to_vec()).boxed(),
        1 => prop_oneof![6 => prop::sample::select(SAFE.to_vec()), 4 => 0u8..15, 1 => 15u8..19].boxed(),
        3 => prop_oneof![4 => prop::sample::select(SAFE.to_vec()), 2 => Just(8u8), 8 => 19u8..26, 4 => 58u8..69].boxed(),
        _ => prop_oneof![8 => prop::sample::select(SAFE.to_vec()), 8 => 0u8..44, 2 => 44u8..47, 3 => 47u8..108].boxed(),
    };
    let leaf = prop_oneof![
        5 => text().prop_map(Nd::T),
        1 => comment().prop_map(Nd::C),
        2 => (t.clone(), attrs(g.opaque)).prop_map(|(t, a)| Nd::E(t, a, vec![])),
    ];
    leaf.prop_recursive(5, g.size, 6, move |inner| {
        let any = (t.clone(), attrs(g.opaque), vec(inner.clone(), 0..6)).prop_map(|(t, a, k)| Nd::E(t, a, k));
        if g.tags != 3 {
            return any.boxed();
        }
        let kinds = vec!["text/html", "application/xhtml+xml", "TEXT/HTML", "text/htm", "MathML-Content", ""];
        let holder = (prop::sample::select(kinds), attrs(0), vec(inner.clone(), 0..4), vec(inner, 0..3)).prop_map(|(e, mut a, k, mut r)| {
            a.push((17, e.into()));
            r.insert(0, Nd::E(62, a, k));
            Nd::E(24, vec![], r)
        });
        prop_oneof![8 => any, 1 => holder].boxed()
    })
    .boxed()
}
/// A list of nodes; repeated and shared pieces are common.
pub fn nodes(g: Gen, max: usize) -> BoxedStrategy<Vec<Nd>> {
    let safe = prop::sample::select(SAFE.to_vec());
    let small = prop_oneof![
        3 => text().prop_map(Nd::T),
        1 => (safe.clone(), attrs(g.opaque)).prop_map(|(t, a)| Nd::E(t, a, vec![])),
        2 => (safe.clone(), text()).prop_map(|(t, s)| Nd::E(t, vec![], vec![Nd::T(s)])),
    ];
    prop_oneof![
        400 => vec(node(g), 0..max),
        // far down and far along
        2 => (vec((safe, attrs(0)), 1..4), 15usize..100, vec(node(g), 1..4), node(g), any::<bool>()).prop_map(|(t, n, k, with, after)| {
            vec![(0..n).fold(k, |k, i| {
                let (t, a) = t[i % t.len()].clone();
                vec![Nd::E(t, a, k)]
            }), if after { vec![with] } else { vec![] }].concat()
        }),
        2 => (vec(small, 1..40), 60usize..400).prop_map(|(p, n)| (0..n).map(|i| p[i * i % p.len()].clone()).collect()),
        100 => (node(g), 2usize..5).prop_map(|(n, k)| vec![n; k]),
        100 => (vec(node(g), 1..3), vec(0usize..8, 2..6)).prop_map(|(p, ix)| ix.into_iter().map(|i| p[i % p.len()].clone()).collect()),
    ]
    .boxed()
}
pub fn doc(g: Gen) -> BoxedStrategy<Doc> {
    (
        prop_oneof![5 => Just(0u8), 1 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8)],
        prop::bool::weighted(0.5),
        prop::bool::weighted(0.05),
        prop_oneof![3 => Just(vec![]), 1 => (text(), text()).prop_map(|(a, b)| vec![Nd::E(23, vec![], vec![Nd::T(a)]), Nd::E(27, vec![], vec![Nd::T(b)])])],
        prop_oneof![4 => Just(vec![]), 1 => attrs(0)],
        prop_oneof![3 => Just(vec![]), 2 => attrs(0)],
        nodes(g, 6),
    )
        .prop_map(|(form, doctype, lead, head, html_attrs, body_attrs, body)| Doc {
            form,
            doctype,
            lead,
            head,
            html_attrs,
            body_attrs,
            body,
        })
        .boxed()
}

// ------------------------------------------------------------------- edits

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ed {
    Ins(u16, u16, Nd),
    Del(u16),
    Mv(u16, u16, u16),
    Text(u16, String),
    Attr(u16, u8, String),
    RmAttr(u16, u8),
    RotAttrs(u16, u8),
    Wrap(u16, u8),
    Unwrap(u16),
    Dup(u16, u16, u16),
    Swap(u16, u16),
    Retag(u16, u8),
    Opaque(u16, bool),
    BodyAttr(u8, String),
    RmBodyAttr(u8),
    Rev(u16),
}

pub fn edit(g: Gen) -> BoxedStrategy<Ed> {
    let i = any::<u16>();
    let t = match g.tags {
        0 => prop::sample::select(SAFE.to_vec()).boxed(),
        3 => prop_oneof![0u8..12, 19u8..26, 58u8..69].boxed(),
        _ => (0u8..15).boxed(),
    };
    prop_oneof![
        4 => (i, i, node(Gen { size: 6, ..g })).prop_map(|(a, b, n)| Ed::Ins(a, b, n)),
        4 => i.prop_map(Ed::Del),
        5 => (i, i, i).prop_map(|(a, b, c)| Ed::Mv(a, b, c)),
        3 => (i, text()).prop_map(|(a, t)| Ed::Text(a, t)),
        3 => (i, prop_oneof![4 => 0u8..6, 1 => 12u8..18], value()).prop_map(|(a, k, v)| Ed::Attr(a, k, v)),
        2 => (i, prop_oneof![4 => 0u8..8, 1 => 12u8..18]).prop_map(|(a, k)| Ed::RmAttr(a, k)),
        1 => (i, 1u8..4).prop_map(|(a, k)| Ed::RotAttrs(a, k)),
        2 => (i, t.clone()).prop_map(|(a, k)| Ed::Wrap(a, k)),
        2 => i.prop_map(Ed::Unwrap),
        2 => (i, i, i).prop_map(|(a, b, c)| Ed::Dup(a, b, c)),
        2 => (i, i).prop_map(|(a, b)| Ed::Swap(a, b)),
        1 => (i, t).prop_map(|(a, k)| Ed::Retag(a, k)),
        1 => (i, any::<bool>()).prop_map(move |(a, b)| if g.opaque > 0 { Ed::Opaque(a, b) } else { Ed::Del(a) }),
        1 => (0u8..6, value()).prop_map(|(k, v)| Ed::BodyAttr(k, v)),
        1 => (0u8..6).prop_map(Ed::RmBodyAttr),
        1 => i.prop_map(Ed::Rev),
    ]
    .boxed()
}

fn paths(k: &[Nd], at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    for (i, n) in k.iter().enumerate() {
        at.push(i);
        out.push(at.clone());
        if let Nd::E(_, _, k) = n {
            paths(k, at, out);
        }
        at.pop();
    }
}
pub fn list_at<'x>(body: &'x mut Vec<Nd>, p: &[usize]) -> &'x mut Vec<Nd> {
    let mut cur = body;
    for i in p {
        match &mut cur[*i] {
            Nd::E(_, _, k) => cur = k,
            _ => unreachable!("path through a leaf"),
        }
    }
    cur
}
fn all_paths(body: &[Nd]) -> Vec<Vec<usize>> {
    let mut out = vec![];
    paths(body, &mut vec![], &mut out);
    out
}
fn parents(body: &[Nd]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut b = body.to_vec();
    for p in all_paths(body) {
        let (l, q) = p.split_last().unwrap();
        if let Nd::E(..) = &list_at(&mut b, q)[*l] {
            out.push(p);
        }
    }
    out
}

/// Applies one edit; true if something changed.
pub fn apply(d: &mut Doc, e: &Ed) -> bool {
    let all = all_paths(&d.body);
    let pick = |i: u16| all.get(i as usize % all.len().max(1)).cloned();
    let body = &mut d.body;
    macro_rules! at {
        ($i:expr) => {{
            let Some(p) = pick($i) else { return false };
            let (l, q) = p.split_last().unwrap();
            let (l, q) = (*l, q.to_vec());
            (list_at(body, &q), l)
        }};
    }
    match e {
        Ed::Ins(p, i, n) => {
            let ps = parents(body);
            let l = list_at(body, &ps[*p as usize % ps.len()]);
            let i = *i as usize % (l.len() + 1);
            l.insert(i, n.clone());
        }
        Ed::Del(i) => {
            let (l, i) = at!(*i);
            l.remove(i);
        }
        Ed::Mv(i, p, j) => {
            let n = {
                let (l, i) = at!(*i);
                l.remove(i)
            };
            let ps = parents(body);
            let l = list_at(body, &ps[*p as usize % ps.len()]);
            let j = *j as usize % (l.len() + 1);
            l.insert(j, n);
        }
        Ed::Dup(i, p, j) => {
            let n = {
                let (l, i) = at!(*i);
                l[i].clone()
            };
            let ps = parents(body);
            let l = list_at(body, &ps[*p as usize % ps.len()]);
            let j = *j as usize % (l.len() + 1);
            l.insert(j, n);
        }
        Ed::Text(i, t) => {
            let leaves: Vec<_> = {
                let mut b = body.clone();
                all.iter()
                    .filter(|p| {
                        let (l, q) = p.split_last().unwrap();
                        !matches!(list_at(&mut b, q)[*l], Nd::E(..))
                    })
                    .cloned()
                    .collect()
            };
            if leaves.is_empty() {
                return false;
            }
            let p = &leaves[*i as usize % leaves.len()];
            let (l, q) = p.split_last().unwrap();
            match &mut list_at(body, q)[*l] {
                Nd::T(x) => *x = t.clone(),
                Nd::C(x) => *x = t.replace('-', "").replace('>', ""),
                _ => unreachable!(),
            }
        }
        Ed::Attr(i, k, v) => {
            let (l, i) = at!(*i);
            let Nd::E(_, a, _) = &mut l[i] else { return false };
            match a.iter_mut().find(|x| attr(x.0) == attr(*k)) {
                Some(x) => x.1 = v.clone(),
                None => a.push((*k, v.clone())),
            }
        }
        Ed::RmAttr(i, k) => {
            let (l, i) = at!(*i);
            let Nd::E(_, a, _) = &mut l[i] else { return false };
            a.retain(|x| attr(x.0) != attr(*k));
        }
        Ed::RotAttrs(i, k) => {
            let (l, i) = at!(*i);
            let Nd::E(_, a, _) = &mut l[i] else { return false };
            if a.is_empty() {
                return false;
            }
            let n = a.len();
            a.rotate_left(*k as usize % n);
        }
        Ed::Wrap(i, t) => {
            let (l, i) = at!(*i);
            let n = l.remove(i);
            l.insert(i, Nd::E(*t, vec![], vec![n]));
        }
        Ed::Unwrap(i) => {
            let (l, i) = at!(*i);
            let Nd::E(_, _, k) = l[i].clone() else { return false };
            l.splice(i..i + 1, k);
        }
        Ed::Swap(p, i) => {
            let ps = parents(body);
            let l = list_at(body, &ps[*p as usize % ps.len()]);
            if l.len() < 2 {
                return false;
            }
            let i = *i as usize % (l.len() - 1);
            l.swap(i, i + 1);
        }
        Ed::Retag(i, t) => {
            let (l, i) = at!(*i);
            let Nd::E(x, _, _) = &mut l[i] else { return false };
            *x = *t;
        }
        Ed::Opaque(i, on) => {
            let (l, i) = at!(*i);
            let Nd::E(_, a, _) = &mut l[i] else { return false };
            a.retain(|x| x.0 != 6);
            if *on {
                a.push((6, "k".into()));
            }
        }
        Ed::BodyAttr(k, v) => match d.body_attrs.iter_mut().find(|x| x.0 == *k) {
            Some(x) => x.1 = v.clone(),
            None => d.body_attrs.push((*k, v.clone())),
        },
        Ed::RmBodyAttr(k) => d.body_attrs.retain(|x| x.0 != *k),
        Ed::Rev(p) => {
            let ps = parents(body);
            list_at(body, &ps[*p as usize % ps.len()]).reverse();
        }
    }
    true
}
/// Keeps documents in the sizes the campaign is meant for.
pub fn size(k: &[Nd]) -> usize {
    k.iter().map(|n| match n { Nd::E(_, _, k) => 1 + size(k), _ => 1 }).sum()
}

// ------------------------------------------------- documents from the API

/// Builds the document through the DOM interface instead of the parser: text
/// nodes may be empty or adjacent, and anything may contain anything.
pub fn build(d: &Doc) -> Document<'static> {
    fn q(k: u8) -> QualName {
        QualName::new(None, html5ever::ns!(), attr(k).into())
    }
    fn add(doc: &mut Document<'static>, p: NodeId, n: &Nd) {
        match n {
            Nd::T(t) => {
                let id = doc.create_text(t.clone());
                doc.append_child(p, id);
            }
            Nd::C(t) => {
                let id = doc.create_comment(t.clone());
                doc.append_child(p, id);
            }
            Nd::E(t, a, k) => {
                let id = doc.create_element(tag(*t));
                for (k, v) in a {
                    doc.set_attr(id, q(*k), v.clone());
                }
                doc.append_child(p, id);
                for c in k {
                    add(doc, id, c);
                }
            }
        }
    }
    let mut doc = Document::new();
    let b = doc.body().expect("a new document has a body");
    for (k, v) in &d.body_attrs {
        doc.set_attr(b, q(*k), v.clone());
    }
    for n in &d.body {
        add(&mut doc, b, n);
    }
    doc
}

// -------------------------------------------------------------------- soup

pub fn soup() -> BoxedStrategy<Vec<String>> {
    let t = prop_oneof![
        3 => prop::sample::select(vec!["div", "p", "b", "i", "a", "span", "li", "ul", "table", "tr", "td", "svg", "math", "template", "select", "option", "button", "form", "h1", "pre", "textarea", "script", "style", "title", "body", "html", "head", "br", "img", "noscript", "frameset", "iframe", "g", "foreignObject", "mi", "annotation-xml", "caption", "tbody", "nobr", "dd", "dt", "u", "center", "plaintext", "image", "input", "desc", "mtext", "x-y", "rt", "ruby"]).prop_map(String::from),
    ];
    let at = prop_oneof![
        3 => Just(String::new()),
        2 => (prop::sample::select(ATTRS.to_vec()), value()).prop_map(|(k, v)| format!(" {k}=\"{}\"", v.replace('"', ""))),
        1 => prop::sample::select(vec![" a", " a=b c=d", " a='1' a='2'", " A=x", " xlink:href=u", " xlink:href=u href=v", " href=v xlink:href=w id=x", " definitionurl=v", " viewbox=0", "/", " /", " =x", " a=\"", " <", " \u{0}", " type=hidden", " encoding=text/html", " xmlns=http://www.w3.org/2000/svg", " xmlns:xlink=u", " data-hotmeal-opaque=false", " color=red"]).prop_map(String::from),
    ];
    let piece = prop_oneof![
        6 => (t.clone(), at).prop_map(|(t, a)| format!("<{t}{a}>")),
        5 => t.clone().prop_map(|t| format!("</{t}>")),
        4 => text(),
        1 => prop::sample::select(vec!["<!--", "-->", "<!-- c -->", "<!DOCTYPE html>", "<!doctype>", "<?pi x?>", "<![CDATA[x]]>", "</", "<", "<a", "\u{0}", "&", "&#0;", "&notin;", "&notit;", "&#x80;", "\r\n", "\n", " ", "</ x>", "<!>", "<!--->", "<br/>", "<svg/>", "</br>", "</p>", "<p/>"]).prop_map(String::from),
    ];
    let piece = prop_oneof![15 => piece.clone(), 1 => (piece, any::<u32>()).prop_map(|(p, m)| cased(&p, m))];
    vec(piece, 0..14).boxed()
}

/// Without the mark of opaque elements, however it is spelt.
pub fn unmark(s: &str) -> String {
    let mark = "data-hotmeal-opaque";
    let lower = s.to_ascii_lowercase();
    let mut out = String::new();
    let mut from = 0;
    while let Some(i) = lower[from..].find(mark) {
        out.push_str(&s[from..from + i]);
        out.push_str("data-hotmeal-");
        from += i + mark.len();
    }
    out + &s[from..]
}
/// Some letters of the text in the other case.
pub fn cased(s: &str, mask: u32) -> String {
    s.chars()
        .enumerate()
        .map(|(i, c)| match mask >> (i % 32) & 1 {
            0 => c,
            _ if c.is_ascii_lowercase() => c.to_ascii_uppercase(),
            _ => c.to_ascii_lowercase(),
        })
        .collect()
}

// ------------------------------------------------------------- large pages

/// Pages as sites have them: lists, tables, cards and deep nesting, of items that come, go,
/// change and change places.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Big {
    /// kind and number of items
    pub parts: Vec<(u8, u16)>,
    /// for every step: part, what, where, where to
    pub steps: Vec<Vec<(u8, u8, u16, u16)>>,
}
pub fn big(steps: std::ops::Range<usize>) -> BoxedStrategy<Big> {
    let n = prop_oneof![4 => 0u16..40, 3 => 40u16..300, 1 => 300u16..900];
    let edit = (any::<u8>(), any::<u8>(), any::<u16>(), any::<u16>());
    (prop::collection::vec((any::<u8>(), n), 1..5), prop::collection::vec(prop::collection::vec(edit, 0..8), steps))
        .prop_map(|(parts, steps)| Big { parts, steps })
        .boxed()
}
impl Big {
    pub fn htmls(&self) -> Vec<String> {
        // an item: key and version
        let mut v: Vec<(u8, Vec<(u32, u8)>)> =
            self.parts.iter().map(|p| (p.0, (0..p.1.min(2000) as u32).map(|i| (i, 0)).collect())).collect();
        let mut fresh = 100_000;
        let mut out = vec![Self::page(&v)];
        for s in &self.steps {
            for (p, what, x, y) in s {
                if v.is_empty() {
                    break;
                }
                let np = v.len();
                let p = *p as usize % np;
                let l = &mut v[p].1;
                let n = l.len();
                let (i, j) = (*x as usize % n.max(1), *y as usize % n.max(1));
                let (lo, hi) = (i.min(j), i.max(j));
                match what % 16 {
                    0..=1 => {
                        fresh += 1;
                        l.insert(*x as usize % (n + 1), (fresh, 0));
                    }
                    12 => v.swap(p, *y as usize % np),
                    13 => v[p].0 = v[p].0.wrapping_add(1 + *y as u8 % 7),
                    _ if n == 0 => {}
                    2..=3 => drop(l.remove(i)),
                    4..=5 => l[i].1 = l[i].1.wrapping_add(1),
                    6 => l.swap(i, j),
                    7 => {
                        let e = l.remove(i);
                        l.insert(j, e);
                    }
                    8 => l[lo..=hi].reverse(),
                    9 => l[lo..=hi].rotate_left(1),
                    10 => drop(l.drain(lo..=hi)),
                    11 => l.sort_by_key(|e| (e.0.wrapping_mul(2_654_435_761), e.1)),
                    14 => {
                        let e = l.remove(i);
                        let l = &mut v[*y as usize % np].1;
                        let at = *x as usize % (l.len() + 1);
                        l.insert(at, e);
                    }
                    _ => {
                        let e = l[i];
                        l.insert(j, e);
                    }
                }
            }
            out.push(Self::page(&v));
        }
        out
    }
    fn page(v: &[(u8, Vec<(u32, u8)>)]) -> String {
        use std::fmt::Write;
        let mut s = String::from("<!DOCTYPE html><html><head><title>t</title></head><body>");
        for (kind, l) in v {
            match kind % 8 {
                0 => {
                    s.push_str("<ul class=list>");
                    for (k, n) in l {
                        write!(s, "<li id=i{k}><a href=/{k}>entry {k}</a> seen {n} times</li>").unwrap();
                    }
                    s.push_str("</ul>");
                }
                1 => {
                    s.push_str("<table><tbody>");
                    for (k, n) in l {
                        write!(s, "<tr><td>{k}</td><td class=c{n}>{}</td><td></td></tr>", k % 5).unwrap();
                    }
                    s.push_str("</tbody></table>");
                }
                2 => {
                    for (k, n) in l {
                        write!(s, "<div class=l{n}>{}", if k % 9 == 0 { format!("level {k}") } else { String::new() }).unwrap();
                    }
                    for (k, n) in l.iter().rev() {
                        s.push_str(if k % 7 == 0 && *n % 2 == 1 { "after</div>" } else { "</div>" });
                    }
                }
                3 => {
                    for (k, n) in l {
                        write!(s, "<p>text {k} <em>with <b>{n}</b></em> and <br> more</p>").unwrap();
                    }
                }
                4 => {
                    // all alike, but for the changed ones
                    for (_, n) in l {
                        write!(s, "<x-card><h2>card</h2><p>same</p>{}</x-card>", if *n > 0 { "<i>new</i>" } else { "" }).unwrap();
                    }
                }
                5 => {
                    s.push_str("<svg><g>");
                    for (k, n) in l {
                        write!(s, "<path d=M{k} fill=f{n}></path>").unwrap();
                    }
                    s.push_str("</g></svg>");
                }
                6 => {
                    s.push_str("<pre>");
                    for (k, n) in l {
                        write!(s, "line {k} <span>{n}</span>").unwrap();
                    }
                    s.push_str("</pre>");
                }
                _ => {
                    s.push_str("<section>");
                    for (k, n) in l {
                        match k % 4 {
                            0 => write!(s, "<!--{k}--><hr>").unwrap(),
                            1 => write!(s, "<div><div><span>{n}</span></div></div>").unwrap(),
                            2 => write!(s, "words {n} <wbr>").unwrap(),
                            _ => write!(s, "<select><option value={k}>{n}</option></select>").unwrap(),
                        }
                    }
                    s.push_str("</section>");
                }
            }
        }
        s.push_str("</body></html>");
        s
    }
}

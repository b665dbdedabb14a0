//! Stand-in for web-sys: the parts of the DOM standard the client uses, on
//! tables that each thread has for itself. `fake` is the harness's side.
use std::cell::RefCell;
use std::ops::Deref;
use wasm_bindgen::{JsCast, JsValue, Val};

const HTML: &str = "http://www.w3.org/1999/xhtml";
const XML: &str = "http://www.w3.org/XML/1998/namespace";
const XMLNS: &str = "http://www.w3.org/2000/xmlns/";

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Document,
    Fragment,
    /// Namespace, prefix, local name, attributes, template contents
    Element { ns: String, prefix: Option<String>, local: String, attrs: Vec<usize>, content: Option<usize> },
    Text(String),
    Comment(String),
}
struct Rec {
    kind: Kind,
    parent: Option<usize>,
    kids: Vec<usize>,
}
#[derive(Clone)]
struct AttrRec {
    ns: String,
    prefix: Option<String>,
    local: String,
    value: String,
    owner: Option<usize>,
}
impl AttrRec {
    fn name(&self) -> String {
        match &self.prefix {
            Some(p) => format!("{p}:{}", self.local),
            None => self.local.clone(),
        }
    }
}
#[derive(Default)]
struct World {
    nodes: Vec<Rec>,
    attrs: Vec<AttrRec>,
    /// Names are checked as older browsers check them.
    strict: bool,
    events: Vec<fake::Dispatched>,
    path: Option<String>,
    reloads: usize,
}
thread_local! {
    static WORLD: RefCell<World> = RefCell::default();
    static HOOKS: RefCell<Option<fake::Hooks>> = const { RefCell::new(None) };
}
fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}
fn throw<T>(name: &str, message: String) -> Result<T, JsValue> {
    let o = js_sys::Object::new();
    let _ = js_sys::Reflect::set(&o, &"name".into(), &name.into());
    let _ = js_sys::Reflect::set(&o, &"message".into(), &format!("{name}: {message}").into());
    Err(o.into())
}

impl World {
    fn node(&mut self, kind: Kind) -> usize {
        self.nodes.push(Rec { kind, parent: None, kids: vec![] });
        self.nodes.len() - 1
    }
    fn element(&mut self, ns: &str, prefix: Option<String>, local: &str) -> usize {
        let template = ns == HTML && local == "template";
        let content = if template { Some(self.node(Kind::Fragment)) } else { None };
        self.node(Kind::Element { ns: ns.into(), prefix, local: local.into(), attrs: vec![], content })
    }
    fn is_html(&self, n: usize) -> bool {
        matches!(&self.nodes[n].kind, Kind::Element { ns, .. } if ns == HTML)
    }
    fn attrs(&self, n: usize) -> &[usize] {
        match &self.nodes[n].kind {
            Kind::Element { attrs, .. } => attrs,
            _ => &[],
        }
    }
    fn attrs_mut(&mut self, n: usize) -> &mut Vec<usize> {
        match &mut self.nodes[n].kind {
            Kind::Element { attrs, .. } => attrs,
            _ => panic!("no element"),
        }
    }
    fn lower(&self, n: usize, name: &str) -> String {
        if self.is_html(n) { name.to_ascii_lowercase() } else { name.into() }
    }
    fn by_name(&self, n: usize, name: &str) -> Option<usize> {
        let name = self.lower(n, name);
        self.attrs(n).iter().copied().find(|a| self.attrs[*a].name() == name)
    }
    fn add_attr(&mut self, n: usize, ns: &str, prefix: Option<String>, local: &str, value: &str) {
        self.attrs.push(AttrRec { ns: ns.into(), prefix, local: local.into(), value: value.into(), owner: Some(n) });
        let a = self.attrs.len() - 1;
        self.attrs_mut(n).push(a);
    }
    fn attr_record(&mut self, ns: String, prefix: Option<String>, local: String) -> usize {
        self.attrs.push(AttrRec { ns, prefix, local, value: String::new(), owner: None });
        self.attrs.len() - 1
    }
    fn copy(&mut self, n: usize, deep: bool) -> usize {
        let new = match self.nodes[n].kind.clone() {
            Kind::Element { ns, prefix, local, attrs, content } => {
                let e = self.element(&ns, prefix, &local);
                for a in attrs {
                    let a = self.attrs[a].clone();
                    self.add_attr(e, &a.ns, a.prefix, &a.local, &a.value);
                }
                if let (true, Some(c), Kind::Element { content: Some(to), .. }) = (deep, content, self.nodes[e].kind.clone()) {
                    self.copy_kids(c, to);
                }
                e
            }
            k => self.node(k),
        };
        if deep {
            self.copy_kids(n, new);
        }
        new
    }
    fn copy_kids(&mut self, from: usize, to: usize) {
        for c in self.nodes[from].kids.clone() {
            let k = self.copy(c, true);
            let end = self.nodes[to].kids.len();
            self.put(to, end, vec![k]);
        }
    }
    fn detach(&mut self, n: usize) {
        if let Some(p) = self.nodes[n].parent.take() {
            self.nodes[p].kids.retain(|c| *c != n);
        }
    }
    /// Whether `a` is `b`, above it, or the host of a fragment above it.
    fn above(&self, a: usize, b: usize) -> bool {
        let mut x = Some(b);
        while let Some(i) = x {
            if i == a {
                return true;
            }
            x = self.nodes[i].parent.or_else(|| {
                self.nodes.iter().position(|r| matches!(r.kind, Kind::Element { content: Some(c), .. } if c == i))
            });
        }
        false
    }
    fn can_hold(&self, parent: usize, n: usize) -> Result<(), String> {
        if !matches!(self.nodes[parent].kind, Kind::Element { .. } | Kind::Fragment | Kind::Document) {
            return Err("the parent cannot have children".into());
        }
        if self.above(n, parent) {
            return Err("the new child contains the parent".into());
        }
        if matches!(self.nodes[n].kind, Kind::Document) {
            return Err("a document cannot be a child".into());
        }
        Ok(())
    }
    /// Takes a node, or the content of a fragment, out of where it is.
    fn taken(&mut self, n: usize) -> Vec<usize> {
        if self.nodes[n].kind == Kind::Fragment {
            let k = std::mem::take(&mut self.nodes[n].kids);
            k.iter().for_each(|c| self.nodes[*c].parent = None);
            k
        } else {
            self.detach(n);
            vec![n]
        }
    }
    fn put(&mut self, parent: usize, at: usize, new: Vec<usize>) {
        for (i, c) in new.into_iter().enumerate() {
            self.nodes[c].parent = Some(parent);
            self.nodes[parent].kids.insert(at + i, c);
        }
    }
    fn insert(&mut self, parent: usize, n: usize, before: Option<usize>) -> Result<(), (&'static str, String)> {
        self.can_hold(parent, n).map_err(|e| ("HierarchyRequestError", e))?;
        if before.is_some_and(|b| self.nodes[b].parent != Some(parent)) {
            return Err(("NotFoundError", "not a child of this node".into()));
        }
        let before = if before == Some(n) {
            let i = self.nodes[parent].kids.iter().position(|c| *c == n).unwrap();
            self.nodes[parent].kids.get(i + 1).copied()
        } else {
            before
        };
        let new = self.taken(n);
        let at = before.map_or(self.nodes[parent].kids.len(), |b| self.nodes[parent].kids.iter().position(|c| *c == b).unwrap());
        self.put(parent, at, new);
        Ok(())
    }
    fn replace(&mut self, parent: usize, n: usize, old: usize) -> Result<(), (&'static str, String)> {
        self.can_hold(parent, n).map_err(|e| ("HierarchyRequestError", e))?;
        if self.nodes[old].parent != Some(parent) {
            return Err(("NotFoundError", "the node to be replaced is not a child of this node".into()));
        }
        if n == old {
            return Ok(());
        }
        let new = self.taken(n);
        let at = self.nodes[parent].kids.iter().position(|c| *c == old).unwrap();
        self.detach(old);
        self.put(parent, at, new);
        Ok(())
    }
    fn set_text(&mut self, n: usize, s: &str) {
        match &mut self.nodes[n].kind {
            Kind::Text(t) | Kind::Comment(t) => *t = s.into(),
            Kind::Document => {}
            _ => {
                for c in std::mem::take(&mut self.nodes[n].kids) {
                    self.nodes[c].parent = None;
                }
                if !s.is_empty() {
                    let t = self.node(Kind::Text(s.into()));
                    self.put(n, 0, vec![t]);
                }
            }
        }
    }
    fn text(&self, n: usize, out: &mut String) {
        match &self.nodes[n].kind {
            Kind::Text(t) => out.push_str(t),
            Kind::Comment(_) => {}
            _ => self.nodes[n].kids.iter().for_each(|c| self.text(*c, out)),
        }
    }
    fn find(&self, n: usize, f: &dyn Fn(&World, usize) -> bool) -> Option<usize> {
        self.nodes[n].kids.iter().find_map(|c| if f(self, *c) { Some(*c) } else { self.find(*c, f) })
    }
    fn valid_attr(&self, s: &str) -> bool {
        if self.strict { xml_name(s) } else { !s.is_empty() && !s.contains(['\t', '\n', '\u{c}', '\r', ' ', '\0', '/', '=', '>']) }
    }
    fn valid_element(&self, s: &str) -> bool {
        if self.strict {
            return xml_name(s);
        }
        let mut c = s.chars();
        match c.next() {
            None => false,
            Some(x) if x.is_ascii_alphabetic() => !s.contains(['\t', '\n', '\u{c}', '\r', ' ', '\0', '/', '>']),
            Some(x) if x == ':' || x == '_' || x as u32 >= 0x80 => c.all(|x| x.is_ascii_alphanumeric() || "-.:_".contains(x) || x as u32 >= 0x80),
            _ => false,
        }
    }
    /// Validates and extracts a namespace and a qualified name.
    fn extract(&self, ns: Option<&str>, name: &str, element: bool) -> Result<(String, Option<String>, String), (&'static str, String)> {
        let ns = ns.unwrap_or("");
        let ok = |s: &str| if element { self.valid_element(s) } else { self.valid_attr(s) };
        let bad = || Err(("InvalidCharacterError", format!("{name:?} is not a valid name")));
        if self.strict && (!xml_name(name) || name.matches(':').count() > 1 || name.starts_with(':') || name.ends_with(':')) {
            return bad();
        }
        let (prefix, local) = match name.split_once(':') {
            Some((p, l)) => (Some(p), l),
            None => (None, name),
        };
        if !ok(local) || prefix.is_some_and(|p| p.is_empty()) {
            return bad();
        }
        let wrong = (prefix.is_some() && ns.is_empty())
            || (prefix == Some("xml") && ns != XML)
            || ((name == "xmlns" || prefix == Some("xmlns")) != (ns == XMLNS));
        if wrong {
            return Err(("NamespaceError", format!("{name:?} in the namespace {ns:?}")));
        }
        Ok((ns.into(), prefix.map(String::from), local.into()))
    }
}
fn xml_name(s: &str) -> bool {
    let start = |c: char| {
        matches!(c, ':' | '_' | 'A'..='Z' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}'
            | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}'
            | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
            | '\u{10000}'..='\u{EFFFF}')
    };
    let rest = |c: char| start(c) || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}');
    let mut c = s.chars();
    c.next().is_some_and(start) && c.all(rest)
}

// ------------------------------------------------------------------ classes

macro_rules! class {
    ($name:ident : $base:ident $(, $anc:ident)*; $v:ident => $test:expr) => {
        #[repr(transparent)]
        #[derive(Clone, Debug, PartialEq)]
        pub struct $name($base);
        impl Deref for $name {
            type Target = $base;
            fn deref(&self) -> &$base {
                &self.0
            }
        }
        impl AsRef<JsValue> for $name {
            fn as_ref(&self) -> &JsValue {
                unsafe { &*(self as *const $name as *const JsValue) }
            }
        }
        impl From<$name> for JsValue {
            fn from(x: $name) -> JsValue {
                AsRef::<JsValue>::as_ref(&x).clone()
            }
        }
        impl JsCast for $name {
            fn instanceof($v: &JsValue) -> bool {
                $test
            }
            fn unchecked_from_js(v: JsValue) -> $name {
                $name($base::unchecked_from_js(v))
            }
            fn unchecked_from_js_ref(v: &JsValue) -> &$name {
                unsafe { &*(v as *const JsValue as *const $name) }
            }
        }
        $(
            impl From<$name> for $anc {
                fn from(x: $name) -> $anc {
                    $anc::unchecked_from_js(x.into())
                }
            }
            impl AsRef<$anc> for $name {
                fn as_ref(&self) -> &$anc {
                    $anc::unchecked_from_js_ref(AsRef::<JsValue>::as_ref(self))
                }
            }
        )*
    };
}
fn kind_is(v: &JsValue, f: impl Fn(&Kind) -> bool) -> bool {
    match v.0 {
        Val::Node(n) => world(|w| f(&w.nodes[n].kind)),
        _ => false,
    }
}
class!(EventTarget: JsValue; v => matches!(v.0, Val::Node(_)));
class!(Node: EventTarget, EventTarget; v => matches!(v.0, Val::Node(_)));
class!(Document: Node, Node, EventTarget; v => kind_is(v, |k| matches!(k, Kind::Document)));
class!(DocumentFragment: Node, Node, EventTarget; v => kind_is(v, |k| matches!(k, Kind::Fragment)));
class!(Element: Node, Node, EventTarget; v => kind_is(v, |k| matches!(k, Kind::Element { .. })));
class!(HtmlElement: Element, Element, Node, EventTarget; v => kind_is(v, |k| matches!(k, Kind::Element { ns, .. } if ns == HTML)));
class!(HtmlTemplateElement: HtmlElement, HtmlElement, Element, Node, EventTarget; v => kind_is(v, |k| matches!(k, Kind::Element { content: Some(_), .. })));
class!(CharacterData: Node, Node, EventTarget; v => kind_is(v, |k| matches!(k, Kind::Text(_) | Kind::Comment(_))));
class!(Text: CharacterData, CharacterData, Node, EventTarget; v => kind_is(v, |k| matches!(k, Kind::Text(_))));
class!(Comment: CharacterData, CharacterData, Node, EventTarget; v => kind_is(v, |k| matches!(k, Kind::Comment(_))));
class!(Attr: JsValue; v => matches!(v.0, Val::Attr(_)));

fn make<T: JsCast>(n: usize) -> T {
    T::unchecked_from_js(JsValue(Val::Node(n)))
}
fn id(v: &JsValue) -> usize {
    match v.0 {
        Val::Node(n) | Val::Attr(n) => n,
        _ => panic!("no object of the DOM"),
    }
}
fn rethrow<T>(r: Result<T, (&'static str, String)>) -> Result<T, JsValue> {
    r.or_else(|(n, m)| throw(n, m))
}

#[derive(Clone, Debug)]
pub struct Window(());
pub fn window() -> Option<Window> {
    world(|w| !w.nodes.is_empty()).then_some(Window(()))
}
impl Window {
    pub fn document(&self) -> Option<Document> {
        Some(make(0))
    }
    pub fn location(&self) -> Location {
        Location(())
    }
}
#[derive(Clone, Debug)]
pub struct Location(());
impl Location {
    pub fn reload(&self) -> Result<(), JsValue> {
        world(|w| w.reloads += 1);
        Ok(())
    }
    pub fn pathname(&self) -> Result<String, JsValue> {
        world(|w| w.path.clone()).ok_or_else(|| JsValue::from_str("no location"))
    }
    pub fn href(&self) -> Result<String, JsValue> {
        self.pathname().map(|p| format!("http://localhost:8000{p}?q=1#f"))
    }
    pub fn protocol(&self) -> Result<String, JsValue> {
        Ok("http:".into())
    }
    pub fn host(&self) -> Result<String, JsValue> {
        Ok("localhost:8000".into())
    }
    pub fn hostname(&self) -> Result<String, JsValue> {
        Ok("localhost".into())
    }
    pub fn port(&self) -> Result<String, JsValue> {
        Ok("8000".into())
    }
    pub fn origin(&self) -> Result<String, JsValue> {
        Ok("http://localhost:8000".into())
    }
    pub fn search(&self) -> Result<String, JsValue> {
        Ok("?q=1".into())
    }
    pub fn hash(&self) -> Result<String, JsValue> {
        Ok("#f".into())
    }
}
impl Document {
    pub fn location(&self) -> Option<Location> {
        Some(Location(()))
    }
    pub fn default_view(&self) -> Option<Window> {
        window()
    }
    pub fn query_selector_all(&self, s: &str) -> Result<NodeList, JsValue> {
        query_all(id(self), s)
    }
    pub fn first_element_child(&self) -> Option<Element> {
        self.document_element()
    }
    pub fn import_node(&self, n: &Node) -> Result<Node, JsValue> {
        n.clone_node()
    }
    pub fn import_node_with_deep(&self, n: &Node, deep: bool) -> Result<Node, JsValue> {
        n.clone_node_with_deep(deep)
    }
    pub fn adopt_node(&self, n: &Node) -> Result<Node, JsValue> {
        world(|w| w.detach(id(n)));
        Ok(n.clone())
    }
    pub fn create_attribute(&self, name: &str) -> Result<Attr, JsValue> {
        world(|w| {
            if !w.valid_attr(name) {
                return throw("InvalidCharacterError", format!("{name:?} is not a valid attribute name"));
            }
            Ok(attr(w.attr_record(String::new(), None, name.to_ascii_lowercase())))
        })
    }
    pub fn create_attribute_ns(&self, ns: Option<&str>, name: &str) -> Result<Attr, JsValue> {
        world(|w| {
            let (ns, prefix, local) = rethrow(w.extract(ns, name, false))?;
            Ok(attr(w.attr_record(ns, prefix, local)))
        })
    }
    pub fn document_element(&self) -> Option<Element> {
        world(|w| w.nodes[0].kids.iter().copied().find(|c| matches!(w.nodes[*c].kind, Kind::Element { .. }))).map(make)
    }
    pub fn body(&self) -> Option<HtmlElement> {
        let root = id(self.document_element()?.as_ref());
        world(|w| {
            w.nodes[root].kids.iter().copied().find(|c| {
                matches!(&w.nodes[*c].kind, Kind::Element { ns, local, .. } if ns == HTML && (local == "body" || local == "frameset"))
            })
        })
        .map(make)
    }
    pub fn query_selector(&self, s: &str) -> Result<Option<Element>, JsValue> {
        query(id(self), s)
    }
    pub fn get_element_by_id(&self, s: &str) -> Option<Element> {
        world(|w| w.find(0, &|w, n| w.by_name(n, "id").is_some_and(|a| w.attrs[a].value == s))).map(make)
    }
    pub fn create_element(&self, name: &str) -> Result<Element, JsValue> {
        world(|w| {
            if !w.valid_element(name) {
                return throw("InvalidCharacterError", format!("{name:?} is not a valid name"));
            }
            Ok(make(w.element(HTML, None, &name.to_ascii_lowercase())))
        })
    }
    pub fn create_element_ns(&self, ns: Option<&str>, name: &str) -> Result<Element, JsValue> {
        world(|w| {
            let (ns, prefix, local) = rethrow(w.extract(ns, name, true))?;
            Ok(make(w.element(&ns, prefix, &local)))
        })
    }
    pub fn create_text_node(&self, s: &str) -> Text {
        make(world(|w| w.node(Kind::Text(s.into()))))
    }
    pub fn create_comment(&self, s: &str) -> Comment {
        make(world(|w| w.node(Kind::Comment(s.into()))))
    }
    pub fn create_document_fragment(&self) -> DocumentFragment {
        make(world(|w| w.node(Kind::Fragment)))
    }
}
/// `tag`, `#id`, `.class`, `[attr]`, `[attr=value]`
fn selector(s: &str) -> Result<impl Fn(&World, usize) -> bool, JsValue> {
    let word = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || c == '-' || c == '_');
    let (k, v, b): (&str, String, String) = if let Some(x) = s.strip_prefix('#') {
        ("id", x.into(), String::new())
    } else if let Some(x) = s.strip_prefix('.') {
        ("class", x.into(), String::new())
    } else if let Some(x) = s.strip_prefix('[').and_then(|x| x.strip_suffix(']')) {
        match x.split_once('=') {
            None => ("has", x.into(), String::new()),
            Some((a, b)) => ("is", a.into(), b.trim_matches(['"', '\'']).into()),
        }
    } else {
        ("", s.into(), String::new())
    };
    if !word(&v) {
        return throw("SyntaxError", format!("{s:?} is not a valid selector"));
    }
    Ok(move |w: &World, n: usize| match k {
        "" => matches!(&w.nodes[n].kind, Kind::Element { local, .. } if *local == v),
        "id" => w.by_name(n, "id").is_some_and(|a| w.attrs[a].value == v),
        "has" => w.by_name(n, &v).is_some(),
        "is" => w.by_name(n, &v).is_some_and(|a| w.attrs[a].value == b),
        _ => w.by_name(n, "class").is_some_and(|a| w.attrs[a].value.split_ascii_whitespace().any(|c| c == v)),
    })
}
fn query(root: usize, s: &str) -> Result<Option<Element>, JsValue> {
    let f = selector(s)?;
    Ok(world(|w| w.find(root, &f)).map(make))
}
fn query_all(root: usize, s: &str) -> Result<NodeList, JsValue> {
    let f = selector(s)?;
    let found = world(|w| {
        let (mut out, mut todo) = (vec![], vec![root]);
        while let Some(n) = todo.pop() {
            if n != root && f(w, n) {
                out.push(n);
            }
            todo.extend(w.nodes[n].kids.iter().rev());
        }
        out
    });
    Ok(NodeList(Listed::Fixed(found.into())))
}
impl EventTarget {
    pub fn dispatch_event(&self, e: &Event) -> Result<bool, JsValue> {
        let target = id(self);
        world(|w| {
            let mut path = vec![];
            let mut x = w.nodes[target].parent;
            while let Some(p) = x {
                path.push(p);
                x = w.nodes[p].parent;
            }
            w.events.push(fake::Dispatched { kind: e.kind.clone(), bubbles: e.bubbles, target, path, detail: e.detail.clone() });
        });
        Ok(true)
    }
}
impl Node {
    pub const ELEMENT_NODE: u16 = 1;
    pub const TEXT_NODE: u16 = 3;
    pub const COMMENT_NODE: u16 = 8;
    pub const DOCUMENT_NODE: u16 = 9;
    pub const DOCUMENT_FRAGMENT_NODE: u16 = 11;

    pub fn node_type(&self) -> u16 {
        world(|w| match w.nodes[id(self)].kind {
            Kind::Element { .. } => 1,
            Kind::Text(_) => 3,
            Kind::Comment(_) => 8,
            Kind::Document => 9,
            Kind::Fragment => 11,
        })
    }
    pub fn node_name(&self) -> String {
        world(|w| match &w.nodes[id(self)].kind {
            Kind::Element { ns, prefix, local, .. } => {
                let q = prefix.as_ref().map_or(local.clone(), |p| format!("{p}:{local}"));
                if ns == HTML { q.to_ascii_uppercase() } else { q }
            }
            Kind::Text(_) => "#text".into(),
            Kind::Comment(_) => "#comment".into(),
            Kind::Document => "#document".into(),
            Kind::Fragment => "#document-fragment".into(),
        })
    }
    pub fn parent_node(&self) -> Option<Node> {
        world(|w| w.nodes[id(self)].parent).map(make)
    }
    pub fn parent_element(&self) -> Option<Element> {
        self.parent_node().and_then(|p| p.dyn_into().ok())
    }
    pub fn owner_document(&self) -> Option<Document> {
        Some(make(0))
    }
    pub fn child_nodes(&self) -> NodeList {
        NodeList(Listed::Kids(id(self)))
    }
    pub fn has_child_nodes(&self) -> bool {
        world(|w| !w.nodes[id(self)].kids.is_empty())
    }
    pub fn first_child(&self) -> Option<Node> {
        world(|w| w.nodes[id(self)].kids.first().copied()).map(make)
    }
    pub fn last_child(&self) -> Option<Node> {
        world(|w| w.nodes[id(self)].kids.last().copied()).map(make)
    }
    fn beside(&self, d: isize) -> Option<Node> {
        let n = id(self);
        world(|w| {
            let k = &w.nodes[w.nodes[n].parent?].kids;
            let i = k.iter().position(|c| *c == n)? as isize + d;
            k.get(usize::try_from(i).ok()?).copied()
        })
        .map(make)
    }
    pub fn next_sibling(&self) -> Option<Node> {
        self.beside(1)
    }
    pub fn previous_sibling(&self) -> Option<Node> {
        self.beside(-1)
    }
    pub fn contains(&self, n: Option<&Node>) -> bool {
        n.is_some_and(|n| world(|w| w.above(id(self), id(n))))
    }
    pub fn is_same_node(&self, n: Option<&Node>) -> bool {
        n == Some(self)
    }
    pub fn append_child(&self, n: &Node) -> Result<Node, JsValue> {
        rethrow(world(|w| w.insert(id(self), id(n), None)))?;
        Ok(n.clone())
    }
    pub fn insert_before(&self, n: &Node, child: Option<&Node>) -> Result<Node, JsValue> {
        rethrow(world(|w| w.insert(id(self), id(n), child.map(|c| id(c)))))?;
        Ok(n.clone())
    }
    pub fn replace_child(&self, n: &Node, old: &Node) -> Result<Node, JsValue> {
        rethrow(world(|w| w.replace(id(self), id(n), id(old))))?;
        Ok(old.clone())
    }
    pub fn remove_child(&self, n: &Node) -> Result<Node, JsValue> {
        if n.parent_node().as_ref() != Some(self) {
            return throw("NotFoundError", "the node to be removed is not a child of this node".into());
        }
        world(|w| w.detach(id(n)));
        Ok(n.clone())
    }
    pub fn text_content(&self) -> Option<String> {
        world(|w| match &w.nodes[id(self)].kind {
            Kind::Document => None,
            Kind::Comment(t) => Some(t.clone()),
            _ => {
                let mut s = String::new();
                w.text(id(self), &mut s);
                Some(s)
            }
        })
    }
    pub fn set_text_content(&self, s: Option<&str>) {
        world(|w| w.set_text(id(self), s.unwrap_or("")))
    }
    pub fn clone_node(&self) -> Result<Node, JsValue> {
        Ok(make(world(|w| w.copy(id(self), false))))
    }
    pub fn clone_node_with_deep(&self, deep: bool) -> Result<Node, JsValue> {
        Ok(make(world(|w| w.copy(id(self), deep))))
    }
    pub fn is_connected(&self) -> bool {
        world(|w| w.above(0, id(self)))
    }
    pub fn get_root_node(&self) -> Node {
        let mut n = self.clone();
        while let Some(p) = n.parent_node() {
            n = p;
        }
        n
    }
    pub fn node_value(&self) -> Option<String> {
        world(|w| match &w.nodes[id(self)].kind {
            Kind::Text(t) | Kind::Comment(t) => Some(t.clone()),
            _ => None,
        })
    }
    pub fn set_node_value(&self, s: Option<&str>) {
        world(|w| {
            if let Kind::Text(t) | Kind::Comment(t) = &mut w.nodes[id(self)].kind {
                *t = s.unwrap_or("").into();
            }
        })
    }
}
impl CharacterData {
    pub fn length(&self) -> u32 {
        self.data().encode_utf16().count() as u32
    }
    pub fn append_data(&self, s: &str) -> Result<(), JsValue> {
        self.set_data(&(self.data() + s));
        Ok(())
    }
    pub fn data(&self) -> String {
        self.node_value().unwrap()
    }
    pub fn set_data(&self, s: &str) {
        self.set_node_value(Some(s))
    }
    pub fn remove(&self) {
        world(|w| w.detach(id(self)))
    }
}
macro_rules! child_node {
    ($($t:ident)*) => {$(
        impl $t {
            pub fn before_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                match self.parent_node() {
                    Some(p) if n != self.node() => p.insert_before(n, Some(self.node())).map(drop),
                    _ => Ok(()),
                }
            }
            pub fn after_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                match self.parent_node() {
                    Some(p) if n != self.node() => {
                        let next = self.next_sibling();
                        let next = if next.as_ref() == Some(n) { n.next_sibling() } else { next };
                        p.insert_before(n, next.as_ref()).map(drop)
                    }
                    _ => Ok(()),
                }
            }
            pub fn replace_with_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                match self.parent_node() {
                    Some(p) => p.replace_child(n, self.node()).map(drop),
                    None => Ok(()),
                }
            }
        }
    )*};
}
child_node!(Element CharacterData);
macro_rules! parent_node {
    ($($t:ident)*) => {$(
        impl $t {
            pub fn append_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                self.append_child(n).map(drop)
            }
            pub fn append_with_str_1(&self, s: &str) -> Result<(), JsValue> {
                let t: Node = make(world(|w| w.node(Kind::Text(s.into()))));
                self.append_child(&t).map(drop)
            }
            pub fn prepend_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                let first = self.first_child();
                let first = if first.as_ref() == Some(n) { n.next_sibling() } else { first };
                self.insert_before(n, first.as_ref()).map(drop)
            }
            pub fn replace_children_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                rethrow(world(|w| w.can_hold(id(self), id(n)).map_err(|e| ("HierarchyRequestError", e))))?;
                while let Some(c) = self.first_child() {
                    world(|w| w.detach(id(&c)));
                }
                self.append_child(n).map(drop)
            }
            pub fn replace_children_with_node_0(&self) {
                while let Some(c) = self.first_child() {
                    world(|w| w.detach(id(&c)));
                }
            }
            pub fn query_selector_all(&self, s: &str) -> Result<NodeList, JsValue> {
                query_all(id(self), s)
            }
            fn element_kids(&self) -> Vec<usize> {
                world(|w| w.nodes[id(self)].kids.iter().copied().filter(|c| matches!(w.nodes[*c].kind, Kind::Element { .. })).collect())
            }
            pub fn child_element_count(&self) -> u32 {
                self.element_kids().len() as u32
            }
            pub fn first_element_child(&self) -> Option<Element> {
                self.element_kids().first().copied().map(make)
            }
            pub fn last_element_child(&self) -> Option<Element> {
                self.element_kids().last().copied().map(make)
            }
            pub fn query_selector(&self, s: &str) -> Result<Option<Element>, JsValue> {
                query(id(self), s)
            }
        }
    )*};
}
parent_node!(Element DocumentFragment);
impl Node {
    fn node(&self) -> &Node {
        self
    }
}
/// The live list of children, or what a selector found.
#[derive(Clone, Debug)]
pub struct NodeList(Listed);
#[derive(Clone, Debug)]
enum Listed {
    Kids(usize),
    Fixed(std::rc::Rc<[usize]>),
}
impl NodeList {
    pub fn length(&self) -> u32 {
        match &self.0 {
            Listed::Kids(n) => world(|w| w.nodes[*n].kids.len() as u32),
            Listed::Fixed(l) => l.len() as u32,
        }
    }
    pub fn item(&self, i: u32) -> Option<Node> {
        match &self.0 {
            Listed::Kids(n) => world(|w| w.nodes[*n].kids.get(i as usize).copied()),
            Listed::Fixed(l) => l.get(i as usize).copied(),
        }
        .map(make)
    }
    pub fn get(&self, i: u32) -> Option<Node> {
        self.item(i)
    }
}
#[derive(Clone, Debug)]
pub struct NamedNodeMap(usize);
impl NamedNodeMap {
    pub fn length(&self) -> u32 {
        world(|w| w.attrs(self.0).len() as u32)
    }
    pub fn item(&self, i: u32) -> Option<Attr> {
        world(|w| w.attrs(self.0).get(i as usize).copied()).map(attr)
    }
    pub fn get_with_index(&self, i: u32) -> Option<Attr> {
        self.item(i)
    }
    pub fn get_named_item_ns(&self, ns: Option<&str>, local: &str) -> Option<Attr> {
        let ns = ns.unwrap_or("");
        world(|w| w.attrs(self.0).iter().copied().find(|a| w.attrs[*a].ns == ns && w.attrs[*a].local == local)).map(attr)
    }
    pub fn set_named_item(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        make::<Element>(self.0).set_attribute_node(a)
    }
    pub fn remove_named_item(&self, name: &str) -> Result<Attr, JsValue> {
        match self.get_named_item(name) {
            Some(a) => make::<Element>(self.0).remove_attribute_node(&a).map(|_| a),
            None => throw("NotFoundError", format!("no attribute {name:?}")),
        }
    }
    pub fn remove_named_item_ns(&self, ns: Option<&str>, local: &str) -> Result<Attr, JsValue> {
        match self.get_named_item_ns(ns, local) {
            Some(a) => make::<Element>(self.0).remove_attribute_node(&a).map(|_| a),
            None => throw("NotFoundError", format!("no attribute {local:?}")),
        }
    }
    pub fn get_named_item(&self, name: &str) -> Option<Attr> {
        world(|w| w.by_name(self.0, name)).map(attr)
    }
}
fn attr(a: usize) -> Attr {
    Attr::unchecked_from_js(JsValue(Val::Attr(a)))
}
impl Attr {
    fn rec(&self) -> AttrRec {
        world(|w| w.attrs[id(self)].clone())
    }
    pub fn name(&self) -> String {
        self.rec().name()
    }
    pub fn value(&self) -> String {
        self.rec().value
    }
    pub fn set_value(&self, s: &str) {
        world(|w| w.attrs[id(self)].value = s.into())
    }
    pub fn local_name(&self) -> String {
        self.rec().local
    }
    pub fn prefix(&self) -> Option<String> {
        self.rec().prefix
    }
    pub fn namespace_uri(&self) -> Option<String> {
        Some(self.rec().ns).filter(|s| !s.is_empty())
    }
    pub fn owner_element(&self) -> Option<Element> {
        self.rec().owner.map(make)
    }
}
impl Element {
    pub fn tag_name(&self) -> String {
        self.node_name()
    }
    pub fn local_name(&self) -> String {
        world(|w| match &w.nodes[id(self)].kind {
            Kind::Element { local, .. } => local.clone(),
            _ => unreachable!(),
        })
    }
    pub fn namespace_uri(&self) -> Option<String> {
        world(|w| match &w.nodes[id(self)].kind {
            Kind::Element { ns, .. } => Some(ns.clone()).filter(|s| !s.is_empty()),
            _ => unreachable!(),
        })
    }
    pub fn id(&self) -> String {
        self.get_attribute("id").unwrap_or_default()
    }
    pub fn set_id(&self, s: &str) {
        let _ = self.set_attribute("id", s);
    }
    pub fn class_name(&self) -> String {
        self.get_attribute("class").unwrap_or_default()
    }
    pub fn set_class_name(&self, s: &str) {
        let _ = self.set_attribute("class", s);
    }
    pub fn prefix(&self) -> Option<String> {
        world(|w| match &w.nodes[id(self)].kind {
            Kind::Element { prefix, .. } => prefix.clone(),
            _ => unreachable!(),
        })
    }
    pub fn has_attributes(&self) -> bool {
        self.attributes().length() > 0
    }
    pub fn has_attribute_ns(&self, ns: Option<&str>, local: &str) -> bool {
        self.get_attribute_ns(ns, local).is_some()
    }
    pub fn get_attribute_names(&self) -> js_sys::Array {
        let a = self.attributes();
        (0..a.length()).map(|i| JsValue::from(a.item(i).unwrap().name())).collect()
    }
    pub fn get_attribute_node_ns(&self, ns: Option<&str>, local: &str) -> Option<Attr> {
        self.attributes().get_named_item_ns(ns, local)
    }
    pub fn set_attribute_node_ns(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        self.set_attribute_node(a)
    }
    pub fn matches(&self, s: &str) -> Result<bool, JsValue> {
        let f = selector(s)?;
        Ok(world(|w| f(w, id(self))))
    }
    pub fn closest(&self, s: &str) -> Result<Option<Element>, JsValue> {
        let f = selector(s)?;
        let mut e = Some(self.clone());
        while let Some(x) = e {
            if world(|w| f(w, id(&x))) {
                return Ok(Some(x));
            }
            e = x.parent_element();
        }
        Ok(None)
    }
    pub fn attributes(&self) -> NamedNodeMap {
        NamedNodeMap(id(self))
    }
    pub fn has_attribute(&self, name: &str) -> bool {
        world(|w| w.by_name(id(self), name).is_some())
    }
    pub fn get_attribute(&self, name: &str) -> Option<String> {
        world(|w| w.by_name(id(self), name).map(|a| w.attrs[a].value.clone()))
    }
    pub fn get_attribute_node(&self, name: &str) -> Option<Attr> {
        world(|w| w.by_name(id(self), name)).map(attr)
    }
    pub fn set_attribute(&self, name: &str, value: &str) -> Result<(), JsValue> {
        let n = id(self);
        world(|w| {
            if !w.valid_attr(name) {
                return throw("InvalidCharacterError", format!("{name:?} is not a valid attribute name"));
            }
            match w.by_name(n, name) {
                Some(a) => w.attrs[a].value = value.into(),
                None => {
                    let name = w.lower(n, name);
                    w.add_attr(n, "", None, &name, value)
                }
            }
            Ok(())
        })
    }
    pub fn set_attribute_ns(&self, ns: Option<&str>, name: &str, value: &str) -> Result<(), JsValue> {
        let n = id(self);
        world(|w| {
            let (ns, prefix, local) = rethrow(w.extract(ns, name, false))?;
            match w.attrs(n).iter().copied().find(|a| w.attrs[*a].ns == ns && w.attrs[*a].local == local) {
                Some(a) => w.attrs[a].value = value.into(),
                None => w.add_attr(n, &ns, prefix, &local, value),
            }
            Ok(())
        })
    }
    pub fn remove_attribute(&self, name: &str) -> Result<(), JsValue> {
        world(|w| {
            if let Some(a) = w.by_name(id(self), name) {
                w.attrs[a].owner = None;
                w.attrs_mut(id(self)).retain(|x| *x != a);
            }
        });
        Ok(())
    }
    pub fn remove_attribute_ns(&self, ns: Option<&str>, local: &str) -> Result<(), JsValue> {
        let ns = ns.unwrap_or("");
        world(|w| {
            if let Some(a) = w.attrs(id(self)).iter().copied().find(|a| w.attrs[*a].ns == ns && w.attrs[*a].local == local) {
                w.attrs[a].owner = None;
                w.attrs_mut(id(self)).retain(|x| *x != a);
            }
        });
        Ok(())
    }
    pub fn remove_attribute_node(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        if a.owner_element().as_ref() != Some(self) {
            return throw("NotFoundError", "not an attribute of this element".into());
        }
        world(|w| {
            w.attrs[id(a)].owner = None;
            w.attrs_mut(id(self)).retain(|x| *x != id(a));
        });
        Ok(Some(a.clone()))
    }
    pub fn set_attribute_node(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        let (n, a) = (id(self), id(a));
        world(|w| {
            if w.attrs[a].owner.is_some_and(|o| o != n) {
                return throw("InUseAttributeError", "the attribute belongs to another element".into());
            }
            let old = w.attrs(n).iter().copied().find(|b| w.attrs[*b].ns == w.attrs[a].ns && w.attrs[*b].local == w.attrs[a].local);
            if old == Some(a) {
                return Ok(Some(attr(a)));
            }
            w.attrs[a].owner = Some(n);
            match old {
                Some(b) => {
                    w.attrs[b].owner = None;
                    w.attrs_mut(n).iter_mut().filter(|x| **x == b).for_each(|x| *x = a);
                }
                None => w.attrs_mut(n).push(a),
            }
            Ok(old.map(attr))
        })
    }
    pub fn inner_html(&self) -> String {
        let spec = world(|w| w.spec(id(self)));
        HOOKS.with(|h| (h.borrow().expect("hooks").inner_html)(&spec))
    }
    pub fn set_inner_html(&self, html: &str) {
        let n = id(self);
        let (ns, local, target) = world(|w| match &w.nodes[n].kind {
            Kind::Element { ns, local, content, .. } => (ns.clone(), local.clone(), content.unwrap_or(n)),
            _ => unreachable!(),
        });
        let new = HOOKS.with(|h| (h.borrow().expect("hooks").parse)(html, &ns, &local));
        world(|w| {
            for c in std::mem::take(&mut w.nodes[target].kids) {
                w.nodes[c].parent = None;
            }
            for s in &new {
                let c = w.load(s);
                let end = w.nodes[target].kids.len();
                w.put(target, end, vec![c]);
            }
        })
    }
    pub fn remove(&self) {
        world(|w| w.detach(id(self)))
    }
    fn sibling_element(&self, after: bool) -> Option<Element> {
        let mut n = Some((**self).clone());
        loop {
            n = if after { n?.next_sibling() } else { n?.previous_sibling() };
            if let Ok(e) = n.clone()?.dyn_into::<Element>() {
                return Some(e);
            }
        }
    }
    pub fn next_element_sibling(&self) -> Option<Element> {
        self.sibling_element(true)
    }
    pub fn previous_element_sibling(&self) -> Option<Element> {
        self.sibling_element(false)
    }
    pub fn get_attribute_ns(&self, ns: Option<&str>, local: &str) -> Option<String> {
        let ns = ns.unwrap_or("");
        world(|w| w.attrs(id(self)).iter().map(|a| &w.attrs[*a]).find(|a| a.ns == ns && a.local == local).map(|a| a.value.clone()))
    }
}
impl HtmlTemplateElement {
    pub fn content(&self) -> DocumentFragment {
        make(world(|w| match w.nodes[id(self)].kind {
            Kind::Element { content: Some(c), .. } => c,
            _ => unreachable!(),
        }))
    }
}

// ------------------------------------------------------------------- events

#[derive(Clone, Debug)]
pub struct Event {
    kind: String,
    bubbles: bool,
    detail: JsValue,
}
#[derive(Clone, Debug)]
pub struct CustomEvent(Event);
impl Deref for CustomEvent {
    type Target = Event;
    fn deref(&self) -> &Event {
        &self.0
    }
}
#[derive(Clone, Debug)]
pub struct CustomEventInit(RefCell<(bool, JsValue)>);
impl CustomEventInit {
    #[allow(clippy::new_without_default)]
    pub fn new() -> CustomEventInit {
        CustomEventInit(RefCell::new((false, JsValue::NULL)))
    }
    pub fn set_bubbles(&self, b: bool) {
        self.0.borrow_mut().0 = b;
    }
    pub fn set_cancelable(&self, _: bool) {}
    pub fn set_composed(&self, _: bool) {}
    pub fn set_detail(&self, d: &JsValue) {
        self.0.borrow_mut().1 = d.clone();
    }
}
impl CustomEvent {
    pub fn new(kind: &str) -> Result<CustomEvent, JsValue> {
        Ok(CustomEvent(Event { kind: kind.into(), bubbles: false, detail: JsValue::NULL }))
    }
    pub fn new_with_event_init_dict(kind: &str, init: &CustomEventInit) -> Result<CustomEvent, JsValue> {
        let i = init.0.borrow();
        Ok(CustomEvent(Event { kind: kind.into(), bubbles: i.0, detail: i.1.clone() }))
    }
    pub fn detail(&self) -> JsValue {
        self.0.detail.clone()
    }
}
pub mod console {
    use super::*;
    macro_rules! out {
        ($($one:ident $two:ident $three:ident)*) => {$(
            pub fn $one(_: &JsValue) {}
            pub fn $two(_: &JsValue, _: &JsValue) {}
            pub fn $three(_: &JsValue, _: &JsValue, _: &JsValue) {}
        )*};
    }
    out!(log_1 log_2 log_3 info_1 info_2 info_3 debug_1 debug_2 debug_3 warn_1 warn_2 warn_3 error_1 error_2 error_3);
}

// ------------------------------------------------------- the harness's side

impl World {
    fn contents(&self, n: usize) -> Option<usize> {
        match self.nodes[n].kind {
            Kind::Element { content, .. } => content,
            _ => None,
        }
    }
    fn load(&mut self, s: &fake::Spec) -> usize {
        use fake::Spec;
        match s {
            Spec::Text(t) => self.node(Kind::Text(t.clone())),
            Spec::Comment(t) => self.node(Kind::Comment(t.clone())),
            Spec::Element { ns, local, attrs, kids } => {
                let n = self.element(ns, None, local);
                for (ns, prefix, local, value) in attrs {
                    self.add_attr(n, ns, prefix.clone(), local, value);
                }
                let into = self.contents(n).unwrap_or(n);
                for k in kids {
                    let k = self.load(k);
                    let end = self.nodes[into].kids.len();
                    self.put(into, end, vec![k]);
                }
                n
            }
        }
    }
    fn spec(&self, n: usize) -> fake::Spec {
        use fake::Spec;
        match &self.nodes[n].kind {
            Kind::Text(t) => Spec::Text(t.clone()),
            Kind::Comment(t) => Spec::Comment(t.clone()),
            Kind::Element { ns, prefix, local, .. } => Spec::Element {
                ns: ns.clone(),
                local: prefix.as_ref().map_or(local.clone(), |p| format!("{p}:{local}")),
                attrs: self.attrs(n).iter().map(|a| &self.attrs[*a]).map(|a| (a.ns.clone(), a.prefix.clone(), a.local.clone(), a.value.clone())).collect(),
                // whatever is below a template that is not in its contents is misplaced
                kids: self.contents(n).into_iter().flat_map(|c| &self.nodes[c].kids).map(|c| self.spec(*c)).chain(
                    self.nodes[n].kids.iter().map(|c| match self.contents(n) {
                        Some(_) => fake::Spec::Comment(format!("not in the template's contents: {:?}", self.spec(*c))),
                        None => self.spec(*c),
                    })
                ).collect(),
            },
            _ => panic!("no node to describe"),
        }
    }
}
pub mod fake {
    use super::*;

    /// Namespace, prefix, local name, value
    pub type AttrSpec = (String, Option<String>, String, String);
    #[derive(Clone, Debug, PartialEq)]
    pub enum Spec {
        Element { ns: String, local: String, attrs: Vec<AttrSpec>, kids: Vec<Spec> },
        Text(String),
        Comment(String),
    }
    #[derive(Clone, Debug)]
    pub struct Dispatched {
        pub kind: String,
        pub bubbles: bool,
        pub target: usize,
        pub path: Vec<usize>,
        pub detail: JsValue,
    }
    #[derive(Clone, Copy)]
    pub struct Hooks {
        /// Parses a fragment in the context of an element (namespace, local name).
        pub parse: fn(&str, &str, &str) -> Vec<Spec>,
        pub inner_html: fn(&Spec) -> String,
    }
    /// A new window whose document has this root element.
    pub fn open(root: &Spec, strict: bool, hooks: Hooks) {
        HOOKS.with(|h| *h.borrow_mut() = Some(hooks));
        world(|w| {
            *w = World { strict, ..World::default() };
            w.node(Kind::Document);
            let r = w.load(root);
            w.put(0, 0, vec![r]);
        })
    }
    /// The path of the page's address, if it can be told.
    pub fn set_path(p: Option<&str>) {
        world(|w| w.path = p.map(String::from))
    }
    /// How often the page was to be loaded anew.
    pub fn reloads() -> usize {
        world(|w| w.reloads)
    }
    pub fn close() {
        world(|w| *w = World::default())
    }
    /// Replaces the document, keeping nothing.
    pub fn root() -> Spec {
        world(|w| w.spec(w.nodes[0].kids[0]))
    }
    pub fn body() -> Option<Spec> {
        let b = window()?.document()?.body()?;
        Some(world(|w| w.spec(id(&b))))
    }
    pub fn describe(n: usize) -> Spec {
        world(|w| w.spec(n))
    }
    /// The node at a path of child indices below an element.
    pub fn at(root: usize, path: &[u32]) -> Option<usize> {
        world(|w| path.iter().try_fold(root, |n, i| w.nodes[w.contents(n).unwrap_or(n)].kids.get(*i as usize).copied()))
    }
    pub fn number(v: &JsValue) -> Option<usize> {
        match v.0 {
            Val::Node(n) => Some(n),
            _ => None,
        }
    }
    pub fn events() -> Vec<Dispatched> {
        world(|w| std::mem::take(&mut w.events))
    }
    /// Whether links agree, and everything in the document is there once.
    pub fn sound() -> bool {
        world(|w| {
            let mut seen = std::collections::HashSet::new();
            let mut todo = vec![0];
            while let Some(n) = todo.pop() {
                if !seen.insert(n) {
                    return false;
                }
                for c in &w.nodes[n].kids {
                    if w.nodes[*c].parent != Some(n) {
                        return false;
                    }
                    todo.push(*c);
                }
            }
            true
        })
    }
}

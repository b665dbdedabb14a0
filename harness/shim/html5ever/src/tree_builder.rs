//! Tree construction, following the insertion modes of the HTML standard.
use crate::tokenizer::{Doctype, State, Tag, Token, Tokenizer};
use crate::{Attribute, LocalName, Namespace, Prefix, QualName};
use std::borrow::Cow;
use std::fmt::Debug;
use tendril::StrTendril;

pub trait ElemName: Debug {
    fn ns(&self) -> &Namespace;
    fn local_name(&self) -> &LocalName;
}

#[derive(Default, Clone, Copy, Debug)]
pub struct ElementFlags {
    pub template: bool,
    pub mathml_annotation_xml_integration_point: bool,
    pub had_duplicate_attributes: bool,
}

pub enum NodeOrText<H> {
    AppendNode(H),
    AppendText(StrTendril),
}

#[derive(PartialEq, Eq, Copy, Clone, Debug)]
pub enum QuirksMode {
    Quirks,
    LimitedQuirks,
    NoQuirks,
}

pub trait TreeSink {
    type Handle: Clone;
    type Output;
    type ElemName<'a>: ElemName
    where
        Self: 'a;

    fn finish(self) -> Self::Output;
    fn parse_error(&self, msg: Cow<'static, str>);
    fn get_document(&self) -> Self::Handle;
    fn elem_name<'a>(&'a self, target: &'a Self::Handle) -> Self::ElemName<'a>;
    fn create_element(&self, name: QualName, attrs: Vec<Attribute>, flags: ElementFlags) -> Self::Handle;
    fn create_comment(&self, text: StrTendril) -> Self::Handle;
    fn create_pi(&self, target: StrTendril, data: StrTendril) -> Self::Handle;
    fn append(&self, parent: &Self::Handle, child: NodeOrText<Self::Handle>);
    fn append_based_on_parent_node(&self, element: &Self::Handle, prev_element: &Self::Handle, child: NodeOrText<Self::Handle>);
    fn append_doctype_to_document(&self, name: StrTendril, public_id: StrTendril, system_id: StrTendril);
    fn mark_script_already_started(&self, _node: &Self::Handle) {}
    fn pop(&self, _node: &Self::Handle) {}
    fn get_template_contents(&self, target: &Self::Handle) -> Self::Handle;
    fn same_node(&self, x: &Self::Handle, y: &Self::Handle) -> bool;
    fn set_quirks_mode(&self, mode: QuirksMode);
    fn append_before_sibling(&self, sibling: &Self::Handle, new_node: NodeOrText<Self::Handle>);
    fn add_attrs_if_missing(&self, target: &Self::Handle, attrs: Vec<Attribute>);
    fn associate_with_form(
        &self,
        _target: &Self::Handle,
        _form: &Self::Handle,
        _nodes: (&Self::Handle, Option<&Self::Handle>),
    ) {
    }
    fn remove_from_parent(&self, target: &Self::Handle);
    fn reparent_children(&self, node: &Self::Handle, new_parent: &Self::Handle);
    fn is_mathml_annotation_xml_integration_point(&self, _handle: &Self::Handle) -> bool {
        false
    }
    fn set_current_line(&self, _line_number: u64) {}
    fn allow_declarative_shadow_roots(&self, _intended_parent: &Self::Handle) -> bool {
        true
    }
}

#[derive(Clone, Copy)]
pub struct TreeBuilderOpts {
    pub exact_errors: bool,
    pub scripting_enabled: bool,
    pub iframe_srcdoc: bool,
    pub drop_doctype: bool,
    pub quirks_mode: QuirksMode,
}
impl Default for TreeBuilderOpts {
    fn default() -> Self {
        TreeBuilderOpts {
            exact_errors: false,
            scripting_enabled: true,
            iframe_srcdoc: false,
            drop_doctype: false,
            quirks_mode: QuirksMode::NoQuirks,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mode {
    Initial,
    BeforeHtml,
    BeforeHead,
    InHead,
    InHeadNoscript,
    AfterHead,
    InBody,
    Text,
    InTable,
    InTableText,
    InCaption,
    InColumnGroup,
    InTableBody,
    InRow,
    InCell,
    InSelect,
    InSelectInTable,
    InTemplate,
    AfterBody,
    InFrameset,
    AfterFrameset,
    AfterAfterBody,
    AfterAfterFrameset,
}

enum Afe<H> {
    Marker,
    El(H, Tag),
}

enum Place<H> {
    Last(H),
    Foster(H, H),
}

pub struct TreeBuilder<S: TreeSink> {
    sink: S,
    opts: TreeBuilderOpts,
    mode: Mode,
    orig: Mode,
    tmpl_modes: Vec<Mode>,
    stack: Vec<S::Handle>,
    afe: Vec<Afe<S::Handle>>,
    doc: S::Handle,
    head: Option<S::Handle>,
    form: Option<S::Handle>,
    frameset_ok: bool,
    foster: bool,
    pending: Vec<StrTendril>,
    ignore_lf: bool,
    context: Option<S::Handle>,
    quirks: bool,
    /// tokenizer state asked for by the tree builder
    want: Option<State>,
    stop: bool,
}

const HTML: &str = "http://www.w3.org/1999/xhtml";
const SVG: &str = "http://www.w3.org/2000/svg";
const MATHML: &str = "http://www.w3.org/1998/Math/MathML";

const SPECIAL: &[&str] = &[
    "address", "applet", "area", "article", "aside", "base", "basefont", "bgsound", "blockquote", "body", "br", "button", "caption",
    "center", "col", "colgroup", "dd", "details", "dir", "div", "dl", "dt", "embed", "fieldset", "figcaption", "figure", "footer",
    "form", "frame", "frameset", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "hr", "html", "iframe", "img",
    "input", "keygen", "li", "link", "listing", "main", "marquee", "menu", "meta", "nav", "noembed", "noframes", "noscript",
    "object", "ol", "p", "param", "plaintext", "pre", "script", "search", "section", "select", "source", "style", "summary", "table",
    "tbody", "td", "template", "textarea", "tfoot", "th", "thead", "title", "tr", "track", "ul", "wbr", "xmp",
];
const FORMATTING: &[&str] =
    &["a", "b", "big", "code", "em", "font", "i", "nobr", "s", "small", "strike", "strong", "tt", "u"];
const IMPLIED: &[&str] = &["dd", "dt", "li", "optgroup", "option", "p", "rb", "rp", "rt", "rtc"];
const IMPLIED_ALL: &[&str] = &[
    "caption", "colgroup", "dd", "dt", "li", "optgroup", "option", "p", "rb", "rp", "rt", "rtc", "tbody", "td", "tfoot", "th",
    "thead", "tr",
];
const SCOPE: &[&str] = &["applet", "caption", "html", "table", "td", "th", "marquee", "object", "template"];
const SCOPE_LI: &[&str] = &["applet", "caption", "html", "table", "td", "th", "marquee", "object", "template", "ol", "ul"];
const SCOPE_BUTTON: &[&str] = &["applet", "caption", "html", "table", "td", "th", "marquee", "object", "template", "button"];
const SCOPE_TABLE: &[&str] = &["html", "table", "template"];
const HEADINGS: &[&str] = &["h1", "h2", "h3", "h4", "h5", "h6"];

fn is_ws(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\x0c' | '\r' | ' ')
}

fn plain(name: &str) -> Tag {
    Tag { end: false, name: name.into(), attrs: vec![], self_closing: false }
}

impl<S: TreeSink> TreeBuilder<S> {
    pub fn new(sink: S, opts: TreeBuilderOpts) -> Self {
        let doc = sink.get_document();
        TreeBuilder {
            sink,
            opts,
            mode: Mode::Initial,
            orig: Mode::Initial,
            tmpl_modes: vec![],
            stack: vec![],
            afe: vec![],
            doc,
            head: None,
            form: None,
            frameset_ok: true,
            foster: false,
            pending: vec![],
            ignore_lf: false,
            context: None,
            quirks: false,
            want: None,
            stop: false,
        }
    }

    pub fn new_for_fragment(sink: S, ctx: S::Handle, opts: TreeBuilderOpts) -> Self {
        let mut t = Self::new(sink, opts);
        if t.named(&ctx, "template") {
            t.tmpl_modes.push(Mode::InTemplate);
        }
        if t.named(&ctx, "form") {
            t.form = Some(ctx.clone());
        }
        t.context = Some(ctx);
        let root = t.make(&plain("html"), HTML);
        t.sink.append(&t.doc, NodeOrText::AppendNode(root.clone()));
        t.stack.push(root);
        t.reset_mode();
        t
    }

    pub fn prepare(&mut self, tok: &mut Tokenizer) {
        if let Some(c) = &self.context {
            let (ns, n) = self.name(c);
            if ns == HTML {
                tok.set_state(match &*n {
                    "title" | "textarea" => State::Rcdata,
                    "style" | "xmp" | "iframe" | "noembed" | "noframes" => State::Rawtext,
                    "script" => State::Script,
                    "noscript" if self.opts.scripting_enabled => State::Rawtext,
                    "plaintext" => State::Plaintext,
                    _ => State::Data,
                });
            }
            tok.set_last_start(&n);
        }
    }

    pub fn run(&mut self, tok: &mut Tokenizer) {
        while !self.stop {
            tok.cdata_ok = match self.adjusted_current() {
                Some(h) => self.name(&h).0 != HTML,
                None => false,
            };
            let t = tok.next();
            for e in std::mem::take(&mut tok.errors) {
                self.err(e);
            }
            let lf = std::mem::take(&mut self.ignore_lf);
            match t {
                Token::Chars(mut s) => {
                    if lf && s.starts_with('\n') {
                        s = s.subtendril(1, s.len32() - 1);
                    }
                    if !s.is_empty() {
                        self.dispatch(Token::Chars(s));
                    }
                }
                Token::Eof => {
                    self.dispatch(Token::Eof);
                    break;
                }
                t => self.dispatch(t),
            }
            if let Some(s) = self.want.take() {
                tok.set_state(s);
            }
        }
        while let Some(h) = self.stack.pop() {
            self.sink.pop(&h);
        }
    }

    pub fn finish(self) -> S::Output {
        self.sink.finish()
    }

    // ------------------------------------------------------------- helpers

    fn err(&self, m: &'static str) {
        self.sink.parse_error(Cow::Borrowed(m));
    }

    fn name(&self, h: &S::Handle) -> (String, String) {
        let n = self.sink.elem_name(h);
        (n.ns().to_string(), n.local_name().to_string())
    }
    fn named(&self, h: &S::Handle, name: &str) -> bool {
        let n = self.sink.elem_name(h);
        &**n.ns() == HTML && &**n.local_name() == name
    }
    fn one_of(&self, h: &S::Handle, names: &[&str]) -> bool {
        let n = self.sink.elem_name(h);
        &**n.ns() == HTML && names.contains(&&**n.local_name())
    }
    fn same(&self, a: &S::Handle, b: &S::Handle) -> bool {
        self.sink.same_node(a, b)
    }
    fn current(&self) -> S::Handle {
        self.stack.last().expect("open element").clone()
    }
    fn cur_is(&self, name: &str) -> bool {
        self.stack.last().is_some_and(|h| self.named(h, name))
    }
    fn cur_in(&self, names: &[&str]) -> bool {
        self.stack.last().is_some_and(|h| self.one_of(h, names))
    }
    fn adjusted_current(&self) -> Option<S::Handle> {
        match (&self.context, self.stack.len()) {
            (Some(c), 1) => Some(c.clone()),
            _ => self.stack.last().cloned(),
        }
    }
    fn pos_in_stack(&self, h: &S::Handle) -> Option<usize> {
        self.stack.iter().rposition(|x| self.same(x, h))
    }
    fn on_stack(&self, name: &str) -> bool {
        self.stack.iter().any(|h| self.named(h, name))
    }
    fn is_special(&self, h: &S::Handle) -> bool {
        let (ns, n) = self.name(h);
        match &*ns {
            HTML => SPECIAL.contains(&&*n),
            MATHML => ["mi", "mo", "mn", "ms", "mtext", "annotation-xml"].contains(&&*n),
            SVG => ["foreignObject", "desc", "title"].contains(&&*n),
            _ => false,
        }
    }
    fn in_scope_by(&self, target: impl Fn(&S::Handle) -> bool, list: &[&str]) -> bool {
        for h in self.stack.iter().rev() {
            if target(h) {
                return true;
            }
            let (ns, n) = self.name(h);
            let stop = match &*ns {
                HTML => list.contains(&&*n),
                MATHML => !std::ptr::eq(list, SCOPE_TABLE) && ["mi", "mo", "mn", "ms", "mtext", "annotation-xml"].contains(&&*n),
                SVG => !std::ptr::eq(list, SCOPE_TABLE) && ["foreignObject", "desc", "title"].contains(&&*n),
                _ => false,
            };
            if stop {
                return false;
            }
        }
        false
    }
    fn in_scope(&self, name: &str, list: &[&str]) -> bool {
        self.in_scope_by(|h| self.named(h, name), list)
    }
    fn in_select_scope(&self, name: &str) -> bool {
        for h in self.stack.iter().rev() {
            if self.named(h, name) {
                return true;
            }
            if !self.one_of(h, &["optgroup", "option"]) {
                return false;
            }
        }
        false
    }

    fn make(&self, t: &Tag, ns: &str) -> S::Handle {
        let attrs = t
            .attrs
            .iter()
            .map(|(n, v)| Attribute { name: self.attr_name(n, ns), value: v.clone() })
            .collect();
        let name = QualName::new(None, Namespace::from(ns), LocalName::from(&*t.name));
        let enc = t.attrs.iter().any(|(n, v)| {
            n == "encoding" && (v.eq_ignore_ascii_case("text/html") || v.eq_ignore_ascii_case("application/xhtml+xml"))
        });
        let flags = ElementFlags {
            template: ns == HTML && t.name == "template",
            mathml_annotation_xml_integration_point: ns == MATHML && t.name == "annotation-xml" && enc,
            had_duplicate_attributes: false,
        };
        self.sink.create_element(name, attrs, flags)
    }

    fn attr_name(&self, n: &str, ns: &str) -> QualName {
        let q = |p: Option<&str>, u: &str, l: &str| QualName::new(p.map(Prefix::from), Namespace::from(u), LocalName::from(l));
        if ns == HTML {
            return q(None, "", n);
        }
        const XLINK: &str = "http://www.w3.org/1999/xlink";
        const XML: &str = "http://www.w3.org/XML/1998/namespace";
        const XMLNS: &str = "http://www.w3.org/2000/xmlns/";
        match n {
            "xlink:actuate" | "xlink:arcrole" | "xlink:href" | "xlink:role" | "xlink:show" | "xlink:title" | "xlink:type" => {
                return q(Some("xlink"), XLINK, &n[6..]);
            }
            "xml:lang" | "xml:space" => return q(Some("xml"), XML, &n[4..]),
            "xmlns" => return q(None, XMLNS, n),
            "xmlns:xlink" => return q(Some("xmlns"), XMLNS, "xlink"),
            _ => {}
        }
        if ns == MATHML {
            return q(None, "", if n == "definitionurl" { "definitionURL" } else { n });
        }
        const SVG_ATTRS: &[&str] = &[
            "attributeName", "attributeType", "baseFrequency", "baseProfile", "calcMode", "clipPathUnits", "diffuseConstant",
            "edgeMode", "filterUnits", "glyphRef", "gradientTransform", "gradientUnits", "kernelMatrix", "kernelUnitLength",
            "keyPoints", "keySplines", "keyTimes", "lengthAdjust", "limitingConeAngle", "markerHeight", "markerUnits", "markerWidth",
            "maskContentUnits", "maskUnits", "numOctaves", "pathLength", "patternContentUnits", "patternTransform", "patternUnits",
            "pointsAtX", "pointsAtY", "pointsAtZ", "preserveAlpha", "preserveAspectRatio", "primitiveUnits", "refX", "refY",
            "repeatCount", "repeatDur", "requiredExtensions", "requiredFeatures", "specularConstant", "specularExponent",
            "spreadMethod", "startOffset", "stdDeviation", "stitchTiles", "surfaceScale", "systemLanguage", "tableValues", "targetX",
            "targetY", "textLength", "viewBox", "viewTarget", "xChannelSelector", "yChannelSelector", "zoomAndPan",
        ];
        q(None, "", SVG_ATTRS.iter().find(|a| a.eq_ignore_ascii_case(n)).unwrap_or(&n))
    }

    fn place(&self, over: Option<&S::Handle>) -> Place<S::Handle> {
        let target = over.cloned().unwrap_or_else(|| self.current());
        if self.foster && self.one_of(&target, &["table", "tbody", "tfoot", "thead", "tr"]) {
            for (i, h) in self.stack.iter().enumerate().rev() {
                if self.named(h, "template") {
                    return Place::Last(self.sink.get_template_contents(h));
                }
                if self.named(h, "table") {
                    return Place::Foster(h.clone(), self.stack[i - 1].clone());
                }
            }
            return Place::Last(self.stack[0].clone());
        }
        if self.named(&target, "template") {
            return Place::Last(self.sink.get_template_contents(&target));
        }
        Place::Last(target)
    }
    fn put(&self, p: &Place<S::Handle>, n: NodeOrText<S::Handle>) {
        match p {
            Place::Last(h) => self.sink.append(h, n),
            Place::Foster(t, prev) => self.sink.append_based_on_parent_node(t, prev, n),
        }
    }
    fn insert_text(&self, t: StrTendril) {
        let p = self.place(None);
        self.put(&p, NodeOrText::AppendText(t));
    }
    fn insert_comment(&self, t: StrTendril) {
        let p = self.place(None);
        let c = self.sink.create_comment(t);
        self.put(&p, NodeOrText::AppendNode(c));
    }
    fn comment_on(&self, parent: &S::Handle, t: StrTendril) {
        let c = self.sink.create_comment(t);
        self.sink.append(parent, NodeOrText::AppendNode(c));
    }
    fn insert_ns(&mut self, t: &Tag, ns: &str) -> S::Handle {
        let p = self.place(None);
        let h = self.make(t, ns);
        self.put(&p, NodeOrText::AppendNode(h.clone()));
        self.stack.push(h.clone());
        h
    }
    fn insert(&mut self, t: &Tag) -> S::Handle {
        self.insert_ns(t, HTML)
    }
    fn insert_void(&mut self, t: &Tag) {
        self.insert(t);
        self.pop();
    }
    fn pop(&mut self) -> S::Handle {
        let h = self.stack.pop().expect("open element");
        self.sink.pop(&h);
        h
    }
    fn pop_until(&mut self, names: &[&str]) {
        while let Some(h) = self.stack.pop() {
            self.sink.pop(&h);
            if self.one_of(&h, names) {
                break;
            }
        }
    }
    fn implied(&mut self, except: Option<&str>) {
        while self.cur_in(IMPLIED) && !except.is_some_and(|e| self.cur_is(e)) {
            self.pop();
        }
    }
    fn implied_all(&mut self) {
        while self.cur_in(IMPLIED_ALL) {
            self.pop();
        }
    }
    fn close_p(&mut self) {
        self.implied(Some("p"));
        if !self.cur_is("p") {
            self.err("unclosed in p");
        }
        self.pop_until(&["p"]);
    }
    fn close_p_in_scope(&mut self) {
        if self.in_scope("p", SCOPE_BUTTON) {
            self.close_p();
        }
    }
    fn clear_to(&mut self, names: &[&str]) {
        while !self.cur_in(names) {
            self.pop();
        }
    }
    fn raw(&mut self, t: &Tag, s: State) {
        self.insert(t);
        self.want = Some(s);
        self.orig = self.mode;
        self.mode = Mode::Text;
    }

    fn push_afe(&mut self, h: S::Handle, t: &Tag) {
        let key = |t: &Tag| {
            let mut a: Vec<(String, String)> = t.attrs.iter().map(|(n, v)| (n.clone(), v.to_string())).collect();
            a.sort();
            (t.name.clone(), a)
        };
        let k = key(t);
        let (mut n, mut first) = (0, None);
        for (i, e) in self.afe.iter().enumerate().rev() {
            match e {
                Afe::Marker => break,
                Afe::El(_, o) => {
                    if key(o) == k {
                        n += 1;
                        first = Some(i);
                    }
                }
            }
        }
        if n >= 3 {
            self.afe.remove(first.unwrap());
        }
        self.afe.push(Afe::El(h, t.clone()));
    }
    fn clear_afe(&mut self) {
        while let Some(e) = self.afe.pop() {
            if matches!(e, Afe::Marker) {
                break;
            }
        }
    }
    fn afe_pos(&self, h: &S::Handle) -> Option<usize> {
        self.afe.iter().position(|e| matches!(e, Afe::El(x, _) if self.same(x, h)))
    }
    fn reconstruct(&mut self) {
        let open = |s: &Self, e: &Afe<S::Handle>| match e {
            Afe::Marker => true,
            Afe::El(h, _) => s.pos_in_stack(h).is_some(),
        };
        let Some(last) = self.afe.last() else { return };
        if open(self, last) {
            return;
        }
        let mut i = self.afe.len() - 1;
        while i > 0 && !open(self, &self.afe[i - 1]) {
            i -= 1;
        }
        while i < self.afe.len() {
            let Afe::El(_, t) = &self.afe[i] else { unreachable!() };
            let t = t.clone();
            let h = self.insert(&t);
            self.afe[i] = Afe::El(h, t);
            i += 1;
        }
    }

    fn adoption(&mut self, subject: &str) {
        if self.cur_is(subject) && self.afe_pos(&self.current()).is_none() {
            self.pop();
            return;
        }
        for _ in 0..8 {
            let mut found = None;
            for (i, e) in self.afe.iter().enumerate().rev() {
                match e {
                    Afe::Marker => break,
                    Afe::El(h, t) => {
                        if t.name == subject {
                            found = Some((i, h.clone(), t.clone()));
                            break;
                        }
                    }
                }
            }
            let Some((fi, fe, ftag)) = found else {
                self.any_other_end(subject);
                return;
            };
            let Some(fs) = self.pos_in_stack(&fe) else {
                self.err("formatting element not open");
                self.afe.remove(fi);
                return;
            };
            if !self.in_scope_by(|h| self.same(h, &fe), SCOPE) {
                self.err("formatting element not in scope");
                return;
            }
            let Some(fb) = (fs + 1..self.stack.len()).find(|&i| self.is_special(&self.stack[i])) else {
                while self.stack.len() > fs {
                    self.pop();
                }
                self.afe.remove(fi);
                return;
            };
            let furthest = self.stack[fb].clone();
            let common = self.stack[fs - 1].clone();
            let mut bookmark_after: Option<S::Handle> = None;
            let mut last = furthest.clone();
            let mut node_i = fb;
            let mut inner = 0;
            loop {
                inner += 1;
                node_i -= 1;
                let node = self.stack[node_i].clone();
                if self.same(&node, &fe) {
                    break;
                }
                let mut ap = self.afe_pos(&node);
                if inner > 3
                    && let Some(p) = ap
                {
                    self.afe.remove(p);
                    ap = None;
                }
                let Some(ap) = ap else {
                    self.stack.remove(node_i);
                    continue;
                };
                let Afe::El(_, t) = &self.afe[ap] else { unreachable!() };
                let t = t.clone();
                let new = self.make(&t, HTML);
                self.stack[node_i] = new.clone();
                self.afe[ap] = Afe::El(new.clone(), t);
                if self.same(&last, &furthest) {
                    bookmark_after = Some(new.clone());
                }
                self.sink.remove_from_parent(&last);
                self.sink.append(&new, NodeOrText::AppendNode(last));
                last = new;
            }
            self.sink.remove_from_parent(&last);
            let p = {
                // the override location is foster parented when it is a table part
                let f = self.foster;
                self.foster = true;
                let p = self.place(Some(&common));
                self.foster = f;
                p
            };
            self.put(&p, NodeOrText::AppendNode(last));
            let new = self.make(&ftag, HTML);
            self.sink.reparent_children(&furthest, &new);
            self.sink.append(&furthest, NodeOrText::AppendNode(new.clone()));
            match bookmark_after {
                None => {
                    let i = self.afe_pos(&fe).expect("still listed");
                    self.afe[i] = Afe::El(new.clone(), ftag);
                }
                Some(h) => {
                    let i = self.afe_pos(&h).expect("bookmark") + 1;
                    self.afe.insert(i, Afe::El(new.clone(), ftag));
                    let i = self.afe_pos(&fe).expect("still listed");
                    self.afe.remove(i);
                }
            }
            if let Some(i) = self.pos_in_stack(&fe) {
                self.stack.remove(i);
            }
            let i = self.pos_in_stack(&furthest).expect("furthest block open");
            self.stack.insert(i + 1, new);
        }
    }

    fn any_other_end(&mut self, name: &str) {
        for i in (0..self.stack.len()).rev() {
            let h = self.stack[i].clone();
            if self.named(&h, name) {
                self.implied(Some(name));
                while self.stack.len() > i {
                    self.pop();
                }
                return;
            }
            if self.is_special(&h) {
                self.err("unexpected end tag");
                return;
            }
        }
    }

    fn reset_mode(&mut self) {
        for i in (0..self.stack.len()).rev() {
            let last = i == 0;
            let h = match (&self.context, last) {
                (Some(c), true) => c.clone(),
                _ => self.stack[i].clone(),
            };
            let (ns, n) = self.name(&h);
            if ns == HTML {
                match &*n {
                    "select" => {
                        let mut m = Mode::InSelect;
                        if !last {
                            for j in (1..i).rev() {
                                if self.named(&self.stack[j], "template") {
                                    break;
                                }
                                if self.named(&self.stack[j], "table") {
                                    m = Mode::InSelectInTable;
                                    break;
                                }
                            }
                        }
                        self.mode = m;
                        return;
                    }
                    "td" | "th" if !last => {
                        self.mode = Mode::InCell;
                        return;
                    }
                    "tr" => {
                        self.mode = Mode::InRow;
                        return;
                    }
                    "tbody" | "thead" | "tfoot" => {
                        self.mode = Mode::InTableBody;
                        return;
                    }
                    "caption" => {
                        self.mode = Mode::InCaption;
                        return;
                    }
                    "colgroup" => {
                        self.mode = Mode::InColumnGroup;
                        return;
                    }
                    "table" => {
                        self.mode = Mode::InTable;
                        return;
                    }
                    "template" => {
                        self.mode = *self.tmpl_modes.last().unwrap_or(&Mode::InTemplate);
                        return;
                    }
                    "head" if !last => {
                        self.mode = Mode::InHead;
                        return;
                    }
                    "body" => {
                        self.mode = Mode::InBody;
                        return;
                    }
                    "frameset" => {
                        self.mode = Mode::InFrameset;
                        return;
                    }
                    "html" => {
                        self.mode = if self.head.is_none() { Mode::BeforeHead } else { Mode::AfterHead };
                        return;
                    }
                    _ => {}
                }
            }
            if last {
                self.mode = Mode::InBody;
                return;
            }
        }
    }

    // ------------------------------------------------------------ dispatch

    fn dispatch(&mut self, t: Token) {
        let foreign = match self.adjusted_current() {
            None => false,
            Some(h) => {
                let (ns, n) = self.name(&h);
                if ns == HTML {
                    false
                } else {
                    let mtext = ns == MATHML && ["mi", "mo", "mn", "ms", "mtext"].contains(&&*n);
                    let hip = (ns == SVG && ["foreignObject", "desc", "title"].contains(&&*n))
                        || (ns == MATHML && n == "annotation-xml" && self.sink.is_mathml_annotation_xml_integration_point(&h));
                    match &t {
                        Token::Eof => false,
                        Token::Tag(g) if !g.end => {
                            !(mtext && !["mglyph", "malignmark"].contains(&&*g.name)
                                || (ns == MATHML && n == "annotation-xml" && g.name == "svg")
                                || hip)
                        }
                        Token::Chars(_) | Token::Null => !(mtext || hip),
                        _ => true,
                    }
                }
            }
        };
        if foreign {
            return self.foreign(t);
        }
        use Mode::*;
        match t {
            // modes that treat white space apart get it in separate tokens
            Token::Chars(s)
                if matches!(
                    self.mode,
                    Initial | BeforeHtml | BeforeHead | InHead | InHeadNoscript | AfterHead | InColumnGroup | AfterBody | InFrameset
                        | AfterFrameset | AfterAfterBody | AfterAfterFrameset
                ) =>
            {
                let mut rest = s;
                while !rest.is_empty() {
                    let w = rest.starts_with(is_ws);
                    let n = rest.find(|c| is_ws(c) != w).unwrap_or(rest.len());
                    let head = rest.subtendril(0, n as u32);
                    let split = matches!(
                        self.mode,
                        Initial | BeforeHtml | BeforeHead | InHead | InHeadNoscript | AfterHead | InColumnGroup | AfterBody
                            | InFrameset | AfterFrameset | AfterAfterBody | AfterAfterFrameset
                    );
                    if !split {
                        self.step(self.mode, Token::Chars(rest));
                        return;
                    }
                    rest = rest.subtendril(n as u32, rest.len32() - n as u32);
                    self.step(self.mode, Token::Chars(head));
                }
            }
            t => self.step(self.mode, t),
        }
    }

    /// Reprocess a token in the (new) current mode.
    fn again(&mut self, t: Token) {
        self.dispatch(t)
    }

    fn foreign(&mut self, t: Token) {
        match t {
            Token::Null => self.insert_text("\u{fffd}".into()),
            Token::Chars(s) => {
                if !s.chars().all(is_ws) {
                    self.frameset_ok = false;
                }
                self.insert_text(s)
            }
            Token::Comment(c) => self.insert_comment(c),
            Token::Doctype(_) => self.err("doctype"),
            Token::Tag(g) if !g.end => {
                const OUT: &[&str] = &[
                    "b", "big", "blockquote", "body", "br", "center", "code", "dd", "div", "dl", "dt", "em", "embed", "h1", "h2", "h3",
                    "h4", "h5", "h6", "head", "hr", "i", "img", "li", "listing", "menu", "meta", "nobr", "ol", "p", "pre", "ruby", "s",
                    "small", "span", "strong", "strike", "sub", "sup", "table", "tt", "u", "ul", "var",
                ];
                let out = OUT.contains(&&*g.name)
                    || g.name == "font" && g.attrs.iter().any(|(n, _)| ["color", "face", "size"].contains(&&**n));
                if out {
                    self.err("html start tag in foreign content");
                    return self.break_out(Token::Tag(g));
                }
                let h = self.adjusted_current().unwrap();
                let (ns, _) = self.name(&h);
                let mut g = g;
                if ns == SVG {
                    const SVG_TAGS: &[&str] = &[
                        "altGlyph", "altGlyphDef", "altGlyphItem", "animateColor", "animateMotion", "animateTransform", "clipPath",
                        "feBlend", "feColorMatrix", "feComponentTransfer", "feComposite", "feConvolveMatrix", "feDiffuseLighting",
                        "feDisplacementMap", "feDistantLight", "feDropShadow", "feFlood", "feFuncA", "feFuncB", "feFuncG", "feFuncR",
                        "feGaussianBlur", "feImage", "feMerge", "feMergeNode", "feMorphology", "feOffset", "fePointLight",
                        "feSpecularLighting", "feSpotLight", "feTile", "feTurbulence", "foreignObject", "glyphRef", "linearGradient",
                        "radialGradient", "textPath",
                    ];
                    if let Some(n) = SVG_TAGS.iter().find(|n| n.eq_ignore_ascii_case(&g.name)) {
                        g.name = n.to_string();
                    }
                }
                self.insert_ns(&g, &ns);
                if g.self_closing {
                    self.pop();
                }
            }
            Token::Tag(g) => {
                if g.name == "br" || g.name == "p" {
                    self.err("html end tag in foreign content");
                    return self.break_out(Token::Tag(g));
                }
                let mut i = self.stack.len() - 1;
                loop {
                    if i == 0 {
                        return;
                    }
                    let (ns, n) = self.name(&self.stack[i]);
                    if ns == HTML {
                        return self.step(self.mode, Token::Tag(g));
                    }
                    if n.eq_ignore_ascii_case(&g.name) {
                        while self.stack.len() > i {
                            self.pop();
                        }
                        return;
                    }
                    i -= 1;
                }
            }
            Token::Eof => self.step(self.mode, Token::Eof),
        }
    }

    fn break_out(&mut self, t: Token) {
        loop {
            let h = self.current();
            let (ns, n) = self.name(&h);
            let stop = ns == HTML
                || (ns == MATHML && ["mi", "mo", "mn", "ms", "mtext"].contains(&&*n))
                || (ns == SVG && ["foreignObject", "desc", "title"].contains(&&*n))
                || (ns == MATHML && n == "annotation-xml" && self.sink.is_mathml_annotation_xml_integration_point(&h));
            if stop {
                break;
            }
            self.pop();
        }
        self.step(self.mode, t);
    }

    fn step(&mut self, mode: Mode, t: Token) {
        match mode {
            Mode::Initial => self.initial(t),
            Mode::BeforeHtml => self.before_html(t),
            Mode::BeforeHead => self.before_head(t),
            Mode::InHead => self.in_head(t),
            Mode::InHeadNoscript => self.in_body(t),
            Mode::AfterHead => self.after_head(t),
            Mode::InBody => self.in_body(t),
            Mode::Text => self.text(t),
            Mode::InTable => self.in_table(t),
            Mode::InTableText => self.in_table_text(t),
            Mode::InCaption => self.in_caption(t),
            Mode::InColumnGroup => self.in_colgroup(t),
            Mode::InTableBody => self.in_table_body(t),
            Mode::InRow => self.in_row(t),
            Mode::InCell => self.in_cell(t),
            Mode::InSelect => self.in_select(t),
            Mode::InSelectInTable => self.in_select_in_table(t),
            Mode::InTemplate => self.in_template(t),
            Mode::AfterBody => self.after_body(t),
            Mode::InFrameset => self.in_frameset(t),
            Mode::AfterFrameset => self.after_frameset(t),
            Mode::AfterAfterBody => self.after_after_body(t),
            Mode::AfterAfterFrameset => self.after_after_frameset(t),
        }
    }

    fn initial(&mut self, t: Token) {
        match t {
            Token::Chars(s) if s.chars().all(is_ws) => {}
            Token::Comment(c) => self.comment_on(&self.doc, c),
            Token::Doctype(Doctype { name, public, system, force_quirks }) => {
                let quirks = force_quirks || name.as_deref() != Some("html");
                if !self.opts.drop_doctype {
                    self.sink.append_doctype_to_document(
                        name.unwrap_or_default(),
                        public.unwrap_or_default(),
                        system.unwrap_or_default(),
                    );
                }
                self.quirks = quirks;
                self.sink.set_quirks_mode(if quirks { QuirksMode::Quirks } else { QuirksMode::NoQuirks });
                self.mode = Mode::BeforeHtml;
            }
            t => {
                self.err("missing doctype");
                self.quirks = true;
                self.sink.set_quirks_mode(QuirksMode::Quirks);
                self.mode = Mode::BeforeHtml;
                self.again(t);
            }
        }
    }

    fn before_html(&mut self, t: Token) {
        match t {
            Token::Doctype(_) => self.err("doctype"),
            Token::Comment(c) => self.comment_on(&self.doc, c),
            Token::Chars(s) if s.chars().all(is_ws) => {}
            Token::Tag(g) if !g.end && g.name == "html" => {
                let h = self.make(&g, HTML);
                self.sink.append(&self.doc, NodeOrText::AppendNode(h.clone()));
                self.stack.push(h);
                self.mode = Mode::BeforeHead;
            }
            Token::Tag(g) if g.end && !["head", "body", "html", "br"].contains(&&*g.name) => self.err("end tag"),
            t => {
                let h = self.make(&plain("html"), HTML);
                self.sink.append(&self.doc, NodeOrText::AppendNode(h.clone()));
                self.stack.push(h);
                self.mode = Mode::BeforeHead;
                self.again(t);
            }
        }
    }

    fn before_head(&mut self, t: Token) {
        match t {
            Token::Chars(s) if s.chars().all(is_ws) => {}
            Token::Comment(c) => self.insert_comment(c),
            Token::Doctype(_) => self.err("doctype"),
            Token::Tag(g) if !g.end && g.name == "html" => self.in_body(Token::Tag(g)),
            Token::Tag(g) if !g.end && g.name == "head" => {
                self.head = Some(self.insert(&g));
                self.mode = Mode::InHead;
            }
            Token::Tag(g) if g.end && !["head", "body", "html", "br"].contains(&&*g.name) => self.err("end tag"),
            t => {
                self.head = Some(self.insert(&plain("head")));
                self.mode = Mode::InHead;
                self.again(t);
            }
        }
    }

    fn in_head(&mut self, t: Token) {
        match t {
            Token::Chars(s) if s.chars().all(is_ws) => self.insert_text(s),
            Token::Comment(c) => self.insert_comment(c),
            Token::Doctype(_) => self.err("doctype"),
            Token::Tag(g) if !g.end => match &*g.name {
                "html" => self.in_body(Token::Tag(g)),
                "base" | "basefont" | "bgsound" | "link" | "meta" => self.insert_void(&g),
                "title" => self.raw(&g, State::Rcdata),
                "noscript" | "noframes" | "style" => self.raw(&g, State::Rawtext),
                "script" => {
                    let h = self.make(&g, HTML);
                    if self.context.is_some() {
                        self.sink.mark_script_already_started(&h);
                    }
                    let p = self.place(None);
                    self.put(&p, NodeOrText::AppendNode(h.clone()));
                    self.stack.push(h);
                    self.want = Some(State::Script);
                    self.orig = self.mode;
                    self.mode = Mode::Text;
                }
                "template" => {
                    self.insert(&g);
                    self.afe.push(Afe::Marker);
                    self.frameset_ok = false;
                    self.mode = Mode::InTemplate;
                    self.tmpl_modes.push(Mode::InTemplate);
                }
                "head" => self.err("head in head"),
                _ => {
                    self.pop();
                    self.mode = Mode::AfterHead;
                    self.again(Token::Tag(g));
                }
            },
            Token::Tag(g) => match &*g.name {
                "head" => {
                    self.pop();
                    self.mode = Mode::AfterHead;
                }
                "template" => self.end_template(),
                "body" | "html" | "br" => {
                    self.pop();
                    self.mode = Mode::AfterHead;
                    self.again(Token::Tag(g));
                }
                _ => self.err("end tag"),
            },
            t => {
                self.pop();
                self.mode = Mode::AfterHead;
                self.again(t);
            }
        }
    }

    fn end_template(&mut self) {
        if !self.on_stack("template") {
            self.err("no template");
            return;
        }
        self.implied_all();
        self.pop_until(&["template"]);
        self.clear_afe();
        self.tmpl_modes.pop();
        self.reset_mode();
    }

    fn after_head(&mut self, t: Token) {
        match t {
            Token::Chars(s) if s.chars().all(is_ws) => self.insert_text(s),
            Token::Comment(c) => self.insert_comment(c),
            Token::Doctype(_) => self.err("doctype"),
            Token::Tag(g) if !g.end && g.name == "html" => self.in_body(Token::Tag(g)),
            Token::Tag(g) if !g.end && g.name == "body" => {
                self.insert(&g);
                self.frameset_ok = false;
                self.mode = Mode::InBody;
            }
            Token::Tag(g) if !g.end && g.name == "frameset" => {
                self.insert(&g);
                self.mode = Mode::InFrameset;
            }
            Token::Tag(g)
                if !g.end
                    && [
                        "base", "basefont", "bgsound", "link", "meta", "noframes", "script", "style", "template", "title",
                    ]
                    .contains(&&*g.name) =>
            {
                self.err("head content after head");
                let head = self.head.clone().expect("head");
                self.stack.push(head.clone());
                self.in_head(Token::Tag(g));
                if let Some(i) = self.pos_in_stack(&head) {
                    self.stack.remove(i);
                }
            }
            Token::Tag(g) if g.end && g.name == "template" => self.end_template(),
            Token::Tag(g) if g.end && !["body", "html", "br"].contains(&&*g.name) => self.err("end tag"),
            Token::Tag(g) if !g.end && g.name == "head" => self.err("head"),
            t => {
                self.insert(&plain("body"));
                self.mode = Mode::InBody;
                self.again(t);
            }
        }
    }

    fn in_body(&mut self, t: Token) {
        match t {
            Token::Null => self.err("NUL"),
            Token::Chars(s) => {
                self.reconstruct();
                if !s.chars().all(is_ws) {
                    self.frameset_ok = false;
                }
                self.insert_text(s);
            }
            Token::Comment(c) => self.insert_comment(c),
            Token::Doctype(_) => self.err("doctype"),
            Token::Eof => {
                if !self.tmpl_modes.is_empty() {
                    self.in_template(Token::Eof);
                } else {
                    self.stop = true;
                }
            }
            Token::Tag(g) if !g.end => self.body_start(g),
            Token::Tag(g) => self.body_end(g),
        }
    }

    fn attrs_to(&self, h: &S::Handle, g: &Tag) {
        let attrs =
            g.attrs.iter().map(|(n, v)| Attribute { name: self.attr_name(n, HTML), value: v.clone() }).collect();
        self.sink.add_attrs_if_missing(h, attrs);
    }

    fn body_start(&mut self, g: Tag) {
        match &*g.name {
            "html" => {
                self.err("html in body");
                if !self.on_stack("template")
                    && let Some(h) = self.stack.first()
                {
                    self.attrs_to(h, &g);
                }
            }
            "base" | "basefont" | "bgsound" | "link" | "meta" | "noframes" | "script" | "style" | "template" | "title" => {
                self.in_head(Token::Tag(g))
            }
            "body" => {
                self.err("body in body");
                if self.stack.len() > 1 && self.named(&self.stack[1], "body") && !self.on_stack("template") {
                    self.frameset_ok = false;
                    let b = self.stack[1].clone();
                    self.attrs_to(&b, &g);
                }
            }
            "frameset" => {
                self.err("frameset in body");
                if !self.frameset_ok || self.stack.len() < 2 || !self.named(&self.stack[1], "body") {
                    return;
                }
                let b = self.stack[1].clone();
                self.sink.remove_from_parent(&b);
                while self.stack.len() > 1 {
                    self.pop();
                }
                self.insert(&g);
                self.mode = Mode::InFrameset;
            }
            "address" | "article" | "aside" | "blockquote" | "center" | "details" | "dialog" | "dir" | "div" | "dl" | "fieldset"
            | "figcaption" | "figure" | "footer" | "header" | "hgroup" | "main" | "menu" | "nav" | "ol" | "p" | "search" | "section"
            | "summary" | "ul" => {
                self.close_p_in_scope();
                self.insert(&g);
            }
            "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => {
                self.close_p_in_scope();
                if self.cur_in(HEADINGS) {
                    self.err("nested heading");
                    self.pop();
                }
                self.insert(&g);
            }
            "pre" | "listing" => {
                self.close_p_in_scope();
                self.insert(&g);
                self.ignore_lf = true;
                self.frameset_ok = false;
            }
            "form" => {
                if self.form.is_some() && !self.on_stack("template") {
                    self.err("nested form");
                } else {
                    self.close_p_in_scope();
                    let h = self.insert(&g);
                    if !self.on_stack("template") {
                        self.form = Some(h);
                    }
                }
            }
            "li" | "dd" | "dt" => {
                self.frameset_ok = false;
                let close: &[&str] = if g.name == "li" { &["li"] } else { &["dd", "dt"] };
                for i in (0..self.stack.len()).rev() {
                    let h = self.stack[i].clone();
                    if self.one_of(&h, close) {
                        let (_, n) = self.name(&h);
                        self.implied(Some(&n));
                        self.pop_until(&[&n]);
                        break;
                    }
                    if self.is_special(&h) && !self.one_of(&h, &["address", "div", "p"]) {
                        break;
                    }
                }
                self.close_p_in_scope();
                self.insert(&g);
            }
            "plaintext" => {
                self.close_p_in_scope();
                self.insert(&g);
                self.want = Some(State::Plaintext);
            }
            "button" => {
                if self.in_scope("button", SCOPE) {
                    self.err("nested button");
                    self.implied(None);
                    self.pop_until(&["button"]);
                }
                self.reconstruct();
                self.insert(&g);
                self.frameset_ok = false;
            }
            "a" => {
                let mut found = None;
                for e in self.afe.iter().rev() {
                    match e {
                        Afe::Marker => break,
                        Afe::El(h, t) => {
                            if t.name == "a" {
                                found = Some(h.clone());
                                break;
                            }
                        }
                    }
                }
                if let Some(h) = found {
                    self.err("nested a");
                    self.adoption("a");
                    if let Some(i) = self.afe_pos(&h) {
                        self.afe.remove(i);
                    }
                    if let Some(i) = self.pos_in_stack(&h) {
                        self.stack.remove(i);
                    }
                }
                self.reconstruct();
                let h = self.insert(&g);
                self.push_afe(h, &g);
            }
            "nobr" => {
                self.reconstruct();
                if self.in_scope("nobr", SCOPE) {
                    self.err("nested nobr");
                    self.adoption("nobr");
                    self.reconstruct();
                }
                let h = self.insert(&g);
                self.push_afe(h, &g);
            }
            n if FORMATTING.contains(&n) => {
                self.reconstruct();
                let h = self.insert(&g);
                self.push_afe(h, &g);
            }
            "applet" | "marquee" | "object" => {
                self.reconstruct();
                self.insert(&g);
                self.afe.push(Afe::Marker);
                self.frameset_ok = false;
            }
            "table" => {
                if !self.quirks {
                    self.close_p_in_scope();
                }
                self.insert(&g);
                self.frameset_ok = false;
                self.mode = Mode::InTable;
            }
            "area" | "br" | "embed" | "img" | "keygen" | "wbr" => {
                self.reconstruct();
                self.insert_void(&g);
                self.frameset_ok = false;
            }
            "input" => {
                self.reconstruct();
                self.insert_void(&g);
                if !g.attrs.iter().any(|(n, v)| n == "type" && v.eq_ignore_ascii_case("hidden")) {
                    self.frameset_ok = false;
                }
            }
            "param" | "source" | "track" => self.insert_void(&g),
            "hr" => {
                self.close_p_in_scope();
                self.insert_void(&g);
                self.frameset_ok = false;
            }
            "image" => {
                self.err("image");
                let mut g = g;
                g.name = "img".into();
                self.body_start(g);
            }
            "textarea" => {
                self.ignore_lf = true;
                self.frameset_ok = false;
                self.raw(&g, State::Rcdata);
            }
            "xmp" => {
                self.close_p_in_scope();
                self.reconstruct();
                self.frameset_ok = false;
                self.raw(&g, State::Rawtext);
            }
            "iframe" => {
                self.frameset_ok = false;
                self.raw(&g, State::Rawtext);
            }
            "noembed" => self.raw(&g, State::Rawtext),
            "noscript" if self.opts.scripting_enabled => self.raw(&g, State::Rawtext),
            "select" => {
                self.reconstruct();
                self.insert(&g);
                self.frameset_ok = false;
                self.mode = match self.mode {
                    Mode::InTable | Mode::InCaption | Mode::InTableBody | Mode::InRow | Mode::InCell => Mode::InSelectInTable,
                    _ => Mode::InSelect,
                };
            }
            "optgroup" | "option" => {
                if self.cur_is("option") {
                    self.pop();
                }
                self.reconstruct();
                self.insert(&g);
            }
            "rb" | "rtc" => {
                if self.in_scope("ruby", SCOPE) {
                    self.implied(None);
                }
                self.insert(&g);
            }
            "rp" | "rt" => {
                if self.in_scope("ruby", SCOPE) {
                    self.implied(Some("rtc"));
                }
                self.insert(&g);
            }
            "math" | "svg" => {
                self.reconstruct();
                let ns = if g.name == "math" { MATHML } else { SVG };
                self.insert_ns(&g, ns);
                if g.self_closing {
                    self.pop();
                }
            }
            "caption" | "col" | "colgroup" | "frame" | "head" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr" => {
                self.err("misplaced start tag")
            }
            _ => {
                self.reconstruct();
                self.insert(&g);
            }
        }
    }

    fn body_end(&mut self, g: Tag) {
        match &*g.name {
            "template" => self.end_template(),
            "body" => {
                if self.in_scope("body", SCOPE) {
                    self.mode = Mode::AfterBody;
                } else {
                    self.err("no body in scope");
                }
            }
            "html" => {
                if self.in_scope("body", SCOPE) {
                    self.mode = Mode::AfterBody;
                    self.again(Token::Tag(g));
                } else {
                    self.err("no body in scope");
                }
            }
            "address" | "article" | "aside" | "blockquote" | "button" | "center" | "details" | "dialog" | "dir" | "div" | "dl"
            | "fieldset" | "figcaption" | "figure" | "footer" | "header" | "hgroup" | "listing" | "main" | "menu" | "nav" | "ol"
            | "pre" | "search" | "section" | "summary" | "ul" => {
                if !self.in_scope(&g.name, SCOPE) {
                    self.err("end tag");
                    return;
                }
                self.implied(None);
                self.pop_until(&[&g.name]);
            }
            "form" => {
                if !self.on_stack("template") {
                    let Some(f) = self.form.take() else {
                        self.err("no form");
                        return;
                    };
                    if !self.in_scope_by(|h| self.same(h, &f), SCOPE) {
                        self.err("form not in scope");
                        return;
                    }
                    self.implied(None);
                    if let Some(i) = self.pos_in_stack(&f) {
                        self.stack.remove(i);
                    }
                } else {
                    if !self.in_scope("form", SCOPE) {
                        self.err("form not in scope");
                        return;
                    }
                    self.implied(None);
                    self.pop_until(&["form"]);
                }
            }
            "p" => {
                if !self.in_scope("p", SCOPE_BUTTON) {
                    self.err("no p");
                    self.insert(&plain("p"));
                }
                self.close_p();
            }
            "li" => {
                if !self.in_scope("li", SCOPE_LI) {
                    self.err("no li");
                    return;
                }
                self.implied(Some("li"));
                self.pop_until(&["li"]);
            }
            "dd" | "dt" => {
                if !self.in_scope(&g.name, SCOPE) {
                    self.err("end tag");
                    return;
                }
                self.implied(Some(&g.name));
                self.pop_until(&[&g.name]);
            }
            "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => {
                if !self.in_scope_by(|h| self.one_of(h, HEADINGS), SCOPE) {
                    self.err("no heading");
                    return;
                }
                self.implied(None);
                self.pop_until(HEADINGS);
            }
            n if FORMATTING.contains(&n) => self.adoption(&g.name.clone()),
            "applet" | "marquee" | "object" => {
                if !self.in_scope(&g.name, SCOPE) {
                    self.err("end tag");
                    return;
                }
                self.implied(None);
                self.pop_until(&[&g.name]);
                self.clear_afe();
            }
            "br" => {
                self.err("end br");
                self.body_start(plain("br"));
            }
            _ => self.any_other_end(&g.name),
        }
    }

    fn text(&mut self, t: Token) {
        match t {
            Token::Chars(s) => self.insert_text(s),
            Token::Eof => {
                self.err("eof in text");
                self.pop();
                self.mode = self.orig;
                self.again(Token::Eof);
            }
            Token::Tag(_) => {
                self.pop();
                self.mode = self.orig;
            }
            _ => {}
        }
    }

    fn foster_body(&mut self, t: Token) {
        self.err("foster parenting");
        let f = std::mem::replace(&mut self.foster, true);
        self.in_body(t);
        self.foster = f;
    }

    fn in_table(&mut self, t: Token) {
        match t {
            Token::Chars(_) | Token::Null if self.cur_in(&["table", "tbody", "template", "tfoot", "thead", "tr"]) => {
                self.pending.clear();
                self.orig = self.mode;
                self.mode = Mode::InTableText;
                self.in_table_text(t);
            }
            Token::Comment(c) => self.insert_comment(c),
            Token::Doctype(_) => self.err("doctype"),
            Token::Tag(g) if !g.end => match &*g.name {
                "caption" => {
                    self.clear_to(&["table", "template", "html"]);
                    self.afe.push(Afe::Marker);
                    self.insert(&g);
                    self.mode = Mode::InCaption;
                }
                "colgroup" => {
                    self.clear_to(&["table", "template", "html"]);
                    self.insert(&g);
                    self.mode = Mode::InColumnGroup;
                }
                "col" => {
                    self.clear_to(&["table", "template", "html"]);
                    self.insert(&plain("colgroup"));
                    self.mode = Mode::InColumnGroup;
                    self.again(Token::Tag(g));
                }
                "tbody" | "tfoot" | "thead" => {
                    self.clear_to(&["table", "template", "html"]);
                    self.insert(&g);
                    self.mode = Mode::InTableBody;
                }
                "td" | "th" | "tr" => {
                    self.clear_to(&["table", "template", "html"]);
                    self.insert(&plain("tbody"));
                    self.mode = Mode::InTableBody;
                    self.again(Token::Tag(g));
                }
                "table" => {
                    self.err("table in table");
                    if self.in_scope("table", SCOPE_TABLE) {
                        self.pop_until(&["table"]);
                        self.reset_mode();
                        self.again(Token::Tag(g));
                    }
                }
                "style" | "script" | "template" => self.in_head(Token::Tag(g)),
                "input" if g.attrs.iter().any(|(n, v)| n == "type" && v.eq_ignore_ascii_case("hidden")) => {
                    self.err("hidden input in table");
                    self.insert_void(&g);
                }
                "form" => {
                    self.err("form in table");
                    if !self.on_stack("template") && self.form.is_none() {
                        let h = self.insert(&g);
                        self.form = Some(h);
                        self.pop();
                    }
                }
                _ => self.foster_body(Token::Tag(g)),
            },
            Token::Tag(g) => match &*g.name {
                "table" => {
                    if self.in_scope("table", SCOPE_TABLE) {
                        self.pop_until(&["table"]);
                        self.reset_mode();
                    } else {
                        self.err("no table");
                    }
                }
                "body" | "caption" | "col" | "colgroup" | "html" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr" => {
                    self.err("end tag in table")
                }
                "template" => self.end_template(),
                _ => self.foster_body(Token::Tag(g)),
            },
            Token::Eof => self.in_body(Token::Eof),
            t => self.foster_body(t),
        }
    }

    fn in_table_text(&mut self, t: Token) {
        match t {
            Token::Null => self.err("NUL"),
            Token::Chars(s) => self.pending.push(s),
            t => {
                let p = std::mem::take(&mut self.pending);
                if p.iter().any(|s| !s.chars().all(is_ws)) {
                    for s in p {
                        self.foster_body(Token::Chars(s));
                    }
                } else {
                    for s in p {
                        self.insert_text(s);
                    }
                }
                self.mode = self.orig;
                self.again(t);
            }
        }
    }

    fn in_caption(&mut self, t: Token) {
        let close = |s: &mut Self| -> bool {
            if !s.in_scope("caption", SCOPE_TABLE) {
                s.err("no caption");
                return false;
            }
            s.implied(None);
            s.pop_until(&["caption"]);
            s.clear_afe();
            s.mode = Mode::InTable;
            true
        };
        match t {
            Token::Tag(g) if g.end && g.name == "caption" => {
                close(self);
            }
            Token::Tag(g)
                if (!g.end && ["caption", "col", "colgroup", "tbody", "td", "tfoot", "th", "thead", "tr"].contains(&&*g.name))
                    || (g.end && g.name == "table") =>
            {
                if close(self) {
                    self.again(Token::Tag(g));
                }
            }
            Token::Tag(g)
                if g.end
                    && ["body", "col", "colgroup", "html", "tbody", "td", "tfoot", "th", "thead", "tr"].contains(&&*g.name) =>
            {
                self.err("end tag in caption")
            }
            t => self.in_body(t),
        }
    }

    fn in_colgroup(&mut self, t: Token) {
        match t {
            Token::Chars(s) if s.chars().all(is_ws) => self.insert_text(s),
            Token::Comment(c) => self.insert_comment(c),
            Token::Doctype(_) => self.err("doctype"),
            Token::Tag(g) if !g.end && g.name == "html" => self.in_body(Token::Tag(g)),
            Token::Tag(g) if !g.end && g.name == "col" => self.insert_void(&g),
            Token::Tag(g) if g.end && g.name == "colgroup" => {
                if self.cur_is("colgroup") {
                    self.pop();
                    self.mode = Mode::InTable;
                } else {
                    self.err("no colgroup");
                }
            }
            Token::Tag(g) if g.end && g.name == "col" => self.err("end col"),
            Token::Tag(g) if g.name == "template" => self.in_head(Token::Tag(g)),
            Token::Eof => self.in_body(Token::Eof),
            t => {
                if self.cur_is("colgroup") {
                    self.pop();
                    self.mode = Mode::InTable;
                    self.again(t);
                } else {
                    self.err("no colgroup");
                }
            }
        }
    }

    fn in_table_body(&mut self, t: Token) {
        const CTX: &[&str] = &["tbody", "tfoot", "thead", "template", "html"];
        match t {
            Token::Tag(g) if !g.end && g.name == "tr" => {
                self.clear_to(CTX);
                self.insert(&g);
                self.mode = Mode::InRow;
            }
            Token::Tag(g) if !g.end && (g.name == "th" || g.name == "td") => {
                self.err("cell without row");
                self.clear_to(CTX);
                self.insert(&plain("tr"));
                self.mode = Mode::InRow;
                self.again(Token::Tag(g));
            }
            Token::Tag(g) if g.end && ["tbody", "tfoot", "thead"].contains(&&*g.name) => {
                if !self.in_scope(&g.name, SCOPE_TABLE) {
                    self.err("end tag");
                    return;
                }
                self.clear_to(CTX);
                self.pop();
                self.mode = Mode::InTable;
            }
            Token::Tag(g)
                if (!g.end && ["caption", "col", "colgroup", "tbody", "tfoot", "thead"].contains(&&*g.name))
                    || (g.end && g.name == "table") =>
            {
                if !self.in_scope_by(|h| self.one_of(h, &["tbody", "tfoot", "thead"]), SCOPE_TABLE) {
                    self.err("no table body");
                    return;
                }
                self.clear_to(CTX);
                self.pop();
                self.mode = Mode::InTable;
                self.again(Token::Tag(g));
            }
            Token::Tag(g) if g.end && ["body", "caption", "col", "colgroup", "html", "td", "th", "tr"].contains(&&*g.name) => {
                self.err("end tag in table body")
            }
            t => self.in_table(t),
        }
    }

    fn close_row(&mut self) -> bool {
        if !self.in_scope("tr", SCOPE_TABLE) {
            self.err("no tr");
            return false;
        }
        self.clear_to(&["tr", "template", "html"]);
        self.pop();
        self.mode = Mode::InTableBody;
        true
    }

    fn in_row(&mut self, t: Token) {
        match t {
            Token::Tag(g) if !g.end && (g.name == "th" || g.name == "td") => {
                self.clear_to(&["tr", "template", "html"]);
                self.insert(&g);
                self.mode = Mode::InCell;
                self.afe.push(Afe::Marker);
            }
            Token::Tag(g) if g.end && g.name == "tr" => {
                self.close_row();
            }
            Token::Tag(g)
                if (!g.end && ["caption", "col", "colgroup", "tbody", "tfoot", "thead", "tr"].contains(&&*g.name))
                    || (g.end && g.name == "table") =>
            {
                if self.close_row() {
                    self.again(Token::Tag(g));
                }
            }
            Token::Tag(g) if g.end && ["tbody", "tfoot", "thead"].contains(&&*g.name) => {
                if !self.in_scope(&g.name, SCOPE_TABLE) {
                    self.err("end tag");
                    return;
                }
                if self.close_row() {
                    self.again(Token::Tag(g));
                }
            }
            Token::Tag(g) if g.end && ["body", "caption", "col", "colgroup", "html", "td", "th"].contains(&&*g.name) => {
                self.err("end tag in row")
            }
            t => self.in_table(t),
        }
    }

    fn close_cell(&mut self) {
        self.implied(None);
        self.pop_until(&["td", "th"]);
        self.clear_afe();
        self.mode = Mode::InRow;
    }

    fn in_cell(&mut self, t: Token) {
        match t {
            Token::Tag(g) if g.end && (g.name == "td" || g.name == "th") => {
                if !self.in_scope(&g.name, SCOPE_TABLE) {
                    self.err("end tag");
                    return;
                }
                self.implied(None);
                self.pop_until(&[&g.name]);
                self.clear_afe();
                self.mode = Mode::InRow;
            }
            Token::Tag(g)
                if !g.end && ["caption", "col", "colgroup", "tbody", "td", "tfoot", "th", "thead", "tr"].contains(&&*g.name) =>
            {
                if self.in_scope_by(|h| self.one_of(h, &["td", "th"]), SCOPE_TABLE) {
                    self.close_cell();
                    self.again(Token::Tag(g));
                } else {
                    self.err("no cell");
                }
            }
            Token::Tag(g) if g.end && ["body", "caption", "col", "colgroup", "html"].contains(&&*g.name) => {
                self.err("end tag in cell")
            }
            Token::Tag(g) if g.end && ["table", "tbody", "tfoot", "thead", "tr"].contains(&&*g.name) => {
                if self.in_scope(&g.name, SCOPE_TABLE) {
                    self.close_cell();
                    self.again(Token::Tag(g));
                } else {
                    self.err("end tag in cell");
                }
            }
            t => self.in_body(t),
        }
    }

    fn in_select(&mut self, t: Token) {
        match t {
            Token::Null => self.err("NUL"),
            Token::Chars(s) => self.insert_text(s),
            Token::Comment(c) => self.insert_comment(c),
            Token::Doctype(_) => self.err("doctype"),
            Token::Tag(g) if !g.end => match &*g.name {
                "html" => self.in_body(Token::Tag(g)),
                "option" => {
                    if self.cur_is("option") {
                        self.pop();
                    }
                    self.insert(&g);
                }
                "optgroup" | "hr" => {
                    if self.cur_is("option") {
                        self.pop();
                    }
                    if self.cur_is("optgroup") {
                        self.pop();
                    }
                    self.insert(&g);
                    if g.name == "hr" {
                        self.pop();
                    }
                }
                "select" => {
                    self.err("select in select");
                    if self.in_select_scope("select") {
                        self.pop_until(&["select"]);
                        self.reset_mode();
                    }
                }
                "input" | "keygen" | "textarea" => {
                    self.err("input in select");
                    if self.in_select_scope("select") {
                        self.pop_until(&["select"]);
                        self.reset_mode();
                        self.again(Token::Tag(g));
                    }
                }
                "script" | "template" => self.in_head(Token::Tag(g)),
                _ => self.err("start tag in select"),
            },
            Token::Tag(g) => match &*g.name {
                "optgroup" => {
                    let n = self.stack.len();
                    if self.cur_is("option") && n >= 2 && self.named(&self.stack[n - 2], "optgroup") {
                        self.pop();
                    }
                    if self.cur_is("optgroup") {
                        self.pop();
                    } else {
                        self.err("no optgroup");
                    }
                }
                "option" => {
                    if self.cur_is("option") {
                        self.pop();
                    } else {
                        self.err("no option");
                    }
                }
                "select" => {
                    if self.in_select_scope("select") {
                        self.pop_until(&["select"]);
                        self.reset_mode();
                    } else {
                        self.err("no select");
                    }
                }
                "template" => self.end_template(),
                _ => self.err("end tag in select"),
            },
            Token::Eof => self.in_body(Token::Eof),
        }
    }

    fn in_select_in_table(&mut self, t: Token) {
        const TAGS: &[&str] = &["caption", "table", "tbody", "tfoot", "thead", "tr", "td", "th"];
        match t {
            Token::Tag(g) if !g.end && TAGS.contains(&&*g.name) => {
                self.err("table tag in select");
                self.pop_until(&["select"]);
                self.reset_mode();
                self.again(Token::Tag(g));
            }
            Token::Tag(g) if g.end && TAGS.contains(&&*g.name) => {
                self.err("table tag in select");
                if self.in_scope(&g.name, SCOPE_TABLE) {
                    self.pop_until(&["select"]);
                    self.reset_mode();
                    self.again(Token::Tag(g));
                }
            }
            t => self.in_select(t),
        }
    }

    fn in_template(&mut self, t: Token) {
        match t {
            Token::Chars(_) | Token::Null | Token::Comment(_) | Token::Doctype(_) => self.in_body(t),
            Token::Tag(g) if !g.end => {
                let m = match &*g.name {
                    "base" | "basefont" | "bgsound" | "link" | "meta" | "noframes" | "script" | "style" | "template" | "title" => {
                        return self.in_head(Token::Tag(g));
                    }
                    "caption" | "colgroup" | "tbody" | "tfoot" | "thead" => Mode::InTable,
                    "col" => Mode::InColumnGroup,
                    "tr" => Mode::InTableBody,
                    "td" | "th" => Mode::InRow,
                    _ => Mode::InBody,
                };
                self.tmpl_modes.pop();
                self.tmpl_modes.push(m);
                self.mode = m;
                self.again(Token::Tag(g));
            }
            Token::Tag(g) => {
                if g.name == "template" {
                    self.end_template();
                } else {
                    self.err("end tag in template");
                }
            }
            Token::Eof => {
                if !self.on_stack("template") {
                    self.stop = true;
                    return;
                }
                self.err("eof in template");
                self.pop_until(&["template"]);
                self.clear_afe();
                self.tmpl_modes.pop();
                self.reset_mode();
                self.again(Token::Eof);
            }
        }
    }

    fn after_body(&mut self, t: Token) {
        match t {
            Token::Chars(s) if s.chars().all(is_ws) => self.in_body(Token::Chars(s)),
            Token::Comment(c) => {
                let root = self.stack[0].clone();
                self.comment_on(&root, c);
            }
            Token::Doctype(_) => self.err("doctype"),
            Token::Tag(g) if !g.end && g.name == "html" => self.in_body(Token::Tag(g)),
            Token::Tag(g) if g.end && g.name == "html" => {
                if self.context.is_some() {
                    self.err("html end tag in fragment");
                } else {
                    self.mode = Mode::AfterAfterBody;
                }
            }
            Token::Eof => self.stop = true,
            t => {
                self.err("content after body");
                self.mode = Mode::InBody;
                self.again(t);
            }
        }
    }

    fn in_frameset(&mut self, t: Token) {
        match t {
            Token::Chars(s) if s.chars().all(is_ws) => self.insert_text(s),
            Token::Comment(c) => self.insert_comment(c),
            Token::Tag(g) if !g.end && g.name == "html" => self.in_body(Token::Tag(g)),
            Token::Tag(g) if !g.end && g.name == "frameset" => {
                self.insert(&g);
            }
            Token::Tag(g) if g.end && g.name == "frameset" => {
                if self.stack.len() == 1 {
                    self.err("root frameset");
                    return;
                }
                self.pop();
                if self.context.is_none() && !self.cur_is("frameset") {
                    self.mode = Mode::AfterFrameset;
                }
            }
            Token::Tag(g) if !g.end && g.name == "frame" => self.insert_void(&g),
            Token::Tag(g) if !g.end && g.name == "noframes" => self.in_head(Token::Tag(g)),
            Token::Eof => self.stop = true,
            _ => self.err("unexpected in frameset"),
        }
    }

    fn after_frameset(&mut self, t: Token) {
        match t {
            Token::Chars(s) if s.chars().all(is_ws) => self.insert_text(s),
            Token::Comment(c) => self.insert_comment(c),
            Token::Tag(g) if !g.end && g.name == "html" => self.in_body(Token::Tag(g)),
            Token::Tag(g) if g.end && g.name == "html" => self.mode = Mode::AfterAfterFrameset,
            Token::Tag(g) if !g.end && g.name == "noframes" => self.in_head(Token::Tag(g)),
            Token::Eof => self.stop = true,
            _ => self.err("unexpected after frameset"),
        }
    }

    fn after_after_body(&mut self, t: Token) {
        match t {
            Token::Comment(c) => self.comment_on(&self.doc, c),
            Token::Chars(s) if s.chars().all(is_ws) => self.in_body(Token::Chars(s)),
            Token::Doctype(_) => self.err("doctype"),
            Token::Tag(g) if !g.end && g.name == "html" => self.in_body(Token::Tag(g)),
            Token::Eof => self.stop = true,
            t => {
                self.err("content after html");
                self.mode = Mode::InBody;
                self.again(t);
            }
        }
    }

    fn after_after_frameset(&mut self, t: Token) {
        match t {
            Token::Comment(c) => self.comment_on(&self.doc, c),
            Token::Chars(s) if s.chars().all(is_ws) => self.in_body(Token::Chars(s)),
            Token::Tag(g) if !g.end && g.name == "html" => self.in_body(Token::Tag(g)),
            Token::Tag(g) if !g.end && g.name == "noframes" => self.in_head(Token::Tag(g)),
            Token::Eof => self.stop = true,
            _ => self.err("unexpected after frameset"),
        }
    }
}

//! Stand-in for html5ever (not available offline): the same `TreeSink`
//! interface, driven by a tokenizer and a tree builder written from the HTML
//! standard's parsing algorithm (scripting enabled, no encoding handling).
pub mod tokenizer;
pub mod tree_builder;

use std::borrow::{Borrow, Cow};
use std::fmt;
use std::ops::Deref;
use std::sync::Arc;
use tendril::{StrTendril, TendrilSink};

macro_rules! atom {
    ($($n:ident),*) => {$(
        #[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub struct $n(Arc<str>);
        impl Deref for $n {
            type Target = str;
            fn deref(&self) -> &str { &self.0 }
        }
        impl AsRef<str> for $n {
            fn as_ref(&self) -> &str { &self.0 }
        }
        impl Borrow<str> for $n {
            fn borrow(&self) -> &str { &self.0 }
        }
        impl Default for $n {
            fn default() -> Self { Self(Arc::from("")) }
        }
        impl From<&str> for $n {
            fn from(s: &str) -> Self { Self(Arc::from(s)) }
        }
        impl From<String> for $n {
            fn from(s: String) -> Self { Self(Arc::from(s)) }
        }
        impl From<Cow<'_, str>> for $n {
            fn from(s: Cow<'_, str>) -> Self { Self(Arc::from(&*s)) }
        }
        impl PartialEq<str> for $n {
            fn eq(&self, o: &str) -> bool { &*self.0 == o }
        }
        impl PartialEq<&str> for $n {
            fn eq(&self, o: &&str) -> bool { &*self.0 == *o }
        }
        impl PartialEq<$n> for str {
            fn eq(&self, o: &$n) -> bool { self == &*o.0 }
        }
        impl PartialEq<String> for $n {
            fn eq(&self, o: &String) -> bool { *self.0 == **o }
        }
        impl fmt::Debug for $n {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "Atom({:?})", &*self.0)
            }
        }
        impl fmt::Display for $n {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) }
        }
    )*};
}
atom!(LocalName, Prefix, Namespace);

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct QualName {
    pub prefix: Option<Prefix>,
    pub ns: Namespace,
    pub local: LocalName,
}
impl QualName {
    pub fn new(prefix: Option<Prefix>, ns: Namespace, local: LocalName) -> QualName {
        QualName { prefix, ns, local }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Attribute {
    pub name: QualName,
    pub value: StrTendril,
}

#[macro_export]
macro_rules! local_name {
    ($s:tt) => {
        $crate::LocalName::from($s)
    };
}
#[macro_export]
macro_rules! namespace_prefix {
    ($s:tt) => {
        $crate::Prefix::from($s)
    };
}
#[macro_export]
macro_rules! namespace_url {
    ($s:tt) => {
        $crate::Namespace::from($s)
    };
}
#[macro_export]
macro_rules! ns {
    () => {
        $crate::Namespace::from("")
    };
    (*) => {
        $crate::Namespace::from("*")
    };
    (html) => {
        $crate::Namespace::from("http://www.w3.org/1999/xhtml")
    };
    (svg) => {
        $crate::Namespace::from("http://www.w3.org/2000/svg")
    };
    (mathml) => {
        $crate::Namespace::from("http://www.w3.org/1998/Math/MathML")
    };
    (xlink) => {
        $crate::Namespace::from("http://www.w3.org/1999/xlink")
    };
    (xml) => {
        $crate::Namespace::from("http://www.w3.org/XML/1998/namespace")
    };
    (xmlns) => {
        $crate::Namespace::from("http://www.w3.org/2000/xmlns/")
    };
}

#[derive(Clone, Default)]
pub struct ParseOpts {
    pub tree_builder: tree_builder::TreeBuilderOpts,
}

pub struct Parser<S: tree_builder::TreeSink> {
    tb: tree_builder::TreeBuilder<S>,
    input: StrTendril,
}

impl<S: tree_builder::TreeSink> TendrilSink for Parser<S> {
    type Output = S::Output;
    fn process(&mut self, t: StrTendril) {
        if self.input.is_empty() {
            self.input = t;
        } else {
            self.input.push_tendril(&t);
        }
    }
    fn finish(mut self) -> S::Output {
        let mut tok = tokenizer::Tokenizer::new(self.input);
        self.tb.prepare(&mut tok);
        self.tb.run(&mut tok);
        self.tb.finish()
    }
}

pub fn parse_document<S: tree_builder::TreeSink>(sink: S, opts: ParseOpts) -> Parser<S> {
    Parser { tb: tree_builder::TreeBuilder::new(sink, opts.tree_builder), input: StrTendril::new() }
}

pub fn parse_fragment<S: tree_builder::TreeSink>(
    sink: S,
    opts: ParseOpts,
    context_name: QualName,
    context_attrs: Vec<Attribute>,
    _context_element_allows_scripting: bool,
) -> Parser<S> {
    // as html5ever's create_element does
    let is = |ns: &str, tag: &str| context_name.ns.as_ref() == ns && context_name.local.as_ref() == tag;
    let flags = tree_builder::ElementFlags {
        template: is("http://www.w3.org/1999/xhtml", "template"),
        mathml_annotation_xml_integration_point: is("http://www.w3.org/1998/Math/MathML", "annotation-xml")
            && context_attrs.iter().any(|a| {
                let v: &str = a.value.as_ref();
                a.name.local.as_ref() == "encoding" && (v.eq_ignore_ascii_case("text/html") || v.eq_ignore_ascii_case("application/xhtml+xml"))
            }),
        had_duplicate_attributes: false,
    };
    let ctx = sink.create_element(context_name, context_attrs, flags);
    Parser {
        tb: tree_builder::TreeBuilder::new_for_fragment(sink, ctx, opts.tree_builder),
        input: StrTendril::new(),
    }
}

pub mod interface {
    pub use crate::tree_builder::{ElemName, ElementFlags, NodeOrText, QuirksMode, TreeSink};
    pub use crate::{Attribute, QualName};
}

//! Stand-in for tendril: a string that shares its buffer with the tendrils cut
//! from it, except for strings of at most 8 bytes, which never share (the real
//! type stores those inline).
use std::borrow::Borrow;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::Deref;
use std::rc::Rc;

const INLINE: usize = 8;

#[derive(Clone)]
pub struct StrTendril {
    buf: Rc<str>,
    start: usize,
    end: usize,
}

impl StrTendril {
    pub fn new() -> Self {
        Self::from("")
    }
    pub fn from_slice(s: &str) -> Self {
        Self::from(s)
    }
    pub fn from_char(c: char) -> Self {
        Self::from(c)
    }
    pub fn as_str(&self) -> &str {
        &self.buf[self.start..self.end]
    }
    pub fn len32(&self) -> u32 {
        (self.end - self.start) as u32
    }
    pub fn push_slice(&mut self, s: &str) {
        let mut t = String::with_capacity(self.len() + s.len());
        t.push_str(self);
        t.push_str(s);
        *self = Self::from(t);
    }
    pub fn push_char(&mut self, c: char) {
        self.push_slice(c.encode_utf8(&mut [0; 4]));
    }
    pub fn push_tendril(&mut self, o: &StrTendril) {
        if Rc::ptr_eq(&self.buf, &o.buf) && self.end == o.start && self.len() > INLINE && o.len() > INLINE {
            self.end = o.end;
        } else {
            self.push_slice(o);
        }
    }
    /// Bytes `off..off + len`, sharing the buffer unless short.
    pub fn subtendril(&self, off: u32, len: u32) -> Self {
        let (a, b) = (self.start + off as usize, self.start + (off + len) as usize);
        if b - a <= INLINE {
            return Self::from(&self.buf[a..b]);
        }
        assert!(self.buf.is_char_boundary(a) && self.buf.is_char_boundary(b));
        StrTendril { buf: self.buf.clone(), start: a, end: b }
    }
    pub fn clear(&mut self) {
        *self = Self::new();
    }
}

impl Default for StrTendril {
    fn default() -> Self {
        Self::new()
    }
}
impl Deref for StrTendril {
    type Target = str;
    fn deref(&self) -> &str {
        self.as_str()
    }
}
impl AsRef<str> for StrTendril {
    fn as_ref(&self) -> &str {
        self.as_str()
    }
}
impl Borrow<str> for StrTendril {
    fn borrow(&self) -> &str {
        self.as_str()
    }
}
impl From<&str> for StrTendril {
    fn from(s: &str) -> Self {
        StrTendril { buf: Rc::from(s), start: 0, end: s.len() }
    }
}
impl From<String> for StrTendril {
    fn from(s: String) -> Self {
        Self::from(s.as_str())
    }
}
impl From<&String> for StrTendril {
    fn from(s: &String) -> Self {
        Self::from(s.as_str())
    }
}
impl From<char> for StrTendril {
    fn from(c: char) -> Self {
        Self::from(&*c.encode_utf8(&mut [0; 4]))
    }
}
impl From<StrTendril> for String {
    fn from(t: StrTendril) -> String {
        t.as_str().to_string()
    }
}
impl From<&StrTendril> for String {
    fn from(t: &StrTendril) -> String {
        t.as_str().to_string()
    }
}
impl std::str::FromStr for StrTendril {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        Ok(Self::from(s))
    }
}
impl PartialEq for StrTendril {
    fn eq(&self, o: &Self) -> bool {
        self.as_str() == o.as_str()
    }
}
impl Eq for StrTendril {}
impl PartialEq<str> for StrTendril {
    fn eq(&self, o: &str) -> bool {
        self.as_str() == o
    }
}
impl PartialEq<&str> for StrTendril {
    fn eq(&self, o: &&str) -> bool {
        self.as_str() == *o
    }
}
impl PartialOrd for StrTendril {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for StrTendril {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.as_str().cmp(o.as_str())
    }
}
impl Hash for StrTendril {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.as_str().hash(h)
    }
}
impl fmt::Debug for StrTendril {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self.as_str(), f)
    }
}
impl fmt::Display for StrTendril {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self.as_str(), f)
    }
}
impl fmt::Write for StrTendril {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.push_slice(s);
        Ok(())
    }
}
pub trait SliceExt {
    fn to_tendril(&self) -> StrTendril;
}
impl SliceExt for str {
    fn to_tendril(&self) -> StrTendril {
        self.into()
    }
}

pub trait TendrilSink: Sized {
    type Output;
    fn process(&mut self, t: StrTendril);
    fn finish(self) -> Self::Output;
    fn one(mut self, t: impl Into<StrTendril>) -> Self::Output {
        self.process(t.into());
        self.finish()
    }
}

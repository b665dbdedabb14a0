//! Stand-in for compact_str: same interface over a plain `String`.
use std::borrow::{Borrow, Cow};
use std::fmt;
use std::ops::{Add, AddAssign, Deref, DerefMut};

#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct CompactString(String);

impl CompactString {
    pub fn new(s: impl AsRef<str>) -> Self {
        Self(s.as_ref().to_string())
    }
    pub const fn const_new(_: &'static str) -> Self {
        Self(String::new())
    }
    pub fn with_capacity(n: usize) -> Self {
        Self(String::with_capacity(n))
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
    pub fn as_mut_str(&mut self) -> &mut str {
        &mut self.0
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn capacity(&self) -> usize {
        self.0.capacity()
    }
    pub fn reserve(&mut self, n: usize) {
        self.0.reserve(n)
    }
    pub fn push(&mut self, c: char) {
        self.0.push(c)
    }
    pub fn push_str(&mut self, s: &str) {
        self.0.push_str(s)
    }
    pub fn pop(&mut self) -> Option<char> {
        self.0.pop()
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
    pub fn truncate(&mut self, n: usize) {
        self.0.truncate(n)
    }
    pub fn insert_str(&mut self, i: usize, s: &str) {
        self.0.insert_str(i, s)
    }
    pub fn into_string(self) -> String {
        self.0
    }
    pub fn from_string_buffer(s: String) -> Self {
        Self(s)
    }
}

impl Deref for CompactString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl DerefMut for CompactString {
    fn deref_mut(&mut self) -> &mut str {
        &mut self.0
    }
}
impl AsRef<str> for CompactString {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl AsRef<[u8]> for CompactString {
    fn as_ref(&self) -> &[u8] {
        self.0.as_bytes()
    }
}
impl Borrow<str> for CompactString {
    fn borrow(&self) -> &str {
        &self.0
    }
}
impl fmt::Debug for CompactString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl fmt::Display for CompactString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl fmt::Write for CompactString {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push_str(s);
        Ok(())
    }
}
impl From<&str> for CompactString {
    fn from(s: &str) -> Self {
        Self(s.to_string())
    }
}
impl From<&String> for CompactString {
    fn from(s: &String) -> Self {
        Self(s.clone())
    }
}
impl From<String> for CompactString {
    fn from(s: String) -> Self {
        Self(s)
    }
}
impl From<Box<str>> for CompactString {
    fn from(s: Box<str>) -> Self {
        Self(s.into())
    }
}
impl From<Cow<'_, str>> for CompactString {
    fn from(s: Cow<'_, str>) -> Self {
        Self(s.into_owned())
    }
}
impl From<char> for CompactString {
    fn from(c: char) -> Self {
        Self(c.to_string())
    }
}
impl From<CompactString> for String {
    fn from(s: CompactString) -> Self {
        s.0
    }
}
impl std::str::FromStr for CompactString {
    type Err = std::convert::Infallible;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Ok(Self(s.to_string()))
    }
}
macro_rules! eqs {
    ($($t:ty),*) => {$(
        impl PartialEq<$t> for CompactString {
            fn eq(&self, o: &$t) -> bool { self.0 == *o }
        }
    )*};
}
eqs!(str, String, &str);
impl PartialEq<CompactString> for str {
    fn eq(&self, o: &CompactString) -> bool {
        self == o.0
    }
}
impl PartialEq<CompactString> for &str {
    fn eq(&self, o: &CompactString) -> bool {
        *self == o.0
    }
}
impl PartialEq<CompactString> for String {
    fn eq(&self, o: &CompactString) -> bool {
        *self == o.0
    }
}
impl Add<&str> for CompactString {
    type Output = Self;
    fn add(mut self, s: &str) -> Self {
        self.0.push_str(s);
        self
    }
}
impl AddAssign<&str> for CompactString {
    fn add_assign(&mut self, s: &str) {
        self.0.push_str(s)
    }
}
impl<'a> Extend<&'a str> for CompactString {
    fn extend<I: IntoIterator<Item = &'a str>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl Extend<char> for CompactString {
    fn extend<I: IntoIterator<Item = char>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl FromIterator<char> for CompactString {
    fn from_iter<I: IntoIterator<Item = char>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}
impl<'a> FromIterator<&'a str> for CompactString {
    fn from_iter<I: IntoIterator<Item = &'a str>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}
pub trait ToCompactString {
    fn to_compact_string(&self) -> CompactString;
}
impl<T: fmt::Display + ?Sized> ToCompactString for T {
    fn to_compact_string(&self) -> CompactString {
        CompactString(self.to_string())
    }
}
pub trait CompactStringExt {}

#[macro_export]
macro_rules! format_compact {
    ($($arg:tt)*) => { $crate::CompactString::from(::std::format!($($arg)*)) };
}

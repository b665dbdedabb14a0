//! Pages of real sites (the repository's own fixtures, in `pages/`), whole or windows of them,
//! and versions of them after edits of their elements, texts and attributes.
use crate::model::*;
use engine::proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

/// The pages as tags and texts, sorted by name.
pub fn pages() -> &'static [Vec<String>] {
    static P: OnceLock<Vec<Vec<String>>> = OnceLock::new();
    P.get_or_init(|| {
        let dir = concat!(env!("CARGO_MANIFEST_DIR"), "/pages");
        let mut files: Vec<_> = std::fs::read_dir(dir).expect(dir).map(|e| e.unwrap().path()).collect();
        files.sort();
        files.iter().map(|f| tokens(&String::from_utf8_lossy(&std::fs::read(f).unwrap()))).collect()
    })
}
/// Long texts are cut: what matters is the shape of the page.
const LONGEST: usize = 600;
fn tokens(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut rest = s;
    while !rest.is_empty() {
        let n = if rest.starts_with("<!--") {
            rest.find("-->").map_or(rest.len(), |i| i + 3)
        } else if rest.starts_with('<') {
            rest.find('>').map_or(rest.len(), |i| i + 1)
        } else {
            rest.find('<').unwrap_or(rest.len())
        };
        let (t, r) = rest.split_at(n);
        out.push(match t.starts_with('<') {
            true => t.to_string(),
            false => t.chars().take(LONGEST).collect(),
        });
        rest = r;
    }
    out
}
fn name(t: &str) -> Option<&str> {
    let t = t.strip_prefix('<')?;
    let n = t.find(|c: char| !c.is_ascii_alphanumeric() && c != '-').unwrap_or(t.len());
    (n > 0).then(|| &t[..n])
}
/// Where the element that starts at `i` ends, exclusively.
fn end(v: &[String], i: usize) -> usize {
    let Some(tag) = name(&v[i]) else { return i + 1 };
    if VOID.contains(&tag) || v[i].ends_with("/>") {
        return i + 1;
    }
    let mut depth = 0;
    for (j, t) in v.iter().enumerate().skip(i).take(20_000) {
        if name(t) == Some(tag) && !t.ends_with("/>") {
            depth += 1;
        } else if t.strip_prefix("</").is_some_and(|t| t.starts_with(tag) && t[tag.len()..].starts_with('>')) {
            depth -= 1;
            if depth == 0 {
                return j + 1;
            }
        }
    }
    i + 1
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Real {
    pub page: u8,
    /// None: the whole page
    pub window: Option<(u16, u16)>,
    pub doctype: bool,
    /// for every step: what, where, where to, content
    pub steps: Vec<Vec<(u8, u16, u16, String)>>,
    /// elements to mark as opaque
    pub opaque: Vec<u16>,
}
/// `whole`: of how many cases one is a whole page.
pub fn real(whole: u32, steps: std::ops::Range<usize>, opaque: bool) -> BoxedStrategy<Real> {
    let window = (any::<u16>(), prop_oneof![6 => 1u16..80, 3 => 80u16..400, 1 => 400u16..1500]).prop_map(Some);
    let what = prop_oneof![
        3 => text(),
        1 => prop::sample::select(vec!["a &amp; b", "<b>bold</b>", "<p>new", "</div>", "<!--c-->", "<br>", "</p>", "<table><tr><td>x"]).prop_map(String::from),
    ];
    let edit = (any::<u8>(), any::<u16>(), any::<u16>(), what);
    let marks = if opaque { prop::collection::vec(any::<u16>(), 0..4).boxed() } else { Just(vec![]).boxed() };
    (any::<u8>(), prop_oneof![whole - 1 => window, 1 => Just(None)], prop::bool::weighted(0.6), prop::collection::vec(prop::collection::vec(edit, 0..6), steps), marks)
        .prop_map(|(page, window, doctype, steps, opaque)| Real { page, window, doctype, steps, opaque })
        .boxed()
}
impl Real {
    pub fn srcs(&self) -> Vec<String> {
        let pages = pages();
        let page = &pages[self.page as usize % pages.len()];
        let mut v: Vec<String> = match self.window {
            None => page.clone(),
            Some((at, n)) => {
                let at = at as usize * page.len() / 65536;
                page[at..(at + n as usize).min(page.len())].to_vec()
            }
        };
        if self.doctype && self.window.is_some() {
            v.insert(0, "<!DOCTYPE html>".into());
        }
        for m in &self.opaque {
            let tags: Vec<usize> = (0..v.len()).filter(|i| name(&v[*i]).is_some()).collect();
            if !tags.is_empty() {
                let i = tags[*m as usize % tags.len()];
                let n = name(&v[i]).unwrap().len() + 1;
                v[i].insert_str(n, " data-hotmeal-opaque=k");
            }
        }
        let mut out = vec![v.concat()];
        for s in &self.steps {
            for e in s {
                Self::edit(&mut v, e, pages);
            }
            out.push(v.concat());
        }
        out
    }
    pub fn pair(&self) -> (String, String) {
        let mut v = self.srcs();
        let b = v.last().unwrap().clone();
        (v.swap_remove(0), b)
    }
    fn edit(v: &mut Vec<String>, (what, x, y, c): &(u8, u16, u16, String), pages: &[Vec<String>]) {
        if v.is_empty() {
            return v.push(c.clone());
        }
        let at = |x: u16, n: usize| x as usize * n / 65536;
        let i = at(*x, v.len());
        let e = end(v, i);
        match what % 16 {
            0 | 1 => drop(v.drain(i..e)),
            2 => drop(v.remove(i)),
            3 => v.insert(i, c.clone()),
            4 => {
                let k = v[i..e].to_vec();
                v.splice(e..e, k);
            }
            5 | 6 => {
                let k: Vec<String> = v.drain(i..e).collect();
                let j = at(*y, v.len() + 1);
                v.splice(j..j, k);
            }
            7 if e < v.len() => {
                // with what comes next
                let f = end(v, e);
                v[i..f].rotate_left(e - i);
            }
            8 | 9 => {
                // the text at or after this place
                if let Some(t) = v[i..].iter_mut().find(|t| !t.starts_with('<')) {
                    match *y % 3 {
                        0 => *t = c.clone(),
                        1 => t.push_str(c),
                        _ => t.insert_str(0, c),
                    }
                }
            }
            10 | 11 => {
                // an attribute of the tag at or after this place
                if let Some(t) = v[i..].iter_mut().find(|t| name(t).is_some() && t.ends_with('>')) {
                    let n = name(t).unwrap().len() + 1;
                    match (*y % 3, t.find("=\"")) {
                        (0, Some(k)) => t.insert_str(k + 2, &c.replace(['"', '>', '<'], "")),
                        (1, Some(_)) => t.truncate(n),
                        _ => t.insert_str(n, " data-new=\"1\""),
                    }
                    if !t.ends_with('>') {
                        t.push('>');
                    }
                }
            }
            12 => {
                let p = &pages[*y as usize % pages.len()];
                let j = at(y.wrapping_mul(40_503), p.len());
                let k = p[j..end(p, j).min(j + 200)].to_vec();
                v.splice(i..i, k);
            }
            13 if e > i + 1 => {
                v.remove(e - 1);
                v.remove(i);
            }
            14 => {
                v.insert(e, "</div>".into());
                v.insert(i, "<div class=\"wrap\">".into());
            }
            _ => {
                let j = at(*y, v.len());
                v.swap(i, j);
            }
        }
    }
    pub fn show(&self) -> String {
        self.srcs().join("\n-----\n")
    }
}
pub const REAL: &str = "windows of 1..1500 tags and texts of fifteen real pages, and whole ones, and versions of them after 0..5 edits each \
(elements, tags and texts removed, doubled, moved, swapped, wrapped, unwrapped, taken from other pages; texts and attributes changed)";

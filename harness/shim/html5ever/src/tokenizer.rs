//! HTML tokenization over a complete in-memory input.
use tendril::StrTendril;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum State {
    Data,
    Rcdata,
    Rawtext,
    Script,
    Plaintext,
}

#[derive(Clone, Debug)]
pub struct Tag {
    pub end: bool,
    pub name: String,
    pub attrs: Vec<(String, StrTendril)>,
    pub self_closing: bool,
}

#[derive(Clone, Debug)]
pub struct Doctype {
    pub name: Option<StrTendril>,
    pub public: Option<StrTendril>,
    pub system: Option<StrTendril>,
    pub force_quirks: bool,
}

#[derive(Clone, Debug)]
pub enum Token {
    Doctype(Doctype),
    Tag(Tag),
    Comment(StrTendril),
    Chars(StrTendril),
    Null,
    Eof,
}

pub struct Tokenizer {
    src: StrTendril,
    pos: usize,
    pub state: State,
    /// 0 normal, 1 escaped, 2 double escaped (script data)
    script: u8,
    last_start: String,
    pub cdata_ok: bool,
    in_cdata: bool,
    pub errors: Vec<&'static str>,
}

fn ws(b: u8) -> bool {
    matches!(b, b'\t' | b'\n' | b'\x0c' | b' ' | b'\r')
}

const NAMED: &[(&str, &str)] = &[
    ("amp;", "&"), ("amp", "&"), ("AMP;", "&"), ("AMP", "&"), ("lt;", "<"), ("lt", "<"), ("LT;", "<"), ("LT", "<"),
    ("gt;", ">"), ("gt", ">"), ("GT;", ">"), ("GT", ">"), ("quot;", "\""), ("quot", "\""), ("QUOT;", "\""), ("QUOT", "\""),
    ("apos;", "'"), ("nbsp;", "\u{a0}"), ("nbsp", "\u{a0}"), ("copy;", "©"), ("copy", "©"), ("reg;", "®"), ("reg", "®"),
    ("hellip;", "…"), ("mdash;", "—"), ("ndash;", "–"), ("eacute;", "é"), ("eacute", "é"), ("times;", "×"), ("times", "×"),
    ("not;", "¬"), ("not", "¬"), ("notin;", "∉"), ("para;", "¶"), ("para", "¶"), ("sect;", "§"), ("sect", "§"),
    ("Tab;", "\t"), ("NewLine;", "\n"), ("lbrace;", "{"), ("acE;", "\u{223e}\u{333}"), ("yen;", "¥"), ("yen", "¥"),
    ("rarr;", "→"), ("larr;", "←"), ("laquo;", "«"), ("laquo", "«"), ("raquo;", "»"), ("raquo", "»"), ("euro;", "€"),
];

const C1: [u32; 32] = [
    0x20AC, 0, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0, 0x017D, 0, 0, 0x2018,
    0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0, 0x017E, 0x0178,
];

impl Tokenizer {
    pub fn new(src: StrTendril) -> Self {
        let pos = if src.starts_with('\u{feff}') { 3 } else { 0 };
        Tokenizer {
            src,
            pos,
            state: State::Data,
            script: 0,
            last_start: String::new(),
            cdata_ok: false,
            in_cdata: false,
            errors: vec![],
        }
    }

    pub fn set_state(&mut self, s: State) {
        self.state = s;
        self.script = 0;
    }

    pub fn set_last_start(&mut self, n: &str) {
        self.last_start = n.to_string();
    }

    fn b(&self, i: usize) -> Option<u8> {
        self.src.as_bytes().get(i).copied()
    }
    fn cut(&self, a: usize, b: usize) -> StrTendril {
        self.src.subtendril(a as u32, (b - a) as u32)
    }
    fn starts_ci(&self, at: usize, lower: &str) -> bool {
        let s = self.src.as_bytes();
        at + lower.len() <= s.len() && s[at..at + lower.len()].eq_ignore_ascii_case(lower.as_bytes())
    }
    /// A raw stretch of input with newlines normalised and NULs replaced.
    fn clean(&self, a: usize, b: usize) -> StrTendril {
        let s = &self.src[a..b];
        if s.bytes().any(|c| c == b'\r' || c == 0) {
            StrTendril::from(s.replace("\r\n", "\n").replace('\r', "\n").replace('\0', "\u{fffd}"))
        } else {
            self.cut(a, b)
        }
    }

    pub fn next(&mut self) -> Token {
        loop {
            if self.in_cdata {
                if let Some(t) = self.cdata() {
                    return t;
                }
                continue;
            }
            let t = match self.state {
                State::Data => self.data(),
                State::Plaintext => self.plaintext(),
                _ => self.raw(),
            };
            if let Some(t) = t {
                if let Token::Tag(g) = &t
                    && !g.end
                {
                    self.last_start = g.name.clone();
                }
                return t;
            }
        }
    }

    fn run(&mut self, stop: &[u8]) -> Option<Token> {
        let s = self.src.as_bytes();
        let a = self.pos;
        let mut i = a;
        while i < s.len() && !stop.contains(&s[i]) {
            i += 1;
        }
        if i > a {
            self.pos = i;
            return Some(Token::Chars(self.cut(a, i)));
        }
        None
    }

    fn newline(&mut self) -> Token {
        self.pos += if self.b(self.pos + 1) == Some(b'\n') { 2 } else { 1 };
        Token::Chars("\n".into())
    }

    fn cdata(&mut self) -> Option<Token> {
        match self.b(self.pos) {
            None => {
                self.in_cdata = false;
                None
            }
            Some(b']') if self.src[self.pos..].starts_with("]]>") => {
                self.pos += 3;
                self.in_cdata = false;
                None
            }
            Some(b']') => {
                self.pos += 1;
                Some(Token::Chars("]".into()))
            }
            Some(0) => {
                self.pos += 1;
                Some(Token::Null)
            }
            Some(b'\r') => Some(self.newline()),
            _ => self.run(b"]\r\0"),
        }
    }

    fn plaintext(&mut self) -> Option<Token> {
        match self.b(self.pos) {
            None => Some(Token::Eof),
            Some(0) => {
                self.pos += 1;
                Some(Token::Chars("\u{fffd}".into()))
            }
            Some(b'\r') => Some(self.newline()),
            _ => self.run(b"\r\0"),
        }
    }

    fn data(&mut self) -> Option<Token> {
        let p = self.pos;
        match self.b(p) {
            None => Some(Token::Eof),
            Some(0) => {
                self.errors.push("unexpected NUL");
                self.pos += 1;
                Some(Token::Null)
            }
            Some(b'\r') => Some(self.newline()),
            Some(b'&') => Some(Token::Chars(self.charref(None))),
            Some(b'<') => match self.b(p + 1) {
                Some(b'!') => self.markup(),
                Some(b'/') => match self.b(p + 2) {
                    Some(c) if c.is_ascii_alphabetic() => {
                        self.pos += 2;
                        self.tag(true)
                    }
                    Some(b'>') => {
                        self.errors.push("missing end tag name");
                        self.pos += 3;
                        None
                    }
                    None => {
                        self.pos += 2;
                        Some(Token::Chars("</".into()))
                    }
                    _ => {
                        self.pos += 2;
                        Some(self.bogus())
                    }
                },
                Some(c) if c.is_ascii_alphabetic() => {
                    self.pos += 1;
                    self.tag(false)
                }
                Some(b'?') => {
                    self.pos += 1;
                    Some(self.bogus())
                }
                _ => {
                    self.errors.push("lone <");
                    self.pos += 1;
                    Some(Token::Chars("<".into()))
                }
            },
            _ => self.run(b"\0\r&<"),
        }
    }

    fn bogus(&mut self) -> Token {
        self.errors.push("bogus comment");
        let a = self.pos;
        let e = self.src[a..].find('>').map(|i| a + i);
        self.pos = e.map_or(self.src.len(), |e| e + 1);
        Token::Comment(self.clean(a, e.unwrap_or(self.src.len())))
    }

    fn markup(&mut self) -> Option<Token> {
        let p = self.pos + 2;
        if self.src[p..].starts_with("--") {
            let s = p + 2;
            let rest = &self.src[s..];
            if rest.starts_with('>') || rest.starts_with("->") {
                self.pos = s + if rest.starts_with('>') { 1 } else { 2 };
                return Some(Token::Comment(StrTendril::new()));
            }
            let e1 = rest.find("-->").map(|i| (i, 3));
            let e2 = rest.find("--!>").map(|i| (i, 4));
            let e = match (e1, e2) {
                (Some(x), Some(y)) => Some(x.min(y)),
                (x, y) => x.or(y),
            };
            let (end, next) = match e {
                Some((i, n)) => (s + i, s + i + n),
                None => {
                    self.errors.push("eof in comment");
                    let t = rest.strip_suffix("--!").or(rest.strip_suffix("--")).or(rest.strip_suffix('-')).unwrap_or(rest);
                    (s + t.len(), self.src.len())
                }
            };
            self.pos = next;
            return Some(Token::Comment(self.clean(s, end)));
        }
        if self.starts_ci(p, "doctype") {
            self.pos = p + 7;
            return Some(self.doctype());
        }
        if self.cdata_ok && self.src[p..].starts_with("[CDATA[") {
            self.pos = p + 7;
            self.in_cdata = true;
            return None;
        }
        self.pos = p;
        Some(self.bogus())
    }

    fn doctype(&mut self) -> Token {
        let end = self.src[self.pos..].find('>').map(|i| self.pos + i);
        let (a, e) = (self.pos, end.unwrap_or(self.src.len()));
        self.pos = end.map_or(e, |e| e + 1);
        let body = self.src[a..e].to_string();
        let body = body.trim_start_matches(|c: char| c.is_ascii() && ws(c as u8));
        let n = body.find(|c: char| c.is_ascii() && ws(c as u8)).unwrap_or(body.len());
        let name = body[..n].to_ascii_lowercase().replace('\0', "\u{fffd}");
        let rest = body[n..].trim().to_string();
        let mut d = Doctype {
            name: (!name.is_empty()).then(|| name.as_str().into()),
            public: None,
            system: None,
            force_quirks: name.is_empty() || end.is_none(),
        };
        let quoted = |s: &str| -> Option<(String, String)> {
            let s = s.trim_start();
            let q = s.chars().next().filter(|&c| c == '"' || c == '\'')?;
            let i = s[1..].find(q)?;
            Some((s[1..1 + i].to_string(), s[2 + i..].to_string()))
        };
        let low = rest.to_ascii_lowercase();
        if low.starts_with("public") {
            match quoted(&rest[6..]) {
                Some((p, r)) => {
                    d.public = Some(p.into());
                    d.system = quoted(&r).map(|(s, _)| s.into());
                }
                None => d.force_quirks = true,
            }
        } else if low.starts_with("system") {
            match quoted(&rest[6..]) {
                Some((s, _)) => d.system = Some(s.into()),
                None => d.force_quirks = true,
            }
        } else if !rest.is_empty() {
            d.force_quirks = true;
        }
        Token::Doctype(d)
    }

    /// At the first letter of a tag name.
    fn tag(&mut self, end: bool) -> Option<Token> {
        let a = self.pos;
        while let Some(c) = self.b(self.pos)
            && !ws(c)
            && c != b'/'
            && c != b'>'
        {
            self.pos += 1;
        }
        let name = self.src[a..self.pos].to_ascii_lowercase().replace('\0', "\u{fffd}");
        let mut tag = Tag { end, name, attrs: vec![], self_closing: false };
        loop {
            while self.b(self.pos).is_some_and(ws) {
                self.pos += 1;
            }
            match self.b(self.pos) {
                None => {
                    self.errors.push("eof in tag");
                    return Some(Token::Eof);
                }
                Some(b'>') => {
                    self.pos += 1;
                    return Some(Token::Tag(tag));
                }
                Some(b'/') => {
                    self.pos += 1;
                    if self.b(self.pos) == Some(b'>') {
                        self.pos += 1;
                        tag.self_closing = true;
                        return Some(Token::Tag(tag));
                    }
                }
                Some(_) => {
                    let a = self.pos;
                    self.pos += 1; // a leading '=' is part of the name
                    while let Some(c) = self.b(self.pos)
                        && !ws(c)
                        && !matches!(c, b'/' | b'>' | b'=')
                    {
                        self.pos += 1;
                    }
                    let name = self.src[a..self.pos].to_ascii_lowercase().replace('\0', "\u{fffd}");
                    while self.b(self.pos).is_some_and(ws) {
                        self.pos += 1;
                    }
                    let mut value = StrTendril::new();
                    if self.b(self.pos) == Some(b'=') {
                        self.pos += 1;
                        while self.b(self.pos).is_some_and(ws) {
                            self.pos += 1;
                        }
                        match self.b(self.pos) {
                            None => {
                                self.errors.push("eof in tag");
                                return Some(Token::Eof);
                            }
                            Some(q @ (b'"' | b'\'')) => {
                                self.pos += 1;
                                match self.value(&[q]) {
                                    Some(v) => value = v,
                                    None => return Some(Token::Eof),
                                }
                                self.pos += 1;
                            }
                            Some(b'>') => {}
                            Some(_) => match self.value(b"\t\n\x0c \r>") {
                                Some(v) => value = v,
                                None => return Some(Token::Eof),
                            },
                        }
                    }
                    if tag.attrs.iter().any(|(n, _)| *n == name) {
                        self.errors.push("duplicate attribute");
                    } else {
                        tag.attrs.push((name, value));
                    }
                }
            }
        }
    }

    /// An attribute value up to (not including) a byte of `stop`.
    fn value(&mut self, stop: &[u8]) -> Option<StrTendril> {
        let mut out: Option<StrTendril> = None;
        let mut add = |t: StrTendril| match &mut out {
            Some(o) => o.push_tendril(&t),
            None => out = Some(t),
        };
        loop {
            match self.b(self.pos) {
                None => return None,
                Some(c) if stop.contains(&c) => return Some(out.unwrap_or_default()),
                Some(b'&') => {
                    let t = self.charref(Some(()));
                    add(t);
                }
                Some(0) => {
                    self.pos += 1;
                    add("\u{fffd}".into());
                }
                Some(b'\r') => {
                    self.newline();
                    add("\n".into());
                }
                Some(_) => {
                    let a = self.pos;
                    while let Some(c) = self.b(self.pos)
                        && !stop.contains(&c)
                        && !matches!(c, b'&' | 0 | b'\r')
                    {
                        self.pos += 1;
                    }
                    let t = self.cut(a, self.pos);
                    add(t);
                }
            }
        }
    }

    /// At '&'.
    fn charref(&mut self, attr: Option<()>) -> StrTendril {
        self.pos += 1;
        let rest = &self.src[self.pos..];
        let rb = rest.as_bytes();
        if rb.first() == Some(&b'#') {
            let hex = matches!(rb.get(1), Some(b'x' | b'X'));
            let d = if hex { 2 } else { 1 };
            let n = rb[d.min(rb.len())..]
                .iter()
                .take_while(|c| if hex { c.is_ascii_hexdigit() } else { c.is_ascii_digit() })
                .count();
            if n == 0 {
                return "&".into();
            }
            let mut v: u32 = 0;
            for c in rest[d..d + n].chars() {
                v = v.saturating_mul(if hex { 16 } else { 10 }).saturating_add(c.to_digit(16).unwrap());
            }
            let semi = rb.get(d + n) == Some(&b';');
            self.pos += d + n + semi as usize;
            let v = match v {
                0 => 0xfffd,
                0x80..=0x9f if C1[(v - 0x80) as usize] != 0 => C1[(v - 0x80) as usize],
                v => v,
            };
            return char::from_u32(v).unwrap_or('\u{fffd}').into();
        }
        let best = NAMED.iter().filter(|(n, _)| rest.starts_with(n)).max_by_key(|(n, _)| n.len());
        if let Some((n, v)) = best {
            let next = rb.get(n.len()).copied();
            if attr.is_some() && !n.ends_with(';') && next.is_some_and(|c| c == b'=' || c.is_ascii_alphanumeric()) {
                return "&".into();
            }
            self.pos += n.len();
            return (*v).into();
        }
        "&".into()
    }

    fn end_tag_here(&self) -> bool {
        let p = self.pos;
        if self.b(p) != Some(b'<') || self.b(p + 1) != Some(b'/') || !self.starts_ci(p + 2, &self.last_start) {
            return false;
        }
        self.b(p + 2 + self.last_start.len()).is_some_and(|c| ws(c) || c == b'/' || c == b'>')
    }

    /// RCDATA, RAWTEXT and script data.
    fn raw(&mut self) -> Option<Token> {
        let p = self.pos;
        match self.b(p) {
            None => Some(Token::Eof),
            Some(0) => {
                self.pos += 1;
                Some(Token::Chars("\u{fffd}".into()))
            }
            Some(b'\r') => Some(self.newline()),
            Some(b'&') if self.state == State::Rcdata => Some(Token::Chars(self.charref(None))),
            Some(b'<') => {
                if self.state == State::Script && self.script == 2 {
                    if self.starts_ci(p, "</script") && self.b(p + 8).is_some_and(|c| ws(c) || c == b'/' || c == b'>') {
                        self.script = 1;
                    }
                } else if self.end_tag_here() {
                    self.pos += 2;
                    self.state = State::Data;
                    self.script = 0;
                    return self.tag(true);
                } else if self.state == State::Script {
                    if self.script == 1 && self.starts_ci(p, "<script") && self.b(p + 7).is_some_and(|c| ws(c) || c == b'/' || c == b'>')
                    {
                        self.script = 2;
                    } else if self.script == 0 && self.src[p..].starts_with("<!--") {
                        // "<!-->" and "<!--->" close at once: the dashes are
                        // looked at again below
                        self.script = 1;
                        self.pos = p + 2;
                        return Some(Token::Chars("<!".into()));
                    }
                }
                self.pos += 1;
                Some(Token::Chars("<".into()))
            }
            Some(b'-') if self.state == State::Script => {
                if self.script > 0 && self.src[p..].starts_with("-->") {
                    self.script = 0;
                    self.pos += 3;
                    return Some(Token::Chars("-->".into()));
                }
                self.pos += 1;
                Some(Token::Chars("-".into()))
            }
            _ => {
                let stop: &[u8] = match self.state {
                    State::Rcdata => b"\0\r&<",
                    State::Script => b"\0\r<-",
                    _ => b"\0\r<",
                };
                self.run(stop)
            }
        }
    }
}

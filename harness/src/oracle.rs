//! What JSON is, written from RFC 8259 and the property statements, independently of the library.
//! `\b` is the one place where the library is known to differ from the RFC (known-findings.txt): `bell()` holds
//! what the library is allowed to yield for it.
use std::sync::atomic::{AtomicU32, Ordering};

pub static BELL: AtomicU32 = AtomicU32::new(7);
pub fn bell() -> char {
    char::from_u32(BELL.load(Ordering::Relaxed)).unwrap()
}

#[derive(Clone, Debug, PartialEq)]
pub struct S {
    pub src: Vec<u8>,
    pub dec: String,
    pub esc: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Null,
    Bool(bool),
    Num(Vec<u8>),
    Str(S),
    Arr(Vec<T>),
    Obj(Vec<(S, T)>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Null,
    Bool(bool),
    Num(Vec<u8>),
    Str(S),
    Obj,
    ObjEnd,
    Arr,
    ArrEnd,
    Colon,
    Comma,
}
pub fn is_ws(c: u8) -> bool {
    matches!(c, b' ' | b'\n' | b'\r' | b'\t')
}
pub fn skip_ws(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && is_ws(b[i]) {
        i += 1;
    }
    i
}
fn hex4(b: &[u8], i: usize) -> Option<u32> {
    let h = b.get(i..i + 4)?;
    if !h.iter().all(u8::is_ascii_hexdigit) {
        return None;
    }
    u32::from_str_radix(std::str::from_utf8(h).unwrap(), 16).ok()
}
/// the string literal whose opening quote is before `i`; the position after the closing quote
pub fn string(b: &[u8], start: usize) -> Option<(S, usize)> {
    let mut out: Vec<u8> = Vec::new();
    let mut esc = false;
    let mut i = start;
    let push = |out: &mut Vec<u8>, c: char| out.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
    loop {
        match *b.get(i)? {
            b'"' => {
                let dec = String::from_utf8(out).ok()?;
                std::str::from_utf8(&b[start..i]).ok()?;
                return Some((S { src: b[start..i].to_vec(), dec, esc }, i + 1));
            }
            b'\\' => {
                esc = true;
                i += 1;
                let c = match *b.get(i)? {
                    b'"' => '"',
                    b'\\' => '\\',
                    b'/' => '/',
                    b'b' => bell(),
                    b'f' => '\u{c}',
                    b'n' => '\n',
                    b'r' => '\r',
                    b't' => '\t',
                    b'u' => {
                        let h = hex4(b, i + 1)?;
                        i += 4;
                        if (0xD800..0xDC00).contains(&h) {
                            if b.get(i + 1) != Some(&b'\\') || b.get(i + 2) != Some(&b'u') {
                                return None;
                            }
                            let l = hex4(b, i + 3)?;
                            if !(0xDC00..0xE000).contains(&l) {
                                return None;
                            }
                            i += 6;
                            char::from_u32(0x10000 + (h - 0xD800) * 0x400 + (l - 0xDC00))?
                        } else {
                            char::from_u32(h)?
                        }
                    }
                    _ => return None,
                };
                push(&mut out, c);
                i += 1;
            }
            c if c < 0x20 => return None,
            c => {
                out.push(c);
                i += 1;
            }
        }
    }
}
pub fn number(b: &[u8], start: usize) -> Option<usize> {
    let mut i = start;
    let d = |i: usize| b.get(i).map_or(false, u8::is_ascii_digit);
    if b.get(i) == Some(&b'-') {
        i += 1;
    }
    if !d(i) {
        return None;
    }
    if b[i] == b'0' {
        i += 1;
    } else {
        while d(i) {
            i += 1;
        }
    }
    if b.get(i) == Some(&b'.') {
        i += 1;
        if !d(i) {
            return None;
        }
        while d(i) {
            i += 1;
        }
    }
    if matches!(b.get(i), Some(b'e' | b'E')) {
        i += 1;
        if matches!(b.get(i), Some(b'+' | b'-')) {
            i += 1;
        }
        if !d(i) {
            return None;
        }
        while d(i) {
            i += 1;
        }
    }
    Some(i)
}
/// the token at `i` (not whitespace): None when there is none
pub fn token(b: &[u8], i: usize) -> Option<(Tok, usize)> {
    let word = |w: &[u8], t: Tok| b[i..].starts_with(w).then(|| (t, i + w.len()));
    match *b.get(i)? {
        b'{' => Some((Tok::Obj, i + 1)),
        b'}' => Some((Tok::ObjEnd, i + 1)),
        b'[' => Some((Tok::Arr, i + 1)),
        b']' => Some((Tok::ArrEnd, i + 1)),
        b',' => Some((Tok::Comma, i + 1)),
        b':' => Some((Tok::Colon, i + 1)),
        b'n' => word(b"null", Tok::Null),
        b't' => word(b"true", Tok::Bool(true)),
        b'f' => word(b"false", Tok::Bool(false)),
        b'"' => string(b, i + 1).map(|(s, e)| (Tok::Str(s), e)),
        b'-' | b'0'..=b'9' => number(b, i).map(|e| (Tok::Num(b[i..e].to_vec()), e)),
        _ => None,
    }
}

/// what is wrong with the token at `at` (not whitespace, not the end), and where: the kind as `Debug` prints it. `text`:
/// the input is known to be UTF-8
pub fn token_error(b: &[u8], at: usize, text: bool) -> (String, usize) {
    let eof = |k: &str| (k.to_string(), b.len());
    let word = |w: &[u8]| {
        let k = w.iter().zip(&b[at..]).take_while(|(x, y)| x == y).count();
        match b.get(at + k) {
            None => eof("UnexpectedEof"),
            Some(c) => (format!("Unexpected({c})"), at + k),
        }
    };
    match b[at] {
        b'n' => word(b"null"),
        b't' => word(b"true"),
        b'f' => word(b"false"),
        b'"' => string_error(b, at + 1, text),
        b'-' | b'0'..=b'9' => {
            let d = |i: usize| b.get(i).map_or(false, u8::is_ascii_digit);
            let digits = |mut i: usize| {
                while d(i) {
                    i += 1;
                }
                i
            };
            let i = if b[at] == b'-' { at + 1 } else { at };
            if !d(i) {
                return ("ExpectedDigit".into(), i);
            }
            let i = if b[i] == b'0' { i + 1 } else { digits(i) };
            let i = match b.get(i) {
                Some(b'.') if !d(i + 1) => return ("ExpectedDecimalDigit".into(), i + 1),
                Some(b'.') => digits(i + 1),
                _ => i,
            };
            let i = i + 1;
            let i = if matches!(b.get(i), Some(b'+' | b'-')) { i + 1 } else { i };
            ("ExpectedExponent".into(), i)
        }
        c => (format!("Unexpected({c})"), at),
    }
}
fn hex_error(b: &[u8], i: usize) -> (String, usize) {
    match (i..i + 4).find(|&j| !b.get(j).map_or(false, u8::is_ascii_hexdigit)) {
        Some(j) if j >= b.len() => ("UnexpectedEof".into(), b.len()),
        Some(j) => ("InvalidHexadecimal".into(), j),
        None => unreachable!(),
    }
}
fn string_error(b: &[u8], mut i: usize, text: bool) -> (String, usize) {
    loop {
        match b.get(i) {
            None => return ("UnclosedString".into(), b.len()),
            Some(b'\\') => {
                i += 1;
                let eof = ("UnexpectedEof".to_string(), b.len());
                match b.get(i) {
                    None => return eof,
                    Some(b'u') => {
                        let Some(h) = hex4(b, i + 1) else { return hex_error(b, i + 1) };
                        let bad = ("Utf8".to_string(), i);
                        if (0xDC00..0xE000).contains(&h) {
                            return bad;
                        }
                        if (0xD800..0xDC00).contains(&h) {
                            match (b.get(i + 5), b.get(i + 6)) {
                                (None, _) | (Some(b'\\'), None) => return eof,
                                (Some(b'\\'), Some(b'u')) => {}
                                _ => return bad,
                            }
                            match hex4(b, i + 7) {
                                None => return hex_error(b, i + 7),
                                Some(l) if (0xDC00..0xE000).contains(&l) => i += 11,
                                _ => return bad,
                            }
                        } else {
                            i += 5;
                        }
                    }
                    Some(b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't') => i += 1,
                    _ => return ("InvalidEscape".into(), i),
                }
            }
            Some(&c) if c < 0x20 => return (format!("Unexpected({c})"), i),
            Some(&c) if c >= 0x80 && !text => {
                let e = (i..b.len()).find(|&j| b[j] < 0x80).unwrap_or(b.len());
                if std::str::from_utf8(&b[i..e]).is_err() {
                    return ("Utf8".into(), i);
                }
                i = e;
            }
            _ => i += 1,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub trailing: bool,
    pub limit: Option<usize>,
    pub all: bool,
}
impl Cfg {
    pub const DEFAULT: Cfg = Cfg { trailing: false, limit: Some(128), all: true };
    pub fn lib(self) -> justjson::parser::ParseConfig {
        let mut c = justjson::parser::ParseConfig::new().allowing_all_types_at_root(self.all);
        if self.trailing {
            c = c.allowing_trailing_commas();
        }
        match self.limit {
            None => c.without_recursion_limit(),
            Some(n) => c.with_recursion_limit(n),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Null,
    Bool(bool),
    Num(Vec<u8>),
    Str(S),
    BeginObj,
    Key(usize, S),
    Member(usize, usize, usize),
    EndObj(usize),
    BeginArr,
    Elem(usize, usize),
    EndArr(usize),
}
/// which container a premature end is reported for
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Where {
    Root,
    Obj,
    Arr,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    /// handler call number n failed
    Handler(usize),
    /// the storage of a document is full
    Full,
    Depth,
    /// no token where one is needed: position of the token, innermost container
    Lexical(usize, Where),
    /// the same where a colon is needed
    LexicalColon(usize),
    /// a wrong token
    Syntax(Kind),
    Root,
    Trailing,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Unexpected(u8),
    ExpectedColon,
    ExpectedKey,
    KeysMustBeStrings,
    TrailingComma,
    CommaOrEndObj,
    CommaOrEndArr,
}

/// A recursive-descent reading of the grammar that records what a handler must be told.
pub struct Ref<'b> {
    pub b: &'b [u8],
    pub i: usize,
    pub cfg: Cfg,
    pub ev: Vec<Ev>,
    pub fail_at: usize,
    /// how many document entries fit
    pub cap: usize,
    pub nodes: usize,
    depth: usize,
    /// the deepest open container count reached
    pub deepest: usize,
    /// where the failure is reported (not for malformed tokens)
    pub at: usize,
}
pub type Outcome = Result<T, Fail>;

impl<'b> Ref<'b> {
    pub fn new(b: &'b [u8], cfg: Cfg) -> Self {
        Ref { b, i: 0, cfg, ev: vec![], fail_at: usize::MAX, cap: usize::MAX, nodes: 0, depth: 0, deepest: 0, at: 0 }
    }
    /// `at`: where the error is reported when the handler returns one
    fn emit(&mut self, e: Ev, at: usize) -> Result<usize, Fail> {
        self.at = at;
        let n = self.ev.len();
        let node = matches!(e, Ev::Null | Ev::Bool(_) | Ev::Num(_) | Ev::Str(_) | Ev::BeginObj | Ev::BeginArr | Ev::Key(..));
        self.ev.push(e);
        if n == self.fail_at {
            return Err(Fail::Handler(n));
        }
        if node {
            if self.nodes == self.cap {
                return Err(Fail::Full);
            }
            self.nodes += 1;
        }
        Ok(n)
    }
    fn fail<X>(&mut self, k: Kind, at: usize) -> Result<X, Fail> {
        self.at = at;
        Err(Fail::Syntax(k))
    }
    /// the next token, and where the search for it began
    fn tok(&mut self, w: Where) -> Result<(Tok, usize), Fail> {
        let start = self.i;
        let at = skip_ws(self.b, start);
        match token(self.b, at) {
            Some((t, e)) => {
                self.i = e;
                Ok((t, start))
            }
            None => Err(Fail::Lexical(at, w)),
        }
    }
    pub fn run(&mut self) -> Outcome {
        let (_, t) = self.value(Where::Root)?;
        if !self.cfg.all && !matches!(t, T::Arr(_) | T::Obj(_)) {
            self.at = 0;
            return Err(Fail::Root);
        }
        let p = skip_ws(self.b, self.i);
        if p < self.b.len() {
            self.at = p;
            return Err(Fail::Trailing);
        }
        Ok(t)
    }
    fn open(&mut self, at: usize) -> Result<(), Fail> {
        self.at = at;
        if let Some(l) = self.cfg.limit {
            if self.depth >= l {
                return Err(Fail::Depth);
            }
        }
        self.depth += 1;
        self.deepest = self.deepest.max(self.depth);
        Ok(())
    }
    fn value(&mut self, w: Where) -> Result<(usize, T), Fail> {
        let (t, lo) = self.tok(w)?;
        match t {
            Tok::Null => Ok((self.emit(Ev::Null, lo)?, T::Null)),
            Tok::Bool(x) => Ok((self.emit(Ev::Bool(x), lo)?, T::Bool(x))),
            Tok::Num(x) => Ok((self.emit(Ev::Num(x.clone()), lo)?, T::Num(x))),
            Tok::Str(x) => Ok((self.emit(Ev::Str(x.clone()), lo)?, T::Str(x))),
            Tok::ObjEnd => self.fail(Kind::Unexpected(b'}'), lo),
            Tok::ArrEnd => self.fail(Kind::Unexpected(b']'), lo),
            Tok::Colon => self.fail(Kind::Unexpected(b':'), lo),
            Tok::Comma => self.fail(Kind::Unexpected(b','), lo),
            Tok::Obj => {
                self.open(lo)?;
                let o = self.emit(Ev::BeginObj, self.i)?;
                let mut m = vec![];
                loop {
                    let (t, lo) = self.tok(Where::Obj)?;
                    let key = match t {
                        Tok::ObjEnd if m.is_empty() || self.cfg.trailing => break,
                        Tok::ObjEnd => return self.fail(Kind::TrailingComma, lo),
                        Tok::Str(s) => s,
                        Tok::Arr | Tok::Bool(_) | Tok::Null | Tok::Num(_) | Tok::Obj => {
                            return self.fail(Kind::KeysMustBeStrings, lo)
                        }
                        _ => return self.fail(Kind::ExpectedKey, lo),
                    };
                    let k = self.emit(Ev::Key(o, key.clone()), lo)?;
                    let (t, lo) = match self.tok(Where::Obj) {
                        Err(Fail::Lexical(p, _)) => return Err(Fail::LexicalColon(p)),
                        r => r?,
                    };
                    if t != Tok::Colon {
                        return self.fail(Kind::ExpectedColon, lo);
                    }
                    let after_colon = self.i;
                    let (v, t) = self.value(Where::Obj)?;
                    self.emit(Ev::Member(o, k, v), after_colon)?;
                    m.push((key, t));
                    let (t, lo) = self.tok(Where::Obj)?;
                    match t {
                        Tok::ObjEnd => break,
                        Tok::Comma => {}
                        _ => return self.fail(Kind::CommaOrEndObj, lo),
                    }
                }
                let v = self.emit(Ev::EndObj(o), self.i)?;
                self.depth -= 1;
                Ok((v, T::Obj(m)))
            }
            Tok::Arr => {
                self.open(lo)?;
                let begin = self.i;
                let o = self.emit(Ev::BeginArr, begin)?;
                let mut m = vec![];
                loop {
                    let p = skip_ws(self.b, self.i);
                    if self.b.get(p) == Some(&b']') {
                        let lo = self.i;
                        self.i = p + 1;
                        if m.is_empty() || self.cfg.trailing {
                            break;
                        }
                        return self.fail(Kind::TrailingComma, lo);
                    }
                    self.i = p;
                    let (v, t) = self.value(Where::Arr)?;
                    self.emit(Ev::Elem(o, v), self.i)?;
                    m.push(t);
                    let (t, lo) = self.tok(Where::Arr)?;
                    match t {
                        Tok::ArrEnd => break,
                        Tok::Comma => {}
                        _ => return self.fail(Kind::CommaOrEndArr, lo),
                    }
                }
                let v = self.emit(Ev::EndArr(o), begin)?;
                self.depth -= 1;
                Ok((v, T::Arr(m)))
            }
        }
    }
}
pub fn parse(b: &[u8], cfg: Cfg) -> Outcome {
    Ref::new(b, cfg).run()
}

//! One predicate per property over one input ("case"): does the real library do on it what the property says?
use crate::oracle::{self, *};
use justjson::doc::{Document, GenericDocument, HeaplessDocument, Node};
use justjson::parser::{JsonKind, ParseDelegate, Parser, PeekableTokenKind, Token, Tokenizer};
use justjson::{AnyStr, Entry, Error, ErrorKind, JsonNumber, JsonString, Object, Value};
use std::cmp::Ordering;
use std::fmt::{self, Debug, Write};
use std::hash::{Hash, Hasher};

pub type R = Result<(), String>;
macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }
macro_rules! want { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)) } } }

fn text(b: &[u8]) -> Option<&str> {
    std::str::from_utf8(b).ok()
}
pub fn show(b: &[u8]) -> String {
    b.escape_ascii().to_string()
}
/// (kind, offset) of any error, comparable across delegates
type Er = (String, usize);
fn er<E: Debug>(e: &Error<E>) -> Er {
    let k = format!("{:?}", e.kind());
    (k, e.offset())
}

// ------------------------------------------------------------------ comparing with the reference tree
fn str_is(s: &JsonString<'_>, o: &S) -> bool {
    s.as_json_str().map_or(false, |j| j.as_str().as_bytes() == o.src.as_slice())
}
pub fn tree_is(v: &Value<'_>, t: &T) -> bool {
    match (v, t) {
        (Value::Null, T::Null) => true,
        (Value::Boolean(a), T::Bool(b)) => a == b,
        (Value::Number(a), T::Num(b)) => a.source().as_bytes() == b.as_slice(),
        (Value::String(a), T::Str(b)) => str_is(a, b),
        (Value::Array(a), T::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| tree_is(a, b)),
        (Value::Object(a), T::Obj(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, (k, b))| str_is(&a.key, k) && tree_is(&a.value, b))
        }
        _ => false,
    }
}
fn kind_is(k: JsonKind, t: &T) -> bool {
    k == match t {
        T::Null => JsonKind::Null,
        T::Bool(_) => JsonKind::Boolean,
        T::Num(_) => JsonKind::Number,
        T::Str(_) => JsonKind::String,
        T::Arr(_) => JsonKind::Array,
        T::Obj(_) => JsonKind::Object,
    }
}
#[derive(Clone, Debug)]
pub enum Flat {
    Null,
    Bool(bool),
    Num(Vec<u8>),
    Str(S),
    Obj(usize),
    Arr(usize),
}
pub fn flatten(t: &T, out: &mut Vec<Flat>) {
    match t {
        T::Null => out.push(Flat::Null),
        T::Bool(b) => out.push(Flat::Bool(*b)),
        T::Num(n) => out.push(Flat::Num(n.clone())),
        T::Str(s) => out.push(Flat::Str(s.clone())),
        T::Arr(a) => {
            out.push(Flat::Arr(a.len()));
            a.iter().for_each(|x| flatten(x, out));
        }
        T::Obj(m) => {
            out.push(Flat::Obj(m.len()));
            for (k, x) in m {
                out.push(Flat::Str(k.clone()));
                flatten(x, out);
            }
        }
    }
}
fn node_is(n: &Node<'_>, f: &Flat) -> bool {
    match (n, f) {
        (Node::Null, Flat::Null) => true,
        (Node::Boolean(a), Flat::Bool(b)) => a == b,
        (Node::Number(a), Flat::Num(b)) => a.source().as_bytes() == b.as_slice(),
        (Node::String(a), Flat::Str(b)) => str_is(a, b),
        (Node::Object { length: a }, Flat::Obj(b)) | (Node::Array { length: a }, Flat::Arr(b)) => a == b,
        _ => false,
    }
}
fn nodes_are<'d, 'a>(it: impl Iterator<Item = Node<'a>>, f: &[Flat]) -> bool {
    let v: Vec<_> = it.collect();
    v.len() == f.len() && v.iter().zip(f).all(|(a, b)| node_is(a, b))
}

// ------------------------------------------------------------------ a handler that records
pub struct Rec {
    pub ev: Vec<Ev>,
    pub fail_at: usize,
    pub over: bool,
    kinds: Vec<JsonKind>,
}
pub struct Hand(usize, usize);
impl Rec {
    pub fn new(fail_at: usize) -> Self {
        Rec { ev: vec![], fail_at, over: false, kinds: vec![] }
    }
    fn emit(&mut self, e: Ev, k: JsonKind) -> Result<usize, usize> {
        if self.ev.len() > self.fail_at {
            self.over = true;
        }
        let n = self.ev.len();
        self.ev.push(e);
        self.kinds.push(k);
        if n == self.fail_at {
            Err(n)
        } else {
            Ok(n)
        }
    }
}
fn own(s: &JsonString<'_>) -> S {
    S {
        src: s.as_json_str().map_or_else(|| b"<raw>".to_vec(), |j| j.as_str().as_bytes().to_vec()),
        dec: s.decoded().collect(),
        esc: s.as_str().is_none(),
    }
}
impl<'a> ParseDelegate<'a> for &mut Rec {
    type Value = usize;
    type Object = Hand;
    type Array = Hand;
    type Key = usize;
    type Error = usize;
    fn null(&mut self) -> Result<usize, usize> {
        self.emit(Ev::Null, JsonKind::Null)
    }
    fn boolean(&mut self, v: bool) -> Result<usize, usize> {
        self.emit(Ev::Bool(v), JsonKind::Boolean)
    }
    fn number(&mut self, v: JsonNumber<'a>) -> Result<usize, usize> {
        self.emit(Ev::Num(v.source().as_bytes().to_vec()), JsonKind::Number)
    }
    fn string(&mut self, v: JsonString<'a>) -> Result<usize, usize> {
        self.emit(Ev::Str(own(&v)), JsonKind::String)
    }
    fn begin_object(&mut self) -> Result<Hand, usize> {
        self.emit(Ev::BeginObj, JsonKind::Null).map(|n| Hand(n, 0))
    }
    fn object_key(&mut self, o: &mut Hand, k: JsonString<'a>) -> Result<usize, usize> {
        self.emit(Ev::Key(o.0, own(&k)), JsonKind::Null)
    }
    fn object_value(&mut self, o: &mut Hand, k: usize, v: usize) -> Result<(), usize> {
        o.1 += 1;
        self.emit(Ev::Member(o.0, k, v), JsonKind::Null).map(|_| ())
    }
    fn object_is_empty(&self, o: &Hand) -> bool {
        o.1 == 0
    }
    fn end_object(&mut self, o: Hand) -> Result<usize, usize> {
        self.emit(Ev::EndObj(o.0), JsonKind::Object)
    }
    fn begin_array(&mut self) -> Result<Hand, usize> {
        self.emit(Ev::BeginArr, JsonKind::Null).map(|n| Hand(n, 0))
    }
    fn array_value(&mut self, o: &mut Hand, v: usize) -> Result<(), usize> {
        o.1 += 1;
        self.emit(Ev::Elem(o.0, v), JsonKind::Null).map(|_| ())
    }
    fn array_is_empty(&self, o: &Hand) -> bool {
        o.1 == 0
    }
    fn end_array(&mut self, o: Hand) -> Result<usize, usize> {
        self.emit(Ev::EndArr(o.0), JsonKind::Array)
    }
    fn kind_of(&self, v: &usize) -> JsonKind {
        self.kinds[*v]
    }
}

/// every entry point's verdict on `b` under `cfg` (None: the default entry points)
fn verdicts(b: &[u8], cfg: Option<Cfg>) -> Vec<(&'static str, Result<(), Er>)> {
    let mut v: Vec<(&'static str, Result<(), Er>)> = vec![];
    macro_rules! add { ($n:literal, $e:expr) => { v.push(($n, $e.map(|_| ()).map_err(|e| er(&e)))) } }
    match cfg {
        None => {
            add!("validate_json_bytes", Parser::validate_json_bytes(b));
            add!("Value::from_json_bytes", Value::from_json_bytes(b));
            add!("Document::from_json_bytes", Document::from_json_bytes(b));
            add!("parse_json_bytes", Parser::parse_json_bytes(b, &mut Rec::new(usize::MAX)));
            if let Some(s) = text(b) {
                add!("validate_json", Parser::validate_json(s));
                add!("Value::from_json", Value::from_json(s));
                add!("Document::from_json", Document::from_json(s));
                add!("parse_json", Parser::parse_json(s, &mut Rec::new(usize::MAX)));
            }
        }
        Some(c) => {
            let c = c.lib();
            add!("validate_json_bytes_with_config", Parser::validate_json_bytes_with_config(b, c));
            add!("Value::from_json_bytes_with_config", Value::from_json_bytes_with_config(b, c));
            add!("Document::from_json_bytes_with_config", Document::from_json_bytes_with_config(b, c));
            add!("parse_json_bytes_with_config", Parser::parse_json_bytes_with_config(b, c, &mut Rec::new(usize::MAX)));
            if let Some(s) = text(b) {
                add!("validate_json_with_config", Parser::validate_json_with_config(s, c));
                add!("Value::from_json_with_config", Value::from_json_with_config(s, c));
                add!("Document::from_json_with_config", Document::from_json_with_config(s, c));
                add!("parse_json_with_config", Parser::parse_json_with_config(s, c, &mut Rec::new(usize::MAX)));
            }
        }
    }
    v
}

pub fn c01(b: &[u8]) -> R {
    let o = parse(b, Cfg::DEFAULT);
    for (n, r) in verdicts(b, None) {
        want!(r.is_ok() == o.is_ok(), "{n} gives {r:?}, the grammar says {}", if o.is_ok() { "valid" } else { "invalid" });
    }
    if let (Some(s), true) = (text(b), b.len() < 64) {
        for (n, r) in verdicts(b, Some(Cfg::DEFAULT)) {
            want!(r.is_ok() == o.is_ok(), "{n} gives {r:?}, the grammar says {}", if o.is_ok() { "valid" } else { "invalid" });
        }
        want!(JsonString::from_json(s).is_ok() == matches!(o, Ok(T::Str(_))), "JsonString::from_json is_ok: {}", JsonString::from_json(s).is_ok());
        want!(JsonNumber::from_json(s).is_ok() == matches!(o, Ok(T::Num(_))), "JsonNumber::from_json is_ok: {}", JsonNumber::from_json(s).is_ok());
    }
    Ok(())
}

/// What the default configuration makes of an input; if it is nested deeper than that allows, what no limit makes of it.
/// The second part says which.
fn parse_deep(b: &[u8]) -> (Outcome, bool) {
    let (mut level, mut deepest) = (0usize, 0usize);
    for c in b {
        match c {
            b'[' | b'{' => level += 1,
            b']' | b'}' => level = level.saturating_sub(1),
            _ => {}
        }
        deepest = deepest.max(level);
    }
    match parse(b, Cfg::DEFAULT) {
        Err(Fail::Depth) if deepest <= 700 => (parse(b, NO_LIMIT), true),
        o => (o, false),
    }
}
const NO_LIMIT: Cfg = Cfg { limit: None, ..Cfg::DEFAULT };
fn value_of<'a>(b: &'a [u8], deep: bool) -> Result<Value<'a>, String> {
    if deep { Value::from_json_bytes_with_config(b, NO_LIMIT.lib()) } else { Value::from_json_bytes(b) }.map_err(|e| format!("{e:?}"))
}
pub fn c02(b: &[u8]) -> R {
    let (o, deep) = parse_deep(b);
    let o = match o {
        Ok(t) => t,
        Err(_) => return Ok(()),
    };
    if deep {
        let s = text(b).unwrap();
        let (x, y) = (value_of(b, deep)?, Value::from_json_with_config(s, NO_LIMIT.lib()).map_err(|e| format!("{e:?}"))?);
        let (d, e) = (Document::from_json_with_config(s, NO_LIMIT.lib()).map_err(|e| format!("{e:?}"))?, Document::from_json_bytes_with_config(b, NO_LIMIT.lib()).map_err(|e| format!("{e:?}"))?);
        let mut flat = vec![];
        flatten(&o, &mut flat);
        want!(nodes_are(d.iter(), &flat) && nodes_are(e.iter(), &flat), "no limit: document entries differ");
        want!(tree_is(&x, &o) && tree_is(&y, &o) && tree_is(&Value::from(d), &o), "no limit: the value differs");
        return Ok(());
    }
    let mut flat = vec![];
    flatten(&o, &mut flat);
    let chk = |n: &str, v: Result<Value<'_>, Error>| -> R {
        match v {
            Ok(v) => {
                want!(tree_is(&v, &o), "{n} gives {v:?} for {o:?}");
                Ok(())
            }
            Err(e) => Err(format!("{n}: {e:?}")),
        }
    };
    chk("Value::from_json_bytes", Value::from_json_bytes(b))?;
    let s = text(b).unwrap();
    chk("Value::from_json", Value::from_json(s))?;
    chk("Document -> Value", Document::from_json(s).map(Value::from))?;
    let d = Document::from_json(s).map_err(|e| format!("{e:?}"))?;
    want!(nodes_are(d.iter(), &flat), "document entries {:?} for {o:?}", d.iter().collect::<Vec<_>>());
    let k = Parser::validate_json(s).map_err(|e| format!("{e:?}"))?;
    want!(kind_is(k, &o), "validate_json gives {k:?} for {o:?}");
    let k = Parser::validate_json_bytes(b).map_err(|e| format!("{e:?}"))?;
    want!(kind_is(k, &o), "validate_json_bytes gives {k:?} for {o:?}");
    if let T::Str(x) = &o {
        let j = JsonString::from_json(s).map_err(|e| format!("{e:?}"))?;
        want!(str_is(&j, x) && j == x.dec.as_str(), "JsonString::from_json gives {j:?}");
    }
    if let T::Num(x) = &o {
        let j = JsonNumber::from_json(s).map_err(|e| format!("{e:?}"))?;
        want!(j.source().as_bytes() == x.as_slice(), "JsonNumber::from_json gives {j:?}");
    }
    Ok(())
}

fn utf8_value(v: &Value<'_>) -> bool {
    let st = |s: &JsonString<'_>| {
        let ok = |t: &str| std::str::from_utf8(t.as_bytes()).is_ok();
        s.as_json_str().map_or(true, |t| ok(t.as_str()))
            && s.as_str().map_or(true, ok)
            && ok(s.decode_if_needed().as_str())
            && s.decoded().all(|c| char::from_u32(std::hint::black_box(c as u32)).is_some())
            && s.as_json().all(|c| char::from_u32(std::hint::black_box(c as u32)).is_some())
    };
    match v {
        Value::String(s) => st(s),
        Value::Number(n) => std::str::from_utf8(n.source().as_bytes()).is_ok(),
        Value::Array(a) => a.iter().all(utf8_value),
        Value::Object(o) => o.iter().all(|e| st(&e.key) && utf8_value(&e.value)),
        _ => true,
    }
}
pub fn c03(b: &[u8]) -> R {
    let vb = verdicts(b, None);
    match text(b) {
        None => {
            for (n, r) in &vb {
                want!(r.is_err(), "{n} accepts bytes that are not UTF-8");
            }
            // tokens handed out before the error are text
            for t in Tokenizer::for_json_bytes(b).take(b.len() + 2) {
                match t {
                    Ok(Token::String(s)) => want!(utf8_value(&Value::String(s.clone())), "token {s:?} is not UTF-8"),
                    Ok(Token::Number(s)) => want!(std::str::from_utf8(s.source().as_bytes()).is_ok(), "number {s:?} is not UTF-8"),
                    _ => {}
                }
            }
        }
        Some(s) => {
            for i in 0..4 {
                want!(vb[i].1 == vb[i + 4].1, "{}: {:?} but {}: {:?}", vb[i].0, vb[i].1, vb[i + 4].0, vb[i + 4].1);
            }
            let (x, y) = (Value::from_json(s), Value::from_json_bytes(b));
            if let (Ok(x), Ok(y)) = (&x, &y) {
                want!(x == y && format!("{x:?}") == format!("{y:?}"), "text gives {x:?}, bytes give {y:?}");
                want!(utf8_value(x), "{x:?} holds a string that is not UTF-8");
            }
            let (x, y) = (Document::from_json(s), Document::from_json_bytes(b));
            if let (Ok(x), Ok(y)) = (&x, &y) {
                want!(x.iter().eq(y.iter()), "documents differ: {x:?} {y:?}");
            }
            want!(Parser::validate_json(s).ok() == Parser::validate_json_bytes(b).ok(), "kinds differ");
            let (mut x, mut y) = (Rec::new(usize::MAX), Rec::new(usize::MAX));
            let (_, _) = (Parser::parse_json(s, &mut x).is_ok(), Parser::parse_json_bytes(b, &mut y).is_ok());
            want!(x.ev == y.ev, "handler calls differ: {:?} {:?}", x.ev, y.ev);
            let mut x = Tokenizer::for_json(s);
            let mut y = Tokenizer::for_json_bytes(b);
            for _ in 0..b.len() + 2 {
                let (p, q) = (x.next(), y.next());
                want!(format!("{p:?}") == format!("{q:?}") && x.offset() == y.offset(), "tokens differ: {p:?} at {} / {q:?} at {}", x.offset(), y.offset());
                if p.is_none() || matches!(p, Some(Err(_))) {
                    break;
                }
            }
        }
    }
    Ok(())
}

fn strings_of<'v, 'a>(v: &'v Value<'a>, out: &mut Vec<&'v JsonString<'a>>) {
    match v {
        Value::String(s) => out.push(s),
        Value::Array(a) => a.iter().for_each(|x| strings_of(x, out)),
        Value::Object(o) => o.iter().for_each(|e| {
            out.push(&e.key);
            strings_of(&e.value, out);
        }),
        _ => {}
    }
}
fn oracle_strings<'t>(t: &'t T, out: &mut Vec<&'t S>) {
    match t {
        T::Str(s) => out.push(s),
        T::Arr(a) => a.iter().for_each(|x| oracle_strings(x, out)),
        T::Obj(o) => o.iter().for_each(|(k, v)| {
            out.push(k);
            oracle_strings(v, out);
        }),
        _ => {}
    }
}
/// every way to go on with `it` gives `rest`
fn iterates<I: Iterator<Item = char> + Clone + std::fmt::Display>(n: &str, it: &I, rest: &str) -> R {
    let left = rest.chars().count();
    want!(it.clone().eq(rest.chars()), "{n} and {rest:?} left: a clone yields something else");
    want!(it.to_string() == rest, "{n} and {rest:?} left: displayed as {:?}", it.to_string());
    let (lo, hi) = it.size_hint();
    want!(lo <= left && hi.map_or(true, |h| h >= left), "{n}: size_hint ({lo}, {hi:?}) with {left} left");
    want!(it.clone().count() == left && it.clone().last() == rest.chars().last(), "{n} and {rest:?} left: count or last differ");
    for k in [1, 2, 6] {
        let (mut a, mut z) = (it.clone(), rest.chars());
        want!(a.nth(k) == z.nth(k) && a.eq(z), "{n} and {rest:?} left: nth({k}) differs");
    }
    want!(it.clone().fold(String::new(), |mut s, c| { s.push(c); s }) == rest, "{n} and {rest:?} left: fold differs");
    Ok(())
}
/// what taking the items one by one gives, every other way of taking them gives
fn agrees<I: Iterator>(n: &str, make: impl Fn() -> I) -> R
where
    I::Item: PartialEq + std::fmt::Debug,
{
    let mut it = make();
    let mut all = vec![];
    let mut hints = vec![it.size_hint()];
    while let Some(x) = it.next() {
        all.push(x);
        hints.push(it.size_hint());
    }
    for (i, (lo, hi)) in hints.into_iter().enumerate() {
        let left = all.len() - i;
        want!(lo <= left && hi.map_or(true, |h| h >= left), "{n}: size_hint ({lo}, {hi:?}) with {left} left");
    }
    want!(make().count() == all.len() && make().last().as_ref() == all.last(), "{n}: count or last differ");
    want!(make().collect::<Vec<_>>() == all, "{n}: collect differs");
    let mut seen = vec![];
    make().for_each(|x| seen.push(x));
    want!(seen == all, "{n}: for_each differs");
    seen = make().fold(vec![], |mut v, x| { v.push(x); v });
    want!(seen == all, "{n}: fold differs");
    want!(same(make().step_by(2), all.iter().step_by(2)), "{n}: step_by differs");
    want!(make().position(|x| Some(&x) == all.last()) == all.iter().position(|x| Some(x) == all.last()), "{n}: position differs");
    want!(make().all(|x| all.contains(&x)) && !make().any(|x| !all.contains(&x)), "{n}: any or all differs");
    for k in (0..=all.len()).filter(|k| *k < 12 || *k + 3 > all.len()) {
        let mut it = make();
        want!(it.nth(k).as_ref() == all.get(k), "{n}: nth({k}) differs");
        want!(same(it, all.iter().skip(k + 1)), "{n}: nth({k}) goes on elsewhere");
        want!(same(make().skip(k), all.iter().skip(k)), "{n}: skip({k}) differs");
        let mut it = make();
        for _ in 0..k {
            it.next();
        }
        want!(it.count() == all.len() - k, "{n}: count after {k} differs");
        if all.len() > k {
            let mut it = make();
            it.next();
            want!(it.nth(k).as_ref() == all.get(k + 1), "{n}: nth({k}) after one differs");
            want!(it.last().as_ref() == if k + 2 < all.len() { all.last() } else { None }, "{n}: last after nth({k}) differs");
        }
    }
    Ok(())
}
fn same<'t, X: PartialEq + 't>(mut it: impl Iterator<Item = X>, mut all: impl Iterator<Item = &'t X>) -> bool {
    loop {
        match (it.next(), all.next()) {
            (None, None) => return true,
            (Some(x), Some(y)) if x == *y => {}
            _ => return false,
        }
    }
}
fn decodes(n: &str, s: &JsonString<'_>, o: &S) -> R {
    want!(s.decoded().eq(o.dec.chars()), "{n}: decoded() gives {:?} for {:?}", s.decoded().collect::<String>(), o.dec);
    let mut it = s.decoded();
    for (k, c) in o.dec.chars().enumerate() {
        if k < 3 || o.dec.len() < 24 {
            iterates(&format!("{n}: decoded()"), &it, &o.dec[o.dec.char_indices().nth(k).map_or(0, |x| x.0)..])?;
        }
        want!(it.next() == Some(c), "{n}: decoded() wrong at {k}");
    }
    want!(it.next().is_none(), "{n}: decoded() goes on after the end");
    want!(s.decoded().to_string() == o.dec, "{n}: decoded().to_string() gives {:?} for {:?}", s.decoded().to_string(), o.dec);
    want!(s.to_string() == o.dec, "{n}: to_string() gives {:?} for {:?}", s.to_string(), o.dec);
    let d = s.decode_if_needed();
    want!(d.as_str() == o.dec, "{n}: decode_if_needed gives {d:?} for {:?}", o.dec);
    want!(matches!(d, AnyStr::Borrowed(_)) == !o.esc, "{n}: decode_if_needed borrowed: {}, escapes: {}", !o.esc, o.esc);
    want!(s.decoded_len() == o.dec.len(), "{n}: decoded_len {} for {}", s.decoded_len(), o.dec.len());
    want!(s.as_str() == (!o.esc).then_some(o.dec.as_str()), "{n}: as_str gives {:?}", s.as_str());
    want!(s.len() == o.src.len() && s.is_empty() == o.src.is_empty(), "{n}: len {} for {}", s.len(), o.src.len());
    want!(*s == *o.dec.as_str(), "{n}: not equal to its own text {:?}", o.dec);
    Ok(())
}
pub fn c04(b: &[u8]) -> R {
    let o = match parse(b, Cfg::DEFAULT) {
        Ok(t) => t,
        Err(_) => return Ok(()),
    };
    let s = text(b).unwrap();
    let mut os = vec![];
    oracle_strings(&o, &mut os);
    for (n, v) in [("text", Value::from_json(s)), ("bytes", Value::from_json_bytes(b)), ("document", Document::from_json(s).map(Value::from))] {
        let v = v.map_err(|e| format!("{n}: {e:?}"))?;
        let mut vs = vec![];
        strings_of(&v, &mut vs);
        want!(vs.len() == os.len(), "{n}: {} strings for {}", vs.len(), os.len());
        for (x, y) in vs.iter().zip(&os) {
            decodes(n, x, y)?;
            decodes(&format!("clone, {n}"), &(*x).clone(), y)?;
        }
    }
    if let T::Str(x) = &o {
        decodes("JsonString::from_json", &JsonString::from_json(s).map_err(|e| format!("{e:?}"))?, x)?;
        let v = Value::from_json(s).unwrap();
        want!(v.as_str() == (!x.esc).then_some(x.dec.as_str()), "Value::as_str gives {:?}", v.as_str());
    }
    Ok(())
}

/// case: raw text
pub fn c05(b: &[u8]) -> R {
    let s = match text(b) {
        Some(s) => s,
        None => return Ok(()),
    };
    let needs = s.chars().any(|c| c == '"' || c == '\\' || (c as u32) < 0x20);
    for (n, j) in [("from(&str)", JsonString::from(s)), ("from(String)", JsonString::from(s.to_string())),
        ("clone of from(&str)", JsonString::from(s).clone()), ("clone of from(String)", JsonString::from(s.to_string()).clone())] {
        let e: String = j.as_json().collect();
        let mut q = e.clone().into_bytes();
        q.push(b'"');
        match string(&q, 0) {
            Some((x, end)) if end == q.len() => {
                want!(x.dec == s, "{n}: the JSON form {e:?} denotes {:?}, not {s:?}", x.dec);
            }
            _ => bail!("{n}: the JSON form {e:?} is not a JSON string body"),
        }
        if !needs {
            want!(e == s, "{n}: {s:?} needs no escape but becomes {e:?}");
            want!(j.as_json_str().map(|a| a.as_str()) == Some(s), "{n}: as_json_str {:?}", j.as_json_str());
        } else {
            want!(j.as_json_str().is_none(), "{n}: as_json_str of an unescaped text {:?}", j.as_json_str());
        }
        want!(j.len() == e.len() && j.is_empty() == e.is_empty(), "{n}: len() {} for {}", j.len(), e.len());
        want!(j.escape_if_needed().as_str() == e, "{n}: escape_if_needed {:?} as_json {e:?}", j.escape_if_needed());
        want!(j.as_json().to_string() == e, "{n}: as_json().to_string() {:?} as_json {e:?}", j.as_json().to_string());
        want!(Value::String(JsonString::from(s)).to_json() == format!("\"{e}\""), "{n}: to_json {}", Value::String(JsonString::from(s)).to_json());
        want!(j.decoded_len() == s.len() && j.as_str() == Some(s) && j.decoded().eq(s.chars()) && j.decode_if_needed().as_str() == s && j == *s,
            "{n}: the string made from {s:?} does not hold it");
        let mut it = j.as_json();
        let mut left = e.chars().count();
        loop {
            let (lo, hi) = it.size_hint();
            want!(lo <= left && hi.map_or(true, |h| h >= left), "{n}: size_hint ({lo}, {hi:?}) with {left} left");
            if left < 3 || e.len() < 24 {
                let rest: String = e.chars().skip(e.chars().count() - left).collect();
                iterates(&format!("{n}: as_json()"), &it, &rest)?;
            }
            match it.next() {
                Some(_) => left -= 1,
                None => break,
            }
        }
        want!(left == 0 && it.next().is_none(), "{n}: as_json() does not end");
    }
    want!(Value::from(s) == Value::String(JsonString::from(s)) && Value::from(s.to_string()) == Value::from(s), "Value::from differs");
    Ok(())
}

#[derive(Default)]
struct Bytes(Vec<u8>);
impl Hasher for Bytes {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn hashed(j: &impl Hash) -> Vec<u8> {
    let mut h = Bytes::default();
    j.hash(&mut h);
    h.0
}
/// ways to hold the content `lit` denotes
fn reps<'a>(lit: &'a [u8], quoted: &'a str, dec: &'a str) -> Vec<(&'static str, JsonString<'a>)> {
    let mut v = vec![];
    if let Ok(j) = JsonString::from_json(quoted) {
        v.push(("parsed", j));
    }
    if let Ok(Value::String(j)) = Value::from_json_bytes(quoted.as_bytes()) {
        v.push(("parsed from bytes", j));
    }
    v.push(("from(&str)", JsonString::from(dec)));
    v.push(("from(String)", JsonString::from(dec.to_string())));
    let copy = v[(lit.len() + dec.len()) % v.len()].1.clone();
    v.push(("a clone", copy));
    v
}
/// case: two string bodies separated by a newline
pub fn c06(b: &[u8]) -> R {
    let mut it = b.splitn(2, |c| *c == b'\n');
    let (x, y) = (it.next().unwrap_or(b""), it.next().unwrap_or(b""));
    let q = |s: &[u8]| -> Option<(String, S)> {
        let mut v = vec![b'"'];
        v.extend_from_slice(s);
        v.push(b'"');
        let (o, e) = string(&v, 1)?;
        (e == v.len()).then(|| (String::from_utf8(v).unwrap(), o))
    };
    let ((qx, sx), (qy, sy)) = match (q(x), q(y)) {
        (Some(a), Some(b)) => (a, b),
        _ => return Ok(()),
    };
    let (rx, ry) = (reps(x, &qx, &sx.dec), reps(y, &qy, &sy.dec));
    let (dx, dy) = (sx.dec.as_str(), sy.dec.as_str());
    let eq = dx == dy;
    let ord = dx.cmp(dy);
    for (nx, jx) in &rx {
        for (ny, jy) in &ry {
            let w = format!("{nx} {qx} and {ny} {qy}");
            want!((jx == jy) == eq && (jy == jx) == eq && (jx != jy) == !eq, "{w}: == is {} / {}", jx == jy, jy == jx);
            want!(jx.cmp(jy) == ord && jy.cmp(jx) == ord.reverse(), "{w}: cmp {:?} / {:?}", jx.cmp(jy), jy.cmp(jx));
            want!(jx.partial_cmp(jy) == Some(ord), "{w}: partial_cmp {:?}", jx.partial_cmp(jy));
            want!((jx < jy) == (ord == Ordering::Less) && (jx >= jy) == (ord != Ordering::Less), "{w}: < or >= disagrees");
            want!((jx > jy) == (ord == Ordering::Greater) && (jx <= jy) == (ord != Ordering::Greater), "{w}: > or <= disagrees");
            want!(jx.max(jy).decoded().eq(dx.max(dy).chars()) && jx.min(jy).decoded().eq(dx.min(dy).chars()), "{w}: max or min disagrees");
            want!(jx.clone().max(jy.clone()).decoded().eq(dx.max(dy).chars()) && jx.clone().min(jy.clone()).decoded().eq(dx.min(dy).chars()), "{w}: max or min disagrees");
            if eq {
                want!(hashed(jx) == hashed(jy), "{w}: equal but hashed as {:?} and {:?}", hashed(jx), hashed(jy));
            }
            want!((Token::String(jx.clone()) == Token::String(jy.clone())) == eq, "{w}: tokens");
            want!((Value::String(jx.clone()) == Value::String(jy.clone())) == eq, "{w}: values");
            want!((Node::String(jx.clone()) == Node::String(jy.clone())) == eq, "{w}: nodes");
            // plain strings, as the library holds them
            let (ax, ay) = (jx.decode_if_needed(), jy.decode_if_needed());
            want!((ax == ay) == eq && ax.partial_cmp(&ay) == Some(ord) && (hashed(&ax) == hashed(&ay)) == eq, "{w}: AnyStr");
            want!((ax == dy) == eq && (ax == *dy) == eq && ax.partial_cmp(dy) == Some(ord) && ax.partial_cmp(&dy) == Some(ord), "{w}: AnyStr with text");
        }
        want!((*jx == dy) == eq && (*jx == *dy) == eq, "{nx} {qx} and the text {dy:?}: == is {}", *jx == dy);
        want!((*jx != dy) != eq && (*jx != *dy) != eq, "{nx} {qx} and the text {dy:?}: != is {}", *jx != dy);
        want!((*jx < dy) == ord.is_lt() && (*jx < *dy) == ord.is_lt() && (*jx <= dy) == ord.is_le() && (*jx <= *dy) == ord.is_le()
            && (*jx > dy) == ord.is_gt() && (*jx > *dy) == ord.is_gt() && (*jx >= dy) == ord.is_ge() && (*jx >= *dy) == ord.is_ge(),
            "{nx} {qx} and the text {dy:?}: <, <=, > or >= disagrees");
        want!(jx.partial_cmp(dy) == Some(ord) && jx.partial_cmp(&dy) == Some(ord), "{nx} {qx} and the text {dy:?}: {:?}", jx.partial_cmp(dy));
        want!(hashed(jx) == hashed(&dx), "{nx} {qx} hashes unlike its text");
    }
    Ok(())
}

/// the same value with every string held raw
fn rawify(t: &T) -> Value<'static> {
    match t {
        T::Null => Value::Null,
        T::Bool(b) => Value::from(*b),
        T::Num(n) => {
            let s: &'static str = Box::leak(String::from_utf8(n.clone()).unwrap().into_boxed_str());
            Value::Number(JsonNumber::from_json(s).unwrap())
        }
        T::Str(s) => Value::from(s.dec.clone()),
        T::Arr(a) => Value::from(a.iter().map(rawify).collect::<Vec<_>>()),
        T::Obj(m) => Value::Object(m.iter().map(|(k, v)| (JsonString::from(k.dec.clone()), rawify(v))).collect::<Object<'_>>()),
    }
}
fn has_number(t: &T) -> bool {
    match t {
        T::Num(_) => true,
        T::Arr(a) => a.iter().any(has_number),
        T::Obj(m) => m.iter().any(|(_, v)| has_number(v)),
        _ => false,
    }
}
fn strip_ws(s: &str) -> String {
    let mut out = String::new();
    let (mut q, mut e) = (false, false);
    for c in s.chars() {
        if q {
            out.push(c);
            if e {
                e = false;
            } else if c == '\\' {
                e = true;
            } else if c == '"' {
                q = false;
            }
        } else if !matches!(c, ' ' | '\t' | '\n' | '\r') {
            out.push(c);
            q = c == '"';
        }
    }
    out
}
/// what a value denotes, ignoring how its strings are held
fn denotes(v: &Value<'_>, t: &T) -> bool {
    match (v, t) {
        (Value::Null, T::Null) => true,
        (Value::Boolean(a), T::Bool(b)) => a == b,
        (Value::Number(a), T::Num(b)) => a.source().as_bytes() == b.as_slice(),
        (Value::String(a), T::Str(b)) => a.decoded().eq(b.dec.chars()),
        (Value::Array(a), T::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| denotes(a, b)),
        (Value::Object(a), T::Obj(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, (k, b))| a.key.decoded().eq(k.dec.chars()) && denotes(&a.value, b))
        }
        _ => false,
    }
}
fn compact(v: &Value<'_>, out: &mut String) {
    match v {
        Value::Null => out.push_str("null"),
        Value::Boolean(b) => out.push_str(if *b { "true" } else { "false" }),
        Value::Number(n) => out.push_str(n.source()),
        Value::String(s) => {
            out.push('"');
            out.extend(s.as_json());
            out.push('"');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                compact(x, out);
            }
            out.push(']');
        }
        Value::Object(o) => {
            out.push('{');
            for (i, e) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push('"');
                out.extend(e.key.as_json());
                out.push_str("\":");
                compact(&e.value, out);
            }
            out.push('}');
        }
    }
}
fn writes(n: &str, v: &Value<'_>, t: &T) -> R {
    let nolimit = justjson::parser::ParseConfig::new().without_recursion_limit();
    let c = v.to_json();
    let mut w = String::new();
    want!(v.write_json_to(&mut w).is_ok() && w == c, "{n}: write_json_to gives {w:?}, to_json {c:?}");
    want!(v.to_string() == c && format!("{v}") == c, "{n}: Display gives {:?}, to_json {c:?}", v.to_string());
    want!(strip_ws(&c) == c, "{n}: compact output {c:?} holds whitespace");
    let mut expect = String::new();
    compact(v, &mut expect);
    want!(c == expect, "{n}: to_json gives {c:?} for {expect:?}");
    let p = v.to_json_pretty();
    let mut w = String::new();
    want!(v.pretty_write_json_to(&mut w).is_ok() && w == p, "{n}: pretty_write_json_to gives {w:?}, to_json_pretty {p:?}");
    want!(format!("{v:#}") == p, "{n}: alternate Display gives {:?}, to_json_pretty {p:?}", format!("{v:#}"));
    for (flags, got, want) in [
        (".1", format!("{v:.1}"), &c),
        (">12", format!("{v:>12}"), &c),
        ("+", format!("{v:+}"), &c),
        ("012", format!("{v:012}"), &c),
        ("#.2", format!("{v:#.2}"), &p),
        ("#40", format!("{v:#40}"), &p),
    ] {
        want!(got == *want, "{n}: formatting with {flags:?} gives {got:?}, without {want:?}");
    }
    want!(v.to_json_pretty_custom("  ", "\n") == p, "{n}: to_json_pretty_custom differs from to_json_pretty");
    let mut outs = vec![c.clone(), p];
    for (i, l) in [("", ""), ("\t", "\r\n"), (" ", ""), ("", "\n"), (" \t", " \r\n")] {
        let p = v.to_json_pretty_custom(i, l);
        let mut w = String::new();
        want!(v.pretty_write_json_to_custom(i, l, &mut w).is_ok() && w == p, "{n}: pretty_write_json_to_custom gives {w:?}, to_json_pretty_custom {p:?}");
        outs.push(p);
    }
    for p in &outs {
        want!(strip_ws(p) == c, "{n}: output {p:?} differs from {c:?} by more than whitespace");
        let o = parse(p.as_bytes(), Cfg { limit: None, ..Cfg::DEFAULT });
        want!(o.is_ok(), "{n}: output {p:?} is not JSON");
        let r = Value::from_json_with_config(p, nolimit);
        match r {
            Ok(r) => want!(r == *v && denotes(&r, t), "{n}: output {p:?} parses to {r:?}, not {v:?}"),
            Err(e) => bail!("{n}: output {p:?} does not parse: {e:?}"),
        }
    }
    Ok(())
}
pub fn c07(b: &[u8]) -> R {
    let (t, deep) = parse_deep(b);
    let t = match t {
        Ok(t) => t,
        Err(_) => return Ok(()),
    };
    let v = value_of(b, deep)?;
    writes("parsed value", &v, &t)?;
    if !has_number(&t) {
        writes("built value", &rawify(&t), &t)?;
    }
    Ok(())
}

fn subtrees<'t>(t: &'t T, at: usize, out: &mut Vec<(usize, usize, T)>) -> usize {
    let n = match t {
        T::Arr(a) => a.iter().fold(1, |n, x| n + subtrees(x, at + n, out)),
        T::Obj(m) => m.iter().fold(1, |n, (k, x)| {
            out.push((at + n, 1, T::Str(k.clone())));
            n + 1 + subtrees(x, at + n + 1, out)
        }),
        _ => 1,
    };
    out.push((at, n, t.clone()));
    n
}
pub fn c08(b: &[u8]) -> R {
    let o = parse(b, Cfg::DEFAULT);
    for (n, r) in verdicts(b, None) {
        if n.starts_with("Document") {
            want!(r.is_ok() == o.is_ok(), "{n} gives {r:?}, the grammar says {}", if o.is_ok() { "valid" } else { "invalid" });
        }
    }
    let (o, deep) = parse_deep(b);
    let t = match o {
        Ok(t) => t,
        Err(_) => return Ok(()),
    };
    let s = text(b).unwrap();
    let mut flat = vec![];
    flatten(&t, &mut flat);
    let v = if deep { Value::from_json_with_config(s, NO_LIMIT.lib()) } else { Value::from_json(s) }.map_err(|e| format!("{e:?}"))?;
    let mut subs = vec![];
    subtrees(&t, 0, &mut subs);
    if subs.len() > 3000 {
        // a long document: its ends and its containers
        let (last, mut seen) = (subs.len() - 20, 0);
        let mut i = 0;
        subs.retain(|(_, size, _)| {
            i += 1;
            seen += (*size > 1) as usize;
            i <= 20 || i > last || *size > 1 && seen <= 20
        });
    }
    let ds = if deep {
        [("text", Document::from_json_with_config(s, NO_LIMIT.lib())), ("bytes", Document::from_json_bytes_with_config(b, NO_LIMIT.lib()))]
    } else {
        [("text", Document::from_json(s)), ("bytes", Document::from_json_bytes(b))]
    };
    for (n, d) in ds {
        let d = d.map_err(|e| format!("{e:?}"))?;
        want!(nodes_are(d.iter(), &flat), "{n}: entries {:?} for {t:?}", d.iter().collect::<Vec<_>>());
        want!(nodes_are((&d).into_iter(), &flat), "{n}: into_iter differs");
        if flat.len() <= 400 {
            agrees(&format!("{n}: entries"), || d.iter())?;
        }
        for (at, size, sub) in &subs {
            let mut it = d.iter();
            for _ in 0..*at {
                it.next();
            }
            let mut skip = it.clone();
            let w = it.next_value();
            want!(w.as_ref().map_or(false, |w| tree_is(w, sub)), "{n}: next_value at {at} gives {w:?} for {sub:?}");
            want!(nodes_are(it.clone(), &flat[at + size..]), "{n}: next_value at {at} leaves {:?}", it.collect::<Vec<_>>());
            skip.skip_next_value();
            want!(nodes_are(skip.clone(), &flat[at + size..]), "{n}: skip_next_value at {at} leaves {:?}", skip.collect::<Vec<_>>());
        }
        let mut it = d.iter();
        it.skip_next_value();
        want!(it.next_value().is_none() && it.next().is_none(), "{n}: something after the end");
        it.skip_next_value();
        want!(it.next().is_none(), "{n}: something after the end");
        let w = Value::from(d);
        want!(w == v && tree_is(&w, &t), "{n}: converted to {w:?}, parsed to {v:?}");
    }
    Ok(())
}

fn limits() -> [Cfg; 3] {
    [Cfg::DEFAULT, Cfg { trailing: true, limit: Some(2), all: true }, Cfg { trailing: false, limit: None, all: false }]
}
pub fn c09(b: &[u8]) -> R {
    for cfg in limits() {
        let mut full = Ref::new(b, cfg);
        let whole = full.run();
        let total = full.ev.len();
        let at: Vec<usize> = if total <= 40 { (0..total).collect() } else { (0..20).chain((20..total - 20).step_by(1 + total / 16)).chain(total - 20..total).collect() };
        for fail_at in at.into_iter().chain([usize::MAX]) {
            let mut o = Ref::new(b, cfg);
            o.fail_at = fail_at;
            let want_r = if fail_at == usize::MAX { whole.clone() } else { o.run() };
            let evs = if fail_at == usize::MAX { &full.ev } else { &o.ev };
            let mut runs = vec![];
            let mut r = Rec::new(fail_at);
            let x = Parser::parse_json_bytes_with_config(b, cfg.lib(), &mut r);
            runs.push(("bytes", r, x));
            if let Some(s) = text(b) {
                let mut r = Rec::new(fail_at);
                let x = Parser::parse_json_with_config(s, cfg.lib(), &mut r);
                runs.push(("text", r, x));
            }
            for (n, r, x) in runs {
                want!(r.ev == *evs, "{n}, {cfg:?}, failing call {fail_at}: calls {:?}, expected {:?}", r.ev, evs);
                match (&want_r, &x) {
                    (Ok(_), Ok(v)) => {
                        let last = evs.iter().rposition(|e| !matches!(e, Ev::Key(..) | Ev::Member(..) | Ev::Elem(..))).unwrap();
                        want!(*v == last, "{n}: returned value {v}, the root is {last}");
                    }
                    (Err(Fail::Handler(k)), Err(e)) => {
                        want!(matches!(e.kind(), ErrorKind::ErrorFromDelegate(j) if j == k), "{n}: handler error {k} returned as {e:?}")
                    }
                    (Err(_), Err(e)) => want!(!matches!(e.kind(), ErrorKind::ErrorFromDelegate(_)), "{n}: {e:?} though the handler did not fail"),
                    _ => bail!("{n}, {cfg:?}, failing call {fail_at}: {x:?}, expected {want_r:?}"),
                }
            }
        }
    }
    Ok(())
}

/// each setting of a configuration changes that setting and no other, in whatever order they are made
fn builders() -> R {
    use justjson::parser::ParseConfig as P;
    type M = (bool, Option<usize>, bool);
    let mut sizes: Vec<usize> = (0..usize::BITS).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
    sizes.extend([100, 1000, 10_000, usize::MAX]);
    let small = [Some(0), Some(1), Some(7), Some(128), Some(usize::MAX)];
    let ops: Vec<u8> = (0..9).collect();
    let step = |c: P, m: M, op: u8| -> (P, M) {
        match op {
            0 => (c.allowing_trailing_commas(), (true, m.1, m.2)),
            1 => (c.without_recursion_limit(), (m.0, None, m.2)),
            2 => (c.allowing_all_types_at_root(true), (m.0, m.1, true)),
            3 => (c.allowing_all_types_at_root(false), (m.0, m.1, false)),
            n => {
                let l = small[n as usize - 4];
                (c.with_recursion_limit(l.unwrap()), (m.0, l, m.2))
            }
        }
    };
    let same = |c: P, m: M, what: &dyn Fn() -> String| -> R {
        want!((c.allow_trailing_commas, c.recursion_limit, c.allow_all_types_at_root) == m, "{}: {c:?}, expected {m:?}", what());
        Ok(())
    };
    for (n, c, m) in [("new", P::new(), (false, Some(128), true)), ("strict", P::strict(), (false, Some(128), false)), ("default", P::default(), (false, Some(128), true))] {
        same(c, m, &|| n.into())?;
        for a in &ops {
            let (c1, m1) = step(c, m, *a);
            same(c1, m1, &|| format!("{n} then {a}"))?;
            for b in &ops {
                let (c2, m2) = step(c1, m1, *b);
                same(c2, m2, &|| format!("{n} then {a}, {b}"))?;
                for d in &ops {
                    let (c3, m3) = step(c2, m2, *d);
                    same(c3, m3, &|| format!("{n} then {a}, {b}, {d}"))?;
                }
            }
        }
        for l in &sizes {
            same(c.with_recursion_limit(*l), (m.0, Some(*l), m.2), &|| format!("{n} with limit {l}"))?;
        }
    }
    Ok(())
}
pub fn c10(b: &[u8]) -> R {
    if b.len() < 2 {
        builders()?;
    }
    let (mut level, mut deepest) = (0usize, 0usize);
    for c in b {
        match c {
            b'[' | b'{' => {
                level += 1;
                deepest = deepest.max(level);
            }
            b']' | b'}' => level = level.saturating_sub(1),
            _ => {}
        }
    }
    let ls: Vec<Option<usize>> = if b.len() > 200 { vec![None, Some(127), Some(128), Some(129), Some(deepest.saturating_sub(1)), Some(deepest), Some(usize::MAX)] } else { vec![None, Some(0), Some(1), Some(2), Some(3), Some(5), Some(128)] };
    for limit in ls {
        for (trailing, all) in [(false, true), (true, true), (true, false)] {
            if b.len() > 200 && trailing {
                continue;
            }
            let cfg = Cfg { limit, trailing, all };
            let o = parse(b, cfg);
            for (n, r) in verdicts(b, Some(cfg)) {
                let depth = matches!(&r, Err((k, _)) if k == "RecursionLimitReached");
                want!(depth == (o == Err(Fail::Depth)), "{cfg:?}: {n} gives {r:?}, expected {}", brief(&o));
                want!(r.is_ok() == o.is_ok(), "{cfg:?}: {n} gives {r:?}, expected {}", brief(&o));
            }
        }
    }
    let o = parse(b, Cfg::DEFAULT);
    for (n, r) in verdicts(b, None) {
        let depth = matches!(&r, Err((k, _)) if k == "RecursionLimitReached");
        want!(depth == (o == Err(Fail::Depth)), "default limit: {n} gives {r:?}, expected {}", brief(&o));
    }
    Ok(())
}
fn brief(o: &Outcome) -> String {
    match o {
        Ok(_) => "success".into(),
        Err(e) => format!("{e:?}"),
    }
}

/// everything a caller can do with an input; a panic is the failure
pub fn c11(b: &[u8]) -> R {
    // whatever can be reported can be printed
    let print = |e: &Error| -> usize { e.to_string().len() + format!("{} {:?} {e:?}", e.kind(), e.kind()).len() };
    for e in [Parser::validate_json_bytes(b).err(), Value::from_json_bytes(b).err(), Document::from_json_bytes(b).err(), text(b).and_then(|s| Value::from_json(s).err()), text(b).and_then(|s| JsonString::from_json(s).err()), text(b).and_then(|s| JsonNumber::from_json(s).err())].into_iter().flatten() {
        want!(print(&e) > 0, "nothing is printed for {e:?}");
    }
    for cfg in [None, Some(Cfg { trailing: true, limit: Some(3), all: false }), Some(Cfg { trailing: false, limit: None, all: true })] {
        for (n, r) in verdicts(b, cfg) {
            if let Err((k, o)) = r {
                want!(o <= b.len(), "{n}: error {k} at {o} of {}", b.len());
            }
        }
    }
    fn tokens<'a>(mut t: impl FnMut() -> (Option<Result<Token<'a>, Error>>, usize), len: usize) -> R {
        for _ in 0..2 * len + 4 {
            let (x, off) = t();
            want!(off <= len, "tokenizer position {off} of {len}");
            match x {
                None => return Ok(()),
                Some(Err(e)) => {
                    let _ = (e.to_string(), e.kind().to_string());
                    want!(e.offset() <= len, "token error {e:?} of {len}")
                }
                Some(Ok(Token::String(s))) => {
                    let _ = (s.decoded().count(), s.as_json().count(), s.len(), s.decoded_len(), s.to_string(), s.as_json().to_string(), hashed(&s));
                    let _ = (s.decode_if_needed(), s.escape_if_needed(), s == *"x", s.partial_cmp("x"), format!("{s:?}"), s.is_empty());
                }
                Some(Ok(_)) => {}
            }
        }
        Err("the tokenizer does not end".into())
    }
    let mut t = Tokenizer::for_json_bytes(b);
    let mut k = 0;
    tokens(|| { k += 1; if k % 3 == 0 { t.peek(); } (t.next(), t.offset()) }, b.len())?;
    let mut t = Tokenizer::for_json_bytes(b);
    tokens(|| (t.next_or_eof().map_or_else(|e| if *e.kind() == ErrorKind::UnexpectedEof && e.offset() == b.len() { None } else { Some(Err(e)) }, |x| Some(Ok(x))), t.offset()), b.len())?;
    if let Some(s) = text(b) {
        let mut t = Tokenizer::for_json(s);
        let mut k = 0;
        tokens(|| { k += 1; if k % 3 == 0 { t.peek(); } (t.next(), t.offset()) }, b.len())?;
        for r in [JsonString::from_json(s).map(|_| ()), JsonNumber::from_json(s).map(|_| ())] {
            if let Err(e) = r {
                want!(e.offset() <= b.len(), "error {e:?} of {}", b.len());
            }
        }
        for j in [JsonString::from(s), JsonString::from(s.to_string())] {
            let _ = (j.decoded().count(), j.as_json().count(), j.len(), j.decoded_len(), j.to_string(), j.escape_if_needed(), j.decode_if_needed(), hashed(&j));
            let _ = (j == *s, j.partial_cmp(s), j.cmp(&JsonString::from("a\n")), j == JsonString::from("a"), j.as_json().size_hint(), j.decoded().size_hint());
        }
    }
    if let Ok(v) = Value::from_json_bytes(b).or_else(|_| value_of(b, parse_deep(b).1)) {
        let _ = (v.to_json(), v.to_json_pretty(), v.to_json_pretty_custom("x", "y"), format!("{v:?}"), if b.len() < 200 { format!("{v:#?}") } else { String::new() }, v.get("a").is_some(), v.get_index(usize::MAX).is_some());
        let mut ss = vec![];
        strings_of(&v, &mut ss);
        for (x, y) in ss.iter().zip(ss.iter().skip(1)) {
            let _ = (x == y, x.cmp(y), hashed(x));
        }
        each_number(&v, &mut |n| {
            let _ = (n.as_f64(), n.as_f32(), n.as_u8(), n.as_i128(), n.as_u64(), n.as_isize());
        });
    }
    if let Ok(d) = Document::from_json_bytes(b) {
        let mut it = d.iter();
        it.next();
        it.skip_next_value();
        // from any position, not only value boundaries (the last entries are complete values)
        let n = d.iter().count();
        for k in 0..n.min(24) {
            let mut it = d.iter();
            for _ in 0..k {
                it.next();
            }
            it.skip_next_value();
        }
    }
    let _ = HeaplessDocument::<'_, 3>::from_json_bytes(b).map(Value::from).map(|v| v.to_json());
    Ok(())
}
fn each_number(v: &Value<'_>, f: &mut impl FnMut(&JsonNumber<'_>)) {
    match v {
        Value::Number(n) => f(n),
        Value::Array(a) => a.iter().for_each(|x| each_number(x, f)),
        Value::Object(o) => o.iter().for_each(|e| each_number(&e.value, f)),
        _ => {}
    }
}

/// case: text that starts with a number (or not)
pub fn c12(b: &[u8]) -> R {
    let starts = matches!(b.first(), Some(b'-' | b'0'..=b'9'));
    if starts {
        let end = oracle::number(b, 0);
        macro_rules! one { ($n:literal, $t:expr) => {{
            let mut t = $t;
            match (t.next(), end) {
                (Some(Ok(Token::Number(x))), Some(e)) => want!(x.source().as_bytes() == &b[..e] && t.offset() == e, "{}: token {x:?} up to {}, the number ends at {e}", $n, t.offset()),
                (Some(Err(_)), None) => {}
                (r, _) => bail!("{}: {r:?}, the number ends at {end:?}", $n),
            }
        }} }
        one!("bytes", Tokenizer::for_json_bytes(b));
        if let Some(s) = text(b) {
            one!("text", Tokenizer::for_json(s));
        }
    }
    let t = match parse(b, Cfg::DEFAULT) {
        Ok(t) => t,
        Err(_) => return Ok(()),
    };
    let s = text(b).unwrap();
    let v = Value::from_json(s).map_err(|e| format!("{e:?}"))?;
    macro_rules! conv { ($v:expr, $src:expr, $($m:ident $t:ty),*) => { $(
        let w: Option<$t> = $src.and_then(|s: &str| s.parse::<$t>().ok());
        want!($v.$m() == w, "{}() gives {:?}, the standard parse {w:?}", stringify!($m), $v.$m());
    )* } }
    macro_rules! all { ($v:expr, $src:expr) => {
        conv!($v, $src, as_u8 u8, as_u16 u16, as_u32 u32, as_u64 u64, as_u128 u128, as_usize usize, as_i8 i8, as_i16 i16, as_i32 i32, as_i64 i64, as_i128 i128, as_isize isize);
        let w: Option<f64> = $src.and_then(|s: &str| s.parse().ok());
        want!($v.as_f64().map(f64::to_bits) == w.map(f64::to_bits), "as_f64() gives {:?}, the standard parse {w:?}", $v.as_f64());
        let w: Option<f32> = $src.and_then(|s: &str| s.parse().ok());
        want!($v.as_f32().map(f32::to_bits) == w.map(f32::to_bits), "as_f32() gives {:?}, the standard parse {w:?}", $v.as_f32());
    } }
    if let T::Num(n) = &t {
        let src = std::str::from_utf8(n).unwrap();
        let j = JsonNumber::from_json(s).map_err(|e| format!("{e:?}"))?;
        want!(j.source() == src && v.as_number().map(JsonNumber::source) == Some(src), "source is {:?} for {src:?}", j.source());
        all!(j, Some(src));
        all!(j.clone(), Some(src));
        want!(j.clone() == j && j.clone().source() == src, "a clone of {src:?} differs");
        all!(v, Some(src));
        want!(j.parse::<u64>() == src.parse::<u64>() && j.parse::<String>() == src.parse::<String>(), "parse() differs");
    } else {
        all!(v, None::<&str>);
        want!(v.as_number().is_none(), "as_number of {v:?}");
    }
    Ok(())
}

fn tok_is(t: &Token<'_>, o: &Tok) -> bool {
    match (t, o) {
        (Token::Null, Tok::Null) | (Token::Object, Tok::Obj) | (Token::ObjectEnd, Tok::ObjEnd) | (Token::Array, Tok::Arr) | (Token::ArrayEnd, Tok::ArrEnd) | (Token::Colon, Tok::Colon) | (Token::Comma, Tok::Comma) => true,
        (Token::Bool(a), Tok::Bool(b)) => a == b,
        (Token::Number(a), Tok::Num(b)) => a.source().as_bytes() == b.as_slice(),
        (Token::String(a), Tok::Str(b)) => str_is(a, b) && a.decoded().eq(b.dec.chars()) && a.decoded_len() == b.dec.len() && a.as_str().is_none() == b.esc,
        _ => false,
    }
}
fn peeks(b: &[u8], at: usize) -> Option<PeekableTokenKind> {
    use PeekableTokenKind as P;
    let p = skip_ws(b, at);
    Some(match *b.get(p)? {
        b'{' => P::Object,
        b'}' => P::ObjectEnd,
        b'[' => P::Array,
        b']' => P::ArrayEnd,
        b':' => P::Colon,
        b',' => P::Comma,
        b'"' => P::String,
        b'-' | b'0'..=b'9' => P::Number,
        b't' => P::True,
        b'f' => P::False,
        b'n' => P::Null,
        _ => P::Unrecognized,
    })
}
fn toks<'a, const G: bool>(n: &str, b: &'a [u8], mk: impl Fn() -> Tokenizer<'a, G>) -> R {
    // mode bits: peek before the call (once / twice), and which of the two reading functions
    for mode in 0..6 {
        let mut t = mk();
        let mut i = 0;
        let mut last = t.offset();
        want!(last == 0, "{n}: starts at {last}");
        for step in 0..b.len() + 2 {
            for _ in 0..mode % 3 {
                let k = t.peek();
                want!(k == peeks(b, i), "{n}: peek at {i} gives {k:?}, expected {:?}", peeks(b, i));
                want!(t.offset() >= last && t.offset() <= skip_ws(b, i), "{n}: peek moves the position from {last} to {}", t.offset());
                last = t.offset();
            }
            let at = skip_ws(b, i);
            let r = if mode < 3 || step % 2 == 1 {
                t.next()
            } else {
                match t.next_or_eof() {
                    Ok(t) => Some(Ok(t)),
                    Err(e) if at >= b.len() => {
                        want!(*e.kind() == ErrorKind::UnexpectedEof, "{n}: {e:?} at the end");
                        None
                    }
                    Err(e) => Some(Err(e)),
                }
            };
            want!(t.offset() >= last && t.offset() <= b.len(), "{n}: position moves from {last} to {} of {}", t.offset(), b.len());
            last = t.offset();
            if at >= b.len() {
                want!(r.is_none(), "{n}: {r:?} at the end of the input");
                want!(t.next().is_none() && t.peek().is_none() && t.next_or_eof().is_err(), "{n}: something after the end");
                break;
            }
            match (r, token(b, at)) {
                (Some(Ok(x)), Some((y, e))) => {
                    want!(tok_is(&x, &y), "{n}: token {x:?} at {at}, expected {y:?}");
                    want!(t.offset() == e, "{n}: token {x:?} at {at} leaves the position at {}, not {e}", t.offset());
                    i = e;
                }
                (Some(Err(x)), None) => {
                    let y = token_error(b, at, G);
                    want!(er(&x) == y, "{n}: {x:?} at {at}, expected {y:?}");
                    break;
                }
                (x, y) => bail!("{n}: {x:?} at {at}, expected {y:?}"),
            }
        }
    }
    Ok(())
}
pub fn c13(b: &[u8]) -> R {
    toks("bytes", b, || Tokenizer::for_json_bytes(b))?;
    if b.len() <= 400 {
        agrees("tokens from bytes", || Tokenizer::for_json_bytes(b))?;
    }
    if let Some(s) = text(b) {
        toks("text", b, || Tokenizer::for_json(s))?;
        if b.len() <= 400 {
            agrees("tokens from text", || Tokenizer::for_json(s))?;
        }
    }
    Ok(())
}

fn look(v: &mut Value<'_>, t: &T, probes: &[String]) -> R {
    let m: &[(S, T)] = if let T::Obj(m) = t { m } else { &[] };
    let a: &[T] = if let T::Arr(a) = t { a } else { &[] };
    want!(v.as_object().is_some() == matches!(t, T::Obj(_)), "as_object");
    want!(v.as_array().is_some() == matches!(t, T::Arr(_)), "as_array");
    want!(v.as_string().is_some() == matches!(t, T::Str(_)), "as_string");
    want!(v.as_number().is_some() == matches!(t, T::Num(_)), "as_number");
    want!(v.as_bool() == if let T::Bool(b) = t { Some(*b) } else { None }, "as_bool {:?}", v.as_bool());
    want!(v.is_null() == matches!(t, T::Null), "is_null {}", v.is_null());
    want!(v.as_str() == match t { T::Str(s) if !s.esc => Some(s.dec.as_str()), _ => None } || !matches!(v, Value::String(_)) && v.as_str().is_none(), "as_str {:?}", v.as_str());
    want!(v.as_object_mut().is_some() == matches!(t, T::Obj(_)) && v.as_array_mut().is_some() == matches!(t, T::Arr(_)), "mutable accessors");
    if let (Some(x), T::Arr(y)) = (v.as_array(), t) {
        want!(x.len() == y.len() && x.iter().zip(y).all(|(x, y)| denotes(x, y)), "as_array contents");
    }
    if let (Some(x), T::Str(y)) = (v.as_string(), t) {
        want!(*x == *y.dec.as_str(), "as_string contents");
    }
    if let (Some(x), T::Num(y)) = (v.as_number(), t) {
        want!(x.source().as_bytes() == y.as_slice(), "as_number contents");
    }
    for k in probes {
        let want_i = m.iter().position(|(x, _)| x.dec == *k);
        let same = |n: &str, r: Option<&Value<'_>>, v: &Value<'_>| -> R {
            let i = r.and_then(|r| v.as_object().and_then(|o| o.iter().position(|e| std::ptr::eq(&e.value, r))));
            want!(r.is_some() == want_i.is_some() && i == want_i, "{n}({k:?}) finds member {i:?}, the first match is {want_i:?}");
            Ok(())
        };
        same("Value::get", v.get(k), v)?;
        if let Some(o) = v.as_object() {
            same("Object::get", o.get(k), v)?;
        }
        if want_i.is_some() {
            same("index", Some(&v[k.as_str()]), v)?;
        } else {
            let v2 = std::panic::AssertUnwindSafe(&*v);
            want!(std::panic::catch_unwind(|| { let _ = &v2[k.as_str()]; }).is_err(), "indexing with {k:?} finds something");
        }
        // modification through each route touches that member only
        for route in 0..4 {
            let before: Vec<String> = v.as_object().map_or(vec![], |o| o.iter().map(|e| format!("{e:?}")).collect());
            let marker = Value::from("\u{1}marker");
            let p: Option<&mut Value<'_>> = match route {
                0 => v.get_mut(k),
                1 => v.as_object_mut().and_then(|o| o.get_mut(k)),
                2 => v.as_object_mut().and_then(|o| o.get_entry_mut(k)).map(|e| &mut e.value),
                _ if want_i.is_some() => Some(&mut v[k.as_str()]),
                _ => None,
            };
            want!(p.is_some() == want_i.is_some(), "route {route} with {k:?} finds {:?}, first match {want_i:?}", p.is_some());
            if let Some(p) = p {
                let old = std::mem::replace(p, marker);
                let o = v.as_object_mut().unwrap();
                want!(o.len() == before.len(), "route {route}: number of members changed");
                for (i, e) in o.iter().enumerate() {
                    if Some(i) != want_i {
                        want!(format!("{e:?}") == before[i], "route {route} with {k:?} changed member {i}");
                    } else {
                        want!(e.value == Value::from("\u{1}marker"), "route {route} with {k:?} did not change member {i}");
                    }
                }
                o[want_i.unwrap()].value = old;
                let after: Vec<String> = o.iter().map(|e| format!("{e:?}")).collect();
                want!(after == before, "route {route}: not restored");
            }
        }
    }
    let far = [7, 8, 15, 16, 31, 32, 63].into_iter().flat_map(|b| (0..2).map(move |i| (1_usize << b) + i)).chain([usize::MAX]);
    for i in (0..a.len() + 2).chain(far.filter(|i| *i > a.len() + 1 && (!a.is_empty() || *i == usize::MAX))) {
        let r = v.get_index(i);
        want!(r.is_some() == (i < a.len()) && r.map_or(true, |r| std::ptr::eq(r, &v.as_array().unwrap()[i])), "get_index({i})");
        if i < a.len() {
            want!(std::ptr::eq(&v[i], &v.as_array().unwrap()[i]), "index({i})");
        } else {
            let v2 = std::panic::AssertUnwindSafe(&*v);
            want!(std::panic::catch_unwind(|| { let _ = &v2[i]; }).is_err(), "indexing with {i} finds something");
        }
        for route in 0..2 {
            let before: Vec<String> = v.as_array().map_or(vec![], |o| o.iter().map(|e| format!("{e:?}")).collect());
            let p = if route == 0 { v.get_index_mut(i) } else if i < a.len() { Some(&mut v[i]) } else { None };
            want!(p.is_some() == (i < a.len()), "get_index_mut({i})");
            if let Some(p) = p {
                let old = std::mem::replace(p, Value::from("\u{1}marker"));
                let arr = v.as_array_mut().unwrap();
                for (j, e) in arr.iter().enumerate() {
                    want!(if j == i { *e == Value::from("\u{1}marker") } else { format!("{e:?}") == before[j] }, "changing element {i} affects {j}");
                }
                arr[i] = old;
            }
        }
    }
    match (v, t) {
        (Value::Array(x), T::Arr(y)) => x.iter_mut().zip(y).try_for_each(|(x, y)| look(x, y, probes)),
        (Value::Object(x), T::Obj(y)) => x.iter_mut().zip(y).try_for_each(|(x, (_, y))| look(&mut x.value, y, probes)),
        _ => Ok(()),
    }
}
pub fn c14(b: &[u8]) -> R {
    let t = match parse(b, Cfg::DEFAULT) {
        Ok(t) => t,
        Err(_) => return Ok(()),
    };
    let mut os = vec![];
    oracle_strings(&t, &mut os);
    let mut probes: Vec<String> = vec!["".into(), "a".into(), "\n".into(), "zz".into(), "\\n".into()];
    for s in os.iter().take(8).chain(os.iter().skip(8).step_by(os.len() / 12 + 1)).chain(os.iter().skip(8.max(os.len().saturating_sub(4)))) {
        probes.push(s.dec.clone());
        probes.push(format!("{}x", s.dec));
        probes.push(String::from_utf8(s.src.clone()).unwrap());
        let mut p = s.dec.clone();
        if p.pop().is_some() {
            probes.push(p);
        }
    }
    probes.sort();
    probes.dedup();
    let mut v = Value::from_json_bytes(b).map_err(|e| format!("{e:?}"))?;
    look(&mut v, &t, &probes)?;
    if !has_number(&t) {
        let mut r = rawify(&t);
        // as_str of a built string is its text
        fn unesc(t: &T) -> T {
            match t {
                T::Str(s) => T::Str(S { esc: false, ..s.clone() }),
                T::Arr(a) => T::Arr(a.iter().map(unesc).collect()),
                T::Obj(m) => T::Obj(m.iter().map(|(k, v)| (k.clone(), unesc(v))).collect()),
                x => x.clone(),
            }
        }
        look(&mut r, &unesc(&t), &probes)?;
    }
    // building an object keeps every entry
    if let (T::Obj(m), Value::Object(o)) = (&t, v) {
        let mut x = Object::with_capacity(1);
        want!(x.is_empty() && Object::new().is_empty() && Object::default().is_empty(), "a new object is not empty");
        let mut o = o;
        for e in o.drain(..) {
            x.push(Entry::new(e.key, e.value));
        }
        want!(x.len() == m.len() && x.iter().zip(m).all(|(e, (k, v))| e.key == *k.dec.as_str() && tree_is(&e.value, v)), "Entry::new or push changes an entry");
        let pairs: Object<'_> = x.drain(..).map(|e| (e.key, e.value)).collect();
        let again: Object<'_> = { let mut p = pairs; let d: Vec<Entry<'_>> = p.drain(..).collect(); d.into_iter().collect() };
        want!(again.len() == m.len() && again.iter().zip(m).all(|(e, (k, v))| e.key == *k.dec.as_str() && tree_is(&e.value, v)), "collecting an object changes an entry");
    }
    Ok(())
}
pub fn c15(b: &[u8]) -> R {
    for cfg in limits() {
        let mut x = Ref::new(b, cfg);
        let o = x.run();
        for (n, r) in verdicts(b, Some(cfg)) {
            match (&o, r) {
                (Ok(_), Ok(_)) => {}
                (Err(f), Err(e)) => {
                    let x = reported(b, !n.contains("bytes"), f, x.at);
                    want!(e == x, "{n}: {e:?}, but the error is {x:?}");
                }
                (_, r) => bail!("{n} gives {r:?}, expected {}", brief(&o)),
            }
        }
        // every entry point reports the same
        let all = verdicts(b, Some(cfg));
        for (n, r) in &all[1..] {
            want!(*r == all[0].1, "{n} gives {r:?}, {} gives {:?}", all[0].0, all[0].1);
        }
    }
    let all = verdicts(b, None);
    for (n, r) in &all[1..] {
        want!(*r == all[0].1, "{n} gives {r:?}, {} gives {:?}", all[0].0, all[0].1);
    }
    // a handler's own error
    let mut whole = Ref::new(b, Cfg::DEFAULT);
    let _ = whole.run();
    let total = whole.ev.len();
    for fail_at in (0..total.min(6)).chain(total.saturating_sub(3).max(6)..total) {
        let mut x = Ref::new(b, Cfg::DEFAULT);
        x.fail_at = fail_at;
        if let Err(f) = x.run() {
            let y = Err(reported(b, false, &f, x.at));
            let r = Parser::parse_json_bytes(b, &mut Rec::new(fail_at)).map(|_| ()).map_err(|e| er(&e));
            want!(r == y, "handler failing at call {fail_at}: {r:?}, expected {y:?}");
        }
    }
    // lone strings and numbers
    if let Some(s) = text(b) {
        let o = parse(b, Cfg::DEFAULT);
        let lone = |n: &str, r: Option<Er>, right: bool, kind: &str, is: fn(&Ev) -> bool| -> R {
            // the first handler call decides: a value of the wrong kind is refused there
            let mut x = Ref::new(b, Cfg::DEFAULT);
            let _ = x.run();
            match x.ev.first() {
                Some(first) if !is(first) => want!(if o.is_ok() { matches!(&r, Some((k, _)) if k == kind) } else { r.is_some() }, "{n}: {r:?}, expected {kind}"),
                _ => match (&o, &r) {
                    (Ok(_), None) if right => {}
                    (Err(_), Some(e)) => {
                        let v = Value::from_json(s).map(|_| ()).map_err(|e| er(&e));
                        want!(Err(e.clone()) == v, "{n}: {e:?}, as a value {v:?}");
                    }
                    _ => bail!("{n}: {r:?}, expected {}", brief(&o)),
                },
            }
            Ok(())
        };
        lone("JsonString::from_json", JsonString::from_json(s).err().map(|e| er(&e)), matches!(o, Ok(T::Str(_))), "ExpectedString", |e| matches!(e, Ev::Str(_)))?;
        lone("JsonNumber::from_json", JsonNumber::from_json(s).err().map(|e| er(&e)), matches!(o, Ok(T::Num(_))), "ExpectedNumber", |e| matches!(e, Ev::Num(_)))?;
    }
    // bounded documents
    fits::<1>(b)?;
    fits::<3>(b)
}
/// the error a caller is given: its kind, and where it is
fn reported(b: &[u8], text: bool, f: &Fail, at: usize) -> Er {
    let eof = |at: usize| at >= b.len();
    match f {
        Fail::Lexical(p, w) => {
            let (k, o) = if eof(*p) { ("UnexpectedEof".into(), b.len()) } else { token_error(b, *p, text) };
            let k = match (k.as_str(), w) {
                ("UnexpectedEof", Where::Obj) => "UnclosedObject".into(),
                ("UnexpectedEof", Where::Arr) => "UnclosedArray".into(),
                _ => k,
            };
            (k, o)
        }
        Fail::LexicalColon(p) => ("ExpectedColon".into(), if eof(*p) { b.len() } else { token_error(b, *p, text).1 }),
        Fail::Syntax(k) => (
            match k {
                Kind::Unexpected(c) => format!("Unexpected({c})"),
                Kind::ExpectedColon => "ExpectedColon".into(),
                Kind::ExpectedKey => "ExpectedObjectKey".into(),
                Kind::KeysMustBeStrings => "ObjectKeysMustBeStrings".into(),
                Kind::TrailingComma => "IllegalTrailingComma".into(),
                Kind::CommaOrEndObj => "ExpectedCommaOrEndOfObject".into(),
                Kind::CommaOrEndArr => "ExpectedCommaOrEndOfArray".into(),
            },
            at,
        ),
        Fail::Depth => ("RecursionLimitReached".into(), at),
        Fail::Root => ("PayloadsShouldBeObjectOrArray".into(), at),
        Fail::Trailing => ("TrailingNonWhitespace".into(), at),
        Fail::Handler(n) => (format!("ErrorFromDelegate({n})"), at),
        Fail::Full => ("PaylodTooLarge".into(), at),
    }
}

pub fn c16(b: &[u8]) -> R {
    let plain = parse(b, Cfg { trailing: false, limit: None, all: true });
    let limits: &[Option<usize>] = if b.len() < 40 { &[None, Some(2), Some(128), Some(0), Some(1)] } else { &[None, Some(2), Some(128)] };
    for trailing in [false, true] {
        for all in [false, true] {
            for &limit in limits {
                let cfg = Cfg { trailing, limit, all };
                let o = parse(b, cfg);
                for (n, r) in verdicts(b, Some(cfg)) {
                    want!(r.is_ok() == o.is_ok(), "{cfg:?}: {n} gives {r:?}, expected {}", brief(&o));
                }
                if let Ok(t) = &o {
                    if let Ok(p) = &plain {
                        want!(p == t, "internal: reference trees differ");
                    }
                    let v = Value::from_json_bytes_with_config(b, cfg.lib()).map_err(|e| format!("{e:?}"))?;
                    want!(tree_is(&v, t), "{cfg:?}: value {v:?}, expected {t:?}");
                    let d = Document::from_json_bytes_with_config(b, cfg.lib()).map_err(|e| format!("{e:?}"))?;
                    want!(tree_is(&Value::from(d), t), "{cfg:?}: document differs from {t:?}");
                }
            }
        }
    }
    if b.len() < 2 {
        builders()?;
    }
    let o = parse(b, Cfg { all: false, ..Cfg::DEFAULT });
    want!(Parser::validate_json_bytes_with_config(b, justjson::parser::ParseConfig::strict()).is_ok() == o.is_ok(), "strict");
    Ok(())
}

/// a destination that refuses write number `at` (or whatever passes `room` bytes) and notices later writes
struct Sink {
    got: String,
    at: usize,
    room: usize,
    calls: usize,
    failed: bool,
    after: bool,
}
impl Sink {
    fn new(at: usize, room: usize) -> Self {
        Sink { got: String::new(), at, room, calls: 0, failed: false, after: false }
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after = true;
            return Ok(());
        }
        if self.calls == self.at || self.got.len() + s.len() > self.room {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.calls += 1;
        self.got.push_str(s);
        Ok(())
    }
}
pub fn c17(b: &[u8]) -> R {
    let (t, deep) = parse_deep(b);
    let t = match t {
        Ok(t) => t,
        Err(_) => return Ok(()),
    };
    let parsed = value_of(b, deep)?;
    let mut vals = vec![parsed];
    if !has_number(&t) {
        vals.push(rawify(&t));
    }
    for v in &vals {
        type F = fn(&Value<'_>, &mut Sink) -> fmt::Result;
        let fs: [(&str, F); 6] = [
            ("write_json_to", |v, s| v.write_json_to(s)),
            ("pretty_write_json_to", |v, s| v.pretty_write_json_to(s)),
            ("pretty_write_json_to_custom(tab, crlf)", |v, s| v.pretty_write_json_to_custom("\t", "\r\n", s)),
            ("pretty_write_json_to_custom(empty, lf)", |v, s| v.pretty_write_json_to_custom("", "\n", s)),
            ("Display", |v, s| write!(s, "{v}")),
            ("Display alternate", |v, s| write!(s, "{v:#}")),
        ];
        for (n, f) in fs {
            let mut all = Sink::new(usize::MAX, usize::MAX);
            let r = f(v, &mut all);
            want!(r.is_ok(), "{n}: fails although no write failed");
            let calls = all.calls;
            let ks: Vec<usize> = if calls <= 60 { (0..calls).collect() } else { (0..30).chain(calls - 30..calls).collect() };
            for k in ks {
                let mut s = Sink::new(k, usize::MAX);
                let r = f(v, &mut s);
                want!(s.failed && r.is_err(), "{n}: write {k} fails but the result is {r:?}");
                want!(!s.after, "{n}: writes again after the failure of write {k}");
                want!(all.got.starts_with(&s.got), "{n}: {:?} is not a prefix of {:?}", s.got, all.got);
            }
            for room in (0..all.got.len()).take(40) {
                let mut s = Sink::new(usize::MAX, room);
                let r = f(v, &mut s);
                want!(r.is_err() && !s.after && all.got.starts_with(&s.got), "{n}: room for {room} bytes: {r:?}, {:?}", s.got);
            }
        }
        let mut ss = vec![];
        strings_of(v, &mut ss);
        for j in ss {
            type G = fn(&JsonString<'_>, &mut Sink) -> fmt::Result;
            let gs: [(&str, G); 3] = [("JsonString", |j, s| write!(s, "{j}")), ("as_json", |j, s| write!(s, "{}", j.as_json())), ("decoded", |j, s| write!(s, "{}", j.decoded()))];
            for (n, g) in gs {
                let mut all = Sink::new(usize::MAX, usize::MAX);
                want!(g(j, &mut all).is_ok(), "{n}: fails although no write failed");
                for k in 0..all.calls.min(20) {
                    let mut s = Sink::new(k, usize::MAX);
                    let r = g(j, &mut s);
                    want!(r.is_err() && !s.after && all.got.starts_with(&s.got), "{n}: write {k} fails: {r:?}, {:?}", s.got);
                }
            }
        }
    }
    Ok(())
}

fn fits<const N: usize>(b: &[u8]) -> R {
    for cfg in limits() {
        let mut x = Ref::new(b, cfg);
        x.cap = N;
        let o = x.run();
        let full = parse(b, cfg);
        let mut rs = vec![("bytes", HeaplessDocument::<'_, N>::from_json_bytes_with_config(b, cfg.lib()), Document::from_json_bytes_with_config(b, cfg.lib()))];
        if let Some(s) = text(b) {
            rs.push(("text", HeaplessDocument::<'_, N>::from_json_with_config(s, cfg.lib()), Document::from_json_with_config(s, cfg.lib())));
        }
        if cfg.limit == Some(128) {
            rs.push(("bytes default", HeaplessDocument::<'_, N>::from_json_bytes(b), Document::from_json_bytes(b)));
            if let Some(s) = text(b) {
                rs.push(("text default", HeaplessDocument::<'_, N>::from_json(s), Document::from_json(s)));
            }
        }
        for (n, r, u) in rs {
            match (&o, r, u) {
                (Ok(t), Ok(d), Ok(u)) => {
                    let mut flat = vec![];
                    flatten(t, &mut flat);
                    want!(flat.len() <= N && nodes_are(d.iter(), &flat) && d.iter().eq(u.iter()), "room for {N}, {n}: {:?}", d.iter().collect::<Vec<_>>());
                    let v = Value::from(d);
                    want!(tree_is(&v, t), "room for {N}, {n}: converted to {v:?}");
                }
                (Err(Fail::Full), Err(e), _) => want!(er(&e) == ("PaylodTooLarge".into(), x.at), "room for {N}, {n}: {e:?}, expected the too-large error at {}", x.at),
                (Err(_), Err(e), Err(ue)) => {
                    want!(full.is_err() && er(&e) == er(&ue), "room for {N}, {n}: {e:?}, the unbounded document says {ue:?}")
                }
                (o, r, _) => bail!("room for {N}, {n}: {:?}, expected {}", r.map(|d: GenericDocument<'_, _>| d.iter().count()), brief(o)),
            }
        }
    }
    Ok(())
}
pub fn c18(b: &[u8]) -> R {
    if b.len() < 16 {
        fits::<0>(b)?;
    }
    if b.len() > 60 {
        fits::<33>(b)?;
        fits::<64>(b)?;
        fits::<130>(b)?;
        fits::<257>(b)?;
    }
    fits::<1>(b)?;
    fits::<2>(b)?;
    fits::<3>(b)?;
    fits::<4>(b)?;
    fits::<5>(b)?;
    fits::<8>(b)?;
    fits::<16>(b)
}

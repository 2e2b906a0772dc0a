// Specification functions: what JSON is, independent of how the library reads it.
#[allow(unused_imports)] use vstd::prelude::*;
use vstd::utf8::*;
use crate::error::*;
use crate::parser::{JsonKind, PeekableTokenKind};
verus! {

// ------------------------------------------------------------------ bytes
/// what R-BUILD says of a closure that only builds a value
pub open spec fn is_just<T>(a: T, b: T) -> bool { a == b }
pub open spec fn is_ws(c: u8) -> bool { c == 0x20 || c == 0x0a || c == 0x09 || c == 0x0d }
pub open spec fn is_digit(c: u8) -> bool { 0x30 <= c <= 0x39 }
pub open spec fn is_hex(c: u8) -> bool { 0x30 <= c <= 0x39 || 0x41 <= c <= 0x46 || 0x61 <= c <= 0x66 }
pub open spec fn hexval(c: u8) -> int {
    if 0x30 <= c <= 0x39 { c - 0x30 } else if 0x41 <= c <= 0x46 { c - 0x41 + 10 } else if 0x61 <= c <= 0x66 { c - 0x61 + 10 } else { 255 }
}
pub open spec fn skip_ws(b: Seq<u8>, i: int) -> int
    decreases b.len() - i
{
    if 0 <= i < b.len() && is_ws(b[i]) { skip_ws(b, i + 1) } else { i }
}
pub open spec fn digits_end(b: Seq<u8>, i: int) -> int
    decreases b.len() - i
{
    if 0 <= i < b.len() && is_digit(b[i]) { digits_end(b, i + 1) } else { i }
}
pub open spec fn high_end(b: Seq<u8>, i: int) -> int
    decreases b.len() - i
{
    if 0 <= i < b.len() && b[i] >= 128 { high_end(b, i + 1) } else { i }
}

// ------------------------------------------------------------------ Unicode scalars
pub open spec fn scalar(v: int) -> bool { 0 <= v < 0xD800 || 0xE000 <= v <= 0x10FFFF }
pub open spec fn is_high(v: int) -> bool { 0xD800 <= v < 0xDC00 }
pub open spec fn is_low(v: int) -> bool { 0xDC00 <= v < 0xE000 }
pub open spec fn merge(h: int, l: int) -> int { 0x10000 + (h - 0xD800) * 0x400 + (l - 0xDC00) }
pub open spec fn chr(v: int) -> char { (v as u32) as char }

// ------------------------------------------------------------------ string literals
/// what follows a backslash
pub ghost enum Esc { Ok(int, char), Bad(int, ErrorKind) }
pub ghost enum Hex { Ok(int), Bad(int, ErrorKind) }

/// `k` more hexadecimal digits at `i`, `acc` read so far
pub open spec fn hexn(b: Seq<u8>, i: int, k: nat, acc: int) -> Hex
    decreases k
{
    if k == 0 { Hex::Ok(acc) }
    else if i >= b.len() { Hex::Bad(b.len() as int, ErrorKind::UnexpectedEof) }
    else if !is_hex(b[i]) { Hex::Bad(i, ErrorKind::InvalidHexadecimal) }
    else { hexn(b, i + 1, (k - 1) as nat, acc * 16 + hexval(b[i])) }
}

/// The short escapes. `\b` stands for U+0007 in this library (the existing tests say so; RFC 8259 says U+0008):
/// see known-findings.txt.
pub open spec fn short_escape(c: u8) -> Option<char> {
    if c == 0x22 { Some('"') } else if c == 0x5c { Some('\\') } else if c == 0x2f { Some('/') }
    else if c == 0x62 { Some(bell()) } else if c == 0x66 { Some('\x0c') } else if c == 0x72 { Some('\r') }
    else if c == 0x6e { Some('\n') } else if c == 0x74 { Some('\t') } else { None }
}
pub open spec fn bell() -> char { '\x07' }

pub open spec fn esc(b: Seq<u8>, i: int) -> Esc {
    if i >= b.len() { Esc::Bad(b.len() as int, ErrorKind::UnexpectedEof) }
    else if short_escape(b[i]) is Some { Esc::Ok(i + 1, short_escape(b[i])->0) }
    else if b[i] != 0x75 { Esc::Bad(i, ErrorKind::InvalidEscape) }
    else { match hexn(b, i + 1, 4, 0) {
        Hex::Bad(o, k) => Esc::Bad(o, k),
        Hex::Ok(v) =>
            if scalar(v) { Esc::Ok(i + 5, chr(v)) }
            else if !is_high(v) { Esc::Bad(i, ErrorKind::Utf8) }
            else if i + 5 >= b.len() { Esc::Bad(b.len() as int, ErrorKind::UnexpectedEof) }
            else if b[i + 5] != 0x5c { Esc::Bad(i, ErrorKind::Utf8) }
            else if i + 6 >= b.len() { Esc::Bad(b.len() as int, ErrorKind::UnexpectedEof) }
            else if b[i + 6] != 0x75 { Esc::Bad(i, ErrorKind::Utf8) }
            else { match hexn(b, i + 7, 4, 0) {
                Hex::Bad(o, k) => Esc::Bad(o, k),
                Hex::Ok(w) => if is_low(w) { Esc::Ok(i + 11, chr(merge(v, w))) } else { Esc::Bad(i, ErrorKind::Utf8) },
            } },
    } }
}

/// the rest of a string literal: where its closing quote is, the bytes (UTF-8) it decodes to, whether an escape occurs
pub ghost enum Scan { Done(int, Seq<u8>, bool), Bad(int, ErrorKind) }

pub open spec fn prepend(d: Seq<u8>, e: bool, s: Scan) -> Scan {
    match s { Scan::Done(end, dec, es) => Scan::Done(end, d + dec, e || es), Scan::Bad(o, k) => Scan::Bad(o, k) }
}
/// `g`: the input is known to be UTF-8, so bytes above 0x7f need no check
pub open spec fn scan(b: Seq<u8>, i: int, g: bool) -> Scan
    decreases b.len() - i
{
    if !(0 <= i < b.len()) { Scan::Bad(b.len() as int, ErrorKind::UnclosedString) }
    else if b[i] == 0x22 { Scan::Done(i, Seq::empty(), false) }
    else if b[i] == 0x5c { match esc(b, i + 1) {
        Esc::Bad(o, k) => Scan::Bad(o, k),
        Esc::Ok(e, c) => if i < e <= b.len() { prepend(encode_utf8(seq![c]), true, scan(b, e, g)) } else { Scan::Bad(0, ErrorKind::Utf8) },
    } }
    else if b[i] < 0x20 { Scan::Bad(i, ErrorKind::Unexpected(b[i])) }
    else if b[i] >= 0x80 && !g {
        let e = high_end(b, i);
        if i < e <= b.len() && valid_utf8(b.subrange(i, e)) { prepend(b.subrange(i, e), false, scan(b, e, g)) }
        else { Scan::Bad(i, ErrorKind::Utf8) }
    }
    else { prepend(seq![b[i]], false, scan(b, i + 1, g)) }
}

// ------------------------------------------------------------------ numbers
pub ghost enum Num { Done(int), Bad(int, ErrorKind) }
pub open spec fn at(b: Seq<u8>, i: int, c: u8) -> bool { 0 <= i < b.len() && b[i] == c }
pub open spec fn num_int(b: Seq<u8>, i: int) -> Num {
    let j = if at(b, i, 0x2d) { i + 1 } else { i };
    if !(0 <= j < b.len() && is_digit(b[j])) { Num::Bad(j, ErrorKind::ExpectedDigit) }
    else if b[j] == 0x30 { Num::Done(j + 1) } else { Num::Done(digits_end(b, j)) }
}
pub open spec fn num_frac(b: Seq<u8>, j: int) -> Num {
    if at(b, j, 0x2e) {
        let e = digits_end(b, j + 1);
        if e == j + 1 { Num::Bad(e, ErrorKind::ExpectedDecimalDigit) } else { Num::Done(e) }
    } else { Num::Done(j) }
}
pub open spec fn num_exp(b: Seq<u8>, j: int) -> Num {
    if at(b, j, 0x65) || at(b, j, 0x45) {
        let k = if at(b, j + 1, 0x2d) || at(b, j + 1, 0x2b) { j + 2 } else { j + 1 };
        let e = digits_end(b, k);
        if e == k { Num::Bad(e, ErrorKind::ExpectedExponent) } else { Num::Done(e) }
    } else { Num::Done(j) }
}
pub open spec fn num_tail(b: Seq<u8>, n: Num) -> Num {
    match n { Num::Bad(o, k) => n, Num::Done(j) => match num_frac(b, j) {
        Num::Bad(o, k) => Num::Bad(o, k), Num::Done(j) => num_exp(b, j) } }
}
pub open spec fn num(b: Seq<u8>, i: int) -> Num { num_tail(b, num_int(b, i)) }
/// exactly a number
pub open spec fn num_ok(n: Seq<u8>) -> bool { num(n, 0) == Num::Done(n.len() as int) }

// ------------------------------------------------------------------ tokens
/// a string as the library holds it: `json` tells whether `src` is escaped JSON content or the raw text (UTF-8 bytes),
/// `esc` and `len` are the stored flag and length
pub ghost struct JS { pub json: bool, pub src: Seq<u8>, pub esc: bool, pub len: int }
pub ghost enum Tok { Null, Bool(bool), Str(JS), Num(Seq<u8>), Obj, ObjEnd, Arr, ArrEnd, Colon, Comma }
pub ghost enum Lex { Eof, Bad(int, ErrorKind), Tok(Tok, int) }

/// the rest of a keyword
pub open spec fn word(b: Seq<u8>, i: int, w: Seq<u8>, k: int, t: Tok) -> Lex
    decreases w.len() - k
{
    if !(0 <= k < w.len()) { Lex::Tok(t, i) }
    else if i >= b.len() { Lex::Bad(b.len() as int, ErrorKind::UnexpectedEof) }
    else if b[i] != w[k] { Lex::Bad(i, ErrorKind::Unexpected(b[i])) }
    else { word(b, i + 1, w, k + 1, t) }
}
pub open spec fn w_rue() -> Seq<u8> { seq![0x72u8, 0x75, 0x65] }
pub open spec fn w_alse() -> Seq<u8> { seq![0x61u8, 0x6c, 0x73, 0x65] }
pub open spec fn w_ull() -> Seq<u8> { seq![0x75u8, 0x6c, 0x6c] }

/// the token that starts at `i`
pub open spec fn lex_at(b: Seq<u8>, i: int, g: bool) -> Lex {
    if !(0 <= i < b.len()) { Lex::Eof }
    else if b[i] == 0x7b { Lex::Tok(Tok::Obj, i + 1) }
    else if b[i] == 0x7d { Lex::Tok(Tok::ObjEnd, i + 1) }
    else if b[i] == 0x5b { Lex::Tok(Tok::Arr, i + 1) }
    else if b[i] == 0x5d { Lex::Tok(Tok::ArrEnd, i + 1) }
    else if b[i] == 0x2c { Lex::Tok(Tok::Comma, i + 1) }
    else if b[i] == 0x3a { Lex::Tok(Tok::Colon, i + 1) }
    else if b[i] == 0x22 { match scan(b, i + 1, g) {
        Scan::Bad(o, k) => Lex::Bad(o, k),
        Scan::Done(e, d, es) => Lex::Tok(Tok::Str(JS { json: true, src: b.subrange(i + 1, e), esc: es, len: d.len() as int }), e + 1),
    } }
    else if b[i] == 0x2d || is_digit(b[i]) { match num(b, i) {
        Num::Bad(o, k) => Lex::Bad(o, k),
        Num::Done(e) => Lex::Tok(Tok::Num(b.subrange(i, e)), e),
    } }
    else if b[i] == 0x74 { word(b, i + 1, w_rue(), 0, Tok::Bool(true)) }
    else if b[i] == 0x66 { word(b, i + 1, w_alse(), 0, Tok::Bool(false)) }
    else if b[i] == 0x6e { word(b, i + 1, w_ull(), 0, Tok::Null) }
    else { Lex::Bad(i, ErrorKind::Unexpected(b[i])) }
}
/// the next token at or after `i`
pub open spec fn lex(b: Seq<u8>, i: int, g: bool) -> Lex { lex_at(b, skip_ws(b, i), g) }


// ---------------------------------------------------------------- order of strings
pub open spec fn char_cmp(a: char, b: char) -> core::cmp::Ordering {
    if (a as u32) < (b as u32) { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }
}
/// lexicographic order of the characters
pub open spec fn str_cmp(a: Seq<char>, b: Seq<char>) -> core::cmp::Ordering
    decreases a.len(),
{
    if a.len() == 0 { if b.len() == 0 { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Less } }
    else if b.len() == 0 { core::cmp::Ordering::Greater }
    else if a[0] == b[0] { str_cmp(a.drop_first(), b.drop_first()) }
    else { char_cmp(a[0], b[0]) }
}
} // verus!
verus! {
/// no slice, string or vector of the program is longer than this (the address space is smaller)
pub open spec fn max_len() -> int { 0x0200_0000_0000_0000 }
}
verus! {
pub open spec fn exp16(k: int) -> int { if k == 0 { 1 } else if k == 1 { 16 } else if k == 2 { 256 } else if k == 3 { 4096 } else { 65536 } }
}
verus! {
// ------------------------------------------------------------------ values
/// a JSON value
pub ghost enum Tree { Null, Bool(bool), Num(Seq<u8>), Str(JS), Arr(Seq<Tree>), Obj(Seq<(JS, Tree)>) }
pub open spec fn kind(t: Tree) -> JsonKind {
    match t { Tree::Null => JsonKind::Null, Tree::Bool(_) => JsonKind::Boolean, Tree::Num(_) => JsonKind::Number,
              Tree::Str(_) => JsonKind::String, Tree::Arr(_) => JsonKind::Array, Tree::Obj(_) => JsonKind::Object }
}
/// how many containers are open inside each other
pub open spec fn depth(t: Tree) -> int decreases t, 0nat {
    match t { Tree::Arr(s) => 1 + depths(s), Tree::Obj(s) => 1 + depthm(s), _ => 0 }
}
pub open spec fn depths(s: Seq<Tree>) -> int decreases s {
    if s.len() == 0 { 0 } else { let a = depth(s[0]); let b = depths(s.drop_first()); if a > b { a } else { b } }
}
pub open spec fn depthm(s: Seq<(JS, Tree)>) -> int decreases s {
    if s.len() == 0 { 0 } else { let a = depth(s[0].1); let b = depthm(s.drop_first()); if a > b { a } else { b } }
}
}

verus! {
// ------------------------------------------------------------------ documents
/// a node of a document: containers with the number of their members
pub ghost enum NodeG { Null, Bool(bool), Str(JS), Num(Seq<u8>), Obj(int), Arr(int) }
pub open spec fn node_kind(n: NodeG) -> JsonKind {
    match n { NodeG::Null => JsonKind::Null, NodeG::Bool(_) => JsonKind::Boolean, NodeG::Num(_) => JsonKind::Number,
              NodeG::Str(_) => JsonKind::String, NodeG::Arr(_) => JsonKind::Array, NodeG::Obj(_) => JsonKind::Object }
}
/// a list of nodes, and when it refuses another node
pub ghost struct NG { pub n: Seq<NodeG>, pub room: spec_fn(Seq<NodeG>, NodeG) -> Option<ErrorKind> }
pub open spec fn ng_push(s: NG, g: NodeG) -> (NG, Result<int, ErrorKind>) {
    match (s.room)(s.n, g) { Some(e) => (s, Err(e)), None => (NG { n: s.n.push(g), ..s }, Ok(s.n.len() as int)) }
}
/// one more member in the container at `i`
pub open spec fn ng_bump(s: NG, i: int) -> NG {
    NG { n: match s.n[i] { NodeG::Obj(n) => s.n.update(i, NodeG::Obj(n + 1)), NodeG::Arr(n) => s.n.update(i, NodeG::Arr(n + 1)), _ => s.n }, ..s }
}
/// the container at `o` was begun in state `s0` and is the node `g` in state `s`
pub open spec fn ng_open(s0: NG, s: NG, o: int, g: NodeG) -> bool {
    s.room == s0.room && o == s0.n.len() && o < s.n.len() && s.n[o] == g && forall|i: int| 0 <= i < o ==> s.n[i] == s0.n[i]
}
}

verus! {
/// the kind of token that the byte `c` begins
pub open spec fn peek_kind(c: u8) -> PeekableTokenKind {
    if c == 0x7b { PeekableTokenKind::Object } else if c == 0x7d { PeekableTokenKind::ObjectEnd }
    else if c == 0x5b { PeekableTokenKind::Array } else if c == 0x5d { PeekableTokenKind::ArrayEnd }
    else if c == 0x2c { PeekableTokenKind::Comma } else if c == 0x3a { PeekableTokenKind::Colon }
    else if c == 0x22 { PeekableTokenKind::String } else if c == 0x2d || is_digit(c) { PeekableTokenKind::Number }
    else if c == 0x74 { PeekableTokenKind::True } else if c == 0x66 { PeekableTokenKind::False }
    else if c == 0x6e { PeekableTokenKind::Null } else { PeekableTokenKind::Unrecognized }
}
}

// How the specification sees the values of the program.
#[allow(unused_imports)] use vstd::prelude::*;
use vstd::utf8::*;
use core::convert::Infallible;
use crate::error::*;
use crate::string::*;
use crate::parser::*;
use crate::anystr::*;
use crate::number::*;
use crate::spec::*;
use crate::strings::*;
use crate::value::*;
use crate::doc::*;
verus! {
/// the specification's view of a string
pub open(crate) spec fn jsv(s: JsonString<'_>) -> JS {
    match s.source {
        StringContents::Json(a) => JS { json: true, src: encode_utf8(a@), esc: s.info.esc(), len: s.info.len() },
        StringContents::Raw(a) => JS { json: false, src: encode_utf8(a@), esc: s.info.esc(), len: s.info.len() },
    }
}
/// the text of a number
pub open(crate) spec fn nsrc(n: crate::number::JsonNumber<'_>) -> Seq<char> { n.source@ }
/// what bounds and shapes the source of a string
pub proof fn contents_bound(s: StringContents<'_>)
    ensures match s {
        StringContents::Json(a) => encode_utf8(a@).len() <= max_len() && valid_utf8(encode_utf8(a@))
            && lit(encode_utf8(a@)).subrange(0, lit(encode_utf8(a@)).len() - 1) == encode_utf8(a@),
        StringContents::Raw(a) => encode_utf8(a@).len() <= max_len() && encode_utf8(escape(a@)).len() <= 6 * max_len()
            && Seq::<char>::empty() + escape(a@) == escape(a@) },
{
    match s {
        StringContents::Json(a) => {
            crate::trusted::any_len_bound(a);
            encode_utf8_valid_utf8(a@);
            assert(lit(encode_utf8(a@)).subrange(0, lit(encode_utf8(a@)).len() - 1) =~= encode_utf8(a@));
        },
        StringContents::Raw(a) => { crate::trusted::any_len_bound(a); escape_len(a@); assert(Seq::<char>::empty() + escape(a@) =~= escape(a@)); },
    }
}
/// the text of a string, by the way it is held
pub(crate) proof fn jsv_text(s: JsonString<'_>)
    requires js_ok(jsv(s)),
    ensures
        encode_utf8(text(jsv(s))) == contents(jsv(s)),
        match s.source {
            StringContents::Json(a) => decode_utf8(encode_utf8(a@)) == a@ && (!s.info.esc() ==> text(jsv(s)) == a@) && escaped(jsv(s)) == encode_utf8(a@),
            StringContents::Raw(a) => decode_utf8(encode_utf8(a@)) == a@ && text(jsv(s)) == a@ && escaped(jsv(s)) == encode_utf8(escape(a@)),
        },
{
    contents_valid(jsv(s));
    match s.source {
        StringContents::Json(a) => { encode_utf8_decode_utf8(a@); if !s.info.esc() { plain_contents(jsv(s)); } },
        StringContents::Raw(a) => { encode_utf8_decode_utf8(a@); },
    }
}
pub open spec fn tokv(t: Token<'_>) -> Tok {
    match t {
        Token::Null => Tok::Null,
        Token::Bool(b) => Tok::Bool(b),
        Token::String(s) => Tok::Str(jsv(s)),
        Token::Number(n) => Tok::Num(encode_utf8(nsrc(n))),
        Token::Object => Tok::Obj,
        Token::ObjectEnd => Tok::ObjEnd,
        Token::Array => Tok::Arr,
        Token::ArrayEnd => Tok::ArrEnd,
        Token::Colon => Tok::Colon,
        Token::Comma => Tok::Comma,
    }
}
/// what reading a token reports
pub open spec fn lexed(l: Lex, r: Result<Token<'_>, Error>, end: int) -> bool {
    match l {
        Lex::Eof => r is Err && r->Err_0.kind == ErrorKind::<Infallible>::UnexpectedEof,
        Lex::Bad(o, k) => r is Err && r->Err_0.offset == o && r->Err_0.kind == k,
        Lex::Tok(t, e) => r is Ok && tokv(r->Ok_0) == t && end == e,
    }
}
} // verus!
verus! {
pub open spec fn rmap<A, B, E>(r: Result<A, E>, f: spec_fn(A) -> B) -> Result<B, E> { match r { Ok(a) => Ok(f(a)), Err(e) => Err(e) } }

// ------------------------------------------------------------------ values
pub open spec fn tree(v: Value<'_>) -> Tree decreases v, 0nat
{
    match v {
        Value::Null => Tree::Null, Value::Boolean(x) => Tree::Bool(x), Value::Number(n) => Tree::Num(encode_utf8(nsrc(n))),
        Value::String(s) => Tree::Str(jsv(s)), Value::Array(a) => Tree::Arr(trees(a, a@.len())), Value::Object(o) => Tree::Obj(mems(o, o.0@.len())),
    }
}
pub open spec fn trees(a: Vec<Value<'_>>, k: nat) -> Seq<Tree> decreases a, k
{ if k == 0 || k > a@.len() { seq![] } else { trees(a, (k - 1) as nat).push(tree(a@[k - 1])) } }
pub open spec fn mems(o: Object<'_>, k: nat) -> Seq<(JS, Tree)> decreases o, k
{ if k == 0 || k > o.0@.len() { seq![] } else { mems(o, (k - 1) as nat).push((jsv(o.0@[k - 1].key), tree(o.0@[k - 1].value))) } }

pub proof fn trees_ext(a: Vec<Value<'_>>, b: Vec<Value<'_>>, k: nat)
    requires k <= a@.len(), k <= b@.len(), forall|i: int| 0 <= i < k ==> a@[i] == b@[i],
    ensures trees(a, k) == trees(b, k), trees(a, k).len() == k,
    decreases k
{ if k > 0 { trees_ext(a, b, (k - 1) as nat); } }
pub proof fn mems_ext(a: Object<'_>, b: Object<'_>, k: nat)
    requires k <= a.0@.len(), k <= b.0@.len(), forall|i: int| 0 <= i < k ==> a.0@[i] == b.0@[i],
    ensures mems(a, k) == mems(b, k), mems(a, k).len() == k,
    decreases k
{ if k > 0 { mems_ext(a, b, (k - 1) as nat); } }
}
verus! {
/// equality of tokens as derived: strings compare with their own equality
pub open spec fn tokens_eq(a: Token<'_>, b: Token<'_>) -> bool {
    match (a, b) {
        (Token::Null, Token::Null) | (Token::Object, Token::Object) | (Token::ObjectEnd, Token::ObjectEnd) | (Token::Array, Token::Array)
        | (Token::ArrayEnd, Token::ArrayEnd) | (Token::Colon, Token::Colon) | (Token::Comma, Token::Comma) => true,
        (Token::Bool(x), Token::Bool(y)) => x == y,
        (Token::Number(x), Token::Number(y)) => nsrc(x) == nsrc(y),
        (Token::String(x), Token::String(y)) => strings_eq(jsv(x), jsv(y)),
        _ => false,
    }
}
/// equal as texts
pub open spec fn strings_eq(a: JS, b: JS) -> bool { text(a) == text(b) }
}

verus! {
// ------------------------------------------------------------------ documents
pub open spec fn nodev(n: Node<'_>) -> NodeG {
    match n { Node::Null => NodeG::Null, Node::Boolean(b) => NodeG::Bool(b), Node::String(s) => NodeG::Str(jsv(s)), Node::Number(n) => NodeG::Num(encode_utf8(nsrc(n))),
              Node::Object { length } => NodeG::Obj(length as int), Node::Array { length } => NodeG::Arr(length as int) }
}
pub open spec fn nodesv(s: Seq<Node<'_>>) -> Seq<NodeG> { Seq::new(s.len(), |i: int| nodev(s[i])) }
}

verus! {
pub proof fn nodesv_push(s: Seq<Node<'_>>, n: Node<'_>)
    ensures nodesv(s.push(n)) == nodesv(s).push(nodev(n)), nodesv(s).len() == s.len(),
{ assert(nodesv(s.push(n)) =~= nodesv(s).push(nodev(n))); }
}

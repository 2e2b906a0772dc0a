// What the parser does, as a function: the run of a delegate over the tokens of the input.
#[allow(unused_imports)] use vstd::prelude::*;
use core::convert::Infallible;
use crate::error::*;
use crate::parser::*;
use crate::spec::*;
use crate::views::*;
use crate::lemmas::*;
verus! {
/// the fixed part of a run: the input, whether it is text, whether trailing commas are allowed, whether depth is limited
pub ghost struct Cx { pub b: Seq<u8>, pub g: bool, pub tc: bool, pub lim: bool }
/// the delegate's state afterwards; the value and the position after it, or the error
pub ghost struct Out<'a, D: ParseDelegate<'a>> { pub s: D::GS, pub r: Result<(D::GV, int), (int, ErrorKind<D::Error>)> }

pub open spec fn fail<'a, D: ParseDelegate<'a>>(s: D::GS, o: int, k: ErrorKind<D::Error>) -> Out<'a, D> { Out { s, r: Err((o, k)) } }
pub open spec fn del<'a, D: ParseDelegate<'a>>(s: D::GS, o: int, e: D::Error) -> Out<'a, D> { Out { s, r: Err((o, ErrorKind::ErrorFromDelegate(e))) } }
pub open spec fn step<'a, D: ParseDelegate<'a>>(x: (D::GS, Result<D::GV, D::Error>), o: int, p: int) -> Out<'a, D> {
    match x.1 { Ok(v) => Out { s: x.0, r: Ok((v, p)) }, Err(e) => del(x.0, o, e) }
}
/// an end of input inside a container is reported as that container being unclosed
pub open spec fn unclosed<'a, D: ParseDelegate<'a>>(x: Out<'a, D>, k: ErrorKind<D::Error>) -> Out<'a, D> {
    match x.r { Err((o, ErrorKind::UnexpectedEof)) => fail(x.s, o, k), _ => x }
}
/// a token was needed
pub open spec fn no_token<'a, D: ParseDelegate<'a>>(c: Cx, s: D::GS, l: Lex) -> Out<'a, D> {
    match l { Lex::Bad(o, k) => fail(s, o, conv(k)), _ => fail(s, c.b.len() as int, ErrorKind::UnexpectedEof) }
}

pub open spec fn less(c: Cx, d: int) -> int { if c.lim { d - 1 } else { d } }
/// the value at `i`; `d` more containers may be opened inside each other
pub open spec fn run_value<'a, D: ParseDelegate<'a>>(c: Cx, i: int, d: int, s: D::GS) -> Out<'a, D>
    decreases c.b.len() - i, 1int
{
    match lex(c.b, i, c.g) {
        Lex::Tok(t, p) => if !(i < p <= c.b.len()) { arbitrary() } else { match t {
            Tok::Null => step(D::f_null(s), i, p),
            Tok::Bool(v) => step(D::f_bool(s, v), i, p),
            Tok::Str(v) => step(D::f_str(s, v), i, p),
            Tok::Num(v) => step(D::f_num(s, v), i, p),
            Tok::Obj => if c.lim && d <= 0 { fail(s, i, ErrorKind::RecursionLimitReached) }
                else { unclosed(run_object(c, p, less(c, d), s), ErrorKind::UnclosedObject) },
            Tok::Arr => if c.lim && d <= 0 { fail(s, i, ErrorKind::RecursionLimitReached) }
                else { unclosed(run_array(c, p, less(c, d), s), ErrorKind::UnclosedArray) },
            Tok::ObjEnd => fail(s, i, ErrorKind::Unexpected(0x7d)),
            Tok::ArrEnd => fail(s, i, ErrorKind::Unexpected(0x5d)),
            Tok::Colon => fail(s, i, ErrorKind::Unexpected(0x3a)),
            Tok::Comma => fail(s, i, ErrorKind::Unexpected(0x2c)),
        } },
        l => no_token(c, s, l),
    }
}
/// an object, after its brace
pub open spec fn run_object<'a, D: ParseDelegate<'a>>(c: Cx, i: int, d: int, s: D::GS) -> Out<'a, D>
    decreases c.b.len() - i, 3int
{
    let (s1, r) = D::f_obj(s);
    match r { Err(e) => del(s1, i, e), Ok(o) => run_members(c, i, d, s1, o) }
}
/// the members of an object, from a key (or the closing brace) on
pub open spec fn run_members<'a, D: ParseDelegate<'a>>(c: Cx, i: int, d: int, s: D::GS, o: D::GO) -> Out<'a, D>
    decreases c.b.len() - i, 2int
{
    match lex(c.b, i, c.g) {
        Lex::Tok(t, p) => if !(i < p <= c.b.len()) { arbitrary() } else { match t {
            Tok::ObjEnd => if c.tc || D::f_obj_empty(s, o) { step(D::f_obj_end(s, o), p, p) } else { fail(s, i, ErrorKind::IllegalTrailingComma) },
            Tok::Str(k) => { let (s1, o1, r) = D::f_key(s, o, k);
                match r { Err(e) => del(s1, i, e), Ok(k) => run_colon(c, p, d, s1, o1, k) } },
            Tok::Arr | Tok::Bool(_) | Tok::Null | Tok::Num(_) | Tok::Obj => fail(s, i, ErrorKind::ObjectKeysMustBeStrings),
            _ => fail(s, i, ErrorKind::ExpectedObjectKey),
        } },
        l => no_token(c, s, l),
    }
}
/// a member, after its key
pub open spec fn run_colon<'a, D: ParseDelegate<'a>>(c: Cx, i: int, d: int, s: D::GS, o: D::GO, k: D::GK) -> Out<'a, D>
    decreases c.b.len() - i, 2int
{
    match lex(c.b, i, c.g) {
        Lex::Tok(t, p) => if !(i < p <= c.b.len()) { arbitrary() } else {
            if t != Tok::Colon { fail(s, i, ErrorKind::ExpectedColon) } else {
                let x = run_value::<D>(c, p, d, s);
                match x.r {
                    Err(_) => x,
                    Ok((v, q)) => if !(p < q <= c.b.len()) { arbitrary() } else {
                        let (s2, o2, r) = D::f_mem(x.s, o, k, v);
                        match r { Err(e) => del(s2, p, e), Ok(_) => run_next_member(c, q, d, s2, o2) }
                    },
                }
            } },
        Lex::Bad(q, _) => fail(s, q, ErrorKind::ExpectedColon),
        Lex::Eof => fail(s, c.b.len() as int, ErrorKind::ExpectedColon),
    }
}
/// an object, after a member
pub open spec fn run_next_member<'a, D: ParseDelegate<'a>>(c: Cx, i: int, d: int, s: D::GS, o: D::GO) -> Out<'a, D>
    decreases c.b.len() - i, 2int
{
    match lex(c.b, i, c.g) {
        Lex::Tok(t, p) => if !(i < p <= c.b.len()) { arbitrary() } else { match t {
            Tok::ObjEnd => step(D::f_obj_end(s, o), p, p),
            Tok::Comma => run_members(c, p, d, s, o),
            _ => fail(s, i, ErrorKind::ExpectedCommaOrEndOfObject),
        } },
        l => no_token(c, s, l),
    }
}
/// an array, after its bracket
pub open spec fn run_array<'a, D: ParseDelegate<'a>>(c: Cx, i: int, d: int, s: D::GS) -> Out<'a, D>
    decreases c.b.len() - i, 4int
{
    let (s1, r) = D::f_arr(s);
    match r { Err(e) => del(s1, i, e), Ok(a) => run_elems(c, i, i, d, s1, a) }
}
/// the elements of an array that began at `i0`, from an element (or the closing bracket) on
pub open spec fn run_elems<'a, D: ParseDelegate<'a>>(c: Cx, i0: int, i: int, d: int, s: D::GS, a: D::GA) -> Out<'a, D>
    decreases c.b.len() - i, 3int
{
    let w = skip_ws(c.b, i);
    if !(i <= w <= c.b.len()) { arbitrary() }
    else if at(c.b, w, 0x5d) { if c.tc || D::f_arr_empty(s, a) { step(D::f_arr_end(s, a), i0, w + 1) } else { fail(s, i, ErrorKind::IllegalTrailingComma) } }
    else {
        let x = run_value::<D>(c, w, d, s);
        match x.r {
            Err(_) => x,
            Ok((v, q)) => if !(w < q <= c.b.len()) { arbitrary() } else {
                let (s2, a2, r) = D::f_elem(x.s, a, v);
                match r { Err(e) => del(s2, q, e), Ok(_) => run_next_elem(c, i0, q, d, s2, a2) }
            },
        }
    }
}
/// an array, after an element
pub open spec fn run_next_elem<'a, D: ParseDelegate<'a>>(c: Cx, i0: int, i: int, d: int, s: D::GS, a: D::GA) -> Out<'a, D>
    decreases c.b.len() - i, 2int
{
    match lex(c.b, i, c.g) {
        Lex::Tok(t, p) => if !(i < p <= c.b.len()) { arbitrary() } else { match t {
            Tok::ArrEnd => step(D::f_arr_end(s, a), i0, p),
            Tok::Comma => run_elems(c, i0, p, d, s, a),
            _ => fail(s, i, ErrorKind::ExpectedCommaOrEndOfArray),
        } },
        l => no_token(c, s, l),
    }
}
/// a whole input
pub open spec fn cx(b: Seq<u8>, g: bool, cfg: ParseConfig) -> Cx { Cx { b, g, tc: cfg.allow_trailing_commas, lim: cfg.recursion_limit is Some } }
pub open spec fn budget(cfg: ParseConfig) -> int { match cfg.recursion_limit { Some(n) => n as int, None => usize::MAX as int } }
pub open spec fn run<'a, D: ParseDelegate<'a>>(b: Seq<u8>, g: bool, cfg: ParseConfig, s: D::GS) -> Out<'a, D> {
    let x = run_value::<D>(cx(b, g, cfg), 0, budget(cfg), s);
    match x.r {
        Err(_) => x,
        Ok((v, p)) =>
            if !cfg.allow_all_types_at_root && !(D::f_kind(x.s, v) is Object || D::f_kind(x.s, v) is Array) { fail(x.s, 0, ErrorKind::PayloadsShouldBeObjectOrArray) }
            else if skip_ws(b, p) < b.len() { fail(x.s, skip_ws(b, p), ErrorKind::TrailingNonWhitespace) }
            else { x },
    }
}
/// what the caller of a run sees
pub open spec fn same<'a, D: ParseDelegate<'a>>(r: Result<D::Value, Error<D::Error>>, x: Out<'a, D>) -> bool {
    match x.r {
        Ok((v, _)) => r is Ok && D::vv(r->Ok_0) == v,
        Err((o, k)) => r is Err && r->Err_0.offset == o && r->Err_0.kind == k,
    }
}
}
verus! {
pub open spec fn dflt() -> ParseConfig { ParseConfig { allow_trailing_commas: false, recursion_limit: Some(128), allow_all_types_at_root: true } }

// ------------------------------------------------------------------ the laws of delegates, along a run
pub proof fn law_leaf_all<'a, D: ParseDelegate<'a>>(s: D::GS)
    ensures
        D::f_null(s).1 is Ok ==> D::frame(s, D::f_null(s).0) && D::v_ok(D::f_null(s).0, D::f_null(s).1->Ok_0),
        forall|x: bool| (#[trigger] D::f_bool(s, x)).1 is Ok ==> D::frame(s, D::f_bool(s, x).0) && D::v_ok(D::f_bool(s, x).0, D::f_bool(s, x).1->Ok_0),
        forall|n: Seq<u8>| (#[trigger] D::f_num(s, n)).1 is Ok ==> D::frame(s, D::f_num(s, n).0) && D::v_ok(D::f_num(s, n).0, D::f_num(s, n).1->Ok_0),
        forall|t: JS| (#[trigger] D::f_str(s, t)).1 is Ok ==> D::frame(s, D::f_str(s, t).0) && D::v_ok(D::f_str(s, t).0, D::f_str(s, t).1->Ok_0),
{
    assert forall|x: bool| (#[trigger] D::f_bool(s, x)).1 is Ok implies D::frame(s, D::f_bool(s, x).0) && D::v_ok(D::f_bool(s, x).0, D::f_bool(s, x).1->Ok_0) by { D::law_leaf(s, x, arbitrary(), arbitrary()); }
    assert forall|x: Seq<u8>| (#[trigger] D::f_num(s, x)).1 is Ok implies D::frame(s, D::f_num(s, x).0) && D::v_ok(D::f_num(s, x).0, D::f_num(s, x).1->Ok_0) by { D::law_leaf(s, arbitrary(), x, arbitrary()); }
    assert forall|x: JS| (#[trigger] D::f_str(s, x)).1 is Ok implies D::frame(s, D::f_str(s, x).0) && D::v_ok(D::f_str(s, x).0, D::f_str(s, x).1->Ok_0) by { D::law_leaf(s, arbitrary(), arbitrary(), x); }
    D::law_leaf(s, arbitrary(), arbitrary(), arbitrary());
}
/// the object `o` (array `a`) is open and has at most `m` members
pub open spec fn o_open<'a, D: ParseDelegate<'a>>(s0: D::GS, s: D::GS, o: D::GO, m: int) -> bool { exists|n: int| 0 <= n <= m && #[trigger] D::o_ok(s0, s, o, n) }
pub open spec fn k_open<'a, D: ParseDelegate<'a>>(s0: D::GS, s: D::GS, o: D::GO, k: D::GK, m: int) -> bool { exists|n: int| 0 <= n <= m && #[trigger] D::k_ok(s0, s, o, k, n) }
pub open spec fn a_open<'a, D: ParseDelegate<'a>>(s0: D::GS, s: D::GS, a: D::GA, m: int) -> bool { exists|n: int| 0 <= n <= m && #[trigger] D::a_ok(s0, s, a, n) }
pub proof fn laws_end<'a, D: ParseDelegate<'a>>(s0: D::GS, s: D::GS, o: D::GO)
    ensures forall|n: int| #[trigger] D::o_ok(s0, s, o, n) && D::f_obj_end(s, o).1 is Ok ==> D::frame(s0, D::f_obj_end(s, o).0)
        && D::v_ok(D::f_obj_end(s, o).0, D::f_obj_end(s, o).1->Ok_0),
{
    assert forall|n: int| #[trigger] D::o_ok(s0, s, o, n) && D::f_obj_end(s, o).1 is Ok implies D::frame(s0, D::f_obj_end(s, o).0)
        && D::v_ok(D::f_obj_end(s, o).0, D::f_obj_end(s, o).1->Ok_0) by { D::law_end(s0, s, o, arbitrary(), n); }
}
pub proof fn laws_arr_end<'a, D: ParseDelegate<'a>>(s0: D::GS, s: D::GS, a: D::GA)
    ensures forall|n: int| #[trigger] D::a_ok(s0, s, a, n) && D::f_arr_end(s, a).1 is Ok ==> D::frame(s0, D::f_arr_end(s, a).0)
        && D::v_ok(D::f_arr_end(s, a).0, D::f_arr_end(s, a).1->Ok_0),
{
    assert forall|n: int| #[trigger] D::a_ok(s0, s, a, n) && D::f_arr_end(s, a).1 is Ok implies D::frame(s0, D::f_arr_end(s, a).0)
        && D::v_ok(D::f_arr_end(s, a).0, D::f_arr_end(s, a).1->Ok_0) by { D::law_end(s0, s, arbitrary(), a, n); }
}

/// one member of an object, read at `i`
pub open spec fn member_ok<'a, D: ParseDelegate<'a>>(c: Cx, i: int, d: int, s0: D::GS, s: D::GS, o: D::GO, m: int) -> bool {
    match lex(c.b, i, c.g) {
        Lex::Tok(Tok::Str(k), p) => {
            let (s1, o1, r) = D::f_key(s, o, k);
            r is Ok ==> k_open::<D>(s0, s1, o1, r->Ok_0, m) && match lex(c.b, p, c.g) {
                Lex::Tok(Tok::Colon, q) => {
                    let x = run_value::<D>(c, q, d, s1);
                    x.r is Ok && D::frame(s1, x.s) ==> {
                        let (s2, o2, r2) = D::f_mem(x.s, o1, r->Ok_0, (x.r->Ok_0).0);
                        &&& k_open::<D>(s0, x.s, o1, r->Ok_0, m)
                        &&& r2 is Ok ==> o_open::<D>(s0, s2, o2, m + 1)
                    }
                },
                _ => true,
            }
        },
        _ => true,
    }
}
pub proof fn laws_members<'a, D: ParseDelegate<'a>>(c: Cx, i: int, d: int, s0: D::GS, s: D::GS, o: D::GO, m: int)
    requires o_open::<D>(s0, s, o, m), 0 <= m < max_len() || i >= c.b.len(), 0 <= i <= c.b.len(),
    ensures member_ok::<D>(c, i, d, s0, s, o, m),
{
    let n = choose|n: int| 0 <= n <= m && #[trigger] D::o_ok(s0, s, o, n);
    lex_bounds(c.b, i, c.g);
    if let Lex::Tok(Tok::Str(k), p) = lex(c.b, i, c.g) {
        let (s1, o1, r) = D::f_key(s, o, k);
        if r is Ok {
            D::law_key(s0, s, o, n, k);
            lex_bounds(c.b, p, c.g);
            if let Lex::Tok(Tok::Colon, q) = lex(c.b, p, c.g) {
                let x = run_value::<D>(c, q, d, s1);
                if x.r is Ok && D::frame(s1, x.s) {
                    D::law_frame(s0, s1, x.s, o1, arbitrary(), r->Ok_0, n);
                    if D::f_mem(x.s, o1, r->Ok_0, (x.r->Ok_0).0).2 is Ok { D::law_mem(s0, x.s, o1, n, r->Ok_0, (x.r->Ok_0).0); }
                }
            }
        }
    }
}
pub proof fn laws_elems<'a, D: ParseDelegate<'a>>(c: Cx, i: int, d: int, s0: D::GS, s: D::GS, a: D::GA, m: int)
    requires a_open::<D>(s0, s, a, m), 0 <= m < max_len() || i >= c.b.len(), 0 <= i <= c.b.len(),
    ensures i <= skip_ws(c.b, i) <= c.b.len(),
        ({ let x = run_value::<D>(c, skip_ws(c.b, i), d, s);
           x.r is Ok && D::frame(s, x.s) && i < c.b.len() ==> {
               let (s2, a2, r2) = D::f_elem(x.s, a, (x.r->Ok_0).0);
               &&& a_open::<D>(s0, x.s, a, m)
               &&& r2 is Ok ==> a_open::<D>(s0, s2, a2, m + 1)
           } }),
{
    let n = choose|n: int| 0 <= n <= m && #[trigger] D::a_ok(s0, s, a, n);
    skip_ws_bounds(c.b, i);
    let x = run_value::<D>(c, skip_ws(c.b, i), d, s);
    if x.r is Ok && D::frame(s, x.s) && i < c.b.len() {
        D::law_frame(s0, s, x.s, arbitrary(), a, arbitrary(), n);
        if D::f_elem(x.s, a, (x.r->Ok_0).0).2 is Ok { D::law_elem(s0, x.s, a, n, (x.r->Ok_0).0); }
    }
}
}

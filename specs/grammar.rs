// The JSON grammar (RFC 8259, with the library's two extensions as switches), and what a run of the parser has to do with it.
#[allow(unused_imports)] use vstd::prelude::*;
use core::convert::Infallible;
use crate::error::*;
use crate::parser::*;
use crate::spec::*;
use crate::views::*;
use crate::lemmas::*;
use crate::run::*;
verus! {
/// value = object / array / string / number / true / false / null: the value at `i` and where it ends
pub open spec fn g_value(c: Cx, i: int) -> Option<(Tree, int)>
    decreases c.b.len() - i, 1int
{
    match lex(c.b, i, c.g) {
        Lex::Tok(t, p) => if !(i < p <= c.b.len()) { None } else { match t {
            Tok::Null => Some((Tree::Null, p)),
            Tok::Bool(x) => Some((Tree::Bool(x), p)),
            Tok::Num(n) => Some((Tree::Num(n), p)),
            Tok::Str(s) => Some((Tree::Str(s), p)),
            Tok::Obj => match g_members(c, p, true) { Some((m, q)) => Some((Tree::Obj(m), q)), None => None },
            Tok::Arr => match g_elems(c, p, true) { Some((m, q)) => Some((Tree::Arr(m), q)), None => None },
            _ => None,
        } },
        _ => None,
    }
}
/// the members of an object up to its end; `first`: none was read so far
pub open spec fn g_members(c: Cx, i: int, first: bool) -> Option<(Seq<(JS, Tree)>, int)>
    decreases c.b.len() - i, 2int
{
    match lex(c.b, i, c.g) {
        Lex::Tok(Tok::ObjEnd, p) => if first || c.tc { Some((Seq::empty(), p)) } else { None },
        Lex::Tok(Tok::Str(k), p) => if !(i < p <= c.b.len()) { None } else { match lex(c.b, p, c.g) {
            Lex::Tok(Tok::Colon, q) => if !(p < q <= c.b.len()) { None } else { match g_value(c, q) {
                Some((v, r)) => if !(q < r <= c.b.len()) { None } else { match lex(c.b, r, c.g) {
                    Lex::Tok(Tok::ObjEnd, e) => Some((seq![(k, v)] + Seq::empty(), e)),
                    Lex::Tok(Tok::Comma, e) => if !(r < e <= c.b.len()) { None } else { match g_members(c, e, false) {
                        Some((m, z)) => Some((seq![(k, v)] + m, z)),
                        None => None,
                    } },
                    _ => None,
                } },
                None => None,
            } },
            _ => None,
        } },
        _ => None,
    }
}
pub open spec fn g_elems(c: Cx, i: int, first: bool) -> Option<(Seq<Tree>, int)>
    decreases c.b.len() - i, 2int
{
    match lex(c.b, i, c.g) {
        Lex::Tok(Tok::ArrEnd, p) => if first || c.tc { Some((Seq::empty(), p)) } else { None },
        _ => match g_value(c, i) {
            Some((v, r)) => if !(i < r <= c.b.len()) { None } else { match lex(c.b, r, c.g) {
                Lex::Tok(Tok::ArrEnd, e) => Some((seq![v] + Seq::empty(), e)),
                Lex::Tok(Tok::Comma, e) => if !(r < e <= c.b.len()) { None } else { match g_elems(c, e, false) {
                    Some((m, z)) => Some((seq![v] + m, z)),
                    None => None,
                } },
                _ => None,
            } },
            None => None,
        },
    }
}
/// JSON-text = ws value ws
pub open spec fn g_text(c: Cx) -> Option<Tree> {
    match g_value(c, 0) { Some((t, p)) => if skip_ws(c.b, p) >= c.b.len() { Some(t) } else { None }, None => None }
}

// ------------------------------------------------------------------ what a delegate is told about a value
pub open spec fn feed_value<'a, D: ParseDelegate<'a>>(s: D::GS, t: Tree) -> (D::GS, Result<D::GV, D::Error>)
    decreases t, 0nat
{
    match t {
        Tree::Null => D::f_null(s),
        Tree::Bool(x) => D::f_bool(s, x),
        Tree::Num(n) => D::f_num(s, n),
        Tree::Str(x) => D::f_str(s, x),
        Tree::Obj(m) => { let (s1, r) = D::f_obj(s); match r { Ok(o) => feed_members::<D>(s1, o, m), Err(e) => (s1, Err(e)) } },
        Tree::Arr(m) => { let (s1, r) = D::f_arr(s); match r { Ok(a) => feed_elems::<D>(s1, a, m), Err(e) => (s1, Err(e)) } },
    }
}
pub open spec fn feed_members<'a, D: ParseDelegate<'a>>(s: D::GS, o: D::GO, m: Seq<(JS, Tree)>) -> (D::GS, Result<D::GV, D::Error>)
    decreases m
{
    if m.len() == 0 { D::f_obj_end(s, o) } else {
        let (s1, o1, r) = D::f_key(s, o, m[0].0);
        match r { Err(e) => (s1, Err(e)), Ok(k) => {
            let (s2, r) = feed_value::<D>(s1, m[0].1);
            match r { Err(e) => (s2, Err(e)), Ok(v) => {
                let (s3, o3, r) = D::f_mem(s2, o1, k, v);
                match r { Err(e) => (s3, Err(e)), Ok(_) => feed_members::<D>(s3, o3, m.drop_first()) }
            } }
        } }
    }
}
pub open spec fn feed_elems<'a, D: ParseDelegate<'a>>(s: D::GS, a: D::GA, m: Seq<Tree>) -> (D::GS, Result<D::GV, D::Error>)
    decreases m
{
    if m.len() == 0 { D::f_arr_end(s, a) } else {
        let (s2, r) = feed_value::<D>(s, m[0]);
        match r { Err(e) => (s2, Err(e)), Ok(v) => {
            let (s3, a3, r) = D::f_elem(s2, a, v);
            match r { Err(e) => (s3, Err(e)), Ok(_) => feed_elems::<D>(s3, a3, m.drop_first()) }
        } }
    }
}
/// the delegate knows whether a container has members
pub open spec fn honest<'a, D: ParseDelegate<'a>>() -> bool {
    &&& forall|s0: D::GS, s: D::GS, o: D::GO, n: int| 0 <= n < max_len() && #[trigger] D::o_ok(s0, s, o, n) ==> D::f_obj_empty(s, o) == (n == 0)
    &&& forall|s0: D::GS, s: D::GS, a: D::GA, n: int| 0 <= n < max_len() && #[trigger] D::a_ok(s0, s, a, n) ==> D::f_arr_empty(s, a) == (n == 0)
}
/// the run did what feeding the value does
pub open spec fn fed_as<'a, D: ParseDelegate<'a>>(x: Out<'a, D>, f: (D::GS, Result<D::GV, D::Error>), p: int) -> bool {
    x.s == f.0 && match f.1 {
        Ok(v) => x.r == Ok::<(D::GV, int), (int, ErrorKind<D::Error>)>((v, p)),
        Err(e) => x.r is Err && (x.r->Err_0).1 == ErrorKind::ErrorFromDelegate(e),
    }
}

pub proof fn skip_ws_twice(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len(),
    ensures skip_ws(b, skip_ws(b, i)) == skip_ws(b, i), i <= skip_ws(b, i) <= b.len(),
    decreases b.len() - i
{ if i < b.len() && is_ws(b[i]) { skip_ws_twice(b, i + 1); } }

pub open spec fn too_deep(c: Cx, dep: int, d: int) -> bool { c.lim && dep > d }

pub proof fn value_thm<'a, D: ParseDelegate<'a>>(c: Cx, i: int, d: int, s: D::GS)
    requires 0 <= i <= c.b.len() <= max_len(), c.lim ==> d >= 0, honest::<D>(),
    ensures ({ let x = run_value::<D>(c, i, d, s);
        match g_value(c, i) {
            Some((t, p)) => i < p <= c.b.len() && if too_deep(c, depth(t), d) { x.r is Err } else {
                fed_as::<D>(x, feed_value::<D>(s, t), p)
                && (feed_value::<D>(s, t).1 is Ok ==> D::frame(s, x.s) && D::v_ok(x.s, (x.r->Ok_0).0)) },
            None => x.r is Err,
        } })
    decreases c.b.len() - i, 1int
{
    lex_bounds(c.b, i, c.g);
    law_leaf_all::<D>(s);
    if let Lex::Tok(t, p) = lex(c.b, i, c.g) {
        if t is Obj {
            let (s1, r) = D::f_obj(s);
            D::law_begin(s);
            if r is Ok {
                if !(c.lim && d <= 0) { members_thm::<D>(c, p, less(c, d), s, s1, r->Ok_0, 0); }
                else if g_members(c, p, true) is Some { g_members_bounds(c, p, true); depthm_nonneg((g_members(c, p, true)->0).0); }
            } else if g_members(c, p, true) is Some { g_members_bounds(c, p, true); depthm_nonneg((g_members(c, p, true)->0).0); }
        }
        if t is Arr {
            let (s1, r) = D::f_arr(s);
            D::law_begin(s);
            if r is Ok {
                if !(c.lim && d <= 0) { elems_thm::<D>(c, p, p, less(c, d), s, s1, r->Ok_0, 0); }
                else if g_elems(c, p, true) is Some { g_elems_bounds(c, p, true); depths_nonneg((g_elems(c, p, true)->0).0); }
            } else if g_elems(c, p, true) is Some { g_elems_bounds(c, p, true); depths_nonneg((g_elems(c, p, true)->0).0); }
        }
    }
}
#[verifier::rlimit(60)]
#[verifier::spinoff_prover]
pub proof fn members_thm<'a, D: ParseDelegate<'a>>(c: Cx, i: int, d: int, s0: D::GS, s: D::GS, o: D::GO, n: int)
    requires 0 <= i <= c.b.len() <= max_len(), c.lim ==> d >= 0, honest::<D>(), D::o_ok(s0, s, o, n), 0 <= n <= i,
    ensures ({ let x = run_members::<D>(c, i, d, s, o);
        match g_members(c, i, n == 0) {
            Some((m, p)) => i < p <= c.b.len() && if too_deep(c, depthm(m), d) { x.r is Err } else {
                fed_as::<D>(x, feed_members::<D>(s, o, m), p)
                && (feed_members::<D>(s, o, m).1 is Ok ==> D::frame(s0, x.s) && D::v_ok(x.s, (x.r->Ok_0).0)) },
            None => x.r is Err,
        } })
    decreases c.b.len() - i, 2int
{
    lex_bounds(c.b, i, c.g);
    D::law_end(s0, s, o, arbitrary(), n);
    if let Lex::Tok(Tok::Str(k), p) = lex(c.b, i, c.g) {
        let (s1, o1, r) = D::f_key(s, o, k);
        lex_bounds(c.b, p, c.g);
        if g_members(c, i, n == 0) is Some { g_members_bounds(c, i, n == 0); }
        if let Lex::Tok(Tok::Colon, q) = lex(c.b, p, c.g) {
            if g_value(c, q) is Some { g_value_bounds(c, q); depth_nonneg((g_value(c, q)->0).0); }
            if r is Ok {
                D::law_key(s0, s, o, n, k);
                value_thm::<D>(c, q, d, s1);
                let x = run_value::<D>(c, q, d, s1);
                if x.r is Ok {
                    let (v, e) = x.r->Ok_0;
                    let (s2, o2, r2) = D::f_mem(x.s, o1, r->Ok_0, v);
                    D::law_frame(s0, s1, x.s, o1, arbitrary(), r->Ok_0, n);
                    lex_bounds(c.b, e, c.g);
                    if r2 is Ok {
                        D::law_mem(s0, x.s, o1, n, r->Ok_0, v);
                        D::law_end(s0, s2, o2, arbitrary(), n + 1);
                        if let Lex::Tok(Tok::Comma, z) = lex(c.b, e, c.g) { members_thm::<D>(c, z, d, s0, s2, o2, n + 1); }
                    }
                }
            }
            if let Some((t, e)) = g_value(c, q) {
                lex_bounds(c.b, e, c.g);
                if let Lex::Tok(Tok::Comma, z) = lex(c.b, e, c.g) {
                    if let Some((m, y)) = g_members(c, z, false) {
                        depthm_nonneg(m);
                        feed_members_cons::<D>(s, o, k, t, m);
                    }
                }
                feed_members_cons::<D>(s, o, k, t, Seq::empty());
                assert(depthm(Seq::<(JS, Tree)>::empty()) == 0);
            }
        }
    }
}
#[verifier::rlimit(60)]
pub proof fn elems_thm<'a, D: ParseDelegate<'a>>(c: Cx, i0: int, i: int, d: int, s0: D::GS, s: D::GS, o: D::GA, n: int)
    requires 0 <= i <= c.b.len() <= max_len(), c.lim ==> d >= 0, honest::<D>(), D::a_ok(s0, s, o, n), 0 <= n <= i,
    ensures ({ let x = run_elems::<D>(c, i0, i, d, s, o);
        match g_elems(c, i, n == 0) {
            Some((m, p)) => i < p <= c.b.len() && if too_deep(c, depths(m), d) { x.r is Err } else {
                fed_as::<D>(x, feed_elems::<D>(s, o, m), p)
                && (feed_elems::<D>(s, o, m).1 is Ok ==> D::frame(s0, x.s) && D::v_ok(x.s, (x.r->Ok_0).0)) },
            None => x.r is Err,
        } })
    decreases c.b.len() - i, 2int
{
    lex_bounds(c.b, i, c.g);
    skip_ws_twice(c.b, i);
    let w = skip_ws(c.b, i);
    D::law_end(s0, s, arbitrary(), o, n);
    if at(c.b, w, 0x5d) {
        assert(lex(c.b, i, c.g) == Lex::Tok(Tok::ArrEnd, w + 1));
    } else {
        arr_end_at(c.b, w, c.g);
        if g_elems(c, i, n == 0) is Some { g_elems_bounds(c, i, n == 0); }
        same_lex(c, i);
        if g_value(c, i) is Some { g_value_bounds(c, i); depth_nonneg((g_value(c, i)->0).0); }
        value_thm::<D>(c, w, d, s);
        let x = run_value::<D>(c, w, d, s);
        if x.r is Ok {
            let (v, e) = x.r->Ok_0;
            let (s2, o2, r2) = D::f_elem(x.s, o, v);
            D::law_frame(s0, s, x.s, arbitrary(), o, arbitrary(), n);
            lex_bounds(c.b, e, c.g);
            if r2 is Ok {
                D::law_elem(s0, x.s, o, n, v);
                D::law_end(s0, s2, arbitrary(), o2, n + 1);
                if let Lex::Tok(Tok::Comma, z) = lex(c.b, e, c.g) { elems_thm::<D>(c, i0, z, d, s0, s2, o2, n + 1); }
            }
        }
        if let Some((t, e)) = g_value(c, i) {
            lex_bounds(c.b, e, c.g);
            if let Lex::Tok(Tok::Comma, z) = lex(c.b, e, c.g) {
                if let Some((m, y)) = g_elems(c, z, false) {
                    depths_nonneg(m);
                    feed_elems_cons::<D>(s, o, t, m);
                }
            }
            feed_elems_cons::<D>(s, o, t, Seq::empty());
            assert(depths(Seq::<Tree>::empty()) == 0);
        }
    }
}
pub proof fn arr_end_at(b: Seq<u8>, w: int, g: bool)
    ensures !at(b, w, 0x5d) ==> !(lex_at(b, w, g) matches Lex::Tok(Tok::ArrEnd, _)),
{ lex_at_not_arr_end(b, w, g); }
pub proof fn lex_at_not_arr_end(b: Seq<u8>, w: int, g: bool)
    requires true,
    ensures !at(b, w, 0x5d) ==> !(lex_at(b, w, g) matches Lex::Tok(Tok::ArrEnd, _)),
{
    word_tok(b, w + 1, w_rue(), 0, Tok::Bool(true)); word_tok(b, w + 1, w_alse(), 0, Tok::Bool(false)); word_tok(b, w + 1, w_ull(), 0, Tok::Null);
}
pub proof fn word_tok(b: Seq<u8>, i: int, w: Seq<u8>, k: int, t: Tok)
    ensures word(b, i, w, k, t) matches Lex::Tok(u, _) ==> u == t,
    decreases w.len() - k
{ if 0 <= k < w.len() { word_tok(b, i + 1, w, k + 1, t); } }
/// leading whitespace does not matter
pub proof fn same_lex(c: Cx, i: int)
    requires 0 <= i <= c.b.len(),
    ensures g_value(c, skip_ws(c.b, i)) == g_value(c, i),
{
    skip_ws_twice(c.b, i);
    lex_bounds(c.b, i, c.g);
    lex_bounds(c.b, skip_ws(c.b, i), c.g);
}
pub proof fn feed_members_cons<'a, D: ParseDelegate<'a>>(s: D::GS, o: D::GO, k: JS, t: Tree, m: Seq<(JS, Tree)>)
    ensures
        depthm(seq![(k, t)] + m) == if depth(t) > depthm(m) { depth(t) } else { depthm(m) },
        feed_members::<D>(s, o, seq![(k, t)] + m) == ({
            let (s1, o1, r) = D::f_key(s, o, k);
            match r { Err(e) => (s1, Err(e)), Ok(k) => {
                let (s2, r) = feed_value::<D>(s1, t);
                match r { Err(e) => (s2, Err(e)), Ok(v) => {
                    let (s3, o3, r) = D::f_mem(s2, o1, k, v);
                    match r { Err(e) => (s3, Err(e)), Ok(_) => feed_members::<D>(s3, o3, m) }
                } }
            } } }),
{ let a = seq![(k, t)] + m; assert(a[0] == (k, t)); assert(a.drop_first() =~= m); }
pub proof fn feed_elems_cons<'a, D: ParseDelegate<'a>>(s: D::GS, o: D::GA, t: Tree, m: Seq<Tree>)
    ensures
        depths(seq![t] + m) == if depth(t) > depths(m) { depth(t) } else { depths(m) },
        feed_elems::<D>(s, o, seq![t] + m) == ({
            let (s2, r) = feed_value::<D>(s, t);
            match r { Err(e) => (s2, Err(e)), Ok(v) => {
                let (s3, a3, r) = D::f_elem(s2, o, v);
                match r { Err(e) => (s3, Err(e)), Ok(_) => feed_elems::<D>(s3, a3, m) }
            } } }),
{ let a = seq![t] + m; assert(a[0] == t); assert(a.drop_first() =~= m); }
pub proof fn depth_nonneg(t: Tree) ensures depth(t) >= 0 { match t { Tree::Arr(s) => depths_nonneg(s), Tree::Obj(s) => depthm_nonneg(s), _ => {} } }
pub proof fn depths_nonneg(s: Seq<Tree>) ensures depths(s) >= 0 decreases s.len() { if s.len() > 0 { depths_nonneg(s.drop_first()); } }
pub proof fn depthm_nonneg(s: Seq<(JS, Tree)>) ensures depthm(s) >= 0 decreases s.len() { if s.len() > 0 { depthm_nonneg(s.drop_first()); } }

pub proof fn g_value_bounds(c: Cx, i: int)
    requires 0 <= i <= c.b.len(),
    ensures g_value(c, i) matches Some((_, p)) ==> i < p <= c.b.len(),
    decreases c.b.len() - i, 1int
{
    lex_bounds(c.b, i, c.g);
    if let Lex::Tok(t, p) = lex(c.b, i, c.g) { g_members_bounds(c, p, true); g_elems_bounds(c, p, true); }
}
pub proof fn g_members_bounds(c: Cx, i: int, first: bool)
    requires 0 <= i <= c.b.len(),
    ensures g_members(c, i, first) matches Some((_, p)) ==> i < p <= c.b.len(),
    decreases c.b.len() - i, 2int
{
    lex_bounds(c.b, i, c.g);
    if let Lex::Tok(Tok::Str(k), p) = lex(c.b, i, c.g) {
        lex_bounds(c.b, p, c.g);
        if let Lex::Tok(Tok::Colon, q) = lex(c.b, p, c.g) {
            g_value_bounds(c, q);
            if let Some((v, r)) = g_value(c, q) {
                lex_bounds(c.b, r, c.g);
                if let Lex::Tok(Tok::Comma, e) = lex(c.b, r, c.g) { g_members_bounds(c, e, false); }
            }
        }
    }
}
pub proof fn g_elems_bounds(c: Cx, i: int, first: bool)
    requires 0 <= i <= c.b.len(),
    ensures g_elems(c, i, first) matches Some((_, p)) ==> i < p <= c.b.len(),
    decreases c.b.len() - i, 2int
{
    lex_bounds(c.b, i, c.g);
    g_value_bounds(c, i);
    if let Some((v, r)) = g_value(c, i) {
        lex_bounds(c.b, r, c.g);
        if let Lex::Tok(Tok::Comma, e) = lex(c.b, r, c.g) { g_elems_bounds(c, e, false); }
    }
}
}

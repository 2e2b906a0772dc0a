// The input as bytes and as text (C03); what the settings of the parser change (C10, C16); tokens (C13).
#[allow(unused_imports)] use vstd::prelude::*;
use vstd::utf8::*;
use crate::error::*;
use crate::parser::*;
use crate::spec::*;
use crate::views::*;
use crate::lemmas::*;
use crate::run::*;
use crate::grammar::*;
use crate::strings::*;
use crate::roundtrip::*;
use crate::theorems::*;
verus! {
// ------------------------------------------------------------------ UTF-8 from a place on
/// from `i` on, the input is UTF-8
pub open spec fn sfx(b: Seq<u8>, i: int) -> bool { 0 <= i <= b.len() && valid_utf8(b.subrange(i, b.len() as int)) }
/// from `i` to `j`, the input is UTF-8
pub open spec fn vu(b: Seq<u8>, i: int, j: int) -> bool { 0 <= i <= j <= b.len() && valid_utf8(b.subrange(i, j)) }
pub proof fn vu_add(b: Seq<u8>, i: int, j: int, k: int)
    requires vu(b, i, j), vu(b, j, k),
    ensures vu(b, i, k),
{ valid_utf8_concat(b.subrange(i, j), b.subrange(j, k)); assert(b.subrange(i, j) + b.subrange(j, k) =~= b.subrange(i, k)); }
pub proof fn vu_ascii(b: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= b.len(), forall|q: int| i <= q < j ==> #[trigger] b[q] < 128,
    ensures vu(b, i, j),
{ let s = b.subrange(i, j); assert forall|q: int| 0 <= q < s.len() implies #[trigger] s[q] < 128 by { assert(s[q] == b[i + q]); } ascii_seq_valid(s); }
pub proof fn sfx_run(b: Seq<u8>, i: int, j: int)
    requires sfx(b, i), i <= j <= b.len(), forall|q: int| i <= q < j ==> #[trigger] b[q] < 128,
    ensures sfx(b, j),
    decreases j - i
{
    if i < j {
        let s = b.subrange(i, b.len() as int);
        after_ascii(s, 0);
        assert(s.subrange(1, s.len() as int) =~= b.subrange(i + 1, b.len() as int));
        sfx_run(b, i + 1, j);
    }
}
pub proof fn sfx_high(b: Seq<u8>, i: int)
    requires sfx(b, i),
    ensures sfx(b, high_end(b, i)), vu(b, i, high_end(b, i)),
{
    let h = high_end(b, i);
    high_end_bounds(b, i);
    let s = b.subrange(i, b.len() as int);
    if h < b.len() {
        before_ascii(s, h - i);
        assert(s.subrange(0, h - i) =~= b.subrange(i, h));
        assert(s.subrange(h - i, s.len() as int) =~= b.subrange(h, b.len() as int));
    } else { assert(b.subrange(h, h) =~= Seq::<u8>::empty()); assert(valid_utf8(Seq::<u8>::empty())); }
}
/// on text, the check for UTF-8 changes nothing
pub proof fn scan_text(b: Seq<u8>, i: int)
    requires sfx(b, i),
    ensures scan(b, i, true) == scan(b, i, false), scan(b, i, true) matches Scan::Done(e, _, _) ==> sfx(b, e + 1) && e < b.len(),
    decreases b.len() - i
{
    scan_bounds(b, i, true);
    if i < b.len() {
        if b[i] == 0x22 { sfx_run(b, i, i + 1); }
        else if b[i] == 0x5c {
            esc_bounds(b, i + 1);
            if esc(b, i + 1) is Ok { let z = esc(b, i + 1)->Ok_0; crate::lemmas::esc_ascii(b, i + 1); sfx_run(b, i, z); scan_text(b, z); }
        } else if b[i] < 0x20 {
        } else if b[i] >= 0x80 {
            let h = high_end(b, i);
            high_end_bounds(b, i); sfx_high(b, i); scan_high(b, i, h); scan_text(b, h);
        } else { sfx_run(b, i, i + 1); scan_text(b, i + 1); }
    }
}
/// what is read with the check is UTF-8, and decodes to no more bytes than it has
pub proof fn scan_valid(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len(), scan(b, i, false) is Done,
    ensures vu(b, i, scan(b, i, false)->Done_0), scan(b, i, false)->Done_1.len() <= scan(b, i, false)->Done_0 - i,
    decreases b.len() - i
{
    scan_bounds(b, i, false);
    let e = scan(b, i, false)->Done_0;
    if b[i] == 0x22 { vu_ascii(b, i, i); }
    else if b[i] == 0x5c {
        let z = esc(b, i + 1)->Ok_0;
        esc_bounds(b, i + 1); esc_len(b, i + 1); crate::lemmas::esc_ascii(b, i + 1); scan_valid(b, z); vu_ascii(b, i, z); vu_add(b, i, z, e);
    } else if b[i] >= 0x80 {
        let h = high_end(b, i);
        high_end_bounds(b, i); scan_valid(b, h); vu_add(b, i, h, e);
    } else { scan_valid(b, i + 1); vu_ascii(b, i, i + 1); vu_add(b, i, i + 1, e); }
}
pub proof fn hexn_small(b: Seq<u8>, i: int, k: nat, acc: int, m: int)
    requires 0 <= acc < m, hexn(b, i, k, acc) is Ok, 0 <= i, k <= 4, m > 0,
    ensures hexn(b, i, k, acc)->Ok_0 < m * exp16(k as int), hexn(b, i, k, acc)->Ok_0 >= 0,
    decreases k
{ if k > 0 { hexn_small(b, i + 1, (k - 1) as nat, acc * 16 + hexval(b[i]), m * 16); assert(m * 16 * exp16(k - 1) == m * exp16(k as int)) by (nonlinear_arith) requires exp16(k as int) == 16 * exp16(k - 1); } }
pub proof fn esc_len(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len(), esc(b, i) is Ok,
    ensures encode_utf8(seq![esc(b, i)->Ok_1]).len() <= esc(b, i)->Ok_0 - i,
{
    esc_bounds(b, i);
    let c = esc(b, i)->Ok_1;
    enc1(c);
    if short_escape(b[i]) is None { hexn_small(b, i + 1, 4, 0, 1); }
}
/// what a token holds is what it says it is
pub open spec fn tok_ok(t: Tok) -> bool { match t { Tok::Str(j) => js_ok(j), Tok::Num(n) => num_ok(n) && valid_utf8(n), _ => true } }
pub proof fn word_read(b: Seq<u8>, i: int, w: Seq<u8>, k: int, t: Tok)
    requires 0 <= i <= b.len(), 0 <= k <= w.len(), forall|q: int| 0 <= q < w.len() ==> #[trigger] w[q] < 128,
    ensures word(b, i, w, k, t) matches Lex::Tok(_, e) ==> i <= e <= b.len() && forall|q: int| i <= q < e ==> #[trigger] b[q] < 128,
    decreases w.len() - k
{ if k < w.len() && i < b.len() && b[i] == w[k] { word_read(b, i + 1, w, k + 1, t); word_bounds(b, i + 1, w, k + 1, t); } }
pub open spec fn low(b: Seq<u8>, w: int, l: Lex) -> bool { l matches Lex::Tok(_, e) ==> w < e <= b.len() && forall|q: int| w <= q < e ==> #[trigger] b[q] < 128 }
pub proof fn words_read(b: Seq<u8>, i: int)
    requires 0 <= i < b.len(), b[i] < 128,
    ensures low(b, i, word(b, i + 1, w_rue(), 0, Tok::Bool(true))), low(b, i, word(b, i + 1, w_alse(), 0, Tok::Bool(false))), low(b, i, word(b, i + 1, w_ull(), 0, Tok::Null)),
{
    word_read(b, i + 1, w_rue(), 0, Tok::Bool(true)); word_read(b, i + 1, w_alse(), 0, Tok::Bool(false)); word_read(b, i + 1, w_ull(), 0, Tok::Null);
}
/// a token, on text: with or without the check it is the same
pub proof fn lex_text(b: Seq<u8>, i: int)
    requires sfx(b, i),
    ensures lex(b, i, true) == lex(b, i, false), lex(b, i, true) matches Lex::Tok(_, p) ==> i < p && sfx(b, p),
        sfx(b, skip_ws(b, i)),
{
    lex_bounds(b, i, true);
    skip_ws_bounds(b, i);
    let w = skip_ws(b, i);
    assert forall|q: int| i <= q < w implies #[trigger] b[q] < 128 by { assert(is_ws(b[q])); }
    sfx_run(b, i, w);
    if let Lex::Tok(t, p) = lex(b, w, true) { lex_at_read(b, w, true); }
    if w < b.len() && b[w] == 0x22 { sfx_run(b, w, w + 1); scan_text(b, w + 1); }
    else if lex(b, i, true) is Tok { lex_at_read(b, w, true); sfx_run(b, w, lex(b, i, true)->Tok_1); }
}
/// all tokens but strings are ASCII
pub proof fn lex_at_read(b: Seq<u8>, w: int, g: bool)
    requires 0 <= w <= b.len(),
    ensures lex_at(b, w, g) matches Lex::Tok(t, p) ==> w < p <= b.len() && (b[w] != 0x22 ==> forall|q: int| w <= q < p ==> #[trigger] b[q] < 128),
{
    lex_at_bounds(b, w, g);
    if w < b.len() && b[w] < 128 {
        num_bounds(b, w); words_read(b, w);
    }
}
pub proof fn lex_valid(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len() <= max_len(),
    ensures lex(b, i, false) matches Lex::Tok(t, p) ==> vu(b, i, p) && tok_ok(t),
{
    if let Lex::Tok(t, p) = lex(b, i, false) {
        skip_ws_bounds(b, i);
        let w = skip_ws(b, i);
        assert forall|q: int| i <= q < w implies #[trigger] b[q] < 128 by { assert(is_ws(b[q])); }
        vu_ascii(b, i, w);
        lex_at_read(b, w, false);
        if b[w] == 0x22 {
            let e = scan(b, w + 1, false)->Done_0;
            scan_bounds(b, w + 1, false); scan_valid(b, w + 1); scan_lit(b, w + 1, false);
            vu_ascii(b, w, w + 1); vu_ascii(b, e, e + 1); vu_add(b, i, w, w + 1); vu_add(b, i, w + 1, e); vu_add(b, i, e, e + 1);
        } else {
            vu_ascii(b, w, p); vu_add(b, i, w, p);
            if b[w] == 0x74 { word_bounds(b, w + 1, w_rue(), 0, Tok::Bool(true)); }
            if b[w] == 0x66 { word_bounds(b, w + 1, w_alse(), 0, Tok::Bool(false)); }
            if b[w] == 0x6e { word_bounds(b, w + 1, w_ull(), 0, Tok::Null); }
            if t is Num { num_cut(b, w, p); }
        }
    }
}

// ------------------------------------------------------------------ C03: values are read from UTF-8 only
pub proof fn g_value_valid(c: Cx, i: int)
    requires !c.g, 0 <= i <= c.b.len() <= max_len(),
    ensures g_value(c, i) matches Some((t, p)) ==> vu(c.b, i, p) && tree_ok(t),
    decreases c.b.len() - i, 1int
{
    lex_bounds(c.b, i, c.g); lex_valid(c.b, i);
    if let Lex::Tok(t, p) = lex(c.b, i, c.g) {
        if t == Tok::Obj {
            g_members_valid(c, p, true); g_members_bounds(c, p, true);
            if let Some((m, q)) = g_members(c, p, true) { members_ok_all(m, 0); vu_add(c.b, i, p, q); }
        }
        if t == Tok::Arr {
            g_elems_valid(c, p, true); g_elems_bounds(c, p, true);
            if let Some((m, q)) = g_elems(c, p, true) { elems_ok_all(m, 0); vu_add(c.b, i, p, q); }
        }
    }
}
pub proof fn g_members_valid(c: Cx, i: int, first: bool)
    requires !c.g, 0 <= i <= c.b.len() <= max_len(),
    ensures g_members(c, i, first) matches Some((m, p)) ==> vu(c.b, i, p) && forall|k: int| 0 <= k < m.len() ==> js_ok((#[trigger] m[k]).0) && tree_ok(m[k].1),
    decreases c.b.len() - i, 2int
{
    hide(js_ok); hide(tree_ok); hide(lex); hide(vu);
    if let Some((m, z)) = g_members(c, i, first) {
        lex_bounds(c.b, i, c.g); lex_valid(c.b, i);
        if let Lex::Tok(Tok::Str(k), p) = lex(c.b, i, c.g) {
            lex_bounds(c.b, p, c.g); lex_valid(c.b, p);
            let q = lex(c.b, p, c.g)->Tok_1;
            g_value_bounds(c, q); g_value_valid(c, q);
            let (v, r) = g_value(c, q)->0;
            lex_bounds(c.b, r, c.g); lex_valid(c.b, r);
            let e = lex(c.b, r, c.g)->Tok_1;
            vu_add(c.b, i, p, q); vu_add(c.b, i, q, r); vu_add(c.b, i, r, e);
            if lex(c.b, r, c.g)->Tok_0 == Tok::Comma {
                g_members_bounds(c, e, false); g_members_valid(c, e, false);
                let m1 = (g_members(c, e, false)->0).0;
                vu_add(c.b, i, e, z);
                assert forall|x: int| 0 <= x < m.len() implies js_ok((#[trigger] m[x]).0) && tree_ok(m[x].1) by { if x > 0 { assert(m[x] == m1[x - 1]); } }
            }
        }
    }
}
pub proof fn g_elems_valid(c: Cx, i: int, first: bool)
    requires !c.g, 0 <= i <= c.b.len() <= max_len(),
    ensures g_elems(c, i, first) matches Some((m, p)) ==> vu(c.b, i, p) && forall|k: int| 0 <= k < m.len() ==> tree_ok(#[trigger] m[k]),
    decreases c.b.len() - i, 2int
{
    hide(js_ok); hide(tree_ok); hide(lex); hide(vu);
    if let Some((m, z)) = g_elems(c, i, first) {
        lex_bounds(c.b, i, c.g); lex_valid(c.b, i);
        let closed = lex(c.b, i, c.g) matches Lex::Tok(t, _) && t == Tok::ArrEnd;
        if !closed {
            g_value_bounds(c, i); g_value_valid(c, i);
            let (v, r) = g_value(c, i)->0;
            lex_bounds(c.b, r, c.g); lex_valid(c.b, r);
            let e = lex(c.b, r, c.g)->Tok_1;
            vu_add(c.b, i, r, e);
            if lex(c.b, r, c.g)->Tok_0 == Tok::Comma {
                g_elems_bounds(c, e, false); g_elems_valid(c, e, false);
                let m1 = (g_elems(c, e, false)->0).0;
                vu_add(c.b, i, e, z);
                assert forall|x: int| 0 <= x < m.len() implies tree_ok(#[trigger] m[x]) by { if x > 0 { assert(m[x] == m1[x - 1]); } }
            }
        }
    }
}
/// C03, C04: what is accepted from bytes is UTF-8, and every string and number of it is well-formed
pub proof fn accepted_valid(b: Seq<u8>, cfg: ParseConfig)
    requires b.len() <= max_len(),
    ensures accepted(b, false, cfg) matches Some(t) ==> valid_utf8(b) && tree_ok(t),
{
    let c = cx(b, false, cfg);
    if let Some((t, p)) = g_value(c, 0) {
        g_value_bounds(c, 0); g_value_valid(c, 0);
        skip_ws_bounds(b, p);
        if skip_ws(b, p) == b.len() {
            assert forall|q: int| p <= q < b.len() implies #[trigger] b[q] < 128 by { assert(is_ws(b[q])); }
            vu_ascii(b, p, b.len() as int); vu_add(b, 0, p, b.len() as int);
            assert(b.subrange(0, b.len() as int) =~= b);
        }
    }
}

// ------------------------------------------------------------------ C03: text is read as its bytes are
pub open spec fn checked(c: Cx) -> Cx { Cx { g: false, ..c } }
pub proof fn text_value<'a, D: ParseDelegate<'a>>(c: Cx, i: int, d: int, s: D::GS)
    requires c.g, sfx(c.b, i),
    ensures run_value::<D>(c, i, d, s) == run_value::<D>(checked(c), i, d, s), run_value::<D>(c, i, d, s).r matches Ok((_, p)) ==> i < p && sfx(c.b, p),
    decreases c.b.len() - i, 1int
{
    hide(lex);
    lex_text(c.b, i); lex_bounds(c.b, i, true);
    if let Lex::Tok(t, p) = lex(c.b, i, true) {
        if t == Tok::Obj { text_object::<D>(c, p, less(c, d), s); }
        if t == Tok::Arr { text_array::<D>(c, p, less(c, d), s); }
    }
}
pub proof fn text_object<'a, D: ParseDelegate<'a>>(c: Cx, i: int, d: int, s: D::GS)
    requires c.g, sfx(c.b, i),
    ensures run_object::<D>(c, i, d, s) == run_object::<D>(checked(c), i, d, s), run_object::<D>(c, i, d, s).r matches Ok((_, p)) ==> i < p && sfx(c.b, p),
    decreases c.b.len() - i, 3int
{ let (s1, r) = D::f_obj(s); if let Ok(o) = r { text_members::<D>(c, i, d, s1, o); } }
pub proof fn text_members<'a, D: ParseDelegate<'a>>(c: Cx, i: int, d: int, s: D::GS, o: D::GO)
    requires c.g, sfx(c.b, i),
    ensures run_members::<D>(c, i, d, s, o) == run_members::<D>(checked(c), i, d, s, o), run_members::<D>(c, i, d, s, o).r matches Ok((_, p)) ==> i < p && sfx(c.b, p),
    decreases c.b.len() - i, 2int
{
    hide(lex);
    lex_text(c.b, i); lex_bounds(c.b, i, true);
    if let Lex::Tok(Tok::Str(k), p) = lex(c.b, i, true) {
        let (s1, o1, r) = D::f_key(s, o, k);
        if let Ok(k) = r { text_colon::<D>(c, p, d, s1, o1, k); }
    }
}
pub proof fn text_colon<'a, D: ParseDelegate<'a>>(c: Cx, i: int, d: int, s: D::GS, o: D::GO, k: D::GK)
    requires c.g, sfx(c.b, i),
    ensures run_colon::<D>(c, i, d, s, o, k) == run_colon::<D>(checked(c), i, d, s, o, k), run_colon::<D>(c, i, d, s, o, k).r matches Ok((_, p)) ==> i < p && sfx(c.b, p),
    decreases c.b.len() - i, 2int
{
    hide(lex);
    lex_text(c.b, i); lex_bounds(c.b, i, true);
    if let Lex::Tok(Tok::Colon, p) = lex(c.b, i, true) {
        text_value::<D>(c, p, d, s);
        let x = run_value::<D>(c, p, d, s);
        if let Ok((v, q)) = x.r {
            let (s2, o2, r) = D::f_mem(x.s, o, k, v);
            if r is Ok { text_next_member::<D>(c, q, d, s2, o2); }
        }
    }
}
pub proof fn text_next_member<'a, D: ParseDelegate<'a>>(c: Cx, i: int, d: int, s: D::GS, o: D::GO)
    requires c.g, sfx(c.b, i),
    ensures run_next_member::<D>(c, i, d, s, o) == run_next_member::<D>(checked(c), i, d, s, o), run_next_member::<D>(c, i, d, s, o).r matches Ok((_, p)) ==> i < p && sfx(c.b, p),
    decreases c.b.len() - i, 2int
{
    hide(lex);
    lex_text(c.b, i); lex_bounds(c.b, i, true);
    if let Lex::Tok(Tok::Comma, p) = lex(c.b, i, true) { text_members::<D>(c, p, d, s, o); }
}
pub proof fn text_array<'a, D: ParseDelegate<'a>>(c: Cx, i: int, d: int, s: D::GS)
    requires c.g, sfx(c.b, i),
    ensures run_array::<D>(c, i, d, s) == run_array::<D>(checked(c), i, d, s), run_array::<D>(c, i, d, s).r matches Ok((_, p)) ==> i < p && sfx(c.b, p),
    decreases c.b.len() - i, 4int
{ let (s1, r) = D::f_arr(s); if let Ok(a) = r { text_elems::<D>(c, i, i, d, s1, a); } }
pub proof fn text_elems<'a, D: ParseDelegate<'a>>(c: Cx, i0: int, i: int, d: int, s: D::GS, a: D::GA)
    requires c.g, sfx(c.b, i),
    ensures run_elems::<D>(c, i0, i, d, s, a) == run_elems::<D>(checked(c), i0, i, d, s, a), run_elems::<D>(c, i0, i, d, s, a).r matches Ok((_, p)) ==> i < p && sfx(c.b, p),
    decreases c.b.len() - i, 3int
{
    hide(lex);
    lex_text(c.b, i);
    let w = skip_ws(c.b, i);
    skip_ws_bounds(c.b, i);
    if at(c.b, w, 0x5d) { sfx_run(c.b, w, w + 1); }
    else {
        text_value::<D>(c, w, d, s);
        let x = run_value::<D>(c, w, d, s);
        if let Ok((v, q)) = x.r {
            let (s2, a2, r) = D::f_elem(x.s, a, v);
            if r is Ok { text_next_elem::<D>(c, i0, q, d, s2, a2); }
        }
    }
}
pub proof fn text_next_elem<'a, D: ParseDelegate<'a>>(c: Cx, i0: int, i: int, d: int, s: D::GS, a: D::GA)
    requires c.g, sfx(c.b, i),
    ensures run_next_elem::<D>(c, i0, i, d, s, a) == run_next_elem::<D>(checked(c), i0, i, d, s, a), run_next_elem::<D>(c, i0, i, d, s, a).r matches Ok((_, p)) ==> i < p && sfx(c.b, p),
    decreases c.b.len() - i, 2int
{
    hide(lex);
    lex_text(c.b, i); lex_bounds(c.b, i, true);
    if let Lex::Tok(Tok::Comma, p) = lex(c.b, i, true) { text_elems::<D>(c, i0, p, d, s, a); }
}
}

verus! {
/// C03: a text and its bytes are read alike, errors included; bytes that are not UTF-8 are refused
pub proof fn bytes_thm<'a, D: ParseDelegate<'a>>(b: Seq<u8>, cfg: ParseConfig, s: D::GS)
    requires b.len() <= max_len(),
    ensures valid_utf8(b) ==> run::<D>(b, true, cfg, s) == run::<D>(b, false, cfg, s),
        !valid_utf8(b) && honest::<D>() && (!cfg.allow_all_types_at_root ==> honest_kind::<D>()) ==> run::<D>(b, false, cfg, s).r is Err,
{
    if valid_utf8(b) {
        assert(b.subrange(0, b.len() as int) =~= b);
        text_value::<D>(cx(b, true, cfg), 0, budget(cfg), s);
    } else if honest::<D>() && (!cfg.allow_all_types_at_root ==> honest_kind::<D>()) {
        accepted_valid(b, cfg);
        run_thm::<D>(b, false, cfg, s);
    }
}
/// the values accepted from a text are those accepted from its bytes; they are well-formed
pub proof fn accepted_thm(b: Seq<u8>, cfg: ParseConfig)
    requires b.len() <= max_len(), valid_utf8(b),
    ensures accepted(b, true, cfg) == accepted(b, false, cfg), accepted(b, true, cfg) matches Some(t) ==> tree_ok(t),
{
    bytes_thm::<crate::value::ValueParser>(b, cfg, ());
    value_parse_thm(b, true, cfg); value_parse_thm(b, false, cfg);
    accepted_valid(b, cfg);
}

// ------------------------------------------------------------------ C10, C16: what the settings change
/// `c1` with `d1` levels left refuses whatever `c2` with `d2` levels left does
pub open spec fn stricter(c1: Cx, d1: int, c2: Cx, d2: int) -> bool {
    &&& c1.b == c2.b && c1.g == c2.g
    &&& c1.tc ==> c2.tc
    &&& c2.lim ==> c1.lim && d1 <= d2
}
/// it fails for one of its own rules: a trailing comma, or a container too many
pub open spec fn refused<'a, D: ParseDelegate<'a>>(c1: Cx, c2: Cx, x: Out<'a, D>) -> bool {
    x.r matches Err((o, k)) && 0 <= o <= c1.b.len() && (
        (!c1.tc && c2.tc && k == ErrorKind::<D::Error>::IllegalTrailingComma)
        || (c1.lim && k == ErrorKind::<D::Error>::RecursionLimitReached
            && (at(c1.b, skip_ws(c1.b, o), 0x7b) || at(c1.b, skip_ws(c1.b, o), 0x5b))))
}
pub proof fn strict_value<'a, D: ParseDelegate<'a>>(c1: Cx, d1: int, c2: Cx, d2: int, i: int, s: D::GS)
    requires stricter(c1, d1, c2, d2), 0 <= i <= c1.b.len(),
    ensures ({ let x = run_value::<D>(c1, i, d1, s);
        (x == run_value::<D>(c2, i, d2, s) || refused(c1, c2, x)) && (x.r matches Ok((_, p)) ==> i < p <= c1.b.len()) }),
    decreases c1.b.len() - i, 1int
{
    lex_bounds(c1.b, i, c1.g); skip_ws_bounds(c1.b, i);
    if let Lex::Tok(t, p) = lex(c1.b, i, c1.g) {
        lex_kind(c1.b, i, c1.g);
        if t == Tok::Obj { strict_object::<D>(c1, less(c1, d1), c2, less(c2, d2), p, s); }
        if t == Tok::Arr { strict_array::<D>(c1, less(c1, d1), c2, less(c2, d2), p, s); }
    }
}
pub proof fn strict_object<'a, D: ParseDelegate<'a>>(c1: Cx, d1: int, c2: Cx, d2: int, i: int, s: D::GS)
    requires stricter(c1, d1, c2, d2), 0 <= i <= c1.b.len(),
    ensures ({ let x = run_object::<D>(c1, i, d1, s);
        (x == run_object::<D>(c2, i, d2, s) || refused(c1, c2, x)) && (x.r matches Ok((_, p)) ==> i < p <= c1.b.len()) }),
    decreases c1.b.len() - i, 3int
{ let (s1, r) = D::f_obj(s); if let Ok(o) = r { strict_members::<D>(c1, d1, c2, d2, i, s1, o); } }
pub proof fn strict_members<'a, D: ParseDelegate<'a>>(c1: Cx, d1: int, c2: Cx, d2: int, i: int, s: D::GS, o: D::GO)
    requires stricter(c1, d1, c2, d2), 0 <= i <= c1.b.len(),
    ensures ({ let x = run_members::<D>(c1, i, d1, s, o);
        (x == run_members::<D>(c2, i, d2, s, o) || refused(c1, c2, x)) && (x.r matches Ok((_, p)) ==> i < p <= c1.b.len()) }),
    decreases c1.b.len() - i, 2int
{
    hide(lex);
    lex_bounds(c1.b, i, c1.g);
    if let Lex::Tok(Tok::Str(k), p) = lex(c1.b, i, c1.g) {
        let (s1, o1, r) = D::f_key(s, o, k);
        if let Ok(k) = r { strict_colon::<D>(c1, d1, c2, d2, p, s1, o1, k); }
    }
}
pub proof fn strict_colon<'a, D: ParseDelegate<'a>>(c1: Cx, d1: int, c2: Cx, d2: int, i: int, s: D::GS, o: D::GO, k: D::GK)
    requires stricter(c1, d1, c2, d2), 0 <= i <= c1.b.len(),
    ensures ({ let x = run_colon::<D>(c1, i, d1, s, o, k);
        (x == run_colon::<D>(c2, i, d2, s, o, k) || refused(c1, c2, x)) && (x.r matches Ok((_, p)) ==> i < p <= c1.b.len()) }),
    decreases c1.b.len() - i, 2int
{
    hide(lex);
    lex_bounds(c1.b, i, c1.g);
    if let Lex::Tok(Tok::Colon, p) = lex(c1.b, i, c1.g) {
        strict_value::<D>(c1, d1, c2, d2, p, s);
        let x = run_value::<D>(c1, p, d1, s);
        if let Ok((v, q)) = x.r {
            let (s2, o2, r) = D::f_mem(x.s, o, k, v);
            if r is Ok { strict_next_member::<D>(c1, d1, c2, d2, q, s2, o2); }
        }
    }
}
pub proof fn strict_next_member<'a, D: ParseDelegate<'a>>(c1: Cx, d1: int, c2: Cx, d2: int, i: int, s: D::GS, o: D::GO)
    requires stricter(c1, d1, c2, d2), 0 <= i <= c1.b.len(),
    ensures ({ let x = run_next_member::<D>(c1, i, d1, s, o);
        (x == run_next_member::<D>(c2, i, d2, s, o) || refused(c1, c2, x)) && (x.r matches Ok((_, p)) ==> i < p <= c1.b.len()) }),
    decreases c1.b.len() - i, 2int
{
    hide(lex);
    lex_bounds(c1.b, i, c1.g);
    if let Lex::Tok(Tok::Comma, p) = lex(c1.b, i, c1.g) { strict_members::<D>(c1, d1, c2, d2, p, s, o); }
}
pub proof fn strict_array<'a, D: ParseDelegate<'a>>(c1: Cx, d1: int, c2: Cx, d2: int, i: int, s: D::GS)
    requires stricter(c1, d1, c2, d2), 0 <= i <= c1.b.len(),
    ensures ({ let x = run_array::<D>(c1, i, d1, s);
        (x == run_array::<D>(c2, i, d2, s) || refused(c1, c2, x)) && (x.r matches Ok((_, p)) ==> i < p <= c1.b.len()) }),
    decreases c1.b.len() - i, 4int
{ let (s1, r) = D::f_arr(s); if let Ok(a) = r { strict_elems::<D>(c1, d1, c2, d2, i, i, s1, a); } }
pub proof fn strict_elems<'a, D: ParseDelegate<'a>>(c1: Cx, d1: int, c2: Cx, d2: int, i0: int, i: int, s: D::GS, a: D::GA)
    requires stricter(c1, d1, c2, d2), 0 <= i <= c1.b.len(),
    ensures ({ let x = run_elems::<D>(c1, i0, i, d1, s, a);
        (x == run_elems::<D>(c2, i0, i, d2, s, a) || refused(c1, c2, x)) && (x.r matches Ok((_, p)) ==> i < p <= c1.b.len()) }),
    decreases c1.b.len() - i, 3int
{
    let w = skip_ws(c1.b, i);
    skip_ws_bounds(c1.b, i);
    if !at(c1.b, w, 0x5d) {
        strict_value::<D>(c1, d1, c2, d2, w, s);
        let x = run_value::<D>(c1, w, d1, s);
        if let Ok((v, q)) = x.r {
            let (s2, a2, r) = D::f_elem(x.s, a, v);
            if r is Ok { strict_next_elem::<D>(c1, d1, c2, d2, i0, q, s2, a2); }
        }
    }
}
pub proof fn strict_next_elem<'a, D: ParseDelegate<'a>>(c1: Cx, d1: int, c2: Cx, d2: int, i0: int, i: int, s: D::GS, a: D::GA)
    requires stricter(c1, d1, c2, d2), 0 <= i <= c1.b.len(),
    ensures ({ let x = run_next_elem::<D>(c1, i0, i, d1, s, a);
        (x == run_next_elem::<D>(c2, i0, i, d2, s, a) || refused(c1, c2, x)) && (x.r matches Ok((_, p)) ==> i < p <= c1.b.len()) }),
    decreases c1.b.len() - i, 2int
{
    hide(lex);
    lex_bounds(c1.b, i, c1.g);
    if let Lex::Tok(Tok::Comma, p) = lex(c1.b, i, c1.g) { strict_elems::<D>(c1, d1, c2, d2, i0, p, s, a); }
}
/// settings that allow less
pub open spec fn allows_less(a: ParseConfig, b: ParseConfig) -> bool {
    &&& a.allow_trailing_commas ==> b.allow_trailing_commas
    &&& a.allow_all_types_at_root ==> b.allow_all_types_at_root
    &&& b.recursion_limit matches Some(n) ==> (a.recursion_limit matches Some(m) && m <= n)
}
/// C10 and C16: stricter settings change nothing but that some payloads are refused, each with the error of the setting in
/// its way; in particular what is accepted is the same value
pub proof fn config_thm<'a, D: ParseDelegate<'a>>(b: Seq<u8>, g: bool, s: D::GS)
    ensures forall|c1: ParseConfig, c2: ParseConfig| allows_less(c1, c2) ==> ({
        let x = #[trigger] run::<D>(b, g, c1, s); let y = #[trigger] run::<D>(b, g, c2, s);
        x == y || refused(cx(b, g, c1), cx(b, g, c2), x)
            || (!c1.allow_all_types_at_root && x.r == Err::<(D::GV, int), (int, ErrorKind<D::Error>)>((0, ErrorKind::PayloadsShouldBeObjectOrArray)))
    }),
{
    assert forall|c1: ParseConfig, c2: ParseConfig| allows_less(c1, c2) implies ({
        let x = #[trigger] run::<D>(b, g, c1, s); let y = #[trigger] run::<D>(b, g, c2, s);
        x == y || refused(cx(b, g, c1), cx(b, g, c2), x)
            || (!c1.allow_all_types_at_root && x.r == Err::<(D::GV, int), (int, ErrorKind<D::Error>)>((0, ErrorKind::PayloadsShouldBeObjectOrArray)))
    }) by { strict_value::<D>(cx(b, g, c1), budget(c1), cx(b, g, c2), budget(c2), 0, s); }
}
/// C10: with a limit of `n` exactly the values nested deeper than `n` are lost
pub proof fn limit_thm(b: Seq<u8>, g: bool, cfg: ParseConfig, n: usize)
    ensures ({
        let limited = accepted(b, g, ParseConfig { recursion_limit: Some(n), ..cfg });
        match accepted(b, g, ParseConfig { recursion_limit: None, ..cfg }) {
            Some(t) => limited == if depth(t) <= n { Some(t) } else { None },
            None => limited is None,
        }
    }),
{ g_limits(cx(b, g, cfg), cx(b, g, ParseConfig { recursion_limit: Some(n), ..cfg })); g_limits(cx(b, g, cfg), cx(b, g, ParseConfig { recursion_limit: None, ..cfg })); }
pub open spec fn same_but_limit(c1: Cx, c2: Cx) -> bool { c1.b == c2.b && c1.g == c2.g && c1.tc == c2.tc }
/// the grammar knows no limit
pub proof fn g_limits(c1: Cx, c2: Cx)
    requires same_but_limit(c1, c2),
    ensures g_value(c1, 0) == g_value(c2, 0),
{ g_limit_value(c1, c2, 0); }
pub proof fn g_limit_value(c1: Cx, c2: Cx, i: int)
    requires same_but_limit(c1, c2),
    ensures g_value(c1, i) == g_value(c2, i),
    decreases c1.b.len() - i, 1int
{ hide(lex); if let Lex::Tok(t, p) = lex(c1.b, i, c1.g) { if i < p <= c1.b.len() { g_limit_members(c1, c2, p, true); g_limit_elems(c1, c2, p, true); } } }
pub proof fn g_limit_members(c1: Cx, c2: Cx, i: int, first: bool)
    requires same_but_limit(c1, c2),
    ensures g_members(c1, i, first) == g_members(c2, i, first),
    decreases c1.b.len() - i, 2int
{
    hide(lex);
    if let Lex::Tok(Tok::Str(k), p) = lex(c1.b, i, c1.g) { if i < p <= c1.b.len() {
        if let Lex::Tok(Tok::Colon, q) = lex(c1.b, p, c1.g) { if p < q <= c1.b.len() {
            g_limit_value(c1, c2, q);
            if let Some((v, r)) = g_value(c1, q) { if q < r <= c1.b.len() {
                if let Lex::Tok(Tok::Comma, e) = lex(c1.b, r, c1.g) { if r < e <= c1.b.len() { g_limit_members(c1, c2, e, false); } }
            } }
        } }
    } }
}
pub proof fn g_limit_elems(c1: Cx, c2: Cx, i: int, first: bool)
    requires same_but_limit(c1, c2),
    ensures g_elems(c1, i, first) == g_elems(c2, i, first),
    decreases c1.b.len() - i, 2int
{
    hide(lex);
    g_limit_value(c1, c2, i);
    if let Some((v, r)) = g_value(c1, i) { if i < r <= c1.b.len() {
        if let Lex::Tok(Tok::Comma, e) = lex(c1.b, r, c1.g) { if r < e <= c1.b.len() { g_limit_elems(c1, c2, e, false); } }
    } }
}

// ------------------------------------------------------------------ C13: tokens
/// the kind of a token
pub open spec fn tok_kind(t: Tok) -> PeekableTokenKind {
    match t {
        Tok::Null => PeekableTokenKind::Null, Tok::Bool(true) => PeekableTokenKind::True, Tok::Bool(false) => PeekableTokenKind::False,
        Tok::Str(_) => PeekableTokenKind::String, Tok::Num(_) => PeekableTokenKind::Number, Tok::Obj => PeekableTokenKind::Object, Tok::ObjEnd => PeekableTokenKind::ObjectEnd,
        Tok::Arr => PeekableTokenKind::Array, Tok::ArrEnd => PeekableTokenKind::ArrayEnd, Tok::Colon => PeekableTokenKind::Colon, Tok::Comma => PeekableTokenKind::Comma,
    }
}
/// what is peeked is what is then read; there is a token or an error wherever there is something but whitespace
pub proof fn lex_kind(b: Seq<u8>, i: int, g: bool)
    requires 0 <= i <= b.len(),
    ensures ({ let w = skip_ws(b, i); match lex(b, i, g) {
        Lex::Tok(t, p) => i <= w < p <= b.len() && tok_kind(t) == peek_kind(b[w]),
        Lex::Eof => w == b.len(),
        Lex::Bad(o, _) => i <= w < b.len() && 0 <= o <= b.len(),
    } }),
{
    skip_ws_bounds(b, i); lex_bounds(b, i, g);
    let w = skip_ws(b, i);
    lex_at_bounds(b, w, g);
    if w < b.len() {
        word_bounds(b, w + 1, w_rue(), 0, Tok::Bool(true)); word_bounds(b, w + 1, w_alse(), 0, Tok::Bool(false)); word_bounds(b, w + 1, w_ull(), 0, Tok::Null);
    }
}
}

// Lemmas about the specification functions.
#[allow(unused_imports)] use vstd::prelude::*;
use vstd::utf8::*;
use crate::spec::*;
use crate::error::*;
verus! {

pub proof fn skip_ws_bounds(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len()
    ensures i <= skip_ws(b, i) <= b.len(),
        skip_ws(b, i) < b.len() ==> !is_ws(b[skip_ws(b, i)]),
        forall|k: int| i <= k < skip_ws(b, i) ==> is_ws(#[trigger] b[k]),
    decreases b.len() - i
{ if i < b.len() && is_ws(b[i]) { skip_ws_bounds(b, i + 1); } }

pub proof fn digits_end_bounds(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len()
    ensures i <= digits_end(b, i) <= b.len(),
        digits_end(b, i) < b.len() ==> !is_digit(b[digits_end(b, i)]),
        forall|k: int| i <= k < digits_end(b, i) ==> is_digit(#[trigger] b[k]),
    decreases b.len() - i
{ if i < b.len() && is_digit(b[i]) { digits_end_bounds(b, i + 1); } }

pub proof fn high_end_bounds(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len()
    ensures i <= high_end(b, i) <= b.len(),
        forall|k: int| i <= k < high_end(b, i) ==> #[trigger] b[k] >= 128,
        high_end(b, i) < b.len() ==> b[high_end(b, i)] < 128,
    decreases b.len() - i
{ if i < b.len() && b[i] >= 128 { high_end_bounds(b, i + 1); } }

/// one ASCII byte is valid UTF-8
pub proof fn ascii_valid(c: u8)
    requires c < 128
    ensures valid_utf8(seq![c]), decode_utf8(seq![c]) =~= seq![c as char], encode_utf8(seq![c as char]) =~= seq![c],
{
    let b = seq![c];
    assert(is_leading_byte_width_1(b[0]));
    assert(valid_leading_and_continuation_bytes_first_codepoint(b));
    assert(decode_first_codepoint(b) == (c & 0x7f) as u32);
    assert(c < 128 ==> (c & 0x7f) == c) by (bit_vector);
    assert(valid_first_scalar(b));
    assert(pop_first_scalar(b) =~= Seq::<u8>::empty());
    assert(valid_utf8(pop_first_scalar(b)));
    assert(decode_utf8(b) =~= seq![c as char] + decode_utf8(pop_first_scalar(b)));
    assert(decode_utf8(pop_first_scalar(b)) =~= Seq::<char>::empty());
    decode_utf8_encode_utf8(b);
}

pub proof fn ascii_seq_valid(b: Seq<u8>)
    requires forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] < 128
    ensures valid_utf8(b)
    decreases b.len()
{
    if b.len() > 0 {
        ascii_valid(b[0]);
        let r = b.subrange(1, b.len() as int);
        ascii_seq_valid(r);
        valid_utf8_concat(seq![b[0]], r);
        assert(b =~= seq![b[0]] + r);
    }
}

/// what lies between an ASCII byte and another ASCII byte of UTF-8 text is UTF-8
pub proof fn between_ascii(b: Seq<u8>, i: int, j: int)
    requires valid_utf8(b), 0 <= i < j < b.len(), b[i] < 128, b[j] < 128
    ensures valid_utf8(b.subrange(i + 1, j))
{
    after_ascii(b, i);
    let t = b.subrange(i + 1, b.len() as int);
    before_ascii(t, j - i - 1);
    assert(t.subrange(0, j - i - 1) =~= b.subrange(i + 1, j));
}
pub proof fn before_ascii(b: Seq<u8>, j: int)
    requires valid_utf8(b), 0 <= j < b.len(), b[j] < 128
    ensures valid_utf8(b.subrange(0, j)), valid_utf8(b.subrange(j, b.len() as int))
{
    is_char_boundary_iff_not_is_continuation_byte(b, j);
    valid_utf8_split(b, j);
}
pub proof fn after_ascii(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i < b.len(), b[i] < 128
    ensures valid_utf8(b.subrange(i + 1, b.len() as int))
{
    before_ascii(b, i);
    let s = b.subrange(i, b.len() as int);
    assert(is_leading_byte_width_1(s[0]));
    assert(pop_first_scalar(s) =~= b.subrange(i + 1, b.len() as int));
}

pub proof fn hexn_bounds(b: Seq<u8>, i: int, k: nat, acc: int)
    requires 0 <= i <= b.len(), 0 <= acc
    ensures
        hexn(b, i, k, acc) is Ok ==> i + k <= b.len() && hexn(b, i, k, acc)->Ok_0 >= 0,
        hexn(b, i, k, acc) is Bad ==> i <= hexn(b, i, k, acc)->Bad_0 <= b.len(),
    decreases k
{ if k > 0 && i < b.len() && is_hex(b[i]) { hexn_bounds(b, i + 1, (k - 1) as nat, acc * 16 + hexval(b[i])); } }

pub proof fn esc_bounds(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len()
    ensures
        esc(b, i) is Ok ==> i < esc(b, i)->Ok_0 <= b.len(),
        esc(b, i) is Bad ==> i <= esc(b, i)->Bad_0 <= b.len(),
{
    if i < b.len() && short_escape(b[i]) is None && b[i] == 0x75 {
        hexn_bounds(b, i + 1, 4, 0);
        if i + 7 <= b.len() { hexn_bounds(b, i + 7, 4, 0); }
    }
}

pub proof fn scan_bounds(b: Seq<u8>, i: int, g: bool)
    requires 0 <= i <= b.len()
    ensures
        scan(b, i, g) is Done ==> i <= scan(b, i, g)->Done_0 < b.len() && b[scan(b, i, g)->Done_0] == 0x22,
        scan(b, i, g) is Bad ==> 0 <= scan(b, i, g)->Bad_0 <= b.len(),
    decreases b.len() - i
{
    if i < b.len() && b[i] != 0x22 {
        if b[i] == 0x5c {
            esc_bounds(b, i + 1);
            if esc(b, i + 1) is Ok { scan_bounds(b, esc(b, i + 1)->Ok_0, g); }
        } else if b[i] < 0x20 {
        } else if b[i] >= 0x80 && !g {
            high_end_bounds(b, i);
            if high_end(b, i) > i { scan_bounds(b, high_end(b, i), g); }
        } else { scan_bounds(b, i + 1, g); }
    }
}
} // verus!
verus! {
pub proof fn num_int_bounds(b: Seq<u8>, i: int)
    requires 0 <= i < b.len()
    ensures
        num_int(b, i) is Done ==> i < num_int(b, i)->Done_0 <= b.len(),
        num_int(b, i) is Bad ==> i <= num_int(b, i)->Bad_0 <= b.len(),
        num_int(b, i) is Done ==> forall|k: int| i <= k < num_int(b, i)->Done_0 ==> #[trigger] b[k] < 128,
{
    let j = if at(b, i, 0x2d) { i + 1 } else { i };
    if j < b.len() { digits_end_bounds(b, j); }
}
pub proof fn num_frac_bounds(b: Seq<u8>, j: int)
    requires 0 <= j <= b.len()
    ensures
        num_frac(b, j) is Done ==> j <= num_frac(b, j)->Done_0 <= b.len(),
        num_frac(b, j) is Bad ==> j <= num_frac(b, j)->Bad_0 <= b.len(),
        num_frac(b, j) is Done ==> forall|k: int| j <= k < num_frac(b, j)->Done_0 ==> #[trigger] b[k] < 128,
{ if at(b, j, 0x2e) { digits_end_bounds(b, j + 1); } }
pub proof fn num_exp_bounds(b: Seq<u8>, j: int)
    requires 0 <= j <= b.len()
    ensures
        num_exp(b, j) is Done ==> j <= num_exp(b, j)->Done_0 <= b.len(),
        num_exp(b, j) is Bad ==> j <= num_exp(b, j)->Bad_0 <= b.len(),
        num_exp(b, j) is Done ==> forall|k: int| j <= k < num_exp(b, j)->Done_0 ==> #[trigger] b[k] < 128,
{
    if at(b, j, 0x65) || at(b, j, 0x45) {
        let k = if at(b, j + 1, 0x2d) || at(b, j + 1, 0x2b) { j + 2 } else { j + 1 };
        digits_end_bounds(b, k);
    }
}
pub proof fn num_bounds(b: Seq<u8>, i: int)
    requires 0 <= i < b.len()
    ensures
        num(b, i) is Done ==> i < num(b, i)->Done_0 <= b.len(),
        num(b, i) is Bad ==> i <= num(b, i)->Bad_0 <= b.len(),
        num(b, i) is Done ==> forall|k: int| i <= k < num(b, i)->Done_0 ==> #[trigger] b[k] < 128,
{
    num_int_bounds(b, i);
    if num_int(b, i) is Done {
        let j = num_int(b, i)->Done_0;
        num_frac_bounds(b, j);
        if num_frac(b, j) is Done { num_exp_bounds(b, num_frac(b, j)->Done_0); }
    }
}
pub proof fn word_bounds(b: Seq<u8>, i: int, w: Seq<u8>, k: int, t: Tok)
    requires 0 <= i <= b.len(), 0 <= k <= w.len()
    ensures
        match word(b, i, w, k, t) { Lex::Eof => false, Lex::Bad(o, _) => i <= o <= b.len(), Lex::Tok(t2, e) => t2 == t && e == i + w.len() - k && e <= b.len() },
    decreases w.len() - k
{ if k < w.len() && i < b.len() && b[i] == w[k] { word_bounds(b, i + 1, w, k + 1, t); } }
pub proof fn prepend_prepend(a: Seq<u8>, ea: bool, d: Seq<u8>, ed: bool, s: Scan)
    ensures prepend(a, ea, prepend(d, ed, s)) == prepend(a + d, ea || ed, s)
{ if s is Done { assert(a + (d + s->Done_1) =~= (a + d) + s->Done_1); } }
} // verus!
verus! {
pub proof fn hexn_ascii(b: Seq<u8>, i: int, k: nat, acc: int)
    requires 0 <= i <= b.len(), 0 <= acc, hexn(b, i, k, acc) is Ok
    ensures forall|q: int| i <= q < i + k ==> #[trigger] b[q] < 128,
    decreases k
{ if k > 0 { hexn_ascii(b, i + 1, (k - 1) as nat, acc * 16 + hexval(b[i])); } }
pub proof fn esc_ascii(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len(), esc(b, i) is Ok
    ensures forall|q: int| i <= q < esc(b, i)->Ok_0 ==> #[trigger] b[q] < 128,
{
    if short_escape(b[i]) is None {
        hexn_bounds(b, i + 1, 4, 0); hexn_ascii(b, i + 1, 4, 0);
        if !scalar(hexn(b, i + 1, 4, 0)->Ok_0) { hexn_bounds(b, i + 7, 4, 0); hexn_ascii(b, i + 7, 4, 0); }
    }
}
pub proof fn hex_step(d: u32, n: u8)
    requires d < 0x1000, n < 16
    ensures d << 4 | (n as u32) == d * 16 + n
{
    let m = n as u32;
    assert(d << 4 | m == d * 16 + m) by (bit_vector) requires d < 0x1000, m < 16;
}
} // verus!
verus! {
pub proof fn enc1(c: char)
    ensures encode_utf8(seq![c]) == encode_scalar(c as u32), 1 <= encode_scalar(c as u32).len() <= 4,
        (c as u32) < 0x10000 ==> encode_scalar(c as u32).len() <= 3,
        (c as u32) < 0x80 ==> encode_scalar(c as u32).len() == 1,
{
    assert(seq![c].drop_first() =~= Seq::<char>::empty());
    assert(encode_utf8(seq![c].drop_first()) =~= Seq::<u8>::empty());
    assert(encode_utf8(seq![c]) == encode_scalar(seq![c][0] as u32) + encode_utf8(seq![c].drop_first()));
}
} // verus!
verus! {
pub proof fn lex_at_bounds(b: Seq<u8>, i: int, g: bool)
    requires 0 <= i <= b.len()
    ensures match lex_at(b, i, g) { Lex::Eof => i == b.len(), Lex::Bad(o, k) => i < b.len() && 0 <= o <= b.len(), Lex::Tok(t, e) => i < e <= b.len() },
{
    if i < b.len() {
        scan_bounds(b, i + 1, g);
        num_bounds(b, i);
        word_bounds(b, i + 1, w_rue(), 0, Tok::Bool(true));
        word_bounds(b, i + 1, w_alse(), 0, Tok::Bool(false));
        word_bounds(b, i + 1, w_ull(), 0, Tok::Null);
    }
}
pub proof fn lex_bounds(b: Seq<u8>, i: int, g: bool)
    requires 0 <= i <= b.len()
    ensures match lex(b, i, g) { Lex::Eof => true, Lex::Bad(o, k) => 0 <= o <= b.len(), Lex::Tok(t, e) => i < e <= b.len() },
        lex(b, i, g) is Eof <==> skip_ws(b, i) == b.len(),
{ skip_ws_bounds(b, i); lex_at_bounds(b, skip_ws(b, i), g); }
} // verus!
verus! {
// ------------------------------------------------------------------ a number, cut out of its surroundings
pub proof fn digits_cut(b: Seq<u8>, i: int, k: int, e: int)
    requires 0 <= i <= k <= e <= b.len(),
    ensures digits_end(b.subrange(i, e), k - i) == if digits_end(b, k) <= e { digits_end(b, k) - i } else { e - i },
    decreases e - k
{
    digits_end_bounds(b, k);
    if k < e { assert(b.subrange(i, e)[k - i] == b[k]); if is_digit(b[k]) { digits_cut(b, i, k + 1, e); } }
}
/// up to any place at or after its end, the same number is read: nothing after it matters
#[verifier::spinoff_prover]
#[verifier::rlimit(50)]
pub proof fn num_cut(b: Seq<u8>, i: int, e: int)
    requires 0 <= i < b.len(), num(b, i) is Done, num(b, i)->Done_0 <= e <= b.len(),
    ensures num(b.subrange(i, e), 0) == Num::Done(num(b, i)->Done_0 - i),
{
    let s = b.subrange(i, e);
    num_bounds(b, i);
    assert forall|q: int, c: u8| 0 <= q < s.len() implies #[trigger] at(s, q, c) == at(b, q + i, c) by {}
    let j = if at(b, i, 0x2d) { i + 1 } else { i };
    num_int_bounds(b, i);
    assert(at(s, 0, 0x2d) == at(b, 0 + i, 0x2d));
    assert(num_int(b, i) is Done);
    let j1 = num_int(b, i)->Done_0;
    num_frac_bounds(b, j1);
    let j2 = num_frac(b, j1)->Done_0;
    num_exp_bounds(b, j2);
    digits_end_bounds(b, j);
    assert(s[j - i] == b[j]);
    digits_cut(b, i, j, e);
    assert(num_int(s, 0) == Num::Done(j1 - i));
    if j1 < e { assert(at(s, j1 - i, 0x2e) == at(b, j1 - i + i, 0x2e)); }
    if at(b, j1, 0x2e) { digits_end_bounds(b, j1 + 1); digits_cut(b, i, j1 + 1, e); }
    assert(num_frac(s, j1 - i) == Num::Done(j2 - i));
    if j2 < e { assert(at(s, j2 - i, 0x65) == at(b, j2 - i + i, 0x65)); assert(at(s, j2 - i, 0x45) == at(b, j2 - i + i, 0x45)); }
    if at(b, j2, 0x65) || at(b, j2, 0x45) {
        let k = if at(b, j2 + 1, 0x2d) || at(b, j2 + 1, 0x2b) { j2 + 2 } else { j2 + 1 };
        digits_end_bounds(b, k);
        assert(at(s, j2 + 1 - i, 0x2d) == at(b, j2 + 1 - i + i, 0x2d)); assert(at(s, j2 + 1 - i, 0x2b) == at(b, j2 + 1 - i + i, 0x2b));
        digits_cut(b, i, k, e);
    }
}
/// a number runs as far as it can: with any byte more it is not a number
pub proof fn num_longest(b: Seq<u8>, i: int, e: int)
    requires 0 <= i < b.len(), num(b, i) is Done, num(b, i)->Done_0 < e <= b.len(),
    ensures num_ok(b.subrange(i, num(b, i)->Done_0)), !num_ok(b.subrange(i, e)),
{ num_bounds(b, i); num_cut(b, i, e); num_cut(b, i, num(b, i)->Done_0); }
}

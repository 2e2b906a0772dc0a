// C07: what the output functions write is JSON, and reads back as the value that was written.
#[allow(unused_imports)] use vstd::prelude::*;
use vstd::utf8::*;
use crate::error::*;
use crate::parser::*;
use crate::spec::*;
use crate::lemmas::*;
use crate::run::*;
use crate::grammar::*;
use crate::strings::*;
use crate::write::*;
use crate::theorems::*;
verus! {
// ------------------------------------------------------------------ text at a place of the input
pub open spec fn blen(s: Seq<char>) -> int { encode_utf8(s).len() as int }
/// the bytes of `s` lie at `i`
pub open spec fn here(b: Seq<u8>, i: int, s: Seq<char>) -> bool { 0 <= i && i + blen(s) <= b.len() && b.subrange(i, i + blen(s)) == encode_utf8(s) }
pub proof fn split(b: Seq<u8>, i: int, s: Seq<char>, t: Seq<char>)
    requires here(b, i, s + t),
    ensures here(b, i, s), here(b, i + blen(s), t), blen(s + t) == blen(s) + blen(t),
{
    enc_add(s, t);
    let x = b.subrange(i, i + blen(s + t));
    assert(x.subrange(0, blen(s)) =~= encode_utf8(s));
    assert(x.subrange(blen(s), blen(s + t)) =~= encode_utf8(t));
    assert(b.subrange(i, i + blen(s)) =~= x.subrange(0, blen(s)));
    assert(b.subrange(i + blen(s), i + blen(s) + blen(t)) =~= x.subrange(blen(s), blen(s + t)));
}
pub proof fn byte_here(b: Seq<u8>, i: int, c: char)
    requires here(b, i, seq![c]), (c as u32) < 128,
    ensures 0 <= i < b.len(), b[i] == c as u8, blen(seq![c]) == 1,
{ enc_ascii(c); assert(b[i] == b.subrange(i, i + 1)[0]); }
/// only JSON whitespace
pub open spec fn all_ws(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == ' ' || s[k] == '\n' || s[k] == '\t' || s[k] == '\r' }
pub proof fn ws_here(b: Seq<u8>, i: int, s: Seq<char>)
    requires here(b, i, s), all_ws(s),
    ensures skip_ws(b, i) == skip_ws(b, i + blen(s)), s.len() > 0 ==> i < b.len() && is_ws(b[i]), blen(s) == s.len(),
    decreases s.len(),
{
    if s.len() == 0 { assert(encode_utf8(s) =~= Seq::<u8>::empty()); }
    else {
        let r = s.drop_first();
        assert(s =~= seq![s[0]] + r);
        split(b, i, seq![s[0]], r);
        assert(s[0] == ' ' || s[0] == '\n' || s[0] == '\t' || s[0] == '\r');
        byte_here(b, i, s[0]);
        assert forall|k: int| 0 <= k < r.len() implies #[trigger] r[k] == ' ' || r[k] == '\n' || r[k] == '\t' || r[k] == '\r' by { assert(r[k] == s[k + 1]); }
        ws_here(b, i + 1, r);
    }
}
pub proof fn ws_rep(s: Seq<char>, n: nat)
    requires all_ws(s),
    ensures all_ws(rep(s, n)),
    decreases n
{
    if n > 0 {
        ws_rep(s, (n - 1) as nat);
        let a = rep(s, (n - 1) as nat);
        assert forall|k: int| 0 <= k < (a + s).len() implies #[trigger] (a + s)[k] == ' ' || (a + s)[k] == '\n' || (a + s)[k] == '\t' || (a + s)[k] == '\r' by {
            if k < a.len() { assert((a + s)[k] == a[k]); } else { assert((a + s)[k] == s[k - a.len()]); }
        }
    }
}
/// a layout made of JSON whitespace
pub open spec fn json_layout(l: Layout) -> bool { l.pretty ==> all_ws(l.ind) && all_ws(l.eol) }
pub proof fn ws_layout(l: Layout, level: nat)
    requires json_layout(l),
    ensures all_ws(margin(l, level)), all_ws(end_line(l)),
{ if l.pretty { ws_rep(l.ind, level); } }

// ------------------------------------------------------------------ tokens
/// where a value has ended
pub open spec fn stop(b: Seq<u8>, p: int) -> bool { p >= b.len() || is_ws(b[p]) || b[p] == 0x2c || b[p] == 0x5d || b[p] == 0x7d }
pub proof fn stop_at(b: Seq<u8>, i: int, w: Seq<char>, c: char)
    requires here(b, i, w + seq![c]), all_ws(w), c == ',' || c == ']' || c == '}',
    ensures stop(b, i), skip_ws(b, i) == i + blen(w), i + blen(w) < b.len(), b[i + blen(w)] == c as u8, blen(w + seq![c]) == blen(w) + 1,
{ split(b, i, w, seq![c]); ws_here(b, i, w); byte_here(b, i + blen(w), c); }

pub proof fn digits_here(n: Seq<u8>, k: int, b: Seq<u8>, i: int)
    requires 0 <= i, 0 <= k <= n.len(), i + n.len() <= b.len(), b.subrange(i, i + n.len()) == n, stop(b, i + n.len()),
    ensures digits_end(b, i + k) == i + digits_end(n, k), digits_end(n, k) <= n.len(),
    decreases n.len() - k
{
    assert(forall|q: int| 0 <= q < n.len() ==> b[i + q] == #[trigger] n[q]) by { assert forall|q: int| 0 <= q < n.len() implies b[i + q] == #[trigger] n[q] by { assert(b.subrange(i, i + n.len())[q] == b[i + q]); } }
    if k < n.len() { assert(n[k] == b[i + k]); if is_digit(n[k]) { digits_here(n, k + 1, b, i); } }
}
pub proof fn num_here(n: Seq<u8>, b: Seq<u8>, i: int)
    requires num_ok(n), 0 <= i, i + n.len() <= b.len(), b.subrange(i, i + n.len()) == n, stop(b, i + n.len()),
    ensures num(b, i) == Num::Done(i + n.len()), n.len() > 0, n[0] == 0x2d || is_digit(n[0]), b[i] == n[0],
{
    let m = n.len() as int;
    assert forall|q: int| 0 <= q < n.len() implies b[i + q] == #[trigger] n[q] by { assert(b.subrange(i, i + n.len())[q] == b[i + q]); }
    assert(forall|k: int, c: u8| 0 <= k <= m && c != 0x2c && c != 0x5d && c != 0x7d && !is_ws(c) ==> at(b, i + k, c) == #[trigger] at(n, k, c)) by {
        assert forall|k: int, c: u8| 0 <= k <= m && c != 0x2c && c != 0x5d && c != 0x7d && !is_ws(c) implies at(b, i + k, c) == #[trigger] at(n, k, c) by {
            if k < m { assert(n[k] == b[i + k]); }
        }
    }
    num_int_bounds(n, 0);
    let j = if at(n, 0, 0x2d) { 1int } else { 0int };
    assert(at(b, i + 0, 0x2d) == at(n, 0, 0x2d));
    assert(num_int(n, 0) is Done);
    assert(n[j] == b[i + j]);
    if n[j] != 0x30 { digits_here(n, j, b, i); }
    let j1 = num_int(n, 0)->Done_0;
    assert(num_int(b, i) == Num::Done(i + j1));
    num_frac_bounds(n, j1);
    assert(at(b, i + j1, 0x2e) == at(n, j1, 0x2e));
    if at(n, j1, 0x2e) { digits_here(n, j1 + 1, b, i); }
    let j2 = num_frac(n, j1)->Done_0;
    assert(num_frac(b, i + j1) == Num::Done(i + j2));
    num_exp_bounds(n, j2);
    assert(at(b, i + j2, 0x65) == at(n, j2, 0x65)); assert(at(b, i + j2, 0x45) == at(n, j2, 0x45));
    if at(n, j2, 0x65) || at(n, j2, 0x45) {
        assert(at(b, i + (j2 + 1), 0x2d) == at(n, j2 + 1, 0x2d)); assert(at(b, i + (j2 + 1), 0x2b) == at(n, j2 + 1, 0x2b));
        let k = if at(n, j2 + 1, 0x2d) || at(n, j2 + 1, 0x2b) { j2 + 2 } else { j2 + 1 };
        digits_here(n, k, b, i);
    }
    assert(n[0] == b[i + 0]);
}
/// a literal reads the same inside a longer input
pub proof fn hexn_ext(s: Seq<u8>, b: Seq<u8>, k: int, i: int, n: nat, acc: int)
    requires 0 <= k, 0 <= i, k + s.len() <= b.len(), b.subrange(k, k + s.len()) == s, hexn(s, i, n, acc) is Ok, 0 <= acc, i + n <= s.len(),
    ensures hexn(b, k + i, n, acc) == hexn(s, i, n, acc),
    decreases n
{
    if n > 0 {
        assert(b[k + i] == b.subrange(k, k + s.len())[i]);
        hexn_ext(s, b, k, i + 1, (n - 1) as nat, acc * 16 + hexval(s[i]));
    }
}
pub proof fn esc_ext(s: Seq<u8>, b: Seq<u8>, k: int, i: int)
    requires 0 <= k, 0 <= i <= s.len(), k + s.len() <= b.len(), b.subrange(k, k + s.len()) == s, esc(s, i) is Ok,
    ensures esc(b, k + i) == Esc::Ok(k + esc(s, i)->Ok_0, esc(s, i)->Ok_1),
{
    esc_bounds(s, i);
    assert forall|q: int| 0 <= q < s.len() implies b[k + q] == #[trigger] s[q] by { assert(b.subrange(k, k + s.len())[q] == b[k + q]); }
    assert(s[i] == b[k + i]);
    if short_escape(s[i]) is None {
        hexn_bounds(s, i + 1, 4, 0); hexn_ext(s, b, k, i + 1, 4, 0);
        if !scalar(hexn(s, i + 1, 4, 0)->Ok_0) {
            assert(s[i + 5] == b[k + (i + 5)]); assert(s[i + 6] == b[k + (i + 6)]);
            hexn_bounds(s, i + 7, 4, 0); hexn_ext(s, b, k, i + 7, 4, 0);
        }
    }
}
pub open spec fn forth(s: Scan, k: int) -> Scan { match s { Scan::Done(e, d, es) => Scan::Done(e + k, d, es), Scan::Bad(o, x) => Scan::Bad(o + k, x) } }
pub proof fn scan_ext(s: Seq<u8>, b: Seq<u8>, k: int, i: int)
    requires 0 <= k, 0 <= i <= s.len(), k + s.len() <= b.len(), b.subrange(k, k + s.len()) == s, scan(s, i, true) is Done,
    ensures scan(b, k + i, true) == forth(scan(s, i, true), k),
    decreases s.len() - i
{
    scan_bounds(s, i, true);
    assert(b[k + i] == b.subrange(k, k + s.len())[i]);
    if s[i] == 0x22 {
    } else if s[i] == 0x5c {
        esc_bounds(s, i + 1); esc_ext(s, b, k, i + 1);
        scan_ext(s, b, k, esc(s, i + 1)->Ok_0);
    } else { scan_ext(s, b, k, i + 1); }
}
/// a string as it is read back
pub open spec fn read_back(j: JS) -> JS { JS { json: true, src: escaped(j), esc: j.esc, len: contents(j).len() as int } }
pub proof fn escaped_scan(j: JS)
    requires js_ok(j),
    ensures scan(lit(escaped(j)), 0, true) == Scan::Done(escaped(j).len() as int, contents(j), j.esc), js_ok(read_back(j)) || !j.json, text(read_back(j)) == text(j),
        valid_utf8(escaped(j)), encode_utf8(decode_utf8(escaped(j))) == escaped(j),
{
    if !j.json {
        let s = decode_utf8(j.src);
        let b = lit(escaped(j));
        assert(b.subrange(0, b.len() as int) =~= b);
        escape_scan(s, b, 0);
        decode_utf8_encode_utf8(j.src);
        encode_utf8_valid_utf8(escape(s));
    }
    decode_utf8_encode_utf8(escaped(j));
}
pub proof fn quoted_here(j: JS, b: Seq<u8>, i: int)
    requires js_ok(j), here(b, i, quoted(j)),
    ensures lex_at(b, i, true) == Lex::Tok(Tok::Str(read_back(j)), i + blen(quoted(j))), blen(quoted(j)) >= 2, b[i] == 0x22, i < b.len(),
{
    let q = seq!['"'];
    let x = decode_utf8(escaped(j));
    escaped_scan(j);
    split(b, i, q + x, q); split(b, i, q, x);
    byte_here(b, i, '"'); byte_here(b, i + blen(q + x), '"');
    let s = lit(escaped(j));
    let k = i + 1;
    assert(b.subrange(k, k + s.len()) =~= s) by {
        assert forall|z: int| 0 <= z < s.len() implies b[k + z] == s[z] by {
            if z < s.len() - 1 { assert(b.subrange(k, k + blen(x))[z] == b[k + z]); }
        }
    }
    scan_ext(s, b, k, 0);
    assert(b.subrange(k, k + escaped(j).len()) =~= escaped(j));
}

// ------------------------------------------------------------------ values
/// numbers are number literals, strings what they say they are
pub open spec fn tree_ok(t: Tree) -> bool decreases t, 0nat
{
    match t { Tree::Num(n) => num_ok(n) && valid_utf8(n), Tree::Str(j) => js_ok(j), Tree::Arr(s) => elems_ok(s, 0), Tree::Obj(s) => members_ok(s, 0), _ => true }
}
pub open spec fn elems_ok(s: Seq<Tree>, k: nat) -> bool decreases s, s.len() - k
{ k < s.len() ==> tree_ok(s[k as int]) && elems_ok(s, k + 1) }
pub open spec fn members_ok(s: Seq<(JS, Tree)>, k: nat) -> bool decreases s, s.len() - k
{ k < s.len() ==> js_ok(s[k as int].0) && tree_ok(s[k as int].1) && members_ok(s, k + 1) }
/// a value as it is read back
pub open spec fn reread(t: Tree) -> Tree decreases t, 0nat
{ match t { Tree::Str(j) => Tree::Str(read_back(j)), Tree::Arr(s) => Tree::Arr(rereads(s, 0)), Tree::Obj(s) => Tree::Obj(rereadm(s, 0)), _ => t } }
pub open spec fn rereads(s: Seq<Tree>, k: nat) -> Seq<Tree> decreases s, s.len() - k
{ if k >= s.len() { Seq::empty() } else { seq![reread(s[k as int])] + rereads(s, k + 1) } }
pub open spec fn rereadm(s: Seq<(JS, Tree)>, k: nat) -> Seq<(JS, Tree)> decreases s, s.len() - k
{ if k >= s.len() { Seq::empty() } else { seq![(read_back(s[k as int].0), reread(s[k as int].1))] + rereadm(s, k + 1) } }

/// the elements from the `k`-th on
pub open spec fn tail_elems(l: Layout, s: Seq<Tree>, k: nat, level: nat) -> Seq<char> decreases s.len() - k
{ if k >= s.len() { seq![] } else { margin(l, level) + show(l, s[k as int], level) + comma(k + 1 < s.len()) + end_line(l) + tail_elems(l, s, k + 1, level) } }
pub open spec fn tail_members(l: Layout, s: Seq<(JS, Tree)>, k: nat, level: nat) -> Seq<char> decreases s.len() - k
{ if k >= s.len() { seq![] } else { margin(l, level) + quoted(s[k as int].0) + colon(l) + show(l, s[k as int].1, level) + comma(k + 1 < s.len()) + end_line(l) + tail_members(l, s, k + 1, level) } }
#[verifier::spinoff_prover]
#[verifier::rlimit(50)]
pub proof fn tail_elems_all(l: Layout, s: Seq<Tree>, k: nat, level: nat)
    requires k <= s.len(),
    ensures show_elems(l, s, s.len(), level) =~= show_elems(l, s, k, level) + tail_elems(l, s, k, level),
    decreases s.len() - k
{ hide(show); if k < s.len() { tail_elems_all(l, s, k + 1, level); show_elems_step(l, s, k, level); } }
#[verifier::spinoff_prover]
#[verifier::rlimit(50)]
pub proof fn tail_members_all(l: Layout, s: Seq<(JS, Tree)>, k: nat, level: nat)
    requires k <= s.len(),
    ensures show_members(l, s, s.len(), level) =~= show_members(l, s, k, level) + tail_members(l, s, k, level),
    decreases s.len() - k
{ hide(show); hide(quoted); if k < s.len() { tail_members_all(l, s, k + 1, level); show_members_step(l, s, k, level); } }

/// leading whitespace does not matter
pub proof fn ws_before(c: Cx, i: int, w: Seq<char>, first: bool)
    requires here(c.b, i, w), all_ws(w),
    ensures lex(c.b, i, c.g) == lex(c.b, i + blen(w), c.g), i + blen(w) <= c.b.len(),
        g_value(c, i + blen(w)) is Some ==> g_value(c, i) == g_value(c, i + blen(w)),
        g_elems(c, i + blen(w), first) is Some ==> g_elems(c, i, first) == g_elems(c, i + blen(w), first),
        g_members(c, i + blen(w), first) is Some ==> g_members(c, i, first) == g_members(c, i + blen(w), first),
{
    ws_here(c.b, i, w);
    let j = i + blen(w);
    lex_bounds(c.b, i, c.g); lex_bounds(c.b, j, c.g);
    skip_ws_twice(c.b, i); skip_ws_twice(c.b, j);
    same_lex(c, i); same_lex(c, j);
    assert(g_value(c, i) == g_value(c, j));
    g_value_bounds(c, j);
}
pub proof fn keyword_here(b: Seq<u8>, i: int)
    ensures here(b, i, seq!['n', 'u', 'l', 'l']) ==> lex_at(b, i, true) == Lex::Tok(Tok::Null, i + 4) && blen(seq!['n', 'u', 'l', 'l']) == 4,
        here(b, i, seq!['t', 'r', 'u', 'e']) ==> lex_at(b, i, true) == Lex::Tok(Tok::Bool(true), i + 4) && blen(seq!['t', 'r', 'u', 'e']) == 4,
        here(b, i, seq!['f', 'a', 'l', 's', 'e']) ==> lex_at(b, i, true) == Lex::Tok(Tok::Bool(false), i + 5) && blen(seq!['f', 'a', 'l', 's', 'e']) == 5,
{
    reveal_with_fuel(word, 6);
    enc2('n', 'u'); enc2('l', 'l'); enc_add(seq!['n', 'u'], seq!['l', 'l']); assert(seq!['n', 'u'] + seq!['l', 'l'] =~= seq!['n', 'u', 'l', 'l']);
    enc2('t', 'r'); enc2('u', 'e'); enc_add(seq!['t', 'r'], seq!['u', 'e']); assert(seq!['t', 'r'] + seq!['u', 'e'] =~= seq!['t', 'r', 'u', 'e']);
    enc2('f', 'a'); enc2('l', 's'); enc_ascii('e'); enc_add(seq!['f', 'a'], seq!['l', 's']); enc_add(seq!['f', 'a'] + seq!['l', 's'], seq!['e']);
    assert((seq!['f', 'a'] + seq!['l', 's']) + seq!['e'] =~= seq!['f', 'a', 'l', 's', 'e']);
    let n = encode_utf8(seq!['n', 'u', 'l', 'l']); let t = encode_utf8(seq!['t', 'r', 'u', 'e']); let f = encode_utf8(seq!['f', 'a', 'l', 's', 'e']);
    assert(n =~= seq![0x6eu8, 0x75, 0x6c, 0x6c]); assert(t =~= seq![0x74u8, 0x72, 0x75, 0x65]); assert(f =~= seq![0x66u8, 0x61, 0x6c, 0x73, 0x65]);
    if here(b, i, seq!['n', 'u', 'l', 'l']) { assert forall|q: int| 0 <= q < 4 implies b[i + q] == #[trigger] n[q] by { assert(b.subrange(i, i + 4)[q] == b[i + q]); } assert(b[i + 0] == n[0] && b[i + 1] == n[1] && b[i + 2] == n[2] && b[i + 3] == n[3]); }
    if here(b, i, seq!['t', 'r', 'u', 'e']) { assert forall|q: int| 0 <= q < 4 implies b[i + q] == #[trigger] t[q] by { assert(b.subrange(i, i + 4)[q] == b[i + q]); } assert(b[i + 0] == t[0] && b[i + 1] == t[1] && b[i + 2] == t[2] && b[i + 3] == t[3]); }
    if here(b, i, seq!['f', 'a', 'l', 's', 'e']) { assert forall|q: int| 0 <= q < 5 implies b[i + q] == #[trigger] f[q] by { assert(b.subrange(i, i + 5)[q] == b[i + q]); } assert(b[i + 0] == f[0] && b[i + 1] == f[1] && b[i + 2] == f[2] && b[i + 3] == f[3] && b[i + 4] == f[4]); }
}
/// one step of the grammar
pub proof fn elems_step(c: Cx, i: int, first: bool, t: Tree, r: int, m: Seq<Tree>, z: int)
    requires 0 <= i <= c.b.len(), g_value(c, i) == Some((t, r)),
        lex(c.b, r, c.g) == Lex::Tok(Tok::ArrEnd, z) && m.len() == 0 || (lex(c.b, r, c.g) matches Lex::Tok(Tok::Comma, e) && g_elems(c, e, false) == Some((m, z))),
    ensures g_elems(c, i, first) == Some((seq![t] + m, z)),
{ g_value_bounds(c, i); lex_bounds(c.b, r, c.g); if m.len() == 0 { assert(m =~= Seq::<Tree>::empty()); } }
pub proof fn members_step(c: Cx, i: int, first: bool, k: JS, p: int, q: int, t: Tree, r: int, m: Seq<(JS, Tree)>, z: int)
    requires 0 <= i <= c.b.len(), lex(c.b, i, c.g) == Lex::Tok(Tok::Str(k), p), lex(c.b, p, c.g) == Lex::Tok(Tok::Colon, q), g_value(c, q) == Some((t, r)),
        lex(c.b, r, c.g) == Lex::Tok(Tok::ObjEnd, z) && m.len() == 0 || (lex(c.b, r, c.g) matches Lex::Tok(Tok::Comma, e) && g_members(c, e, false) == Some((m, z))),
    ensures g_members(c, i, first) == Some((seq![(k, t)] + m, z)),
{ lex_bounds(c.b, i, c.g); lex_bounds(c.b, p, c.g); g_value_bounds(c, q); lex_bounds(c.b, r, c.g); if m.len() == 0 { assert(m =~= Seq::<(JS, Tree)>::empty()); } }
pub proof fn punct(b: Seq<u8>, i: int)
    requires 0 <= i < b.len(), b[i] == 0x2c || b[i] == 0x3a || b[i] == 0x5b || b[i] == 0x5d || b[i] == 0x7b || b[i] == 0x7d || b[i] == 0x22,
    ensures skip_ws(b, i) == i, lex(b, i, true) == lex_at(b, i, true),
        b[i] == 0x2c ==> lex(b, i, true) == Lex::Tok(Tok::Comma, i + 1), b[i] == 0x3a ==> lex(b, i, true) == Lex::Tok(Tok::Colon, i + 1),
        b[i] == 0x5b ==> lex(b, i, true) == Lex::Tok(Tok::Arr, i + 1), b[i] == 0x5d ==> lex(b, i, true) == Lex::Tok(Tok::ArrEnd, i + 1),
        b[i] == 0x7b ==> lex(b, i, true) == Lex::Tok(Tok::Obj, i + 1), b[i] == 0x7d ==> lex(b, i, true) == Lex::Tok(Tok::ObjEnd, i + 1),
        b[i] == 0x2c ==> stop(b, i),
{}
pub proof fn ws_add(a: Seq<char>, b: Seq<char>)
    requires all_ws(a), all_ws(b),
    ensures all_ws(a + b),
{
    assert forall|q: int| 0 <= q < (a + b).len() implies #[trigger] (a + b)[q] == ' ' || (a + b)[q] == '\n' || (a + b)[q] == '\t' || (a + b)[q] == '\r' by {
        if q < a.len() { assert((a + b)[q] == a[q]); } else { assert((a + b)[q] == b[q - a.len()]); }
    }
}
/// the end of a container, after its last member
pub proof fn close_here(c: Cx, r: int, n: Seq<char>, m0: Seq<char>, z: char)
    requires c.g, here(c.b, r, (n + m0) + seq![z]), all_ws(n), all_ws(m0), z == ']' || z == '}',
    ensures stop(c.b, r), z == ']' ==> lex(c.b, r, true) == Lex::Tok(Tok::ArrEnd, r + blen((n + m0) + seq![z])), z == '}' ==> lex(c.b, r, true) == Lex::Tok(Tok::ObjEnd, r + blen((n + m0) + seq![z])),
{ ws_add(n, m0); stop_at(c.b, r, n + m0, z); punct(c.b, r + blen(n + m0)); }
pub proof fn here_in(b: Seq<u8>, i: int, s: Seq<char>)
    requires here(b, i, s),
    ensures 0 <= i, i + blen(s) <= b.len(), blen(s) >= 0,
{}
/// a value that was written is read back
pub proof fn value_rt(c: Cx, l: Layout, t: Tree, level: nat, i: int)
    requires c.g, json_layout(l), tree_ok(t), here(c.b, i, show(l, t, level)), stop(c.b, i + blen(show(l, t, level))),
    ensures g_value(c, i) == Some((reread(t), i + blen(show(l, t, level)))),
    decreases t, 0nat
{
    let b = c.b;
    match t {
        Tree::Null => { keyword_here(b, i); },
        Tree::Bool(v) => { keyword_here(b, i); },
        Tree::Num(n) => { decode_utf8_encode_utf8(n); num_here(n, b, i); },
        Tree::Str(j) => { quoted_here(j, b, i); },
        Tree::Arr(s) => { arr_rt(c, l, s, level, i); },
        Tree::Obj(s) => { obj_rt(c, l, s, level, i); },
    }
}
#[verifier::spinoff_prover]
#[verifier::rlimit(50)]
pub proof fn arr_rt(c: Cx, l: Layout, s: Seq<Tree>, level: nat, i: int)
    requires c.g, json_layout(l), elems_ok(s, 0), here(c.b, i, show(l, Tree::Arr(s), level)),
    ensures g_value(c, i) == Some((Tree::Arr(rereads(s, 0)), i + blen(show(l, Tree::Arr(s), level)))),
    decreases s, s.len() + 1
{
    hide(here); hide(tail_elems); hide(lex_at); hide(rereads);
    let b = c.b;
    let x = show(l, Tree::Arr(s), level);
    here_in(b, i, x);
    ws_layout(l, level);
    if s.len() == 0 {
        reveal(rereads);
        assert(x =~= seq!['['] + seq![']']);
        split(b, i, seq!['['], seq![']']); byte_here(b, i, '['); byte_here(b, i + 1, ']');
        punct(b, i); punct(b, i + 1);
    } else {
        let body = tail_elems(l, s, 0, level + 1) + (margin(l, level) + seq![']']);
        tail_elems_all(l, s, 0, level + 1);
        assert(show_elems(l, s, 0, level + 1) =~= Seq::<char>::empty());
        assert(x =~= seq!['['] + (end_line(l) + body));
        split(b, i, seq!['['], end_line(l) + body); byte_here(b, i, '[');
        split(b, i + 1, end_line(l), body);
        elems_rt(c, l, s, 0, level + 1, i + 1 + blen(end_line(l)), true);
        ws_before(c, i + 1, end_line(l), true);
        punct(b, i);
    }
}
#[verifier::spinoff_prover]
#[verifier::rlimit(50)]
pub proof fn obj_rt(c: Cx, l: Layout, s: Seq<(JS, Tree)>, level: nat, i: int)
    requires c.g, json_layout(l), members_ok(s, 0), here(c.b, i, show(l, Tree::Obj(s), level)),
    ensures g_value(c, i) == Some((Tree::Obj(rereadm(s, 0)), i + blen(show(l, Tree::Obj(s), level)))),
    decreases s, s.len() + 1
{
    hide(here); hide(tail_members); hide(lex_at); hide(rereadm);
    let b = c.b;
    let x = show(l, Tree::Obj(s), level);
    here_in(b, i, x);
    ws_layout(l, level);
    if s.len() == 0 {
        reveal(rereadm);
        assert(x =~= seq!['{'] + seq!['}']);
        split(b, i, seq!['{'], seq!['}']); byte_here(b, i, '{'); byte_here(b, i + 1, '}');
        punct(b, i); punct(b, i + 1);
    } else {
        let body = tail_members(l, s, 0, level + 1) + (margin(l, level) + seq!['}']);
        tail_members_all(l, s, 0, level + 1);
        assert(show_members(l, s, 0, level + 1) =~= Seq::<char>::empty());
        assert(x =~= seq!['{'] + (end_line(l) + body));
        split(b, i, seq!['{'], end_line(l) + body); byte_here(b, i, '{');
        split(b, i + 1, end_line(l), body);
        members_rt(c, l, s, 0, level + 1, i + 1 + blen(end_line(l)), true);
        ws_before(c, i + 1, end_line(l), true);
        punct(b, i);
    }
}
pub proof fn elems_rt(c: Cx, l: Layout, s: Seq<Tree>, k: nat, level: nat, i: int, first: bool)
    requires c.g, json_layout(l), k < s.len(), level >= 1, elems_ok(s, k),
        here(c.b, i, tail_elems(l, s, k, level) + (margin(l, (level - 1) as nat) + seq![']'])),
    ensures g_elems(c, i, first) == Some((rereads(s, k), i + blen(tail_elems(l, s, k, level) + (margin(l, (level - 1) as nat) + seq![']'])))),
    decreases s, s.len() - k
{
    hide(g_elems); hide(g_value); hide(here); hide(show); hide(lex); hide(lex_at); hide(blen); hide(margin); hide(end_line); hide(stop); hide(all_ws); hide(json_layout);
    let b = c.b;
    let m = margin(l, level); let m0 = margin(l, (level - 1) as nat); let n = end_line(l);
    let x = show(l, s[k as int], level);
    let close = m0 + seq![']'];
    let rest = tail_elems(l, s, k + 1, level) + close;
    let all = tail_elems(l, s, k, level) + close;
    ws_layout(l, level); ws_layout(l, (level - 1) as nat);
    let more = k + 1 < s.len();
    let after = if more { seq![','] + (n + rest) } else { (n + m0) + seq![']'] };
    assert(all =~= m + (x + after));
    split(b, i, m, x + after);
    let p = i + blen(m);
    split(b, p, x, after);
    let r = p + blen(x);
    here_in(b, i, m); here_in(b, p, x);
    let v = reread(s[k as int]);
    let z = r + blen(after);
    if more {
        split(b, r, seq![','], n + rest); byte_here(b, r, ',');
        split(b, r + 1, n, rest);
        here_in(b, r + 1, n);
        elems_rt(c, l, s, k + 1, level, r + 1 + blen(n), false);
        ws_before(c, r + 1, n, false);
        punct(b, r);
    } else {
        close_here(c, r, n, m0, ']');
        assert(rereads(s, k + 1) =~= Seq::<Tree>::empty());
    }
    value_rt(c, l, s[k as int], level, p);
    ws_before(c, i, m, first);
    elems_step(c, i, first, v, r, rereads(s, k + 1), z);
}
#[verifier::spinoff_prover]
#[verifier::rlimit(50)]
pub proof fn members_rt(c: Cx, l: Layout, s: Seq<(JS, Tree)>, k: nat, level: nat, i: int, first: bool)
    requires c.g, json_layout(l), k < s.len(), level >= 1, members_ok(s, k),
        here(c.b, i, tail_members(l, s, k, level) + (margin(l, (level - 1) as nat) + seq!['}'])),
    ensures g_members(c, i, first) == Some((rereadm(s, k), i + blen(tail_members(l, s, k, level) + (margin(l, (level - 1) as nat) + seq!['}'])))),
    decreases s, s.len() - k
{
    hide(g_members); hide(g_value); hide(here); hide(show); hide(lex); hide(lex_at); hide(blen); hide(margin); hide(end_line); hide(stop); hide(all_ws); hide(json_layout); hide(quoted); hide(js_ok); hide(read_back);
    let b = c.b;
    let m = margin(l, level); let m0 = margin(l, (level - 1) as nat); let n = end_line(l);
    let key = quoted(s[k as int].0);
    let x = show(l, s[k as int].1, level);
    let close = m0 + seq!['}'];
    let rest = tail_members(l, s, k + 1, level) + close;
    let all = tail_members(l, s, k, level) + close;
    let sp = if l.pretty { seq![' '] } else { seq![] };
    ws_layout(l, level); ws_layout(l, (level - 1) as nat);
    let more = k + 1 < s.len();
    let after = if more { seq![','] + (n + rest) } else { (n + m0) + seq!['}'] };
    assert(colon(l) =~= seq![':'] + sp);
    assert(all =~= m + (key + (seq![':'] + (sp + (x + after)))));
    split(b, i, m, key + (seq![':'] + (sp + (x + after))));
    let p = i + blen(m);
    split(b, p, key, seq![':'] + (sp + (x + after)));
    quoted_here(s[k as int].0, b, p);
    let q = p + blen(key);
    split(b, q, seq![':'], sp + (x + after)); byte_here(b, q, ':');
    split(b, q + 1, sp, x + after);
    let v = q + 1 + blen(sp);
    split(b, v, x, after);
    let r = v + blen(x);
    here_in(b, i, m); here_in(b, p, key); here_in(b, q + 1, sp); here_in(b, v, x);
    let z = r + blen(after);
    if more {
        split(b, r, seq![','], n + rest); byte_here(b, r, ',');
        split(b, r + 1, n, rest);
        here_in(b, r + 1, n);
        members_rt(c, l, s, k + 1, level, r + 1 + blen(n), false);
        ws_before(c, r + 1, n, false);
        punct(b, r);
    } else {
        close_here(c, r, n, m0, '}');
        assert(rereadm(s, k + 1) =~= Seq::<(JS, Tree)>::empty());
    }
    value_rt(c, l, s[k as int].1, level, v);
    assert(all_ws(sp)) by { reveal(all_ws); }
    ws_before(c, q + 1, sp, first);
    punct(b, p); punct(b, q);
    ws_before(c, i, m, first);
    members_step(c, i, first, read_back(s[k as int].0), q, q + 1, reread(s[k as int].1), r, rereadm(s, k + 1), z);
}

// ------------------------------------------------------------------ the theorem
/// equal as values: the same structure, numbers and texts
pub open spec fn same_value(t: Tree, u: Tree) -> bool decreases t, 0nat
{
    match (t, u) {
        (Tree::Null, Tree::Null) => true,
        (Tree::Bool(a), Tree::Bool(b)) => a == b,
        (Tree::Num(a), Tree::Num(b)) => a == b,
        (Tree::Str(a), Tree::Str(b)) => text(a) == text(b),
        (Tree::Arr(a), Tree::Arr(b)) => a.len() == b.len() && same_elems(a, b, 0),
        (Tree::Obj(a), Tree::Obj(b)) => a.len() == b.len() && same_members(a, b, 0),
        _ => false,
    }
}
pub open spec fn same_elems(a: Seq<Tree>, b: Seq<Tree>, k: nat) -> bool decreases a, a.len() - k
{ k < a.len() ==> same_value(a[k as int], b[k as int]) && same_elems(a, b, k + 1) }
pub open spec fn same_members(a: Seq<(JS, Tree)>, b: Seq<(JS, Tree)>, k: nat) -> bool decreases a, a.len() - k
{ k < a.len() ==> text(a[k as int].0) == text(b[k as int].0) && same_value(a[k as int].1, b[k as int].1) && same_members(a, b, k + 1) }

pub proof fn rereads_at(s: Seq<Tree>, k: nat)
    requires k <= s.len(),
    ensures rereads(s, k).len() == s.len() - k, forall|i: int| k <= i < s.len() ==> rereads(s, k)[i - k] == reread(#[trigger] s[i]),
        k < s.len() ==> rereads(s, k)[0] == reread(s[k as int]) && rereads(s, k).drop_first() == rereads(s, k + 1),
    decreases s.len() - k
{ if k < s.len() { rereads_at(s, k + 1); assert(rereads(s, k).drop_first() =~= rereads(s, k + 1)); assert forall|i: int| k <= i < s.len() implies rereads(s, k)[i - k] == reread(#[trigger] s[i]) by { if i > k { assert(rereads(s, k + 1)[i - (k + 1)] == reread(s[i])); } } } }
pub proof fn rereadm_at(s: Seq<(JS, Tree)>, k: nat)
    requires k <= s.len(),
    ensures rereadm(s, k).len() == s.len() - k, forall|i: int| k <= i < s.len() ==> rereadm(s, k)[i - k] == (read_back((#[trigger] s[i]).0), reread(s[i].1)),
        k < s.len() ==> rereadm(s, k)[0] == (read_back(s[k as int].0), reread(s[k as int].1)) && rereadm(s, k).drop_first() == rereadm(s, k + 1),
    decreases s.len() - k
{ if k < s.len() { rereadm_at(s, k + 1); assert(rereadm(s, k).drop_first() =~= rereadm(s, k + 1)); assert forall|i: int| k <= i < s.len() implies rereadm(s, k)[i - k] == (read_back((#[trigger] s[i]).0), reread(s[i].1)) by { if i > k { assert(rereadm(s, k + 1)[i - (k + 1)] == (read_back(s[i].0), reread(s[i].1))); } } } }
pub proof fn reread_same(t: Tree)
    requires tree_ok(t),
    ensures same_value(t, reread(t)), depth(reread(t)) == depth(t), kind(reread(t)) == kind(t),
    decreases t, 0nat
{
    match t {
        Tree::Str(j) => { escaped_scan(j); },
        Tree::Arr(s) => { rereads_at(s, 0); rereads_same(s, 0); assert(s.skip(0) =~= s); },
        Tree::Obj(s) => { rereadm_at(s, 0); rereadm_same(s, 0); assert(s.skip(0) =~= s); },
        _ => {},
    }
}
pub proof fn rereads_same(s: Seq<Tree>, k: nat)
    requires elems_ok(s, k), k <= s.len(),
    ensures same_elems(s, rereads(s, 0), k), depths(rereads(s, k)) == depths(s.skip(k as int)),
    decreases s, s.len() - k
{
    hide(rereads);
    rereads_at(s, 0); rereads_at(s, k);
    if k < s.len() {
        assert(s.skip(k as int)[0] == s[k as int]);
        reread_same(s[k as int]); rereads_same(s, k + 1);
        assert(rereads(s, 0)[k as int - 0] == reread(s[k as int]));
        assert(s.skip(k as int).drop_first() =~= s.skip(k as int + 1));
    }
}
pub proof fn rereadm_same(s: Seq<(JS, Tree)>, k: nat)
    requires members_ok(s, k), k <= s.len(),
    ensures same_members(s, rereadm(s, 0), k), depthm(rereadm(s, k)) == depthm(s.skip(k as int)),
    decreases s, s.len() - k
{
    hide(rereadm); hide(js_ok); hide(read_back); hide(text);
    rereadm_at(s, 0); rereadm_at(s, k);
    if k < s.len() {
        assert(s.skip(k as int)[0] == s[k as int]);
        escaped_scan(s[k as int].0); reread_same(s[k as int].1); rereadm_same(s, k + 1);
        assert(rereadm(s, 0)[k as int - 0] == (read_back(s[k as int].0), reread(s[k as int].1)));
        assert(s.skip(k as int).drop_first() =~= s.skip(k as int + 1));
    }
}
/// C07: the text of a value, in any layout of JSON whitespace, is accepted (depth permitting), with or without trailing commas
/// allowed, and is an equal value
pub proof fn roundtrip_thm(l: Layout, t: Tree, cfg: ParseConfig)
    requires json_layout(l), tree_ok(t), cfg.allow_all_types_at_root || kind(t) is Object || kind(t) is Array, cfg.recursion_limit matches Some(n) ==> depth(t) <= n,
    ensures accepted(encode_utf8(show(l, t, 0)), true, cfg) == Some(reread(t)), same_value(t, reread(t)),
{
    let b = encode_utf8(show(l, t, 0));
    let c = cx(b, true, cfg);
    assert(b.subrange(0, b.len() as int) =~= b);
    value_rt(c, l, t, 0, 0);
    reread_same(t);
}
}
verus! {
pub proof fn elems_ok_all(s: Seq<Tree>, k: nat)
    requires forall|i: int| k <= i < s.len() ==> tree_ok(#[trigger] s[i]),
    ensures elems_ok(s, k),
    decreases s.len() - k
{ if k < s.len() { elems_ok_all(s, k + 1); } }
pub proof fn members_ok_all(s: Seq<(JS, Tree)>, k: nat)
    requires forall|i: int| k <= i < s.len() ==> js_ok((#[trigger] s[i]).0) && tree_ok(s[i].1),
    ensures members_ok(s, k),
    decreases s.len() - k
{ if k < s.len() { members_ok_all(s, k + 1); } }
/// C07 in the words of the output functions: what is written is accepted as an equal value
pub open spec fn reads_back(out: Seq<char>, t: Tree) -> bool {
    depth(t) <= 128 ==> (accepted(encode_utf8(out), true, dflt()) matches Some(u) && u == reread(t) && same_value(t, u))
}
pub proof fn reads_back_thm(l: Layout, t: Tree)
    requires tree_ok(t), json_layout(l),
    ensures reads_back(show(l, t, 0), t),
{ if depth(t) <= 128 { roundtrip_thm(l, t, dflt()); } }
}

// Strings: what a literal decodes to, how text is escaped, and that the two undo each other.
#[allow(unused_imports)] use vstd::prelude::*;
use vstd::utf8::*;
use crate::error::*;
use crate::spec::*;
use crate::lemmas::*;
verus! {
// ------------------------------------------------------------------ decoding
/// scanning a literal reads only up to its closing quote
pub proof fn hexn_sub(b: Seq<u8>, k: int, e: int, i: int, n: nat, acc: int)
    requires 0 <= k <= i, e <= b.len(), 0 <= acc, hexn(b, i, n, acc) is Ok, i + n <= e,
    ensures hexn(b.subrange(k, e), i - k, n, acc) == hexn(b, i, n, acc),
    decreases n
{ if n > 0 { hexn_bounds(b, i, n, acc); hexn_sub(b, k, e, i + 1, (n - 1) as nat, acc * 16 + hexval(b[i])); } }
pub proof fn esc_sub(b: Seq<u8>, k: int, e: int, i: int)
    requires 0 <= k <= i <= b.len(), e <= b.len(), esc(b, i) matches Esc::Ok(z, _) && z <= e,
    ensures esc(b.subrange(k, e), i - k) == Esc::Ok(esc(b, i)->Ok_0 - k, esc(b, i)->Ok_1),
{
    let s = b.subrange(k, e);
    esc_bounds(b, i);
    if short_escape(b[i]) is None {
        hexn_bounds(b, i + 1, 4, 0); hexn_sub(b, k, e, i + 1, 4, 0);
        if !scalar(hexn(b, i + 1, 4, 0)->Ok_0) { hexn_bounds(b, i + 7, 4, 0); hexn_sub(b, k, e, i + 7, 4, 0); }
    }
}
pub proof fn high_end_sub(b: Seq<u8>, k: int, e: int, i: int)
    requires 0 <= k <= i < e <= b.len(), b[e - 1] < 128,
    ensures high_end(b.subrange(k, e), i - k) == high_end(b, i) - k, high_end(b, i) < e,
    decreases e - i
{ if b[i] >= 128 { high_end_sub(b, k, e, i + 1); } }
pub open spec fn back(s: Scan, k: int) -> Scan { match s { Scan::Done(e, d, es) => Scan::Done(e - k, d, es), Scan::Bad(o, x) => Scan::Bad(o - k, x) } }
#[verifier::spinoff_prover]
#[verifier::rlimit(50)]
pub proof fn scan_sub(b: Seq<u8>, k: int, i: int, g: bool)
    requires 0 <= k <= i <= b.len(), scan(b, i, g) is Done,
    ensures scan(b.subrange(k, scan(b, i, g)->Done_0 + 1), i - k, g) == back(scan(b, i, g), k),
    decreases b.len() - i
{
    let e = scan(b, i, g)->Done_0;
    let s = b.subrange(k, e + 1);
    scan_bounds(b, i, g);
    if b[i] == 0x22 {
    } else if b[i] == 0x5c {
        let z = esc(b, i + 1)->Ok_0;
        esc_bounds(b, i + 1);
        scan_bounds(b, z, g);
        esc_sub(b, k, e + 1, i + 1);
        scan_sub(b, k, z, g);
    } else if b[i] >= 0x80 && !g {
        let z = high_end(b, i);
        scan_bounds(b, z, g);
        high_end_sub(b, k, e + 1, i);
        assert(s.subrange(i - k, z - k) =~= b.subrange(i, z));
        scan_sub(b, k, z, g);
    } else {
        scan_bounds(b, i + 1, g);
        scan_sub(b, k, i + 1, g);
    }
}
/// a run of bytes above 0x7f is taken as it is
pub proof fn scan_high(b: Seq<u8>, i: int, e: int)
    requires 0 <= i <= e <= b.len(), forall|q: int| i <= q < e ==> #[trigger] b[q] >= 0x80,
    ensures scan(b, i, true) == prepend(b.subrange(i, e), false, scan(b, e, true)),
    decreases e - i
{
    if i < e {
        scan_high(b, i + 1, e);
        prepend_prepend(seq![b[i]], false, b.subrange(i + 1, e), false, scan(b, e, true));
        assert(seq![b[i]] + b.subrange(i + 1, e) =~= b.subrange(i, e));
    } else {
        let s = scan(b, e, true);
        assert(b.subrange(i, e) =~= Seq::<u8>::empty());
        if s is Done { assert(Seq::<u8>::empty() + s->Done_1 =~= s->Done_1); }
    }
}
/// what is accepted with the UTF-8 check is accepted without it
pub proof fn scan_unchecked(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len(), scan(b, i, false) is Done,
    ensures scan(b, i, true) == scan(b, i, false),
    decreases b.len() - i
{
    scan_bounds(b, i, false);
    if b[i] == 0x22 {
    } else if b[i] == 0x5c { esc_bounds(b, i + 1); scan_unchecked(b, esc(b, i + 1)->Ok_0);
    } else if b[i] >= 0x80 {
        high_end_bounds(b, i);
        scan_high(b, i, high_end(b, i));
        scan_unchecked(b, high_end(b, i));
    } else { scan_unchecked(b, i + 1); }
}
/// a literal by itself: its content, with the closing quote
pub open spec fn lit(src: Seq<u8>) -> Seq<u8> { src.push(0x22) }
pub proof fn scan_lit(b: Seq<u8>, i: int, g: bool)
    requires 0 <= i <= b.len(), scan(b, i, g) is Done,
    ensures ({ let s = scan(b, i, g); scan(lit(b.subrange(i, s->Done_0)), 0, true) == Scan::Done(s->Done_0 - i, s->Done_1, s->Done_2) }),
{
    let e = scan(b, i, g)->Done_0;
    scan_bounds(b, i, g);
    if !g { scan_unchecked(b, i); }
    scan_sub(b, i, i, true);
    assert(lit(b.subrange(i, e)) =~= b.subrange(i, e + 1));
}

// ------------------------------------------------------------------ strings as the library holds them
/// the UTF-8 bytes of the text a string stands for
pub open spec fn contents(j: JS) -> Seq<u8> { if j.json { scan(lit(j.src), 0, true)->Done_1 } else { j.src } }
/// the flag and the length are what they are said to be
pub open spec fn js_ok(j: JS) -> bool {
    &&& valid_utf8(j.src)
    &&& j.src.len() <= max_len()
    &&& 0 <= j.len <= 6 * max_len()
    &&& j.json ==> scan(lit(j.src), 0, true) == Scan::Done(j.src.len() as int, contents(j), j.esc) && contents(j).len() == j.len
    &&& !j.json ==> j.esc && needs(decode_utf8(j.src)) && j.len == encode_utf8(escape(decode_utf8(j.src))).len()
}
/// without escapes the content is the source
pub proof fn plain(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len(), scan(b, i, true) matches Scan::Done(_, _, es) && !es,
    ensures scan(b, i, true)->Done_1 == b.subrange(i, scan(b, i, true)->Done_0), i <= scan(b, i, true)->Done_0,
    decreases b.len() - i
{
    if b[i] != 0x22 {
        scan_bounds(b, i, true); scan_bounds(b, i + 1, true);
        plain(b, i + 1);
        assert(seq![b[i]] + b.subrange(i + 1, scan(b, i, true)->Done_0) =~= b.subrange(i, scan(b, i, true)->Done_0));
    } else { assert(b.subrange(i, i) =~= Seq::<u8>::empty()); }
}
pub proof fn plain_contents(j: JS)
    requires js_ok(j), j.json, !j.esc,
    ensures contents(j) == j.src,
{ plain(lit(j.src), 0); assert(lit(j.src).subrange(0, j.src.len() as int) =~= j.src); }

// ------------------------------------------------------------------ escaping
pub open spec fn hex_digit(n: int) -> char { if n < 10 { (0x30 + n) as char } else { (0x57 + n) as char } }
pub open spec fn hex_digits(cp: int, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { Seq::empty() } else { seq![hex_digit((cp / 4096) % 16)] + hex_digits((cp * 16) % 65536, n - 1) } }
/// how one character is written inside a literal
pub open spec fn short(c: char) -> Option<char> {
    if c == '"' { Some('"') } else if c == '\\' { Some('\\') } else if c == '\n' { Some('n') } else if c == '\r' { Some('r') }
    else if c == '\t' { Some('t') } else if c == '\x0c' { Some('f') } else if c == bell() { Some('b') } else { None }
}
pub open spec fn escape1(c: char) -> Seq<char> {
    match short(c) {
        Some(x) => seq!['\\', x],
        None => if (c as u32) < 32 { seq!['\\', 'u'] + hex_digits(c as int, 4) } else { seq![c] },
    }
}
pub open spec fn escape(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { escape1(s[0]) + escape(s.drop_first()) } }
/// some character has to be escaped
pub open spec fn needs1(c: char) -> bool { short(c) is Some || (c as u32) < 32 }
pub open spec fn needs(s: Seq<char>) -> bool
    decreases s.len()
{ s.len() > 0 && (needs1(s[0]) || needs(s.drop_first())) }
}

verus! {
// ------------------------------------------------------------------ bytes of characters
pub proof fn enc_cons(s: Seq<char>)
    requires s.len() > 0,
    ensures encode_utf8(s) == encode_utf8(seq![s[0]]) + encode_utf8(s.drop_first()),
{ enc1(s[0]); }
pub proof fn enc_add(a: Seq<char>, b: Seq<char>)
    ensures encode_utf8(a + b) == encode_utf8(a) + encode_utf8(b),
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(encode_utf8(a) =~= Seq::<u8>::empty()); assert(Seq::<u8>::empty() + encode_utf8(b) =~= encode_utf8(b)); }
    else {
        enc_cons(a); enc_cons(a + b);
        assert((a + b).drop_first() =~= a.drop_first() + b);
        enc_add(a.drop_first(), b);
        assert(encode_utf8(seq![a[0]]) + (encode_utf8(a.drop_first()) + encode_utf8(b)) =~= (encode_utf8(seq![a[0]]) + encode_utf8(a.drop_first())) + encode_utf8(b));
    }
}
pub proof fn enc_ascii(c: char)
    requires (c as u32) < 128,
    ensures encode_utf8(seq![c]) == seq![c as u8],
{ ascii_valid(c as u8); assert((c as u8) as char == c); }
pub proof fn enc_high(c: char)
    requires (c as u32) >= 128,
    ensures forall|i: int| 0 <= i < encode_utf8(seq![c]).len() ==> #[trigger] encode_utf8(seq![c])[i] >= 128, encode_utf8(seq![c]).len() >= 2,
{
    enc1(c);
    let v = c as u32;
    assert(forall|x: u8| 0xC0u8 | x >= 128) by (bit_vector);
    assert(forall|x: u8| 0xE0u8 | x >= 128) by (bit_vector);
    assert(forall|x: u8| 0xF0u8 | x >= 128) by (bit_vector);
    assert(forall|x: u8| 0x80u8 | x >= 128) by (bit_vector);
}
}

verus! {
// ------------------------------------------------------------------ escaping and decoding undo each other
pub proof fn hex_digit_ok(n: int)
    requires 0 <= n < 16,
    ensures (hex_digit(n) as u32) < 128, is_hex(hex_digit(n) as u8), hexval(hex_digit(n) as u8) == n,
{ }
pub proof fn hex_digits4(cp: int)
    requires 0 <= cp < 65536,
    ensures hex_digits(cp, 4) == seq![hex_digit(cp / 4096), hex_digit((cp / 256) % 16), hex_digit((cp / 16) % 16), hex_digit(cp % 16)],
{
    reveal_with_fuel(hex_digits, 5);
    let c1 = (cp * 16) % 65536; let c2 = (c1 * 16) % 65536; let c3 = (c2 * 16) % 65536;
    assert(c1 / 4096 == (cp / 256) % 16) by (nonlinear_arith) requires 0 <= cp < 65536, c1 == (cp * 16) % 65536;
    assert(c2 / 4096 == (cp / 16) % 16) by (nonlinear_arith) requires 0 <= cp < 65536, c1 == (cp * 16) % 65536, c2 == (c1 * 16) % 65536;
    assert(c3 / 4096 == cp % 16) by (nonlinear_arith) requires 0 <= cp < 65536, c1 == (cp * 16) % 65536, c2 == (c1 * 16) % 65536, c3 == (c2 * 16) % 65536;
    assert(hex_digits(cp, 4) =~= seq![hex_digit((cp / 4096) % 16), hex_digit((c1 / 4096) % 16), hex_digit((c2 / 4096) % 16), hex_digit((c3 / 4096) % 16)]);
}
pub proof fn enc2(a: char, b: char)
    requires (a as u32) < 128, (b as u32) < 128,
    ensures encode_utf8(seq![a, b]) == seq![a as u8, b as u8],
{
    enc_add(seq![a], seq![b]); enc_ascii(a); enc_ascii(b);
    assert(seq![a] + seq![b] =~= seq![a, b]);
    assert(seq![a as u8] + seq![b as u8] =~= seq![a as u8, b as u8]);
}
/// the bytes of `\u` and four digits
pub proof fn enc_unicode(c: char)
    requires short(c) is None, (c as u32) < 32,
    ensures encode_utf8(escape1(c)) == seq![0x5cu8, 0x75, hex_digit(0) as u8, hex_digit(0) as u8, hex_digit(c as int / 16) as u8, hex_digit(c as int % 16) as u8],
{
    let cp = c as int;
    hex_digits4(cp);
    let d = hex_digits(cp, 4);
    hex_digit_ok(0); hex_digit_ok(cp / 16); hex_digit_ok(cp % 16);
    assert(cp / 4096 == 0 && (cp / 256) % 16 == 0 && (cp / 16) % 16 == cp / 16);
    enc2('\\', 'u');
    enc2(d[0], d[1]); enc2(d[2], d[3]);
    enc_add(seq![d[0], d[1]], seq![d[2], d[3]]);
    assert(d =~= seq![d[0], d[1]] + seq![d[2], d[3]]);
    enc_add(seq!['\\', 'u'], d);
    assert(encode_utf8(escape1(c)) =~= seq![0x5cu8, 0x75, hex_digit(0) as u8, hex_digit(0) as u8, hex_digit(cp / 16) as u8, hex_digit(cp % 16) as u8]);
}
/// reading back what one character was written as
pub proof fn escape1_scan(c: char, b: Seq<u8>, i: int)
    requires 0 <= i, i + encode_utf8(escape1(c)).len() < b.len(), b.subrange(i, i + encode_utf8(escape1(c)).len()) == encode_utf8(escape1(c)),
    ensures scan(b, i, true) == prepend(encode_utf8(seq![c]), needs1(c), scan(b, i + encode_utf8(escape1(c)).len(), true)),
        encode_utf8(escape1(c)).len() > 0,
{
    let x = encode_utf8(escape1(c));
    let n = x.len() as int;
    assert(forall|q: int| 0 <= q < n ==> b[i + q] == #[trigger] b.subrange(i, i + n)[q]);
    enc1(c);
    if short(c) is Some {
        let y = short(c)->0;
        enc2('\\', y);
        assert(b[i + 0] == 0x5c && b[i + 1] == y as u8);
        assert(short_escape(y as u8) == Some(c));
    } else if (c as u32) < 32 {
        let cp = c as int;
        enc_unicode(c);
        hex_digit_ok(0); hex_digit_ok(cp / 16); hex_digit_ok(cp % 16);
        assert(b[i + 0] == x[0] && b[i + 1] == x[1] && b[i + 2] == x[2] && b[i + 3] == x[3] && b[i + 4] == x[4] && b[i + 5] == x[5]);
        reveal_with_fuel(hexn, 5);
        assert(hexn(b, i + 2, 4, 0) == Hex::Ok(cp));
        assert(esc(b, i + 1) == Esc::Ok(i + 6, c));
    } else {
        assert(escape1(c) == seq![c]);
        if (c as u32) < 128 {
            enc_ascii(c);
            assert(x == seq![c as u8]);
            assert(b[i + 0] == x[0]);
            assert(b[i] != 0x22) by { if b[i] == 0x22 { assert(c == '"'); } }
            assert(b[i] != 0x5c) by { if b[i] == 0x5c { assert(c == '\\'); } }
        } else {
            enc_high(c);
            assert forall|q: int| i <= q < i + n implies #[trigger] b[q] >= 0x80 by { assert(b[i + (q - i)] == x[q - i]); }
            scan_high(b, i, i + n);
        }
    }
}
pub proof fn escape_scan(s: Seq<char>, b: Seq<u8>, i: int)
    requires 0 <= i, i + encode_utf8(escape(s)).len() + 1 == b.len(), b.subrange(i, b.len() as int) == lit(encode_utf8(escape(s))),
    ensures scan(b, i, true) == Scan::Done(b.len() - 1, encode_utf8(s), needs(s)),
    decreases s.len()
{
    let x = encode_utf8(escape(s));
    assert(b[b.len() - 1] == b.subrange(i, b.len() as int)[b.len() - 1 - i]);
    if s.len() == 0 {
        assert(encode_utf8(escape(s)) =~= Seq::<u8>::empty());
        assert(encode_utf8(s) =~= Seq::<u8>::empty());
    } else {
        let c = s[0]; let r = s.drop_first();
        let a = encode_utf8(escape1(c));
        let n = a.len() as int;
        enc_add(escape1(c), escape(r));
        assert forall|q: int| 0 <= q < x.len() implies b[i + q] == #[trigger] x[q] by { assert(b[i + q] == b.subrange(i, b.len() as int)[q]); }
        assert(b.subrange(i, i + n) =~= a) by { assert forall|q: int| 0 <= q < n implies b[i + q] == a[q] by { assert(x[q] == a[q]); } }
        assert(b.subrange(i + n, b.len() as int) =~= lit(encode_utf8(escape(r)))) by {
            assert forall|q: int| 0 <= q < x.len() - n implies b[i + n + q] == encode_utf8(escape(r))[q] by { assert(x[n + q] == encode_utf8(escape(r))[q]); assert(b[i + (n + q)] == x[n + q]); }
        }
        escape1_scan(c, b, i);
        escape_scan(r, b, i + n);
        enc_cons(s);
    }
}
/// what has nothing to escape is written as it is
pub proof fn escape_plain(s: Seq<char>)
    requires !needs(s),
    ensures escape(s) == s,
    decreases s.len()
{
    if s.len() > 0 { escape_plain(s.drop_first()); assert(seq![s[0]] + s.drop_first() =~= s); }
    else { assert(escape(s) =~= s); }
}
}

verus! {
// ------------------------------------------------------------------ decoding characters
/// leading ASCII bytes are characters of their own
pub proof fn ascii_prefix(s: Seq<char>, k: int)
    requires 0 <= k <= encode_utf8(s).len(), forall|q: int| 0 <= q < k ==> #[trigger] encode_utf8(s)[q] < 128,
    ensures k <= s.len(), forall|q: int| 0 <= q < k ==> (#[trigger] s[q]) as u32 == encode_utf8(s)[q],
        encode_utf8(s.skip(k)) == encode_utf8(s).subrange(k, encode_utf8(s).len() as int),
    decreases k
{
    let x = encode_utf8(s);
    if k == 0 { assert(s.skip(0) =~= s); assert(x.subrange(0, x.len() as int) =~= x); }
    else {
        if s.len() == 0 { assert(x =~= Seq::<u8>::empty()); }
        let r = s.drop_first();
        enc_cons(s); enc1(s[0]);
        assert(x[0] == encode_utf8(seq![s[0]])[0]);
        if s[0] as u32 >= 128 { enc_high(s[0]); }
        enc_ascii(s[0]);
        assert forall|q: int| 0 <= q < k - 1 implies #[trigger] encode_utf8(r)[q] < 128 && encode_utf8(r)[q] == x[q + 1] by { assert(x[q + 1] < 128); }
        ascii_prefix(r, k - 1);
        assert forall|q: int| 0 <= q < k implies (#[trigger] s[q]) as u32 == x[q] by { if q > 0 { assert(s[q] == r[q - 1]); } }
        assert(s.skip(k) =~= r.skip(k - 1));
        assert(x.subrange(k, x.len() as int) =~= encode_utf8(r).subrange(k - 1, encode_utf8(r).len() as int));
    }
}
/// `s` is the rest of the literal from `i` on
pub open spec fn rest_of(b: Seq<u8>, i: int, s: Seq<char>) -> bool {
    &&& 0 <= i && i + encode_utf8(s).len() + 1 == b.len()
    &&& b.subrange(i, b.len() - 1) == encode_utf8(s)
    &&& b[b.len() - 1] == 0x22
    &&& scan(b, i, true) is Done && scan(b, i, true)->Done_0 == b.len() - 1
}
/// how far the next decoded character reaches, in characters (and, being a plain character or ASCII, in bytes)
pub open spec fn unit(b: Seq<u8>, i: int, s: Seq<char>) -> int { if s[0] == '\\' { esc(b, i + 1)->Ok_0 - i } else { 1 } }
pub proof fn decode_step(b: Seq<u8>, i: int, s: Seq<char>)
    requires rest_of(b, i, s), s.len() > 0,
    ensures
        s[0] != '\\' ==> scan(b, i, true) == prepend(encode_utf8(seq![s[0]]), false, scan(b, i + encode_utf8(seq![s[0]]).len(), true))
            && rest_of(b, i + encode_utf8(seq![s[0]]).len(), s.drop_first()),
        s[0] == '\\' ==> b[i] == 0x5c && esc(b, i + 1) is Ok && ({
            let z = esc(b, i + 1)->Ok_0; let c = esc(b, i + 1)->Ok_1;
            &&& i + 2 <= z < b.len() && z - i <= s.len()
            &&& forall|q: int| 0 <= q < z - i ==> (#[trigger] s[q]) as u32 == b[i + q]
            &&& scan(b, i, true) == prepend(encode_utf8(seq![c]), true, scan(b, z, true))
            &&& rest_of(b, z, s.skip(z - i))
        }),
{
    let x = encode_utf8(s);
    let e = b.len() - 1;
    let c = s[0];
    assert forall|q: int| 0 <= q < x.len() implies b[i + q] == #[trigger] x[q] by { assert(b[i + q] == b.subrange(i, e)[q]); }
    enc_cons(s); enc1(c);
    let n = encode_utf8(seq![c]).len() as int;
    assert(b[i] == x[0]);
    scan_bounds(b, i, true);
    if c != '\\' {
        let r = s.drop_first();
        assert(b.subrange(i + n, e) =~= encode_utf8(r)) by {
            assert forall|q: int| 0 <= q < x.len() - n implies b[i + n + q] == encode_utf8(r)[q] by { assert(x[n + q] == encode_utf8(r)[q]); assert(b[i + (n + q)] == x[n + q]); }
        }
        if (c as u32) < 128 { enc_ascii(c); assert(b[i] == c as u8); assert(encode_utf8(seq![c]) == seq![b[i]]); }
        else {
            enc_high(c);
            assert forall|q: int| i <= q < i + n implies #[trigger] b[q] >= 0x80 by { assert(b[i + (q - i)] == x[q - i]); }
            scan_high(b, i, i + n);
            assert(b.subrange(i, i + n) =~= encode_utf8(seq![c])) by { assert forall|q: int| 0 <= q < n implies b[i + q] == encode_utf8(seq![c])[q] by { assert(b[i + q] == x[q]); } }
        }
        scan_bounds(b, i + n, true);
    } else {
        enc_ascii(c);
        let z = esc(b, i + 1)->Ok_0;
        esc_bounds(b, i + 1); esc_ascii(b, i + 1); scan_bounds(b, z, true);
        assert forall|q: int| 0 <= q < z - i implies #[trigger] x[q] < 128 by { assert(b[i + q] == x[q]); }
        ascii_prefix(s, z - i);
        assert forall|q: int| 0 <= q < z - i implies (#[trigger] s[q]) as u32 == b[i + q] by { assert(b[i + q] == x[q]); }
        assert(b.subrange(z, e) =~= x.subrange(z - i, x.len() as int)) by {
            assert forall|q: int| 0 <= q < e - z implies b[z + q] == #[trigger] x.subrange(z - i, x.len() as int)[q] by { assert(b[i + (z - i + q)] == x[z - i + q]); }
        }
    }
}
/// what a literal decodes to is text
pub proof fn decoded_valid(b: Seq<u8>, i: int, s: Seq<char>)
    requires rest_of(b, i, s),
    ensures valid_utf8(scan(b, i, true)->Done_1),
    decreases s.len()
{
    if s.len() == 0 {
        assert(encode_utf8(s) =~= Seq::<u8>::empty());
        encode_utf8_valid_utf8(s);
    } else {
        decode_step(b, i, s);
        let c = if s[0] == '\\' { esc(b, i + 1)->Ok_1 } else { s[0] };
        encode_utf8_valid_utf8(seq![c]);
        if s[0] == '\\' { let z = esc(b, i + 1)->Ok_0; decoded_valid(b, z, s.skip(z - i)); valid_utf8_concat(encode_utf8(seq![c]), scan(b, z, true)->Done_1); }
        else { let z = i + encode_utf8(seq![c]).len(); decoded_valid(b, z, s.drop_first()); valid_utf8_concat(encode_utf8(seq![c]), scan(b, z, true)->Done_1); }
    }
}
pub proof fn contents_valid(j: JS)
    requires js_ok(j),
    ensures valid_utf8(contents(j)), encode_utf8(text(j)) == contents(j),
{
    if j.json {
        let s = decode_utf8(j.src);
        decode_utf8_encode_utf8(j.src);
        assert(lit(j.src).subrange(0, lit(j.src).len() - 1) =~= j.src);
        decoded_valid(lit(j.src), 0, s);
    }
    decode_utf8_encode_utf8(contents(j));
}
/// the text a string stands for
pub open spec fn text(j: JS) -> Seq<char> { decode_utf8(contents(j)) }
/// one character and the rest
pub proof fn dec_cons(c: char, d: Seq<u8>)
    requires valid_utf8(d),
    ensures decode_utf8(encode_utf8(seq![c]) + d) == seq![c] + decode_utf8(d),
{
    decode_utf8_encode_utf8(d);
    enc_add(seq![c], decode_utf8(d));
    encode_utf8_decode_utf8(seq![c] + decode_utf8(d));
}
}

verus! {
// ------------------------------------------------------------------ lengths
pub proof fn escape1_len(c: char)
    ensures encode_utf8(seq![c]).len() <= encode_utf8(escape1(c)).len() <= 6 * encode_utf8(seq![c]).len(), escape1(c).len() >= 1,
{
    enc1(c);
    if short(c) is Some { enc2('\\', short(c)->0); enc_ascii(c); }
    else if (c as u32) < 32 { enc_unicode(c); enc_ascii(c); hex_digits4(c as int); }
}
pub proof fn escape_len(s: Seq<char>)
    ensures encode_utf8(s).len() <= encode_utf8(escape(s)).len() <= 6 * encode_utf8(s).len(), s.len() <= escape(s).len(),
    decreases s.len()
{
    if s.len() == 0 { assert(escape(s) =~= s); }
    else { escape1_len(s[0]); escape_len(s.drop_first()); enc_cons(s); enc_add(escape1(s[0]), escape(s.drop_first())); }
}
/// the JSON source that stands for a string (what goes between the quotes)
pub open spec fn escaped(j: JS) -> Seq<u8> { if j.json { j.src } else { encode_utf8(escape(decode_utf8(j.src))) } }
/// a string made from text
pub open spec fn js_of(s: Seq<char>) -> JS {
    JS { json: !needs(s), src: encode_utf8(s), esc: needs(s), len: encode_utf8(escape(s)).len() as int }
}
pub proof fn js_of_ok(s: Seq<char>)
    requires encode_utf8(s).len() <= max_len(),
    ensures js_ok(js_of(s)), contents(js_of(s)) == encode_utf8(s), text(js_of(s)) == s,
{
    let j = js_of(s);
    escape_len(s);
    encode_utf8_valid_utf8(s); encode_utf8_decode_utf8(s);
    if !needs(s) {
        escape_plain(s);
        let b = lit(j.src);
        assert(b.subrange(0, b.len() as int) =~= b);
        escape_scan(s, b, 0);
    }
}
}

verus! {
pub proof fn empty_text(j: JS)
    requires js_ok(j),
    ensures (text(j).len() == 0) == (escaped(j).len() == 0),
{
    contents_valid(j);
    if text(j).len() == 0 { assert(contents(j) =~= Seq::<u8>::empty()); }
    else { enc_cons(text(j)); enc1(text(j)[0]); }
    if j.json {
        if j.src.len() > 0 {
            let b = lit(j.src); assert(b[0] == j.src[0]);
            scan_bounds(b, 0, true);
            if b[0] == 0x5c { esc_bounds(b, 1); enc1(esc(b, 1)->Ok_1); }
        }
    } else { escape_len(decode_utf8(j.src)); decode_utf8_encode_utf8(j.src); }
}
}

verus! {
/// escaping the first of several characters
pub proof fn escape_step(r: Seq<char>)
    requires r.len() > 0,
    ensures
        encode_utf8(escape(r)).len() == encode_utf8(escape1(r[0])).len() + encode_utf8(escape(r.drop_first())).len(),
        needs(r) == (needs1(r[0]) || needs(r.drop_first())),
        escape(r) == escape1(r[0]) + escape(r.drop_first()),
        short(r[0]) is Some ==> encode_utf8(escape1(r[0])).len() == 2,
        !needs1(r[0]) ==> escape1(r[0]) == seq![r[0]],
        needs1(r[0]) && short(r[0]) is None ==> encode_utf8(escape1(r[0])).len() == 6,
{
    let c = r[0];
    enc_add(escape1(c), escape(r.drop_first()));
    if short(c) is Some { enc2('\\', short(c)->0); }
    else if (c as u32) < 32 { enc_unicode(c); }
}
/// one hexadecimal digit from the top of a code unit
pub proof fn hex_shift(cp: u16)
    ensures ((cp >> 12u16) as u8 & 0xfu8) == cp as int / 4096, (cp << 4u16) == (cp as int * 16) % 65536, cp as int / 4096 < 16,
        hex_digit(cp as int / 4096) == (if cp as int / 4096 < 10 { (cp as int / 4096 + 0x30) as char } else { (cp as int / 4096 - 10 + 0x61) as char }),
{
    assert(((cp >> 12u16) as u8 & 0xfu8) == cp / 4096) by (bit_vector);
    assert((cp << 4u16) as u32 == (cp as u32 * 16) % 65536) by (bit_vector);
}
/// the next decoded character, and what follows it
pub proof fn decode_next(b: Seq<u8>, i: int, s: Seq<char>)
    requires rest_of(b, i, s),
    ensures ({
        let d = decode_utf8(scan(b, i, true)->Done_1);
        &&& s.len() == 0 ==> d.len() == 0
        &&& s.len() > 0 && s[0] != '\\' ==> ({ let z = i + encode_utf8(seq![s[0]]).len();
                rest_of(b, z, s.drop_first()) && d == seq![s[0]] + decode_utf8(scan(b, z, true)->Done_1) })
        &&& s.len() > 0 && s[0] == '\\' ==> b[i] == 0x5c && esc(b, i + 1) is Ok && ({
            let z = esc(b, i + 1)->Ok_0; let c = esc(b, i + 1)->Ok_1;
            &&& i + 2 <= z < b.len() && z - i <= s.len()
            &&& forall|q: int| 0 <= q < z - i ==> (#[trigger] s[q]) as u32 == b[i + q] && b[i + q] < 128
            &&& d == seq![c] + decode_utf8(scan(b, z, true)->Done_1)
            &&& rest_of(b, z, s.skip(z - i))
        })
    }),
{
    if s.len() == 0 {
        assert(encode_utf8(s) =~= Seq::<u8>::empty());
        assert(scan(b, i, true)->Done_1 =~= Seq::<u8>::empty());
        assert(decode_utf8(scan(b, i, true)->Done_1) =~= Seq::<char>::empty());
    } else {
        decode_step(b, i, s);
        if s[0] != '\\' {
            let z = i + encode_utf8(seq![s[0]]).len();
            decoded_valid(b, z, s.drop_first());
            dec_cons(s[0], scan(b, z, true)->Done_1);
        } else {
            let z = esc(b, i + 1)->Ok_0;
            decoded_valid(b, z, s.skip(z - i));
            dec_cons(esc(b, i + 1)->Ok_1, scan(b, z, true)->Done_1);
            esc_ascii(b, i + 1);
        }
    }
}
/// the four digits of an escape, read from a slice of their own
pub proof fn hex_window(src: Seq<u8>, k: int)
    requires 0 <= k, k + 4 <= src.len(), hexn(lit(src), k, 4, 0) is Ok,
    ensures hexn(src.subrange(k, k + 4), 0, 4, 0) == hexn(lit(src), k, 4, 0), 0 <= hexn(lit(src), k, 4, 0)->Ok_0 < 65536,
        valid_utf8(src.subrange(k, k + 4)),
{
    let b = lit(src);
    hexn_sub(b, k, k + 4, k, 4, 0);
    hexn_ascii(b, k, 4, 0);
    assert(b.subrange(k, k + 4) =~= src.subrange(k, k + 4));
    assert forall|q: int| 0 <= q < 4 implies #[trigger] src.subrange(k, k + 4)[q] < 128 by { assert(b[k + q] < 128); }
    ascii_seq_valid(src.subrange(k, k + 4));
    reveal_with_fuel(hexn, 5);
}
// ------------------------------------------------------------------ comparing texts
/// two texts of the same length in bytes that agree as far as the shorter one goes are the same
pub proof fn same_len_same(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a).len() == encode_utf8(b).len(), forall|i: int| 0 <= i < a.len() && i < b.len() ==> #[trigger] a[i] == b[i],
    ensures a == b,
    decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { enc_cons(b); enc1(b[0]); assert(encode_utf8(a) =~= Seq::<u8>::empty()); } assert(a =~= b); }
    else if b.len() == 0 { enc_cons(a); enc1(a[0]); assert(encode_utf8(b) =~= Seq::<u8>::empty()); }
    else {
        assert(a[0] == b[0]);
        enc_cons(a); enc_cons(b);
        assert forall|i: int| 0 <= i < a.drop_first().len() && i < b.drop_first().len() implies #[trigger] a.drop_first()[i] == b.drop_first()[i] by { assert(a[i + 1] == b[i + 1]); }
        same_len_same(a.drop_first(), b.drop_first());
        assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first());
    }
}
pub open spec fn zipped(a: Seq<char>, b: Seq<char>) -> Seq<(char, char)> {
    Seq::new(if a.len() < b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i]))
}
pub proof fn zipped_same(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a).len() == encode_utf8(b).len(),
    ensures pairs_same(zipped(a, b)) <==> a == b,
{
    if pairs_same(zipped(a, b)) {
        assert forall|i: int| 0 <= i < a.len() && i < b.len() implies #[trigger] a[i] == b[i] by { let p = zipped(a, b)[i]; assert(p.0 == p.1); }
        same_len_same(a, b);
    }
}
pub open spec fn pairs_same(z: Seq<(char, char)>) -> bool { forall|i: int| 0 <= i < z.len() ==> (#[trigger] z[i]).0 == z[i].1 }
pub proof fn str_cmp_refl(a: Seq<char>, b: Seq<char>)
    ensures str_cmp(a, b) == core::cmp::Ordering::Equal <==> a == b,
    decreases a.len()
{
    if a.len() == 0 || b.len() == 0 { if a.len() == 0 && b.len() == 0 { assert(a =~= b); } }
    else { str_cmp_refl(a.drop_first(), b.drop_first()); if a[0] == b[0] && a.drop_first() == b.drop_first() { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); } }
}
pub proof fn str_cmp_rev(a: Seq<char>, b: Seq<char>)
    ensures str_cmp(b, a) == (match str_cmp(a, b) { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal, core::cmp::Ordering::Greater => core::cmp::Ordering::Less }),
    decreases a.len()
{ if a.len() > 0 && b.len() > 0 { str_cmp_rev(a.drop_first(), b.drop_first()); } }
pub proof fn str_cmp_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures str_cmp(a, b) == core::cmp::Ordering::Less && str_cmp(b, c) == core::cmp::Ordering::Less ==> str_cmp(a, c) == core::cmp::Ordering::Less,
    decreases a.len()
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 { str_cmp_trans(a.drop_first(), b.drop_first(), c.drop_first()); } }
}

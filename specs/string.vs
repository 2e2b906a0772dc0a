@@ item string | JsonStringInfo | NONE => exec-const
Self::NONE.len() == 0, !Self::NONE.esc(),
@@ module string
pub open spec fn info_bit() -> int { 0x8000_0000_0000_0000 }
impl JsonStringInfo {
    /// the stored length
    pub open spec fn len(self) -> int { if self.0 >= 0x8000_0000_0000_0000usize { self.0 - 0x8000_0000_0000_0000 } else { self.0 as int } }
    /// the stored flag: an escape is present (or needed)
    pub open spec fn esc(self) -> bool { self.0 >= 0x8000_0000_0000_0000usize }
}
@@ fn string | JsonStringInfo | new
@@ ret r
    requires unescaped_length < info_bit(),
    ensures r.len() == unescaped_length, r.esc() == has_escapes,
@@ head
proof {
    let m = usize::MAX ^ 0x7FFF_FFFF_FFFF_FFFFusize;
    assert(m == 0x8000_0000_0000_0000usize) by (bit_vector) requires m == 0xFFFF_FFFF_FFFF_FFFFusize ^ 0x7FFF_FFFF_FFFF_FFFFusize;
    assert(unescaped_length < 0x8000_0000_0000_0000usize ==> 0x8000_0000_0000_0000usize | unescaped_length == 0x8000_0000_0000_0000usize + unescaped_length) by (bit_vector);
    assert(0usize | unescaped_length == unescaped_length && unescaped_length | 0x8000_0000_0000_0000usize == 0x8000_0000_0000_0000usize | unescaped_length) by (bit_vector);
}
@@ fn string | JsonStringInfo | has_escapes
@@ ret r
    ensures r == self.esc(),
@@ head
proof {
    let m = usize::MAX ^ 0x7FFF_FFFF_FFFF_FFFFusize; let x = self.0;
    assert(m == 0x8000_0000_0000_0000usize) by (bit_vector) requires m == 0xFFFF_FFFF_FFFF_FFFFusize ^ 0x7FFF_FFFF_FFFF_FFFFusize;
    assert((x & 0x8000_0000_0000_0000usize != 0) == (x >= 0x8000_0000_0000_0000usize)) by (bit_vector);
}
@@ fn string | JsonStringInfo | expected_length
@@ ret r
    ensures r == self.len(),
@@ head
proof {
    let x = self.0;
    assert(x & 0x7FFF_FFFF_FFFF_FFFFusize == if x >= 0x8000_0000_0000_0000usize { (x - 0x8000_0000_0000_0000usize) as usize } else { x }) by (bit_vector);
}
@@ fn string | JsonStringInfo | add_bytes
    requires old(self).len() + bytes < info_bit(),
    ensures final(self).len() == old(self).len() + bytes, final(self).esc() == old(self).esc(),
@@ fn string | JsonStringInfo | add_bytes_from_escape
    requires old(self).len() + bytes < info_bit(),
    ensures final(self).len() == old(self).len() + bytes, final(self).esc(),
@@ head
proof {
    let m = usize::MAX ^ 0x7FFF_FFFF_FFFF_FFFFusize; let x = self.0;
    assert(m == 0x8000_0000_0000_0000usize) by (bit_vector) requires m == 0xFFFF_FFFF_FFFF_FFFFusize ^ 0x7FFF_FFFF_FFFF_FFFFusize;
    assert(0x8000_0000_0000_0000usize | x == if x >= 0x8000_0000_0000_0000usize { x } else { (x + 0x8000_0000_0000_0000usize) as usize }) by (bit_vector);
}
@@ item string | HEX_OFFSET_TABLE => ensures
forall|i: int| 0 <= i < 256 ==> #[trigger] HEX_OFFSET_TABLE@[i] == hexval(i as u8)
@@ item string | SAFE_STRING_BYTES => ensures
forall|i: int| 0 <= i < 256 ==> #[trigger] SAFE_STRING_BYTES@[i] == (0x20 <= i && i != 0x22 && i != 0x5c)
@@ item string | SAFE_STRING_BYTES_VERIFY_UTF8 => ensures
forall|i: int| 0 <= i < 256 ==> #[trigger] SAFE_STRING_BYTES_VERIFY_UTF8@[i] == (0x20 <= i < 0x80 && i != 0x22 && i != 0x5c)
@@ fn string | - | merge_surrogate_pair
@@ ret r
    requires is_high(high as int), is_low(low as int),
    ensures r == merge(high as int, low as int), scalar(r as int), r >= 0x10000,
@@ head
proof {
    let (x, y) = ((high - 0xD800) as u32, (low - 0xDC00) as u32);
    assert(x < 1024 && y < 1024 ==> x << 10 == x * 1024 && ((x << 10) | y) == x * 1024 + y && (mul(x, 1024) | y) == x * 1024 + y) by (bit_vector);
    assert(x < 1024 && y < 1024 ==> add(0x10000, x << 10) | y == 0x10000 + x * 1024 + y) by (bit_vector);
}
@@ module string
use vstd::std_specs::iter::IteratorSpec;
broadcast use crate::trusted::chars_known;
impl<'b, 'a> vstd::std_specs::cmp::PartialEqSpecImpl<&'a str> for JsonString<'b> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &&'a str) -> bool { text(jsv(*self)) == other@ }
}
impl<'b> vstd::std_specs::cmp::PartialEqSpecImpl<str> for JsonString<'b> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &str) -> bool { text(jsv(*self)) == other@ }
}
impl<'b, 'a> vstd::std_specs::cmp::PartialEqSpecImpl<JsonString<'a>> for JsonString<'b> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &JsonString<'a>) -> bool { strings_eq(jsv(*self), jsv(*other)) }
}
impl<'b, 'a> vstd::std_specs::cmp::PartialOrdSpecImpl<&'a str> for JsonString<'b> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &&'a str) -> Option<core::cmp::Ordering> { Some(str_cmp(text(jsv(*self)), other@)) }
}
impl<'b> vstd::std_specs::cmp::PartialOrdSpecImpl<str> for JsonString<'b> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &str) -> Option<core::cmp::Ordering> { Some(str_cmp(text(jsv(*self)), other@)) }
}
impl<'b, 'a> vstd::std_specs::cmp::PartialOrdSpecImpl<JsonString<'a>> for JsonString<'b> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &JsonString<'a>) -> Option<core::cmp::Ordering> { Some(str_cmp(text(jsv(*self)), text(jsv(*other)))) }
}
impl<'b> vstd::std_specs::cmp::OrdSpecImpl for JsonString<'b> {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> core::cmp::Ordering { str_cmp(text(jsv(*self)), text(jsv(*other))) }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for JsonString<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a str) -> Self { arbitrary() }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<String> for JsonString<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: String) -> Self { arbitrary() }
}
impl<'a> JsonString<'a> {
    /// what every string satisfies, whoever made it
    #[verifier::type_invariant]
    pub open(crate) spec fn inv(self) -> bool { js_ok(jsv(self)) }
}
impl<'a> Decoded<'a> {
    pub open spec fn src(self) -> Seq<u8> { encode_utf8(self.source@) }
    pub open spec fn at(self) -> int { ci_pos(self.chars) as int }
    pub open spec fn wf(self) -> bool {
        &&& self.src().len() <= max_len()
        &&& self.needs_decoding ==> rest_of(lit(self.src()), self.at(), ci_rest(self.chars))
    }
    /// the characters still to come
    pub open spec fn left(self) -> Seq<char> {
        if self.needs_decoding { decode_utf8(scan(lit(self.src()), self.at(), true)->Done_1) } else { ci_rest(self.chars) }
    }
}
impl<'a> vstd::std_specs::iter::IteratorSpecImpl for Decoded<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.wf() }
    open spec fn remaining(&self) -> Seq<Self::Item> { self.left() }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.left().len()) }
    open spec fn peek(&self, i: int) -> Option<Self::Item> { if 0 <= i < self.left().len() { Some(self.left()[i]) } else { None } }
}
/// what is still to be written of the current character
pub open spec fn pending(s: EscapeState) -> Seq<char> {
    match s {
        EscapeState::AlreadyEscaped | EscapeState::None => seq![],
        EscapeState::Single(b) => seq![b as char],
        EscapeState::Unicode { current_nibble: None, codepoint } => seq!['u'] + hex_digits(codepoint as int, 4),
        EscapeState::Unicode { current_nibble: Some(n), codepoint } => hex_digits(codepoint as int, 4 - n),
    }
}
impl<'a> AsJson<'a> {
    pub open spec fn raw(self) -> bool { !(self.state is AlreadyEscaped) }
    pub open spec fn wf(self) -> bool {
        &&& (self.state matches EscapeState::Unicode { current_nibble: Some(n), codepoint } ==> n < 4)
        &&& self.raw() ==> self.total() < info_bit()
    }
    /// the length and the flag that the whole text will have
    pub open spec fn total(self) -> int { self.info.len() + encode_utf8(escape(chars_rest(self.chars))).len() }
    pub open spec fn flag(self) -> bool { self.info.esc() || needs(chars_rest(self.chars)) }
    pub open spec fn left(self) -> Seq<char> { if self.raw() { pending(self.state) + escape(chars_rest(self.chars)) } else { chars_rest(self.chars) } }
}
impl<'a> vstd::std_specs::iter::IteratorSpecImpl for AsJson<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.wf() }
    open spec fn remaining(&self) -> Seq<Self::Item> { self.left() }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.left().len()) }
    open spec fn peek(&self, i: int) -> Option<Self::Item> { if 0 <= i < self.left().len() { Some(self.left()[i]) } else { None } }
}
@@ item string | JsonString => clone
jsv(r) == jsv(*self),
@@ item string | JsonString => clone-head
proof { use_type_invariant(self); }
@@ item string | StringContents => clone
(r is Json) == (self is Json), (self matches StringContents::Json(a) ==> r->Json_0@ == a@), (self matches StringContents::Raw(a) ==> r->Raw_0@ == a@),
@@ item anystr | AnyStr => clone
r@ == self@,
@@ item string | Decoded => clone
r == *self,
@@ item string | AsJson => clone
r == *self,
@@ item string | EscapeState => clone
r == *self,
@@ fn string | JsonString | decode_if_needed
@@ ret r
    ensures r@ == text(jsv(*self)),
@@ via collect collect_string
@@ head
proof { use_type_invariant(self); jsv_text(*self); }
@@ fn string | JsonString | escape_if_needed
@@ ret r
    ensures encode_utf8(r@) == escaped(jsv(*self)),
@@ via extend string_extend &mut
@@ head
proof { use_type_invariant(self); jsv_text(*self); }
@@ fn string | JsonString | decoded
@@ ret r
    ensures r.wf(), r.left() == text(jsv(*self)),
@@ head
proof { use_type_invariant(self); jsv_text(*self); }
@@ fn string | JsonString | as_json
@@ ret r
    ensures r.wf(), encode_utf8(r.left()) == escaped(jsv(*self)),
@@ head
proof { use_type_invariant(self); jsv_text(*self); }
@@ fn string | JsonString | as_json_str
@@ ret r
    ensures r is Some <==> jsv(*self).json, r matches Some(s) ==> encode_utf8(s@) == escaped(jsv(*self)),
@@ fn string | JsonString | len
@@ ret r
    ensures r == escaped(jsv(*self)).len(),
@@ head
proof { use_type_invariant(self); jsv_text(*self); }
@@ fn string | JsonString | is_empty
@@ ret r
    ensures r == (text(jsv(*self)).len() == 0),
@@ head
proof { use_type_invariant(self); jsv_text(*self); empty_text(jsv(*self)); }
@@ fn string | JsonString | decoded_len
@@ ret r
    ensures r == contents(jsv(*self)).len(),
@@ head
proof { use_type_invariant(self); jsv_text(*self); }
@@ fn string | JsonString | as_str
@@ ret r
    ensures r is None <==> jsv(*self).json && jsv(*self).esc, r matches Some(s) ==> s@ == text(jsv(*self)),
@@ head
proof { use_type_invariant(self); jsv_text(*self); }
@@ fn string | Decoded | new
@@ ret r
    requires source matches StringContents::Json(a) ==> info.esc() ==> (scan(lit(encode_utf8(a@)), 0, true) matches Scan::Done(e, _, _) && e == encode_utf8(a@).len()),
    ensures r.wf(), match source {
        StringContents::Json(a) => r.left() == if info.esc() { decode_utf8(scan(lit(encode_utf8(a@)), 0, true)->Done_1) } else { a@ },
        StringContents::Raw(a) => r.left() == a@ },
@@ head
proof {
    contents_bound(*source);
}
@@ fn string | Iterator for Decoded | next
@@ hoist old(self).wf()
@@ strslice
@@ ret r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).source == old(self).source,
        old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
        old(self).left().len() > 0 ==> r == Some(old(self).left()[0]) && final(self).left() == old(self).left().drop_first(),
@@ head
let ghost s0 = ci_rest(self.chars); let ghost i0 = self.at(); let ghost b0 = lit(self.src());
let ghost z0 = esc(b0, i0 + 1)->Ok_0; let ghost c0 = esc(b0, i0 + 1)->Ok_1;
proof {
    if self.needs_decoding {
        decode_next(b0, i0, s0);
        if s0.len() > 0 && s0[0] == '\\' {
            assert(s0[1] as u32 == b0[i0 + 1]);
            enc1(s0[0]); enc1(s0[1]);
            assert(s0.drop_first().drop_first() =~= s0.skip(2));
            assert(s0.drop_first()[0] == s0[1]);
            assert(decode_utf8(scan(b0, i0, true)->Done_1).drop_first() =~= decode_utf8(scan(b0, z0, true)->Done_1));
            if s0[1] == 'u' {
                hexn_bounds(b0, i0 + 2, 4, 0);
                assert(b0[b0.len() - 1] == 0x22);
                hexn_ascii(b0, i0 + 2, 4, 0);
                hex_window(self.src(), i0 + 2);
                if !scalar(hexn(b0, i0 + 2, 4, 0)->Ok_0) {
                    hexn_bounds(b0, i0 + 8, 4, 0);
                    hex_window(self.src(), i0 + 8);
                }
            }
        } else if s0.len() > 0 {
            assert(decode_utf8(scan(b0, i0, true)->Done_1).drop_first() =~= decode_utf8(scan(b0, i0 + encode_utf8(seq![s0[0]]).len(), true)->Done_1));
        }
    }
}
@@ loop 0 it
    invariant s0 == ci_rest(old(self).chars), i0 == old(self).at(), i0 >= 0,
        self.source == old(self).source, self.needs_decoding == old(self).needs_decoding,
        i0 + 6 <= z0 && z0 - i0 <= s0.len() && z0 < b0.len() && b0.len() <= max_len() + 1,
        forall|q: int| 0 <= q < z0 - i0 ==> (#[trigger] s0[q]) as u32 == b0[i0 + q] && b0[i0 + q] < 128,
        ci_rest(self.chars) == s0.skip(2 + it.index@), ci_pos(self.chars) == i0 + 2 + it.index@,
@@ loop-head 0
proof {
    assert(s0[2 + it.index@] as u32 == b0[i0 + 2 + it.index@]);
    enc1(s0[2 + it.index@]);
    assert(s0.skip(2 + it.index@).drop_first() =~= s0.skip(3 + it.index@));
}
@@ loop 1 it
    invariant s0 == ci_rest(old(self).chars), i0 == old(self).at(), i0 >= 0,
        self.source == old(self).source, self.needs_decoding == old(self).needs_decoding,
        i0 + 12 <= z0 && z0 - i0 <= s0.len() && z0 < b0.len() && b0.len() <= max_len() + 1,
        forall|q: int| 0 <= q < z0 - i0 ==> (#[trigger] s0[q]) as u32 == b0[i0 + q] && b0[i0 + q] < 128,
        ci_rest(self.chars) == s0.skip(6 + it.index@), ci_pos(self.chars) == i0 + 6 + it.index@,
@@ loop-head 1
proof {
    assert(s0[6 + it.index@] as u32 == b0[i0 + 6 + it.index@]);
    enc1(s0[6 + it.index@]);
    assert(s0.skip(6 + it.index@).drop_first() =~= s0.skip(7 + it.index@));
}
@@ fn string | AsJson | new
@@ ret r
    requires value is Raw ==> info.len() <= 6 * max_len(),
    ensures r.wf(), r.raw() == (value is Raw), r.info == info, match value {
        StringContents::Json(a) => r.left() == a@,
        StringContents::Raw(a) => r.left() == escape(a@) && r.total() == info.len() + encode_utf8(escape(a@)).len() && r.flag() == (info.esc() || needs(a@)) },
@@ head
proof {
    contents_bound(*value);
}
@@ fn string | Iterator for AsJson | next
@@ hoist old(self).wf()
@@ ret r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).raw() == old(self).raw(), 
        final(self).raw() ==> final(self).total() == old(self).total() && final(self).flag() == old(self).flag(),
        old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
        old(self).left().len() > 0 ==> r == Some(old(self).left()[0]) && final(self).left() == old(self).left().drop_first(),
@@ head
let ghost r0 = chars_rest(self.chars);
proof {
    if r0.len() > 0 { escape_step(r0); enc1(r0[0]); }
    match self.state {
        EscapeState::Unicode { current_nibble, codepoint } => {
            hex_shift(codepoint);
            if current_nibble is Some {
                assert(self.left().drop_first() =~= hex_digits((codepoint as int * 16) % 65536, 3 - current_nibble->0) + escape(r0));
            } else {
                assert(self.left().drop_first() =~= hex_digits(codepoint as int, 4) + escape(r0));
            }
        },
        EscapeState::Single(x) => { assert(self.left().drop_first() =~= seq![] + escape(r0)); },
        _ => {
            assert(self.raw() ==> self.left() =~= escape(r0));
            if r0.len() > 0 && self.raw() {
                let rr = escape(r0.drop_first());
                assert(escape(r0).drop_first() =~= escape1(r0[0]).drop_first() + rr);
                if short(r0[0]) is Some { assert(escape1(r0[0]).drop_first() =~= seq![short(r0[0])->0]); }
                else if needs1(r0[0]) { assert(escape1(r0[0]).drop_first() =~= seq!['u'] + hex_digits(r0[0] as int, 4)); }
                else { assert(escape1(r0[0]).drop_first() + rr =~= seq![] + rr); }
            }
        },
    }
}
@@ fn string | Iterator for AsJson | size_hint
@@ ret r
    ensures r.0 <= self.left().len(), r.1 matches Some(u) ==> self.left().len() <= u,
@@ head
proof { escape_len(chars_rest(self.chars)); }
@@ fn string | From<&str> for JsonString | from
@@ ret r
    ensures jsv(r) == js_of(value@),
@@ loop 0 =
    invariant it_0.wf(), it_0.raw(), it_0.total() == encode_utf8(escape(value@)).len(), it_0.flag() == needs(value@),
    ensures it_0.left().len() == 0,
    decreases it_0.left().len(),
@@ fn string | From<String> for JsonString | from
@@ ret r
    ensures jsv(r) == js_of(value@),
@@ loop 0 =
    invariant it_0.wf(), it_0.raw(), it_0.total() == encode_utf8(escape(value@)).len(), it_0.flag() == needs(value@),
    ensures it_0.left().len() == 0,
    decreases it_0.left().len(),
@@ item string | JsonString => crate-fields
@@ fn string | From<&str> for JsonString | from
@@ head
proof { str_len_bound(value); js_of_ok(value@); }
@@ fn string | From<String> for JsonString | from
@@ head
proof { string_len_bound(&value); js_of_ok(value@); }
@@ fn string | PartialEq<str> for JsonString | eq
@@ via zip zip_chars
@@ via all all_pairs
@@ closure 0 -> (r: bool)
    ensures r == (p_.0 == p_.1)
@@ head
proof {
    use_type_invariant(self);
    let j = jsv(*self);
    jsv_text(*self);
    str_len_bound(other);
    if encode_utf8(text(j)).len() == encode_utf8(other@).len() { zipped_same(text(j), other@); }
}
@@ fn string | PartialEq<JsonString> for JsonString | eq
@@ via zip zip_chars
@@ via all all_pairs
@@ closure 0 -> (r: bool)
    ensures r == (p_.0 == p_.1)
@@ head
proof {
    use_type_invariant(self); use_type_invariant(other);
    let j = jsv(*self); let k = jsv(*other);
    jsv_text(*self); jsv_text(*other);
    if encode_utf8(text(j)).len() == encode_utf8(text(k)).len() { zipped_same(text(j), text(k)); }
}
@@ fn string | PartialOrd<str> for JsonString | partial_cmp
@@ head
proof { use_type_invariant(self); jsv_text(*self); str_ord(); char_ord(); }
@@ loop 0
    invariant left_chars.wf(), str_cmp(left_chars.left(), chars_rest(right_chars)) == str_cmp(text(jsv(*self)), other@),
        <char as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec(),
        forall|a: &char, b: &char| #[trigger] <char as vstd::std_specs::cmp::OrdSpec>::cmp_spec(a, b) == char_cmp(*a, *b),
    decreases left_chars.left().len(),
@@ fn string | Ord for JsonString | cmp
@@ head
proof { use_type_invariant(self); use_type_invariant(other); jsv_text(*self); jsv_text(*other); str_ord(); char_ord(); str_cmp_rev(text(jsv(*other)), text(jsv(*self))); }
@@ loop 0
    invariant left_chars.wf(), right_chars.wf(), str_cmp(left_chars.left(), right_chars.left()) == str_cmp(text(jsv(*self)), text(jsv(*other))),
        <char as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec(),
        forall|a: &char, b: &char| #[trigger] <char as vstd::std_specs::cmp::OrdSpec>::cmp_spec(a, b) == char_cmp(*a, *b),
    decreases left_chars.left().len(),
@@ fn string | hash::Hash for JsonString | hash
    ensures fed(final(state)) == fed(old(state)) + contents(jsv(*self)).push(0xff),
@@ head
proof { use_type_invariant(self); jsv_text(*self);
    assert((fed(old(state)) + contents(jsv(*self))).push(0xff) =~= fed(old(state)) + contents(jsv(*self)).push(0xff)); }
@@ loop 0 =
    invariant it_0.wf(), char_bytes@.len() == 4,
        fed(state) + encode_utf8(it_0.left()) == fed(old(state)) + contents(jsv(*self)),
    ensures it_0.left().len() == 0, fed(state) == fed(old(state)) + contents(jsv(*self)),
    decreases it_0.left().len(),
@@ loop-head 0
proof {
    let left = it_0.left();
    if left.len() > 0 {
        enc_cons(left);
        assert((fed(state) + encode_utf8(seq![left[0]])) + encode_utf8(left.drop_first()) =~= fed(state) + encode_utf8(left));
    } else {
        assert(encode_utf8(left) =~= Seq::<u8>::empty());
        assert(fed(state) + encode_utf8(left) =~= fed(state));
    }
}
@@ fn string | Display for Decoded | fmt
@@ ret r
    ensures wrote(old(f), final(f), self.left(), r),
@@ loop 0 =
    invariant it_0.wf(), sent(old(f)).is_prefix_of(sent(f)), sent(f) + it_0.left() == sent(old(f)) + self.left(), took(f) == took(old(f)),
    ensures it_0.left().len() == 0,
    decreases it_0.left().len(),
@@ fn string | Display for AsJson | fmt
@@ ret r
    ensures wrote(old(f), final(f), self.left(), r),
@@ loop 0 =
    invariant it_0.wf(), sent(old(f)).is_prefix_of(sent(f)), sent(f) + it_0.left() == sent(old(f)) + self.left(), took(f) == took(old(f)),
    ensures it_0.left().len() == 0,
    decreases it_0.left().len(),
@@ fn string | Display for JsonString | fmt
@@ ret r
    ensures wrote(old(f), final(f), text(jsv(*self)), r),
@@ module string
impl<'a> vstd::std_specs::fmt::DisplaySpecImpl for Decoded<'a> {
    open spec fn fmt_req(&self, f: &Formatter<'_>) -> bool { self.wf() }
}
impl<'a> vstd::std_specs::fmt::DisplaySpecImpl for AsJson<'a> {
    open spec fn fmt_req(&self, f: &Formatter<'_>) -> bool { self.wf() }
}
impl<'a> Shown for AsJson<'a> {
    open spec fn shown_ok(&self) -> bool { self.wf() }
    open spec fn shown(&self) -> Seq<char> { self.left() }
    fn show<'f>(&self, f: &mut Formatter<'f>) -> (r: fmt::Result) { self.fmt(f) }
}
@@ fn string | fmt::Debug for JsonStringInfo | fmt
@@ ret r
    ensures sent(old(f)).is_prefix_of(sent(final(f))),

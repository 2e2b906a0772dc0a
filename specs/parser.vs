@@ ctor Token::String : JsonString<'a> => Token<'a>
@@ ctor Token::Number : JsonNumber<'a> => Token<'a>
@@ module parser


impl<'a> ByteIterator<'a> {
    pub open(crate) spec fn sb(self) -> &'a [u8] { self.bytes }
    pub open(crate) spec fn so(self) -> usize { self.offset }
    #[verifier::type_invariant]
    pub open(crate) spec fn wf(self) -> bool { self.offset <= self.bytes@.len() <= max_len() }
}
impl<'a> vstd::std_specs::iter::IteratorSpecImpl for ByteIterator<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { false }
    open spec fn remaining(&self) -> Seq<Self::Item> { Seq::empty() }
    open spec fn will_return_none(&self) -> bool { false }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, i: int) -> Option<Self::Item> { None }
}
impl<'a, const GUARANTEED_UTF8: bool> vstd::std_specs::iter::IteratorSpecImpl for Tokenizer<'a, GUARANTEED_UTF8> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { false }
    open spec fn remaining(&self) -> Seq<Self::Item> { Seq::empty() }
    open spec fn will_return_none(&self) -> bool { false }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, i: int) -> Option<Self::Item> { None }
}
impl<'a, const G: bool> Tokenizer<'a, G> {
    /// what the unchecked conversions rely on: kept by every function that makes or changes a tokenizer
    #[verifier::type_invariant]
    pub open(crate) spec fn holds_text(self) -> bool { G ==> valid_utf8(self.source.bytes@) }
    pub open(crate) spec fn wf(self) -> bool { self.source.wf() && (G ==> valid_utf8(self.source.bytes@)) }
    pub open(crate) spec fn b(self) -> Seq<u8> { self.source.bytes@ }
    pub open(crate) spec fn at(self) -> int { self.source.offset as int }
    /// `later` is this tokenizer after reading on
    pub open(crate) spec fn reads(self, later: Self) -> bool { later.wf() && later.source.bytes == self.source.bytes && self.at() <= later.at() }
}
@@ item parser | ByteIterator => crate-fields
@@ item parser | Tokenizer => crate-fields
@@ item parser | InitialNumberState => derive
Structural
@@ item parser | PeekableTokenKind => derive
Structural -Hash
@@ item parser | JsonKind => derive
Structural
@@ fn parser | Iterator for ByteIterator | next
@@ via get slice_at
@@ via len slice_len
@@ hoist
@@ head
proof { slice_len_bound(self.bytes); }
@@ ret r
    ensures
        old(self).wf() ==> final(self).wf(),
        final(self).sb() == old(self).sb(),
        old(self).so() < old(self).sb()@.len() ==> r == Some((old(self).so(), &old(self).sb()@[old(self).so() as int]))
            && final(self).so() == old(self).so() + 1,
        old(self).so() >= old(self).sb()@.len() ==> r is None && final(self).so() == old(self).so(),
    no_unwind
@@ fn parser | ByteIterator | new
@@ ret r
    ensures r.wf(), r.sb() == slice, r.so() == 0,
@@ head
proof { slice_len_bound(slice); }
@@ fn parser | ByteIterator | peek
@@ via get slice_at
@@ via len slice_len
@@ ret r
    ensures *final(self) == *old(self),
        r == (if old(self).so() < old(self).sb()@.len() { Some(&old(self).sb()@[old(self).so() as int]) } else { None }),
    no_unwind
@@ fn parser | ByteIterator | skip_ws
    requires old(self).wf(),
    ensures final(self).wf(), final(self).sb() == old(self).sb(), final(self).so() == skip_ws(old(self).sb()@, old(self).so() as int),
    no_unwind
@@ via get slice_at
@@ via len slice_len
@@ loop 0
    invariant self.wf(), self.bytes == old(self).bytes,
        skip_ws(self.bytes@, self.offset as int) == skip_ws(old(self).bytes@, old(self).offset as int),
    ensures skip_ws(self.bytes@, self.offset as int) == self.offset,
    decreases self.bytes@.len() - self.offset,
@@ fn parser | ByteIterator | next_non_ws
@@ ret r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).sb() == old(self).sb(),
        ({ let i = skip_ws(old(self).sb()@, old(self).so() as int);
           if i < old(self).sb()@.len() { r is Some && (r->0).0 == i && *(r->0).1 == old(self).sb()@[i] && final(self).so() == i + 1 }
           else { r is None && final(self).so() == i && i == old(self).sb()@.len() } }),
    no_unwind
@@ head
proof { skip_ws_bounds(self.bytes@, self.offset as int); }
@@ fn parser | ByteIterator | read_non_ws
@@ ret r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).sb() == old(self).sb(),
        ({ let i = skip_ws(old(self).sb()@, old(self).so() as int);
           if i < old(self).sb()@.len() { r is Ok && (r->Ok_0).0 == i && *(r->Ok_0).1 == old(self).sb()@[i] && final(self).so() == i + 1 }
           else { r is Err && r->Err_0.offset == old(self).sb()@.len() && r->Err_0.kind == ErrorKind::<Infallible>::UnexpectedEof
                  && final(self).so() == old(self).sb()@.len() } }),
    no_unwind
@@ head
proof { skip_ws_bounds(self.bytes@, self.offset as int); }
@@ fn parser | ByteIterator | read
@@ via ok_or ok_or
@@ ret r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).sb() == old(self).sb(),
        old(self).so() < old(self).sb()@.len() ==> r is Ok && (r->Ok_0).0 == old(self).so()
            && *(r->Ok_0).1 == old(self).sb()@[old(self).so() as int] && final(self).so() == old(self).so() + 1,
        old(self).so() >= old(self).sb()@.len() ==> r is Err && r->Err_0.offset == old(self).sb()@.len()
            && r->Err_0.kind == ErrorKind::<Infallible>::UnexpectedEof && final(self).so() == old(self).so(),
    no_unwind
@@ fn parser | Tokenizer<true> | for_json
@@ ret r
    ensures r.wf(), r.at() == 0, r.b() == encode_utf8(source@),
@@ fn parser | Tokenizer<false> | for_json_bytes
@@ ret r
    ensures r.wf(), r.at() == 0, r.b() == source@,
@@ fn parser | Tokenizer<GUARANTEED_UTF8> | new
@@ ret r
    requires GUARANTEED_UTF8 ==> valid_utf8(source@),
    ensures r.wf(), r.at() == 0, r.b() == source@,
@@ fn parser | Tokenizer<GUARANTEED_UTF8> | offset
@@ ret r
    ensures r == self.at(),
@@ fn parser | Tokenizer<GUARANTEED_UTF8> | next_or_eof
@@ ret r
    requires old(self).wf(),
    ensures old(self).reads(*final(self)),
        lexed(lex(old(self).b(), old(self).at(), GUARANTEED_UTF8), r, final(self).at()),
        r is Err ==> r->Err_0.offset <= old(self).b().len(),
        lex(old(self).b(), old(self).at(), GUARANTEED_UTF8) is Eof ==> r->Err_0.offset == old(self).b().len(),
        r is Ok ==> final(self).at() > old(self).at(),
@@ head
proof { skip_ws_bounds(self.b(), self.at()); lex_bounds(self.b(), self.at(), GUARANTEED_UTF8); }
@@ fn parser | Iterator for Tokenizer<GUARANTEED_UTF8> | next
@@ ret r
    ensures old(self).wf() ==> old(self).reads(*final(self))
        && (r is None <==> lex(old(self).b(), old(self).at(), GUARANTEED_UTF8) is Eof)
        && (r is None ==> final(self).at() == final(self).b().len())
        && (r is Some ==> lexed(lex(old(self).b(), old(self).at(), GUARANTEED_UTF8), r->0, final(self).at()) && final(self).at() > old(self).at()
             && (r->0 is Err ==> (r->0)->Err_0.offset <= old(self).b().len())),
@@ head
proof {
    use_type_invariant(&self.source); use_type_invariant(&*self);
    skip_ws_bounds(self.b(), self.at());
    lex_bounds(self.b(), self.at(), GUARANTEED_UTF8);
}
@@ fn parser | Tokenizer<GUARANTEED_UTF8> | read_peek
@@ ret r
    requires old(self).wf(), old(self).at() == offset + 1, old(self).b()[offset as int] == *first,
    ensures old(self).reads(*final(self)),
        lexed(lex_at(old(self).b(), offset as int, GUARANTEED_UTF8), r, final(self).at()),
        r is Err ==> r->Err_0.offset <= old(self).b().len(),
@@ closure 0 -> (r: Token<'a>)
    ensures r == Token::Bool(true)
@@ closure 1 -> (r: Token<'a>)
    ensures r == Token::Bool(false)
@@ closure 2 -> (r: Token<'a>)
    ensures r == Token::Null
@@ head
proof {
    lex_at_bounds(self.b(), offset as int, GUARANTEED_UTF8);
    word_bounds(self.b(), offset + 1, w_rue(), 0, Tok::Bool(true));
    word_bounds(self.b(), offset + 1, w_alse(), 0, Tok::Bool(false));
    word_bounds(self.b(), offset + 1, w_ull(), 0, Tok::Null);
}
@@ fn parser | Tokenizer<GUARANTEED_UTF8> | read_literal_from_source
@@ ret r
    requires old(self).wf(),
    ensures old(self).reads(*final(self)),
        forall|w: Seq<u8>, t: Tok| w =~= remaining_bytes@ ==> match #[trigger] word(old(self).b(), old(self).at(), w, 0, t) {
            Lex::Eof => false,
            Lex::Bad(o, k) => r is Err && r->Err_0.offset == o && r->Err_0.kind == k,
            Lex::Tok(_, e) => r is Ok && final(self).at() == e,
        },
@@ loop 0 it
    invariant self.wf(), old(self).reads(*self),
        it.seq() == remaining_bytes@.map(|i: int, x: u8| &x),
        forall|t: Tok| #[trigger] word(old(self).b(), old(self).at(), remaining_bytes@, 0, t)
            == word(self.b(), self.at(), remaining_bytes@, it.index@, t),
@@ fn parser | Tokenizer<GUARANTEED_UTF8> | read_string_from_source
@@ ret r
    requires old(self).wf(), old(self).at() == start + 1, old(self).b()[start as int] == 0x22,
    ensures old(self).reads(*final(self)),
        match scan(old(self).b(), start + 1, GUARANTEED_UTF8) {
            Scan::Bad(o, k) => r is Err && r->Err_0.offset == o && r->Err_0.kind == k,
            Scan::Done(e, d, es) => r is Ok && final(self).at() == e + 1
                && jsv(r->Ok_0) == (JS { json: true, src: old(self).b().subrange(start + 1, e), esc: es, len: d.len() as int }),
        },
@@ before loop
let ghost mut acc: Seq<u8> = Seq::empty();
@@ loop 0
    invariant old(self).reads(*self), self.at() >= start + 1, old(self).b()[start as int] == 0x22, old(self).wf(), start < self.b().len(),
        forall|i: int| 0 <= i < 256 ==> #[trigger] safe_strings@[i] == (0x20 <= i && i != 0x22 && i != 0x5c && (GUARANTEED_UTF8 || i < 0x80)),
        scan(old(self).b(), start + 1, GUARANTEED_UTF8) == prepend(acc, string_info.esc(), scan(self.b(), self.at(), GUARANTEED_UTF8)),
        string_info.len() == acc.len(), acc.len() <= self.at(),
        !GUARANTEED_UTF8 ==> valid_utf8(self.b().subrange(start + 1, self.at())),
    decreases self.b().len() - self.at(),
@@ loop-head 0
let ghost i0 = self.at(); let ghost info0 = string_info; let ghost acc0 = acc;
proof {
    let b = self.b();
    if i0 < b.len() { esc_bounds(b, i0 + 1); high_end_bounds(b, i0); if b[i0] < 128 { ascii_valid(b[i0]); } }
}
@@ loop-tail 0
proof {
    let b = self.b();
    let step = if b[i0] == 0x5c { encode_utf8(seq![esc(b, i0 + 1)->Ok_1]) } else { b.subrange(i0, self.at()) };
    acc = acc0 + step;
    assert(self.at() == i0 + 1 ==> b.subrange(i0, self.at()) =~= seq![b[i0]]);
    prepend_prepend(acc0, info0.esc(), step, b[i0] == 0x5c, scan(b, self.at(), GUARANTEED_UTF8));
    assert(b.subrange(start + 1, self.at()) =~= b.subrange(start + 1, i0) + b.subrange(i0, self.at()));
    if !GUARANTEED_UTF8 {
        if b[i0] == 0x5c {
            let s = b.subrange(i0, self.at());
            esc_ascii(b, i0 + 1);
            assert forall|q: int| 0 <= q < s.len() implies #[trigger] s[q] < 128 by { assert(s[q] == b[i0 + q]); }
            ascii_seq_valid(s);
        }
        valid_utf8_concat(b.subrange(start + 1, i0), b.subrange(i0, self.at()));
    }
}
@@ arg from_utf8_unchecked
proof {
    let b = self.b();
    assert(scan(b, offset as int, GUARANTEED_UTF8) == Scan::Done(offset as int, Seq::<u8>::empty(), false));
    assert(acc + Seq::<u8>::empty() =~= acc);
    if GUARANTEED_UTF8 { between_ascii(b, start as int, offset as int); }
    decode_utf8_encode_utf8(b.subrange(start + 1, offset as int));
    scan_lit(b, start + 1, GUARANTEED_UTF8);
    slice_len_bound(self.source.bytes);
}
@@ loop 1
    invariant self.wf(), self.b() == old(self).b(), old(self).reads(*self), self.at() > i0 == utf8_start, i0 < self.b().len(), self.b()[i0] >= 128,
        high_end(self.b(), self.at()) == high_end(self.b(), i0),
    ensures self.at() == high_end(self.b(), i0),
    decreases self.b().len() - self.at(),
@@ fn parser | Tokenizer<GUARANTEED_UTF8> | read_number_from_source
@@ ret r
    requires old(self).wf(), old(self).at() == start + 1, start < old(self).b().len(),
        match initial_state {
            InitialNumberState::Sign => old(self).b()[start as int] == 0x2d,
            InitialNumberState::Zero => old(self).b()[start as int] == 0x30,
            InitialNumberState::Digit => 0x31 <= old(self).b()[start as int] <= 0x39,
        },
    ensures old(self).reads(*final(self)),
        match num(old(self).b(), start as int) {
            Num::Bad(o, k) => r is Err && r->Err_0.offset == o && r->Err_0.kind == k,
            Num::Done(e) => r is Ok && final(self).at() == e && encode_utf8(nsrc(r->Ok_0)) == old(self).b().subrange(start as int, e),
        },
@@ head
let ghost b = self.b(); let ghost i = start as int; let ghost j0 = if b[i] == 0x2d { i + 1 } else { i };
proof { num_int_bounds(b, i); }
@@ loop 0
    invariant_except_break
        !read_integer_digit ==> b[i] == 0x2d && self.at() == i + 1,
        read_integer_digit ==> self.at() > j0 && 0x31 <= b[j0] <= 0x39 && digits_end(b, j0) == digits_end(b, self.at()),
    invariant
        self.b() == b, old(self).b() == b, old(self).reads(*self), old(self).at() == i + 1, 0 <= i < b.len(), i <= j0 <= i + 1, j0 == (if b[i] == 0x2d { i + 1 } else { i }),
        b[i] != 0x2d ==> is_digit(b[i]) && b[i] != 0x30,
        self.at() >= i + 1,
    ensures
        read_integer_digit ==> num_int(b, i) == Num::Done(self.at()),
        !read_integer_digit ==> num_int(b, i) == Num::Bad(self.at(), ErrorKind::ExpectedDigit),
    decreases self.b().len() - self.at(),
@@ before if let Some(b'.')
let ghost j = self.at();
proof { assert(num_int(b, i) == Num::Done(j)); num_frac_bounds(b, j); }
@@ loop 1
    invariant_except_break
        digits_end(b, j + 1) == digits_end(b, self.at()),
        read_decimal_digit == (self.at() > j + 1),
    invariant
        self.b() == b, old(self).b() == b, old(self).reads(*self), self.at() >= j + 1, at(b, j, 0x2e), 0 <= i < j,
    ensures
        self.at() == digits_end(b, j + 1),
        read_decimal_digit == (self.at() > j + 1),
    decreases self.b().len() - self.at(),
@@ before if let Some(b'e' | b'E')
let ghost j2 = self.at();
proof { assert(num_frac(b, j) == Num::Done(j2)); num_exp_bounds(b, j2); }
@@ before let mut read_exponent_digit
let ghost k = self.at();
@@ loop 2
    invariant_except_break
        digits_end(b, k) == digits_end(b, self.at()),
        read_exponent_digit == (self.at() > k),
    invariant
        self.b() == b, old(self).b() == b, old(self).reads(*self), self.at() >= k > i, i >= 0,
    ensures
        self.at() == digits_end(b, k),
        read_exponent_digit == (self.at() > k),
    decreases self.b().len() - self.at(),
@@ arg from_utf8_unchecked
proof {
    num_bounds(b, i);
    let s = b.subrange(i, self.at());
    assert forall|q: int| 0 <= q < s.len() implies #[trigger] s[q] < 128 by { assert(s[q] == b[i + q]); }
    ascii_seq_valid(s);
    decode_utf8_encode_utf8(s);
    num_cut(b, i, self.at());
}
@@ fn parser | Tokenizer<GUARANTEED_UTF8> | read_string_escape
@@ ret r
    requires old(self).wf(), old(string_info).len() <= old(self).at(),
    ensures old(self).reads(*final(self)),
        match esc(old(self).b(), old(self).at()) {
            Esc::Bad(o, k) => r is Err && r->Err_0.offset == o && r->Err_0.kind == k,
            Esc::Ok(e, c) => r is Ok && final(self).at() == e && final(string_info).esc()
                && final(string_info).len() == old(string_info).len() + encode_utf8(seq![c]).len()
                && encode_utf8(seq![c]).len() <= e - old(self).at(),
        },
@@ head
let ghost b = self.b(); let ghost i = self.at();
proof { if i < b.len() && short_escape(b[i]) is Some { enc1(short_escape(b[i])->0); } }
@@ before string_info.add_bytes_from_escape #1
proof { enc1(ch); assert(Hex::Ok(decoded as int) == hexn(b, i + 1, 4, 0) || is_high(hexn(b, i + 1, 4, 0)->Ok_0)); }
@@ loop 0 it
    invariant self.b() == b, old(self).b() == b, old(self).reads(*self), self.at() == i + 1 + it.index@, 0 <= i, it.index@ <= 4,
        decoded < exp16(it.index@), i < b.len(), b[i] == 0x75, old(self).at() == i,
        hexn(b, i + 1, 4, 0) == hexn(b, self.at(), (4 - it.index@) as nat, decoded as int),
@@ loop-head 0
let ghost d0 = decoded;
@@ loop-tail 0
proof { hex_step(d0, nibble); }
@@ loop 1 it
    invariant self.b() == b, old(self).b() == b, old(self).reads(*self), self.at() == i + 7 + it.index@, 0 <= i, it.index@ <= 4,
        second_codepoint < exp16(it.index@), i + 6 < b.len(), b[i] == 0x75, b[i + 5] == 0x5c, b[i + 6] == 0x75, old(self).at() == i,
        hexn(b, i + 1, 4, 0) == Hex::Ok(decoded as int), is_high(decoded as int),
        hexn(b, i + 7, 4, 0) == hexn(b, self.at(), (4 - it.index@) as nat, second_codepoint as int),
@@ loop-head 1
let ghost d0 = second_codepoint;
@@ loop-tail 1
proof { hex_step(d0, nibble); }

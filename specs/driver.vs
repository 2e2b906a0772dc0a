@@ fn parser | ParseState<D> | new
@@ ret r
    ensures r.delegate == delegate, r.config == config, r.remaining_depth == budget(config),
@@ fn parser | ParseState<D> | begin_nest
@@ ret r
    ensures
        final(self).delegate == old(self).delegate, final(self).config == old(self).config,
        old(self).config.recursion_limit is None ==> r is Ok && final(self).remaining_depth == old(self).remaining_depth,
        old(self).config.recursion_limit is Some && old(self).remaining_depth > 0 ==> r is Ok && final(self).remaining_depth == old(self).remaining_depth - 1,
        old(self).config.recursion_limit is Some && old(self).remaining_depth == 0 ==> r == Err::<(), ErrorKind<D::Error>>(ErrorKind::RecursionLimitReached),
@@ fn parser | ParseState<D> | end_nest
    requires old(self).config.recursion_limit is Some ==> old(self).remaining_depth < usize::MAX,
    ensures
        final(self).delegate == old(self).delegate, final(self).config == old(self).config,
        final(self).remaining_depth == (if old(self).config.recursion_limit is Some { old(self).remaining_depth + 1 } else { old(self).remaining_depth as int }),
@@ module parser
impl<'a, D: ParseDelegate<'a>> ParseState<'a, D> {
    pub open spec fn cx(self, b: Seq<u8>, g: bool) -> Cx { cx(b, g, self.config) }
    pub open spec fn d(self) -> int { self.remaining_depth as int }
}
@@ fn parser | Parser<GUARANTEED_UTF8> | read_tokens
@@ ret r
    requires old(self).tokenizer.wf(),
    ensures
        old(self).tokenizer.reads(final(self).tokenizer), final(state).config == old(state).config,
        final(state).delegate.last() == old(state).delegate.last(),
        ({ let x = run_value::<D>(old(state).cx(old(self).tokenizer.b(), GUARANTEED_UTF8), old(self).tokenizer.at(), old(state).d(), old(state).delegate.sv());
           x.s == final(state).delegate.sv() && same(r, x)
           && (r is Ok ==> final(self).tokenizer.at() == (x.r->Ok_0).1 > old(self).tokenizer.at() && final(state).remaining_depth == old(state).remaining_depth
                && D::frame(old(state).delegate.sv(), x.s) && D::v_ok(x.s, D::vv(r->Ok_0))) }),
        r is Err ==> r->Err_0.offset <= old(self).tokenizer.b().len(),
    decreases old(self).tokenizer.b().len() - old(self).tokenizer.at(), 0int,
@@ closure 0 -> (r: Result<D::Value, Error<D::Error>>)
    ensures r == Err::<D::Value, Error<D::Error>>(Error { offset, kind: ErrorKind::Unexpected(value) })
@@ closure 1 -> (r: Error<D::Error>)
    ensures r == (Error { offset, kind: ErrorKind::ErrorFromDelegate(error) })
@@ closure 2 -> (r: Error<D::Error>)
    ensures r == (Error { offset, kind })
@@ closure 3 -> (r: Error<D::Error>)
    ensures r.offset == error.offset, r.kind == (if error.kind is UnexpectedEof { ErrorKind::UnclosedObject } else { error.kind })
@@ closure 4 -> (r: Error<D::Error>)
    ensures r == (Error { offset, kind })
@@ closure 5 -> (r: Error<D::Error>)
    ensures r.offset == error.offset, r.kind == (if error.kind is UnexpectedEof { ErrorKind::UnclosedArray } else { error.kind })
@@ head
proof {
    lex_bounds(self.tokenizer.b(), self.tokenizer.at(), GUARANTEED_UTF8);
    law_leaf_all::<D>(state.delegate.sv());
}
@@ fn parser | Parser<GUARANTEED_UTF8> | read_object
@@ ret r
    requires old(self).tokenizer.wf(),
        old(state).config.recursion_limit is Some ==> old(state).remaining_depth < usize::MAX,
    ensures
        old(self).tokenizer.reads(final(self).tokenizer), final(state).config == old(state).config,
        final(state).delegate.last() == old(state).delegate.last(),
        ({ let x = run_object::<D>(old(state).cx(old(self).tokenizer.b(), GUARANTEED_UTF8), old(self).tokenizer.at(), old(state).d(), old(state).delegate.sv());
           x.s == final(state).delegate.sv() && same(r, x)
           && (r is Ok ==> final(self).tokenizer.at() == (x.r->Ok_0).1
                && final(state).remaining_depth == old(state).remaining_depth + if old(state).config.recursion_limit is Some { 1int } else { 0 }
                && D::frame(old(state).delegate.sv(), x.s) && D::v_ok(x.s, D::vv(r->Ok_0))) }),
        r is Err ==> r->Err_0.offset <= old(self).tokenizer.b().len(),
    decreases old(self).tokenizer.b().len() - old(self).tokenizer.at(), 1int,
@@ head
let ghost i0 = self.tokenizer.at();
let ghost s0 = state.delegate.sv();
let ghost b = self.tokenizer.b();
let ghost c = state.cx(b, GUARANTEED_UTF8);
let ghost d = state.d();
proof { D::law_begin(s0); }
@@ closure 0 -> (r: Error<D::Error>)
    ensures r == (Error { offset, kind: ErrorKind::ErrorFromDelegate(kind) })
@@ closure 1 -> (r: Error<D::Error>)
    ensures r == (Error { offset, kind: ErrorKind::ErrorFromDelegate(kind) })
@@ closure 2 -> (r: Error<D::Error>)
    ensures r.offset == error.offset, r.kind == ErrorKind::<D::Error>::ExpectedColon
@@ closure 3 -> (r: Error<D::Error>)
    ensures r == (Error { offset, kind: ErrorKind::ErrorFromDelegate(kind) })
@@ closure 4 -> (r: Error<D::Error>)
    ensures r == (Error { offset: self.tokenizer.source.offset, kind: ErrorKind::ErrorFromDelegate(kind) })
@@ loop 0
    invariant_except_break
        run_object::<D>(c, i0, d, s0) == run_members::<D>(c, self.tokenizer.at(), d, state.delegate.sv(), D::ov(object)),
    invariant
        old(self).tokenizer.wf(), old(self).tokenizer.reads(self.tokenizer), i0 <= self.tokenizer.at(), i0 == old(self).tokenizer.at(),
        b == old(self).tokenizer.b(), s0 == old(state).delegate.sv(), d == old(state).d(), c == old(state).cx(b, GUARANTEED_UTF8),
        state.delegate.last() == old(state).delegate.last(),
        state.config == old(state).config, state.remaining_depth == old(state).remaining_depth,
        o_open::<D>(s0, state.delegate.sv(), D::ov(object), self.tokenizer.at() - i0),
    ensures
        run_object::<D>(c, i0, d, s0) == step::<D>(D::f_obj_end(state.delegate.sv(), D::ov(object)), self.tokenizer.at(), self.tokenizer.at()),
    decreases b.len() - self.tokenizer.at(),
@@ loop-head 0
let ghost sa = state.delegate.sv(); let ghost oa = D::ov(object); let ghost ia = self.tokenizer.at();
proof { laws_members::<D>(c, ia, d, s0, sa, oa, ia - i0); laws_end::<D>(s0, sa, oa); }
@@ after-loop 0
proof { laws_end::<D>(s0, state.delegate.sv(), D::ov(object)); }
@@ fn parser | Parser<GUARANTEED_UTF8> | read_array
@@ ret r
    requires old(self).tokenizer.wf(),
        old(state).config.recursion_limit is Some ==> old(state).remaining_depth < usize::MAX,
    ensures
        old(self).tokenizer.reads(final(self).tokenizer), final(state).config == old(state).config,
        final(state).delegate.last() == old(state).delegate.last(),
        ({ let x = run_array::<D>(old(state).cx(old(self).tokenizer.b(), GUARANTEED_UTF8), old(self).tokenizer.at(), old(state).d(), old(state).delegate.sv());
           x.s == final(state).delegate.sv() && same(r, x)
           && (r is Ok ==> final(self).tokenizer.at() == (x.r->Ok_0).1
                && final(state).remaining_depth == old(state).remaining_depth + if old(state).config.recursion_limit is Some { 1int } else { 0 }
                && D::frame(old(state).delegate.sv(), x.s) && D::v_ok(x.s, D::vv(r->Ok_0))) }),
        r is Err ==> r->Err_0.offset <= old(self).tokenizer.b().len(),
    decreases old(self).tokenizer.b().len() - old(self).tokenizer.at(), 1int,
@@ head
let ghost i0 = self.tokenizer.at();
let ghost s0 = state.delegate.sv();
let ghost b = self.tokenizer.b();
let ghost c = state.cx(b, GUARANTEED_UTF8);
let ghost d = state.d();
proof { D::law_begin(s0); }
@@ closure 0 -> (r: Error<D::Error>)
    ensures r == (Error { offset: self.tokenizer.source.offset, kind: ErrorKind::ErrorFromDelegate(kind) })
@@ closure 1 -> (r: Error<D::Error>)
    ensures r == (Error { offset: self.tokenizer.source.offset, kind: ErrorKind::ErrorFromDelegate(kind) })
@@ closure 2 -> (r: Error<D::Error>)
    ensures r == (Error { offset, kind: ErrorKind::ErrorFromDelegate(kind) })
@@ loop 0
    invariant_except_break
        run_array::<D>(c, i0, d, s0) == run_elems::<D>(c, i0, self.tokenizer.at(), d, state.delegate.sv(), D::av(array)),
    invariant
        old(self).tokenizer.wf(), old(self).tokenizer.reads(self.tokenizer), i0 <= self.tokenizer.at(), i0 == old(self).tokenizer.at(),
        b == old(self).tokenizer.b(), s0 == old(state).delegate.sv(), d == old(state).d(), c == old(state).cx(b, GUARANTEED_UTF8),
        state.delegate.last() == old(state).delegate.last(),
        state.config == old(state).config, state.remaining_depth == old(state).remaining_depth, i0 <= b.len(), offset == i0,
        a_open::<D>(s0, state.delegate.sv(), D::av(array), self.tokenizer.at() - i0),
    ensures
        run_array::<D>(c, i0, d, s0) == step::<D>(D::f_arr_end(state.delegate.sv(), D::av(array)), i0, self.tokenizer.at()),
    decreases b.len() - self.tokenizer.at(),
@@ loop-head 0
let ghost sa = state.delegate.sv(); let ghost aa = D::av(array); let ghost ia = self.tokenizer.at();
proof { laws_elems::<D>(c, ia, d, s0, sa, aa, ia - i0); laws_arr_end::<D>(s0, sa, aa); }
@@ after-loop 0
proof { laws_arr_end::<D>(s0, state.delegate.sv(), D::av(array)); }
@@ fn parser | Parser<GUARANTEED_UTF8> | read_from_source
@@ ret r
    requires old(self).tokenizer.wf(),
    ensures
        old(self).tokenizer.reads(final(self).tokenizer), final(state).config == old(state).config,
        final(state).delegate.last() == old(state).delegate.last(),
        ({ let x = run_value::<D>(old(state).cx(old(self).tokenizer.b(), GUARANTEED_UTF8), old(self).tokenizer.at(), old(state).d(), old(state).delegate.sv());
           x.s == final(state).delegate.sv() && same(r, x)
           && (r is Ok ==> final(self).tokenizer.at() == (x.r->Ok_0).1 && D::v_ok(x.s, D::vv(r->Ok_0))) }),
        r is Err ==> r->Err_0.offset <= old(self).tokenizer.b().len(),
@@ fn parser | Parser<GUARANTEED_UTF8> | parse_bytes
@@ ret r
    requires config.allow_all_types_at_root || D::has_kind(), GUARANTEED_UTF8 ==> valid_utf8(source@),
    ensures same(r, run::<D>(source@, GUARANTEED_UTF8, config, delegate.sv())),
        r is Ok ==> delegate.last() == D::fin(run::<D>(source@, GUARANTEED_UTF8, config, delegate.sv()).s),
        r is Err ==> r->Err_0.offset <= source@.len(),
@@ head
proof { slice_len_bound(source); }
@@ after parser.read_from_source(&mut state)?;
proof { state.delegate.law_last(); }
@@ fn parser | Parser<false> | parse_json_bytes
@@ ret r
    ensures same(r, run::<D>(value@, false, dflt(), delegate.sv())),
        r is Ok ==> delegate.last() == D::fin(run::<D>(value@, false, dflt(), delegate.sv()).s),
        r is Err ==> r->Err_0.offset <= value@.len(),
@@ fn parser | Parser<false> | parse_json_bytes_with_config
@@ ret r
    requires config.allow_all_types_at_root || D::has_kind(),
    ensures same(r, run::<D>(value@, false, config, delegate.sv())),
        r is Ok ==> delegate.last() == D::fin(run::<D>(value@, false, config, delegate.sv()).s),
        r is Err ==> r->Err_0.offset <= value@.len(),
@@ fn parser | Parser<false> | validate_json_bytes
@@ ret r
    ensures same::<()>(r, run::<()>(json@, false, dflt(), ())), r is Err ==> r->Err_0.offset <= json@.len(),
        r is Ok <==> crate::theorems::accepted(json@, false, dflt()) is Some,
@@ head
proof { crate::trusted::slice_len_bound(json); crate::theorems::validate_thm(json@, false, dflt()); }
@@ fn parser | Parser<false> | validate_json_bytes_with_config
@@ ret r
    ensures same::<()>(r, run::<()>(json@, false, config, ())), r is Err ==> r->Err_0.offset <= json@.len(),
        r is Ok <==> crate::theorems::accepted(json@, false, config) is Some,
@@ head
proof { crate::trusted::slice_len_bound(json); crate::theorems::validate_thm(json@, false, config); }
@@ fn parser | Parser<true> | parse_json
@@ ret r
    ensures same(r, run::<D>(encode_utf8(value@), true, dflt(), delegate.sv())),
        r is Ok ==> delegate.last() == D::fin(run::<D>(encode_utf8(value@), true, dflt(), delegate.sv()).s),
        r is Err ==> r->Err_0.offset <= encode_utf8(value@).len(),
@@ fn parser | Parser<true> | parse_json_with_config
@@ ret r
    requires config.allow_all_types_at_root || D::has_kind(),
    ensures same(r, run::<D>(encode_utf8(value@), true, config, delegate.sv())),
        r is Ok ==> delegate.last() == D::fin(run::<D>(encode_utf8(value@), true, config, delegate.sv()).s),
        r is Err ==> r->Err_0.offset <= encode_utf8(value@).len(),
@@ head
proof { encode_utf8_valid_utf8(value@); }
@@ fn parser | Parser<true> | validate_json
@@ ret r
    ensures same::<()>(r, run::<()>(encode_utf8(json@), true, dflt(), ())), r is Err ==> r->Err_0.offset <= encode_utf8(json@).len(),
        r is Ok <==> crate::theorems::accepted(encode_utf8(json@), true, dflt()) is Some,
@@ head
proof { crate::trusted::str_len_bound(json); crate::theorems::validate_thm(encode_utf8(json@), true, dflt()); }
@@ fn parser | Parser<true> | validate_json_with_config
@@ ret r
    ensures same::<()>(r, run::<()>(encode_utf8(json@), true, config, ())), r is Err ==> r->Err_0.offset <= encode_utf8(json@).len(),
        r is Ok <==> crate::theorems::accepted(encode_utf8(json@), true, config) is Some,
@@ head
proof { crate::trusted::str_len_bound(json); crate::theorems::validate_thm(encode_utf8(json@), true, config); }
@@ fn parser | ParseConfig | new
@@ ret r
    ensures r == dflt(),
@@ fn parser | Default for ParseConfig | default
@@ ret r
    ensures r == dflt(),
@@ fn parser | ParseConfig | strict
@@ ret r
    ensures r == (ParseConfig { allow_trailing_commas: false, recursion_limit: Some(128), allow_all_types_at_root: false }),
@@ fn parser | ParseConfig | without_recursion_limit
@@ ret r
    ensures r == (ParseConfig { recursion_limit: None, ..self }),
@@ fn parser | ParseConfig | with_recursion_limit
@@ ret r
    ensures r == (ParseConfig { recursion_limit: Some(limit), ..self }),
@@ fn parser | ParseConfig | allowing_all_types_at_root
@@ ret r
    ensures r == (ParseConfig { allow_all_types_at_root: allow_all, ..self }),
@@ fn parser | ParseConfig | allowing_trailing_commas
@@ ret r
    ensures r == (ParseConfig { allow_trailing_commas: true, ..self }),
@@ module parser
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl<Token<'a>> for Token<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Token<'a>) -> bool { tokens_eq(*self, *other) }
}
@@ fn parser | Tokenizer<GUARANTEED_UTF8> | peek
@@ ret r
    requires old(self).wf(),
    ensures old(self).reads(*final(self)), final(self).at() == skip_ws(old(self).b(), old(self).at()),
        r == (if final(self).at() < old(self).b().len() { Some(peek_kind(old(self).b()[final(self).at()])) } else { None }),
@@ head
proof { skip_ws_bounds(self.b(), self.at()); }
@@ fn parser | Tokenizer<true> | for_json
@@ head
proof { encode_utf8_valid_utf8(source@); }

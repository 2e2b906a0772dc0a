# The output functions: what they hand to the destination.
@@ module value
use crate::roundtrip::*;
use crate::write::*;
use vstd::std_specs::iter::IteratorSpec;
impl<'a, W: fmt::Write, const PRETTY: bool> WriteState<'a, W, PRETTY> {
    pub open(crate) spec fn layout(&self) -> Layout { Layout { pretty: PRETTY, ind: self.indent_per_level@, eol: self.line_ending@ } }
    /// `x`, after the indentation at the start of a line
    pub open(crate) spec fn put(&self, x: Seq<char>) -> Seq<char> { if PRETTY && self.is_at_line_start { margin(self.layout(), self.level as nat) + x } else { x } }
}
@@ fn value | WriteState<W, PRETTY> | write
@@ attr #[verifier::loop_isolation(false)]
@@ ret r
    ensures wrote(&old(self).writer, &final(self).writer, old(self).put(str@), r), final(self).layout() == old(self).layout(),
        final(self).level == old(self).level, !final(self).is_at_line_start || !PRETTY,
@@ head
broadcast use prefix_trans;
proof {
    wrote_nothing(&self.writer);
    assert(old(self).put(seq![]) =~= if PRETTY && self.is_at_line_start { rep(self.indent_per_level@, self.level as nat) } else { seq![] });
    let p = old(self).put(seq![]);
    assert(old(self).put(str@) =~= p + str@);
    chunk(sent(&old(self).writer), p, str@, p + str@);
}
@@ loop 0 it
    invariant self.level == old(self).level, self.layout() == old(self).layout(), PRETTY, !self.is_at_line_start,
        it.seq().len() == self.level,
        wrote(&old(self).writer, &self.writer, rep(self.indent_per_level@, it.index@ as nat), Ok(())),
@@ loop-head 0
broadcast use prefix_trans;
proof {
    let goal = old(self).put(str@);
    let ind = self.indent_per_level@;
    let m = rep(ind, self.level as nat);
    rep_prefix(ind, it.index@ as nat + 1, self.level as nat);
    assert(m.is_prefix_of(goal)) by { assert(m =~= goal.take(m.len() as int)); }
    prefix_trans(rep(ind, it.index@ as nat + 1), m, goal);
    chunk(sent(&old(self).writer), rep(self.indent_per_level@, it.index@ as nat), self.indent_per_level@, goal);
}
@@ fn value | WriteState<W, PRETTY> | write_json
@@ attr #[verifier::loop_isolation(false)]
@@ ret r
    ensures wrote(&old(self).writer, &final(self).writer, old(self).put(quoted(jsv(*str))), r), final(self).layout() == old(self).layout(),
        final(self).level == old(self).level, !final(self).is_at_line_start || !PRETTY,
@@ head
broadcast use prefix_trans, enc_dec;
proof {
    wrote_nothing(&self.writer);
    assert(old(self).put(seq![]) =~= if PRETTY && self.is_at_line_start { rep(self.indent_per_level@, self.level as nat) } else { seq![] });
    lits();
    use_type_invariant(str);
    let q = seq!['"'];
    let t = decode_utf8(escaped(jsv(*str)));
    let p = old(self).put(seq![]);
    assert(old(self).put(quoted(jsv(*str))) =~= ((p + q) + t) + q);
    chunk(sent(&old(self).writer), p, q, ((p + q) + t) + q);
    chunk(sent(&old(self).writer), p + q, t, ((p + q) + t) + q);
    chunk(sent(&old(self).writer), (p + q) + t, q, ((p + q) + t) + q);
}
@@ loop 0 it
    invariant self.level == old(self).level, self.layout() == old(self).layout(), PRETTY, !self.is_at_line_start,
        it.seq().len() == self.level,
        wrote(&old(self).writer, &self.writer, rep(self.indent_per_level@, it.index@ as nat), Ok(())),
@@ loop-head 0
broadcast use prefix_trans;
proof {
    let goal = old(self).put(quoted(jsv(*str)));
    let ind = self.indent_per_level@;
    let m = rep(ind, self.level as nat);
    rep_prefix(ind, it.index@ as nat + 1, self.level as nat);
    assert(m.is_prefix_of(goal)) by { assert(m =~= goal.take(m.len() as int)); }
    prefix_trans(rep(ind, it.index@ as nat + 1), m, goal);
    chunk(sent(&old(self).writer), rep(self.indent_per_level@, it.index@ as nat), self.indent_per_level@, goal);
}
@@ fn value | WriteState<W, PRETTY> | new
@@ ret r
    ensures r.writer == writer, r.layout() == (Layout { pretty: PRETTY, ind: indentation@, eol: line_ending@ }), r.level == 0, r.is_at_line_start,
@@ fn value | WriteState<W, PRETTY> | new_line
@@ ret r
    ensures wrote(&old(self).writer, &final(self).writer, old(self).put(end_line(old(self).layout())), r), final(self).layout() == old(self).layout(),
        final(self).level == old(self).level, r is Ok ==> final(self).is_at_line_start || !PRETTY,
@@ fn value | WriteState<W, PRETTY> | write_object_key_end
@@ ret r
    ensures wrote(&old(self).writer, &final(self).writer, old(self).put(colon(old(self).layout())), r), final(self).layout() == old(self).layout(),
        final(self).level == old(self).level, !final(self).is_at_line_start || !PRETTY,
@@ head
proof { lits(); }
@@ fn value | WriteState<W, PRETTY> | begin_object
@@ ret r
    requires old(self).level < usize::MAX,
    ensures wrote(&old(self).writer, &final(self).writer, old(self).put(seq!['{']), r), final(self).layout() == old(self).layout(),
        r is Ok ==> final(self).level == old(self).level + 1, !final(self).is_at_line_start || !PRETTY,
@@ head
proof { lits(); }
@@ fn value | WriteState<W, PRETTY> | end_object
@@ ret r
    requires old(self).level > 0,
    ensures wrote(&old(self).writer, &final(self).writer, (if PRETTY && old(self).is_at_line_start { margin(old(self).layout(), (old(self).level - 1) as nat) + seq!['}'] } else { seq!['}'] }), r),
        final(self).layout() == old(self).layout(), final(self).level == old(self).level - 1, !final(self).is_at_line_start || !PRETTY,
@@ head
proof { lits(); }
@@ fn value | WriteState<W, PRETTY> | begin_array
@@ ret r
    requires old(self).level < usize::MAX,
    ensures wrote(&old(self).writer, &final(self).writer, old(self).put(seq!['[']), r), final(self).layout() == old(self).layout(),
        r is Ok ==> final(self).level == old(self).level + 1, !final(self).is_at_line_start || !PRETTY,
@@ head
proof { lits(); }
@@ fn value | WriteState<W, PRETTY> | end_array
@@ ret r
    requires old(self).level > 0,
    ensures wrote(&old(self).writer, &final(self).writer, (if PRETTY && old(self).is_at_line_start { margin(old(self).layout(), (old(self).level - 1) as nat) + seq![']'] } else { seq![']'] }), r),
        final(self).layout() == old(self).layout(), final(self).level == old(self).level - 1, !final(self).is_at_line_start || !PRETTY,
@@ head
proof { lits(); }
@@ fn value | Value | write_json_array
@@ ret r
    requires old(state).level + depth(Tree::Arr(trees(*array, array@.len()))) < usize::MAX,
    ensures wrote(&old(state).writer, &final(state).writer, old(state).put(show(old(state).layout(), Tree::Arr(trees(*array, array@.len())), old(state).level as nat)), r),
        final(state).layout() == old(state).layout(), r is Ok ==> final(state).level == old(state).level && (!final(state).is_at_line_start || !PRETTY),
    decreases array,
@@ head
broadcast use writing;
let ghost l = state.layout(); let ghost v = state.level as nat; let ghost ts = trees(*array, array@.len());
let ghost goal = state.put(show(l, Tree::Arr(ts), v));
let ghost x1 = state.put(seq!['[']); let ghost x2 = x1 + end_line(l);
let ghost nn = ts.len();
proof {
    trees_all(*array);
    let body = show_elems(l, ts, nn, v + 1);
    let close = if PRETTY { margin(l, v) + seq![']'] } else { seq![']'] };
    if ts.len() == 0 {
        assert(goal =~= x1 + seq![']']);
        assert(goal =~= ((x1 + seq![]) + seq![]) + seq![']']);
        frame_pieces(x1, seq![], seq![], seq![']'], goal);
    } else {
        assert(goal =~= (x2 + body) + close);
        frame_pieces(x1, end_line(l), body, close, goal);
    }
    wrote_nothing(&state.writer);
    assert(progress(&state.writer, &state.writer, seq![], goal));
}
@@ loop 0 =
    invariant l == state.layout(), ts == trees(*array, array@.len()), nn == ts.len(), nn == array@.len(), nn > 0, it_0.remaining().len() == nn - n_0, 0 <= n_0 <= nn,
        it_0.obeys_prophetic_iter_laws(), it_0.will_return_none(), it_0.decrease() is Some,
        forall|i: int| 0 <= i < it_0.remaining().len() ==> (#[trigger] it_0.remaining()[i]) == ((n_0 + i) as usize, &array@[n_0 + i]),
        forall|i: int| 0 <= i < nn ==> (#[trigger] ts[i]) == tree(array@[i]),
        state.level == v + 1, goal == old(state).put(show(l, Tree::Arr(ts), v)), l == old(state).layout(), v == old(state).level,
        forall|i: int| 0 <= i < nn ==> depth(#[trigger] ts[i]) < depth(Tree::Arr(ts)), v + depth(Tree::Arr(ts)) < usize::MAX, state.is_at_line_start || !PRETTY,
        goal == (x2 + show_elems(l, ts, nn, v + 1)) + (if PRETTY { margin(l, v) + seq![']'] } else { seq![']'] }),
        (x2 + show_elems(l, ts, nn, v + 1)).is_prefix_of(goal), within(goal, goal),
        progress(&old(state).writer, &state.writer, x2 + show_elems(l, ts, n_0 as nat, v + 1), goal),
    ensures n_0 == nn,
    decreases it_0.decrease()->0,
@@ loop-head 0
broadcast use writing;
proof { lits(); if n_0 < nn {
    elem_pieces(l, ts, n_0 as nat, v + 1, x2, goal);
    assert(state.put(show(l, ts[n_0], v + 1)) =~= margin(l, v + 1) + show(l, ts[n_0], v + 1));
} }
@@ fn value | Value | write_json_object
@@ ret r
    requires old(state).level + depth(Tree::Obj(mems(*obj, obj.0@.len()))) < usize::MAX,
    ensures wrote(&old(state).writer, &final(state).writer, old(state).put(show(old(state).layout(), Tree::Obj(mems(*obj, obj.0@.len())), old(state).level as nat)), r),
        final(state).layout() == old(state).layout(), r is Ok ==> final(state).level == old(state).level && (!final(state).is_at_line_start || !PRETTY),
    decreases obj,
@@ head
broadcast use writing;
let ghost l = state.layout(); let ghost v = state.level as nat; let ghost ts = mems(*obj, obj.0@.len());
let ghost goal = state.put(show(l, Tree::Obj(ts), v));
let ghost x1 = state.put(seq!['{']); let ghost x2 = x1 + end_line(l);
let ghost nn = ts.len();
proof {
    mems_all(*obj);
    let body = show_members(l, ts, nn, v + 1);
    let close = if PRETTY { margin(l, v) + seq!['}'] } else { seq!['}'] };
    if ts.len() == 0 {
        assert(goal =~= x1 + seq!['}']);
        assert(goal =~= ((x1 + seq![]) + seq![]) + seq!['}']);
        frame_pieces(x1, seq![], seq![], seq!['}'], goal);
    } else {
        assert(goal =~= (x2 + body) + close);
        frame_pieces(x1, end_line(l), body, close, goal);
    }
    wrote_nothing(&state.writer);
    assert(progress(&state.writer, &state.writer, seq![], goal));
}
@@ loop 0 =
    invariant l == state.layout(), ts == mems(*obj, obj.0@.len()), nn == ts.len(), nn == obj.0@.len(), nn > 0, it_0.remaining().len() == nn - n_0, 0 <= n_0 <= nn,
        it_0.obeys_prophetic_iter_laws(), it_0.will_return_none(), it_0.decrease() is Some,
        forall|i: int| 0 <= i < it_0.remaining().len() ==> (#[trigger] it_0.remaining()[i]) == ((n_0 + i) as usize, &obj.0@[n_0 + i]),
        forall|i: int| 0 <= i < nn ==> (#[trigger] ts[i]) == (jsv(obj.0@[i].key), tree(obj.0@[i].value)),
        state.level == v + 1, goal == old(state).put(show(l, Tree::Obj(ts), v)), l == old(state).layout(), v == old(state).level,
        forall|i: int| 0 <= i < nn ==> depth((#[trigger] ts[i]).1) < depth(Tree::Obj(ts)), v + depth(Tree::Obj(ts)) < usize::MAX, state.is_at_line_start || !PRETTY,
        goal == (x2 + show_members(l, ts, nn, v + 1)) + (if PRETTY { margin(l, v) + seq!['}'] } else { seq!['}'] }),
        (x2 + show_members(l, ts, nn, v + 1)).is_prefix_of(goal), within(goal, goal),
        progress(&old(state).writer, &state.writer, x2 + show_members(l, ts, n_0 as nat, v + 1), goal),
    ensures n_0 == nn,
    decreases it_0.decrease()->0,
@@ loop-head 0
broadcast use writing;
proof { lits(); if n_0 < nn {
    member_pieces(l, ts, n_0 as nat, v + 1, x2, goal);
    assert(state.put(quoted(ts[n_0].0)) =~= margin(l, v + 1) + quoted(ts[n_0].0));
} }
@@ fn value | Value | write_json_value
@@ ret r
    requires old(state).level + depth(tree(*self)) < usize::MAX,
    ensures wrote(&old(state).writer, &final(state).writer, old(state).put(show(old(state).layout(), tree(*self), old(state).level as nat)), r),
        final(state).layout() == old(state).layout(), r is Ok ==> final(state).level == old(state).level && (!final(state).is_at_line_start || !PRETTY),
    decreases self,
@@ head
proof {
    lits();
    if let Value::Number(n) = self { encode_utf8_decode_utf8(nsrc(*n)); }
}
@@ fn value | Value | write_json
@@ ret r
    ensures exists|w: W| has_resolved(w) && #[trigger] wrote(&destination, &w, show(Layout { pretty: PRETTY, ind: indentation@, eol: line_ending@ }, tree(*self), 0), r),
@@ head
let ghost text = show(Layout { pretty: PRETTY, ind: indentation@, eol: line_ending@ }, tree(*self), 0);
proof { value_depth_bound(*self); }
@@ after WriteState::<W, PRETTY>::new(destination, indentation, line_ending);
proof { assert(state.put(text) =~= text); }
@@ fn value | Value | write_json_to
@@ ret r
    ensures exists|w: W| has_resolved(w) && #[trigger] wrote(&destination, &w, compact(tree(*self)), r),
@@ head
proof { lits(); let c = compact(tree(*self)); assert(c == show(Layout { pretty: false, ind: ""@, eol: ""@ }, tree(*self), 0)); }
@@ fn value | Value | pretty_write_json_to
@@ ret r
    ensures exists|w: W| has_resolved(w) && #[trigger] wrote(&destination, &w, pretty(tree(*self)), r),
@@ head
proof { lits(); let c = pretty(tree(*self)); assert(c == show(Layout { pretty: true, ind: "  "@, eol: "\n"@ }, tree(*self), 0)); }
@@ fn value | Value | pretty_write_json_to_custom
@@ ret r
    ensures exists|w: W| has_resolved(w) && #[trigger] wrote(&destination, &w, show(Layout { pretty: true, ind: indentation@, eol: line_ending@ }, tree(*self), 0), r),
@@ module value
/// every value a program holds is made of well-formed strings and numbers, by the invariants of their types
/// (a lemma as a program: it runs nowhere, it is called in the first line of some of the functions below)
fn made_well(v: &Value<'_>)
    ensures tree_ok(tree(*v)),
    decreases v
{
    match v {
        Value::Number(n) => { proof { use_type_invariant(n); encode_utf8_valid_utf8(nsrc(*n)); } }
        Value::String(s) => { proof { use_type_invariant(s); } }
        Value::Array(a) => {
            let mut i: usize = 0;
            proof { trees_all(*a); }
            while i < a.len()
                invariant i <= a@.len(), *v == Value::Array(*a), trees(*a, a@.len()).len() == a@.len(),
                    forall|j: int| 0 <= j < a@.len() ==> (#[trigger] trees(*a, a@.len())[j]) == tree(a@[j]),
                    forall|j: int| 0 <= j < i ==> tree_ok(#[trigger] trees(*a, a@.len())[j]),
                decreases a@.len() - i
            { proof { assert(decreases_to!(*v => v->Array_0)); assert(decreases_to!(*a => a@[i as int])); } made_well(&a[i]); i = i + 1; }
            proof { elems_ok_all(trees(*a, a@.len()), 0); }
        }
        Value::Object(o) => {
            let mut i: usize = 0;
            proof { mems_all(*o); }
            while i < o.0.len()
                invariant i <= o.0@.len(), *v == Value::Object(*o), mems(*o, o.0@.len()).len() == o.0@.len(),
                    forall|j: int| 0 <= j < o.0@.len() ==> (#[trigger] mems(*o, o.0@.len())[j]) == (jsv(o.0@[j].key), tree(o.0@[j].value)),
                    forall|j: int| 0 <= j < i ==> js_ok((#[trigger] mems(*o, o.0@.len())[j]).0) && tree_ok(mems(*o, o.0@.len())[j].1),
                decreases o.0@.len() - i
            { let key = &o.0[i].key; proof { use_type_invariant(key); assert(decreases_to!(*v => v->Object_0)); assert(decreases_to!(v->Object_0 => v->Object_0.0)); assert(decreases_to!(o.0 => o.0@[i as int])); assert(decreases_to!(o.0@[i as int] => o.0@[i as int].value)); } made_well(&o.0[i].value); i = i + 1; }
            proof { members_ok_all(mems(*o, o.0@.len()), 0); }
        }
        _ => {}
    }
}
@@ fn value | Value | to_json
@@ ret r
    ensures r@ == compact(tree(*self)), reads_back(r@, tree(*self)),
@@ head
made_well(self);
proof { reads_back_thm(Layout { pretty: false, ind: seq![], eol: seq![] }, tree(*self)); }
@@ fn value | Value | to_json_pretty
@@ ret r
    ensures r@ == pretty(tree(*self)), reads_back(r@, tree(*self)),
@@ head
made_well(self);
proof {
    reads_back_thm(Layout { pretty: true, ind: seq![' ', ' '], eol: seq!['\n'] }, tree(*self));
}
@@ fn value | Value | to_json_pretty_custom
@@ ret r
    ensures r@ == show(Layout { pretty: true, ind: indentation@, eol: line_ending@ }, tree(*self), 0),
        all_ws(indentation@) && all_ws(line_ending@) ==> reads_back(r@, tree(*self)),
@@ head
made_well(self);
proof { if all_ws(indentation@) && all_ws(line_ending@) { reads_back_thm(Layout { pretty: true, ind: indentation@, eol: line_ending@ }, tree(*self)); } }
@@ fn value | Display for Value | fmt
@@ ret r
    ensures wrote(old(f), final(f), if alternate(old(f)) { pretty(tree(*self)) } else { compact(tree(*self)) }, r),

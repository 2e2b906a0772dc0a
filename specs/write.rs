// What the output functions write.
#[allow(unused_imports)] use vstd::prelude::*;
use vstd::utf8::*;
use core::fmt;
use crate::spec::*;
use crate::trusted::*;
use crate::strings::*;
use crate::views::*;
use crate::value::*;
verus! {
/// how a value is laid out
pub ghost struct Layout { pub pretty: bool, pub ind: Seq<char>, pub eol: Seq<char> }
pub open spec fn rep(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { seq![] } else { rep(s, (n - 1) as nat) + s } }
/// the indentation of a line
pub open spec fn margin(l: Layout, level: nat) -> Seq<char> { if l.pretty { rep(l.ind, level) } else { seq![] } }
pub open spec fn end_line(l: Layout) -> Seq<char> { if l.pretty { l.eol } else { seq![] } }
/// a string literal
pub open spec fn quoted(j: JS) -> Seq<char> { seq!['"'] + decode_utf8(escaped(j)) + seq!['"'] }
pub open spec fn colon(l: Layout) -> Seq<char> { if l.pretty { seq![':', ' '] } else { seq![':'] } }
pub open spec fn comma(more: bool) -> Seq<char> { if more { seq![','] } else { seq![] } }
/// the text of a value whose first line is already indented
pub open spec fn show(l: Layout, t: Tree, level: nat) -> Seq<char> decreases t, 0nat
{
    match t {
        Tree::Null => seq!['n', 'u', 'l', 'l'],
        Tree::Bool(b) => if b { seq!['t', 'r', 'u', 'e'] } else { seq!['f', 'a', 'l', 's', 'e'] },
        Tree::Num(s) => decode_utf8(s),
        Tree::Str(j) => quoted(j),
        Tree::Arr(s) => if s.len() == 0 { seq!['[', ']'] } else { seq!['['] + end_line(l) + show_elems(l, s, s.len(), level + 1) + margin(l, level) + seq![']'] },
        Tree::Obj(s) => if s.len() == 0 { seq!['{', '}'] } else { seq!['{'] + end_line(l) + show_members(l, s, s.len(), level + 1) + margin(l, level) + seq!['}'] },
    }
}
/// the first `k` elements, each on a line of its own
pub open spec fn show_elems(l: Layout, s: Seq<Tree>, k: nat, level: nat) -> Seq<char> decreases s, k
{
    if k == 0 || k > s.len() { seq![] }
    else { show_elems(l, s, (k - 1) as nat, level) + margin(l, level) + show(l, s[k - 1], level) + comma(k < s.len()) + end_line(l) }
}
pub open spec fn show_members(l: Layout, s: Seq<(JS, Tree)>, k: nat, level: nat) -> Seq<char> decreases s, k
{
    if k == 0 || k > s.len() { seq![] }
    else { show_members(l, s, (k - 1) as nat, level) + margin(l, level) + quoted(s[k - 1].0) + colon(l) + show(l, s[k - 1].1, level) + comma(k < s.len()) + end_line(l) }
}
pub broadcast proof fn prefix_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires #[trigger] a.is_prefix_of(b), #[trigger] b.is_prefix_of(c),
    ensures a.is_prefix_of(c),
{ assert(a =~= c.take(a.len() as int)); }
pub proof fn show_elems_prefix(l: Layout, s: Seq<Tree>, k: nat, m: nat, level: nat)
    requires k <= m <= s.len(),
    ensures show_elems(l, s, k, level).is_prefix_of(show_elems(l, s, m, level)),
    decreases m
{
    broadcast use prefix_trans;
    if k < m {
        show_elems_prefix(l, s, k, (m - 1) as nat, level);
        assert(show_elems(l, s, (m - 1) as nat, level).is_prefix_of(show_elems(l, s, m, level)));
    }
}
pub proof fn show_members_prefix(l: Layout, s: Seq<(JS, Tree)>, k: nat, m: nat, level: nat)
    requires k <= m <= s.len(),
    ensures show_members(l, s, k, level).is_prefix_of(show_members(l, s, m, level)),
    decreases m
{
    broadcast use prefix_trans;
    if k < m {
        show_members_prefix(l, s, k, (m - 1) as nat, level);
        assert(show_members(l, s, (m - 1) as nat, level).is_prefix_of(show_members(l, s, m, level)));
    }
}
#[verifier::prophetic]
pub open spec fn progress<W: fmt::Write>(w0: &W, w: &W, a: Seq<char>, goal: Seq<char>) -> bool { wrote(w0, w, a, Ok(())) && within(a, goal) }
#[verifier::opaque]
pub open spec fn within(a: Seq<char>, goal: Seq<char>) -> bool { a.is_prefix_of(goal) }
pub proof fn within_is(a: Seq<char>, goal: Seq<char>)
    requires a.is_prefix_of(goal),
    ensures within(a, goal),
{ reveal(within); }

/// one more piece of the text `goal`
pub broadcast proof fn wrote_more<W: fmt::Write>(w0: &W, w: &W, w1: &W, a: Seq<char>, x: Seq<char>, goal: Seq<char>, r: fmt::Result)
    requires #[trigger] progress(w0, w, a, goal), within(a + x, goal), #[trigger] wrote(w, w1, x, r),
    ensures r is Ok ==> progress(w0, w1, a + x, goal), r is Err ==> wrote(w0, w1, goal, r),
{
    reveal(within);
    chunk(sent(w0), a, x, goal);
    assert(sent(w) + x == (sent(w0) + a) + x);
    prefix_trans(sent(w0), sent(w), sent(w1));
    prefix_trans(sent(w1), sent(w) + x, sent(w0) + goal);
    if r is Ok { prefix_trans(sent(w1), sent(w1), sent(w0) + (a + x)); }
}
pub broadcast group writing { wrote_more }
}
verus! {
pub proof fn trees_at(a: Vec<Value<'_>>, k: nat, i: int)
    requires 0 <= i < k <= a@.len(),
    ensures trees(a, k).len() == k, trees(a, k)[i] == tree(a@[i]),
    decreases k
{ trees_ext(a, a, (k - 1) as nat); if i < k - 1 { trees_at(a, (k - 1) as nat, i); } }
pub proof fn trees_all(a: Vec<Value<'_>>)
    ensures trees(a, a@.len()).len() == a@.len(), depth(Tree::Arr(trees(a, a@.len()))) >= 1, forall|i: int| 0 <= i < a@.len() ==> (#[trigger] trees(a, a@.len())[i]) == tree(a@[i]),
        forall|i: int| 0 <= i < a@.len() ==> depth(#[trigger] trees(a, a@.len())[i]) < depth(Tree::Arr(trees(a, a@.len()))),
{
    trees_ext(a, a, a@.len()); crate::grammar::depths_nonneg(trees(a, a@.len()));
    assert forall|i: int| 0 <= i < a@.len() implies (#[trigger] trees(a, a@.len())[i]) == tree(a@[i]) by { trees_at(a, a@.len(), i); }
    assert forall|i: int| 0 <= i < a@.len() implies depth(#[trigger] trees(a, a@.len())[i]) < depth(Tree::Arr(trees(a, a@.len()))) by { depths_at(trees(a, a@.len()), i); }
}
pub proof fn mems_at(a: Object<'_>, k: nat, i: int)
    requires 0 <= i < k <= a.0@.len(),
    ensures mems(a, k).len() == k, mems(a, k)[i] == (jsv(a.0@[i].key), tree(a.0@[i].value)),
    decreases k
{ mems_ext(a, a, (k - 1) as nat); if i < k - 1 { mems_at(a, (k - 1) as nat, i); } }
pub proof fn mems_all(a: Object<'_>)
    ensures mems(a, a.0@.len()).len() == a.0@.len(), depth(Tree::Obj(mems(a, a.0@.len()))) >= 1, forall|i: int| 0 <= i < a.0@.len() ==> (#[trigger] mems(a, a.0@.len())[i]) == (jsv(a.0@[i].key), tree(a.0@[i].value)),
        forall|i: int| 0 <= i < a.0@.len() ==> depth((#[trigger] mems(a, a.0@.len())[i]).1) < depth(Tree::Obj(mems(a, a.0@.len()))),
{
    mems_ext(a, a, a.0@.len()); crate::grammar::depthm_nonneg(mems(a, a.0@.len()));
    assert forall|i: int| 0 <= i < a.0@.len() implies (#[trigger] mems(a, a.0@.len())[i]) == (jsv(a.0@[i].key), tree(a.0@[i].value)) by { mems_at(a, a.0@.len(), i); }
    assert forall|i: int| 0 <= i < a.0@.len() implies depth((#[trigger] mems(a, a.0@.len())[i]).1) < depth(Tree::Obj(mems(a, a.0@.len()))) by { depthm_at(mems(a, a.0@.len()), i); }
}
pub proof fn depths_at(s: Seq<Tree>, i: int)
    requires 0 <= i < s.len(),
    ensures depth(s[i]) <= depths(s),
    decreases s.len()
{ if i > 0 { depths_at(s.drop_first(), i - 1); } }
pub proof fn depthm_at(s: Seq<(JS, Tree)>, i: int)
    requires 0 <= i < s.len(),
    ensures depth(s[i].1) <= depthm(s),
    decreases s.len()
{ if i > 0 { depthm_at(s.drop_first(), i - 1); } }
}
verus! {
pub open spec fn compact(t: Tree) -> Seq<char> { show(Layout { pretty: false, ind: seq![], eol: seq![] }, t, 0) }
pub open spec fn pretty(t: Tree) -> Seq<char> { show(Layout { pretty: true, ind: seq![' ', ' '], eol: seq!['\n'] }, t, 0) }
/// every level of a value takes an allocation of its own
pub axiom fn value_depth_bound(v: Value<'_>)
    ensures depth(tree(v)) <= max_len();
}
verus! {
pub proof fn lits()
    ensures "{"@ == seq!['{'], "}"@ == seq!['}'], "["@ == seq!['['], "]"@ == seq![']'], ","@ == seq![','], ":"@ == seq![':'], ": "@ == seq![':', ' '],
        "\""@ == seq!['"'], "null"@ == seq!['n', 'u', 'l', 'l'], "true"@ == seq!['t', 'r', 'u', 'e'], "false"@ == seq!['f', 'a', 'l', 's', 'e'],
        ""@ == Seq::<char>::empty(), "  "@ == seq![' ', ' '], "\n"@ == seq!['\n'],
{
    reveal_strlit("{"); reveal_strlit("}"); reveal_strlit("["); reveal_strlit("]"); reveal_strlit(","); reveal_strlit(":"); reveal_strlit(": ");
    reveal_strlit("\""); reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false"); reveal_strlit(""); reveal_strlit("  "); reveal_strlit("\n");
    assert("{"@ =~= seq!['{']); assert("}"@ =~= seq!['}']); assert("["@ =~= seq!['[']); assert("]"@ =~= seq![']']);
    assert(","@ =~= seq![',']); assert(":"@ =~= seq![':']); assert(": "@ =~= seq![':', ' ']); assert("\""@ =~= seq!['"']);
    assert("null"@ =~= seq!['n', 'u', 'l', 'l']); assert("true"@ =~= seq!['t', 'r', 'u', 'e']); assert("false"@ =~= seq!['f', 'a', 'l', 's', 'e']);
    assert(""@ =~= Seq::<char>::empty()); assert("  "@ =~= seq![' ', ' ']); assert("\n"@ =~= seq!['\n']);
}
pub proof fn rep_prefix(s: Seq<char>, k: nat, n: nat)
    requires k <= n,
    ensures rep(s, k).is_prefix_of(rep(s, n)),
    decreases n
{ broadcast use prefix_trans; if k < n { rep_prefix(s, k, (n - 1) as nat); assert(rep(s, (n - 1) as nat).is_prefix_of(rep(s, n))); } }
pub proof fn wrote_nothing<W: fmt::Write>(w: &W)
    ensures wrote(w, w, seq![], Ok(())),
{ assert(sent(w) + seq![] =~= sent(w)); }
}
verus! {
pub proof fn pieces4(a: Seq<char>, x: Seq<char>, y: Seq<char>, z: Seq<char>, goal: Seq<char>)
    requires (((a + x) + y) + z).is_prefix_of(goal),
    ensures within(a, goal), within(a + x, goal), within((a + x) + y, goal), within(((a + x) + y) + z, goal), y.len() == 0 ==> (a + x) + y == a + x,
{
    let all = ((a + x) + y) + z;
    assert(((a + x) + y).is_prefix_of(all)); prefix_trans((a + x) + y, all, goal);
    assert((a + x).is_prefix_of((a + x) + y)); prefix_trans(a + x, (a + x) + y, goal);
    assert(a.is_prefix_of(a + x)); prefix_trans(a, a + x, goal);
    within_is(a, goal); within_is(a + x, goal); within_is((a + x) + y, goal); within_is(all, goal);
    if y.len() == 0 { assert((a + x) + y =~= a + x); }
}
pub proof fn pieces_prefix(x: Seq<char>, a: Seq<char>, b: Seq<char>, goal: Seq<char>)
    requires a.is_prefix_of(b), (x + b).is_prefix_of(goal),
    ensures (x + a).is_prefix_of(goal),
{ assert((x + a).is_prefix_of(x + b)) by { assert(a =~= b.take(a.len() as int)); } prefix_trans(x + a, x + b, goal); }
pub proof fn show_elems_step(l: Layout, s: Seq<Tree>, k: nat, level: nat)
    requires k < s.len(),
    ensures show_elems(l, s, k + 1, level) == show_elems(l, s, k, level) + margin(l, level) + show(l, s[k as int], level) + comma(k + 1 < s.len()) + end_line(l),
{}
pub proof fn show_members_step(l: Layout, s: Seq<(JS, Tree)>, k: nat, level: nat)
    requires k < s.len(),
    ensures show_members(l, s, k + 1, level) == show_members(l, s, k, level) + margin(l, level) + quoted(s[k as int].0) + colon(l) + show(l, s[k as int].1, level) + comma(k + 1 < s.len()) + end_line(l),
{}
/// the pieces of the text of an element
pub proof fn elem_pieces(l: Layout, s: Seq<Tree>, k: nat, level: nat, x2: Seq<char>, goal: Seq<char>)
    requires k < s.len(), (x2 + show_elems(l, s, s.len(), level)).is_prefix_of(goal),
    ensures ({
        let a0 = x2 + show_elems(l, s, k, level);
        let s1 = a0 + (margin(l, level) + show(l, s[k as int], level));
        let s2 = if k + 1 < s.len() { s1 + seq![','] } else { s1 };
        within(s1, goal) && within(s2, goal) && within(s2 + end_line(l), goal) && s2 + end_line(l) == x2 + show_elems(l, s, k + 1, level)
    }),
{
    hide(show);
    let a0 = x2 + show_elems(l, s, k, level);
    let x = margin(l, level) + show(l, s[k as int], level);
    let y = comma(k + 1 < s.len());
    let all = x2 + show_elems(l, s, k + 1, level);
    show_elems_prefix(l, s, k + 1, s.len(), level);
    pieces_prefix(x2, show_elems(l, s, k + 1, level), show_elems(l, s, s.len(), level), goal);
    show_elems_step(l, s, k, level);
    assert(((a0 + x) + y) + end_line(l) =~= all);
    pieces4(a0, x, y, end_line(l), goal);
}
/// the pieces of the text of a member
#[verifier::spinoff_prover]
#[verifier::rlimit(50)]
pub proof fn member_pieces(l: Layout, s: Seq<(JS, Tree)>, k: nat, level: nat, x2: Seq<char>, goal: Seq<char>)
    requires k < s.len(), (x2 + show_members(l, s, s.len(), level)).is_prefix_of(goal),
    ensures ({
        let a0 = x2 + show_members(l, s, k, level);
        let k1 = a0 + (margin(l, level) + quoted(s[k as int].0)); let k2 = k1 + colon(l);
        let s1 = k2 + show(l, s[k as int].1, level);
        let s2 = if k + 1 < s.len() { s1 + seq![','] } else { s1 };
        within(k1, goal) && within(k2, goal) && within(s1, goal) && within(s2, goal) && within(s2 + end_line(l), goal) && s2 + end_line(l) == x2 + show_members(l, s, k + 1, level)
    }),
{
    hide(show); hide(quoted);
    let a0 = x2 + show_members(l, s, k, level);
    let k1 = a0 + (margin(l, level) + quoted(s[k as int].0)); let k2 = k1 + colon(l);
    let x = show(l, s[k as int].1, level);
    let y = comma(k + 1 < s.len());
    let all = x2 + show_members(l, s, k + 1, level);
    show_members_prefix(l, s, k + 1, s.len(), level);
    pieces_prefix(x2, show_members(l, s, k + 1, level), show_members(l, s, s.len(), level), goal);
    show_members_step(l, s, k, level);
    assert(((k2 + x) + y) + end_line(l) =~= all);
    pieces4(k2, x, y, end_line(l), goal);
    assert(k2.is_prefix_of(all)); prefix_trans(k2, all, goal);
    assert(k1.is_prefix_of(k2)); prefix_trans(k1, k2, goal);
    within_is(k1, goal);
}
/// the pieces around the elements or members
pub proof fn frame_pieces(x1: Seq<char>, nl: Seq<char>, body: Seq<char>, close: Seq<char>, goal: Seq<char>)
    requires goal == ((x1 + nl) + body) + close,
    ensures within(seq![], goal), within(x1, goal), within(x1 + nl, goal), ((x1 + nl) + body).is_prefix_of(goal), within((x1 + nl) + body, goal), within(goal, goal), (x1 + nl) + seq![] == x1 + nl, seq![] + x1 == x1,
{
    assert(seq![].is_prefix_of(goal)); assert(x1.is_prefix_of(goal)); assert((x1 + nl).is_prefix_of(goal)); assert(((x1 + nl) + body).is_prefix_of(goal));
    within_is(seq![], goal); within_is(x1, goal); within_is(x1 + nl, goal); within_is((x1 + nl) + body, goal); within_is(goal, goal);
    assert((x1 + nl) + seq![] =~= x1 + nl); assert(seq![] + x1 =~= x1);
}
}
verus! {
/// a piece `x` of the text `goal`, after the pieces `a`
pub proof fn chunk(s: Seq<char>, a: Seq<char>, x: Seq<char>, goal: Seq<char>)
    requires (a + x).is_prefix_of(goal),
    ensures ((s + a) + x).is_prefix_of(s + goal), s.is_prefix_of((s + a) + x), (s + a) + x == s + (a + x), s.is_prefix_of(s + a),
{
    assert(forall|i: int| 0 <= i < (a + x).len() ==> (a + x)[i] == #[trigger] goal[i]) by { assert(a + x =~= goal.take((a + x).len() as int)); }
    assert((s + a) + x =~= (s + goal).take(((s + a) + x).len() as int));
    assert((s + a) + x =~= s + (a + x));
}
}
verus! {
pub broadcast proof fn enc_dec(s: Seq<char>)
    ensures decode_utf8(#[trigger] encode_utf8(s)) == s,
{ encode_utf8_decode_utf8(s); }
}

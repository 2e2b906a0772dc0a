// Documents: the pre-order of a value, and reading a value back from it.
#[allow(unused_imports)] use vstd::prelude::*;
use crate::error::*;
use crate::spec::*;
verus! {
/// the pre-order of a value
pub open spec fn flat_tree(t: Tree) -> Seq<NodeG>
    decreases t, 0nat
{
    match t {
        Tree::Null => seq![NodeG::Null], Tree::Bool(x) => seq![NodeG::Bool(x)], Tree::Num(n) => seq![NodeG::Num(n)], Tree::Str(s) => seq![NodeG::Str(s)],
        Tree::Arr(s) => seq![NodeG::Arr(s.len() as int)] + flat_elems(s),
        Tree::Obj(m) => seq![NodeG::Obj(m.len() as int)] + flat_members(m),
    }
}
pub open spec fn flat_elems(s: Seq<Tree>) -> Seq<NodeG> decreases s
{ if s.len() == 0 { seq![] } else { flat_tree(s[0]) + flat_elems(s.drop_first()) } }
pub open spec fn flat_members(m: Seq<(JS, Tree)>) -> Seq<NodeG> decreases m
{ if m.len() == 0 { seq![] } else { seq![NodeG::Str(m[0].0)] + flat_tree(m[0].1) + flat_members(m.drop_first()) } }

/// the value that starts a list of nodes, and the nodes after it
pub open spec fn take(ns: Seq<NodeG>) -> Option<(Tree, Seq<NodeG>)>
    decreases ns.len(), 0int
{
    if ns.len() == 0 { None } else { match ns[0] {
        NodeG::Null => Some((Tree::Null, ns.drop_first())), NodeG::Bool(x) => Some((Tree::Bool(x), ns.drop_first())),
        NodeG::Num(n) => Some((Tree::Num(n), ns.drop_first())), NodeG::Str(s) => Some((Tree::Str(s), ns.drop_first())),
        NodeG::Arr(k) => match take_elems(ns.drop_first(), k) { Some((s, rest)) => Some((Tree::Arr(s), rest)), None => None },
        NodeG::Obj(k) => match take_members(ns.drop_first(), k) { Some((m, rest)) => Some((Tree::Obj(m), rest)), None => None },
    } }
}
pub open spec fn take_elems(ns: Seq<NodeG>, k: int) -> Option<(Seq<Tree>, Seq<NodeG>)>
    decreases ns.len(), 1int
{
    if k <= 0 { Some((seq![], ns)) } else { match take(ns) {
        Some((t, rest)) => if !(rest.len() < ns.len()) { None } else { match take_elems(rest, k - 1) {
            Some((s, rest)) => Some((seq![t] + s, rest)), None => None } },
        None => None,
    } }
}
pub open spec fn take_members(ns: Seq<NodeG>, k: int) -> Option<(Seq<(JS, Tree)>, Seq<NodeG>)>
    decreases ns.len(), 1int
{
    if k <= 0 { Some((seq![], ns)) } else if ns.len() == 0 { None } else { match ns[0] {
        NodeG::Str(key) => match take(ns.drop_first()) {
            Some((t, rest)) => if !(rest.len() < ns.len()) { None } else { match take_members(rest, k - 1) {
                Some((m, rest)) => Some((seq![(key, t)] + m, rest)), None => None } },
            None => None,
        },
        _ => None,
    } }
}
/// nothing but complete values
pub open spec fn forest(ns: Seq<NodeG>) -> bool
    decreases ns.len()
{ ns.len() == 0 || match take(ns) { Some((_, rest)) => rest.len() < ns.len() && forest(rest), None => false } }

pub proof fn take_flat(t: Tree, post: Seq<NodeG>)
    ensures take(flat_tree(t) + post) == Some((t, post)), flat_tree(t).len() > 0,
    decreases t, 0nat
{
    let ns = flat_tree(t) + post;
    match t {
        Tree::Arr(s) => { assert(ns.drop_first() =~= flat_elems(s) + post); take_flat_elems(s, post); },
        Tree::Obj(m) => { assert(ns.drop_first() =~= flat_members(m) + post); take_flat_members(m, post); },
        _ => { assert(ns.drop_first() =~= post); },
    }
}
pub proof fn take_flat_elems(s: Seq<Tree>, post: Seq<NodeG>)
    ensures take_elems(flat_elems(s) + post, s.len() as int) == Some((s, post)),
    decreases s
{
    let ns = flat_elems(s) + post;
    if s.len() > 0 {
        let rest = flat_elems(s.drop_first()) + post;
        assert(ns =~= flat_tree(s[0]) + rest);
        take_flat(s[0], rest);
        take_flat_elems(s.drop_first(), post);
        assert(seq![s[0]] + s.drop_first() =~= s);
    } else { assert(ns =~= post); assert(s =~= seq![]); }
}
pub proof fn take_flat_members(m: Seq<(JS, Tree)>, post: Seq<NodeG>)
    ensures take_members(flat_members(m) + post, m.len() as int) == Some((m, post)),
    decreases m
{
    let ns = flat_members(m) + post;
    if m.len() > 0 {
        let rest = flat_members(m.drop_first()) + post;
        assert(ns.drop_first() =~= flat_tree(m[0].1) + rest);
        assert(ns[0] == NodeG::Str(m[0].0));
        take_flat(m[0].1, rest);
        take_flat_members(m.drop_first(), post);
        assert(seq![(m[0].0, m[0].1)] + m.drop_first() =~= m);
    } else { assert(ns =~= post); assert(m =~= seq![]); }
}
pub proof fn take_shrinks(ns: Seq<NodeG>)
    ensures take(ns) matches Some((_, rest)) ==> rest.len() < ns.len(),
    decreases ns.len(), 0int
{ if ns.len() > 0 { match ns[0] { NodeG::Arr(k) => take_elems_shrinks(ns.drop_first(), k), NodeG::Obj(k) => take_members_shrinks(ns.drop_first(), k), _ => {} } } }
pub proof fn take_elems_shrinks(ns: Seq<NodeG>, k: int)
    ensures take_elems(ns, k) matches Some((_, rest)) ==> rest.len() <= ns.len(),
    decreases ns.len(), 1int
{ if k > 0 { take_shrinks(ns); if let Some((t, rest)) = take(ns) { take_elems_shrinks(rest, k - 1); } } }
pub proof fn take_members_shrinks(ns: Seq<NodeG>, k: int)
    ensures take_members(ns, k) matches Some((_, rest)) ==> rest.len() <= ns.len(),
    decreases ns.len(), 1int
{ if k > 0 && ns.len() > 0 { take_shrinks(ns.drop_first()); if let Some((t, rest)) = take(ns.drop_first()) { if rest.len() < ns.len() { take_members_shrinks(rest, k - 1); } } } }

/// after any node of a list of complete values there are complete values again
pub proof fn forest_next(ns: Seq<NodeG>)
    ensures forest(ns) && ns.len() > 0 ==> forest(ns.drop_first()),
{
    take_shrinks(ns);
    if forest(ns) && ns.len() > 0 { match ns[0] { NodeG::Arr(k) => forest_elems(ns.drop_first(), k), NodeG::Obj(k) => forest_members(ns.drop_first(), k), _ => {} } }
}
pub proof fn forest_elems(ns: Seq<NodeG>, k: int)
    requires take_elems(ns, k) matches Some((_, rest)) && forest(rest),
    ensures forest(ns),
    decreases ns.len(),
{ if k > 0 { take_shrinks(ns); forest_elems((take(ns)->0).1, k - 1); } }
pub proof fn forest_members(ns: Seq<NodeG>, k: int)
    requires take_members(ns, k) matches Some((_, rest)) && forest(rest),
    ensures forest(ns),
    decreases ns.len(),
{ if k > 0 { take_shrinks(ns.drop_first()); forest_members((take(ns.drop_first())->0).1, k - 1); assert(forest(ns.drop_first())); assert(take(ns) == Some((Tree::Str(ns[0]->Str_0), ns.drop_first()))); } }
}
verus! {
/// room for `cap` nodes
pub open spec fn capped(cap: int) -> spec_fn(Seq<NodeG>, NodeG) -> Option<ErrorKind> { |s: Seq<NodeG>, n: NodeG| if s.len() < cap { None } else { Some(ErrorKind::PaylodTooLarge) } }
/// room for any number of nodes
pub open spec fn boundless() -> spec_fn(Seq<NodeG>, NodeG) -> Option<ErrorKind> { |s: Seq<NodeG>, n: NodeG| None::<ErrorKind> }
/// feeding `f` to the list `s` made it `s1`
pub open spec fn ng_fed(s: NG, f: Seq<NodeG>, s1: NG, r: Result<int, ErrorKind>) -> bool {
    &&& s1.room == s.room
    &&& r is Ok ==> s1.n == s.n + f && r->Ok_0 == s.n.len()
    &&& s.room == boundless() ==> r is Ok
    &&& forall|cap: int| s.room == #[trigger] capped(cap) && s.n.len() <= cap ==> (r is Ok <==> s.n.len() + f.len() <= cap) && (r is Err ==> r->Err_0 == ErrorKind::PaylodTooLarge)
}
}
verus! {
/// the nodes after the first
pub broadcast proof fn nodesv_rest(s: Seq<crate::doc::Node<'_>>)
    requires s.len() > 0,
    ensures #[trigger] crate::views::nodesv(s.drop_first()) == crate::views::nodesv(s).drop_first(), crate::views::nodesv(s)[0] == crate::views::nodev(s[0]), crate::views::nodesv(s).len() == s.len(),
{ assert(crate::views::nodesv(s.drop_first()) =~= crate::views::nodesv(s).drop_first()); }
pub broadcast proof fn nodesv_len(s: Seq<crate::doc::Node<'_>>)
    ensures #[trigger] crate::views::nodesv(s).len() == s.len(),
{}
pub broadcast proof fn first_and_rest(ns: Seq<NodeG>, x: NodeG)
    requires ns.len() > 0, ns[0] == x,
    ensures #[trigger] (seq![x] + ns.drop_first()) == ns,
{ assert(seq![x] + ns.drop_first() =~= ns); }
/// `k` of the elements in `ns0` were read, which are `acc`, and `ns` is left
pub open spec fn elems_read(ns0: Seq<NodeG>, len: int, acc: Seq<Tree>, ns: Seq<NodeG>, k: int) -> bool {
    match take_elems(ns, len - k) { Some((m, rest)) => take_elems(ns0, len) == Some((acc + m, rest)), None => false }
}
pub open spec fn members_read(ns0: Seq<NodeG>, len: int, acc: Seq<(JS, Tree)>, ns: Seq<NodeG>, k: int) -> bool {
    match take_members(ns, len - k) { Some((m, rest)) => take_members(ns0, len) == Some((acc + m, rest)), None => false }
}
pub broadcast proof fn rest_of_first(ns: Seq<NodeG>, x: NodeG)
    ensures (#[trigger] (seq![x] + ns)).drop_first() == ns, (seq![x] + ns)[0] == x, (seq![x] + ns).len() > 0,
{ assert((seq![x] + ns).drop_first() =~= ns); }
pub proof fn elems_start(ns: Seq<NodeG>, len: int)
    ensures take_elems(ns, len) is Some ==> elems_read(ns, len, seq![], ns, 0),
{ if take_elems(ns, len) is Some { let m = (take_elems(ns, len)->0).0; assert(Seq::<Tree>::empty() + m =~= m); } }
pub broadcast proof fn elems_done(ns0: Seq<NodeG>, len: int, acc: Seq<Tree>, ns: Seq<NodeG>)
    requires #[trigger] elems_read(ns0, len, acc, ns, len),
    ensures take_elems(ns0, len) == Some((acc, ns)),
{ assert(acc + Seq::<Tree>::empty() =~= acc); }
pub proof fn members_start(ns: Seq<NodeG>, len: int)
    ensures take_members(ns, len) is Some ==> members_read(ns, len, seq![], ns, 0),
{ if take_members(ns, len) is Some { let m = (take_members(ns, len)->0).0; assert(Seq::<(JS, Tree)>::empty() + m =~= m); } }
pub broadcast proof fn members_done(ns0: Seq<NodeG>, len: int, acc: Seq<(JS, Tree)>, ns: Seq<NodeG>)
    requires #[trigger] members_read(ns0, len, acc, ns, len),
    ensures take_members(ns0, len) == Some((acc, ns)),
{ assert(acc + Seq::<(JS, Tree)>::empty() =~= acc); }
pub proof fn elem_next(ns0: Seq<NodeG>, len: int, acc: Seq<Tree>, ns: Seq<NodeG>, k: int)
    requires elems_read(ns0, len, acc, ns, k), k < len,
    ensures ns.len() > 0, take(ns) is Some, elems_read(ns0, len, acc.push((take(ns)->0).0), (take(ns)->0).1, k + 1),
{
    let (t, rest) = take(ns)->0; let (m, z) = take_elems(rest, len - (k + 1))->0;
    assert(acc.push(t) + m =~= acc + (seq![t] + m));
}
pub proof fn member_next(ns0: Seq<NodeG>, len: int, acc: Seq<(JS, Tree)>, ns: Seq<NodeG>, k: int)
    requires members_read(ns0, len, acc, ns, k), k < len,
    ensures ns.len() > 1, ns[0] is Str, take(ns.drop_first()) is Some, members_read(ns0, len, acc.push((ns[0]->Str_0, (take(ns.drop_first())->0).0)), (take(ns.drop_first())->0).1, k + 1),
{
    let (t, rest) = take(ns.drop_first())->0; let (m, z) = take_members(rest, len - (k + 1))->0;
    let kt = (ns[0]->Str_0, t);
    assert(acc.push(kt) + m =~= acc + (seq![kt] + m));
}
/// `k` of the values in `ns0` were passed over, and `ns` is left
pub open spec fn elems_passed(ns0: Seq<NodeG>, len: int, ns: Seq<NodeG>, k: int) -> bool {
    match take_elems(ns, len - k) { Some((_, rest)) => take_elems(ns0, len) is Some && (take_elems(ns0, len)->0).1 == rest, None => false }
}
pub open spec fn members_passed(ns0: Seq<NodeG>, len: int, ns: Seq<NodeG>, k: int) -> bool {
    match take_members(ns, len - k) { Some((_, rest)) => take_members(ns0, len) is Some && (take_members(ns0, len)->0).1 == rest, None => false }
}
pub proof fn elem_passed(ns0: Seq<NodeG>, len: int, ns: Seq<NodeG>, k: int)
    requires elems_passed(ns0, len, ns, k), k < len,
    ensures ns.len() > 0, take(ns) is Some, elems_passed(ns0, len, (take(ns)->0).1, k + 1),
{}
pub proof fn member_passed(ns0: Seq<NodeG>, len: int, ns: Seq<NodeG>, k: int)
    requires members_passed(ns0, len, ns, k), k < len,
    ensures ns.len() > 1, ns[0] is Str, take(ns) is Some, (take(ns)->0).1 == ns.drop_first(), take(ns.drop_first()) is Some, members_passed(ns0, len, (take(ns.drop_first())->0).1, k + 1),
{}
pub broadcast group reading { nodesv_rest, nodesv_len, first_and_rest, rest_of_first, elems_done, members_done }
}

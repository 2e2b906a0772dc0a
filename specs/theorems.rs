// The properties, stated over the contracts of the functions of the library.
#[allow(unused_imports)] use vstd::prelude::*;
use vstd::utf8::*;
use core::convert::Infallible;
use crate::error::*;
use crate::parser::*;
use crate::spec::*;
use crate::views::*;
use crate::lemmas::*;
use crate::run::*;
use crate::grammar::*;
use crate::doc::*;
use crate::docs::*;
use crate::value::*;
verus! {
// ------------------------------------------------------------------ what is accepted
/// the value of an accepted payload
pub open spec fn accepted(b: Seq<u8>, g: bool, cfg: ParseConfig) -> Option<Tree> {
    match g_text(cx(b, g, cfg)) {
        Some(t) => if too_deep(cx(b, g, cfg), depth(t), budget(cfg)) || (!cfg.allow_all_types_at_root && !(kind(t) is Object || kind(t) is Array)) { None } else { Some(t) },
        None => None,
    }
}
/// the delegate knows the kind of a value it was fed
pub open spec fn honest_kind<'a, D: ParseDelegate<'a>>() -> bool {
    forall|s: D::GS, t: Tree| (#[trigger] feed_value::<D>(s, t)).1 is Ok ==> D::f_kind(feed_value::<D>(s, t).0, feed_value::<D>(s, t).1->Ok_0) == kind(t)
}
/// a run accepts what the grammar does, unless the delegate fails on the value of the text; and hands out what the delegate
/// makes of that value
pub proof fn run_thm<'a, D: ParseDelegate<'a>>(b: Seq<u8>, g: bool, cfg: ParseConfig, s: D::GS)
    requires b.len() <= max_len(), honest::<D>(), !cfg.allow_all_types_at_root ==> honest_kind::<D>(),
    ensures ({
        let x = run::<D>(b, g, cfg, s);
        match accepted(b, g, cfg) {
            Some(t) => fed_as::<D>(x, feed_value::<D>(s, t), (g_value(cx(b, g, cfg), 0)->0).1),
            None => x.r is Err,
        }
    }),
{ value_thm::<D>(cx(b, g, cfg), 0, budget(cfg), s); }

// ------------------------------------------------------------------ validation
pub proof fn honest_unit() ensures honest::<()>() {}
pub proof fn unit_feed(t: Tree)
    ensures feed_value::<()>((), t) == ((), Ok::<JsonKind, Infallible>(kind(t))),
    decreases t, 0nat
{ match t { Tree::Obj(m) => unit_feed_members(0, m), Tree::Arr(m) => unit_feed_elems(0, m), _ => {} } }
pub proof fn unit_feed_members(o: usize, m: Seq<(JS, Tree)>)
    ensures feed_members::<()>((), o, m) == ((), Ok::<JsonKind, Infallible>(JsonKind::Object)),
    decreases m
{ if m.len() > 0 { unit_feed(m[0].1); unit_feed_members((o + 1) as usize, m.drop_first()); } }
pub proof fn unit_feed_elems(a: usize, m: Seq<Tree>)
    ensures feed_elems::<()>((), a, m) == ((), Ok::<JsonKind, Infallible>(JsonKind::Array)),
    decreases m
{ if m.len() > 0 { unit_feed(m[0]); unit_feed_elems((a + 1) as usize, m.drop_first()); } }
/// C01, for validation
pub proof fn validate_thm(b: Seq<u8>, g: bool, cfg: ParseConfig)
    requires b.len() <= max_len(),
    ensures run::<()>(b, g, cfg, ()).r is Ok <==> accepted(b, g, cfg) is Some,
{
    honest_unit();
    assert forall|s: (), t: Tree| (#[trigger] feed_value::<()>(s, t)).1 is Ok implies <() as ParseDelegate<'_>>::f_kind(feed_value::<()>(s, t).0, feed_value::<()>(s, t).1->Ok_0) == kind(t) by { unit_feed(t); }
    run_thm::<()>(b, g, cfg, ());
    if accepted(b, g, cfg) is Some { unit_feed(accepted(b, g, cfg)->0); }
}

// ------------------------------------------------------------------ values
pub proof fn value_feed(t: Tree)
    ensures feed_value::<ValueParser>((), t) == ((), Ok::<Tree, Infallible>(t)),
    decreases t, 0nat
{
    match t {
        Tree::Obj(m) => { value_feed_members(Seq::empty(), m); assert(Seq::<(JS, Tree)>::empty() + m =~= m); },
        Tree::Arr(m) => { value_feed_elems(Seq::empty(), m); assert(Seq::<Tree>::empty() + m =~= m); },
        _ => {},
    }
}
pub proof fn value_feed_members(o: Seq<(JS, Tree)>, m: Seq<(JS, Tree)>)
    ensures feed_members::<ValueParser>((), o, m) == ((), Ok::<Tree, Infallible>(Tree::Obj(o + m))),
    decreases m
{
    if m.len() > 0 { value_feed(m[0].1); value_feed_members(o.push((m[0].0, m[0].1)), m.drop_first()); assert(o.push((m[0].0, m[0].1)) + m.drop_first() =~= o + m); }
    else { assert(o + m =~= o); }
}
pub proof fn value_feed_elems(a: Seq<Tree>, m: Seq<Tree>)
    ensures feed_elems::<ValueParser>((), a, m) == ((), Ok::<Tree, Infallible>(Tree::Arr(a + m))),
    decreases m
{
    if m.len() > 0 { value_feed(m[0]); value_feed_elems(a.push(m[0]), m.drop_first()); assert(a.push(m[0]) + m.drop_first() =~= a + m); }
    else { assert(a + m =~= a); }
}
/// C01 and C02, for values
pub proof fn value_parse_thm(b: Seq<u8>, g: bool, cfg: ParseConfig)
    requires b.len() <= max_len(),
    ensures match accepted(b, g, cfg) {
        Some(t) => run::<ValueParser>(b, g, cfg, ()).r matches Ok((v, _)) && v == t,
        None => run::<ValueParser>(b, g, cfg, ()).r is Err,
    },
{
    assert forall|s: (), t: Tree| (#[trigger] feed_value::<ValueParser>(s, t)).1 is Ok implies <ValueParser as ParseDelegate<'_>>::f_kind(feed_value::<ValueParser>(s, t).0, feed_value::<ValueParser>(s, t).1->Ok_0) == kind(t) by { value_feed(t); }
    run_thm::<ValueParser>(b, g, cfg, ());
    if accepted(b, g, cfg) is Some { value_feed(accepted(b, g, cfg)->0); }
}
}
verus! {
// ------------------------------------------------------------------ documents
pub proof fn honest_nodes<'a: 'b, 'b, B: NodeCollection<'a> + 'b>() ensures honest::<&'b mut Nodes<'a, B>>() {}
pub proof fn nodes_feed<'a: 'b, 'b, B: NodeCollection<'a> + 'b>(s: NG, t: Tree)
    ensures ({ let x = feed_value::<&'b mut Nodes<'a, B>>(s, t); ng_fed(s, flat_tree(t), x.0, x.1) }),
    decreases t, 0nat
{
    match t {
        Tree::Obj(m) => {
            let s1 = ng_push(s, NodeG::Obj(0)).0;
            if ng_push(s, NodeG::Obj(0)).1 is Ok {
                nodes_feed_members::<B>(s1, s.n.len() as int, m, 0);
                assert(s1.n.update(s.n.len() as int, NodeG::Obj(m.len() as int)) + flat_members(m) =~= s.n + flat_tree(t));
            }
        },
        Tree::Arr(m) => {
            let s1 = ng_push(s, NodeG::Arr(0)).0;
            if ng_push(s, NodeG::Arr(0)).1 is Ok {
                nodes_feed_elems::<B>(s1, s.n.len() as int, m, 0);
                assert(s1.n.update(s.n.len() as int, NodeG::Arr(m.len() as int)) + flat_elems(m) =~= s.n + flat_tree(t));
            }
        },
        _ => { assert(s.n + flat_tree(t) =~= s.n.push(flat_tree(t)[0])); },
    }
}
pub proof fn nodes_feed_members<'a: 'b, 'b, B: NodeCollection<'a> + 'b>(s: NG, o: int, m: Seq<(JS, Tree)>, k: int)
    requires 0 <= o < s.n.len(), s.n[o] == NodeG::Obj(k),
    ensures ({
        let (s1, r) = feed_members::<&'b mut Nodes<'a, B>>(s, o, m);
        &&& s1.room == s.room
        &&& r is Ok ==> s1.n == s.n.update(o, NodeG::Obj(k + m.len())) + flat_members(m) && r->Ok_0 == o
        &&& s.room == boundless() ==> r is Ok
        &&& forall|cap: int| s.room == #[trigger] capped(cap) && s.n.len() <= cap ==> (r is Ok <==> s.n.len() + flat_members(m).len() <= cap) && (r is Err ==> r->Err_0 == ErrorKind::PaylodTooLarge)
    }),
    decreases m
{
    if m.len() == 0 {
        assert(s.n.update(o, NodeG::Obj(k)) + flat_members(m) =~= s.n);
    } else {
        let s1 = ng_bump(s, o);
        let (s2, r2) = ng_push(s1, NodeG::Str(m[0].0));
        if r2 is Ok {
            nodes_feed::<B>(s2, m[0].1);
            let (s3, r3) = feed_value::<&'b mut Nodes<'a, B>>(s2, m[0].1);
            if r3 is Ok {
                nodes_feed_members::<B>(s3, o, m.drop_first(), k + 1);
                assert(s3.n.update(o, NodeG::Obj(k + m.len())) + flat_members(m.drop_first()) =~= s.n.update(o, NodeG::Obj(k + m.len())) + flat_members(m));
            }
        }
    }
}
pub proof fn nodes_feed_elems<'a: 'b, 'b, B: NodeCollection<'a> + 'b>(s: NG, o: int, m: Seq<Tree>, k: int)
    requires 0 <= o < s.n.len(), s.n[o] == NodeG::Arr(k),
    ensures ({
        let (s1, r) = feed_elems::<&'b mut Nodes<'a, B>>(s, o, m);
        &&& s1.room == s.room
        &&& r is Ok ==> s1.n == s.n.update(o, NodeG::Arr(k + m.len())) + flat_elems(m) && r->Ok_0 == o
        &&& s.room == boundless() ==> r is Ok
        &&& forall|cap: int| s.room == #[trigger] capped(cap) && s.n.len() <= cap ==> (r is Ok <==> s.n.len() + flat_elems(m).len() <= cap) && (r is Err ==> r->Err_0 == ErrorKind::PaylodTooLarge)
    }),
    decreases m
{
    if m.len() == 0 {
        assert(s.n.update(o, NodeG::Arr(k)) + flat_elems(m) =~= s.n);
    } else {
        nodes_feed::<B>(s, m[0]);
        let (s2, r2) = feed_value::<&'b mut Nodes<'a, B>>(s, m[0]);
        if r2 is Ok {
            let s3 = ng_bump(s2, o);
            nodes_feed_elems::<B>(s3, o, m.drop_first(), k + 1);
            assert(s3.n.update(o, NodeG::Arr(k + m.len())) + flat_elems(m.drop_first()) =~= s.n.update(o, NodeG::Arr(k + m.len())) + flat_elems(m));
        }
    }
}
pub proof fn nodes_kind<'a: 'b, 'b, B: NodeCollection<'a> + 'b>()
    ensures honest_kind::<&'b mut Nodes<'a, B>>(),
{
    assert forall|s: NG, t: Tree| (#[trigger] feed_value::<&'b mut Nodes<'a, B>>(s, t)).1 is Ok
        implies <&'b mut Nodes<'a, B> as ParseDelegate<'a>>::f_kind(feed_value::<&'b mut Nodes<'a, B>>(s, t).0, feed_value::<&'b mut Nodes<'a, B>>(s, t).1->Ok_0) == kind(t) by {
        nodes_feed::<B>(s, t);
    }
}
/// what a run that fills a document may come to
pub open spec fn filled<'a: 'b, 'b, B: NodeCollection<'a> + 'b>(x: Out<'a, &'b mut Nodes<'a, B>>, b: Seq<u8>, g: bool, cfg: ParseConfig, room: spec_fn(Seq<NodeG>, NodeG) -> Option<ErrorKind>) -> bool {
    match accepted(b, g, cfg) {
        Some(t) => {
            &&& x.s.room == room
            &&& x.r is Ok ==> x.s.n == flat_tree(t)
            &&& room == boundless() ==> x.r is Ok
            &&& forall|cap: int| room == #[trigger] capped(cap) && 0 <= cap ==> (x.r is Ok <==> flat_tree(t).len() <= cap) && (x.r is Err ==> flat((x.r->Err_0).1) == ErrorKind::<Infallible>::PaylodTooLarge)
        },
        None => x.r is Err,
    }
}
/// C08 and C18: a document is the pre-order of the value, or does not fit
pub proof fn doc_parse_thm<'a: 'b, 'b, B: NodeCollection<'a> + 'b>(b: Seq<u8>, g: bool, cfg: ParseConfig, s: NG)
    requires b.len() <= max_len(), s.n == Seq::<NodeG>::empty(),
    ensures filled::<B>(run::<&'b mut Nodes<'a, B>>(b, g, cfg, s), b, g, cfg, s.room),
{
    honest_nodes::<B>(); nodes_kind::<B>();
    run_thm::<&'b mut Nodes<'a, B>>(b, g, cfg, s);
    if let Some(t) = accepted(b, g, cfg) { nodes_feed::<B>(s, t); assert(s.n + flat_tree(t) =~= flat_tree(t)); }
}
pub proof fn doc_thm<'a: 'b, 'b, B: NodeCollection<'a> + 'b>(b: Seq<u8>, g: bool, cfg: ParseConfig)
    requires b.len() <= max_len(),
    ensures forall|s: NG| s.n.len() == 0 ==> filled::<B>(#[trigger] run::<&'b mut Nodes<'a, B>>(b, g, cfg, s), b, g, cfg, s.room),
        forall|t: Tree| #[trigger] take(flat_tree(t)) == Some((t, Seq::<NodeG>::empty())),
{
    assert forall|s: NG| s.n.len() == 0 implies filled::<B>(#[trigger] run::<&'b mut Nodes<'a, B>>(b, g, cfg, s), b, g, cfg, s.room) by {
        assert(s.n =~= Seq::empty());
        doc_parse_thm::<B>(b, g, cfg, s);
    }
    assert forall|t: Tree| #[trigger] take(flat_tree(t)) == Some((t, Seq::<NodeG>::empty())) by { take_flat(t, Seq::empty()); assert(flat_tree(t) + Seq::<NodeG>::empty() =~= flat_tree(t)); }
}
}
verus! {
// ------------------------------------------------------------------ lone numbers and strings
/// C15: anything but a number is refused as such
pub proof fn number_thm(b: Seq<u8>)
    requires b.len() <= max_len(),
    ensures ({
        let x = run::<crate::number::NumberParser>(b, true, dflt(), ());
        match accepted(b, true, dflt()) {
            Some(Tree::Num(n)) => x.r matches Ok((v, _)) && v == n,
            Some(_) => x.r matches Err((_, k)) && flat(k) == ErrorKind::<Infallible>::ExpectedNumber,
            None => x.r is Err,
        }
    }),
{ run_thm::<crate::number::NumberParser>(b, true, dflt(), ()); }
pub proof fn string_thm(b: Seq<u8>)
    requires b.len() <= max_len(),
    ensures ({
        let x = run::<crate::string::StringParser>(b, true, dflt(), ());
        match accepted(b, true, dflt()) {
            Some(Tree::Str(s)) => x.r matches Ok((v, _)) && v == s,
            Some(_) => x.r matches Err((_, k)) && flat(k) == ErrorKind::<Infallible>::ExpectedString,
            None => x.r is Err,
        }
    }),
{ run_thm::<crate::string::StringParser>(b, true, dflt(), ()); }
}

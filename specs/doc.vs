@@ module doc
use crate::heapless;
use crate::error::flat;
use crate::theorems::accepted;
impl<'a, Backing> Nodes<'a, Backing> where Backing: NodeCollection<'a> {
    pub open spec fn ng(&self) -> NG { NG { n: nodesv(self.collection.items()), room: self.collection.room() } }
}
pub open spec fn nodes_pushed(s: NG, g: NodeG, s1: NG, r: Result<usize, ErrorKind>) -> bool {
    s1 == ng_push(s, g).0 && rmap(r, |v: usize| v as int) == ng_push(s, g).1
}
/// what parsing into a document does
pub open spec fn doc_parsed<'a, B: NodeCollection<'a>>(r: Result<GenericDocument<'a, B>, Error>, b: Seq<u8>, g: bool, cfg: ParseConfig) -> bool where B: Default {
    exists|v: Nodes<'a, B>| { let s = v.ng(); &&& #[trigger] call_ensures(B::default, (), v.collection) &&& {
        let x = run::<&mut Nodes<'a, B>>(b, g, cfg, s);
        match x.r {
            Ok(_) => r is Ok && r->Ok_0.ns().ng() == x.s,
            Err((o, k)) => r is Err && r->Err_0.offset == o && r->Err_0.kind == flat(k),
        }
    } }
}
/// the laws of a backing, for every use of its slices
pub proof fn backing_laws<'a, B: NodeCollection<'a>>()
    ensures
        B::obeys_as_mut_spec(), B::obeys_as_ref_spec(),
        forall|a: &B| #[trigger] a.as_ref_spec()@ == a.items(),
        forall|a: &mut B, x: &mut [Node<'a>]| #[trigger] B::as_mut_rel(a, x) ==> lends(a, x),
        forall|c: B, i: B::IntoIter| #[trigger] call_ensures(<B as IntoIterator>::into_iter, (c,), i) ==> goes_through(c, i),
        forall|c: B, i: B::IntoIter| #[trigger] goes_through(c, i) ==> i.obeys_prophetic_iter_laws() && i.decrease() is Some && i.remaining() == c.items(),
{
    B::law_obeys();
    assert forall|a: &B| #[trigger] a.as_ref_spec()@ == a.items() by { a.law_ref(); }
    assert forall|a: &mut B, x: &mut [Node<'a>]| #[trigger] B::as_mut_rel(a, x) implies lends(a, x) by { B::law_mut(a, x); }
    assert forall|c: B, i: B::IntoIter| #[trigger] call_ensures(<B as IntoIterator>::into_iter, (c,), i) implies goes_through(c, i) by { B::law_into(c, i); }
}
#[verifier::prophetic]
pub open spec fn goes_through<'a, B: NodeCollection<'a>>(c: B, i: B::IntoIter) -> bool {
    i.obeys_prophetic_iter_laws() && i.decrease() is Some && i.remaining() == c.items()
}
/// a new backing is empty
pub proof fn new_laws<'a, B: NodeCollection<'a> + Default>()
    ensures forall|c: B| #[trigger] call_ensures(B::default, (), c) ==> c.items().len() == 0 && c.room() == B::new_room(),
{ assert forall|c: B| #[trigger] call_ensures(B::default, (), c) implies c.items().len() == 0 && c.room() == B::new_room() by { B::law_default(c); } }
/// C08 and C18: what becomes of a payload
pub open spec fn doc_reads<'a, B: NodeCollection<'a>>(r: Result<GenericDocument<'a, B>, Error>, b: Seq<u8>, g: bool, cfg: ParseConfig) -> bool {
    match accepted(b, g, cfg) {
        Some(t) => {
            &&& r is Ok ==> doc_holds(r->Ok_0) && r->Ok_0.ns().ng().n == flat_tree(t)
            &&& B::new_room() == boundless() ==> r is Ok
            &&& forall|cap: int| B::new_room() == #[trigger] capped(cap) && 0 <= cap ==> (r is Ok <==> flat_tree(t).len() <= cap) && (r is Err ==> r->Err_0.kind == ErrorKind::<core::convert::Infallible>::PaylodTooLarge)
        },
        None => r is Err,
    }
}
#[verifier::prophetic]
pub open spec fn lends<'a, B: NodeCollection<'a>>(a: &mut B, x: &mut [Node<'a>]) -> bool {
    (*a).items() == (*x)@ && (*final(a)).items() == (*final(x))@ && (*final(x))@.len() == (*x)@.len() && (*final(a)).room() == (*a).room()
}
@@ impl doc | trait NodeCollection
    spec fn items(&self) -> Seq<Node<'a>>;
    /// why a node is refused
    spec fn room(&self) -> spec_fn(Seq<NodeG>, NodeG) -> Option<ErrorKind>;
    proof fn law_obeys()
        ensures <Self as AsMutSpec<[Node<'a>]>>::obeys_as_mut_spec(), <Self as AsRefSpec<[Node<'a>]>>::obeys_as_ref_spec();
    proof fn law_ref(&self)
        ensures <Self as AsRefSpec<[Node<'a>]>>::as_ref_spec(self)@ == self.items();
    proof fn law_mut(a: &mut Self, x: &mut [Node<'a>])
        ensures <Self as AsMutSpec<[Node<'a>]>>::as_mut_rel(a, x) ==> (*old(a)).items() == (*old(x))@ && (*final(a)).items() == (*final(x))@
            && (*final(x))@.len() == (*old(x))@.len() && (*final(a)).room() == (*old(a)).room();
    /// going through a backing gives its items
    proof fn law_into(c: Self, i: Self::IntoIter) where Self: Sized
        ensures call_ensures(<Self as IntoIterator>::into_iter, (c,), i) ==> i.obeys_prophetic_iter_laws() && i.decrease() is Some && i.remaining() == c.items();
    /// why a new backing refuses a node
    spec fn new_room() -> spec_fn(Seq<NodeG>, NodeG) -> Option<ErrorKind>;
    /// a new backing is empty
    proof fn law_default(c: Self) where Self: Default
        ensures call_ensures(<Self as Default>::default, (), c) ==> c.items().len() == 0 && c.room() == Self::new_room();
@@ fn doc | trait NodeCollection | push
@@ ret r
        ensures final(self).room() == old(self).room(),
            match (old(self).room())(nodesv(old(self).items()), nodev(node)) {
                Some(e) => r == Err::<(), ErrorKind>(e) && final(self).items() == old(self).items(),
                None => r is Ok && final(self).items() == old(self).items().push(node),
            }
@@ impl doc | NodeCollection for Vec<Node>
    open spec fn items(&self) -> Seq<Node<'a>> { self@ }
    open spec fn room(&self) -> spec_fn(Seq<NodeG>, NodeG) -> Option<ErrorKind> { crate::docs::boundless() }
    open spec fn new_room() -> spec_fn(Seq<NodeG>, NodeG) -> Option<ErrorKind> { crate::docs::boundless() }
    proof fn law_obeys() {}
    proof fn law_ref(&self) { vec_as_ref(self); }
    proof fn law_mut(a: &mut Self, x: &mut [Node<'a>]) {}
    proof fn law_into(c: Self, i: Self::IntoIter) {}
    proof fn law_default(c: Self) {}
@@ impl doc | NodeCollection for heapless::Vec<Node, N>
    open spec fn items(&self) -> Seq<Node<'a>> { self@ }
    open spec fn room(&self) -> spec_fn(Seq<NodeG>, NodeG) -> Option<ErrorKind> { crate::docs::capped(N as int) }
    open spec fn new_room() -> spec_fn(Seq<NodeG>, NodeG) -> Option<ErrorKind> { crate::docs::capped(N as int) }
    proof fn law_obeys() {}
    proof fn law_ref(&self) { crate::heapless::heapless_as_ref(self); }
    proof fn law_mut(a: &mut Self, x: &mut [Node<'a>]) {}
    proof fn law_into(c: Self, i: Self::IntoIter) {}
    proof fn law_default(c: Self) {}
@@ fn doc | NodeCollection for heapless::Vec<Node, N> | push
@@ head
broadcast use crate::docs::nodesv_len;
@@ closure 0 -> (r: ErrorKind)
    ensures r == ErrorKind::<core::convert::Infallible>::PaylodTooLarge
@@ fn doc | Nodes<Backing> | push_node
@@ ret r
    ensures nodes_pushed(old(self).ng(), nodev(node), final(self).ng(), r),
@@ head
proof { backing_laws::<Backing>(); nodesv_push(self.collection.items(), node); }
@@ fn doc | Nodes<Backing> | push_null
@@ ret r
    ensures nodes_pushed(old(self).ng(), NodeG::Null, final(self).ng(), r),
@@ fn doc | Nodes<Backing> | push_bool
@@ ret r
    ensures nodes_pushed(old(self).ng(), NodeG::Bool(boolean), final(self).ng(), r),
@@ fn doc | Nodes<Backing> | push_string
@@ ret r
    ensures nodes_pushed(old(self).ng(), NodeG::Str(jsv(string)), final(self).ng(), r),
@@ fn doc | Nodes<Backing> | push_number
@@ ret r
    ensures nodes_pushed(old(self).ng(), NodeG::Num(encode_utf8(nsrc(number))), final(self).ng(), r),
@@ fn doc | Nodes<Backing> | push_object
@@ ret r
    ensures nodes_pushed(old(self).ng(), NodeG::Obj(0), final(self).ng(), r),
@@ fn doc | Nodes<Backing> | push_array
@@ ret r
    ensures nodes_pushed(old(self).ng(), NodeG::Arr(0), final(self).ng(), r),
@@ fn doc | Nodes<Backing> | extend_object
    requires index < old(self).ng().n.len(), old(self).ng().n[index as int] is Obj, old(self).ng().n[index as int]->Obj_0 < usize::MAX,
    ensures final(self).ng().n =~= ng_bump(old(self).ng(), index as int).n, final(self).ng().room == old(self).ng().room,
@@ head
proof { backing_laws::<Backing>(); }
@@ fn doc | Nodes<Backing> | extend_array
    requires index < old(self).ng().n.len(), old(self).ng().n[index as int] is Arr, old(self).ng().n[index as int]->Arr_0 < usize::MAX,
    ensures final(self).ng().n =~= ng_bump(old(self).ng(), index as int).n, final(self).ng().room == old(self).ng().room,
@@ head
proof { backing_laws::<Backing>(); }
@@ fn doc | ParseDelegate for &mut Nodes<Backing> | object_is_empty
@@ head
proof { backing_laws::<Backing>(); }
@@ fn doc | ParseDelegate for &mut Nodes<Backing> | array_is_empty
@@ head
proof { backing_laws::<Backing>(); }
@@ fn doc | ParseDelegate for &mut Nodes<Backing> | kind_of
@@ head
proof { backing_laws::<Backing>(); }
@@ item doc | GenericDocument => crate-fields
@@ fn doc | GenericDocument<Backing> | from_json
@@ ret r
    ensures doc_parsed::<Backing>(r, encode_utf8(source@), true, dflt()), r is Err ==> r->Err_0.offset <= encode_utf8(source@).len(),
        doc_reads::<Backing>(r, encode_utf8(source@), true, dflt()),
@@ head
proof { crate::trusted::str_len_bound(source); new_laws::<Backing>(); crate::theorems::doc_thm::<Backing>(encode_utf8(source@), true, dflt()); }
@@ before Ok(Self
proof { kept_items(nodes.collection); }
@@ fn doc | GenericDocument<Backing> | from_json_with_config
@@ ret r
    ensures doc_parsed::<Backing>(r, encode_utf8(source@), true, config), r is Err ==> r->Err_0.offset <= encode_utf8(source@).len(),
        doc_reads::<Backing>(r, encode_utf8(source@), true, config),
@@ head
proof { crate::trusted::str_len_bound(source); new_laws::<Backing>(); crate::theorems::doc_thm::<Backing>(encode_utf8(source@), true, config); }
@@ before Ok(Self
proof { kept_items(nodes.collection); }
@@ fn doc | GenericDocument<Backing> | from_json_bytes
@@ ret r
    ensures doc_parsed::<Backing>(r, source@, false, dflt()), r is Err ==> r->Err_0.offset <= source@.len(),
        doc_reads::<Backing>(r, source@, false, dflt()),
@@ head
proof { crate::trusted::slice_len_bound(source); new_laws::<Backing>(); crate::theorems::doc_thm::<Backing>(source@, false, dflt()); }
@@ before Ok(Self
proof { kept_items(nodes.collection); }
@@ fn doc | GenericDocument<Backing> | from_json_bytes_with_config
@@ ret r
    ensures doc_parsed::<Backing>(r, source@, false, config), r is Err ==> r->Err_0.offset <= source@.len(),
        doc_reads::<Backing>(r, source@, false, config),
@@ head
proof { crate::trusted::slice_len_bound(source); new_laws::<Backing>(); crate::theorems::doc_thm::<Backing>(source@, false, config); }
@@ before Ok(Self
proof { kept_items(nodes.collection); }
@@ item doc | Node => clone
nodev(r) == nodev(*self),
@@ item number | JsonNumber => clone
nsrc(r) == nsrc(*self),
@@ module doc
use crate::docs::*;
use vstd::std_specs::iter::IteratorSpec;
impl<'doc, 'a> DocumentIter<'doc, 'a> {
    /// the nodes that are left
    #[verifier::prophetic]
    pub closed spec fn rest(&self) -> Seq<NodeG> { nodesv(self.nodes.remaining()) }
    pub closed spec fn left(&self) -> nat { self.nodes.decrease()->0 }
}
impl<'doc, 'a> vstd::std_specs::iter::IteratorSpecImpl for DocumentIter<'doc, 'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { false }
    open spec fn remaining(&self) -> Seq<Self::Item> { Seq::empty() }
    open spec fn will_return_none(&self) -> bool { false }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, i: int) -> Option<Self::Item> { None }
}
/// the nodes an iterator will give out
#[verifier::prophetic]
pub open spec fn coming<'a, I: Iterator<Item = Node<'a>>>(i: &I) -> Seq<NodeG> { nodesv(i.remaining()) }
@@ fn doc | - | hydrate_value_from_node
@@ attr #[verifier::loop_isolation(false)]
@@ ret r
    requires (*old(remaining_nodes)).obeys_prophetic_iter_laws(), (*old(remaining_nodes)).decrease() is Some,
        take(seq![nodev(node)] + coming(old(remaining_nodes))) is Some,
    ensures (*final(remaining_nodes)).obeys_prophetic_iter_laws(), (*final(remaining_nodes)).decrease() is Some, (*final(remaining_nodes)).decrease()->0 <= (*old(remaining_nodes)).decrease()->0,
        take(seq![nodev(node)] + coming(old(remaining_nodes))) == Some((tree(r), coming(final(remaining_nodes)))),
    decreases (*old(remaining_nodes)).decrease()->0,
@@ head
broadcast use reading;
proof {
    if let Node::Object { length } = node { members_start(coming(old(remaining_nodes)), length as int); }
    if let Node::Array { length } = node { elems_start(coming(old(remaining_nodes)), length as int); }
}
@@ loop 0 it
    invariant it.seq().len() == len, (*remaining_nodes).obeys_prophetic_iter_laws(), (*remaining_nodes).decrease() is Some, (*remaining_nodes).decrease()->0 <= (*old(remaining_nodes)).decrease()->0,
        members_read(coming(old(remaining_nodes)), len as int, mems(obj, obj.0@.len()), coming(remaining_nodes), it.index@),
@@ loop-head 0
broadcast use reading;
let ghost obj0 = obj;
proof { member_next(coming(old(remaining_nodes)), len as int, mems(obj, obj.0@.len()), coming(remaining_nodes), it.index@); }
@@ loop-tail 0
proof { mems_ext(obj0, obj, obj0.0@.len()); }
@@ loop 1 it
    invariant it.seq().len() == len, (*remaining_nodes).obeys_prophetic_iter_laws(), (*remaining_nodes).decrease() is Some, (*remaining_nodes).decrease()->0 <= (*old(remaining_nodes)).decrease()->0,
        elems_read(coming(old(remaining_nodes)), len as int, trees(values, values@.len()), coming(remaining_nodes), it.index@),
@@ loop-head 1
broadcast use reading;
let ghost values0 = values;
proof { elem_next(coming(old(remaining_nodes)), len as int, trees(values, values@.len()), coming(remaining_nodes), it.index@); }
@@ loop-tail 1
proof { trees_ext(values0, values, values0@.len()); }
@@ module doc
pub broadcast proof fn copied_nodes<'a>(items: Seq<Node<'a>>, refs: Seq<&Node<'a>>, out: Seq<Node<'a>>)
    requires #[trigger] crate::trusted::copied(refs, out), refs.len() == items.len(), forall|i: int| 0 <= i < refs.len() ==> *(#[trigger] refs[i]) == items[i],
    ensures #[trigger] nodesv(items) == nodesv(out),
{ assert(nodesv(items) =~= nodesv(out)); }
@@ fn doc | IntoIterator for &GenericDocument<Backing> | into_iter
@@ ret r
    ensures r.rest() == self.ns().ng().n, doc_holds(*self), forest(r.rest()),
@@ head
broadcast use copied_nodes, crate::trusted::cloned_ends;
proof { backing_laws::<Backing>(); use_type_invariant(self); kept_items(self.nodes.collection); assert(doc_holds(*self)); reveal_with_fuel(forest, 2); }
@@ fn doc | GenericDocument<Backing> | iter
@@ ret r
    ensures r.rest() == self.ns().ng().n, doc_holds(*self), forest(r.rest()),
@@ fn doc | DocumentIter | next_value
@@ via next it_next &mut
@@ ret r
    requires forest(old(self).rest()),
    ensures forest(final(self).rest()),
        match take(old(self).rest()) { Some((t, rest)) => r is Some && tree(r->0) == t && final(self).rest() == rest, None => r is None && old(self).rest().len() == 0 && final(self).rest() == old(self).rest() },
@@ head
broadcast use reading, crate::trusted::cloned_ends;
proof { take_shrinks(self.rest()); }
@@ fn doc | DocumentIter | skip_next_value
@@ via next it_next &mut
@@ attr #[verifier::loop_isolation(false)]
@@ spec
    requires forest(old(self).rest()),
    ensures forest(final(self).rest()),
        match take(old(self).rest()) { Some((_, rest)) => final(self).rest() == rest, None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() },
        old(self).rest().len() > 0 ==> final(self).left() < old(self).left(),
    decreases old(self).left(),
@@ head
broadcast use reading, crate::trusted::cloned_ends;
proof { take_shrinks(self.rest()); forest_next(self.rest()); }
@@ loop 0 it
    invariant it.seq().len() == len, self.left() < old(self).left(), forest(self.rest()), members_passed(old(self).rest().drop_first(), len as int, self.rest(), it.index@),
@@ loop-head 0
proof { member_passed(old(self).rest().drop_first(), len as int, self.rest(), it.index@); }
@@ loop 1 it
    invariant it.seq().len() == len, self.left() < old(self).left(), forest(self.rest()), elems_passed(old(self).rest().drop_first(), len as int, self.rest(), it.index@),
@@ loop-head 1
proof { elem_passed(old(self).rest().drop_first(), len as int, self.rest(), it.index@); }
@@ fn doc | Iterator for DocumentIter | next
@@ via next it_next &mut
@@ ret r
    ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
        old(self).rest().len() > 0 ==> r is Some && nodev(r->0) == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
        forest(old(self).rest()) ==> forest(final(self).rest()),
@@ head
broadcast use reading, crate::trusted::cloned_ends;
proof { forest_next(self.rest()); }
@@ module doc
/// the nodes kept in a backing: `NodeCollection::items`, for specifications that cannot name the trait (the declaration of
/// GenericDocument does not bound its parameter, so its invariant cannot either)
pub uninterp spec fn kept<'a, B>(b: B) -> Seq<Node<'a>>;
/// definition of `kept`
pub axiom fn kept_items<'a, B: NodeCollection<'a>>(b: B) ensures kept::<B>(b) == b.items();
impl<'a, Backing> GenericDocument<'a, Backing> {
    pub closed spec fn ns(self) -> Nodes<'a, Backing> { self.nodes }
    /// a document holds the nodes of one value
    #[verifier::type_invariant]
    pub closed spec fn one_value(self) -> bool {
        take(nodesv(kept::<Backing>(self.nodes.collection))) is Some && (take(nodesv(kept::<Backing>(self.nodes.collection)))->0).1.len() == 0
    }
}
/// what a document holds: the nodes of one value
pub open spec fn doc_holds<'a, B: NodeCollection<'a>>(d: GenericDocument<'a, B>) -> bool {
    take(d.ns().ng().n) is Some && (take(d.ns().ng().n)->0).1.len() == 0
}
@@ fn doc | From<GenericDocument<Backing>> for Value | from
@@ via next it_next &mut
@@ ret r
    ensures tree(r) == (take(doc.ns().ng().n)->0).0,
@@ head
broadcast use reading;
proof { use_type_invariant(&doc); kept_items(doc.nodes.collection); assert(doc_holds(doc)); backing_laws::<Backing>(); }

# The contract of a parse delegate.  Every method is a step of the delegate's state: `f_*` says how the state changes
# and what is returned.  `GS` is the state as the specification sees it, `GV`.. the values it hands out.
@@ impl parser | trait ParseDelegate
    type GS;
    type GV;
    type GO;
    type GA;
    type GK;
    type GL;
    spec fn sv(&self) -> Self::GS;
    /// for a delegate that is a reference: what its owner sees in the end (`fin` of the last state)
    #[verifier::prophetic]
    spec fn last(&self) -> Self::GL;
    spec fn fin(s: Self::GS) -> Self::GL;
    proof fn law_last(self) where Self: Sized
        requires has_resolved(self),
        ensures self.last() == Self::fin(self.sv());
    spec fn vv(v: Self::Value) -> Self::GV;
    spec fn ov(v: Self::Object) -> Self::GO;
    spec fn av(v: Self::Array) -> Self::GA;
    spec fn kv(v: Self::Key) -> Self::GK;
    spec fn f_null(s: Self::GS) -> (Self::GS, Result<Self::GV, Self::Error>);
    spec fn f_bool(s: Self::GS, v: bool) -> (Self::GS, Result<Self::GV, Self::Error>);
    spec fn f_num(s: Self::GS, v: Seq<u8>) -> (Self::GS, Result<Self::GV, Self::Error>);
    spec fn f_str(s: Self::GS, v: JS) -> (Self::GS, Result<Self::GV, Self::Error>);
    spec fn f_obj(s: Self::GS) -> (Self::GS, Result<Self::GO, Self::Error>);
    spec fn f_key(s: Self::GS, o: Self::GO, k: JS) -> (Self::GS, Self::GO, Result<Self::GK, Self::Error>);
    spec fn f_mem(s: Self::GS, o: Self::GO, k: Self::GK, v: Self::GV) -> (Self::GS, Self::GO, Result<(), Self::Error>);
    spec fn f_obj_empty(s: Self::GS, o: Self::GO) -> bool;
    spec fn f_obj_end(s: Self::GS, o: Self::GO) -> (Self::GS, Result<Self::GV, Self::Error>);
    spec fn f_arr(s: Self::GS) -> (Self::GS, Result<Self::GA, Self::Error>);
    spec fn f_elem(s: Self::GS, a: Self::GA, v: Self::GV) -> (Self::GS, Self::GA, Result<(), Self::Error>);
    spec fn f_arr_empty(s: Self::GS, a: Self::GA) -> bool;
    spec fn f_arr_end(s: Self::GS, a: Self::GA) -> (Self::GS, Result<Self::GV, Self::Error>);
    spec fn f_kind(s: Self::GS, v: Self::GV) -> JsonKind;
    /// the delegate can tell the kind of a value
    spec fn has_kind() -> bool;
    /// what the methods of this delegate may rely on: the object `o` (array `a`) was begun in state `s0`, it is open in
    /// state `s` and has `n` members; `k`: the next member's key has been announced
    spec fn o_ok(s0: Self::GS, s: Self::GS, o: Self::GO, n: int) -> bool;
    spec fn k_ok(s0: Self::GS, s: Self::GS, o: Self::GO, k: Self::GK, n: int) -> bool;
    spec fn a_ok(s0: Self::GS, s: Self::GS, a: Self::GA, n: int) -> bool;
    /// `v` is a value of state `s`
    spec fn v_ok(s: Self::GS, v: Self::GV) -> bool;
    /// what was open in state `s` is unchanged in `s1`
    spec fn frame(s: Self::GS, s1: Self::GS) -> bool;
    proof fn law_leaf(s: Self::GS, x: bool, n: Seq<u8>, t: JS)
        ensures
            Self::f_null(s).1 is Ok ==> Self::frame(s, Self::f_null(s).0) && Self::v_ok(Self::f_null(s).0, Self::f_null(s).1->Ok_0),
            Self::f_bool(s, x).1 is Ok ==> Self::frame(s, Self::f_bool(s, x).0) && Self::v_ok(Self::f_bool(s, x).0, Self::f_bool(s, x).1->Ok_0),
            Self::f_num(s, n).1 is Ok ==> Self::frame(s, Self::f_num(s, n).0) && Self::v_ok(Self::f_num(s, n).0, Self::f_num(s, n).1->Ok_0),
            Self::f_str(s, t).1 is Ok ==> Self::frame(s, Self::f_str(s, t).0) && Self::v_ok(Self::f_str(s, t).0, Self::f_str(s, t).1->Ok_0);
    proof fn law_begin(s: Self::GS)
        ensures
            Self::f_obj(s).1 is Ok ==> Self::o_ok(s, Self::f_obj(s).0, Self::f_obj(s).1->Ok_0, 0),
            Self::f_arr(s).1 is Ok ==> Self::a_ok(s, Self::f_arr(s).0, Self::f_arr(s).1->Ok_0, 0);
    proof fn law_key(s0: Self::GS, s: Self::GS, o: Self::GO, n: int, k: JS)
        requires Self::o_ok(s0, s, o, n), 0 <= n < max_len(), Self::f_key(s, o, k).2 is Ok,
        ensures Self::k_ok(s0, Self::f_key(s, o, k).0, Self::f_key(s, o, k).1, Self::f_key(s, o, k).2->Ok_0, n);
    proof fn law_mem(s0: Self::GS, s: Self::GS, o: Self::GO, n: int, k: Self::GK, v: Self::GV)
        requires Self::k_ok(s0, s, o, k, n), 0 <= n < max_len(), Self::f_mem(s, o, k, v).2 is Ok,
        ensures Self::o_ok(s0, Self::f_mem(s, o, k, v).0, Self::f_mem(s, o, k, v).1, n + 1);
    proof fn law_elem(s0: Self::GS, s: Self::GS, a: Self::GA, n: int, v: Self::GV)
        requires Self::a_ok(s0, s, a, n), 0 <= n < max_len(), Self::f_elem(s, a, v).2 is Ok,
        ensures Self::a_ok(s0, Self::f_elem(s, a, v).0, Self::f_elem(s, a, v).1, n + 1);
    proof fn law_end(s0: Self::GS, s: Self::GS, o: Self::GO, a: Self::GA, n: int)
        ensures
            Self::o_ok(s0, s, o, n) && Self::f_obj_end(s, o).1 is Ok ==> Self::frame(s0, Self::f_obj_end(s, o).0)
                && Self::v_ok(Self::f_obj_end(s, o).0, Self::f_obj_end(s, o).1->Ok_0),
            Self::a_ok(s0, s, a, n) && Self::f_arr_end(s, a).1 is Ok ==> Self::frame(s0, Self::f_arr_end(s, a).0)
                && Self::v_ok(Self::f_arr_end(s, a).0, Self::f_arr_end(s, a).1->Ok_0);
    proof fn law_frame(s0: Self::GS, s: Self::GS, s1: Self::GS, o: Self::GO, a: Self::GA, k: Self::GK, n: int)
        requires Self::frame(s, s1),
        ensures
            Self::k_ok(s0, s, o, k, n) ==> Self::k_ok(s0, s1, o, k, n),
            Self::a_ok(s0, s, a, n) ==> Self::a_ok(s0, s1, a, n);
@@ fn parser | trait ParseDelegate | null
@@ ret r
        ensures final(self).last() == old(self).last(),
            Self::f_null(old(self).sv()) == (final(self).sv(), rmap(r, |v: Self::Value| Self::vv(v)))
@@ fn parser | trait ParseDelegate | boolean
@@ ret r
        ensures final(self).last() == old(self).last(),
            Self::f_bool(old(self).sv(), value) == (final(self).sv(), rmap(r, |v: Self::Value| Self::vv(v)))
@@ fn parser | trait ParseDelegate | number
@@ ret r
        ensures final(self).last() == old(self).last(),
            Self::f_num(old(self).sv(), encode_utf8(nsrc(value))) == (final(self).sv(), rmap(r, |v: Self::Value| Self::vv(v)))
@@ fn parser | trait ParseDelegate | string
@@ ret r
        ensures final(self).last() == old(self).last(),
            Self::f_str(old(self).sv(), jsv(value)) == (final(self).sv(), rmap(r, |v: Self::Value| Self::vv(v)))
@@ fn parser | trait ParseDelegate | begin_object
@@ ret r
        ensures final(self).last() == old(self).last(),
            Self::f_obj(old(self).sv()) == (final(self).sv(), rmap(r, |v: Self::Object| Self::ov(v)))
@@ fn parser | trait ParseDelegate | object_key
@@ ret r
        requires exists|s0: Self::GS, n: int| 0 <= n < max_len() && #[trigger] Self::o_ok(s0, old(self).sv(), Self::ov(*old(object)), n),
        ensures final(self).last() == old(self).last(),
            Self::f_key(old(self).sv(), Self::ov(*old(object)), jsv(key))
            == (final(self).sv(), Self::ov(*final(object)), rmap(r, |v: Self::Key| Self::kv(v)))
@@ fn parser | trait ParseDelegate | object_value
@@ ret r
        requires exists|s0: Self::GS, n: int| 0 <= n < max_len() && #[trigger] Self::k_ok(s0, old(self).sv(), Self::ov(*old(object)), Self::kv(key), n),
        ensures final(self).last() == old(self).last(),
            Self::f_mem(old(self).sv(), Self::ov(*old(object)), Self::kv(key), Self::vv(value))
            == (final(self).sv(), Self::ov(*final(object)), r)
@@ fn parser | trait ParseDelegate | object_is_empty
@@ ret r
        requires exists|s0: Self::GS, n: int| 0 <= n < max_len() && #[trigger] Self::o_ok(s0, self.sv(), Self::ov(*object), n),
        ensures r == Self::f_obj_empty(self.sv(), Self::ov(*object))
@@ fn parser | trait ParseDelegate | end_object
@@ ret r
        requires exists|s0: Self::GS, n: int| 0 <= n <= max_len() && #[trigger] Self::o_ok(s0, old(self).sv(), Self::ov(object), n),
        ensures final(self).last() == old(self).last(),
            Self::f_obj_end(old(self).sv(), Self::ov(object)) == (final(self).sv(), rmap(r, |v: Self::Value| Self::vv(v)))
@@ fn parser | trait ParseDelegate | begin_array
@@ ret r
        ensures final(self).last() == old(self).last(),
            Self::f_arr(old(self).sv()) == (final(self).sv(), rmap(r, |v: Self::Array| Self::av(v)))
@@ fn parser | trait ParseDelegate | array_value
@@ ret r
        requires exists|s0: Self::GS, n: int| 0 <= n < max_len() && #[trigger] Self::a_ok(s0, old(self).sv(), Self::av(*old(array)), n),
        ensures final(self).last() == old(self).last(),
            Self::f_elem(old(self).sv(), Self::av(*old(array)), Self::vv(value)) == (final(self).sv(), Self::av(*final(array)), r)
@@ fn parser | trait ParseDelegate | array_is_empty
@@ ret r
        requires exists|s0: Self::GS, n: int| 0 <= n < max_len() && #[trigger] Self::a_ok(s0, self.sv(), Self::av(*array), n),
        ensures r == Self::f_arr_empty(self.sv(), Self::av(*array))
@@ fn parser | trait ParseDelegate | end_array
@@ ret r
        requires exists|s0: Self::GS, n: int| 0 <= n <= max_len() && #[trigger] Self::a_ok(s0, old(self).sv(), Self::av(array), n),
        ensures final(self).last() == old(self).last(),
            Self::f_arr_end(old(self).sv(), Self::av(array)) == (final(self).sv(), rmap(r, |v: Self::Value| Self::vv(v)))
@@ fn parser | trait ParseDelegate | kind_of
@@ ret r
        requires Self::has_kind(), Self::v_ok(self.sv(), Self::vv(*value)),
        ensures r == Self::f_kind(self.sv(), Self::vv(*value))

@@ impl parser | ParseDelegate for ( )
    type GS = ();
    type GV = JsonKind;
    type GO = usize;
    type GA = usize;
    type GK = ();
    type GL = ();
    open spec fn sv(&self) -> () { () }
    #[verifier::prophetic]
    open spec fn last(&self) -> () { () }
    open spec fn fin(s: ()) -> () { () }
    proof fn law_last(self) {}
    open spec fn vv(v: JsonKind) -> JsonKind { v }
    open spec fn ov(v: usize) -> usize { v }
    open spec fn av(v: usize) -> usize { v }
    open spec fn kv(v: ()) -> () { v }
    open spec fn f_null(s: ()) -> ((), Result<JsonKind, Infallible>) { (s, Ok(JsonKind::Null)) }
    open spec fn f_bool(s: (), v: bool) -> ((), Result<JsonKind, Infallible>) { (s, Ok(JsonKind::Boolean)) }
    open spec fn f_num(s: (), v: Seq<u8>) -> ((), Result<JsonKind, Infallible>) { (s, Ok(JsonKind::Number)) }
    open spec fn f_str(s: (), v: JS) -> ((), Result<JsonKind, Infallible>) { (s, Ok(JsonKind::String)) }
    open spec fn f_obj(s: ()) -> ((), Result<usize, Infallible>) { (s, Ok(0)) }
    open spec fn f_key(s: (), o: usize, k: JS) -> ((), usize, Result<(), Infallible>) { (s, o, Ok(())) }
    open spec fn f_mem(s: (), o: usize, k: (), v: JsonKind) -> ((), usize, Result<(), Infallible>) { (s, (o + 1) as usize, Ok(())) }
    open spec fn f_obj_empty(s: (), o: usize) -> bool { o == 0 }
    open spec fn f_obj_end(s: (), o: usize) -> ((), Result<JsonKind, Infallible>) { (s, Ok(JsonKind::Object)) }
    open spec fn f_arr(s: ()) -> ((), Result<usize, Infallible>) { (s, Ok(0)) }
    open spec fn f_elem(s: (), a: usize, v: JsonKind) -> ((), usize, Result<(), Infallible>) { (s, (a + 1) as usize, Ok(())) }
    open spec fn f_arr_empty(s: (), a: usize) -> bool { a == 0 }
    open spec fn f_arr_end(s: (), a: usize) -> ((), Result<JsonKind, Infallible>) { (s, Ok(JsonKind::Array)) }
    open spec fn f_kind(s: (), v: JsonKind) -> JsonKind { v }
    open spec fn has_kind() -> bool { true }
    open spec fn o_ok(s0: (), s: (), o: usize, n: int) -> bool { o == n }
    open spec fn k_ok(s0: (), s: (), o: usize, k: (), n: int) -> bool { o == n }
    open spec fn a_ok(s0: (), s: (), a: usize, n: int) -> bool { a == n }
    open spec fn v_ok(s: (), v: JsonKind) -> bool { true }
    open spec fn frame(s: (), s1: ()) -> bool { true }
    proof fn law_leaf(s: (), x: bool, n: Seq<u8>, t: JS) {}
    proof fn law_begin(s: ()) {}
    proof fn law_key(s0: (), s: (), o: usize, n: int, k: JS) {}
    proof fn law_mem(s0: (), s: (), o: usize, n: int, k: (), v: JsonKind) {}
    proof fn law_elem(s0: (), s: (), a: usize, n: int, v: JsonKind) {}
    proof fn law_end(s0: (), s: (), o: usize, a: usize, n: int) {}
    proof fn law_frame(s0: (), s: (), s1: (), o: usize, a: usize, k: (), n: int) {}

@@ impl number | ParseDelegate for NumberParser
    type GS = ();
    type GV = Seq<u8>;
    type GO = ();
    type GA = ();
    type GK = ();
    type GL = ();
    open spec fn sv(&self) -> () { () }
    #[verifier::prophetic]
    open spec fn last(&self) -> () { () }
    open spec fn fin(s: ()) -> () { () }
    proof fn law_last(self) {}
    open spec fn vv(v: JsonNumber<'a>) -> Seq<u8> { encode_utf8(nsrc(v)) }
    open spec fn ov(v: ()) -> () { v }
    open spec fn av(v: ()) -> () { v }
    open spec fn kv(v: ()) -> () { v }
    open spec fn f_null(s: ()) -> ((), Result<Seq<u8>, ErrorKind>) { (s, Err(ErrorKind::ExpectedNumber)) }
    open spec fn f_bool(s: (), v: bool) -> ((), Result<Seq<u8>, ErrorKind>) { (s, Err(ErrorKind::ExpectedNumber)) }
    open spec fn f_num(s: (), v: Seq<u8>) -> ((), Result<Seq<u8>, ErrorKind>) { (s, Ok(v)) }
    open spec fn f_str(s: (), v: JS) -> ((), Result<Seq<u8>, ErrorKind>) { (s, Err(ErrorKind::ExpectedNumber)) }
    open spec fn f_obj(s: ()) -> ((), Result<(), ErrorKind>) { (s, Err(ErrorKind::ExpectedNumber)) }
    open spec fn f_key(s: (), o: (), k: JS) -> ((), (), Result<(), ErrorKind>) { arbitrary() }
    open spec fn f_mem(s: (), o: (), k: (), v: Seq<u8>) -> ((), (), Result<(), ErrorKind>) { arbitrary() }
    open spec fn f_obj_empty(s: (), o: ()) -> bool { arbitrary() }
    open spec fn f_obj_end(s: (), o: ()) -> ((), Result<Seq<u8>, ErrorKind>) { arbitrary() }
    open spec fn f_arr(s: ()) -> ((), Result<(), ErrorKind>) { (s, Err(ErrorKind::ExpectedNumber)) }
    open spec fn f_elem(s: (), a: (), v: Seq<u8>) -> ((), (), Result<(), ErrorKind>) { arbitrary() }
    open spec fn f_arr_empty(s: (), a: ()) -> bool { arbitrary() }
    open spec fn f_arr_end(s: (), a: ()) -> ((), Result<Seq<u8>, ErrorKind>) { arbitrary() }
    open spec fn f_kind(s: (), v: Seq<u8>) -> crate::parser::JsonKind { arbitrary() }
    open spec fn has_kind() -> bool { false }
    open spec fn o_ok(s0: (), s: (), o: (), n: int) -> bool { false }
    open spec fn k_ok(s0: (), s: (), o: (), k: (), n: int) -> bool { false }
    open spec fn a_ok(s0: (), s: (), a: (), n: int) -> bool { false }
    open spec fn v_ok(s: (), v: Seq<u8>) -> bool { true }
    open spec fn frame(s: (), s1: ()) -> bool { true }
    proof fn law_leaf(s: (), x: bool, n: Seq<u8>, t: JS) {}
    proof fn law_begin(s: ()) {}
    proof fn law_key(s0: (), s: (), o: (), n: int, k: JS) {}
    proof fn law_mem(s0: (), s: (), o: (), n: int, k: (), v: Seq<u8>) {}
    proof fn law_elem(s0: (), s: (), a: (), n: int, v: Seq<u8>) {}
    proof fn law_end(s0: (), s: (), o: (), a: (), n: int) {}
    proof fn law_frame(s0: (), s: (), s1: (), o: (), a: (), k: (), n: int) {}

@@ impl string | ParseDelegate for StringParser
    type GS = ();
    type GV = JS;
    type GO = ();
    type GA = ();
    type GK = ();
    type GL = ();
    open spec fn sv(&self) -> () { () }
    #[verifier::prophetic]
    open spec fn last(&self) -> () { () }
    open spec fn fin(s: ()) -> () { () }
    proof fn law_last(self) {}
    open spec fn vv(v: JsonString<'a>) -> JS { jsv(v) }
    open spec fn ov(v: ()) -> () { v }
    open spec fn av(v: ()) -> () { v }
    open spec fn kv(v: ()) -> () { v }
    open spec fn f_null(s: ()) -> ((), Result<JS, ErrorKind>) { (s, Err(ErrorKind::ExpectedString)) }
    open spec fn f_bool(s: (), v: bool) -> ((), Result<JS, ErrorKind>) { (s, Err(ErrorKind::ExpectedString)) }
    open spec fn f_num(s: (), v: Seq<u8>) -> ((), Result<JS, ErrorKind>) { (s, Err(ErrorKind::ExpectedString)) }
    open spec fn f_str(s: (), v: JS) -> ((), Result<JS, ErrorKind>) { (s, Ok(v)) }
    open spec fn f_obj(s: ()) -> ((), Result<(), ErrorKind>) { (s, Err(ErrorKind::ExpectedString)) }
    open spec fn f_key(s: (), o: (), k: JS) -> ((), (), Result<(), ErrorKind>) { arbitrary() }
    open spec fn f_mem(s: (), o: (), k: (), v: JS) -> ((), (), Result<(), ErrorKind>) { arbitrary() }
    open spec fn f_obj_empty(s: (), o: ()) -> bool { arbitrary() }
    open spec fn f_obj_end(s: (), o: ()) -> ((), Result<JS, ErrorKind>) { arbitrary() }
    open spec fn f_arr(s: ()) -> ((), Result<(), ErrorKind>) { (s, Err(ErrorKind::ExpectedString)) }
    open spec fn f_elem(s: (), a: (), v: JS) -> ((), (), Result<(), ErrorKind>) { arbitrary() }
    open spec fn f_arr_empty(s: (), a: ()) -> bool { arbitrary() }
    open spec fn f_arr_end(s: (), a: ()) -> ((), Result<JS, ErrorKind>) { arbitrary() }
    open spec fn f_kind(s: (), v: JS) -> crate::parser::JsonKind { arbitrary() }
    open spec fn has_kind() -> bool { false }
    open spec fn o_ok(s0: (), s: (), o: (), n: int) -> bool { false }
    open spec fn k_ok(s0: (), s: (), o: (), k: (), n: int) -> bool { false }
    open spec fn a_ok(s0: (), s: (), a: (), n: int) -> bool { false }
    open spec fn v_ok(s: (), v: JS) -> bool { true }
    open spec fn frame(s: (), s1: ()) -> bool { true }
    proof fn law_leaf(s: (), x: bool, n: Seq<u8>, t: JS) {}
    proof fn law_begin(s: ()) {}
    proof fn law_key(s0: (), s: (), o: (), n: int, k: JS) {}
    proof fn law_mem(s0: (), s: (), o: (), n: int, k: (), v: JS) {}
    proof fn law_elem(s0: (), s: (), a: (), n: int, v: JS) {}
    proof fn law_end(s0: (), s: (), o: (), a: (), n: int) {}
    proof fn law_frame(s0: (), s: (), s1: (), o: (), a: (), k: (), n: int) {}

@@ impl value | ParseDelegate for ValueParser
    type GS = ();
    type GV = Tree;
    type GO = Seq<(JS, Tree)>;
    type GA = Seq<Tree>;
    type GK = JS;
    type GL = ();
    open spec fn sv(&self) -> () { () }
    #[verifier::prophetic]
    open spec fn last(&self) -> () { () }
    open spec fn fin(s: ()) -> () { () }
    proof fn law_last(self) {}
    open spec fn vv(v: Value<'a>) -> Tree { tree(v) }
    open spec fn ov(v: Object<'a>) -> Seq<(JS, Tree)> { mems(v, v.0@.len()) }
    open spec fn av(v: Vec<Value<'a>>) -> Seq<Tree> { trees(v, v@.len()) }
    open spec fn kv(v: JsonString<'a>) -> JS { jsv(v) }
    open spec fn f_null(s: ()) -> ((), Result<Tree, Infallible>) { (s, Ok(Tree::Null)) }
    open spec fn f_bool(s: (), v: bool) -> ((), Result<Tree, Infallible>) { (s, Ok(Tree::Bool(v))) }
    open spec fn f_num(s: (), v: Seq<u8>) -> ((), Result<Tree, Infallible>) { (s, Ok(Tree::Num(v))) }
    open spec fn f_str(s: (), v: JS) -> ((), Result<Tree, Infallible>) { (s, Ok(Tree::Str(v))) }
    open spec fn f_obj(s: ()) -> ((), Result<Seq<(JS, Tree)>, Infallible>) { (s, Ok(Seq::empty())) }
    open spec fn f_key(s: (), o: Seq<(JS, Tree)>, k: JS) -> ((), Seq<(JS, Tree)>, Result<JS, Infallible>) { (s, o, Ok(k)) }
    open spec fn f_mem(s: (), o: Seq<(JS, Tree)>, k: JS, v: Tree) -> ((), Seq<(JS, Tree)>, Result<(), Infallible>) { (s, o.push((k, v)), Ok(())) }
    open spec fn f_obj_empty(s: (), o: Seq<(JS, Tree)>) -> bool { o.len() == 0 }
    open spec fn f_obj_end(s: (), o: Seq<(JS, Tree)>) -> ((), Result<Tree, Infallible>) { (s, Ok(Tree::Obj(o))) }
    open spec fn f_arr(s: ()) -> ((), Result<Seq<Tree>, Infallible>) { (s, Ok(Seq::empty())) }
    open spec fn f_elem(s: (), a: Seq<Tree>, v: Tree) -> ((), Seq<Tree>, Result<(), Infallible>) { (s, a.push(v), Ok(())) }
    open spec fn f_arr_empty(s: (), a: Seq<Tree>) -> bool { a.len() == 0 }
    open spec fn f_arr_end(s: (), a: Seq<Tree>) -> ((), Result<Tree, Infallible>) { (s, Ok(Tree::Arr(a))) }
    open spec fn f_kind(s: (), v: Tree) -> JsonKind { kind(v) }
    open spec fn has_kind() -> bool { true }
    open spec fn o_ok(s0: (), s: (), o: Seq<(JS, Tree)>, n: int) -> bool { o.len() == n }
    open spec fn k_ok(s0: (), s: (), o: Seq<(JS, Tree)>, k: JS, n: int) -> bool { o.len() == n }
    open spec fn a_ok(s0: (), s: (), a: Seq<Tree>, n: int) -> bool { a.len() == n }
    open spec fn v_ok(s: (), v: Tree) -> bool { true }
    open spec fn frame(s: (), s1: ()) -> bool { true }
    proof fn law_leaf(s: (), x: bool, n: Seq<u8>, t: JS) {}
    proof fn law_begin(s: ()) {}
    proof fn law_key(s0: (), s: (), o: Seq<(JS, Tree)>, n: int, k: JS) {}
    proof fn law_mem(s0: (), s: (), o: Seq<(JS, Tree)>, n: int, k: JS, v: Tree) {}
    proof fn law_elem(s0: (), s: (), a: Seq<Tree>, n: int, v: Tree) {}
    proof fn law_end(s0: (), s: (), o: Seq<(JS, Tree)>, a: Seq<Tree>, n: int) {}
    proof fn law_frame(s0: (), s: (), s1: (), o: Seq<(JS, Tree)>, a: Seq<Tree>, k: JS, n: int) {}

@@ impl doc | ParseDelegate for &mut Nodes<Backing>
    type GS = NG;
    type GV = int;
    type GO = int;
    type GA = int;
    type GK = ();
    type GL = NG;
    open spec fn sv(&self) -> NG { self.ng() }
    #[verifier::prophetic]
    open spec fn last(&self) -> NG { mut_ref_future(*self).ng() }
    open spec fn fin(s: NG) -> NG { s }
    proof fn law_last(self) {}
    open spec fn vv(v: usize) -> int { v as int }
    open spec fn ov(v: usize) -> int { v as int }
    open spec fn av(v: usize) -> int { v as int }
    open spec fn kv(v: ()) -> () { v }
    open spec fn f_null(s: NG) -> (NG, Result<int, ErrorKind>) { ng_push(s, NodeG::Null) }
    open spec fn f_bool(s: NG, v: bool) -> (NG, Result<int, ErrorKind>) { ng_push(s, NodeG::Bool(v)) }
    open spec fn f_num(s: NG, v: Seq<u8>) -> (NG, Result<int, ErrorKind>) { ng_push(s, NodeG::Num(v)) }
    open spec fn f_str(s: NG, v: JS) -> (NG, Result<int, ErrorKind>) { ng_push(s, NodeG::Str(v)) }
    open spec fn f_obj(s: NG) -> (NG, Result<int, ErrorKind>) { ng_push(s, NodeG::Obj(0)) }
    open spec fn f_key(s: NG, o: int, k: JS) -> (NG, int, Result<(), ErrorKind>) {
        let (s1, r) = ng_push(ng_bump(s, o), NodeG::Str(k));
        (s1, o, match r { Ok(_) => Ok(()), Err(e) => Err(e) })
    }
    open spec fn f_mem(s: NG, o: int, k: (), v: int) -> (NG, int, Result<(), ErrorKind>) { (s, o, Ok(())) }
    open spec fn f_obj_empty(s: NG, o: int) -> bool { s.n[o] == NodeG::Obj(0) }
    open spec fn f_obj_end(s: NG, o: int) -> (NG, Result<int, ErrorKind>) { (s, Ok(o)) }
    open spec fn f_arr(s: NG) -> (NG, Result<int, ErrorKind>) { ng_push(s, NodeG::Arr(0)) }
    open spec fn f_elem(s: NG, a: int, v: int) -> (NG, int, Result<(), ErrorKind>) { (ng_bump(s, a), a, Ok(())) }
    open spec fn f_arr_empty(s: NG, a: int) -> bool { s.n[a] == NodeG::Arr(0) }
    open spec fn f_arr_end(s: NG, a: int) -> (NG, Result<int, ErrorKind>) { (s, Ok(a)) }
    open spec fn f_kind(s: NG, v: int) -> JsonKind { node_kind(s.n[v]) }
    open spec fn has_kind() -> bool { true }
    open spec fn o_ok(s0: NG, s: NG, o: int, n: int) -> bool { ng_open(s0, s, o, NodeG::Obj(n)) }
    open spec fn k_ok(s0: NG, s: NG, o: int, k: (), n: int) -> bool { ng_open(s0, s, o, NodeG::Obj(n + 1)) }
    open spec fn a_ok(s0: NG, s: NG, a: int, n: int) -> bool { ng_open(s0, s, a, NodeG::Arr(n)) }
    open spec fn v_ok(s: NG, v: int) -> bool { 0 <= v < s.n.len() }
    open spec fn frame(s: NG, s1: NG) -> bool { s1.room == s.room && s.n.len() <= s1.n.len() && forall|i: int| 0 <= i < s.n.len() ==> s.n[i] == s1.n[i] }
    proof fn law_leaf(s: NG, x: bool, n: Seq<u8>, t: JS) {}
    proof fn law_begin(s: NG) {}
    proof fn law_key(s0: NG, s: NG, o: int, n: int, k: JS) {}
    proof fn law_mem(s0: NG, s: NG, o: int, n: int, k: (), v: int) {}
    proof fn law_elem(s0: NG, s: NG, a: int, n: int, v: int) {}
    proof fn law_end(s0: NG, s: NG, o: int, a: int, n: int) {}
    proof fn law_frame(s0: NG, s: NG, s1: NG, o: int, a: int, k: (), n: int) {}

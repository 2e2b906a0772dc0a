@@ module value
/// the first entry with a key is the `i`-th
pub open spec fn first_key(o: Seq<Entry<'_>>, key: Seq<char>, i: int) -> bool {
    0 <= i < o.len() && has_key(o[i], key) && forall|j: int| 0 <= j < i ==> !has_key(#[trigger] o[j], key)
}
pub open spec fn has_key(e: Entry<'_>, key: Seq<char>) -> bool { text(jsv(e.key)) == key }
pub open spec fn no_key(o: Seq<Entry<'_>>, key: Seq<char>) -> bool { forall|j: int| 0 <= j < o.len() ==> !has_key(#[trigger] o[j], key) }
/// reading a member
pub open spec fn member(o: Seq<Entry<'_>>, key: Seq<char>, r: Option<&Value<'_>>) -> bool {
    match r { Some(v) => exists|i: int| #[trigger] first_key(o, key, i) && *v == o[i].value, None => no_key(o, key) }
}
/// changing a member: nothing else of the object changes
#[verifier::prophetic]
pub open spec fn member_mut<'a>(o: Seq<Entry<'a>>, key: Seq<char>, o1: Seq<Entry<'a>>, r: Option<&mut Value<'a>>) -> bool {
    match r {
        Some(v) => exists|i: int| #[trigger] first_key(o, key, i) && *v == o[i].value && o1 == o.update(i, Entry { key: o[i].key, value: *final(v) }),
        None => no_key(o, key) && o1 == o,
    }
}
#[verifier::prophetic]
pub open spec fn entry_mut<'a>(o: Seq<Entry<'a>>, key: Seq<char>, o1: Seq<Entry<'a>>, r: Option<&mut Entry<'a>>) -> bool {
    match r {
        Some(e) => exists|i: int| #[trigger] first_key(o, key, i) && *e == o[i] && o1 == o.update(i, *final(e)),
        None => no_key(o, key) && o1 == o,
    }
}
pub broadcast proof fn found_member<'a>(o: Seq<Entry<'a>>, all: Seq<&Entry<'a>>, f: spec_fn(&Entry<'a>, Option<&Value<'a>>) -> bool, r: Option<&Value<'a>>, key: Seq<char>)
    requires #[trigger] found(all, f, r), all.len() == o.len(), forall|i: int| 0 <= i < all.len() ==> *(#[trigger] all[i]) == o[i],
        forall|x: &Entry<'a>, y: Option<&Value<'a>>| #[trigger] f(x, y) ==> y == if has_key(*x, key) { Some(&x.value) } else { None },
    ensures #[trigger] member(o, key, r),
{
    if r is Some {
        let i = choose|i: int| 0 <= i < all.len() && f(#[trigger] all[i], r) && forall|j: int| 0 <= j < i ==> f(#[trigger] all[j], None);
        assert forall|j: int| 0 <= j < i implies !has_key(#[trigger] o[j], key) by { assert(f(all[j], None)); }
        assert(first_key(o, key, i));
    } else { assert forall|j: int| 0 <= j < o.len() implies !has_key(#[trigger] o[j], key) by { assert(f(all[j], None)); } }
}
pub broadcast proof fn found_entry<'a>(o: Seq<Entry<'a>>, all: Seq<&mut Entry<'a>>, f: spec_fn(&mut Entry<'a>, bool) -> bool, r: Option<&mut Entry<'a>>, key: Seq<char>, o1: Seq<Entry<'a>>)
    requires #[trigger] found_mut(all, f, r), all.len() == o.len(), o1.len() == o.len(), forall|i: int| 0 <= i < all.len() ==> *(#[trigger] all[i]) == o[i] && *final(all[i]) == o1[i],
        forall|x: &mut Entry<'a>, y: bool| #[trigger] f(x, y) ==> y == has_key(*x, key),
    ensures #[trigger] entry_mut(o, key, o1, r),
{
    if r is Some {
        let i = choose|i: int| 0 <= i < all.len() && #[trigger] all[i] == r->0 && f(all[i], true) && (forall|j: int| 0 <= j < i ==> f(#[trigger] all[j], false)) && (forall|j: int| 0 <= j < all.len() && j != i ==> has_resolved(#[trigger] all[j]));
        assert forall|j: int| 0 <= j < i implies !has_key(#[trigger] o[j], key) by { assert(f(all[j], false)); }
        assert(first_key(o, key, i));
        assert forall|j: int| 0 <= j < o.len() && j != i implies o1[j] == o[j] by { assert(has_resolved(all[j])); }
        assert(o1 =~= o.update(i, *final(r->0)));
    } else {
        assert forall|j: int| 0 <= j < o.len() implies !has_key(#[trigger] o[j], key) by { assert(f(all[j], false)); }
        assert forall|j: int| 0 <= j < o.len() implies o1[j] == o[j] by { assert(has_resolved(all[j])); }
        assert(o1 =~= o);
    }
}
pub open spec fn entries<'a>(v: Value<'a>) -> Option<Seq<Entry<'a>>> { match v { Value::Object(o) => Some(o.0@), _ => None } }
pub open spec fn items<'a>(v: Value<'a>) -> Option<Seq<Value<'a>>> { match v { Value::Array(a) => Some(a@), _ => None } }
pub open spec fn number_as<F: core::str::FromStr>(v: Value<'_>) -> Option<F> { match v { Value::Number(n) => crate::number::as_parsed::<F>(nsrc(n)), _ => None } }
@@ module number
pub open spec fn as_parsed<F: core::str::FromStr>(s: Seq<char>) -> Option<F> { match parse_spec::<F>(s) { Ok(v) => Some(v), Err(_) => None } }
@@ fn number | JsonNumber | parse
@@ ret r
    ensures r == parse_spec::<T>(nsrc(*self)),
@@ fn value | Value | as_object
@@ ret r
    ensures match r { Some(o) => *self == Value::Object(*o), None => !(*self is Object) },
@@ fn value | Value | as_object_mut
@@ ret r
    ensures match r { Some(o) => *old(self) == Value::Object(*o) && *final(self) == Value::Object(*final(o)), None => !(*old(self) is Object) && *final(self) == *old(self) },
@@ fn value | Value | as_string
@@ ret r
    ensures match r { Some(s) => *self == Value::String(*s), None => !(*self is String) },
@@ fn value | Value | as_str
@@ ret r
    ensures match r {
        Some(s) => *self is String && s@ == text(jsv(self->String_0)),
        None => *self is String ==> jsv(self->String_0).json && jsv(self->String_0).esc },
@@ fn value | Value | as_number
@@ ret r
    ensures match r { Some(n) => *self == Value::Number(*n), None => !(*self is Number) },
@@ fn value | Value | as_bool
@@ ret r
    ensures match r { Some(b) => *self == Value::Boolean(b), None => !(*self is Boolean) },
@@ fn value | Value | as_array
@@ ret r
    ensures match r { Some(a) => items(*self) == Some(a@), None => !(*self is Array) },
@@ fn value | Value | as_array_mut
@@ ret r
    ensures match r { Some(a) => *old(self) == Value::Array(*a) && *final(self) == Value::Array(*final(a)), None => !(*old(self) is Array) && *final(self) == *old(self) },
@@ fn value | Value | is_null
@@ ret r
    ensures r == (*self is Null),
@@ fn value | Value | get
@@ ret r
    ensures match entries(*self) { Some(o) => member(o, key@, r), None => r is None },
@@ fn value | Value | get_mut
@@ ret r
    ensures match entries(*old(self)) { Some(o) => entries(*final(self)) is Some && member_mut(o, key@, entries(*final(self))->0, r), None => r is None && *final(self) == *old(self) },
@@ fn value | Value | get_index
@@ ret r
    ensures match items(*self) { Some(a) => if index < a.len() { r is Some && *(r->0) == a[index as int] } else { r is None }, None => r is None },
@@ fn value | Value | get_index_mut
@@ ret r
    ensures match items(*old(self)) {
        Some(a) => if index < a.len() { r is Some && *(r->0) == a[index as int] && items(*final(self)) == Some(a.update(index as int, *final(r->0))) } else { r is None && items(*final(self)) == Some(a) },
        None => r is None && *final(self) == *old(self) },
@@ fn value | Object | get
@@ ret r
    ensures member(self.0@, key@, r),
@@ head
broadcast use found_member;
@@ closure 0 -> (r: Option<&Value<'a>>)
    ensures r == if has_key(*entry, key@) { Some(&entry.value) } else { None }
@@ fn value | Object | get_entry_mut
@@ via find find_mut
@@ ret r
    ensures entry_mut(old(self).0@, key@, final(self).0@, r),
@@ head
broadcast use found_entry;
@@ closure 0 -> (r: bool)
    ensures r == has_key(*old(*entry), key@)
@@ fn value | Object | get_mut
@@ ret r
    ensures member_mut(old(self).0@, key@, final(self).0@, r),
@@ closure 0 -> (r: &mut Value<'a>)
    ensures *r == old(entry).value, *final(entry) == (Entry { key: old(entry).key, value: *final(r) })
@@ fn value | Index<usize> for Value | index
@@ via expect or_panic
@@ ret r
    ensures items(*self) is Some, index < (items(*self)->0).len(), *r == (items(*self)->0)[index as int],
@@ fn value | IndexMut<usize> for Value | index_mut
@@ via expect or_panic
@@ ret r
    ensures items(*old(self)) is Some, index < (items(*old(self))->0).len(), *r == (items(*old(self))->0)[index as int],
        items(*final(self)) == Some((items(*old(self))->0).update(index as int, *final(r))),
@@ fn value | Index<&str> for Value | index
@@ via expect or_panic
@@ ret r
    ensures entries(*self) is Some, member(entries(*self)->0, index@, Some(r)),
@@ fn value | IndexMut<&str> for Value | index_mut
@@ via expect or_panic
@@ ret r
    ensures entries(*old(self)) is Some, entries(*final(self)) is Some, member_mut(entries(*old(self))->0, index@, entries(*final(self))->0, Some(r)),
@@ fn number | JsonNumber | as_f32
@@ ret r
    ensures r == as_parsed::<f32>(nsrc(*self)),
@@ fn value | Value | as_f32
@@ ret r
    ensures r == number_as::<f32>(*self),
@@ fn number | JsonNumber | as_f64
@@ ret r
    ensures r == as_parsed::<f64>(nsrc(*self)),
@@ fn value | Value | as_f64
@@ ret r
    ensures r == number_as::<f64>(*self),
@@ fn number | JsonNumber | as_u8
@@ ret r
    ensures r == as_parsed::<u8>(nsrc(*self)),
@@ fn value | Value | as_u8
@@ ret r
    ensures r == number_as::<u8>(*self),
@@ fn number | JsonNumber | as_u16
@@ ret r
    ensures r == as_parsed::<u16>(nsrc(*self)),
@@ fn value | Value | as_u16
@@ ret r
    ensures r == number_as::<u16>(*self),
@@ fn number | JsonNumber | as_u32
@@ ret r
    ensures r == as_parsed::<u32>(nsrc(*self)),
@@ fn value | Value | as_u32
@@ ret r
    ensures r == number_as::<u32>(*self),
@@ fn number | JsonNumber | as_u64
@@ ret r
    ensures r == as_parsed::<u64>(nsrc(*self)),
@@ fn value | Value | as_u64
@@ ret r
    ensures r == number_as::<u64>(*self),
@@ fn number | JsonNumber | as_u128
@@ ret r
    ensures r == as_parsed::<u128>(nsrc(*self)),
@@ fn value | Value | as_u128
@@ ret r
    ensures r == number_as::<u128>(*self),
@@ fn number | JsonNumber | as_usize
@@ ret r
    ensures r == as_parsed::<usize>(nsrc(*self)),
@@ fn value | Value | as_usize
@@ ret r
    ensures r == number_as::<usize>(*self),
@@ fn number | JsonNumber | as_i8
@@ ret r
    ensures r == as_parsed::<i8>(nsrc(*self)),
@@ fn value | Value | as_i8
@@ ret r
    ensures r == number_as::<i8>(*self),
@@ fn number | JsonNumber | as_i16
@@ ret r
    ensures r == as_parsed::<i16>(nsrc(*self)),
@@ fn value | Value | as_i16
@@ ret r
    ensures r == number_as::<i16>(*self),
@@ fn number | JsonNumber | as_i32
@@ ret r
    ensures r == as_parsed::<i32>(nsrc(*self)),
@@ fn value | Value | as_i32
@@ ret r
    ensures r == number_as::<i32>(*self),
@@ fn number | JsonNumber | as_i64
@@ ret r
    ensures r == as_parsed::<i64>(nsrc(*self)),
@@ fn value | Value | as_i64
@@ ret r
    ensures r == number_as::<i64>(*self),
@@ fn number | JsonNumber | as_i128
@@ ret r
    ensures r == as_parsed::<i128>(nsrc(*self)),
@@ fn value | Value | as_i128
@@ ret r
    ensures r == number_as::<i128>(*self),
@@ fn number | JsonNumber | as_isize
@@ ret r
    ensures r == as_parsed::<isize>(nsrc(*self)),
@@ fn value | Value | as_isize
@@ ret r
    ensures r == number_as::<isize>(*self),
@@ module value
impl<'a> vstd::std_specs::iter::FromIteratorSpecImpl<Entry<'a>> for Object<'a> {
    open spec fn from_iter_ensures(s: Seq<Entry<'a>>, r: Object<'a>) -> bool { r.0@ == s }
}
impl<'a> vstd::std_specs::iter::FromIteratorSpecImpl<(JsonString<'a>, Value<'a>)> for Object<'a> {
    open spec fn from_iter_ensures(s: Seq<(JsonString<'a>, Value<'a>)>, r: Object<'a>) -> bool { r.0@ =~= as_entries(s) }
}
pub open spec fn as_entries<'a>(s: Seq<(JsonString<'a>, Value<'a>)>) -> Seq<Entry<'a>> { Seq::new(s.len(), |i: int| Entry { key: s[i].0, value: s[i].1 }) }
@@ fn value | FromIterator<( JsonString, Value )> for Object | from_iter
@@ via map map_each
@@ via collect collect_into
@@ head
// what is passed in is taken to keep the laws of iterators
proof { assume(yields::<T>(iter, vstd::std_specs::iter::into_iter_remaining(iter))); }
@@ closure 0 -> (r: Entry<'a>)
    ensures r == (Entry { key: p_.0, value: p_.1 })
@@ fn value | FromIterator<Entry> for Object | from_iter
@@ head
// what is passed in is taken to keep the laws of iterators
proof { assume(yields::<T>(iter, vstd::std_specs::iter::into_iter_remaining(iter))); }
@@ fn number | JsonNumber | from_json
@@ ret r
    ensures match crate::theorems::accepted(encode_utf8(json@), true, dflt()) {
            Some(Tree::Num(n)) => r is Ok && encode_utf8(nsrc(r->Ok_0)) == n,
            Some(_) => r is Err && r->Err_0.kind == ErrorKind::<Infallible>::ExpectedNumber,
            None => r is Err,
        },
        r is Err ==> r->Err_0.offset <= encode_utf8(json@).len(),
@@ head
proof { str_len_bound(json); crate::theorems::number_thm(encode_utf8(json@)); }
@@ module number
use core::convert::Infallible;
@@ fn string | JsonString | from_json
@@ ret r
    ensures match crate::theorems::accepted(encode_utf8(json@), true, dflt()) {
            Some(Tree::Str(s)) => r is Ok && jsv(r->Ok_0) == s,
            Some(_) => r is Err && r->Err_0.kind == ErrorKind::<core::convert::Infallible>::ExpectedString,
            None => r is Err,
        },
        r is Err ==> r->Err_0.offset <= encode_utf8(json@).len(),
@@ head
proof { str_len_bound(json); crate::theorems::string_thm(encode_utf8(json@)); }
@@ fn value | From<&str> for Value | from
@@ ret r
    ensures tree(r) == Tree::Str(js_of(value@)),
@@ fn value | From<String> for Value | from
@@ ret r
    ensures tree(r) == Tree::Str(js_of(value@)),
@@ fn value | Entry | new
@@ ret r
    ensures call_ensures(Into::<JsonString<'a>>::into, (key,), r.key), call_ensures(Into::<Value<'a>>::into, (value,), r.value),

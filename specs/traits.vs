@@ module anystr
use vstd::std_specs::cmp::{PartialEqSpecImpl, PartialOrdSpecImpl};
impl<'a> crate::trusted::AsRefSpecImpl<str> for AnyStr<'a> {
    open spec fn obeys_as_ref_spec() -> bool { false }
    open spec fn as_ref_spec(&self) -> &str { arbitrary() }
}
impl<'a, 'b> PartialEqSpecImpl<AnyStr<'b>> for AnyStr<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &AnyStr<'b>) -> bool { self@ == other@ }
}
impl<'a, 'b> PartialEqSpecImpl<&'b str> for AnyStr<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &&'b str) -> bool { self@ == other@ }
}
impl<'a> PartialEqSpecImpl<str> for AnyStr<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &str) -> bool { self@ == other@ }
}
impl<'a, 'b> PartialOrdSpecImpl<AnyStr<'b>> for AnyStr<'a> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &AnyStr<'b>) -> Option<core::cmp::Ordering> { Some(str_cmp(self@, other@)) }
}
impl<'a, 'b> PartialOrdSpecImpl<&'b str> for AnyStr<'a> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &&'b str) -> Option<core::cmp::Ordering> { Some(str_cmp(self@, other@)) }
}
impl<'a> PartialOrdSpecImpl<str> for AnyStr<'a> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &str) -> Option<core::cmp::Ordering> { Some(str_cmp(self@, other@)) }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for AnyStr<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a str) -> Self { AnyStr::Borrowed(v) }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<String> for AnyStr<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: String) -> Self { AnyStr::Owned(v) }
}
@@ fn anystr | AsRef<str> for AnyStr | as_ref
@@ ret r
    ensures r@ == self@,
@@ fn anystr | Deref for AnyStr | deref
@@ ret r
    ensures r@ == self@,
@@ fn anystr | PartialOrd<str> for AnyStr | partial_cmp
@@ head
proof { crate::trusted::str_ord(); }
@@ module value
impl<'a> vstd::std_specs::convert::FromSpecImpl<bool> for Value<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: bool) -> Self { Value::Boolean(v) }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<Object<'a>> for Value<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Object<'a>) -> Self { Value::Object(v) }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<Vec<Value<'a>>> for Value<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Vec<Value<'a>>) -> Self { Value::Array(v) }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<JsonString<'a>> for Value<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: JsonString<'a>) -> Self { Value::String(v) }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for Value<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a str) -> Self { arbitrary() }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<String> for Value<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: String) -> Self { arbitrary() }
}
@@ module doc
impl<'a, Backing> vstd::std_specs::convert::FromSpecImpl<GenericDocument<'a, Backing>> for Value<'a> where Backing: NodeCollection<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: GenericDocument<'a, Backing>) -> Self { arbitrary() }
}

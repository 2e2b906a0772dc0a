@@ module anystr
impl<'a> View for AnyStr<'a> {
    type V = Seq<char>;
    open spec fn view(&self) -> Seq<char> { match *self { AnyStr::Owned(s) => s@, AnyStr::Borrowed(s) => s@ } }
}
@@ fn anystr | AnyStr | as_str
@@ ret r
    ensures r@ == self@,
@@ fn anystr | Hash for AnyStr | hash
    ensures fed(final(state)) == fed(old(state)) + encode_utf8(self@).push(0xff),
@@ fn anystr | Borrow<str> for AnyStr | borrow
@@ ret r
    ensures <str as View>::view(r) == <AnyStr<'a> as View>::view(self),

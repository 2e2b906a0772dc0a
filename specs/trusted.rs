#[allow(unused_imports)] use vstd::prelude::*;
use core::fmt;
use vstd::utf8::*;
use core::str::{CharIndices, FromStr};
use vstd::std_specs::iter::IteratorSpec;
verus! {
/// No slice of the program is longer than 2^57 bytes: the address space is smaller (and a Rust allocation is at most
/// 2^63 - 1 bytes in any case).
pub axiom fn slice_len_bound(s: &[u8])
    ensures s@.len() <= crate::spec::max_len();

#[verifier::external_body]
pub fn never() -> !
    requires false,
{ unreachable!() }


#[verifier::external_trait_specification]
#[verifier::external_trait_extension(AsRefSpec via AsRefSpecImpl)]
pub trait ExAsRef<T: core::marker::PointeeSized>: core::marker::PointeeSized {
    type ExternalTraitSpecificationFor: core::convert::AsRef<T>;
    spec fn obeys_as_ref_spec() -> bool;
    spec fn as_ref_spec(&self) -> &T;
    fn as_ref(&self) -> (r: &T)
        ensures Self::obeys_as_ref_spec() ==> r == self.as_ref_spec();
}

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(AsMutSpec via AsMutSpecImpl)]
pub trait ExAsMut<T: core::marker::PointeeSized>: core::marker::PointeeSized {
    type ExternalTraitSpecificationFor: core::convert::AsMut<T>;
    spec fn obeys_as_mut_spec() -> bool;
    #[verifier::prophetic]
    spec fn as_mut_rel(a: &mut Self, x: &mut T) -> bool;
    fn as_mut(&mut self) -> (r: &mut T)
        ensures Self::obeys_as_mut_spec() ==> Self::as_mut_rel(self, r);
}
// a vector lends itself as the slice of its items
impl<T, A: core::alloc::Allocator> AsRefSpecImpl<[T]> for Vec<T, A> {
    open spec fn obeys_as_ref_spec() -> bool { true }
    uninterp spec fn as_ref_spec(&self) -> &[T];
}
pub axiom fn vec_as_ref<T>(v: &Vec<T>)
    ensures <Vec<T> as AsRefSpec<[T]>>::as_ref_spec(v)@ == v@;
impl<T, A: core::alloc::Allocator> AsMutSpecImpl<[T]> for Vec<T, A> {
    open spec fn obeys_as_mut_spec() -> bool { true }
    #[verifier::prophetic]
    open spec fn as_mut_rel(a: &mut Self, x: &mut [T]) -> bool {
        (*a)@ == (*x)@ && (*final(a))@ == (*final(x))@ && (*final(x))@.len() == (*x)@.len()
    }
}

#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: core::str::FromStr;
    type Err;
    fn from_str(s: &str) -> Result<Self, Self::Err>;
}

#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExParseFloatError(core::num::ParseFloatError);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExParseIntError(core::num::ParseIntError);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExTryFromCharError(core::char::TryFromCharError);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);

pub uninterp spec fn parse_spec<F: FromStr>(s: Seq<char>) -> Result<F, F::Err>;
pub assume_specification<F: FromStr>[str::parse](s: &str) -> (r: Result<F, F::Err>)
    ensures r == parse_spec::<F>(s@);

pub assume_specification[core::cmp::Ordering::reverse](o: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == (match o {
        core::cmp::Ordering::Less => core::cmp::Ordering::Greater,
        core::cmp::Ordering::Equal => core::cmp::Ordering::Equal,
        core::cmp::Ordering::Greater => core::cmp::Ordering::Less,
    });

pub assume_specification[u8::is_ascii_digit](b: &u8) -> (r: bool)
    ensures r == (48 <= *b <= 57);

pub assume_specification[char::from_u32](c: u32) -> (r: Option<char>)
    ensures
        (c < 0xD800 || 0xE000 <= c <= 0x10FFFF) ==> r == Some(c as char),
        !(c < 0xD800 || 0xE000 <= c <= 0x10FFFF) ==> r.is_none();

pub assume_specification[char::from_u32_unchecked](c: u32) -> (r: char)
    requires c < 0xD800 || 0xE000 <= c <= 0x10FFFF
    ensures r == c as char;

pub assume_specification[core::str::from_utf8](b: &[u8]) -> (r: Result<&str, core::str::Utf8Error>)
    ensures
        r.is_ok() == valid_utf8(b@),
        r.is_ok() ==> r.unwrap()@ == decode_utf8(b@);

pub assume_specification[core::str::from_utf8_unchecked](b: &[u8]) -> (r: &str)
    requires valid_utf8(b@)
    ensures r@ == decode_utf8(b@);

/// `<[u8]>::get` of one index does not unwind
#[verifier::external_body]
pub fn slice_at<'a>(s: &'a [u8], i: usize) -> (r: Option<&'a u8>)
    ensures r == (if i < s@.len() { Some(&s@[i as int]) } else { None }),
    no_unwind
{ s.get(i) }
#[verifier::external_body]
pub fn slice_len(s: &[u8]) -> (r: usize)
    ensures r == s@.len(),
    no_unwind
{ s.len() }
/// `Option::ok_or` moves a value: it does not unwind
#[verifier::external_body]
pub fn ok_or<T, E>(o: Option<T>, e: E) -> (r: Result<T, E>)
    ensures r == (match o { Some(x) => Ok::<T, E>(x), None => Err::<T, E>(e) }),
    no_unwind
{ o.ok_or(e) }
pub assume_specification<T>[bool::then_some](b: bool, t: T) -> (r: Option<T>)
    ensures r == (if b { Some(t) } else { None::<T> });

// ---- ordering of strings ("ordered lexicographically by their byte values. This orders Unicode code points based on
// their positions in the code charts")
pub axiom fn str_ord()
    ensures
        <str as vstd::std_specs::cmp::PartialOrdSpec<str>>::obeys_partial_cmp_spec(),
        forall|a: &str, b: &str| #[trigger] <str as vstd::std_specs::cmp::PartialOrdSpec<str>>::partial_cmp_spec(a, b) == Some(crate::spec::str_cmp(a@, b@)),
        <str as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec(),
        forall|a: &str, b: &str| #[trigger] <str as vstd::std_specs::cmp::OrdSpec>::cmp_spec(a, b) == crate::spec::str_cmp(a@, b@);

pub axiom fn char_ord()
    ensures
        <char as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec(),
        forall|a: &char, b: &char| #[trigger] <char as vstd::std_specs::cmp::OrdSpec>::cmp_spec(a, b) == crate::spec::char_cmp(*a, *b);

// ---- hashing
pub uninterp spec fn fed<H: ?Sized>(h: &H) -> Seq<u8>;
#[verifier::external_body]
pub fn hasher_write<H: core::hash::Hasher>(h: &mut H, bytes: &[u8])
    ensures fed(final(h)) == fed(old(h)) + bytes@,
{ h.write(bytes) }
#[verifier::external_body]
pub fn hasher_write_u8<H: core::hash::Hasher>(h: &mut H, b: u8)
    ensures fed(final(h)) == fed(old(h)).push(b),
{ h.write_u8(b) }
pub assume_specification<H: core::hash::Hasher>[<str as core::hash::Hash>::hash::<H>](s: &str, h: &mut H)
    ensures fed(final(h)) == fed(old(h)) + encode_utf8(s@).push(0xff);

pub assume_specification<'a>[char::encode_utf8](c: char, dst: &'a mut [u8]) -> (r: &'a mut str)
    requires old(dst)@.len() >= 4
    ensures r@ == seq![c];

// ---- strings
pub assume_specification[String::with_capacity](n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty();
/// hexadecimal digits are read as a number
pub assume_specification[u32::from_str_radix](s: &str, radix: u32) -> (r: Result<u32, core::num::ParseIntError>)
    requires radix == 16
    ensures
        1 <= encode_utf8(s@).len() <= 7 ==> match crate::spec::hexn(encode_utf8(s@), 0, encode_utf8(s@).len(), 0) {
            crate::spec::Hex::Ok(v) => r == Ok::<u32, core::num::ParseIntError>(v as u32),
            _ => true,
        };
/// `&s[a..b]`, which panics unless both ends are on character boundaries
#[verifier::external_body]
pub fn str_range(s: &str, a: usize, b: usize) -> (r: &str)
    requires a < b <= encode_utf8(s@).len(), valid_utf8(encode_utf8(s@).subrange(a as int, b as int)),
    ensures encode_utf8(r@) == encode_utf8(s@).subrange(a as int, b as int),
{ &s[a..b] }
pub axiom fn str_len_bound(s: &str)
    ensures encode_utf8(s@).len() <= crate::spec::max_len();
pub axiom fn string_len_bound(s: &String)
    ensures encode_utf8(s@).len() <= crate::spec::max_len();
pub proof fn any_len_bound(s: crate::anystr::AnyStr<'_>)
    ensures encode_utf8(s@).len() <= crate::spec::max_len(),
{ match s { crate::anystr::AnyStr::Owned(x) => string_len_bound(&x), crate::anystr::AnyStr::Borrowed(x) => str_len_bound(x) } }
pub fn zip_chars<A: Iterator<Item = char>, B: Iterator<Item = char>>(a: A, b: B) -> (r: core::iter::Zip<A, B>)
    requires a.obeys_prophetic_iter_laws(), b.obeys_prophetic_iter_laws(), a.will_return_none(), b.will_return_none(),
    ensures r.obeys_prophetic_iter_laws(), r.remaining() == crate::strings::zipped(a.remaining(), b.remaining()),
{
    let z = a.zip(b);
    assert(z.remaining() =~= crate::strings::zipped(a.remaining(), b.remaining()));
    z
}
pub fn all_pairs<A: Iterator<Item = char>, B: Iterator<Item = char>, F: FnMut((char, char)) -> bool>(z: core::iter::Zip<A, B>, f: F) -> (r: bool)
    requires z.obeys_prophetic_iter_laws(), forall|p: (char, char)| #[trigger] f.requires((p,)),
        forall|p: (char, char), r: bool| #[trigger] f.ensures((p,), r) ==> r == (p.0 == p.1),
    ensures r == crate::strings::pairs_same(z.remaining()),
{
    let ghost zz = z.remaining();
    let mut z = z;
    let r = z.all(f);
    proof {
        if r { assert(forall|i: int| 0 <= i < zz.len() ==> f.ensures((#[trigger] zz[i],), true)); }
        else { assert(exists|i: int| 0 <= i < zz.len() && f.ensures((#[trigger] zz[i],), false)); }
    }
    r
}
pub assume_specification[<u8 as TryFrom<char>>::try_from](c: char) -> (r: Result<u8, <u8 as TryFrom<char>>::Error>)
    ensures (c as u32) < 256 ==> r is Ok && r->Ok_0 == c as u8, (c as u32) >= 256 ==> r is Err;
#[verifier::external_body]
pub fn collect_string<I: Iterator<Item = char>>(it: I) -> (r: String)
    ensures it.obeys_prophetic_iter_laws() && it.will_return_none() ==> r@ == it.remaining(),
{ it.collect() }
#[verifier::external_body]
pub fn string_extend<I: Iterator<Item = char>>(s: &mut String, it: I)
    ensures it.obeys_prophetic_iter_laws() && it.will_return_none() ==> final(s)@ == old(s)@ + it.remaining(),
{ s.extend(it) }

#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExCharIndices<'a>(CharIndices<'a>);
pub uninterp spec fn ci_rest(c: CharIndices<'_>) -> Seq<char>;
pub uninterp spec fn ci_pos(c: CharIndices<'_>) -> nat;
pub assume_specification<'a>[str::char_indices](s: &'a str) -> (r: CharIndices<'a>)
    ensures ci_rest(r) == s@, ci_pos(r) == 0;
pub assume_specification<'a>[<CharIndices<'a> as Iterator>::next](c: &mut CharIndices<'a>) -> (r: Option<(usize, char)>)
    ensures
        ci_rest(*old(c)).len() == 0 ==> r.is_none() && *final(c) == *old(c),
        ci_rest(*old(c)).len() > 0 ==> r == Some((ci_pos(*old(c)) as usize, ci_rest(*old(c))[0]))
            && ci_rest(*final(c)) == ci_rest(*old(c)).drop_first()
            && ci_pos(*final(c)) == ci_pos(*old(c)) + encode_utf8(seq![ci_rest(*old(c))[0]]).len();
pub assume_specification<'a>[<CharIndices<'a> as Clone>::clone](c: &CharIndices<'a>) -> (r: CharIndices<'a>)
    ensures r == *c;
/// what is left of the characters of a string: their iterator holds the rest of the string, so this is known beforehand
pub uninterp spec fn chars_rest(c: core::str::Chars<'_>) -> Seq<char>;
pub broadcast axiom fn chars_known(c: core::str::Chars<'_>)
    ensures #[trigger] c.remaining() == chars_rest(c), c.obeys_prophetic_iter_laws(), c.will_return_none();
pub assume_specification<'a>[<core::str::Chars<'a> as Clone>::clone](c: &core::str::Chars<'a>) -> (r: core::str::Chars<'a>)
    ensures r == *c;
pub assume_specification<'a>[<core::str::Chars<'a> as Iterator>::size_hint](c: &core::str::Chars<'a>) -> (r: (usize, Option<usize>))
    ensures r.0 <= chars_rest(*c).len(), r.1 is Some, chars_rest(*c).len() <= r.1->0;

// ---- iterator adaptors
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(I)]
pub struct ExEnumerate<I>(core::iter::Enumerate<I>);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(I)]
pub struct ExCloned<I>(core::iter::Cloned<I>);

#[verifier::external_body]
pub fn enumerate<'a, T>(it: core::slice::Iter<'a, T>) -> (r: core::iter::Enumerate<core::slice::Iter<'a, T>>)
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
        r.remaining().len() == it.remaining().len(),
        forall|i: int| 0 <= i < it.remaining().len() ==> (#[trigger] r.remaining()[i]) == (i as usize, it.remaining()[i]),
{ it.enumerate() }
/// what is left of an iterator that clones the items of a slice
#[verifier::prophetic]
pub uninterp spec fn cloned_rest<'a, T: Clone>(c: core::iter::Cloned<core::slice::Iter<'a, T>>) -> Seq<T>;
/// an iterator that clones the items of a slice ends
pub broadcast axiom fn cloned_ends<'a, T: Clone>(c: core::iter::Cloned<core::slice::Iter<'a, T>>)
    ensures #![trigger c.obeys_prophetic_iter_laws()] #![trigger c.remaining()] c.obeys_prophetic_iter_laws(), c.will_return_none(), c.decrease() is Some, c.remaining() == cloned_rest(c);
/// the next item of any iterator that keeps the laws of iterators
pub fn it_next<T, I: Iterator<Item = T>>(i: &mut I) -> (r: Option<T>)
    requires (*old(i)).obeys_prophetic_iter_laws(), (*old(i)).will_return_none() || (*old(i)).remaining().len() > 0, (*old(i)).decrease() is Some,
    ensures (*final(i)).obeys_prophetic_iter_laws(), (*final(i)).decrease() is Some,
        (*old(i)).remaining().len() == 0 ==> r is None && (*final(i)).remaining() == (*old(i)).remaining(),
        (*old(i)).remaining().len() > 0 ==> r == Some((*old(i)).remaining()[0]) && (*final(i)).remaining() == (*old(i)).remaining().drop_first() && (*final(i)).decrease()->0 < (*old(i)).decrease()->0,
{ i.next() }
/// `out` are clones of `refs`
pub open spec fn copied<T: Clone>(refs: Seq<&T>, out: Seq<T>) -> bool {
    out.len() == refs.len() && forall|i: int| 0 <= i < out.len() ==> call_ensures(T::clone, (refs[i],), #[trigger] out[i])
}
#[verifier::external_body]
pub fn cloned<'a, T: Clone>(it: core::slice::Iter<'a, T>) -> (r: core::iter::Cloned<core::slice::Iter<'a, T>>)
    ensures copied(it.remaining(), r.remaining()),
{ it.cloned() }
#[verifier::external_body]
pub fn find_map<'a, T, R, F: FnMut(&'a T) -> Option<R>>(mut it: core::slice::Iter<'a, T>, f: F) -> (r: Option<R>)
    requires forall|x: &'a T| #[trigger] f.requires((x,)),
    ensures found(it.remaining(), |x: &'a T, y: Option<R>| f.ensures((x,), y), r),
{ it.find_map(f) }
/// the first answer that is not `None`
pub open spec fn found<'a, T, R>(all: Seq<&'a T>, f: spec_fn(&'a T, Option<R>) -> bool, r: Option<R>) -> bool {
    match r {
        Some(_) => exists|i: int| 0 <= i < all.len() && f(#[trigger] all[i], r) && forall|j: int| 0 <= j < i ==> f(#[trigger] all[j], None),
        None => forall|j: int| 0 <= j < all.len() ==> f(#[trigger] all[j], None),
    }
}
#[verifier::external_body]
pub fn find_mut<'a, T, F: FnMut(&&'a mut T) -> bool>(it: core::slice::IterMut<'a, T>, f: F) -> (r: Option<&'a mut T>)
    requires forall|x: &&'a mut T| #[trigger] f.requires((x,)),
    ensures found_mut(it.remaining(), |x: &'a mut T, b: bool| f.ensures((&x,), b), r),
{ let mut it = it; it.find(f) }
/// the first item that passes; the others are left as they are
#[verifier::prophetic]
pub open spec fn found_mut<'a, T>(all: Seq<&'a mut T>, f: spec_fn(&'a mut T, bool) -> bool, r: Option<&'a mut T>) -> bool {
    match r {
        Some(x) => exists|i: int| 0 <= i < all.len() && #[trigger] all[i] == x && f(all[i], true) && (forall|j: int| 0 <= j < i ==> f(#[trigger] all[j], false)) && (forall|j: int| 0 <= j < all.len() && j != i ==> has_resolved(#[trigger] all[j])),
        None => forall|j: int| 0 <= j < all.len() ==> has_resolved(#[trigger] all[j]) && f(all[j], false),
    }
}
pub fn slice_get_mut<'a, T>(s: &'a mut Vec<T>, i: usize) -> (r: Option<&'a mut T>)
    ensures
        i < old(s)@.len() ==> r is Some && *(r->0) == old(s)@[i as int] && final(s)@ == old(s)@.update(i as int, *final(r->0)),
        i >= old(s)@.len() ==> r is None && final(s)@ == old(s)@,
{ s.get_mut(i) }
/// an operation whose documentation says that it panics on `None`
#[verifier::external_body]
pub fn or_panic<T>(o: Option<T>, message: &str) -> (r: T)
    ensures o == Some(r),
{ o.expect(message) }

/// going through `c` gives `s`
#[verifier::prophetic]
pub open spec fn yields<C: IntoIterator>(c: C, s: Seq<C::Item>) -> bool {
    forall|i: C::IntoIter| #[trigger] call_ensures(<C as IntoIterator>::into_iter, (c,), i) ==> i.obeys_prophetic_iter_laws() && i.will_return_none() && i.remaining() == s
}
pub fn map_each<A, B, I: Iterator<Item = A>, F: FnMut(A) -> B>(it: I, f: F) -> (r: core::iter::Map<I, F>)
    requires it.obeys_prophetic_iter_laws(), it.will_return_none(), forall|x: A| #[trigger] f.requires((x,)),
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none() ==> each(it.remaining(), |x: A, y: B| f.ensures((x,), y), r.remaining()),
{ it.map(f) }
pub open spec fn each<A, B>(a: Seq<A>, f: spec_fn(A, B) -> bool, b: Seq<B>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> f(a[i], #[trigger] b[i]) }
/// `collect` is `from_iter`
pub fn collect_into<T, I: Iterator<Item = T>, C: FromIterator<T>>(it: I) -> (r: C)
    requires it.obeys_prophetic_iter_laws(),
    ensures it.will_return_none(), <C as vstd::std_specs::iter::FromIteratorSpec<T>>::from_iter_ensures(it.remaining(), r),
{ it.collect() }
// ---- formatting destinations
/// A destination of text: what it was given so far, and whether it took all of it.
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(WriteSpec via WriteSpecImpl)]
pub trait ExWrite {
    type ExternalTraitSpecificationFor: core::fmt::Write;
    spec fn log_sent(&self) -> Seq<char>;
    spec fn log_took(&self) -> bool;
    /// for a destination that is a reference: what its owner sees in the end
    #[verifier::prophetic]
    spec fn log_last(&self) -> (Seq<char>, bool);
    fn write_str(&mut self, s: &str) -> (r: fmt::Result)
        ensures final(self).log_sent() == old(self).log_sent() + s@, final(self).log_took() == (old(self).log_took() && r is Ok), final(self).log_last() == old(self).log_last();
    fn write_char(&mut self, c: char) -> (r: fmt::Result)
        ensures final(self).log_sent() == old(self).log_sent().push(c), final(self).log_took() == (old(self).log_took() && r is Ok), final(self).log_last() == old(self).log_last();
}
pub open spec fn sent<W: fmt::Write + ?Sized>(w: &W) -> Seq<char> { <W as WriteSpec>::log_sent(w) }
pub open spec fn took<W: fmt::Write + ?Sized>(w: &W) -> bool { <W as WriteSpec>::log_took(w) }
#[verifier::prophetic]
pub open spec fn last<W: fmt::Write + ?Sized>(w: &W) -> (Seq<char>, bool) { <W as WriteSpec>::log_last(w) }
/// `text` was written: all of it, or up to and including the write that failed
#[verifier::prophetic]
pub open spec fn wrote<W: fmt::Write + ?Sized>(w0: &W, w1: &W, text: Seq<char>, r: fmt::Result) -> bool {
    &&& last(w1) == last(w0)
    &&& took(w1) == (took(w0) && r is Ok)
    &&& sent(w0).is_prefix_of(sent(w1)) && sent(w1).is_prefix_of(sent(w0) + text)
    &&& r is Ok ==> sent(w1) == sent(w0) + text
}
impl<'a> WriteSpecImpl for fmt::Formatter<'a> {
    uninterp spec fn log_sent(&self) -> Seq<char>;
    uninterp spec fn log_took(&self) -> bool;
    #[verifier::prophetic]
    open spec fn log_last(&self) -> (Seq<char>, bool) { arbitrary() }
}
impl WriteSpecImpl for String {
    open spec fn log_sent(&self) -> Seq<char> { self@ }
    open spec fn log_took(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn log_last(&self) -> (Seq<char>, bool) { arbitrary() }
}
impl<'b, W: fmt::Write> WriteSpecImpl for &'b mut W {
    open spec fn log_sent(&self) -> Seq<char> { sent(*self) }
    open spec fn log_took(&self) -> bool { took(*self) }
    #[verifier::prophetic]
    open spec fn log_last(&self) -> (Seq<char>, bool) { (sent(&mut_ref_future(*self)), took(&mut_ref_future(*self))) }
}
pub assume_specification<'a>[fmt::Formatter::<'a>::alternate](f: &fmt::Formatter<'a>) -> (r: bool)
    ensures r == alternate(f);
pub assume_specification<'a>[fmt::Formatter::<'a>::write_str](f: &mut fmt::Formatter<'a>, s: &str) -> (r: fmt::Result)
    ensures wrote(old(f), final(f), s@, r);
pub uninterp spec fn alternate<'a>(f: &fmt::Formatter<'a>) -> bool;
/// a value that prints a text
pub trait Shown: fmt::Display {
    spec fn shown_ok(&self) -> bool;
    spec fn shown(&self) -> Seq<char>;
    fn show<'f>(&self, f: &mut fmt::Formatter<'f>) -> (r: fmt::Result)
        requires self.shown_ok(),
        ensures wrote(old(f), final(f), self.shown(), r);
}
/// `write!(w, "{}", t)`: the formatter hands every write on to `w`
#[verifier::external_body]
pub fn fmt_display<W: fmt::Write, T: Shown>(w: &mut W, t: &T) -> (r: fmt::Result)
    requires t.shown_ok(),
    ensures wrote(old(w), final(w), t.shown(), r),
{ write!(w, "{}", t) }
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExDebugStruct<'a, 'b: 'a>(fmt::DebugStruct<'a, 'b>);
pub assume_specification<'a, 'b>[fmt::Formatter::<'a>::debug_struct](f: &'b mut fmt::Formatter<'a>, name: &str) -> (r: fmt::DebugStruct<'b, 'a>)
    ensures sent(old(f)).is_prefix_of(sent(final(f)));
pub assume_specification<'a, 'b: 'a, 'c>[fmt::DebugStruct::<'a, 'b>::field](f: &'c mut fmt::DebugStruct<'a, 'b>, name: &str, value: &dyn fmt::Debug) -> (r: &'c mut fmt::DebugStruct<'a, 'b>);
pub assume_specification<'a, 'b: 'a>[fmt::DebugStruct::<'a, 'b>::finish](f: &mut fmt::DebugStruct<'a, 'b>) -> (r: fmt::Result);
/// `write!(w, "{}", t)` for any `t`: what was written stays; what comes after it is up to `t`
#[verifier::external_body]
pub fn fmt_any<W: fmt::Write, T: fmt::Display>(w: &mut W, t: &T) -> (r: fmt::Result)
    ensures sent(old(w)).is_prefix_of(sent(final(w))),
{ write!(w, "{}", t) }
} // verus!

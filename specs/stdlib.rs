#[allow(unused_imports)] use vstd::prelude::*;
use core::cmp::Ordering;
// Contracts of standard functions that the current source does not call and vstd does not describe. They are assumed, and
// play no part in the proofs of the current tree; they let a rewrite that calls one of them be judged rather than left to
// the search. harness/src/bin/conform.rs runs them against the functions.
verus! {
pub open spec fn hexdigit(b: u32) -> bool { 48 <= b <= 57 || 65 <= b <= 70 || 97 <= b <= 102 }
pub open spec fn lower_of(b: u8) -> u8 { if 65 <= b <= 90 { (b + 32) as u8 } else { b } }
pub open spec fn upper_of(b: u8) -> u8 { if 97 <= b <= 122 { (b - 32) as u8 } else { b } }

pub assume_specification[u8::is_ascii](b: &u8) -> (r: bool) ensures r == (*b < 128);
pub assume_specification[u8::is_ascii_hexdigit](b: &u8) -> (r: bool) ensures r == hexdigit(*b as u32);
pub assume_specification[u8::is_ascii_whitespace](b: &u8) -> (r: bool) ensures r == (*b == 32 || *b == 9 || *b == 10 || *b == 12 || *b == 13);
pub assume_specification[u8::is_ascii_control](b: &u8) -> (r: bool) ensures r == (*b < 32 || *b == 127);
pub assume_specification[u8::is_ascii_graphic](b: &u8) -> (r: bool) ensures r == (33 <= *b <= 126);
pub assume_specification[u8::is_ascii_lowercase](b: &u8) -> (r: bool) ensures r == (97 <= *b <= 122);
pub assume_specification[u8::is_ascii_uppercase](b: &u8) -> (r: bool) ensures r == (65 <= *b <= 90);
pub assume_specification[u8::is_ascii_alphabetic](b: &u8) -> (r: bool) ensures r == (65 <= *b <= 90 || 97 <= *b <= 122);
pub assume_specification[u8::is_ascii_alphanumeric](b: &u8) -> (r: bool) ensures r == (48 <= *b <= 57 || 65 <= *b <= 90 || 97 <= *b <= 122);
pub assume_specification[u8::to_ascii_lowercase](b: &u8) -> (r: u8) ensures r == lower_of(*b);
pub assume_specification[u8::to_ascii_uppercase](b: &u8) -> (r: u8) ensures r == upper_of(*b);
pub assume_specification[u8::eq_ignore_ascii_case](b: &u8, c: &u8) -> (r: bool) ensures r == (lower_of(*b) == lower_of(*c));
pub assume_specification[char::is_ascii](c: &char) -> (r: bool) ensures r == ((*c as u32) < 128);
pub assume_specification[char::is_ascii_digit](c: &char) -> (r: bool) ensures r == (48 <= *c as u32 <= 57);
pub assume_specification[char::is_ascii_hexdigit](c: &char) -> (r: bool) ensures r == hexdigit(*c as u32);
pub assume_specification[char::is_ascii_control](c: &char) -> (r: bool) ensures r == ((*c as u32) < 32 || *c as u32 == 127);
pub assume_specification[char::is_control](c: char) -> (r: bool) ensures r == ((c as u32) < 32 || 127 <= c as u32 <= 159);

/// the same predicates for the contracts that R-TEST writes for closures
pub trait Ascii {
    spec fn code(&self) -> int;
    open spec fn said_is_ascii(&self) -> bool { let c = self.code(); c < 128 }
    open spec fn said_is_ascii_digit(&self) -> bool { let c = self.code(); 48 <= c <= 57 }
    open spec fn said_is_ascii_hexdigit(&self) -> bool { let c = self.code(); hexdigit(c as u32) }
    open spec fn said_is_ascii_whitespace(&self) -> bool { let c = self.code(); c == 32 || c == 9 || c == 10 || c == 12 || c == 13 }
    open spec fn said_is_ascii_control(&self) -> bool { let c = self.code(); c < 32 || c == 127 }
    open spec fn said_is_ascii_graphic(&self) -> bool { let c = self.code(); 33 <= c <= 126 }
    open spec fn said_is_ascii_lowercase(&self) -> bool { let c = self.code(); 97 <= c <= 122 }
    open spec fn said_is_ascii_uppercase(&self) -> bool { let c = self.code(); 65 <= c <= 90 }
    open spec fn said_is_ascii_alphabetic(&self) -> bool { let c = self.code(); 65 <= c <= 90 || 97 <= c <= 122 }
    open spec fn said_is_ascii_alphanumeric(&self) -> bool { let c = self.code(); 48 <= c <= 57 || 65 <= c <= 90 || 97 <= c <= 122 }
}
impl Ascii for u8 { open spec fn code(&self) -> int { *self as int } }
impl Ascii for char { open spec fn code(&self) -> int { *self as int } }

pub open spec fn overflowed(d: int) -> (usize, bool) {
    if d < 0 { ((d + usize::MAX + 1) as usize, true) } else if d > usize::MAX { ((d - usize::MAX - 1) as usize, true) } else { (d as usize, false) }
}
pub assume_specification[usize::overflowing_add](a: usize, b: usize) -> (r: (usize, bool)) ensures r == overflowed(a + b);
pub assume_specification[usize::overflowing_sub](a: usize, b: usize) -> (r: (usize, bool)) ensures r == overflowed(a - b);
pub assume_specification[usize::abs_diff](a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b - a } else { a - b });

pub open spec fn is_less(o: Ordering) -> bool { o == Ordering::Less }
pub assume_specification[Ordering::then](o: Ordering, p: Ordering) -> (r: Ordering) ensures r == (if o == Ordering::Equal { p } else { o });
pub assume_specification[Ordering::is_eq](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Equal);
pub assume_specification[Ordering::is_ne](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Equal);
pub assume_specification[Ordering::is_lt](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Less);
pub assume_specification[Ordering::is_gt](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Greater);
pub assume_specification[Ordering::is_le](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Greater);
pub assume_specification[Ordering::is_ge](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Less);

pub assume_specification<T>[core::mem::replace](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b, no_unwind;
pub assume_specification<T: Default>[core::mem::take](a: &mut T) -> (r: T) ensures r == *old(a), call_ensures(T::default, (), *final(a));

pub assume_specification<T>[Option::<T>::or](o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == (if o is Some { o } else { p });
pub assume_specification<T>[Option::<T>::xor](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some && p is None { o } else if o is None && p is Some { p } else { None::<T> });
pub assume_specification<T, U>[Option::<T>::and](o: Option<T>, p: Option<U>) -> (r: Option<U>) ensures r == (if o is Some { p } else { None::<U> });
pub assume_specification<T, F: FnOnce() -> Option<T>>[Option::<T>::or_else](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(()),
    ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
pub assume_specification<T>[Option::<T>::replace](o: &mut Option<T>, t: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(t), no_unwind;
pub assume_specification<T: Copy>[Option::<&T>::copied](o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
pub assume_specification<T, F: FnOnce(T) -> bool>[Option::<T>::is_some_and](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->0,)),
    ensures o is None ==> !r, o is Some ==> f.ensures((o->0,), r);
pub assume_specification<T, F: FnOnce(T) -> bool>[Option::<T>::is_none_or](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->0,)),
    ensures o is None ==> r, o is Some ==> f.ensures((o->0,), r);
pub assume_specification<T, U, F: FnOnce(T) -> U>[Option::<T>::map_or](o: Option<T>, u: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)),
    ensures o is None ==> r == u, o is Some ==> f.ensures((o->0,), r);
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[Option::<T>::map_or_else](o: Option<T>, d: D, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)), o is None ==> d.requires(()),
    ensures o is None ==> d.ensures((), r), o is Some ==> f.ensures((o->0,), r);
pub assume_specification<T, P: FnOnce(&T) -> bool>[Option::<T>::filter](o: Option<T>, p: P) -> (r: Option<T>)
    requires o is Some ==> p.requires((&o->0,)),
    ensures o is None ==> r is None, r is Some ==> r == o && p.ensures((&o->0,), true), o is Some && r is None ==> p.ensures((&o->0,), false);

pub assume_specification<T, E>[Result::<T, E>::unwrap_or](o: Result<T, E>, t: T) -> (r: T) ensures r == (match o { Ok(x) => x, Err(_) => t });
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[Result::<T, E>::and_then](o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures o is Ok ==> f.ensures((o->Ok_0,), r), o is Err ==> r == Err::<U, E>(o->Err_0);
pub assume_specification<T, E, F, O: FnOnce(E) -> Result<T, F>>[Result::<T, E>::or_else](o: Result<T, E>, f: O) -> (r: Result<T, F>)
    requires o is Err ==> f.requires((o->Err_0,)),
    ensures o is Err ==> f.ensures((o->Err_0,), r), o is Ok ==> r == Ok::<T, F>(o->Ok_0);

pub assume_specification[String::reserve](s: &mut String, n: usize) ensures final(s)@ == old(s)@;
} // verus!

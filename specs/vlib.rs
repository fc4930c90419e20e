// Shared library.  `lib_utf8.rs` is proved; everything marked external_body or
// assume_specification below is TRUSTED and listed in every evidence file.
use vstd::std_specs::iter::*;
use vstd::utf8::*;
use vstd::string::*;
use core::str::Bytes;
use core::str::Chars;
use core::iter::Enumerate;

//@include lib_utf8.rs

// ---------- error type ----------
#[verifier::external_body]
pub struct Error { e: () }
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body]
pub fn vx_anyhow() -> (e: Error) { unimplemented!() }
/// some text
#[verifier::external_body]
pub fn vx_format() -> (r: String) { unimplemented!() }
/// a reachable panic is a failed obligation
#[verifier::external_body]
pub fn vx_panic() -> (r: !)
    requires false,
{ unimplemented!() }

// ---------- strings ----------
pub open spec fn sb(s: &str) -> Seq<u8> { encode_utf8(s@) }
pub open spec fn bytes_of(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }

#[verifier::external_body]
pub broadcast proof fn axiom_str_bound(s: &str)
    ensures #[trigger] s.spec_bytes().len() <= isize::MAX,
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_string_bound(s: String)
    ensures s@.len() <= isize::MAX, (#[trigger] encode_utf8(s@)).len() <= isize::MAX,
{ }
pub assume_specification[ String::len ](s: &String) -> (r: usize)
    ensures r == encode_utf8(s@).len();

pub assume_specification<I: core::slice::SliceIndex<str>>[ <str as core::ops::Index<I>>::index ](s: &str, i: I) -> (r: &I::Output)
    ensures call_ensures(<I as core::slice::SliceIndex<str>>::index, (i, s), r);

pub proof fn lemma_char_len(c: char)
    ensures encode_utf8(seq![c]) == encode_scalar(c as u32), len16(c) <= encode_scalar(c as u32).len() <= 4,
        1 <= encode_scalar(c as u32).len(), c as u32 <= 0x10ffff,
{
    reveal_with_fuel(encode_utf8, 3);
    assert(seq![c].drop_first() =~= Seq::<char>::empty());
    char_is_scalar(c);
}
pub open spec fn len16(c: char) -> nat { if (c as u32) < 0x10000 { 1 } else { 2 } }
pub assume_specification[ char::len_utf16 ](c: char) -> (r: usize)
    ensures r == len16(c);

pub open spec fn usum(s: Seq<usize>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { usum(s.drop_last()) + s.last() as nat } }

// ---------- iterators ----------
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExBytes<'a>(Bytes<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct ExEnumerate<I>(Enumerate<I>);

pub assume_specification<'a>[ str::bytes ](s: &'a str) -> (b: Bytes<'a>)
    ensures b.obeys_prophetic_iter_laws(), b.remaining() == s.spec_bytes(), b.will_return_none(), b.decrease() is Some;

#[verifier::external_body]
pub broadcast proof fn axiom_bytes_iter(b: Bytes<'_>) ensures #[trigger] b.obeys_prophetic_iter_laws() { }
#[verifier::external_body]
pub broadcast proof fn axiom_enum_bytes_iter(b: Enumerate<Bytes<'_>>) ensures #[trigger] b.obeys_prophetic_iter_laws() { }

pub trait VxIter: Iterator + Sized {
    fn vx_enumerate(self) -> (r: Enumerate<Self>)
        ensures self.obeys_prophetic_iter_laws() ==>
            ( r.obeys_prophetic_iter_laws() && r.remaining().len() == self.remaining().len()
              && (forall|i: int| 0 <= i < r.remaining().len() ==> #[trigger] r.remaining()[i] == (i as usize, self.remaining()[i]))
              && r.will_return_none() == self.will_return_none() && (self.decrease() is Some ==> r.decrease() is Some));
    fn vx_count(self) -> (r: usize)
        ensures self.obeys_prophetic_iter_laws() ==> self.will_return_none() && r == self.remaining().len();
}
impl<I: Iterator + Sized> VxIter for I {
    #[verifier::external_body]
    fn vx_enumerate(self) -> (r: Enumerate<Self>) { self.enumerate() }
    #[verifier::external_body]
    fn vx_count(self) -> (r: usize) { self.count() }
}
pub trait VxSum: Iterator<Item = usize> + Sized {
    fn vx_sum<S>(self) -> (r: usize)
        requires self.obeys_prophetic_iter_laws(), self.will_return_none() ==> usum(self.remaining()) <= usize::MAX,
        ensures self.will_return_none(), r == usum(self.remaining());
}
impl<I: Iterator<Item = usize> + Sized> VxSum for I {
    #[verifier::external_body]
    fn vx_sum<S>(self) -> (r: usize) { self.sum() }
}

#[verifier::opaque]
pub open spec fn vx_sorted(v: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> v[i] <= v[j] }
pub trait VxUsizes {
    spec fn vx_seq(&self) -> Seq<usize>;
    fn vx_binary_search(&self, x: &usize) -> (r: core::result::Result<usize, usize>)
        requires vx_sorted(self.vx_seq()),
        ensures match r {
            Ok(i) => i < self.vx_seq().len() && self.vx_seq()[i as int] == *x,
            Err(i) => i <= self.vx_seq().len() && (forall|k: int| 0 <= k < i ==> self.vx_seq()[k] < *x)
                && (forall|k: int| i <= k < self.vx_seq().len() ==> self.vx_seq()[k] > *x),
        };
}
impl VxUsizes for [usize] {
    open spec fn vx_seq(&self) -> Seq<usize> { self@ }
    #[verifier::external_body]
    fn vx_binary_search(&self, x: &usize) -> (r: core::result::Result<usize, usize>) { self.binary_search(x) }
}

pub open spec fn splice(b: Seq<u8>, i: int, j: int, t: Seq<u8>) -> Seq<u8> { b.subrange(0, i) + t + b.subrange(j, b.len() as int) }
pub trait VxString {
    spec fn vx_chars(&self) -> Seq<char>;
    /// String::replace_range on a byte range
    fn vx_replace_range(&mut self, r: core::ops::Range<usize>, t: &str)
        requires r.start <= r.end <= encode_utf8(old(self).vx_chars()).len(),
            is_char_boundary(encode_utf8(old(self).vx_chars()), r.start as int),
            is_char_boundary(encode_utf8(old(self).vx_chars()), r.end as int),
        ensures encode_utf8(final(self).vx_chars()) == splice(encode_utf8(old(self).vx_chars()), r.start as int, r.end as int, t.spec_bytes());
}
pub trait VxOption<T>: Sized {
    spec fn vx_opt(&self) -> Option<T>;
    fn vx_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> (r: core::result::Result<T, E>)
        requires f.requires(()),
        ensures match self.vx_opt() { Some(x) => r == Ok::<T, E>(x), None => r is Err && f.ensures((), r->Err_0) };
}
impl<T> VxOption<T> for Option<T> {
    open spec fn vx_opt(&self) -> Option<T> { *self }
    #[verifier::external_body]
    fn vx_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> (r: core::result::Result<T, E>) { self.ok_or_else(f) }
}
impl VxString for String {
    open spec fn vx_chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_replace_range(&mut self, r: core::ops::Range<usize>, t: &str)
        { self.replace_range(r, t) }
}
pub broadcast group vx_axioms { axiom_str_bound, axiom_string_bound, axiom_bytes_iter, axiom_enum_bytes_iter }

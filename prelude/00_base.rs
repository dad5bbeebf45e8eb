// ---- prelude: assumed contracts of std items that vstd does not specify, and shared spec functions ----
pub mod prelude_all {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus!{

/// The `'static` copy of a value: lifetimes are invisible to the specification, so it is "the same value".
pub uninterp spec fn stat<A, B>(a: A) -> B;
#[verifier::external_body]
pub broadcast proof fn axiom_stat_id<A>(a: A)
    ensures #[trigger] stat::<A, A>(a) == a
{}

pub assume_specification [<u64>::overflowing_add] (a: u64, b: u64) -> (r: (u64, bool))
    ensures r.1 == (a + b > u64::MAX), r.0 as int == (if a + b > u64::MAX { a + b - 0x1_0000_0000_0000_0000 } else { a + b });

#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, U, F> [std::option::Option::<T>::map_or] (o: std::option::Option<T>, d: U, f: F) -> (r: U)
    where
        F: std::ops::FnOnce(T,) -> U + std::marker::Destruct,
        U: std::marker::Destruct,
    requires o is Some ==> f.requires((o->0,)),
    ensures o is None ==> r == d, o is Some ==> f.ensures((o->0,), r);

pub assume_specification<'a, T, P> [<std::slice::Iter<'a, T> as std::iter::Iterator>::position] (it: &mut std::slice::Iter<'a, T>, p: P) -> (r: std::option::Option<usize>)
    where
        P: std::ops::FnMut(<std::slice::Iter<'a, T> as std::iter::Iterator>::Item,) -> bool,
        std::slice::Iter<'a, T>: std::marker::Sized,
    requires forall|i: int| 0 <= i < (*old(it)).remaining().len() ==> call_requires(p, (#[trigger] (*old(it)).remaining()[i],)),
    ensures match r {
        Some(k) => 0 <= k < (*old(it)).remaining().len() && call_ensures(p, ((*old(it)).remaining()[k as int],), true)
            && forall|j: int| 0 <= j < k ==> call_ensures(p, (#[trigger] (*old(it)).remaining()[j],), false),
        None => forall|j: int| 0 <= j < (*old(it)).remaining().len() ==> call_ensures(p, (#[trigger] (*old(it)).remaining()[j],), false),
    };

#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (r: std::result::Result<T, E>, d: T) -> (x: T)
    where
        E: std::marker::Destruct,
        T: std::marker::Destruct,
    ensures x == (match r { Ok(v) => v, Err(_) => d });

pub assume_specification<T> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>)
    where
        T: std::clone::Clone,
    ensures copied(s@, r@);
pub uninterp spec fn copied<T>(s: Seq<T>, r: Seq<T>) -> bool;
#[verifier::external_body]
pub broadcast proof fn axiom_copied_bytes(s: Seq<u8>, r: Seq<u8>)
    ensures #[trigger] copied(s, r) ==> r == s
{}

pub assume_specification<T> [std::mem::replace] (dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;

/// The elements an `IntoIterator` yields.
pub uninterp spec fn into_seq<T, I>(i: I) -> Seq<T>;
#[verifier::external_body]
pub broadcast proof fn axiom_into_seq_vec<T>(v: Vec<T>)
    ensures #[trigger] into_seq::<T, Vec<T>>(v) == v@
{}
pub assume_specification<T, A, I> [<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend] (v: &mut std::vec::Vec<T, A>, i: I)
    where
        A: std::alloc::Allocator,
        I: std::iter::IntoIterator<Item = T>,
    ensures final(v)@ == old(v)@ + into_seq::<T, I>(i);

pub assume_specification<'a, T: Copy + 'a, A: std::alloc::Allocator, I: std::iter::IntoIterator<Item = &'a T>> [<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend] (v: &mut std::vec::Vec<T, A>, i: I)
    ensures final(v)@ == old(v)@ + into_seq::<T, I>(i);
#[verifier::external_body]
pub broadcast proof fn axiom_into_seq_slice<'a, T>(v: &'a [T])
    ensures #[trigger] into_seq::<T, &'a [T]>(v) == v@
{}
/// `From` between byte containers keeps the elements.
#[verifier::external_body]
pub broadcast proof fn axiom_from_slice_box(s: &[u8])
    ensures #[trigger] <Box<[u8]> as vstd::std_specs::convert::FromSpec<&[u8]>>::from_spec(s)@ == s@
{}
#[verifier::external_body]
pub broadcast proof fn axiom_from_vec_box(s: Vec<u8>)
    ensures #[trigger] <Box<[u8]> as vstd::std_specs::convert::FromSpec<Vec<u8>>>::from_spec(s)@ == s@
{}
#[verifier::external_body]
pub broadcast proof fn axiom_from_slice_vec(s: &[u8])
    ensures #[trigger] <Vec<u8> as vstd::std_specs::convert::FromSpec<&[u8]>>::from_spec(s)@ == s@
{}
#[verifier::external_body]
pub broadcast proof fn axiom_from_slice_box_obeys()
    ensures #[trigger] <Box<[u8]> as vstd::std_specs::convert::FromSpec<&[u8]>>::obeys_from_spec()
{}
#[verifier::external_body]
pub broadcast proof fn axiom_from_vec_box_obeys()
    ensures #[trigger] <Box<[u8]> as vstd::std_specs::convert::FromSpec<Vec<u8>>>::obeys_from_spec()
{}
#[verifier::external_body]
pub broadcast proof fn axiom_from_slice_vec_obeys()
    ensures #[trigger] <Vec<u8> as vstd::std_specs::convert::FromSpec<&[u8]>>::obeys_from_spec()
{}

/// Position of the first line feed.
pub open spec fn first_lf(s: Seq<u8>) -> Option<nat>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if s[0] == 10 { Some(0nat) }
    else { match first_lf(s.skip(1)) { Some(k) => Some(k + 1), None => None } }
}
pub proof fn lemma_first_lf(s: Seq<u8>)
    ensures match first_lf(s) {
        Some(k) => k < s.len() && s[k as int] == 10 && forall|j: int| 0 <= j < k ==> s[j] != 10,
        None => forall|j: int| 0 <= j < s.len() ==> s[j] != 10,
    }
    decreases s.len()
{
    if s.len() > 0 && s[0] != 10 {
        lemma_first_lf(s.skip(1));
        assert forall|j: int| 1 <= j < s.len() implies s[j] == s.skip(1)[j - 1] by {}
    }
}
pub broadcast proof fn lemma_first_lf_b(s: Seq<u8>)
    ensures match #[trigger] first_lf(s) {
        Some(k) => k < s.len() && s[k as int] == 10 && forall|j: int| 0 <= j < k ==> s[j] != 10,
        None => forall|j: int| 0 <= j < s.len() ==> s[j] != 10,
    }
{ lemma_first_lf(s) }

/// This value is the initial value of the static item named `id` (the item's name is what the contract files say).
pub uninterp spec fn static_named<T>(t: T, id: int) -> bool;
#[verifier::external_body]
pub const fn name_static<T>(t: T, id: Ghost<int>) -> (r: T) ensures r == t, static_named(r, id@) { t }

/// `?` converts an error with `From`.
pub broadcast axiom fn axiom_question_mark<T, S: From<T>>(v: T, r: S)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(v, r) ==> (<S as vstd::std_specs::convert::FromSpec<T>>::obeys_from_spec() ==> r == <S as vstd::std_specs::convert::FromSpec<T>>::from_spec(v));

pub broadcast group vx_axioms {
    axiom_question_mark, crate::std_more::std_axioms,
    axiom_stat_id,
    axiom_into_seq_vec, axiom_into_seq_slice, axiom_copied_bytes,
    lemma_first_lf_b,
    crate::imap_types::response::imap_axioms, crate::fmtp::fmt_axioms,
    axiom_from_slice_box, axiom_from_vec_box, axiom_from_slice_vec,
    axiom_from_slice_box_obeys, axiom_from_vec_box_obeys, axiom_from_slice_vec_obeys,
}
} // verus!
}

pub mod bounded_static {
use vstd::prelude::*;
use crate::prelude_all::stat;
verus!{
pub trait IntoBoundedStatic: Sized {
    type Static: 'static;
    fn into_static(self) -> (r: Self::Static)
        ensures r == stat::<Self, Self::Static>(self);
}
pub trait ToBoundedStatic: Sized {
    type Static: 'static;
    fn to_static(&self) -> (r: Self::Static)
        ensures r == stat::<Self, Self::Static>(*self);
}
}
}

pub mod bytes {
use vstd::prelude::*;
verus!{
#[verifier::external_body]
pub struct BytesMut { v: Vec<u8> }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub trait Buf {
    spec fn rem(&self) -> Seq<u8>;
    fn advance(&mut self, n: usize)
        requires n <= old(self).rem().len(),
        ensures final(self).rem() == old(self).rem().skip(n as int);
}
impl Buf for BytesMut {
    open spec fn rem(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn advance(&mut self, n: usize) { unimplemented!() }
}
pub trait BufMut {}
/// `Buf::reader`, `BufMut::writer`: read from the front, write to the end.
pub struct Reader<'a> { pub b: &'a mut BytesMut }
pub struct Writer<'a> { pub b: &'a mut BytesMut }
impl BytesMut {
    pub fn reader(&mut self) -> (r: Reader<'_>) ensures *r.b == *old(self), *final(self) == *final(r.b) { Reader { b: self } }
    pub fn writer(&mut self) -> (r: Writer<'_>) ensures *r.b == *old(self), *final(self) == *final(r.b) { Writer { b: self } }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn extend<B: ByteSource>(&mut self, b: B) ensures final(self)@ == old(self)@ + b.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn extend_from_slice(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, b: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize)
        ensures final(self)@ == (if n as int <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: BytesMut)
        requires n <= old(self)@.len(),
        ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
/// What can be appended to a `BytesMut` byte by byte.
pub trait ByteSource: Sized { spec fn bytes(&self) -> Seq<u8>; }
impl<'a> ByteSource for &'a [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl ByteSource for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl std::default::Default for BytesMut {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
}
impl std::ops::Deref for BytesMut {
    type Target = [u8];
    #[verifier::external_body]
    fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
}
}

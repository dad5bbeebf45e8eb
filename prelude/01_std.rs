// ---- prelude: assumed contracts of more std functions (so that a reworked function can still be decided) ----
pub mod std_more {
use vstd::prelude::*;
use std::alloc::Allocator;
use std::collections::VecDeque;
use std::ops::FnOnce;
use std::marker::Destruct;
verus!{
pub assume_specification<T, A: Allocator> [VecDeque::<T, A>::front] (v: &VecDeque<T, A>) -> (r: Option<&T>)
    ensures r is Some <==> v@.len() > 0, r is Some ==> *r->0 == v@[0];
pub assume_specification<T, A: Allocator> [VecDeque::<T, A>::back] (v: &VecDeque<T, A>) -> (r: Option<&T>)
    ensures r is Some <==> v@.len() > 0, r is Some ==> *r->0 == v@.last();
pub assume_specification<T, A: Allocator> [VecDeque::<T, A>::get] (v: &VecDeque<T, A>, i: usize) -> (r: Option<&T>)
    ensures r is Some <==> i < v@.len(), r is Some ==> *r->0 == v@[i as int];
pub assume_specification<T, A: Allocator> [VecDeque::<T, A>::is_empty] (v: &VecDeque<T, A>) -> (r: bool)
    ensures r == (v@.len() == 0);
pub assume_specification<T, A: Allocator> [VecDeque::<T, A>::front_mut] (v: &mut VecDeque<T, A>) -> (r: Option<&mut T>)
    ensures
        old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r is Some && *r->0 == old(v)@[0] && final(v)@ == old(v)@.update(0, *final(r->0));
pub assume_specification<T, A: Allocator> [Vec::<T, A>::into_boxed_slice] (v: Vec<T, A>) -> (r: Box<[T], A>)
    ensures r@ == v@;
/// The value `Default` gives, for the types whose default the contracts speak about.
pub uninterp spec fn default_of<T>() -> T;
#[verifier::external_body]
pub broadcast proof fn axiom_default_option<T>() ensures #[trigger] default_of::<Option<T>>() == None::<T> {}
#[verifier::external_body]
pub broadcast proof fn axiom_default_vec<T>() ensures (#[trigger] default_of::<Vec<T>>())@ == Seq::<T>::empty() {}
#[verifier::external_body]
pub broadcast proof fn axiom_default_deque<T>() ensures (#[trigger] default_of::<VecDeque<T>>())@ == Seq::<T>::empty() {}
#[verifier::external_body]
pub broadcast proof fn axiom_default_bytes() ensures (#[trigger] default_of::<crate::bytes::BytesMut>())@ == Seq::<u8>::empty() {}
#[verifier::external_body]
pub broadcast proof fn axiom_default_usize() ensures #[trigger] default_of::<usize>() == 0 {}
#[verifier::external_body]
pub broadcast proof fn axiom_default_bool() ensures #[trigger] default_of::<bool>() == false {}
pub assume_specification<T: std::default::Default> [std::mem::take] (v: &mut T) -> (r: T)
    ensures r == *old(v), *final(v) == default_of::<T>();
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T> [std::mem::drop] (v: T)
    where T: Destruct;
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, F> [Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
    where F: FnOnce(T,) -> bool + Destruct,
    requires o is Some ==> f.requires((o->0,)),
    ensures o is None ==> !r, o is Some ==> f.ensures((o->0,), r);
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, F> [Option::<T>::is_none_or] (o: Option<T>, f: F) -> (r: bool)
    where F: FnOnce(T,) -> bool + Destruct,
    requires o is Some ==> f.requires((o->0,)),
    ensures o is None ==> r, o is Some ==> f.ensures((o->0,), r);
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, U, D, F> [Option::<T>::map_or_else] (o: Option<T>, d: D, f: F) -> (r: U)
    where D: FnOnce() -> U + Destruct, F: FnOnce(T,) -> U + Destruct,
    requires o is Some ==> f.requires((o->0,)), o is None ==> d.requires(()),
    ensures o is None ==> d.ensures((), r), o is Some ==> f.ensures((o->0,), r);
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, P> [Option::<T>::filter] (o: Option<T>, p: P) -> (r: Option<T>)
    where P: FnOnce(&T,) -> bool + Destruct, T: Destruct,
    requires o is Some ==> p.requires((&o->0,)),
    ensures o is None ==> r is None, o is Some ==> (r == o && p.ensures((&o->0,), true)) || (r is None && p.ensures((&o->0,), false));
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T> [Option::<T>::or] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
    where T: Destruct,
    ensures r == (if o is Some { o } else { p });
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, F> [Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
    where F: FnOnce() -> Option<T> + Destruct, T: Destruct,
    requires o is None ==> f.requires(()),
    ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r is Some <==> o is Some, r is Some ==> r->0 == *o->0;
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E, U, F> [Result::<T, E>::and_then] (o: Result<T, E>, f: F) -> (r: Result<U, E>)
    where F: FnOnce(T,) -> Result<U, E> + Destruct,
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures o is Err ==> r == Err::<U, E>(o->Err_0), o is Ok ==> f.ensures((o->Ok_0,), r);
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E, F2, O> [Result::<T, E>::or_else] (o: Result<T, E>, f: O) -> (r: Result<T, F2>)
    where O: FnOnce(E,) -> Result<T, F2> + Destruct,
    requires o is Err ==> f.requires((o->Err_0,)),
    ensures o is Ok ==> r == Ok::<T, F2>(o->Ok_0), o is Err ==> f.ensures((o->Err_0,), r);
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E, F> [Result::<T, E>::unwrap_or_else] (o: Result<T, E>, f: F) -> (r: T)
    where F: FnOnce(E,) -> T + Destruct,
    requires o is Err ==> f.requires((o->Err_0,)),
    ensures o is Ok ==> r == o->Ok_0, o is Err ==> f.ensures((o->Err_0,), r);
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E, F> [Result::<T, E>::is_ok_and] (o: Result<T, E>, f: F) -> (r: bool)
    where F: FnOnce(T,) -> bool + Destruct,
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures o is Err ==> !r, o is Ok ==> f.ensures((o->Ok_0,), r);
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T> [bool::then_some] (b: bool, v: T) -> (r: Option<T>)
    where T: Destruct,
    ensures r == (if b { Some(v) } else { None });
pub broadcast group std_axioms {
    axiom_default_option, axiom_default_vec, axiom_default_deque, axiom_default_bytes, axiom_default_usize, axiom_default_bool,
}
} // verus!
}
/// Functions on text that promise nothing: what they give is not what they are given.
pub mod std_text {
use vstd::prelude::*;
verus!{
pub assume_specification [str::trim] (s: &str) -> (r: &str);
pub assume_specification [str::trim_start] (s: &str) -> (r: &str);
pub assume_specification [str::trim_end] (s: &str) -> (r: &str);
pub assume_specification [str::to_lowercase] (s: &str) -> (r: String);
pub assume_specification [str::to_uppercase] (s: &str) -> (r: String);
pub assume_specification [str::to_ascii_lowercase] (s: &str) -> (r: String);
pub assume_specification [str::to_ascii_uppercase] (s: &str) -> (r: String);
pub assume_specification [str::eq_ignore_ascii_case] (s: &str, o: &str) -> (r: bool);
#[verifier::external_trait_specification]
pub trait ExPattern: Sized { type ExternalTraitSpecificationFor: std::str::pattern::Pattern; }
pub assume_specification<P: std::str::pattern::Pattern> [str::contains] (s: &str, p: P) -> (r: bool);
pub assume_specification<P: std::str::pattern::Pattern> [str::starts_with] (s: &str, p: P) -> (r: bool);
pub assume_specification<P: std::str::pattern::Pattern> [str::replace] (s: &str, p: P, t: &str) -> (r: String);
}
}

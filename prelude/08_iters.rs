// ---- prelude: owned iterators of crates that are not available here (assumed; eager where std is lazy) ----
pub mod iters {
use vstd::prelude::*;
verus!{
/// An iterator over these items.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Items<T> { v: Vec<T> }
/// `r` are the items of `s` the predicate holds for, in order.
pub open spec fn kept<T, F: Fn(&T) -> bool>(f: F, s: Seq<T>, r: Seq<T>) -> bool
    decreases s.len()
{
    if s.len() == 0 { r.len() == 0 }
    else {
        (call_ensures(f, (&s[0],), true) && r.len() > 0 && r[0] == s[0] && kept(f, s.skip(1), r.skip(1)))
        || (call_ensures(f, (&s[0],), false) && kept(f, s.skip(1), r))
    }
}
/// The closure computes this predicate.
pub open spec fn decides<T, F: Fn(&T) -> bool>(f: F, p: spec_fn(T) -> bool) -> bool {
    forall|x: T, b: bool| #[trigger] call_ensures(f, (&x,), b) ==> b == p(x)
}
pub proof fn lemma_kept<T, F: Fn(&T) -> bool>(f: F, p: spec_fn(T) -> bool, s: Seq<T>, r: Seq<T>)
    requires kept(f, s, r), decides(f, p),
    ensures r == s.filter(p),
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() == 0 { assert(s.filter(p) =~= r); }
    else {
        let t = s.skip(1);
        assert(s =~= seq![s[0]] + t);
        lemma_filter_front(p, s);
        if call_ensures(f, (&s[0],), true) && r.len() > 0 && r[0] == s[0] && kept(f, t, r.skip(1)) {
            assert(p(s[0]));
            lemma_kept(f, p, t, r.skip(1));
            assert(r =~= seq![s[0]] + r.skip(1));
        } else {
            assert(!p(s[0]));
            lemma_kept(f, p, t, r);
        }
    }
}
pub proof fn lemma_filter_front<T>(p: spec_fn(T) -> bool, s: Seq<T>)
    requires s.len() > 0,
    ensures s.filter(p) == (if p(s[0]) { seq![s[0]] + s.skip(1).filter(p) } else { s.skip(1).filter(p) }),
    decreases s.len()
{
    reveal(Seq::filter);
    let d = s.drop_last();
    if d.len() == 0 {
        assert(d.filter(p) =~= Seq::empty()); assert(s.skip(1).filter(p) =~= Seq::empty());
        assert(s.last() == s[0]);
        assert(s.filter(p) =~= (if p(s[0]) { seq![s[0]] + s.skip(1).filter(p) } else { s.skip(1).filter(p) }));
    } else {
        lemma_filter_front(p, d);
        assert(d.skip(1) =~= s.skip(1).drop_last());
        assert(s.skip(1).last() == s.last());
        assert(s.filter(p) =~= (if p(s[0]) { seq![s[0]] + s.skip(1).filter(p) } else { s.skip(1).filter(p) }));
    }
}
pub proof fn lemma_filter_all<T>(p: spec_fn(T) -> bool, s: Seq<T>)
    ensures
        forall|i: int| 0 <= i < s.filter(p).len() ==> p(#[trigger] s.filter(p)[i]),
        (forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i])) ==> s.filter(p) == s,
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 { lemma_filter_all(p, s.drop_last()); assert(s.drop_last().push(s.last()) =~= s); }
    else { assert(s.filter(p) =~= s); }
}
pub trait Collect<T>: Sized { spec fn collected(s: Seq<T>, r: Self) -> bool; }
impl<T> Collect<T> for Vec<T> { open spec fn collected(s: Seq<T>, r: Vec<T>) -> bool { r@ == s } }
/// All items if none is an error, and the first error otherwise.
impl<T, E> Collect<Result<T, E>> for Result<Vec<T>, E> {
    open spec fn collected(s: Seq<Result<T, E>>, r: Result<Vec<T>, E>) -> bool {
        match r {
            Ok(v) => v@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Ok::<T, E>(v@[i]),
            Err(e) => exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == Err::<T, E>(e) && forall|j: int| 0 <= j < k ==> (#[trigger] s[j]) is Ok,
        }
    }
}
impl<T> Items<T> {
    pub uninterp spec fn items(&self) -> Seq<T>;
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self).items().len() == 0 ==> r is None && final(self).items() == old(self).items(),
            old(self).items().len() > 0 ==> r == Some(old(self).items()[0]) && final(self).items() == old(self).items().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    fn filter_raw<F: Fn(&T) -> bool>(self, f: F) -> (r: Items<T>)
        requires forall|i: int| 0 <= i < self.items().len() ==> #[trigger] call_requires(f, (&self.items()[i],)),
        ensures kept(f, self.items(), r.items()),
    { unimplemented!() }
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Items<T>)
        requires forall|i: int| 0 <= i < self.items().len() ==> #[trigger] call_requires(f, (&self.items()[i],)),
        ensures
            kept(f, self.items(), r.items()),
            forall|p: spec_fn(T) -> bool| decides(f, p) ==> r.items() == #[trigger] self.items().filter(p),
    {
        let ghost s = self.items();
        let r = self.filter_raw(f);
        proof {
            assert forall|p: spec_fn(T) -> bool| decides(f, p) implies r.items() == #[trigger] s.filter(p) by { lemma_kept(f, p, s, r.items()); }
        }
        r
    }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: Items<U>)
        requires forall|i: int| 0 <= i < self.items().len() ==> call_requires(f, (#[trigger] self.items()[i],)),
        ensures r.items().len() == self.items().len(), forall|i: int| #![trigger self.items()[i]] #![trigger r.items()[i]] 0 <= i < self.items().len() ==> call_ensures(f, (self.items()[i],), r.items()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<B: Collect<T>>(self) -> (r: B) ensures B::collected(self.items(), r) { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.items().len() { unimplemented!() }
}
}
}

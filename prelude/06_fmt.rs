pub mod fmtp {
use vstd::prelude::*;
verus!{
// `format!`/`write!` are rewritten to these: the pieces in order, each displayed as its type's `Display` does.
/// Text that `Display` gives.
pub uninterp spec fn shown<T: ?Sized>(t: &T) -> Seq<char>;
/// Text that `Debug` gives.
pub uninterp spec fn debugged<T: ?Sized>(t: &T) -> Seq<char>;
#[verifier::external_body]
pub fn empty() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn lit(s: &'static str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn cat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn show<T: ?Sized>(t: &T) -> (r: String) ensures r@ == shown(t) { unimplemented!() }
#[verifier::external_body]
pub fn debug<T: ?Sized>(t: &T) -> (r: String) ensures r@ == debugged(t) { unimplemented!() }
/// `write!`: what is written, whatever the outcome
pub uninterp spec fn written(f: core::fmt::Formatter) -> Seq<char>;
#[verifier::external_body]
pub fn arbitrary_choice() -> (r: usize) { unimplemented!() }
#[verifier::external_body]
pub fn stop() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn arbitrary<T>() -> (r: T) { unimplemented!() }
/// A future that is dropped has not completed.
#[verifier::external_body]
pub fn impossible() ensures false { unimplemented!() }

/// Decimal notation.
pub open spec fn is_digit(c: char) -> bool { '0' as u32 <= c as u32 <= '9' as u32 }
pub open spec fn dec(n: nat) -> Seq<char>
    decreases n
{
    if n < 10 { seq![digit_c(n)] } else { dec(n / 10).push(digit_c(n % 10)) }
}
pub open spec fn digit_c(d: nat) -> char {
    if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' }
    else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' }
}
pub proof fn lemma_dec_digits(n: nat)
    ensures dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> is_digit(#[trigger] dec(n)[i]),
    decreases n
{
    if n >= 10 { lemma_dec_digits(n / 10); }
}
pub proof fn lemma_dec_inj(a: nat, b: nat)
    requires dec(a) == dec(b),
    ensures a == b,
    decreases a
{
    lemma_dec_digits(a / 10); lemma_dec_digits(b / 10);
    if a < 10 && b < 10 {
        assert(dec(a)[0] == digit_c(a)); assert(dec(b)[0] == digit_c(b));
    } else if a < 10 {
        assert(dec(b).len() == dec(b / 10).len() + 1); assert(dec(a).len() == 1);
    } else if b < 10 {
        assert(dec(a).len() == dec(a / 10).len() + 1); assert(dec(b).len() == 1);
    } else {
        assert(dec(a).drop_last() =~= dec(a / 10)); assert(dec(b).drop_last() =~= dec(b / 10));
        lemma_dec_inj(a / 10, b / 10);
        assert(dec(a).last() == digit_c(a % 10)); assert(dec(b).last() == digit_c(b % 10));
        assert(a % 10 == b % 10);
    }
}
/// A number in decimal notation followed by something that does not start with a digit can be read back.
pub proof fn lemma_dec_prefix(a: nat, x: Seq<char>, b: nat, y: Seq<char>)
    requires dec(a) + x == dec(b) + y, x.len() == 0 || !is_digit(x[0]), y.len() == 0 || !is_digit(y[0]),
    ensures a == b, x == y,
{
    lemma_dec_digits(a); lemma_dec_digits(b);
    let s = dec(a) + x; let t = dec(b) + y;
    let la = dec(a).len() as int; let lb = dec(b).len() as int;
    if la < lb {
        assert(t[la] == dec(b)[la]);
        assert(x.len() > 0); assert(s[la] == x[0]);
    } else if lb < la {
        assert(s[lb] == dec(a)[lb]);
        assert(y.len() > 0); assert(t[lb] == y[0]);
    }
    assert(dec(a) =~= s.take(la)); assert(dec(b) =~= t.take(lb));
    lemma_dec_inj(a, b);
    assert(x =~= s.skip(la)); assert(y =~= t.skip(lb));
}
/// `a + b`, `a += b` (R31) and `write!(a, ..)` (R8) for strings.
#[verifier::external_body]
pub fn concat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { a + b }
#[verifier::external_body]
pub fn append(a: &mut String, b: &str) ensures final(a)@ == old(a)@ + b@ { a.push_str(b) }
pub trait WriteText { fn write_text(&mut self, t: String) -> (r: Result<(), core::fmt::Error>); }
impl WriteText for String {
    #[verifier::external_body]
    fn write_text(&mut self, t: String) -> (r: Result<(), core::fmt::Error>) ensures r == Ok::<(), core::fmt::Error>(()), final(self)@ == old(self)@ + t@ { self.push_str(&t); Ok(()) }
}
// Display of the integer types, of strings and of references to them.
#[verifier::external_body]
pub broadcast proof fn axiom_show_u16(n: u16) ensures #[trigger] shown(&n) == dec(n as nat) {}
#[verifier::external_body]
pub broadcast proof fn axiom_show_u32(n: u32) ensures #[trigger] shown(&n) == dec(n as nat) {}
#[verifier::external_body]
pub broadcast proof fn axiom_show_u64(n: u64) ensures #[trigger] shown(&n) == dec(n as nat) {}
#[verifier::external_body]
pub broadcast proof fn axiom_show_usize(n: usize) ensures #[trigger] shown(&n) == dec(n as nat) {}
#[verifier::external_body]
pub broadcast proof fn axiom_show_string(n: String) ensures #[trigger] shown(&n) == n@ {}
#[verifier::external_body]
pub broadcast proof fn axiom_show_str(n: &str) ensures #[trigger] shown(n) == n@ {}
#[verifier::external_body]
pub broadcast proof fn axiom_show_ref<T: ?Sized>(n: &T) ensures #[trigger] shown(&n) == shown(n) {}
// `to_string` of u16 is its Display text.
#[verifier::external_body]
pub broadcast proof fn axiom_to_string_u16(n: &u16, s: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<u16>(n, s) <==> s@ == dec(*n as nat) {}
// `to_string` of u32 is its Display text.
#[verifier::external_body]
pub broadcast proof fn axiom_to_string_u32(n: &u32, s: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<u32>(n, s) <==> s@ == dec(*n as nat) {}
// `to_string` of u64 is its Display text.
#[verifier::external_body]
pub broadcast proof fn axiom_to_string_u64(n: &u64, s: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<u64>(n, s) <==> s@ == dec(*n as nat) {}
// `to_string` of usize is its Display text.
#[verifier::external_body]
pub broadcast proof fn axiom_to_string_usize(n: &usize, s: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<usize>(n, s) <==> s@ == dec(*n as nat) {}
pub broadcast group fmt_axioms {
    axiom_to_string_u16, axiom_to_string_u32, axiom_to_string_u64, axiom_to_string_usize,
    axiom_show_u16, axiom_show_u32, axiom_show_u64, axiom_show_usize, axiom_show_string, axiom_show_str, axiom_show_ref,
}
}
}
pub mod rand {
pub mod distributions {
use vstd::prelude::*;
verus!{
pub struct Alphanumeric;
pub open spec fn is_alnum(c: char) -> bool {
    '0' as u32 <= c as u32 <= '9' as u32 || 'a' as u32 <= c as u32 <= 'z' as u32 || 'A' as u32 <= c as u32 <= 'Z' as u32
}
pub trait DistString: Sized {
    fn sample_string(&self, rng: &mut crate::rand::ThreadRng, n: usize) -> (r: String)
        ensures r@.len() == n, forall|i: int| 0 <= i < n ==> is_alnum(#[trigger] r@[i]);
}
impl DistString for Alphanumeric {
    #[verifier::external_body]
    fn sample_string(&self, rng: &mut crate::rand::ThreadRng, n: usize) -> (r: String) { unimplemented!() }
}
}
}
use vstd::prelude::*;
verus!{
pub struct ThreadRng { pub v: u64 }
#[verifier::external_body]
pub fn thread_rng() -> ThreadRng { unimplemented!() }
}
}

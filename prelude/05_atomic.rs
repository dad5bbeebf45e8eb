pub mod std_atomic {
use vstd::prelude::*;
verus!{
/// Stand-ins for the types of `std::sync::atomic`. A counter of 64 bits is a ledger: it only ever goes up by one, in one atomic step, and
/// what such a step has read (`drawn`) no other step reads. Operations that could break this have a precondition that cannot
/// be met (`keeps_ledger`). Narrower counters promise nothing.
#[derive(Clone, Copy)]
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
/// That other operations on a counter leave what was drawn from it unique: never provable.
pub uninterp spec fn keeps_ledger(cell: int) -> bool;

#[verifier::external_body]
pub struct AtomicU64 { v: std::sync::atomic::AtomicU64 }
impl AtomicU64 {
    pub uninterp spec fn cell(&self) -> int;
    pub uninterp spec fn init(&self) -> u64;
    #[verifier::external_body]
    pub const fn new(v: u64) -> (r: Self) ensures r.init() == v { AtomicU64 { v: std::sync::atomic::AtomicU64::new(v) } }
    #[verifier::external_body]
    pub fn fetch_add(&self, n: u64, o: Ordering) -> (r: u64) requires n == 1 || keeps_ledger(self.cell()) ensures drawn(self.cell(), r as int, n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: u64) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, n: u64, o: Ordering) -> (r: u64) requires keeps_ledger(self.cell()) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_or(&self, n: u64, o: Ordering) -> (r: u64) requires keeps_ledger(self.cell()) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_and(&self, n: u64, o: Ordering) -> (r: u64) requires keeps_ledger(self.cell()) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_xor(&self, n: u64, o: Ordering) -> (r: u64) requires keeps_ledger(self.cell()) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_max(&self, n: u64, o: Ordering) -> (r: u64) requires keeps_ledger(self.cell()) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_min(&self, n: u64, o: Ordering) -> (r: u64) requires keeps_ledger(self.cell()) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, n: u64, o: Ordering) -> (r: u64) requires keeps_ledger(self.cell()) { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, n: u64, o: Ordering) requires keeps_ledger(self.cell()) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, a: u64, b: u64, o: Ordering, p: Ordering) -> (r: Result<u64, u64>) requires (b as int == if a == u64::MAX { 0 } else { a + 1 }) || keeps_ledger(self.cell()) ensures r matches Ok(x) ==> x == a && drawn(self.cell(), a as int, 1) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange_weak(&self, a: u64, b: u64, o: Ordering, p: Ordering) -> (r: Result<u64, u64>) requires (b as int == if a == u64::MAX { 0 } else { a + 1 }) || keeps_ledger(self.cell()) ensures r matches Ok(x) ==> x == a && drawn(self.cell(), a as int, 1) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_update<F: Fn(u64) -> Option<u64>>(&self, o: Ordering, p: Ordering, f: F) -> (r: Result<u64, u64>)
        requires
            forall|a: u64| #[trigger] f.requires((a,)),
            (forall|a: u64, b: Option<u64>| #[trigger] f.ensures((a,), b) ==> (b matches Some(b) ==> (b as int == if a == u64::MAX { 0 } else { a + 1 }))) || keeps_ledger(self.cell()),
        ensures match r {
            Ok(a) => drawn(self.cell(), a as int, 1) && exists|b: u64| #[trigger] f.ensures((a,), Some(b)),
            Err(a) => f.ensures((a,), None),
        }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct AtomicUsize { v: std::sync::atomic::AtomicUsize }
impl AtomicUsize {
    pub uninterp spec fn cell(&self) -> int;
    pub uninterp spec fn init(&self) -> usize;
    #[verifier::external_body]
    pub const fn new(v: usize) -> (r: Self) ensures r.init() == v { AtomicUsize { v: std::sync::atomic::AtomicUsize::new(v) } }
    #[verifier::external_body]
    pub fn fetch_add(&self, n: usize, o: Ordering) -> (r: usize) requires n == 1 || keeps_ledger(self.cell()) ensures drawn(self.cell(), r as int, n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, n: usize, o: Ordering) -> (r: usize) requires keeps_ledger(self.cell()) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_or(&self, n: usize, o: Ordering) -> (r: usize) requires keeps_ledger(self.cell()) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_and(&self, n: usize, o: Ordering) -> (r: usize) requires keeps_ledger(self.cell()) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_xor(&self, n: usize, o: Ordering) -> (r: usize) requires keeps_ledger(self.cell()) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_max(&self, n: usize, o: Ordering) -> (r: usize) requires keeps_ledger(self.cell()) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_min(&self, n: usize, o: Ordering) -> (r: usize) requires keeps_ledger(self.cell()) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, n: usize, o: Ordering) -> (r: usize) requires keeps_ledger(self.cell()) { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, n: usize, o: Ordering) requires keeps_ledger(self.cell()) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, a: usize, b: usize, o: Ordering, p: Ordering) -> (r: Result<usize, usize>) requires (b as int == if a == usize::MAX { 0 } else { a + 1 }) || keeps_ledger(self.cell()) ensures r matches Ok(x) ==> x == a && drawn(self.cell(), a as int, 1) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange_weak(&self, a: usize, b: usize, o: Ordering, p: Ordering) -> (r: Result<usize, usize>) requires (b as int == if a == usize::MAX { 0 } else { a + 1 }) || keeps_ledger(self.cell()) ensures r matches Ok(x) ==> x == a && drawn(self.cell(), a as int, 1) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_update<F: Fn(usize) -> Option<usize>>(&self, o: Ordering, p: Ordering, f: F) -> (r: Result<usize, usize>)
        requires
            forall|a: usize| #[trigger] f.requires((a,)),
            (forall|a: usize, b: Option<usize>| #[trigger] f.ensures((a,), b) ==> (b matches Some(b) ==> (b as int == if a == usize::MAX { 0 } else { a + 1 }))) || keeps_ledger(self.cell()),
        ensures match r {
            Ok(a) => drawn(self.cell(), a as int, 1) && exists|b: usize| #[trigger] f.ensures((a,), Some(b)),
            Err(a) => f.ensures((a,), None),
        }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct AtomicU32 { v: std::sync::atomic::AtomicU32 }
impl AtomicU32 {
    pub uninterp spec fn cell(&self) -> int;
    pub uninterp spec fn init(&self) -> u32;
    #[verifier::external_body]
    pub const fn new(v: u32) -> (r: Self) ensures r.init() == v { AtomicU32 { v: std::sync::atomic::AtomicU32::new(v) } }
    #[verifier::external_body]
    pub fn fetch_add(&self, n: u32, o: Ordering) -> (r: u32)  { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, n: u32, o: Ordering) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_or(&self, n: u32, o: Ordering) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_and(&self, n: u32, o: Ordering) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_xor(&self, n: u32, o: Ordering) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_max(&self, n: u32, o: Ordering) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_min(&self, n: u32, o: Ordering) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, n: u32, o: Ordering) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, n: u32, o: Ordering) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, a: u32, b: u32, o: Ordering, p: Ordering) -> (r: Result<u32, u32>) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange_weak(&self, a: u32, b: u32, o: Ordering, p: Ordering) -> (r: Result<u32, u32>) { unimplemented!() }
}
#[verifier::external_body]
pub struct AtomicU16 { v: std::sync::atomic::AtomicU16 }
impl AtomicU16 {
    pub uninterp spec fn cell(&self) -> int;
    pub uninterp spec fn init(&self) -> u16;
    #[verifier::external_body]
    pub const fn new(v: u16) -> (r: Self) ensures r.init() == v { AtomicU16 { v: std::sync::atomic::AtomicU16::new(v) } }
    #[verifier::external_body]
    pub fn fetch_add(&self, n: u16, o: Ordering) -> (r: u16)  { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: u16) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, n: u16, o: Ordering) -> (r: u16) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_or(&self, n: u16, o: Ordering) -> (r: u16) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_and(&self, n: u16, o: Ordering) -> (r: u16) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_xor(&self, n: u16, o: Ordering) -> (r: u16) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_max(&self, n: u16, o: Ordering) -> (r: u16) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_min(&self, n: u16, o: Ordering) -> (r: u16) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, n: u16, o: Ordering) -> (r: u16) { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, n: u16, o: Ordering) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, a: u16, b: u16, o: Ordering, p: Ordering) -> (r: Result<u16, u16>) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange_weak(&self, a: u16, b: u16, o: Ordering, p: Ordering) -> (r: Result<u16, u16>) { unimplemented!() }
}
#[verifier::external_body]
pub struct AtomicU8 { v: std::sync::atomic::AtomicU8 }
impl AtomicU8 {
    pub uninterp spec fn cell(&self) -> int;
    pub uninterp spec fn init(&self) -> u8;
    #[verifier::external_body]
    pub const fn new(v: u8) -> (r: Self) ensures r.init() == v { AtomicU8 { v: std::sync::atomic::AtomicU8::new(v) } }
    #[verifier::external_body]
    pub fn fetch_add(&self, n: u8, o: Ordering) -> (r: u8)  { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, n: u8, o: Ordering) -> (r: u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_or(&self, n: u8, o: Ordering) -> (r: u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_and(&self, n: u8, o: Ordering) -> (r: u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_xor(&self, n: u8, o: Ordering) -> (r: u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_max(&self, n: u8, o: Ordering) -> (r: u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_min(&self, n: u8, o: Ordering) -> (r: u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, n: u8, o: Ordering) -> (r: u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, n: u8, o: Ordering) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, a: u8, b: u8, o: Ordering, p: Ordering) -> (r: Result<u8, u8>) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange_weak(&self, a: u8, b: u8, o: Ordering, p: Ordering) -> (r: Result<u8, u8>) { unimplemented!() }
}
#[verifier::external_body]
pub struct AtomicI64 { v: std::sync::atomic::AtomicI64 }
impl AtomicI64 {
    pub uninterp spec fn cell(&self) -> int;
    pub uninterp spec fn init(&self) -> i64;
    #[verifier::external_body]
    pub const fn new(v: i64) -> (r: Self) ensures r.init() == v { AtomicI64 { v: std::sync::atomic::AtomicI64::new(v) } }
    #[verifier::external_body]
    pub fn fetch_add(&self, n: i64, o: Ordering) -> (r: i64)  { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: i64) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, n: i64, o: Ordering) -> (r: i64) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_or(&self, n: i64, o: Ordering) -> (r: i64) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_and(&self, n: i64, o: Ordering) -> (r: i64) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_xor(&self, n: i64, o: Ordering) -> (r: i64) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_max(&self, n: i64, o: Ordering) -> (r: i64) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_min(&self, n: i64, o: Ordering) -> (r: i64) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, n: i64, o: Ordering) -> (r: i64) { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, n: i64, o: Ordering) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, a: i64, b: i64, o: Ordering, p: Ordering) -> (r: Result<i64, i64>) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange_weak(&self, a: i64, b: i64, o: Ordering, p: Ordering) -> (r: Result<i64, i64>) { unimplemented!() }
}
/// `r` was read by one `fetch_add(n)` on `cell`, and by no other operation of that kind.
pub uninterp spec fn drawn(cell: int, r: int, n: int) -> bool;

/// The modification order of a cell that is only ever changed by `fetch_add(1)`, starting from `init`:
/// the i-th operation reads `init + i` (wrapping).
pub open spec fn nth_draw(init: int, i: nat) -> int { (init + i) % 0x1_0000_0000_0000_0000 }
/// Values read by different operations differ, short of 2^64 operations.
pub proof fn lemma_draws_unique(init: int, i: nat, j: nat)
    requires i < j < i + 0x1_0000_0000_0000_0000,
    ensures nth_draw(init, i) != nth_draw(init, j),
{
    assert((init + i) % 0x1_0000_0000_0000_0000 != (init + j) % 0x1_0000_0000_0000_0000) by (nonlinear_arith)
        requires i < j < i + 0x1_0000_0000_0000_0000;
}
}
}

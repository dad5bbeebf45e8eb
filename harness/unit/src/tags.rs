//! H02: tags are pairwise different, also when the random part never varies.
use crate::util::*;
use std::{collections::HashSet, sync::{atomic::Ordering, Barrier, Mutex}};
const L: &[&str] = &["H02"];
trait Gen: Send + Sized { fn new() -> Self; fn tag(&mut self) -> String; const KIND: &'static str; }
impl Gen for tag_generator_debug::TagGenerator { fn new() -> Self { tag_generator_debug::TagGenerator::new() } fn tag(&mut self) -> String { self.generate().inner().to_string() } const KIND: &'static str = "debug"; }
impl Gen for tag_generator_release::TagGenerator { fn new() -> Self { tag_generator_release::TagGenerator::new() } fn tag(&mut self) -> String { self.generate().inner().to_string() } const KIND: &'static str = "release"; }
static SEEN: [Mutex<Option<HashSet<String>>>; 2] = [Mutex::new(None), Mutex::new(None)];
fn one<G: Gen>(r: &mut Rng, t: &mut Trace) -> Result<(), Viol> {
    let mut seen = SEEN[(G::KIND == "debug") as usize].lock().unwrap();
    let seen = seen.get_or_insert_with(HashSet::new);
    if seen.len() > 2_000_000 { seen.clear(); }
    let mut add = |s: String| -> Result<(), Viol> { if s.is_empty() { return viol(L, "empty tag".into()); } if !seen.insert(s.clone()) { return viol(L, format!("tag {s} was generated twice ({} build)", G::KIND)); } Ok(()) };
    match r.below(4) {
        0 => {
            let (n, per, k) = (r.range(2, 12) as usize, r.range(1, 40) as usize, r.range(1, 4) as usize);
            t.op(|| format!("{n} threads create {per} generators each, {k} tags each ({})", G::KIND));
            t.note(&format!("threads {n} {per} {k}"));
            let b = Barrier::new(n);
            let l: Vec<Vec<String>> = guarded(L, "generating tags", || std::thread::scope(|s| {
                let hs: Vec<_> = (0..n).map(|_| s.spawn(|| { b.wait(); let mut gs: Vec<G> = (0..per).map(|_| G::new()).collect(); let mut v = vec![]; for _ in 0..k { for g in gs.iter_mut() { v.push(g.tag()); } } v })).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            }))?;
            for s in l.into_iter().flatten() { add(s)?; }
        }
        1 => {
            let n = r.range(1, 3) as usize;
            let many = match r.below(40) { 0 => 150_000, 1..=3 => 70_000, _ => 300 };
            t.op(|| format!("{n} generators, {many} tags in turn ({})", G::KIND));
            t.note(&format!("many {n} {many}"));
            let mut gs: Vec<G> = (0..n).map(|_| G::new()).collect();
            for _ in 0..many { let i = r.below(n as u64) as usize; let s = guarded(L, "TagGenerator::generate", || gs[i].tag())?; add(s)?; }
        }
        2 => {
            let n = if r.chance(5) { 70_000 } else { r.range(1, 300) };
            t.op(|| format!("{n} generators, two tags each ({})", G::KIND));
            t.note(&format!("gens {n}"));
            for _ in 0..n { let mut g = guarded(L, "TagGenerator::new", G::new)?; add(g.tag())?; add(g.tag())?; }
        }
        _ => {
            t.op(|| format!("120 generators, 120 tags each ({})", G::KIND));
            t.note("square");
            for _ in 0..120 { let mut g = guarded(L, "TagGenerator::new", G::new)?; for _ in 0..120 { add(guarded(L, "TagGenerator::generate", || g.tag())?)?; } }
        }
    }
    Ok(())
}
pub fn case(seed: u64, t: &mut Trace) -> Result<(), Viol> {
    let mut r = Rng::new(seed);
    rand::STYLE.store(seed % 3, Ordering::Relaxed);
    if r.chance(50) { one::<tag_generator_debug::TagGenerator>(&mut r, t) } else { one::<tag_generator_release::TagGenerator>(&mut r, t) }
}
/// Counters narrower than 64 bits.
pub fn deep(seed: u64, t: &mut Trace) -> Result<(), Viol> {
    t.op(|| "2^32 + 3 generators".into());
    t.note(&format!("{seed}"));
    fn go<G: Gen>() -> Result<(), String> {
        let (mut a, mut b) = (G::new(), G::new());
        let first = [a.tag(), a.tag(), b.tag()];
        for _ in 0..(1u64 << 32) - 4 { std::hint::black_box(G::new()); }
        for _ in 0..64 { let s = G::new().tag(); if first.contains(&s) { return Err(format!("tag {s} was generated again after 2^32 generators ({} build)", G::KIND)); } }
        Ok(())
    }
    let r = guarded(L, "creating 2^32 generators", || std::thread::scope(|s| { let a = s.spawn(go::<tag_generator_debug::TagGenerator>); let b = s.spawn(go::<tag_generator_release::TagGenerator>); a.join().unwrap().and(b.join().unwrap()) }))?;
    r.or_else(|e| viol(L, e))
}

//! H01: handles of all generators are pairwise different, and stay what they are.
use crate::util::*;
use imap_next::{client::{self, Client}, server::{self, Server}};
use imap_types::{command::*, core::*, response::*};
use raw::{Handle, HandleGenerator, HandleGeneratorGenerator, RawHandle};
use std::{collections::HashSet, sync::{Barrier, Mutex}};
#[allow(dead_code)]
#[path = "/repo/src/handle.rs"]
mod raw;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct H(RawHandle);
impl Handle for H { fn from_raw(r: RawHandle) -> Self { H(r) } }
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct H2(RawHandle);
impl Handle for H2 { fn from_raw(r: RawHandle) -> Self { H2(r) } }
fn show_h(h: &H) -> String { format!("({}, {})", h.0.generator_id(), h.0.handle_id()) }
/// one source of generators for the whole process, as in client and server
static GLOBAL: HandleGeneratorGenerator<H> = HandleGeneratorGenerator::new();
static OTHER: HandleGeneratorGenerator<H2> = HandleGeneratorGenerator::new();
static ALL: Mutex<Option<HashSet<H>>> = Mutex::new(None);
const L: &[&str] = &["H01"];

fn record(all: &mut HashSet<H>, h: H, origin: &str) -> Result<(), Viol> {
    if !all.insert(h) { return viol(L, format!("handle {} was issued twice ({origin})", show_h(&h))); }
    Ok(())
}
pub fn case(seed: u64, t: &mut Trace) -> Result<(), Viol> {
    let mut r = Rng::new(seed);
    let mut all = ALL.lock().unwrap();
    let all = all.get_or_insert_with(HashSet::new);
    if all.len() > 3_000_000 { all.clear(); }
    match r.below(4) {
        0 => { // generators are created and used by racing threads
            let n = r.range(2, 16) as usize;
            let per = r.range(1, 60) as usize;
            let k = r.range(1, 5) as usize;
            t.op(|| format!("{n} threads create {per} generators each, {k} handles each"));
            t.note(&format!("threads {n} {per} {k}"));
            let b = Barrier::new(n);
            let lists: Vec<Vec<H>> = guarded(L, "generating handles", || std::thread::scope(|s| {
                let hs: Vec<_> = (0..n).map(|_| s.spawn(|| { b.wait(); let mut gs: Vec<HandleGenerator<H>> = (0..per).map(|_| GLOBAL.generate()).collect(); let mut v = Vec::new(); for _ in 0..k { for g in gs.iter_mut() { v.push(g.generate()); } } v })).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            }))?;
            for l in lists { for h in l { record(all, h, "threads")?; } }
        }
        1 => { // few generators, many handles
            let n = r.range(1, 4) as usize;
            let mut gs: Vec<_> = guarded(L, "generate", || (0..n).map(|_| GLOBAL.generate()).collect())?;
            let many = match r.below(30) { 0 => 300_000, 1..=5 => 70_000, _ => 400 };
            t.op(|| format!("{n} generators, {many} handles in turn"));
            t.note(&format!("many {n} {many}"));
            let mut own = vec![];
            for _ in 0..many { let i = r.below(n as u64) as usize; let h = guarded(L, "generate", || gs[i].generate())?; if own.len() < 50 { own.push((i, h, h.0.generator_id(), h.0.handle_id())); } record(all, h, "one thread")?; }
            for (i, h, g, k) in &own { for (j, h2, _, _) in &own { if i != j && h.0.generator_id() == h2.0.generator_id() { return viol(L, format!("handles of different generators cannot be told apart: {} {}", show_h(h), show_h(h2))); } }
                if (h.0.generator_id(), h.0.handle_id()) != (*g, *k) { return viol(L, "a handle changed its identity".into()); } }
        }
        2 => { // many generators, few handles, of two kinds
            let n = if r.chance(10) { 70_000 } else { r.range(1, 3000) } as usize;
            t.op(|| format!("{n} generators of two kinds"));
            t.note(&format!("gens {n}"));
            for i in 0..n { let mut g = guarded(L, "generate", || GLOBAL.generate())?; let h = g.generate(); record(all, h, "new generator")?; if i % 3 == 0 { let _ = OTHER.generate().generate(); record(all, g.generate(), "new generator, second handle")?; } }
        }
        _ => { // generators are moved between threads, handles copied
            let mut g = guarded(L, "generate", || GLOBAL.generate())?;
            let k = r.range(1, 20);
            t.op(|| format!("a generator moves through {k} threads"));
            t.note(&format!("moved {k}"));
            for _ in 0..k { let (g2, h) = guarded(L, "generate", || std::thread::spawn(move || { let h = g.generate(); (g, h) }).join().unwrap())?; g = g2; let c = h; record(all, h, "moved generator")?; if c != h { return viol(L, "a copied handle is not equal to itself".into()); } }
        }
    }
    Ok(())
}
/// Handles of real clients and servers.
pub fn endpoints(seed: u64, t: &mut Trace) -> Result<(), Viol> {
    static C: Mutex<Option<HashSet<client::CommandHandle>>> = Mutex::new(None);
    static S: Mutex<Option<HashSet<server::ResponseHandle>>> = Mutex::new(None);
    let mut r = Rng::new(seed);
    let n = r.range(2, 12) as usize;
    let per = r.range(1, 20) as usize;
    t.op(|| format!("{n} threads create {per} clients and servers each"));
    t.note(&format!("{n} {per}"));
    let b = Barrier::new(n);
    let lists: Vec<(Vec<client::CommandHandle>, Vec<server::ResponseHandle>)> = guarded(L, "enqueuing", || std::thread::scope(|s| {
        let hs: Vec<_> = (0..n).map(|_| s.spawn(|| {
            b.wait();
            let mut cs: Vec<Client> = Vec::new(); let mut ss: Vec<Server> = Vec::new();
            for _ in 0..per { cs.push(Client::new(client::Options::default())); ss.push(Server::new(server::Options::default(), Greeting::ok(None, "hi").unwrap())); }
            let (mut a, mut z) = (vec![], vec![]);
            for i in 0..4 {
                for c in cs.iter_mut() { a.push(c.enqueue_command(Command::new(format!("A{i}"), CommandBody::Noop).unwrap())); }
                for s in ss.iter_mut() { z.push(match i % 3 { 0 => s.enqueue_data(Data::Exists(1)), 1 => s.enqueue_status(Status::ok(None, None, "x").unwrap()), _ => s.enqueue_continuation_request(CommandContinuationRequest::basic(None, Text::try_from("...").unwrap()).unwrap()) }); }
            }
            (a, z)
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    }))?;
    let (mut c, mut s) = (C.lock().unwrap(), S.lock().unwrap());
    for (a, z) in lists {
        for h in a { if !c.get_or_insert_with(HashSet::new).insert(h) { return viol(&["H01", "C03"], format!("{h:?} was returned twice by clients")); } }
        for h in z { if !s.get_or_insert_with(HashSet::new).insert(h) { return viol(&["H01", "S02"], format!("{h:?} was returned twice by servers")); } }
    }
    Ok(())
}
/// Counters narrower than 64 bits: 2^32 handles and 2^32 generators.
pub fn deep(seed: u64, t: &mut Trace) -> Result<(), Viol> {
    t.op(|| "2^32 + 3 handles of one generator, and 2^32 + 3 generators".into());
    t.note(&format!("{seed}"));
    let n = (1u64 << 32) + 3;
    let r: Result<(), String> = guarded(L, "generating 2^32 handles", || std::thread::scope(|s| {
        let a = s.spawn(|| {
            static G: HandleGeneratorGenerator<H> = HandleGeneratorGenerator::new();
            let mut g = G.generate();
            let (first, second) = (g.generate(), g.generate());
            for i in 2..n { let h = g.generate(); if h == first || h == second { return Err(format!("handle number {i} of a generator equals an earlier one: {}", show_h(&h))); } }
            Ok(())
        });
        let b = s.spawn(|| {
            static G: HandleGeneratorGenerator<H> = HandleGeneratorGenerator::new();
            let (first, second) = (G.generate().generate(), G.generate().generate());
            for i in 2..n { let h = G.generate().generate(); if h == first || h == second { return Err(format!("the first handle of generator number {i} equals one of an earlier generator: {}", show_h(&h))); } }
            Ok(())
        });
        a.join().unwrap().and(b.join().unwrap())
    }))?;
    r.or_else(|e| viol(L, e))
}

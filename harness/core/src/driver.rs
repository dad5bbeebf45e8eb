//! Runs seeded cases and reports as one JSON object; shared by the harness programs.
use crate::util::*;
use std::{collections::{BTreeMap, HashSet}, sync::{atomic::Ordering, Mutex}, time::{Duration, Instant}};

pub type Case = fn(u64, &mut Trace) -> Result<(), Viol>;
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } } o + "\"" }
fn list<'a>(v: impl Iterator<Item = &'a str>) -> String { format!("[{}]", v.map(js).collect::<Vec<_>>().join(", ")) }
static STATE: Mutex<Option<(String, u64)>> = Mutex::new(None);
struct Found { side: String, seed: u64, v: Viol, trace: Vec<String> }
fn found_json(f: &Found) -> String { format!("{{\"side\": {}, \"seed\": {}, \"labels\": {}, \"what\": {}, \"trace\": {}}}", js(&f.side), f.seed, list(f.v.labels.iter().copied()), js(&f.v.what), list(f.trace.iter().map(|s| s.as_str()))) }
fn retrace(case: Case, seed: u64) -> Vec<String> { let mut t = Trace { on: true, ..Trace::default() }; let _ = case(seed, &mut t); t.lines }

/// `sides`: the kinds of cases; those marked false run only when asked for by name.
pub fn main(sides: &[(&'static str, Case, bool)], patience: u64) {
    let find = |n: &str| sides.iter().find(|s| s.0 == n).unwrap_or_else(|| panic!("no such kind of case: {n}")).1;
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| { if !INSIDE.load(Ordering::SeqCst) { eprintln!("harness failure: {i}"); } *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = i.to_string().replace('\n', " "); }));
    // a call that never returns
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let p = PROGRESS.load(Ordering::SeqCst);
            if p != last.0 { last = (p, Instant::now()); continue; }
            if last.1.elapsed() > Duration::from_secs(patience) {
                if let (Some(v), Some((side, seed))) = (CURRENT.lock().unwrap().clone(), STATE.lock().unwrap().clone()) {
                    println!("{{\"hang\": true, \"cases\": {p}, \"distinct\": 0, \"steps\": 0, \"events\": 0, \"violations\": [{}]}}", found_json(&Found { side, seed, v, trace: vec![] }));
                    std::process::exit(0);
                }
                last.1 = Instant::now();
            }
        }
    });
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let seed: u64 = a[3].parse().unwrap();
            *STATE.lock().unwrap() = Some((a[2].clone(), seed));
            let mut t = Trace { on: true, ..Trace::default() };
            let r = find(&a[2])(seed, &mut t);
            for l in &t.lines { println!("{l}"); }
            match r { Ok(()) => println!("ok"), Err(v) => { println!("VIOLATED {:?}: {}", v.labels, v.what); std::process::exit(1) } }
        }
        Some("run") => {
            let label = &a[2];
            let base: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            let sides: Vec<(&str, Case)> = match a.get(5) { Some(s) => vec![(s.as_str(), find(s))], _ => sides.iter().filter(|s| s.2).map(|s| (s.0, s.1)).collect() };
            let start = Instant::now();
            let (mut cases, mut steps, mut events) = (0u64, 0u64, 0u64);
            let mut seen: HashSet<u64> = HashSet::new();
            let mut found: Vec<Found> = Vec::new();
            let mut others: BTreeMap<String, u64> = BTreeMap::new();
            while start.elapsed().as_secs_f64() < secs {
                for (side, case) in &sides {
                    let seed = base.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(cases);
                    *STATE.lock().unwrap() = Some((side.to_string(), seed));
                    let mut t = Trace::default();
                    let mut r = case(seed, &mut t);
                    // no port, address or descriptor left: nothing that the code under test decides
                    for _ in 0..3 {
                        if !matches!(&r, Err(v) if ["AddrInUse", "AddrNotAvailable", "code: 23,", "code: 24,", "code: 105,", "no free port"].iter().any(|w| v.what.contains(w))) { break; }
                        std::thread::sleep(Duration::from_secs(2));
                        t = Trace::default();
                        r = case(seed, &mut t);
                    }
                    cases += 1; steps += t.steps; events += t.events;
                    seen.insert(t.hash);
                    if let Err(v) = r {
                        for l in &v.labels { *others.entry(l.to_string()).or_default() += 1; }
                        let hit = label == "any" || v.labels.iter().any(|l| l == label);
                        // keep one per set of labels, and stop at the first that counts
                        if !found.iter().any(|f| f.v.labels == v.labels) && found.len() < 30 { let trace = retrace(*case, seed); found.push(Found { side: side.to_string(), seed, v, trace }); }
                        if hit && label != "any" { break; }
                    }
                }
                if label != "any" && found.iter().any(|f| f.v.labels.iter().any(|l| l == label)) { break; }
            }
            let o = others.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", ");
            println!("{{\"cases\": {cases}, \"distinct\": {}, \"steps\": {steps}, \"events\": {events}, \"labels\": {{{o}}}, \"violations\": [{}]}}", seen.len(), found.iter().map(found_json).collect::<Vec<_>>().join(", "));
        }
        _ => { eprintln!("usage"); std::process::exit(2) }
    }
}

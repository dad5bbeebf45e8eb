//! Random numbers, reference framing, and bookkeeping shared by the client and the server part.
use std::sync::{atomic::{AtomicBool, AtomicU64, Ordering}, Mutex};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed ^ 0x9E3779B97F4A7C15); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, percent: u64) -> bool { self.below(100) < percent }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    /// small mostly, now and then bigger
    pub fn size(&mut self) -> usize { if self.below(400) == 0 { return *self.pick(&[8191usize, 8192, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 70000]); } (match self.below(20) { 0..=3 => 0, 4..=12 => self.range(1, 6), 13..=17 => self.range(5, 40), 18 => self.range(30, 300), _ => self.range(200, 5000) }) as usize }
}

/// A loopback address of this process that changes now and then: other processes do not take its ports, and they do not run out.
pub fn host() -> String {
    static USED: AtomicU64 = AtomicU64::new(0);
    let i = (std::process::id() as u64).wrapping_mul(2654435761) + USED.fetch_add(1, Ordering::SeqCst) / 400;
    let h = format!("127.{}.{}.{}", 1 + i / 62500 % 250, 1 + i / 250 % 250, 1 + i % 250);
    if std::net::TcpListener::bind((h.as_str(), 0)).is_ok() { h } else { "127.0.0.1".into() }
}
/// A listener there, waited for if every port is taken.
pub fn listen(host: &str) -> std::net::TcpListener {
    for _ in 0..600 {
        if let Ok(l) = std::net::TcpListener::bind((host, 0)) { return l; }
        std::thread::sleep(std::time::Duration::from_millis(100));
    }
    panic!("no free port on {host}")
}

/// What is wrong, and which properties that concerns.
#[derive(Clone, Debug)]
pub struct Viol { pub labels: Vec<&'static str>, pub what: String }
pub fn viol<T>(labels: &[&'static str], what: String) -> Result<T, Viol> { Err(Viol { labels: labels.to_vec(), what }) }

#[derive(Default)]
pub struct Trace { pub on: bool, pub lines: Vec<String>, pub hash: u64, pub events: u64, pub steps: u64 }
impl Trace {
    pub fn op(&mut self, f: impl FnOnce() -> String) { self.steps += 1; if self.on { let s = f(); self.lines.push(s); } }
    pub fn note(&mut self, kind: &str) { self.events += 1; for b in kind.bytes() { self.hash = (self.hash ^ b as u64).wrapping_mul(0x100000001b3); } self.hash = self.hash.wrapping_mul(31).wrapping_add(7); }
}

/// For the watchdog: number of finished calls, and what the call in progress is.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub static INSIDE: AtomicBool = AtomicBool::new(false);
pub static CURRENT: Mutex<Option<Viol>> = Mutex::new(None);
pub static PANIC: Mutex<String> = Mutex::new(String::new());
/// Runs one call into the code under test; a panic or endless loop concerns `labels`.
pub fn guarded<R>(labels: &[&'static str], what: &'static str, f: impl FnOnce() -> R) -> Result<R, Viol> {
    *CURRENT.lock().unwrap() = Some(Viol { labels: labels.to_vec(), what: format!("{what} did not return") });
    INSIDE.store(true, Ordering::SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    INSIDE.store(false, Ordering::SeqCst);
    PROGRESS.fetch_add(1, Ordering::SeqCst);
    *CURRENT.lock().unwrap() = None;
    match r { Ok(r) => Ok(r), Err(_) => viol(labels, format!("{what} panicked: {}", PANIC.lock().unwrap())) }
}

/// Reference framing: where the message in progress starts, up to where it was decided, how many literal bytes come next.
pub struct Framer { pub buf: Vec<u8>, pub start: usize, pub pos: usize, pub lit: usize, pub relaxed: bool, pub max: Option<usize> }
#[derive(Debug, PartialEq)]
pub enum Frame { Need, TooLong(usize), BadLf(usize), Line(usize) }
impl Framer {
    pub fn new(relaxed: bool, max: Option<usize>) -> Self { Framer { buf: vec![], start: 0, pos: 0, lit: 0, relaxed, max } }
    pub fn step(&self) -> Frame {
        let limit = self.max.map_or(usize::MAX, |m| self.start.saturating_add(m));
        let end = self.buf.len().min(limit);
        if end - self.pos < self.lit { return if end == limit { Frame::TooLong(end) } else { Frame::Need }; }
        let line = self.pos + self.lit;
        match self.buf[line..end].iter().position(|b| *b == b'\n') {
            None => if end == limit { Frame::TooLong(end) } else { Frame::Need },
            Some(k) => { let e = line + k + 1; if self.relaxed || (k > 0 && self.buf[e - 2] == b'\r') { Frame::Line(e) } else { Frame::BadLf(e) } }
        }
    }
    pub fn take(&mut self, end: usize) -> Vec<u8> { let m = self.buf[self.start..end].to_vec(); self.start = end; self.pos = end; self.lit = 0;
        if self.start > 65536 { self.buf.drain(..self.start); self.start = 0; self.pos = 0; } m }
    pub fn message(&self, end: usize) -> &[u8] { &self.buf[self.start..end] }
    pub fn literal(&mut self, end: usize, n: usize) { self.pos = end; self.lit = n; }
}
pub fn show(b: &[u8]) -> String { if b.len() > 400 { format!("{}… ({} bytes)", b[..200].escape_ascii(), b.len()) } else { b.escape_ascii().to_string() } }
/// Random split point.
pub fn chunk(r: &mut Rng, n: usize) -> usize { if n == 0 { 0 } else { (match r.below(6) { 0 | 1 => 1, 2 => r.range(1, 4).min(n as u64), 3 => r.range(1, n as u64), _ => n as u64 }) as usize } }

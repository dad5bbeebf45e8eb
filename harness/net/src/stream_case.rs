//! T01, T02, T03: the stream driver between a scripted state machine and a scripted peer, with dropped futures.
use crate::{peer::*, util::*};
use imap_next::{stream::{Error, Stream}, Interrupt, Io, State};
use std::{collections::VecDeque, future::Future, pin::pin, task::Poll, time::{Duration, Instant}};
use tokio_rustls::{rustls::{pki_types::ServerName, ClientConnection, Connection, ServerConnection}, TlsAcceptor, TlsConnector};

#[derive(Debug, Clone, PartialEq)]
enum Act { Out(Vec<u8>), Event(u32), Fail(u32), Need }
/// The scripted state machine.
#[derive(Default)]
struct Script { acts: VecDeque<Act>, input: Vec<u8>, output: Vec<u8>, empty_inputs: u32, issued: Option<Act>, after: u32, calls: u64 }
impl State for &mut Script {
    type Event = u32;
    type Error = u32;
    fn enqueue_input(&mut self, b: &[u8]) { if self.issued.is_some() { self.after += 1; } if b.is_empty() { self.empty_inputs += 1; } self.input.extend(b); }
    fn next(&mut self) -> Result<u32, Interrupt<u32>> {
        if self.issued.is_some() { self.after += 1; }
        self.calls += 1;
        match self.acts.pop_front() {
            None | Some(Act::Need) => Err(Interrupt::Io(Io::NeedMoreInput)),
            Some(Act::Out(b)) => { self.output.extend(&b); Err(Interrupt::Io(Io::Output(b))) }
            Some(Act::Event(n)) => { self.issued = Some(Act::Event(n)); Ok(n) }
            Some(Act::Fail(n)) => { self.issued = Some(Act::Fail(n)); Err(Interrupt::Error(n)) }
        }
    }
}
pub fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().enable_all().event_interval(1).build().unwrap() }
/// Polls at most `n` times, with steps of the peer in between; `None`: dropped unfinished.
pub async fn polled<F: Future>(f: F, n: u64, mut between: impl FnMut()) -> Option<F::Output> {
    let mut f = pin!(f);
    for _ in 0..n {
        if let Poll::Ready(x) = std::future::poll_fn(|cx| Poll::Ready(f.as_mut().poll(cx))).await { return Some(x); }
        PROGRESS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        between();
        tokio::task::yield_now().await;
    }
    None
}
fn amount(r: &mut Rng) -> usize { (match r.below(12) { 0 => 0, 1..=3 => r.range(1, 30), 4..=6 => r.range(1, 600), 7..=8 => r.range(1, 20_000), 9 => r.range(16_000, 17_000), 10 => r.range(60_000, 70_000), _ => r.range(1, 300_000) }) as usize }
fn noise(r: &mut Rng, n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n + 8); while v.len() < n { v.extend(r.next().to_le_bytes()); } v.truncate(n); v }

pub fn plain(seed: u64, t: &mut Trace) -> Result<(), Viol> { case(seed, t, false) }
pub fn tls(seed: u64, t: &mut Trace) -> Result<(), Viol> { case(seed, t, true) }

fn case(seed: u64, t: &mut Trace, tls: bool) -> Result<(), Viol> {
    let mut r = Rng::new(seed);
    let data: &[&'static str] = if tls { &["T02"] } else { &["T01"] };
    let all: &[&'static str] = if tls { &["T02", "T03"] } else { &["T01", "T03"] };
    let rt = rt();
    let (ours, theirs) = pair(&mut r, &rt);
    let v12 = r.chance(40);
    let frag = if r.chance(30) { Some(r.range(64, 2000) as usize) } else { None };
    let we_are_client = r.chance(50);
    let mut peer = Peer::new(theirs, if !tls { None } else if we_are_client { Some(Connection::Server(ServerConnection::new(server_config("good", v12, frag)).unwrap())) } else { Some(Connection::Client(ClientConnection::new(client_config(v12, frag), ServerName::try_from("localhost").unwrap()).unwrap())) });
    let mut sent: Vec<u8> = vec![];
    t.op(|| format!("tls {tls} v12 {v12} we are client {we_are_client} fragments {frag:?}"));
    if tls && r.chance(60) {
        // data right behind the handshake
        let n = amount(&mut r); let b = noise(&mut r, n); sent.extend(&b); peer.plain.extend(&b); peer.coalesce = r.chance(70);
        t.op(|| format!("peer queues {n} bytes with the handshake, coalesced {}", peer.coalesce));
    }
    let mut early_close = 0;
    if tls && r.chance(12) { early_close = r.range(1, 2); t.op(|| format!("peer closes right behind the handshake ({early_close})")); }
    let mut stream = if !tls { Stream::insecure(ours) } else {
        let start = Instant::now();
        let x = rt.block_on(async {
            macro_rules! shake { ($f:expr) => {{
                let mut f = pin!($f);
                loop {
                    if let Poll::Ready(x) = std::future::poll_fn(|cx| Poll::Ready(f.as_mut().poll(cx))).await { break Ok(x.unwrap()); }
                    peer.step(1 << 20, 1 << 16);
                    if early_close > 0 && peer.tls.as_ref().is_some_and(|t| !t.is_handshaking()) && !peer.alerted { peer.alert(); peer.step(1 << 20, 0); if early_close == 2 && peer.idle() { peer.fin(); } }
                    if start.elapsed() > Duration::from_secs(20) { break Err(()); }
                    tokio::task::yield_now().await;
                }
            }} }
            if we_are_client { let c = TlsConnector::from(client_config(v12, None)); shake!(c.connect(ServerName::try_from("localhost").unwrap(), ours)).map(|s| Stream::tls(s.into())) }
            else { let c = TlsAcceptor::from(server_config("good", v12, None)); shake!(c.accept(ours)).map(|s| Stream::tls(s.into())) }
        });
        match x { Ok(s) => s, Err(()) => return Ok(()) } // the handshake is not the stream's
    };
    peer.coalesce = false;
    let mut script = Script::default();
    let mut ids = 0u32;
    let rounds = r.range(3, 25);
    let reset = r.chance(25);
    let mut closed = false;
    let mut failed = false;
    let flow = guarded(all, "the stream driver", || rt.block_on(async {
        for round in 0..=rounds {
            let last = round == rounds;
            // what happens next
            if !last {
                for _ in 0..r.below(4) {
                    let a = match r.below(10) { 0..=3 => { let n = amount(&mut r); Act::Out(noise(&mut r, n)) } 4..=6 => { ids += 1; Act::Event(ids) } 7 => { ids += 1; Act::Fail(ids) } _ => Act::Need };
                    t.op(|| format!("script {}", match &a { Act::Out(b) => format!("outputs {} bytes", b.len()), a => format!("{a:?}") }));
                    t.note(match &a { Act::Out(b) if b.is_empty() => "out0", Act::Out(b) if b.len() > 65536 => "outbig", Act::Out(_) => "out", Act::Event(_) => "event", Act::Fail(_) => "fail", Act::Need => "need" });
                    script.acts.push_back(a);
                }
                if r.chance(50) && !peer.sent_fin && !peer.alerted {
                    let n = amount(&mut r); let b = noise(&mut r, n); sent.extend(&b); peer.plain.extend(&b);
                    t.op(|| format!("peer sends {n} bytes")); t.note("send");
                }
                if r.chance(3) && tls && !peer.alerted && peer.plain.is_empty() { peer.alert(); t.op(|| "peer sends close_notify".into()); t.note("alert"); }
            } else {
                // everything arrives, then the peer closes
                t.op(|| "final round".into());
            }
            let flush = !last && r.chance(20);
            let polls = if last { u64::MAX } else { match r.below(4) { 0 => 1, 1 => r.range(1, 4), 2 => r.range(1, 40), _ => r.range(1, 400) } };
            if flush {
                let start = Instant::now();
                let res = polled(stream.flush(), polls, || { peer.random_step(&mut r); if start.elapsed() > Duration::from_secs(10) { panic!("flush makes no progress"); } }).await;
                t.op(|| format!("flush with {polls} polls -> {res:?}")); t.note(&format!("flush{}", res.is_some()));
                match res {
                    None => (),
                    Some(Ok(())) => {
                        // everything asked for so far must be on its way without further driving
                        let start = Instant::now();
                        while peer.got.len() < script.output.len() && peer.dead.is_none() {
                            if !peer.step(0, 1 << 18) { std::thread::sleep(Duration::from_micros(200)); }
                            if start.elapsed() > Duration::from_secs(3) { return viol(&["T03"], format!("flush succeeded, but only {} of {} bytes were written", peer.got.len(), script.output.len())); }
                        }
                    }
                    Some(Err(Error::Closed)) if peer.eof || peer.dead.is_some() => failed = true,
                    Some(Err(e)) => return viol(all, format!("flush failed without a reason: {e:?}")),
                }
            } else {
                loop {
                    let start = Instant::now();
                    let goal = (sent.len(), script.output.len());
                    let before = script.after;
                    let mut over = false;
                    let mut quiet = 0u32;
                    // events are reported in the very poll in which the state machine gives them
                    let mut late = false;
                    let res = {
                        let sp: *mut Script = &mut script;
                        let f = stream.next(unsafe { &mut *sp });
                        let mut f = pin!(f);
                        let mut k = 0u64;
                        loop {
                            if k >= polls { break None; }
                            k += 1;
                            if let Poll::Ready(x) = std::future::poll_fn(|cx| Poll::Ready(f.as_mut().poll(cx))).await { break Some(x); }
                            PROGRESS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            let s = unsafe { &*sp };
                            if s.issued.is_some() { late = true; break None; }
                            let moved = if last { let a = peer.step(1 << 20, 1 << 20); if peer.idle() && !peer.sent_fin && (s.acts.is_empty() || quiet > 30) && s.input.len() >= goal.0 && peer.got.len() >= s.output.len() { if tls && r.chance(50) { peer.alert(); peer.step(1 << 20, 0); } if reset { peer.reset(); } else { peer.fin(); } } a } else { peer.random_step(&mut r) };
                            quiet = if moved { 0 } else { quiet + 1 };
                            if quiet > 300 { tokio::time::sleep(Duration::from_millis(1)).await; } else { tokio::task::yield_now().await; }
                            if last && start.elapsed() > Duration::from_secs(4) && quiet > 300 { over = true; break None; }
                        }
                    };
                    if late { return viol(&["T03"], format!("{:?} was not returned at once", script.issued)); }
                    if script.after != before { return viol(&["T03"], "the state machine was driven on before its event or error was returned".into()); }
                    let issued = script.issued.take();
                    t.op(|| format!("next with {polls} polls -> {res:?}; {} of {} bytes in, {} of {} bytes out", script.input.len(), sent.len(), peer.got.len(), script.output.len()));
                    if script.empty_inputs > 0 && false { return viol(data, "empty input".into()); }
                    if script.input.len() > sent.len() || script.input[..] != sent[..script.input.len()] { return viol(data, format!("input differs from what the peer sent (at byte {})", script.input.iter().zip(&sent).take_while(|(a, b)| a == b).count())); }
                    if peer.got.len() > script.output.len() || peer.got[..] != script.output[..peer.got.len()] { return viol(data, "the peer received something other than what was output".to_string()); }
                    match (&issued, &res) {
                        (Some(Act::Event(n)), Some(Ok(m))) if n == m => (),
                        (Some(Act::Fail(n)), Some(Err(Error::State(m)))) if n == m => (),
                        (None, None) => { if over { return viol(all, format!("no progress: {} of {} bytes in, {} of {} bytes out, peer closed {}", script.input.len(), sent.len(), peer.got.len(), script.output.len(), peer.sent_fin)); } }
                        (None, Some(Err(Error::Closed))) => {
                            if peer.reset { return viol(&["T03"], "reported as closed although the connection was reset".into()); }
                            if !peer.sent_fin && !peer.eof { return viol(&["T03"], "reported as closed although the peer did not close".into()); }
                            if script.input.len() < sent.len() && peer.dead.is_none() { return viol(data, format!("reported as closed with {} of {} bytes delivered", script.input.len(), sent.len())); }
                            closed = true;
                        }
                        (None, Some(Err(Error::Io(e)))) if matches!(e.kind(), std::io::ErrorKind::ConnectionReset | std::io::ErrorKind::BrokenPipe) && peer.dead.is_some() => failed = true,
                        (None, Some(Err(e))) => return viol(all, format!("failed without a reason: {e:?}")),
                        (i, o) => return viol(&["T03"], format!("the state machine gave {i:?}, the driver returned {o:?}")),
                    }
                    if closed || failed || !last { break; }
                }
                if last && !closed && !failed { return viol(&["T03"], "the end of the connection was not reported".into()); }
            }
            if failed && peer.reset {
                // what is written to a connection that was reset is lost, and this is said
                script.acts.clear();
                script.acts.extend([Act::Out(noise(&mut r, 100)), Act::Event(ids + 1)]);
                match stream.next(&mut script).await { Ok(n) if n == ids + 1 => (), Err(Error::Closed | Error::Io(_)) => (), o => return viol(&["T03"], format!("after the reset, the driver returned {o:?}")) }
                for _ in 0..2 {
                    let res = polled(stream.flush(), 1000, || ()).await;
                    t.op(|| format!("flush after the reset -> {res:?}"));
                    match res { Some(Err(Error::Io(_))) => (), o => return viol(&["T03"], format!("output on a connection that was reset: flush returned {o:?}")) }
                }
            }
            if closed || failed { break; }
            for _ in 0..r.below(5) { peer.random_step(&mut r); }
        }
        Ok(())
    }));
    match flow { Ok(x) => x, Err(v) => Err(v) }
}

//! F01: the same bytes in different pieces. No reference: what is received must be the same whatever the pieces.
use crate::{client as c, gen, server as s, util::*};
use imap_codec::{encode::*, *};
use imap_next::{client::{self, Client}, server::{self, Server}, State};
use imap_types::{core::*, response::*};

/// One driver for client and server: the script of the peer's bytes in pieces, and a user who reacts to outcomes in a fixed way.
trait Side { fn feed(&mut self, b: &[u8]); /** polls until more input is needed; notes what was received */ fn drain(&mut self, seed: u64, log: &mut Vec<String>) -> bool; }
impl Side for Client {
    fn feed(&mut self, b: &[u8]) { self.enqueue_input(b) }
    fn drain(&mut self, seed: u64, log: &mut Vec<String>) -> bool {
        for _ in 0..100_000 {
            let mut o = c::outcome(self.next());
            if o == c::O::Need { return true; }
            if o.kind() == "out" || c::sent_kind(o.kind()) { continue; }
            let mut r = Rng::new(seed ^ log.len() as u64);
            match o.kind() {
                "AuthenticateContinuationRequestReceived" => { let _ = self.set_authenticate_data(gen::auth_data(&mut r)); }
                "IdleAccepted" => { self.set_idle_done(); }
                _ => (),
            }
            if let c::O::Ev(e) = &mut o { e.handle = None; } // another one in every run
            log.push(c::show_o(&o));
        }
        false
    }
}
impl Side for Server {
    fn feed(&mut self, b: &[u8]) { self.enqueue_input(b) }
    fn drain(&mut self, seed: u64, log: &mut Vec<String>) -> bool {
        for _ in 0..100_000 {
            let o = s::outcome(self.next());
            if o == s::O::Need { return true; }
            if o.kind() == "out" || s::sent_kind(o.kind()) { continue; }
            let mut r = Rng::new(seed ^ log.len() as u64);
            let status = |r: &mut Rng| gen::status(r, Some(Tag::try_from("x").unwrap()));
            match o.kind() {
                "CommandAuthenticateReceived" | "AuthenticateDataReceived" => if r.chance(50) { let _ = self.authenticate_continue(gen::ccr(&mut r)); } else { let _ = self.authenticate_finish(status(&mut r)); },
                "malformed" | "badlf" | "toolong" if r.chance(20) => { let _ = self.authenticate_finish(status(&mut r)); }
                "IdleCommandReceived" => if r.chance(60) { let _ = self.idle_accept(gen::ccr(&mut r)); } else { let _ = self.idle_reject(status(&mut r)); },
                _ => (),
            }
            log.push(s::show_o(&o));
        }
        false
    }
}
fn pieces(r: &mut Rng, how: u64, n: usize) -> usize { match how { 0 => n, 1 => 1, 2 => chunk(r, n), _ => r.range(1, 7).min(n as u64) as usize } }
fn compare(t: &mut Trace, seed: u64, stream: &[u8], mut fresh: impl FnMut() -> Box<dyn Side>) -> Result<(), Viol> {
    let mut first: Option<(Vec<usize>, Vec<String>)> = None;
    t.op(|| format!("the peer's bytes: {}", show(stream)));
    for how in 0..5u64 {
        let mut r = Rng::new(seed ^ (how << 40));
        let (cuts, log) = guarded(&["F05", "F01"], "enqueue_input / next", || {
            let mut x = fresh();
            let (mut log, mut cuts, mut at) = (Vec::new(), vec![], 0);
            let mut done = x.drain(seed, &mut log);
            while at < stream.len() && done {
                let n = pieces(&mut r, how, stream.len() - at);
                x.feed(&stream[at..at + n]);
                at += n;
                cuts.push(at);
                // now and then several pieces before the next poll
                if how == 4 && r.chance(50) && at < stream.len() { continue; }
                done = x.drain(seed, &mut log);
            }
            (cuts, if done { Ok(log) } else { Err(log.len()) })
        })?;
        let log = match log { Ok(l) => l, Err(n) => return viol(&["F05"], format!("still not asking for input after 100000 polls ({n} messages)")) };
        t.op(|| format!("{} pieces -> {} outcomes", cuts.len(), log.len()));
        if how == 0 { for l in &log { t.note(l); } }
        match &first {
            None => first = Some((cuts, log)),
            Some((_, want)) => if *want != log {
                let k = want.iter().zip(&log).take_while(|(a, b)| a == b).count();
                return viol(&["F01"], format!("the same bytes gave {} in one piece, {} in pieces ending at {:?} (outcome {k})", want.get(k).map_or("nothing more", |s| s), log.get(k).map_or("nothing more", |s| s), if cuts.len() > 40 { &cuts[..40] } else { &cuts[..] }));
            },
        }
    }
    Ok(())
}
pub fn client(seed: u64, t: &mut Trace) -> Result<(), Viol> {
    let mut r = Rng::new(seed);
    let mut opt = client::Options::default();
    opt.crlf_relaxed = r.chance(40);
    let mut stream = Vec::new();
    let mut cmds = Vec::new();
    for i in 0..r.below(5) { cmds.push(gen::command(&mut r, Tag::try_from(format!("A{i}")).unwrap(), &mut |r| r.below(9) as usize)); }
    let g = GreetingCodec::default().encode(&gen::greeting(&mut r)).dump();
    stream.extend(gen::spoil(&mut r, g));
    for _ in 0..r.range(1, 12) {
        let x = match r.below(10) {
            0..=2 => Response::Data(gen::data(&mut r)),
            3..=5 => Response::CommandContinuationRequest(gen::ccr(&mut r)),
            6 => Response::Status(gen::status(&mut r, None)),
            _ => { let tag = Tag::try_from(format!("A{}", r.below(5))).unwrap(); Response::Status(gen::status(&mut r, Some(tag))) }
        };
        let b = ResponseCodec::default().encode(&x).dump();
        stream.extend(gen::spoil(&mut r, b));
    }
    if r.chance(30) { let n = r.below(stream.len() as u64 + 1) as usize; stream.truncate(n); }
    t.op(|| format!("client, crlf_relaxed {}, {} commands enqueued", opt.crlf_relaxed, cmds.len()));
    compare(t, seed, &stream, || { let mut c = Client::new(opt.clone()); for x in &cmds { c.enqueue_command(x.clone()); } Box::new(c) })
}
pub fn server(seed: u64, t: &mut Trace) -> Result<(), Viol> {
    let mut r = Rng::new(seed);
    let mut opt = server::Options::default();
    opt.crlf_relaxed = r.chance(40);
    (opt.max_command_size, opt.max_literal_size) = match r.below(60) { 0..=15 => (r.range(1, 30) as u32, r.below(20) as u32), 59 => (u32::MAX, u32::MAX), _ => (r.range(20, 120) as u32, r.below(60) as u32) };
    let maxl = opt.max_literal_size as u64;
    let mut stream = Vec::new();
    for i in 0..r.range(1, 12) {
        let b = match r.below(10) {
            0 | 1 => AuthenticateDataCodec::default().encode(&gen::auth_data(&mut r)).dump(),
            2 => b"DONE\r\n".to_vec(),
            _ => { let c = gen::command(&mut r, Tag::try_from(format!("A{i}")).unwrap(), &mut |r| (if r.chance(30) { maxl.min(200) + r.below(2) } else { r.below(12) }) as usize); CommandCodec::default().encode(&c).dump() }
        };
        stream.extend(gen::spoil(&mut r, b));
    }
    if r.chance(30) { let n = r.below(stream.len() as u64 + 1) as usize; stream.truncate(n); }
    t.op(|| format!("server, {opt:?}"));
    let g = gen::greeting(&mut r);
    compare(t, seed, &stream, || Box::new(Server::new(opt.clone(), g.clone())))
}

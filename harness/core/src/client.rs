//! The client against an independent reference: every call's outcome is predicted from the history.
use crate::{gen, util::*};
use imap_codec::{decode::*, encode::*, *};
use imap_next::{client::{self, Client, CommandHandle}, Interrupt, Io, State};
use imap_types::{auth::AuthenticateData, command::*, core::*, extensions::idle::IdleDone, response::*};
use std::{collections::{HashSet, VecDeque}, sync::Mutex};

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Ev { kind: &'static str, pub handle: Option<CommandHandle>, command: Option<Command<'static>>, status: Option<Status<'static>>, ccr: Option<CommandContinuationRequest<'static>>, data: Option<Data<'static>>, greeting: Option<Greeting<'static>> }
#[derive(Clone, Debug, PartialEq)]
pub enum O { Out(Vec<u8>), Need, Ev(Ev), BadLf(Vec<u8>), Malformed(Vec<u8>) }
impl O { pub fn kind(&self) -> &'static str { match self { O::Out(_) => "out", O::Need => "need", O::Ev(e) => e.kind, O::BadLf(_) => "badlf", O::Malformed(_) => "malformed" } } }
pub fn show_o(o: &O) -> String { match o { O::Out(b) => format!("Out({})", show(b)), O::BadLf(b) => format!("ExpectedCrlfGotLf({})", show(b)), O::Malformed(b) => format!("Malformed({})", show(b)), o => { let s = format!("{o:?}"); s.replace("None", "-") } } }
fn ev_of(e: client::Event) -> Ev {
    use client::Event::*;
    let d = Ev::default();
    match e {
        GreetingReceived { greeting } => Ev { kind: "GreetingReceived", greeting: Some(greeting), ..d },
        CommandSent { handle, command } => Ev { kind: "CommandSent", handle: Some(handle), command: Some(command), ..d },
        CommandRejected { handle, command, status } => Ev { kind: "CommandRejected", handle: Some(handle), command: Some(command), status: Some(status), ..d },
        AuthenticateStarted { handle } => Ev { kind: "AuthenticateStarted", handle: Some(handle), ..d },
        AuthenticateContinuationRequestReceived { handle, continuation_request } => Ev { kind: "AuthenticateContinuationRequestReceived", handle: Some(handle), ccr: Some(continuation_request), ..d },
        AuthenticateStatusReceived { handle, command_authenticate, status } => Ev { kind: "AuthenticateStatusReceived", handle: Some(handle), command: Some(command_authenticate.into()), status: Some(status), ..d },
        IdleCommandSent { handle } => Ev { kind: "IdleCommandSent", handle: Some(handle), ..d },
        IdleAccepted { handle, continuation_request } => Ev { kind: "IdleAccepted", handle: Some(handle), ccr: Some(continuation_request), ..d },
        IdleRejected { handle, status } => Ev { kind: "IdleRejected", handle: Some(handle), status: Some(status), ..d },
        IdleDoneSent { handle } => Ev { kind: "IdleDoneSent", handle: Some(handle), ..d },
        DataReceived { data } => Ev { kind: "DataReceived", data: Some(data), ..d },
        StatusReceived { status } => Ev { kind: "StatusReceived", status: Some(status), ..d },
        ContinuationRequestReceived { continuation_request } => Ev { kind: "ContinuationRequestReceived", ccr: Some(continuation_request), ..d },
    }
}
pub fn outcome(got: Result<client::Event, Interrupt<client::Error>>) -> O {
    match got {
        Ok(e) => O::Ev(ev_of(e)),
        Err(Interrupt::Io(Io::NeedMoreInput)) => O::Need,
        Err(Interrupt::Io(Io::Output(b))) => O::Out(b),
        Err(Interrupt::Error(client::Error::ExpectedCrlfGotLf { discarded_bytes })) => O::BadLf(discarded_bytes.declassify().to_vec()),
        Err(Interrupt::Error(client::Error::MalformedMessage { discarded_bytes })) => O::Malformed(discarded_bytes.declassify().to_vec()),
    }
}
pub fn sent_kind(k: &str) -> bool { matches!(k, "CommandSent" | "AuthenticateStarted" | "IdleCommandSent" | "IdleDoneSent") }
fn ends_kind(k: &str) -> bool { matches!(k, "CommandRejected" | "AuthenticateStatusReceived" | "IdleRejected") }

#[derive(Clone, Debug, PartialEq)]
enum Phase { Push(Vec<u8>), Handed, LitWait, AuthWait, AuthSet, AuthPush(Vec<u8>), AuthHanded, IdleWait, IdleSet, DonePush(Vec<u8>), DoneHanded }
struct Cur { h: CommandHandle, cmd: Command<'static>, frags: VecDeque<Fragment>, phase: Phase, handed: usize }
struct Ref { greeted: bool, rx: Framer, queue: VecDeque<(CommandHandle, Command<'static>)>, cur: Option<Cur>, after_err: bool, lit_msg: bool, accepted: bool, ended: bool }
fn upto_sync(frags: &mut VecDeque<Fragment>, first: bool) -> Vec<u8> {
    let mut out = Vec::new(); let mut first = first;
    while let Some(f) = frags.front() {
        if let Fragment::Literal { mode: LiteralMode::Sync, .. } = f { if !first { break; } }
        first = false;
        match frags.pop_front().unwrap() { Fragment::Line { data } | Fragment::Literal { data, .. } => out.extend(data) }
    }
    out
}
impl Ref {
    fn send(&mut self) -> Option<O> {
        if !self.greeted { return None; }
        if self.cur.is_none() {
            let (h, cmd) = self.queue.pop_front()?;
            let mut frags: VecDeque<_> = CommandCodec::default().encode(&cmd).collect();
            let b = upto_sync(&mut frags, false);
            self.cur = Some(Cur { h, cmd, frags, phase: Phase::Push(b), handed: 0 });
        }
        let c = self.cur.as_mut().unwrap();
        let e = |kind| O::Ev(Ev { kind, handle: Some(c.h), ..Ev::default() });
        match c.phase.clone() {
            Phase::Push(b) => { c.phase = Phase::Handed; c.handed += b.len(); Some(O::Out(b)) }
            Phase::AuthPush(b) => { c.phase = Phase::AuthHanded; Some(O::Out(b)) }
            Phase::DonePush(b) => { c.phase = Phase::DoneHanded; Some(O::Out(b)) }
            Phase::Handed => match c.cmd.body {
                CommandBody::Authenticate { .. } => { let o = e("AuthenticateStarted"); c.phase = Phase::AuthWait; Some(o) }
                CommandBody::Idle => { let o = e("IdleCommandSent"); c.phase = Phase::IdleWait; Some(o) }
                _ => if c.frags.is_empty() { self.ended = false; let c = self.cur.take().unwrap(); Some(O::Ev(Ev { kind: "CommandSent", handle: Some(c.h), command: Some(c.cmd), ..Ev::default() })) } else { c.phase = Phase::LitWait; None },
            },
            Phase::AuthHanded => { c.phase = Phase::AuthWait; None }
            Phase::DoneHanded => { let o = e("IdleDoneSent"); self.cur = None; Some(o) }
            _ => None,
        }
    }
    fn recv(&mut self) -> Option<O> {
        loop {
            match self.rx.step() {
                Frame::Need => return Some(O::Need),
                Frame::TooLong(_) => unreachable!(),
                Frame::BadLf(e) => return Some(O::BadLf(self.rx.take(e))),
                Frame::Line(e) => {
                    if !self.greeted {
                        return Some(match GreetingCodec::default().decode(self.rx.message(e)) {
                            Ok((_, g)) => { let g = bounded(g); self.rx.take(e); self.greeted = true; O::Ev(Ev { kind: "GreetingReceived", greeting: Some(g), ..Ev::default() }) }
                            Err(_) => O::Malformed(self.rx.take(e)),
                        });
                    }
                    match ResponseCodec::default().decode(self.rx.message(e)) {
                        Err(ResponseDecodeError::LiteralFound { length }) => { self.rx.literal(e, length as usize); self.lit_msg = true; continue; }
                        Err(_) => return Some(O::Malformed(self.rx.take(e))),
                        Ok((_, m)) => { use imap_types::bounded_static::IntoBoundedStatic; let m = m.into_static(); self.rx.take(e); return self.response(m); }
                    }
                }
            }
        }
    }
    fn response(&mut self, m: Response<'static>) -> Option<O> {
        let d = Ev::default();
        match m {
            Response::Data(data) => Some(O::Ev(Ev { kind: "DataReceived", data: Some(data), ..d })),
            Response::Status(s) => {
                if let (Some(c), Status::Tagged(t)) = (&self.cur, &s) {
                    if t.tag == c.cmd.tag {
                        let kind = match c.cmd.body { CommandBody::Authenticate { .. } => "AuthenticateStatusReceived", CommandBody::Idle => "IdleRejected", _ => if t.body.kind == StatusKind::Bad { "CommandRejected" } else { "" } };
                        if kind != "" { self.ended = true; let c = self.cur.take().unwrap(); return Some(O::Ev(Ev { kind, handle: Some(c.h), command: if kind == "IdleRejected" { None } else { Some(c.cmd) }, status: Some(s), ..d })); }
                    }
                }
                Some(O::Ev(Ev { kind: "StatusReceived", status: Some(s), ..d }))
            }
            Response::CommandContinuationRequest(ccr) => {
                if let Some(c) = self.cur.as_mut() {
                    match c.phase {
                        Phase::LitWait => { let b = upto_sync(&mut c.frags, true); c.phase = Phase::Push(b); self.accepted = true; return None; }
                        Phase::AuthWait => { c.phase = Phase::AuthSet; return Some(O::Ev(Ev { kind: "AuthenticateContinuationRequestReceived", handle: Some(c.h), ccr: Some(ccr), ..d })); }
                        Phase::IdleWait => { c.phase = Phase::IdleSet; return Some(O::Ev(Ev { kind: "IdleAccepted", handle: Some(c.h), ccr: Some(ccr), ..d })); }
                        _ => (),
                    }
                }
                Some(O::Ev(Ev { kind: "ContinuationRequestReceived", ccr: Some(ccr), ..d }))
            }
        }
    }
    fn next(&mut self) -> O { self.accepted = false; loop { if let Some(o) = self.send() { return o; } if let Some(o) = self.recv() { return o; } } }
}
fn bounded(g: Greeting<'_>) -> Greeting<'static> { use imap_types::bounded_static::IntoBoundedStatic; g.into_static() }

/// Which properties a difference between the predicted and the actual outcome breaks.
fn labels(before: &Before, exp: &O, got: Option<&O>) -> Vec<&'static str> {
    let mut l = Vec::new();
    let (ek, gk) = (exp.kind(), got.map_or("panic", |g| g.kind()));
    let mut add = |x: &'static str| if !l.contains(&x) { l.push(x) };
    if got.is_none() { add("F05"); }
    let recv_kind = |k: &str| !(k == "out" || k == "need" || k == "panic" || sent_kind(k));
    if !before.greeted && (gk == "out" || sent_kind(gk)) { add("C04"); return l; }
    if !before.greeted && matches!(got, Some(O::Ev(_))) && gk != "GreetingReceived" { add("C04"); }
    if (ek == "GreetingReceived") != (gk == "GreetingReceived") { add("C04"); }
    if ek == "out" || gk == "out" {
        if before.ended { add("C07"); } // what was queued behind a terminated command
        if ek != "out" { // bytes that should not be sent (now)
            if before.phase_lit || before.accepted { add("C02"); }
            if before.auth { add("C05"); add("C01"); }
            if before.idle { add("C06"); add("C01"); }
            if sent_kind(ek) { add("C03"); }
            if ends_kind(ek) { add("C07"); }
            if !before.phase_lit && !before.auth && !before.idle { add("C01"); }
        } else if gk != "out" { // bytes held back
            add("C01");
            if before.auth { add("C05"); } else if before.idle { add("C06"); } else { add("C02"); }
            if before.accepted { add("C08"); }
            if sent_kind(gk) { add("C03"); }
            if ends_kind(gk) { add("C07"); }
        } else if let (O::Out(a), Some(O::Out(b))) = (exp, got) {
            add("C01");
            if b.len() > a.len() && b.starts_with(a) && before.more_sync { add("C02"); }
            if b.len() > a.len() && b.starts_with(a) && !before.more_sync { add("C03"); } // more than the message in progress
            if before.auth { add("C05"); } if before.idle { add("C06"); }
        }
        return l;
    }
    if sent_kind(ek) || sent_kind(gk) { add("C03"); if before.idle { add("C06"); } if before.auth { add("C05"); } return l; }
    if ends_kind(ek) || ends_kind(gk) {
        add("C07");
        if let (O::Ev(a), Some(O::Ev(b))) = (exp, got) { if a.kind == b.kind { if a.handle != b.handle || a.command != b.command { add("C03"); } if a.status != b.status { add("C08"); } } }
        return l;
    }
    if ek == "badlf" || gk == "badlf" { if ek == gk { add("F05"); add("F01"); } else { add("F02"); if before.in_lit { add("F03"); } } if before.after_err { add("F05"); } return l; }
    if before.after_err { add("F05"); }
    for k in [ek, gk] { if k.starts_with("AuthenticateC") { add("C05"); } if k == "IdleAccepted" { add("C06"); } }
    match (exp, got) {
        (O::Malformed(_), Some(O::Malformed(_))) => { add("F05"); add("F03"); add("F01"); }
        (O::Malformed(_), _) | (_, Some(O::Malformed(_))) => { add("F03"); if ek == "need" || gk == "need" { add("F01"); } if gk == "malformed" && ek != "need" && ek != "GreetingReceived" { add("C08"); } }
        (O::Need, _) => { add("F01"); add("C08"); }
        (O::Ev(_), Some(O::Need)) => { add("F01"); if before.in_lit { add("F03"); } if ek != "GreetingReceived" { add("C08"); } }
        (O::Ev(a), Some(O::Ev(b))) => {
            add("C08");
            if a.kind == b.kind && a.handle != b.handle { add("C03"); }
            if a.kind != b.kind && (a.data.is_some() != b.data.is_some() || a.status.is_some() != b.status.is_some()) || (a.kind == b.kind && (a.data != b.data || a.greeting != b.greeting)) { add("F01"); add("F03"); }
        }
        _ => if recv_kind(ek) { add("F01"); add("C08"); },
    }
    if before.lit_accept_expected { add("C02"); }
    l
}
struct Before { greeted: bool, phase_lit: bool, accepted: bool, auth: bool, idle: bool, more_sync: bool, after_err: bool, in_lit: bool, lit_accept_expected: bool, ended: bool }

pub static HANDLES: Mutex<Option<HashSet<CommandHandle>>> = Mutex::new(None);

pub fn case(seed: u64, t: &mut Trace) -> Result<(), Viol> {
    let mut r = Rng::new(seed);
    let relaxed = r.chance(35);
    let mut opt = client::Options::default();
    opt.crlf_relaxed = relaxed;
    t.op(|| format!("Client::new(crlf_relaxed: {relaxed})"));
    let mut c = guarded(&["F05"], "Client::new", || Client::new(opt))?;
    let mut m = Ref { greeted: false, rx: Framer::new(relaxed, None), queue: VecDeque::new(), cur: None, after_err: false, lit_msg: false, accepted: false, ended: false };
    let mut wire: VecDeque<u8> = VecDeque::new();
    let mut greeting_made = false;
    let mut ntag = 0u64;
    let steps = r.range(10, 140);
    let polite = r.chance(50);
    let mut quiet = 0;
    let mut i = 0;
    let eager = r.chance(40);
    loop {
        i += 1;
        if i > steps && quiet > 3 { break; }
        if i > steps + 5000 { break; }
        let drain = i > steps;
        let op = if drain { if wire.is_empty() { 0 } else { if i % 2 == 0 { 50 } else { 70 } } } else { r.below(100) };
        match op {
            0..=54 => {
                let before = Before {
                    greeted: m.greeted, phase_lit: m.cur.as_ref().map_or(false, |c| matches!(c.phase, Phase::LitWait) || (matches!(c.phase, Phase::Handed) && !c.frags.is_empty())), accepted: false,
                    auth: m.cur.as_ref().map_or(false, |c| matches!(c.cmd.body, CommandBody::Authenticate { .. }) && !matches!(c.phase, Phase::Push(_))),
                    idle: m.cur.as_ref().map_or(false, |c| matches!(c.cmd.body, CommandBody::Idle) && !matches!(c.phase, Phase::Push(_))),
                    more_sync: false, after_err: m.after_err, in_lit: m.rx.lit > 0, lit_accept_expected: false, ended: m.ended,
                };
                m.lit_msg = false;
                let exp = m.next();
                let before = Before { accepted: m.accepted, more_sync: m.cur.as_ref().map_or(false, |c| !c.frags.is_empty()), in_lit: before.in_lit || m.lit_msg, lit_accept_expected: m.accepted, ..before };
                let mut pl = labels(&before, &exp, None);
                // a poll that does not return also fails to deliver what was due
                match &exp { O::Out(_) => pl.push("C01"), O::Ev(e) if sent_kind(e.kind) => pl.push("C03"), O::Ev(e) if ends_kind(e.kind) => pl.push("C07"), O::Ev(_) => pl.push("C08"), _ => () }
                let by_ref = r.chance(10);
                let got = guarded(&pl, "Client::next", || if by_ref { State::next(&mut &mut c) } else { c.next() })?;
                let got = outcome(got);
                t.op(|| format!("next() -> {}", show_o(&got)));
                t.note(got.kind());
                if exp != got {
                    // fewer bytes at once are fine as long as the rest follows
                    if let (O::Out(a), O::Out(b)) = (&exp, &got) {
                        if !b.is_empty() && a.len() > b.len() && a.starts_with(b) {
                            let rest = a[b.len()..].to_vec();
                            let c = m.cur.as_mut().unwrap();
                            c.phase = match c.phase { Phase::Handed => Phase::Push(rest), Phase::AuthHanded => Phase::AuthPush(rest), _ => Phase::DonePush(rest) };
                            continue;
                        }
                    }
                    return viol(&labels(&before, &exp, Some(&got)), format!("poll: expected {}, got {}", show_o(&exp), show_o(&got)));
                }
                m.after_err = matches!(got, O::BadLf(_) | O::Malformed(_)) || (m.after_err && matches!(got, O::Need | O::Out(_)));
                quiet = if got == O::Need { quiet + 1 } else { 0 };
            }
            55..=79 => {
                if wire.is_empty() && !drain {
                    let b = if !greeting_made && r.chance(85) {
                        if r.chance(80) { greeting_made = true; GreetingCodec::default().encode(&gen::greeting(&mut r)).dump() } else { let d = Response::Data(gen::data(&mut r)); ResponseCodec::default().encode(&d).dump() }
                    } else {
                        let tags: Vec<Tag<'static>> = m.cur.iter().map(|c| c.cmd.tag.clone()).chain(m.queue.iter().map(|q| q.1.tag.clone())).collect();
                        let phase = m.cur.as_ref().map(|c| c.phase.clone());
                        let d = r.below(100);
                        let resp = match phase {
                            Some(Phase::LitWait | Phase::Handed) if polite && d < 70 => if d < 50 { Response::CommandContinuationRequest(gen::ccr(&mut r)) } else { let s = gen::status(&mut r, Some(tags[0].clone())); Response::Status(s) },
                            Some(Phase::AuthWait | Phase::IdleWait | Phase::AuthHanded) if polite && d < 70 => if d < 50 { Response::CommandContinuationRequest(gen::ccr(&mut r)) } else { let s = gen::status(&mut r, Some(tags[0].clone())); Response::Status(s) },
                            _ => match d % 10 {
                                0..=2 => Response::Data(gen::data(&mut r)),
                                3 | 4 => Response::CommandContinuationRequest(gen::ccr(&mut r)),
                                5 | 6 => Response::Status(gen::status(&mut r, None)),
                                _ => { let tag = if !tags.is_empty() && r.chance(75) { r.pick(&tags).clone() } else { Tag::try_from(gen::word(&mut r)).unwrap() }; Response::Status(gen::status(&mut r, Some(tag))) }
                            },
                        };
                        ResponseCodec::default().encode(&resp).dump()
                    };
                    wire.extend(gen::spoil(&mut r, b));
                }
                let n = if drain { wire.len() } else { chunk(&mut r, wire.len()) };
                let b: Vec<u8> = wire.drain(..n).collect();
                t.op(|| format!("enqueue_input({})", show(&b)));
                m.rx.buf.extend(&b);
                guarded(&["F05", "F01"], "Client::enqueue_input", || c.enqueue_input(&b))?;
                if eager && wire.is_empty() { quiet = 0; }
            }
            80..=89 => {
                ntag += 1;
                let tag = match r.below(12) { 0 => Tag::try_from("A").unwrap(), 1 => Tag::try_from(format!("A{}", ntag.saturating_sub(1))).unwrap(), 2 => Tag::try_from(format!("a{ntag}")).unwrap(), _ => Tag::try_from(format!("A{ntag}")).unwrap() };
                let cmd = gen::command(&mut r, tag, &mut |r| r.size());
                let h = guarded(&["C03", "C01"], "Client::enqueue_command", || c.enqueue_command(cmd.clone()))?;
                t.op(|| format!("enqueue_command({cmd:?}) -> {h:?}"));
                if !HANDLES.lock().unwrap().get_or_insert_with(HashSet::new).insert(h) { return viol(&["H01", "C03"], format!("enqueue_command returned {h:?} a second time")); }
                m.queue.push_back((h, cmd));
            }
            90..=94 => {
                if m.cur.as_ref().map_or(true, |c| c.phase != Phase::AuthSet) && r.chance(60) { continue; }
                let d = gen::auth_data(&mut r);
                let got = guarded(&["C05"], "Client::set_authenticate_data", || c.set_authenticate_data(d.clone()))?;
                t.op(|| format!("set_authenticate_data -> {got:?}"));
                let exp = match m.cur.as_mut() { Some(c) if c.phase == Phase::AuthSet => { c.phase = Phase::AuthPush(AuthenticateDataCodec::default().encode(&d).dump()); Ok(c.h) } _ => Err(d) };
                if exp != got { return viol(&["C05"], format!("set_authenticate_data: expected {exp:?}, got {got:?}")); }
                t.note(if got.is_ok() { "set" } else { "unset" });
            }
            _ => {
                if m.cur.as_ref().map_or(true, |c| c.phase != Phase::IdleSet) && r.chance(60) { continue; }
                let got = guarded(&["C06"], "Client::set_idle_done", || c.set_idle_done())?;
                t.op(|| format!("set_idle_done() -> {got:?}"));
                let exp = match m.cur.as_mut() { Some(c) if c.phase == Phase::IdleSet => { c.phase = Phase::DonePush(IdleDoneCodec::default().encode(&IdleDone).dump()); Some(c.h) } _ => None };
                if exp != got { return viol(&["C06"], format!("set_idle_done: expected {exp:?}, got {got:?}")); }
                t.note(if got.is_some() { "done" } else { "undone" });
            }
        }
    }
    let _ = AuthenticateData::Cancel;
    Ok(())
}

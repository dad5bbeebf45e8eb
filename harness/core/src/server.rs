//! The server against an independent reference: every call's outcome is predicted from the history.
use crate::{gen, util::*};
use imap_codec::{decode::*, encode::*, *};
use imap_next::{server::{self, ResponseHandle, Server}, Interrupt, Io, State};
use imap_types::{auth::AuthenticateData, bounded_static::IntoBoundedStatic, command::*, core::*, response::*};
use std::{collections::{HashSet, VecDeque}, sync::Mutex};

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Ev { kind: &'static str, greeting: Option<Greeting<'static>>, handle: Option<ResponseHandle>, response: Option<Response<'static>>, command: Option<Command<'static>>, auth: Option<AuthenticateData<'static>>, tag: Option<Tag<'static>> }
#[derive(Clone, Debug, PartialEq)]
pub enum O { Out(Vec<u8>), Need, Ev(Ev), BadLf(Vec<u8>), Malformed(Vec<u8>), LitTooLong(Vec<u8>), TooLong(Vec<u8>) }
impl O { pub fn kind(&self) -> &'static str { match self { O::Out(_) => "out", O::Need => "need", O::Ev(e) => e.kind, O::BadLf(_) => "badlf", O::Malformed(_) => "malformed", O::LitTooLong(_) => "littoolong", O::TooLong(_) => "toolong" } } }
pub fn show_o(o: &O) -> String { match o { O::Out(b) => format!("Out({})", show(b)), O::BadLf(b) => format!("ExpectedCrlfGotLf({})", show(b)), O::Malformed(b) => format!("Malformed({})", show(b)),
    O::LitTooLong(b) => format!("LiteralTooLong({})", show(b)), O::TooLong(b) => format!("CommandTooLong({})", show(b)), o => { let s = format!("{o:?}"); s.replace("None", "-") } } }
fn ev_of(e: server::Event) -> Ev {
    use server::Event::*;
    let d = Ev::default();
    match e {
        GreetingSent { greeting } => Ev { kind: "GreetingSent", greeting: Some(greeting), ..d },
        ResponseSent { handle, response } => Ev { kind: "ResponseSent", handle: Some(handle), response: Some(response), ..d },
        CommandReceived { command } => Ev { kind: "CommandReceived", command: Some(command), ..d },
        CommandAuthenticateReceived { command_authenticate } => Ev { kind: "CommandAuthenticateReceived", command: Some(command_authenticate.into()), ..d },
        AuthenticateDataReceived { authenticate_data } => Ev { kind: "AuthenticateDataReceived", auth: Some(authenticate_data), ..d },
        IdleCommandReceived { tag } => Ev { kind: "IdleCommandReceived", tag: Some(tag), ..d },
        IdleDoneReceived => Ev { kind: "IdleDoneReceived", ..d },
    }
}
pub fn outcome(got: Result<server::Event, Interrupt<server::Error>>) -> O {
    match got {
        Ok(e) => O::Ev(ev_of(e)),
        Err(Interrupt::Io(Io::NeedMoreInput)) => O::Need,
        Err(Interrupt::Io(Io::Output(b))) => O::Out(b),
        Err(Interrupt::Error(server::Error::ExpectedCrlfGotLf { discarded_bytes: b })) => O::BadLf(b.declassify().to_vec()),
        Err(Interrupt::Error(server::Error::MalformedMessage { discarded_bytes: b })) => O::Malformed(b.declassify().to_vec()),
        Err(Interrupt::Error(server::Error::LiteralTooLong { discarded_bytes: b })) => O::LitTooLong(b.declassify().to_vec()),
        Err(Interrupt::Error(server::Error::CommandTooLong { discarded_bytes: b })) => O::TooLong(b.declassify().to_vec()),
    }
}
pub fn sent_kind(k: &str) -> bool { matches!(k, "GreetingSent" | "ResponseSent") }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode { Cmd, Auth, Wait, Done }
#[derive(Clone, Debug)]
enum Msg { Greeting(Greeting<'static>), Resp(Option<ResponseHandle>, Response<'static>) }
impl Msg {
    fn bytes(&self) -> Vec<u8> { match self { Msg::Greeting(g) => GreetingCodec::default().encode(g).dump(), Msg::Resp(_, r) => ResponseCodec::default().encode(r).dump() } }
    fn internal(&self) -> bool { matches!(self, Msg::Resp(None, _)) }
}
struct Ref { rx: Framer, mode: Mode, queue: VecDeque<Msg>, cur: Option<(Msg, Vec<u8>)>, max_lit: u32, accept: Text<'static>, reject: Text<'static>, lit: bool }
impl Ref {
    fn send(&mut self) -> Option<O> {
        loop {
            if let Some((_, rest)) = self.cur.as_mut() { if !rest.is_empty() { return Some(O::Out(std::mem::take(rest))); } }
            match self.cur.take() {
                Some((Msg::Greeting(g), _)) => return Some(O::Ev(Ev { kind: "GreetingSent", greeting: Some(g), ..Ev::default() })),
                Some((Msg::Resp(Some(h), r), _)) => return Some(O::Ev(Ev { kind: "ResponseSent", handle: Some(h), response: Some(r), ..Ev::default() })),
                _ => (),
            }
            let m = self.queue.pop_front()?;
            let b = m.bytes();
            self.cur = Some((m, b));
        }
    }
    fn recv(&mut self) -> Option<O> {
        if self.mode == Mode::Wait { return Some(O::Need); }
        let d = Ev::default();
        match self.rx.step() {
            Frame::Need => Some(O::Need),
            Frame::TooLong(e) => Some(O::TooLong(self.rx.take(e))),
            Frame::BadLf(e) => Some(O::BadLf(self.rx.take(e))),
            Frame::Line(e) => Some(match self.mode {
                Mode::Cmd => match CommandCodec::default().decode(self.rx.message(e)).map(|m| m.1.into_static()).map_err(|m| m.into_static()) {
                    Ok(c) => { self.rx.take(e); O::Ev(match c.body {
                        CommandBody::Authenticate { .. } => { self.mode = Mode::Auth; Ev { kind: "CommandAuthenticateReceived", command: Some(c), ..d } }
                        CommandBody::Idle => { self.mode = Mode::Wait; Ev { kind: "IdleCommandReceived", tag: Some(c.tag), ..d } }
                        _ => Ev { kind: "CommandReceived", command: Some(c), ..d } }) }
                    Err(CommandDecodeError::LiteralFound { tag, length, mode }) => {
                        self.lit = true;
                        if length > self.max_lit {
                            if mode == LiteralMode::Sync { self.queue.push_back(Msg::Resp(None, Response::Status(Status::bad(Some(tag), None, self.reject.clone()).unwrap()))); }
                            return Some(O::LitTooLong(self.rx.take(e)));
                        }
                        self.rx.literal(e, length as usize);
                        if mode == LiteralMode::Sync { self.queue.push_back(Msg::Resp(None, Response::CommandContinuationRequest(CommandContinuationRequest::basic(None, self.accept.clone()).unwrap()))); }
                        return None;
                    }
                    Err(_) => O::Malformed(self.rx.take(e)),
                },
                Mode::Auth => { let x = AuthenticateDataCodec::default().decode(self.rx.message(e)).map(|m| m.1.into_static()); let b = self.rx.take(e); match x { Ok(a) => O::Ev(Ev { kind: "AuthenticateDataReceived", auth: Some(a), ..d }), Err(_) => O::Malformed(b) } }
                _ => { let ok = IdleDoneCodec::default().decode(self.rx.message(e)).is_ok(); let b = self.rx.take(e); if ok { self.mode = Mode::Cmd; O::Ev(Ev { kind: "IdleDoneReceived", ..d }) } else { O::Malformed(b) } }
            }),
        }
    }
    fn next(&mut self) -> O { self.lit = false; loop { if let Some(o) = self.send() { return o; } if let Some(o) = self.recv() { return o; } } }
}
struct Before { internal: bool, sending: bool, mode: Mode, switched: bool, after_err: bool, in_lit: bool, custom: bool, special: bool, called: bool }
fn labels(b: &Before, exp: &O, got: Option<&O>) -> Vec<&'static str> {
    let mut l = Vec::new();
    let (ek, gk) = (exp.kind(), got.map_or("panic", |g| g.kind()));
    let mut add = |x: &'static str| if !l.contains(&x) { l.push(x) };
    if got.is_none() { add("F05"); }
    if ek == "out" || gk == "out" {
        if ek == "out" && gk == "out" { add("S01"); if b.internal { add("S03"); if b.custom { add("S06"); } } if b.special { add("S04"); } }
        else if ek == "out" { add("S01"); if b.internal { add("S03"); } if b.special { add("S04"); } if sent_kind(gk) { add("S02"); } }
        else if sent_kind(ek) { add("S02"); }
        else { add("S01"); add("S03"); if ek == "toolong" { add("F04"); } if ek == "badlf" { add("F02"); } }
        return l;
    }
    if sent_kind(ek) || sent_kind(gk) { add("S02"); return l; }
    if b.after_err { add("F05"); }
    if b.called { add("S04"); }
    if ek == "badlf" || gk == "badlf" { if ek == gk { add("F05"); add("F01"); if b.switched { add("S05"); } } else { add("F02"); if b.in_lit { add("F03"); } if b.mode != Mode::Cmd || b.switched { add("S05"); } if gk == "toolong" || ek == "toolong" { add("F04"); } } return l; }
    if ek == "toolong" || gk == "toolong" { add("F04"); if ek == gk { add("F05"); } if b.mode != Mode::Cmd || b.switched { add("S05"); } return l; }
    if ek == "littoolong" || gk == "littoolong" { add("S03"); if ek == gk { add("F05"); } if b.switched { add("S05"); } return l; }
    if b.mode != Mode::Cmd || b.switched { add("S05"); }
    match (ek, gk) {
        ("malformed", "malformed") => { add("F05"); add("F03"); add("F01"); }
        ("malformed", _) | (_, "malformed") => { add("F03"); if ek == "need" || gk == "need" { add("F01"); } }
        ("need", _) | (_, "need") => { add("F01"); if b.in_lit { add("F03"); add("S03"); } }
        _ => { add("F03"); add("F01"); }
    }
    let _ = b.sending;
    l
}
pub static HANDLES: Mutex<Option<HashSet<ResponseHandle>>> = Mutex::new(None);

fn any_text(r: &mut Rng) -> String {
    match r.below(10) {
        8 => { let n = r.range(1, 12); (0..n).map(|_| r.range(1, 126) as u8 as char).filter(|c| !"\r\n".contains(*c) || n == 12).collect() }
        9 => { let n = r.range(1, 600); (0..n).map(|_| r.range(32, 126) as u8 as char).collect() }
        0 => String::new(), 1 => "abcd".into(), 2 => "a\r\nb".into(), 3 => "[x] y".into(), 4 => "AAAA".into(), 5 => "ünï".into(), 6 => "...".into(),
        _ => { let n = r.below(10); (0..n).map(|_| *r.pick(b"abA=+/ .[\r") as char).collect() }
    }
}
pub fn case(seed: u64, t: &mut Trace) -> Result<(), Viol> {
    let mut r = Rng::new(seed);
    let relaxed = r.chance(35);
    let mut opt = server::Options::default();
    opt.crlf_relaxed = relaxed;
    let size_kind = r.below(40);
    let unlimited = size_kind == 39 && r.chance(50);
    match size_kind {
        0..=29 => { opt.max_command_size = match r.below(8) { 0 => r.range(1, 12) as u32, _ => r.range(12, 130) as u32 }; opt.max_literal_size = r.below(60) as u32; }
        30..=37 => { opt.max_command_size = r.range(300, 9000) as u32; opt.max_literal_size = r.below(6000) as u32; }
        _ => if unlimited { opt.max_literal_size = u32::MAX - r.below(2) as u32; if r.chance(50) { opt.max_command_size = u32::MAX; } },
    }
    t.op(|| format!("Options {{ crlf_relaxed: {relaxed}, max_command_size: {}, max_literal_size: {} }}", opt.max_command_size, opt.max_literal_size));
    let mut texts = ["...".to_string(), "...".to_string()];
    let mut custom = false;
    for _ in 0..r.below(4) {
        let which = r.below(2) as usize;
        let s = any_text(&mut r);
        let valid = CommandContinuationRequestBasic::new(None, s.as_str()).is_ok();
        let before = opt.clone();
        let got = guarded(&["S06"], "set_literal_*_text", || if which == 0 { opt.set_literal_accept_text(s.clone()) } else { opt.set_literal_reject_text(s.clone()) })?;
        t.op(|| format!("set_literal_{}_text({s:?}) -> {got:?}", ["accept", "reject"][which]));
        if valid { texts[which] = s.clone(); custom = true; }
        if got != if valid { Ok(()) } else { Err(s.clone()) } { return viol(&["S06"], format!("setting the text {s:?} gave {got:?}")); }
        let now = guarded(&["S06"], "literal_*_text", || [opt.literal_accept_text().inner().to_string(), opt.literal_reject_text().inner().to_string()])?;
        if now != texts || (!valid && opt != before) || (opt.crlf_relaxed, opt.max_command_size, opt.max_literal_size) != (before.crlf_relaxed, before.max_command_size, before.max_literal_size) { return viol(&["S06"], format!("after setting {s:?} the options are {opt:?}, expected texts {texts:?}")); }
        t.note(if valid { "text" } else { "notext" });
    }
    let (maxc, maxl) = (opt.max_command_size as usize, opt.max_literal_size);
    let g = gen::greeting(&mut r);
    let mut m = Ref { rx: Framer::new(relaxed, Some(maxc)), mode: Mode::Cmd, queue: VecDeque::from([Msg::Greeting(g.clone())]), cur: None, max_lit: maxl, accept: Text::try_from(texts[0].clone()).unwrap(), reject: Text::try_from(texts[1].clone()).unwrap(), lit: false };
    let mut s = guarded(&["F05"], "Server::new", || Server::new(opt, g))?;
    let mut wire: VecDeque<u8> = VecDeque::new();
    let steps = r.range(10, 120);
    let (mut i, mut quiet, mut after_err, mut switched, mut ntag) = (0u64, 0u64, false, false, 0u64);
    let polite = r.chance(60);
    // answers that were enqueued by the calls for AUTHENTICATE and IDLE; the last switch of the mode was due to such a call
    let (mut special, mut called) = (HashSet::new(), false);
    loop {
        i += 1;
        if i > steps && quiet > 3 { break; }
        if i > steps + 3000 { break; }
        let drain = i > steps;
        let op = if drain { if wire.is_empty() { quiet += if m.mode == Mode::Wait { 1 } else { 0 }; 0 } else { 45 + (i % 2) * 20 } } else { r.below(100) };
        match op {
            0..=49 => {
                let mode = m.mode;
                let in_lit = m.rx.lit > 0;
                let sending = m.cur.is_some();
                let exp = m.next();
                // a pending internal confirmation is silent: what counts is what is handed out now
                let b = Before { internal: matches!(&exp, O::Out(_)) && m.cur.as_ref().map_or(false, |c| c.0.internal()), sending, mode, switched, after_err, in_lit: in_lit || m.lit, custom, special: m.cur.as_ref().is_some_and(|c| matches!(c.0, Msg::Resp(Some(h), _) if special.contains(&h))), called };
                let mut pl = labels(&b, &exp, None);
                match &exp { O::Ev(e) if sent_kind(e.kind) => pl.push("S02"), _ => () }
                let by_ref = r.chance(10);
                let got = guarded(&pl, "Server::next", || if by_ref { State::next(&mut &mut s) } else { s.next() })?;
                let got = outcome(got);
                t.op(|| format!("next() -> {}", show_o(&got)));
                t.note(got.kind());
                if exp != got {
                    if let (O::Out(a), O::Out(b)) = (&exp, &got) { if !b.is_empty() && a.len() > b.len() && a.starts_with(b) { m.cur.as_mut().unwrap().1 = a[b.len()..].to_vec(); continue; }
                        // several messages at once are fine as long as nothing awaits its confirmation
                        if b.len() > a.len() && b.starts_with(a) {
                            let mut rest = b[a.len()..].to_vec();
                            let mut unconfirmed = false;
                            while !rest.is_empty() {
                                let Some(n) = m.queue.pop_front() else { break };
                                unconfirmed |= !m.cur.as_ref().unwrap().0.internal();
                                let bytes = n.bytes();
                                let k = bytes.len().min(rest.len());
                                if bytes[..k] != rest[..k] { break; }
                                rest.drain(..k);
                                m.cur = Some((n, bytes[k..].to_vec()));
                            }
                            if rest.is_empty() { if unconfirmed { return viol(&["S02"], format!("poll: expected {}, got {}: handed out before the confirmation of what precedes it", show_o(&exp), show_o(&got))); } continue; }
                        }
                    }
                    return viol(&labels(&b, &exp, Some(&got)), format!("poll: expected {}, got {}", show_o(&exp), show_o(&got)));
                }
                let err = matches!(got, O::BadLf(_) | O::Malformed(_) | O::LitTooLong(_) | O::TooLong(_));
                after_err = err || (after_err && (matches!(got, O::Need | O::Out(_)) || sent_kind(got.kind())));
                if m.mode != mode { switched = true; called = false; } else if !matches!(got, O::Need | O::Out(_)) && !sent_kind(got.kind()) { switched = false; called = false; }
                quiet = if got == O::Need { quiet + 1 } else { 0 };
            }
            50..=76 => {
                if wire.is_empty() && !drain {
                    ntag += 1;
                    let b = match m.mode {
                        Mode::Auth if r.chance(85) => AuthenticateDataCodec::default().encode(&gen::auth_data(&mut r)).dump(),
                        Mode::Done | Mode::Wait if r.chance(60) => b"DONE\r\n".to_vec(),
                        _ => {
                            let tag = Tag::try_from(format!("A{ntag}")).unwrap();
                            let mut around = |r: &mut Rng| match r.below(6) { 0 => maxl as usize, 1 => maxl as usize + 1, 2 => (maxl as usize).saturating_sub(1), _ => r.below(12) as usize }.min(20_000);
                            let c = gen::command(&mut r, tag.clone(), &mut around);
                            let mut b = CommandCodec::default().encode(&c).dump();
                            if size_kind >= 38 && r.chance(30) { let n = maxl as u64 + r.below(3) - 1; b = format!("A{ntag} RAW {{{n}{}}}\r\n", if r.chance(50) { "+" } else { "" }).into_bytes(); }
                            if r.chance(2) { let n = *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, (1 << 24) + 1, 65536]); b = format!("A{ntag} RAW {{{n}{}}}\r\n", if r.chance(50) { "+" } else { "" }).into_bytes(); }
                            // sizes around the limit
                            if maxc < 20_000 && r.chance(35) {
                                let want = (maxc + r.range(0, 4) as usize).saturating_sub(2);
                                let have = b.len();
                                if have + 2 <= want && b.ends_with(b"\r\n") && matches!(c.body, CommandBody::Raw { .. }) && !b.ends_with(b"}\r\n") { b.truncate(have - 2); b.push(b' '); b.extend(vec![b'x'; want - have - 1]); b.extend(b"\r\n"); }
                                else if want > 8 { b = format!("A RAW {}\r\n", "y".repeat(want - 8)).into_bytes(); }
                            }
                            if r.chance(30) { let more = CommandCodec::default().encode(&gen::command(&mut r, tag, &mut around)).dump(); b.extend(more); }
                            b
                        }
                    };
                    wire.extend(gen::spoil(&mut r, b));
                }
                let n = if drain { wire.len() } else { chunk(&mut r, wire.len()) };
                let b: Vec<u8> = wire.drain(..n).collect();
                t.op(|| format!("enqueue_input({})", show(&b)));
                m.rx.buf.extend(&b);
                guarded(&["F05", "F01", "S05"], "Server::enqueue_input", || s.enqueue_input(&b))?;
            }
            _ => {
                let mode = m.mode;
                let plain = 90 - if polite && mode != Mode::Cmd { 8 } else { 0 };
                let mut h = None;
                match op {
                    77..=81 => { let d = gen::data(&mut r); let x = guarded(&["S01"], "enqueue_data", || s.enqueue_data(d.clone()))?; t.op(|| format!("enqueue_data({d:?}) -> {x:?}")); m.queue.push_back(Msg::Resp(Some(x), Response::Data(d))); h = Some(x); }
                    82..=84 => { let d = gen::status(&mut r, None); let x = guarded(&["S01"], "enqueue_status", || s.enqueue_status(d.clone()))?; t.op(|| format!("enqueue_status({d:?}) -> {x:?}")); m.queue.push_back(Msg::Resp(Some(x), Response::Status(d))); h = Some(x); }
                    85 | 86 => { let d = gen::ccr(&mut r); let x = guarded(&["S01"], "enqueue_continuation_request", || s.enqueue_continuation_request(d.clone()))?; t.op(|| format!("enqueue_continuation_request({d:?}) -> {x:?}")); m.queue.push_back(Msg::Resp(Some(x), Response::CommandContinuationRequest(d))); h = Some(x); }
                    _ => {
                        let want = match mode { Mode::Auth if r.chance(70) => r.below(2), Mode::Wait if r.chance(75) => 2 + r.below(2), _ => r.below(4) };
                        let apt = match mode { Mode::Auth => want < 2, Mode::Wait => want >= 2, _ => false };
                        if !apt && (op as u64) < plain && r.chance(40) { continue; }
                        if want == 0 || want == 2 {
                            let d = gen::ccr(&mut r);
                            let x = guarded(&["S04"], "authenticate_continue / idle_accept", || if want == 0 { s.authenticate_continue(d.clone()) } else { s.idle_accept(d.clone()) })?;
                            t.op(|| format!("{}({d:?}) -> {x:?}", if want == 0 { "authenticate_continue" } else { "idle_accept" }));
                            match x { Ok(x) if apt => { h = Some(x); m.queue.push_back(Msg::Resp(Some(x), Response::CommandContinuationRequest(d))); if want == 2 { m.mode = Mode::Done; } } Err(e) if !apt && e == d => (), x => return viol(&["S04"], format!("continuation {d:?} in mode {mode:?} gave {x:?}")) }
                        } else {
                            let tag = Some(Tag::try_from(gen::word(&mut r)).unwrap());
                            let d = gen::status(&mut r, tag);
                            let x = guarded(&["S04"], "authenticate_finish / idle_reject", || if want == 1 { s.authenticate_finish(d.clone()) } else { s.idle_reject(d.clone()) })?;
                            t.op(|| format!("{}({d:?}) -> {x:?}", if want == 1 { "authenticate_finish" } else { "idle_reject" }));
                            match x { Ok(x) if apt => { h = Some(x); m.queue.push_back(Msg::Resp(Some(x), Response::Status(d))); m.mode = Mode::Cmd; } Err(e) if !apt && e == d => (), x => return viol(&["S04"], format!("status {d:?} in mode {mode:?} gave {x:?}")) }
                        }
                        t.note(if apt { "moved" } else { "refused" });
                        if m.mode != mode { switched = true; called = true; }
                        if let Some(h) = h { special.insert(h); }
                    }
                }
                if let Some(h) = h { if !HANDLES.lock().unwrap().get_or_insert_with(HashSet::new).insert(h) { return viol(&["H01", "S02"], format!("handle {h:?} was returned a second time")); } }
                if drain { quiet = 0; }
            }
        }
    }
    Ok(())
}

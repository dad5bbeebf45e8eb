// ---- prelude: every history of a client, judged from outside (lemmas over the contracts, nothing assumed) ----
pub mod client_history {
use vstd::prelude::*;
use crate::imap_types::{core::*, command::*, response::*, auth::*, extensions::idle::*};
use crate::imap_codec::*;
use crate::imap_codec::encode::*;
use crate::imap_codec::decode::*;
use crate::types::CommandAuthenticate;
use crate::client_send::*;
use crate::client::*;
use crate::receive::*;
verus!{

/// What is done with a client: polling it, or a call of the user. The handle is the one that the call returned.
pub enum Op { Poll, Input(Seq<u8>), Enqueue(CommandHandle, Command<'static>), SetData(AuthenticateData<'static>), SetDone }

/// What an observer notes down: nothing of it is taken from the client's state, only from calls, peer bytes and outcomes.
pub struct M {
    pub relaxed: bool,
    pub greeted: bool,                 // a greeting was reported
    pub enq: Seq<QueuedMessage>,       // all commands enqueued, with the handles returned
    pub k: nat,                        // how many of them ended; the k-th one is next, or being sent
    pub out: Seq<u8>,                  // what was handed out for the k-th one
    pub extra: Seq<u8>,                // authentication data and DONE accepted from the user for it
    pub released: nat,                 // go-aheads of the server for its literals
    pub started: bool,                 // AUTHENTICATE or IDLE was reported as sent
    pub chal: bool,                    // the server sent a challenge, or accepted IDLE, and the user did not react yet
    pub done: bool,                    // the user asked for DONE
    pub fed: Seq<u8>,                  // all bytes of the peer
    pub used: Seq<u8>,                 // those that belong to messages received or discarded
    pub log: Seq<Recv>,                // what was received, in order
}
pub open spec fn start(relaxed: bool) -> M {
    M { relaxed, greeted: false, enq: Seq::empty(), k: 0, out: Seq::empty(), extra: Seq::empty(), released: 0, started: false, chal: false, done: false,
        fed: Seq::empty(), used: Seq::empty(), log: Seq::empty() }
}
/// Fragments up to, not including, the (n+1)th literal that has to be let through.
pub open spec fn limit(fr: Seq<FragV>, n: nat) -> nat
    decreases n
{
    if n == 0 { sendable(fr) } else {
        let l = limit(fr, (n - 1) as nat);
        if l < fr.len() { (l + 1 + sendable(fr.skip(l as int + 1))) as nat } else { l }
    }
}
impl M {
    pub open spec fn any(self) -> bool { self.k < self.enq.len() }
    pub open spec fn handle(self) -> CommandHandle { self.enq[self.k as int].handle }
    pub open spec fn cmd(self) -> Command<'static> { self.enq[self.k as int].command }
    pub open spec fn frs(self) -> Seq<FragV> { enc_command(self.cmd()) }
    pub open spec fn is_auth(self) -> bool { self.any() && self.cmd().body is Authenticate }
    pub open spec fn is_idle(self) -> bool { self.any() && self.cmd().body is Idle }
    pub open spec fn is_plain(self) -> bool { self.any() && !(self.cmd().body is Authenticate) && !(self.cmd().body is Idle) }
    /// a command is being sent: some of its bytes were handed out
    pub open spec fn in_flight(self) -> bool { self.any() && self.out.len() > 0 }
    /// all there is to send for the command, as things are
    pub open spec fn whole(self) -> Seq<u8> { flat(self.frs()) + self.extra }
    pub open spec fn lim(self) -> nat { limit(self.frs(), self.released) }
    /// what may be sent of it without waiting for the server
    pub open spec fn allowed(self) -> Seq<u8> { flat(self.frs().take(self.lim() as int)) + self.extra }
    /// a literal waits for the go-ahead, everything up to its announcement was handed out
    pub open spec fn waits(self) -> bool { self.in_flight() && self.lim() < self.frs().len() && self.out == self.allowed() }
    pub open spec fn auth(self) -> CommandAuthenticate {
        CommandAuthenticate { tag: self.cmd().tag, mechanism: self.cmd().body->Authenticate_mechanism, initial_response: self.cmd().body->Authenticate_initial_response }
    }
    /// the command ended
    pub open spec fn over(self) -> M { M { k: self.k + 1, out: Seq::empty(), extra: Seq::empty(), released: 0, started: false, chal: false, done: false, ..self } }
    /// C07: the status ends the command being sent
    pub open spec fn killed_by(self, s: Status<'static>) -> bool {
        self.in_flight() && match s { Status::Tagged(t) => t.tag == self.cmd().tag && (self.is_plain() ==> t.body.kind == StatusKind::Bad), _ => false }
    }
}
/// What a poll takes off the buffered bytes, if it gets to that.
pub open spec fn got(c: CV) -> Recv { if send_step(c).1 != Out::Nothing { Recv::Need } else { recv(c.greeted, c.relaxed, c.buf) } }
pub open spec fn got_resp(g: Recv) -> Option<Response<'static>> { match g { Recv::Resp(_, r) => Some(r), _ => None } }
pub open spec fn len_of(g: Recv) -> nat { match g { Recv::Need => 0, Recv::BadLf(n) => n, Recv::Malformed(n) => n, Recv::Greet(n, _) => n, Recv::Resp(n, _) => n } }
/// the go-ahead for a literal was received
pub open spec fn go_ahead(m: M, g: Recv) -> bool { got_resp(g) matches Some(Response::CommandContinuationRequest(_)) && m.waits() }
pub open spec fn note_got(m: M, g: Recv) -> M {
    let n = len_of(g) as int;
    let m = M { used: m.used + m.fed.skip(m.used.len() as int).take(n), log: if g is Need { m.log } else { m.log.push(g) }, ..m };
    if go_ahead(m, g) { M { released: m.released + 1, ..m } } else { m }
}
/// The observer's notes after a poll in which `g` was received and that answered `o`.
pub open spec fn note(m: M, g: Recv, o: Out) -> M {
    let m = note_got(m, g);
    match o {
        Out::Bytes(b) => M { out: m.out + b, ..m },
        Out::Ev(e) => match e {
            Event::GreetingReceived { .. } => M { greeted: true, ..m },
            Event::CommandSent { .. } => m.over(),
            Event::IdleDoneSent { .. } => m.over(),
            Event::CommandRejected { .. } => m.over(),
            Event::AuthenticateStatusReceived { .. } => m.over(),
            Event::IdleRejected { .. } => m.over(),
            Event::AuthenticateStarted { .. } => M { started: true, ..m },
            Event::IdleCommandSent { .. } => M { started: true, ..m },
            Event::AuthenticateContinuationRequestReceived { .. } => M { chal: true, ..m },
            Event::IdleAccepted { .. } => M { chal: true, ..m },
            _ => m,
        },
        _ => m,
    }
}
pub open spec fn is_prefix(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && a == b.take(a.len() as int) }

/// C01: what is handed out continues the encoding of the command that is next, followed by the data accepted for it; only a command
/// that was sent completely is reported as sent, and then the next one follows; nothing is ever held back for good.
pub open spec fn c01(m: M, g: Recv, o: Out) -> bool {
    let m1 = note_got(m, g);
    match o {
        Out::Bytes(b) => m.any() && b.len() > 0 && is_prefix(m.out + b, m.whole()),
        Out::Ev(Event::CommandSent { .. }) => m.any() && m.out == m.whole(),
        Out::Ev(Event::IdleDoneSent { .. }) => m.any() && m.out == m.whole(),
        Out::Need => m.greeted && m.any() ==> m.out == m1.allowed() && (m.extra.len() > 0 ==> m.out == m.whole()),
        _ => true,
    }
}
/// C02: nothing from a synchronizing literal on before its go-ahead, which counts only after all before it was handed out; and nothing else is held back.
pub open spec fn c02(m: M, g: Recv, o: Out) -> bool {
    let m1 = note_got(m, g);
    match o {
        Out::Bytes(b) => m.any() && is_prefix(m.out + b, m1.allowed()),
        Out::Need => m.greeted && m.any() ==> m.out == m.allowed(),
        _ => true,
    }
}
/// C03: the report that a command was sent comes after its last byte, once, with its own handle and content.
pub open spec fn c03(m: M, g: Recv, o: Out) -> bool {
    match o {
        Out::Ev(e) => match e {
            Event::CommandSent { handle, command } => g is Need && m.is_plain() && m.in_flight() && handle == m.handle() && command == m.cmd() && m.out == m.whole(),
            Event::AuthenticateStarted { handle } => g is Need && m.is_auth() && m.in_flight() && handle == m.handle() && m.out == m.whole() && !m.started,
            Event::IdleCommandSent { handle } => g is Need && m.is_idle() && m.in_flight() && handle == m.handle() && m.out == m.whole() && !m.started,
            Event::IdleDoneSent { handle } => g is Need && m.is_idle() && m.in_flight() && handle == m.handle() && m.out == m.whole() && m.started && m.done,
            Event::CommandRejected { handle, command, .. } => m.is_plain() && m.in_flight() && handle == m.handle() && command == m.cmd(),
            Event::AuthenticateStatusReceived { handle, command_authenticate, .. } => m.is_auth() && m.in_flight() && handle == m.handle() && command_authenticate == m.auth(),
            Event::IdleRejected { handle, .. } => m.is_idle() && m.in_flight() && handle == m.handle(),
            _ => true,
        },
        // and the report does not stay out
        Out::Need => m.greeted && m.any() ==> if m.is_plain() { m.out != m.whole() } else { m.started && !(m.done && m.out == m.whole()) },
        _ => true,
    }
}
/// C04: silence until the greeting, which is the only one.
pub open spec fn c04(m: M, g: Recv, o: Out) -> bool {
    &&& !m.greeted ==> match o { Out::Need => true, Out::BadLf(_) => true, Out::Malformed(_) => true, Out::Ev(Event::GreetingReceived { .. }) => true, _ => false }
    &&& m.greeted ==> !(o matches Out::Ev(Event::GreetingReceived { .. }))
    &&& (o matches Out::Ev(Event::GreetingReceived { .. })) == (g is Greet)
}
/// C05: a continuation request is a challenge exactly while the client waits for one.
pub open spec fn c05(m: M, g: Recv, o: Out) -> bool {
    (o matches Out::Ev(Event::AuthenticateContinuationRequestReceived { .. }))
        == (got_resp(g) matches Some(Response::CommandContinuationRequest(_)) && m.is_auth() && m.in_flight() && m.started && !m.chal && m.out == m.whole())
    && match o { Out::Ev(Event::AuthenticateContinuationRequestReceived { handle, continuation_request }) => handle == m.handle() && got_resp(g) == Some(Response::CommandContinuationRequest(continuation_request)), _ => true }
}
/// C06: a continuation request accepts IDLE exactly after IDLE was sent completely and before it was accepted.
pub open spec fn c06(m: M, g: Recv, o: Out) -> bool {
    (o matches Out::Ev(Event::IdleAccepted { .. }))
        == (got_resp(g) matches Some(Response::CommandContinuationRequest(_)) && m.is_idle() && m.in_flight() && m.started && !m.chal && !m.done && m.out == m.whole())
    && match o { Out::Ev(Event::IdleAccepted { handle, continuation_request }) => handle == m.handle() && got_resp(g) == Some(Response::CommandContinuationRequest(continuation_request)), _ => true }
}
/// C07: exactly the status with the tag of the message being sent (for a plain command: BAD) ends it.
pub open spec fn c07(m: M, g: Recv, o: Out) -> bool {
    &&& match got_resp(g) {
        Some(Response::Status(s)) => o == Out::Ev(if m.killed_by(s) {
                if m.is_plain() { Event::CommandRejected { handle: m.handle(), command: m.cmd(), status: s } }
                else if m.is_auth() { Event::AuthenticateStatusReceived { handle: m.handle(), command_authenticate: m.auth(), status: s } }
                else { Event::IdleRejected { handle: m.handle(), status: s } }
            } else { Event::StatusReceived { status: s } }),
        _ => match o {
            Out::Ev(Event::CommandRejected { .. }) => false, Out::Ev(Event::AuthenticateStatusReceived { .. }) => false, Out::Ev(Event::IdleRejected { .. }) => false,
            Out::Ev(Event::StatusReceived { .. }) => false, _ => true },
    }
}
/// C08: what is received is reported, as it is, once; but the go-ahead for a literal.
pub open spec fn c08(m: M, g: Recv, o: Out) -> bool {
    match got_resp(g) {
        Some(Response::Data(d)) => o == Out::Ev(Event::DataReceived { data: d }),
        Some(Response::Status(s)) => match o {
            Out::Ev(Event::StatusReceived { status }) => status == s, Out::Ev(Event::CommandRejected { status, .. }) => status == s,
            Out::Ev(Event::AuthenticateStatusReceived { status, .. }) => status == s, Out::Ev(Event::IdleRejected { status, .. }) => status == s,
            _ => false },
        Some(Response::CommandContinuationRequest(c)) => if m.waits() { o is Bytes } else { match o {
            Out::Ev(Event::ContinuationRequestReceived { continuation_request }) => continuation_request == c,
            Out::Ev(Event::AuthenticateContinuationRequestReceived { continuation_request, .. }) => continuation_request == c,
            Out::Ev(Event::IdleAccepted { continuation_request, .. }) => continuation_request == c,
            _ => false } },
        None => match o {
            Out::Ev(Event::DataReceived { .. }) => false, Out::Ev(Event::ContinuationRequestReceived { .. }) => false, _ => true },
    }
}
/// What a stream of bytes contains, whatever the pieces in which it arrives.
pub open spec fn parse(greeted: bool, relaxed: bool, b: Seq<u8>) -> Seq<Recv>
    decreases b.len()
{
    let g = recv(greeted, relaxed, b);
    let n = len_of(g);
    if g is Need || n == 0 || n > b.len() { Seq::empty() }
    else { seq![g] + parse(greeted || g is Greet, relaxed, b.skip(n as int)) }
}
/// F01 (and F05): what was received so far and what the buffered bytes still hold is what the stream as a whole contains; every
/// byte belongs to one message; asking for more input means that everything there was reported.
pub open spec fn f01(m: M, g: Recv, o: Out) -> bool {
    let m1 = note(m, g, o);
    &&& is_prefix(m1.used, m1.fed)
    &&& m1.log + parse(m1.greeted, m1.relaxed, m1.fed.skip(m1.used.len() as int)) == parse(false, m1.relaxed, m1.fed)
    &&& o is Need ==> m1.log == parse(false, m1.relaxed, m1.fed)
    &&& match o {
        Out::BadLf(x) => g is BadLf && x == m.fed.skip(m.used.len() as int).take(len_of(g) as int) && x.len() > 0,
        Out::Malformed(x) => g is Malformed && x == m.fed.skip(m.used.len() as int).take(len_of(g) as int) && x.len() > 0,
        Out::Ev(Event::GreetingReceived { greeting }) => g == Recv::Greet(len_of(g), greeting),
        _ => !(g is BadLf || g is Malformed || g is Greet),
    }
}
pub open spec fn poll_ok(m: M, g: Recv, o: Out) -> bool {
    c01(m, g, o) && c02(m, g, o) && c03(m, g, o) && c04(m, g, o) && c05(m, g, o) && c06(m, g, o) && c07(m, g, o) && c08(m, g, o) && f01(m, g, o)
}
/// C05, C06: the user's data or DONE is accepted exactly when it is asked for.
pub open spec fn wants_data(m: M) -> bool { m.is_auth() && m.chal }
pub open spec fn wants_done(m: M) -> bool { m.is_idle() && m.chal }
/// The client's answer to the user's call, as in the contracts of `set_authenticate_data` and `set_idle_done`.
pub open spec fn accepts_data(c: CV) -> bool { c.cur is Some && c.cur->0.what is Auth && c.cur->0.phase is Input }
pub open spec fn accepts_done(c: CV) -> bool { c.cur is Some && c.cur->0.what is Idle && c.cur->0.phase is Input }

/// One operation: the client afterwards, the notes afterwards, and whether everything was as it should be.
pub open spec fn op_step(c: CV, m: M, op: Op) -> (CV, M, bool) {
    match op {
        Op::Poll => { let (c1, o) = next_step(c); (c1, note(m, got(c), o), poll_ok(m, got(c), o)) }
        Op::Input(b) => (CV { buf: c.buf + b, ..c }, M { fed: m.fed + b, ..m }, true),
        Op::Enqueue(handle, command) => { let q = QueuedMessage { handle, command }; (CV { queue: c.queue.push(q), ..c }, M { enq: m.enq.push(q), ..m }, true) }
        Op::SetData(d) => (set_data(c, d), if accepts_data(c) { M { extra: m.extra + flat(enc_auth(d)), chal: false, ..m } } else { m },
            accepts_data(c) == wants_data(m) && (accepts_data(c) ==> c.cur->0.handle == m.handle())),
        Op::SetDone => (set_done(c), if accepts_done(c) { M { extra: m.extra + flat(enc_done(IdleDone)), chal: false, done: true, ..m } } else { m },
            accepts_done(c) == wants_done(m) && (accepts_done(c) ==> c.cur->0.handle == m.handle())),
    }
}
/// As promised by the contract of `encode`.
pub open spec fn op_wf(op: Op) -> bool {
    match op {
        Op::Enqueue(_, command) => <CommandCodec as Encoder>::shape(command),
        Op::SetData(d) => <AuthenticateDataCodec as Encoder>::shape(d),
        Op::SetDone => <IdleDoneCodec as Encoder>::shape(IdleDone),
        _ => true,
    }
}
pub open spec fn all_ok(c: CV, m: M, ops: Seq<Op>) -> bool
    decreases ops.len()
{
    ops.len() == 0 || { let (c1, m1, ok) = op_step(c, m, ops[0]); ok && all_ok(c1, m1, ops.skip(1)) }
}

// ---- the connection between the notes and the client ----
pub open spec fn unheld(p: Seq<FragV>) -> Seq<FragV> { p.update(0, FragV { sync: false, ..p[0] }) }
pub open spec fn rel_cmd(m: M, j: Job) -> bool {
    let fr = m.frs();
    &&& m.extra.len() == 0 && !m.started && !m.chal && !m.done && j.first
    &&& match j.phase {
        Phase::Push => false,
        Phase::Flushed => m.out == m.allowed() && j.pend == fr.skip(m.lim() as int),
        Phase::Await => m.out == m.allowed() && j.pend == fr.skip(m.lim() as int) && j.pend.len() > 0,
        Phase::Input => false,
    }
}
pub open spec fn rel_auth(m: M, j: Job) -> bool {
    &&& m.released == 0 && !m.done && j.first == !m.started
    &&& match j.phase {
        Phase::Push => m.started && !m.chal && j.pend.len() == 1 && one_line(j.pend) && m.out + flat(j.pend) == m.whole(),
        Phase::Flushed => m.out == m.whole() && !m.chal && (j.first ==> m.extra.len() == 0),
        Phase::Await => m.out == m.whole() && !m.chal && m.started,
        Phase::Input => m.out == m.whole() && m.chal && m.started,
    }
}
pub open spec fn rel_idle(m: M, j: Job) -> bool {
    &&& m.released == 0 && (j.first ==> m.extra.len() == 0) && m.done == !j.first
    &&& match j.phase {
        Phase::Push => m.started && !m.chal && !j.first && one_line(j.pend) && m.out + flat(j.pend) == m.whole(),
        Phase::Flushed => m.out == m.whole() && !m.chal && m.started == !j.first,
        Phase::Await => m.out == m.whole() && !m.chal && m.started && j.first,
        Phase::Input => m.out == m.whole() && m.chal && m.started && j.first,
    }
}
pub open spec fn rel_send(m: M, c: CV) -> bool {
    &&& m.greeted == c.greeted && m.k <= m.enq.len()
    &&& forall|i: int| 0 <= i < m.enq.len() ==> <CommandCodec as Encoder>::shape((#[trigger] m.enq[i]).command)
    &&& match c.cur {
        None => c.queue == m.enq.skip(m.k as int) && m.out.len() == 0 && m.extra.len() == 0 && m.released == 0 && !m.started && !m.chal && !m.done,
        Some(j) => {
            &&& m.greeted && m.any() && m.out.len() > 0
            &&& c.queue == m.enq.skip(m.k as int + 1)
            &&& j.handle == m.handle() && j.what == start_job(m.handle(), m.cmd()).what && j.ok()
            &&& match j.what { What::Cmd(_) => rel_cmd(m, j), What::Auth(_) => rel_auth(m, j), What::Idle(_) => rel_idle(m, j) }
        }
    }
}
pub open spec fn rel_recv(m: M, c: CV) -> bool {
    &&& m.relaxed == c.relaxed && m.greeted == c.greeted
    &&& m.fed == m.used + c.buf
    &&& continues(m.log, m.greeted, m.relaxed, c.buf, m.fed)
}
/// whatever follows: what was received, and then what the buffered bytes hold, is what the stream holds
#[verifier::opaque]
pub open spec fn continues(log: Seq<Recv>, greeted: bool, relaxed: bool, buf: Seq<u8>, fed: Seq<u8>) -> bool {
    forall|more: Seq<u8>| log + #[trigger] parse(greeted, relaxed, buf + more) == parse(false, relaxed, fed + more)
}
pub open spec fn rel(m: M, c: CV) -> bool { rel_send(m, c) && rel_recv(m, c) }

pub proof fn lemma_limit(fr: Seq<FragV>, n: nat)
    ensures limit(fr, n) <= fr.len(), limit(fr, n) < fr.len() ==> held(fr[limit(fr, n) as int]),
    decreases n
{
    if n == 0 { lemma_sendable(fr); } else {
        lemma_limit(fr, (n - 1) as nat);
        let l = limit(fr, (n - 1) as nat);
        if l < fr.len() { lemma_sendable(fr.skip(l as int + 1)); }
    }
}
pub proof fn lemma_flat_unheld(p: Seq<FragV>, n: int)
    requires 0 < n <= p.len(),
    ensures flat(unheld(p).take(n)) == flat(p.take(n)),
{
    assert(unheld(p).take(n).skip(1) =~= p.take(n).skip(1));
    assert(unheld(p).take(n)[0].data == p.take(n)[0].data);
}
/// What goes out after the go-ahead: everything up to the next literal that has to be let through.
pub proof fn lemma_release(fr: Seq<FragV>, n: nat)
    requires limit(fr, n) < fr.len(),
    ensures
        sendable(unheld(fr.skip(limit(fr, n) as int))) == limit(fr, n + 1) - limit(fr, n),
        flat(fr.take(limit(fr, n) as int)) + flat(unheld(fr.skip(limit(fr, n) as int)).take(limit(fr, n + 1) - limit(fr, n))) == flat(fr.take(limit(fr, n + 1) as int)),
        unheld(fr.skip(limit(fr, n) as int)).skip(limit(fr, n + 1) - limit(fr, n)) == fr.skip(limit(fr, n + 1) as int),
        limit(fr, n) < limit(fr, n + 1) <= fr.len(),
{
    lemma_limit(fr, n);
    lemma_limit(fr, n + 1);
    let l = limit(fr, n) as int;
    let l2 = limit(fr, n + 1) as int;
    let p = fr.skip(l);
    assert(unheld(p).skip(1) =~= fr.skip(l + 1));
    lemma_flat_unheld(p, l2 - l);
    assert(fr.take(l2) =~= fr.take(l) + p.take(l2 - l));
    lemma_flat_concat(fr.take(l), p.take(l2 - l));
    assert(unheld(p).skip(l2 - l) =~= fr.skip(l2));
}
pub proof fn lemma_rest(fr: Seq<FragV>, l: int)
    requires enc_wf(fr), 0 <= l < fr.len(),
    ensures flat(fr) == flat(fr.take(l)) + flat(fr.skip(l)), flat(fr.skip(l)).len() > 0, tail_wf(fr.skip(l)), tail_wf(unheld(fr.skip(l))),
{
    assert(fr =~= fr.take(l) + fr.skip(l));
    lemma_flat_concat(fr.take(l), fr.skip(l));
    let s = fr.skip(l);
    if s[0].lit { assert(s[0] == fr[l]); assert(fr[l + 1].data.len() > 0); assert(s.skip(1)[0] == fr[l + 1]); assert(flat(s.skip(1)) == s.skip(1)[0].data + flat(s.skip(1).skip(1))); }
    else { assert(s[0] == fr[l]); }
    let u = unheld(s);
    assert forall|i: int| 0 <= i < s.len() && !(#[trigger] s[i]).lit implies s[i].data.len() > 0 && !s[i].sync by { assert(s[i] == fr[i + l]); }
    assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).lit implies i + 1 < s.len() && !s[i + 1].lit by { assert(s[i] == fr[i + l]); assert(s[i + 1] == fr[i + l + 1]); }
    assert forall|i: int| 0 <= i < u.len() && !(#[trigger] u[i]).lit implies u[i].data.len() > 0 && !u[i].sync by { assert(!s[i].lit); }
    assert forall|i: int| 0 <= i < u.len() && (#[trigger] u[i]).lit implies i + 1 < u.len() && !u[i + 1].lit by { assert(s[i].lit); }
}
pub proof fn lemma_one(fr: Seq<FragV>)
    requires one_line(fr),
    ensures sendable(fr) == 1, limit(fr, 0) == 1, fr.take(1) == fr, fr.skip(1) == Seq::<FragV>::empty(), flat(fr).len() > 0, flat(fr.take(1)) == flat(fr), tail_wf(fr),
        flat(Seq::<FragV>::empty()) == Seq::<u8>::empty(),
{
    reveal_with_fuel(sendable, 3);
    assert(fr.take(1) =~= fr);
    assert(fr.skip(1) =~= Seq::empty());
    assert(flat(fr) == fr[0].data + flat(fr.skip(1)));
}
/// Nothing waits to be handed out or confirmed.
pub open spec fn settled(c: CV) -> bool {
    c.greeted ==> match c.cur { None => c.queue.len() == 0, Some(j) => j.phase is Await || j.phase is Input }
}
pub open spec fn send_ok(m: M, o: Out) -> bool {
    let g = Recv::Need;
    c01(m, g, o) && c02(m, g, o) && c03(m, g, o) && c04(m, g, o) && c05(m, g, o) && c06(m, g, o) && c07(m, g, o) && c08(m, g, o)
}
/// A command is started and its first bytes are handed out.
pub proof fn lemma_start(m: M, c: CV)
    requires rel_send(m, c), c.greeted, c.cur is None, c.queue.len() > 0,
    ensures send_step(c).1 is Bytes, send_ok(m, send_step(c).1), rel_send(note(m, Recv::Need, send_step(c).1), send_step(c).0),
{
    let (c1, o) = send_step(c);
    let q = c.queue[0];
    assert(q == m.enq[m.k as int]);
    assert(m.any());
    let fr = m.frs();
    let j = start_job(q.handle, q.command);
    assert(<CommandCodec as Encoder>::shape(m.enq[m.k as int].command));
    assert(tail_wf(fr));
    lemma_push_nonempty(fr);
    lemma_sendable(fr);
    lemma_limit(fr, 0);
    if q.command.body.plain() { lemma_one(fr); }
    assert(c.queue.skip(1) =~= m.enq.skip(m.k as int + 1));
    let b = push_bytes(j);
    assert(m.out + b =~= b);
    assert(b + m.extra =~= b);
    let m1 = note(m, Recv::Need, o);
    assert(m1.out =~= b);
    assert(m.allowed() =~= b);
    assert(m1.allowed() =~= b);
    assert(flat(fr) == flat(fr.take(sendable(fr) as int)) + flat(fr.skip(sendable(fr) as int)));
    assert(m.whole() =~= flat(fr));
    assert(b =~= m.whole().take(b.len() as int));
    assert(b =~= b.take(b.len() as int));
    if q.command.body.plain() { assert(m1.whole() =~= b); }
}
/// More bytes of a message are handed out (authentication data, DONE; a literal: see `lemma_go`).
pub proof fn lemma_more(m: M, c: CV)
    requires rel_send(m, c), c.greeted, c.cur is Some, c.cur->0.phase is Push,
    ensures send_step(c).1 is Bytes, send_ok(m, send_step(c).1), rel_send(note(m, Recv::Need, send_step(c).1), send_step(c).0),
{
    let (c1, o) = send_step(c);
    let j = c.cur->0;
    let fr = m.frs();
    assert(<CommandCodec as Encoder>::shape(m.enq[m.k as int].command));
    lemma_one(fr);
    lemma_one(j.pend);
    let b = push_bytes(j);
    assert(b == flat(j.pend));
    let m1 = note(m, Recv::Need, o);
    assert(m1.out == m.whole());
    assert(m.allowed() == m.whole());
    assert(m.whole() =~= m.whole().take(m.whole().len() as int));
}
/// What was handed out is confirmed.
pub proof fn lemma_fin(m: M, c: CV)
    requires rel_send(m, c), c.greeted, c.cur is Some, !(c.cur->0.phase is Push),
    ensures
        !(send_step(c).1 is Bytes),
        send_step(c).1 != Out::Nothing ==> send_ok(m, send_step(c).1) && rel_send(note(m, Recv::Need, send_step(c).1), send_step(c).0),
        send_step(c).1 == Out::Nothing ==> rel_send(m, send_step(c).0) && settled(send_step(c).0),
{
    let (c1, o) = send_step(c);
    let j = c.cur->0;
    let fr = m.frs();
    assert(<CommandCodec as Encoder>::shape(m.enq[m.k as int].command));
    if m.cmd().body.plain() { lemma_one(fr); }
    lemma_limit(fr, m.released);
    assert(fr.take(fr.len() as int) =~= fr);
    assert(fr.skip(m.lim() as int).len() == fr.len() - m.lim());
    assert(m.enq.skip(m.k as int + 1) == c.queue);
}

/// A literal is let through: its bytes follow in the same poll.
pub proof fn lemma_go(m: M, c: CV, n: nat, r: CommandContinuationRequest<'static>)
    requires rel_send(m, c), c.greeted, c.cur is Some, c.cur->0.phase is Await, c.cur->0.what is Cmd,
    ensures ({
        let g = Recv::Resp(n, Response::CommandContinuationRequest(r));
        let c1 = CV { cur: Some(release(c.cur->0)), ..c };
        let (c2, o) = send_step(c1);
        &&& o is Bytes && m.waits()
        &&& c01(m, g, o) && c02(m, g, o) && c03(m, g, o) && c04(m, g, o) && c05(m, g, o) && c06(m, g, o) && c07(m, g, o) && c08(m, g, o)
        &&& rel_send(note(m, g, o), c2)
    }),
{
    let g = Recv::Resp(n, Response::CommandContinuationRequest(r));
    let j = c.cur->0;
    let c1 = CV { cur: Some(release(j)), ..c };
    let (c2, o) = send_step(c1);
    let fr = m.frs();
    assert(<CommandCodec as Encoder>::shape(m.enq[m.k as int].command));
    if m.cmd().body.plain() { lemma_one(fr); }
    let l = m.lim() as int;
    lemma_limit(fr, m.released);
    lemma_limit(fr, m.released + 1);
    lemma_rest(fr, l);
    lemma_release(fr, m.released);
    let p = unheld(fr.skip(l));
    assert(release(j).pend == p);
    lemma_push_nonempty(p);
    lemma_sendable(p);
    let b = push_bytes(release(j));
    let m1 = note_got(m, g);
    assert(m1.lim() == limit(fr, m.released + 1));
    let l2 = m1.lim() as int;
    assert(m.out =~= flat(fr.take(l)));
    assert(m.out + b == flat(fr.take(l2)));
    assert(m1.allowed() =~= flat(fr.take(l2)));
    assert(fr =~= fr.take(l2) + fr.skip(l2));
    lemma_flat_concat(fr.take(l2), fr.skip(l2));
    assert(m.whole() =~= flat(fr));
    assert(m.out + b =~= m.whole().take((m.out + b).len() as int));
    assert(m.out + b =~= m1.allowed().take((m.out + b).len() as int));
}
/// A response is received while nothing waits to be handed out.
pub proof fn lemma_resp(m: M, c: CV, n: nat, r: Response<'static>)
    requires rel_send(m, c), c.greeted, settled(c),
    ensures ({
        let g = Recv::Resp(n, r);
        let (c1, o) = response_step(c, r);
        &&& (o == Out::Nothing) == go_ahead(m, g)
        &&& o == Out::Nothing ==> r is CommandContinuationRequest && c.cur is Some && c.cur->0.phase is Await && c.cur->0.what is Cmd && c1 == (CV { cur: Some(release(c.cur->0)), ..c })
        &&& o != Out::Nothing ==> c01(m, g, o) && c02(m, g, o) && c03(m, g, o) && c04(m, g, o) && c05(m, g, o) && c06(m, g, o) && c07(m, g, o) && c08(m, g, o)
                && rel_send(note(m, g, o), c1)
    }),
{
    let g = Recv::Resp(n, r);
    let (c1, o) = response_step(c, r);
    if m.any() {
        let fr = m.frs();
        assert(<CommandCodec as Encoder>::shape(m.enq[m.k as int].command));
        if m.cmd().body.plain() { lemma_one(fr); }
        lemma_limit(fr, m.released);
    }
    match c.cur {
        None => {
            assert(c.queue.len() == 0 && m.k == m.enq.len());
        }
        Some(j) => {
            assert(m.enq.skip(m.k as int + 1) == c.queue);
        }
    }
}
/// Something other than a response is received, or nothing.
pub proof fn lemma_other(m: M, c: CV)
    requires rel_send(m, c), settled(c), !(recv(c.greeted, c.relaxed, c.buf) is Resp),
    ensures ({
        let g = recv(c.greeted, c.relaxed, c.buf);
        let (c1, o) = recv_step(c);
        &&& o != Out::Nothing
        &&& c01(m, g, o) && c02(m, g, o) && c03(m, g, o) && c04(m, g, o) && c05(m, g, o) && c06(m, g, o) && c07(m, g, o) && c08(m, g, o)
        &&& rel_send(note(m, g, o), c1)
    }),
{
    let g = recv(c.greeted, c.relaxed, c.buf);
    let (c1, o) = recv_step(c);
    lemma_recv_bounds(c.relaxed, c.buf, 0, Frag::Line);
    if m.any() {
        let fr = m.frs();
        assert(<CommandCodec as Encoder>::shape(m.enq[m.k as int].command));
        if m.cmd().body.plain() { lemma_one(fr); }
        lemma_limit(fr, m.released);
        if m.lim() < fr.len() { lemma_rest(fr, m.lim() as int); }
    }
}
// ---- the stream as a whole ----
/// A message that is complete stays what it is, and the stream goes on behind it.
pub proof fn lemma_parse_step(greeted: bool, relaxed: bool, b: Seq<u8>, more: Seq<u8>)
    requires !(recv(greeted, relaxed, b) is Need),
    ensures parse(greeted, relaxed, b + more) == seq![recv(greeted, relaxed, b)]
        + parse(greeted || recv(greeted, relaxed, b) is Greet, relaxed, b.skip(len_of(recv(greeted, relaxed, b)) as int) + more),
{
    let g = recv(greeted, relaxed, b);
    let n = len_of(g) as int;
    lemma_recv_bounds(relaxed, b, 0, Frag::Line);
    lemma_recv_mono(greeted, relaxed, b, more);
    assert((b + more).skip(n) =~= b.skip(n) + more);
    reveal_with_fuel(parse, 1);
}
pub proof fn lemma_continues(m: M, c: CV, g: Recv)
    requires rel_recv(m, c), g == recv(c.greeted, c.relaxed, c.buf),
    ensures ({
        let n = len_of(g) as int;
        &&& n <= c.buf.len() && (g is Need || n > 0)
        &&& m.fed.skip(m.used.len() as int).take(n) == c.buf.take(n) && m.fed.skip(m.used.len() as int) == c.buf
        &&& g is Need ==> m.log == parse(false, m.relaxed, m.fed)
        &&& !(g is Need) ==> continues(m.log.push(g), m.greeted || g is Greet, m.relaxed, c.buf.skip(n), m.fed)
        &&& m.fed == (m.used + c.buf.take(n)) + c.buf.skip(n)
    }),
{
    let n = len_of(g) as int;
    lemma_recv_bounds(c.relaxed, c.buf, 0, Frag::Line);
    assert(m.fed.skip(m.used.len() as int) =~= c.buf);
    assert(m.fed =~= (m.used + c.buf.take(n)) + c.buf.skip(n));
    reveal(continues);
    if g is Need {
        let e = Seq::<u8>::empty();
        assert(c.buf + e =~= c.buf);
        assert(m.fed + e =~= m.fed);
        assert(m.log + parse(m.greeted, m.relaxed, c.buf + e) == parse(false, m.relaxed, m.fed + e));
        assert(m.log + Seq::<Recv>::empty() =~= m.log);
    } else {
        let gr = m.greeted || g is Greet;
        assert forall|more: Seq<u8>| m.log.push(g) + #[trigger] parse(gr, m.relaxed, c.buf.skip(n) + more) == parse(false, m.relaxed, m.fed + more) by {
            lemma_parse_step(m.greeted, m.relaxed, c.buf, more);
            let rest = parse(gr, m.relaxed, c.buf.skip(n) + more);
            assert(m.log + (seq![g] + rest) =~= m.log.push(g) + rest);
            assert(m.log + parse(m.greeted, m.relaxed, c.buf + more) == parse(false, m.relaxed, m.fed + more));
        }
    }
}
pub proof fn lemma_now(m: M, c: CV)
    requires rel_recv(m, c),
    ensures m.log + parse(m.greeted, m.relaxed, c.buf) == parse(false, m.relaxed, m.fed), is_prefix(m.used, m.fed), m.fed.skip(m.used.len() as int) == c.buf,
{
    reveal(continues);
    let e = Seq::<u8>::empty();
    assert(c.buf + e =~= c.buf);
    assert(m.fed + e =~= m.fed);
    assert(m.log + parse(m.greeted, m.relaxed, c.buf + e) == parse(false, m.relaxed, m.fed + e));
    assert(m.used =~= m.fed.take(m.used.len() as int));
    assert(m.fed.skip(m.used.len() as int) =~= c.buf);
}
/// Where a poll leaves the receiving side: what it took off is noted.
pub proof fn lemma_f01(m: M, c: CV, g: Recv, o: Out, c1: CV)
    requires rel_recv(m, c), g is Need || g == recv(c.greeted, c.relaxed, c.buf),
        c1.buf == c.buf.skip(len_of(g) as int), c1.relaxed == c.relaxed, c1.greeted == (c.greeted || g is Greet),
        o is Need ==> recv(c.greeted, c.relaxed, c.buf) is Need,
        note(m, g, o).greeted == c1.greeted,
        match o {
            Out::BadLf(x) => g is BadLf && x == c.buf.take(len_of(g) as int),
            Out::Malformed(x) => g is Malformed && x == c.buf.take(len_of(g) as int),
            Out::Ev(Event::GreetingReceived { greeting }) => g == Recv::Greet(len_of(g), greeting),
            _ => !(g is BadLf || g is Malformed || g is Greet),
        },
    ensures rel_recv(note(m, g, o), c1), f01(m, g, o),
{
    let m1 = note(m, g, o);
    let n = len_of(g) as int;
    lemma_continues(m, c, recv(c.greeted, c.relaxed, c.buf));
    if g is Need {
        assert(m.fed.skip(m.used.len() as int).take(0) =~= Seq::<u8>::empty());
        assert(m1.used =~= m.used);
        assert(c.buf.skip(0) =~= c.buf);
    }
    assert(m1.fed == m1.used + c1.buf);
    lemma_now(m1, c1);
}
pub proof fn lemma_poll(m: M, c: CV)
    requires rel(m, c),
    ensures poll_ok(m, got(c), next_step(c).1), rel(note(m, got(c), next_step(c).1), next_step(c).0),
{
    let (c0, o0) = send_step(c);
    let (c2, o) = next_step(c);
    let g = got(c);
    if c.greeted {
        match c.cur {
            None => { if c.queue.len() > 0 { lemma_start(m, c); } }
            Some(j) => { if j.phase is Push { lemma_more(m, c); } else { lemma_fin(m, c); } }
        }
    }
    if o0 != Out::Nothing {
        assert(c.buf.skip(0) =~= c.buf);
        lemma_f01(m, c, g, o, c2);
    } else {
        assert(rel_send(m, c0) && settled(c0));
        match g {
            Recv::Resp(n, r) => {
                lemma_recv_bounds(c.relaxed, c.buf, 0, Frag::Line);
                let cb = CV { buf: c0.buf.skip(n as int), ..c0 };
                assert(rel_send(m, cb) && settled(cb));
                lemma_resp(m, cb, n, r);
                if response_step(cb, r).1 == Out::Nothing { lemma_go(m, cb, n, r->CommandContinuationRequest_0); }
                lemma_f01(m, c, g, o, c2);
            }
            _ => {
                lemma_other(m, c0);
                if g is Need { assert(c.buf.skip(0) =~= c.buf); }
                lemma_f01(m, c, g, o, c2);
            }
        }
    }
}
pub proof fn lemma_op(m: M, c: CV, op: Op)
    requires rel(m, c), op_wf(op),
    ensures op_step(c, m, op).2, rel(op_step(c, m, op).1, op_step(c, m, op).0),
{
    let (c1, m1, ok) = op_step(c, m, op);
    match op {
        Op::Poll => { lemma_poll(m, c); }
        Op::Input(b) => {
            reveal(continues);
            assert forall|more: Seq<u8>| m.log + #[trigger] parse(m.greeted, m.relaxed, (c.buf + b) + more) == parse(false, m.relaxed, (m.fed + b) + more) by {
                assert((c.buf + b) + more =~= c.buf + (b + more));
                assert((m.fed + b) + more =~= m.fed + (b + more));
            }
            assert(m1.fed =~= m1.used + c1.buf);
        }
        Op::Enqueue(handle, command) => {
            let q = QueuedMessage { handle, command };
            assert(m1.enq.skip(m.k as int) =~= m.enq.skip(m.k as int).push(q));
            if m.any() { assert(m1.enq.skip(m.k as int + 1) =~= m.enq.skip(m.k as int + 1).push(q)); assert(m1.enq[m.k as int] == m.enq[m.k as int]); }
            assert forall|i: int| 0 <= i < m1.enq.len() implies <CommandCodec as Encoder>::shape((#[trigger] m1.enq[i]).command) by { if i < m.enq.len() { assert(m1.enq[i] == m.enq[i]); } }
        }
        Op::SetData(d) => {
            if m.any() { assert(<CommandCodec as Encoder>::shape(m.enq[m.k as int].command)); }
            if accepts_data(c) { lemma_one(enc_auth(d)); assert(m1.out + flat(enc_auth(d)) =~= m1.whole()); }
        }
        Op::SetDone => {
            if m.any() { assert(<CommandCodec as Encoder>::shape(m.enq[m.k as int].command)); }
            if accepts_done(c) { lemma_one(enc_done(IdleDone)); assert(m1.out + flat(enc_done(IdleDone)) =~= m1.whole()); }
        }
    }
}
pub proof fn lemma_start_rel(relaxed: bool)
    ensures rel(start(relaxed), CV { greeted: false, relaxed, buf: Seq::empty(), cur: None, queue: Seq::empty() }),
{
    let c = CV { greeted: false, relaxed, buf: Seq::empty(), cur: None, queue: Seq::empty() };
    let m = start(relaxed);
    reveal(continues);
    assert forall|more: Seq<u8>| m.log + #[trigger] parse(m.greeted, m.relaxed, c.buf + more) == parse(false, m.relaxed, m.fed + more) by {
        assert(c.buf + more =~= m.fed + more);
        assert(m.log + parse(false, relaxed, c.buf + more) =~= parse(false, relaxed, c.buf + more));
    }
    assert(m.fed =~= m.used + c.buf);
    assert(m.enq.skip(0) =~= c.queue);
}
/// C01-C08, F01, F05: whatever is done with a client, and whatever its peer sends, every outcome is as it should be.
pub proof fn theorem_client(relaxed: bool, ops: Seq<Op>)
    requires forall|i: int| 0 <= i < ops.len() ==> op_wf(#[trigger] ops[i]),
    ensures all_ok(CV { greeted: false, relaxed, buf: Seq::empty(), cur: None, queue: Seq::empty() }, start(relaxed), ops),
{
    lemma_start_rel(relaxed);
    lemma_all(CV { greeted: false, relaxed, buf: Seq::empty(), cur: None, queue: Seq::empty() }, start(relaxed), ops);
}
pub proof fn lemma_all(c: CV, m: M, ops: Seq<Op>)
    requires rel(m, c), forall|i: int| 0 <= i < ops.len() ==> op_wf(#[trigger] ops[i]),
    ensures all_ok(c, m, ops),
    decreases ops.len()
{
    if ops.len() > 0 {
        let (c1, m1, ok) = op_step(c, m, ops[0]);
        lemma_op(m, c, ops[0]);
        let rest = ops.skip(1);
        assert forall|i: int| 0 <= i < rest.len() implies op_wf(#[trigger] rest[i]) by { assert(rest[i] == ops[i + 1]); }
        lemma_all(c1, m1, rest);
    }
}

// ---- the same for the code: a client together with its observer, over the contracts of the public functions ----
pub struct Watched { pub c: Client, pub m: Ghost<M> }
impl Watched {
    pub open spec fn wf(self) -> bool { self.c.wf() && rel(self.m@, self.c.cv()) }
    pub fn new(options: Options) -> (r: Self)
        ensures r.wf(), r.m@ == start(options.crlf_relaxed),
    {
        let c = Client::new(options);
        let r = Watched { c, m: Ghost(start(options.crlf_relaxed)) };
        proof { lemma_start_rel(options.crlf_relaxed); }
        r
    }
    /// Every poll answers as it should.
    pub fn poll(&mut self) -> (r: Result<Event, crate::imap_next_lib::Interrupt<Error>>)
        requires old(self).wf(),
        ensures final(self).wf(), exists|g: Recv| #[trigger] poll_ok(old(self).m@, g, out_of_next(r)) && final(self).m@ == note(old(self).m@, g, out_of_next(r)),
    {
        let ghost c0 = self.c.cv();
        let r = crate::imap_next_lib::State::next(&mut self.c);
        proof { lemma_op(self.m@, c0, Op::Poll); self.m@ = note(self.m@, got(c0), out_of_next(r)); }
        r
    }
    pub fn input(&mut self, bytes: &[u8])
        requires old(self).wf(),
        ensures final(self).wf(), final(self).m@ == (M { fed: old(self).m@.fed + bytes@, ..old(self).m@ }),
    {
        let ghost c0 = self.c.cv();
        crate::imap_next_lib::State::enqueue_input(&mut self.c, bytes);
        proof { lemma_op(self.m@, c0, Op::Input(bytes@)); self.m@ = op_step(c0, self.m@, Op::Input(bytes@)).1; }
    }
    pub fn enqueue(&mut self, command: Command<'static>) -> (r: CommandHandle)
        requires old(self).wf(), <CommandCodec as Encoder>::shape(command),
        ensures final(self).wf(), final(self).m@ == (M { enq: old(self).m@.enq.push(QueuedMessage { handle: r, command }), ..old(self).m@ }),
    {
        let ghost c0 = self.c.cv();
        let r = self.c.enqueue_command(command);
        proof { lemma_op(self.m@, c0, Op::Enqueue(r, command)); self.m@ = op_step(c0, self.m@, Op::Enqueue(r, command)).1; }
        r
    }
    /// Authentication data is accepted exactly when a challenge waits for it; otherwise it comes back and nothing changes.
    pub fn set_data(&mut self, d: AuthenticateData<'static>) -> (r: Result<CommandHandle, AuthenticateData<'static>>)
        requires old(self).wf(), <AuthenticateDataCodec as Encoder>::shape(d),
        ensures final(self).wf(), r is Ok <==> wants_data(old(self).m@),
            match r {
                Ok(h) => h == old(self).m@.handle() && final(self).m@ == (M { extra: old(self).m@.extra + flat(enc_auth(d)), chal: false, ..old(self).m@ }),
                Err(x) => x == d && final(self).m@ == old(self).m@ && final(self).c.cv() == old(self).c.cv(),
            },
    {
        let ghost c0 = self.c.cv();
        let r = self.c.set_authenticate_data(d);
        proof { lemma_op(self.m@, c0, Op::SetData(d)); self.m@ = op_step(c0, self.m@, Op::SetData(d)).1; }
        r
    }
    /// DONE is accepted exactly when IDLE was accepted and DONE was not asked for.
    pub fn set_done(&mut self) -> (r: Option<CommandHandle>)
        requires old(self).wf(), <IdleDoneCodec as Encoder>::shape(IdleDone),
        ensures final(self).wf(), r is Some <==> wants_done(old(self).m@),
            match r {
                Some(h) => h == old(self).m@.handle() && final(self).m@ == (M { extra: old(self).m@.extra + flat(enc_done(IdleDone)), chal: false, done: true, ..old(self).m@ }),
                None => final(self).m@ == old(self).m@ && final(self).c.cv() == old(self).c.cv(),
            },
    {
        let ghost c0 = self.c.cv();
        let r = self.c.set_idle_done();
        proof { lemma_op(self.m@, c0, Op::SetDone); self.m@ = op_step(c0, self.m@, Op::SetDone).1; }
        r
    }
}
}
}

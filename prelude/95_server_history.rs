// ---- prelude: every history of a server, judged from outside (lemmas over the contracts, nothing assumed) ----
pub mod server_history {
use vstd::prelude::*;
use crate::imap_types::{core::*, command::*, response::*, auth::*};
use crate::imap_codec::*;
use crate::imap_codec::decode::*;
use crate::types::CommandAuthenticate;
use crate::server_send::*;
use crate::server_receive::*;
use crate::server::*;
use crate::receive::*;
use crate::imap_next_lib::{Interrupt, State};
use crate::prelude_all::{first_lf, lemma_first_lf};
verus!{

/// What is received: nothing yet, too many bytes, a wrong line ending, an undecodable message, the announcement of a literal, or a
/// message of the kind that is expected; and where in the stream it ends.
pub enum Got { Need, TooLong(nat), BadLf(nat), Malformed(nat), Announce(nat, Tag<'static>, u32, LiteralMode), Cmd(nat, Command<'static>), Data(nat, AuthenticateData<'static>), Done(nat) }
/// What the bytes `b` hold, given what is expected and how far the message was decided.
pub open spec fn look(opt: Options, mode: Mode, b: Seq<u8>, pos: (nat, Frag)) -> Got {
    if mode == Mode::Wait { Got::Need } else { match step(opt.crlf_relaxed, Some(opt.max_command_size), b, pos.0, pos.1) {
        Step::Need => Got::Need,
        Step::TooLong(n) => Got::TooLong(n),
        Step::BadLf(n) => Got::BadLf(n),
        Step::Decode(n) => match mode {
            Mode::Cmd => match dec_command(b.take(n as int)) {
                Ok(c) => Got::Cmd(n, c),
                Err(CommandDecodeError::LiteralFound { tag, length, mode }) => Got::Announce(n, tag, length, mode),
                Err(_) => Got::Malformed(n),
            },
            Mode::Auth => match dec_auth(b.take(n as int)) { Ok(d) => Got::Data(n, d), Err(_) => Got::Malformed(n) },
            _ => match dec_done(b.take(n as int)) { Ok(_) => Got::Done(n), Err(_) => Got::Malformed(n) },
        },
    } }
}
pub open spec fn len_of(g: Got) -> nat {
    match g { Got::Need => 0, Got::TooLong(n) => n, Got::BadLf(n) => n, Got::Malformed(n) => n, Got::Announce(n, _, _, _) => n, Got::Cmd(n, _) => n, Got::Data(n, _) => n, Got::Done(n) => n }
}
/// the announced literal belongs to the message and is to be read
pub open spec fn keeps(opt: Options, g: Got) -> bool { match g { Got::Announce(_, _, length, _) => length <= opt.max_literal_size, _ => false } }
/// What is expected after `g`, and from where on.
pub open spec fn mode_after(mode: Mode, g: Got) -> Mode {
    match g {
        Got::Cmd(_, c) => match c.body { CommandBody::Authenticate { .. } => Mode::Auth, CommandBody::Idle => Mode::Wait, _ => mode },
        Got::Done(_) => Mode::Cmd,
        _ => mode,
    }
}
pub open spec fn used_by(opt: Options, g: Got) -> nat { if keeps(opt, g) { 0 } else { len_of(g) } }
pub open spec fn pos_after(opt: Options, pos: (nat, Frag), g: Got) -> (nat, Frag) {
    if g is Need { pos } else { match g { Got::Announce(n, _, length, _) => if keeps(opt, g) { (n, Frag::Lit(length as nat)) } else { (0, Frag::Line) }, _ => (0, Frag::Line) } }
}

/// What is done with a server: polling it, peer bytes, or a call of the user (with the handle that it returned).
pub enum Op { Poll, Input(Seq<u8>), Send(ResponseHandle, Response<'static>), AuthContinue(ResponseHandle, CommandContinuationRequest<'static>), AuthFinish(ResponseHandle, Status<'static>),
    IdleAccept(ResponseHandle, CommandContinuationRequest<'static>), IdleReject(ResponseHandle, Status<'static>) }

/// What an observer notes down.
pub struct M {
    pub opt: Options,
    pub msgs: Seq<QueuedMessage>,      // the greeting and everything enqueued, by the user or (without handle) by the server
    pub sent: nat,                     // how many of them were handed out
    pub owed: bool,                    // the last one handed out still has to be reported as sent
    pub mode: Mode,                    // what the peer is expected to send, as told by events and accepted calls
    pub pos: (nat, Frag),              // how far the message in progress was decided
    pub fed: Seq<u8>,                  // all bytes of the peer
    pub used: Seq<u8>,                 // those of messages that were received or discarded
    pub log: Seq<Got>,                 // what was received since the user last changed what is expected ...
    pub base: (Mode, nat),             // ... to what, and after how many bytes
}
pub open spec fn start(opt: Options, greeting: Greeting<'static>) -> M {
    M { opt, msgs: seq![QueuedMessage::Greeting { greeting }], sent: 0, owed: false, mode: Mode::Cmd, pos: (0, Frag::Line),
        fed: Seq::empty(), used: Seq::empty(), log: Seq::empty(), base: (Mode::Cmd, 0) }
}
pub open spec fn internal(q: QueuedMessage) -> bool { q matches QueuedMessage::Response { handle: None, .. } }
impl M {
    pub open spec fn rest(self) -> Seq<u8> { self.fed.skip(self.used.len() as int) }
    pub open spec fn last(self) -> QueuedMessage { self.msgs[self.sent - 1] }
    /// nothing waits to be handed out or reported
    pub open spec fn idle(self) -> bool { !self.owed && self.sent == self.msgs.len() }
}
/// What the server itself has to answer to what it received.
pub open spec fn answer(opt: Options, g: Got) -> Option<Response<'static>> {
    match g {
        Got::Announce(_, tag, length, LiteralMode::Sync) => Some(if length <= opt.max_literal_size { Response::CommandContinuationRequest(opt.literal_accept_ccr) }
            else { bad(tag, ccr_text(opt.literal_reject_ccr)) }),
        _ => None,
    }
}
pub open spec fn note_got(m: M, g: Got) -> M {
    if g is Need { m } else {
        M { used: m.used + m.rest().take(used_by(m.opt, g) as int), log: m.log.push(g), mode: mode_after(m.mode, g), pos: pos_after(m.opt, m.pos, g),
            msgs: match answer(m.opt, g) { Some(response) => m.msgs.push(QueuedMessage::Response { handle: None, response }), None => m.msgs }, ..m }
    }
}
/// The notes after a step in which `g` was received and that answered `o` (`Nothing`: the poll goes on).
pub open spec fn note(m: M, g: Got, o: Out) -> M {
    let m = note_got(m, g);
    match o {
        Out::Bytes(b) => M { sent: m.sent + 1, owed: !internal(m.msgs[m.sent as int]), ..m },
        Out::Ev(Event::GreetingSent { .. }) => M { owed: false, ..m },
        Out::Ev(Event::ResponseSent { .. }) => M { owed: false, ..m },
        _ => m,
    }
}
/// S01: what is handed out is the next message, completely; and more input is asked for, or taken, only when none waits.
pub open spec fn s01(m: M, g: Got, o: Out) -> bool {
    &&& o matches Out::Bytes(b) ==> g is Need && m.sent < m.msgs.len() && b == enc_msg(m.msgs[m.sent as int])
    &&& o is Need ==> m.sent == m.msgs.len()
    &&& !(g is Need) ==> m.sent == m.msgs.len()
}
/// S02: each message handed out is reported once with its handle and content, before anything else is handed out or received; replies of the server itself are not.
pub open spec fn s02(m: M, g: Got, o: Out) -> bool {
    &&& o matches Out::Ev(Event::GreetingSent { greeting }) ==> m.owed && m.sent > 0 && m.last() == QueuedMessage::Greeting { greeting }
    &&& o matches Out::Ev(Event::ResponseSent { handle, response }) ==> m.owed && m.sent > 0 && m.last() == QueuedMessage::Response { handle: Some(handle), response }
    &&& (o is Bytes || o is Need || !(g is Need)) ==> !m.owed
}
/// S03: a literal that is not too long is read (answered only if the peer waits for it), a longer one is refused together with what was received.
pub open spec fn s03(m: M, g: Got, o: Out) -> bool {
    &&& match g {
        Got::Announce(n, tag, length, mode) => if length <= m.opt.max_literal_size { o == Out::Nothing } else { o == Out::LiteralTooLong(m.rest().take(n as int)) },
        _ => !(o is LiteralTooLong),
    }
    // what the server adds on its own
    &&& note(m, g, o).msgs == match answer(m.opt, g) { Some(response) => m.msgs.push(QueuedMessage::Response { handle: None, response }), None => m.msgs }
}
/// S05 (and F03): what is received is decoded as what is expected, and reported as it is.
pub open spec fn s05(m: M, g: Got, o: Out) -> bool {
    &&& !(g is Need) ==> g == look(m.opt, m.mode, m.rest(), m.pos)
    &&& match g {
        Got::Cmd(_, c) => m.mode == Mode::Cmd && o == Out::Ev(match c.body {
                CommandBody::Authenticate { mechanism, initial_response } => Event::CommandAuthenticateReceived { command_authenticate: CommandAuthenticate { tag: c.tag, mechanism, initial_response } },
                CommandBody::Idle => Event::IdleCommandReceived { tag: c.tag },
                _ => Event::CommandReceived { command: c },
            }),
        Got::Data(_, d) => m.mode == Mode::Auth && o == Out::Ev(Event::AuthenticateDataReceived { authenticate_data: d }),
        Got::Done(_) => m.mode == Mode::Done && o == Out::Ev(Event::IdleDoneReceived),
        Got::Announce(..) => m.mode == Mode::Cmd,
        _ => match o { Out::Ev(Event::GreetingSent { .. }) => true, Out::Ev(Event::ResponseSent { .. }) => true, Out::Ev(_) => false, _ => true },
    }
}
/// F04, F05: errors carry exactly the bytes of the offending message; the size limit is exact.
pub open spec fn f05(m: M, g: Got, o: Out) -> bool {
    let n = len_of(g) as int;
    &&& (g is TooLong) == (o is TooLong) && (g is BadLf) == (o is BadLf) && (g is Malformed) == (o is Malformed)
    &&& match o {
        Out::TooLong(x) => x == m.rest().take(n) && x.len() == m.opt.max_command_size, Out::BadLf(x) => x == m.rest().take(n) && x.len() > 0,
        Out::Malformed(x) => x == m.rest().take(n) && x.len() > 0, Out::LiteralTooLong(x) => x.len() > 0, _ => true }
    &&& n <= m.opt.max_command_size && n <= m.rest().len()
    &&& !(g is Need || g is TooLong) ==> n > m.pos.0
}
/// Everything the bytes hold until more of them, or a decision of the user, is needed.
pub open spec fn parse(opt: Options, mode: Mode, b: Seq<u8>, pos: (nat, Frag)) -> Seq<Got>
    decreases b.len(), b.len() - pos.0
{
    let g = look(opt, mode, b, pos);
    let n = len_of(g);
    if g is Need || n == 0 || n > b.len() || (keeps(opt, g) && n <= pos.0) { Seq::empty() }
    else { seq![g] + parse(opt, mode_after(mode, g), b.skip(used_by(opt, g) as int), pos_after(opt, pos, g)) }
}
/// F01: since the user last decided what is expected, what was received and what the buffered bytes hold is what all bytes since then
/// hold, however they arrived; when more input is asked for, all of it was reported; no byte is lost or read twice.
pub open spec fn f01(m: M, g: Got, o: Out) -> bool {
    let m1 = note(m, g, o);
    &&& m1.used.len() <= m1.fed.len() && m1.used == m1.fed.take(m1.used.len() as int) && m1.base.1 <= m1.used.len()
    &&& m.opt.max_command_size > 0 ==> m1.log + parse(m1.opt, m1.mode, m1.rest(), m1.pos) == parse(m1.opt, m1.base.0, m1.fed.skip(m1.base.1 as int), (0, Frag::Line))
    &&& m.opt.max_command_size > 0 && o is Need ==> m1.log == parse(m1.opt, m1.base.0, m1.fed.skip(m1.base.1 as int), (0, Frag::Line))
}
pub open spec fn micro_ok(m: M, g: Got, o: Out) -> bool { s01(m, g, o) && s02(m, g, o) && s03(m, g, o) && s05(m, g, o) && f05(m, g, o) && f01(m, g, o) }

/// One round of a poll.
pub open spec fn micro(s: SV) -> (SV, Got, Out) {
    let a = send_step(s);
    if a.1 != Out::Nothing { (a.0, Got::Need, a.1) } else { let b = recv_step(a.0); (b.0, look(s.opt, s.mode, s.buf, s.pos), b.1) }
}
/// A poll: what was received in it, round by round, and its answer, all of it as it should be.
pub open spec fn poll_ok(m: M, gs: Seq<Got>, o: Out, m2: M) -> bool
    decreases gs.len()
{
    if gs.len() == 0 { false }
    else if gs.len() == 1 { o != Out::Nothing && micro_ok(m, gs[0], o) && m2 == note(m, gs[0], o) }
    else { keeps(m.opt, gs[0]) && micro_ok(m, gs[0], Out::Nothing) && poll_ok(note(m, gs[0], Out::Nothing), gs.skip(1), o, m2) }
}
pub open spec fn user_sends(m: M, handle: ResponseHandle, response: Response<'static>) -> M { M { msgs: m.msgs.push(QueuedMessage::Response { handle: Some(handle), response }), ..m } }
pub open spec fn user_switches(m: M, mode: Mode) -> M { M { mode, pos: (0, Frag::Line), log: Seq::empty(), base: (mode, m.used.len()), ..m } }

// ---- the connection between the notes and the server ----
/// whatever follows: what was received, and then what the buffered bytes hold, is what the stream holds
#[verifier::opaque]
pub open spec fn continues(opt: Options, log: Seq<Got>, mode: Mode, buf: Seq<u8>, pos: (nat, Frag), base: Mode, stream: Seq<u8>) -> bool {
    forall|more: Seq<u8>| log + #[trigger] parse(opt, mode, buf + more, pos) == parse(opt, base, stream + more, (0, Frag::Line))
}
pub open spec fn rel_send(m: M, s: SV) -> bool {
    &&& m.sent <= m.msgs.len() && s.queue == m.msgs.skip(m.sent as int)
    &&& match s.cur { Some(q) => m.sent > 0 && q == m.last() && m.owed == !internal(q), None => !m.owed }
}
pub open spec fn rel_recv(m: M, s: SV) -> bool {
    &&& m.opt == s.opt && m.mode == s.mode && m.fed == m.used + s.buf
    &&& s.pos == canon(Some(s.opt.max_command_size), s.buf, m.pos) && m.pos.0 <= lim(s.buf.len(), Some(s.opt.max_command_size))
    &&& m.mode != Mode::Cmd ==> m.pos == (0nat, Frag::Line)
    &&& m.base.1 <= m.used.len()
    &&& m.opt.max_command_size > 0 ==> continues(m.opt, m.log, m.mode, s.buf, m.pos, m.base.0, m.fed.skip(m.base.1 as int))
}
pub open spec fn rel(m: M, s: SV) -> bool { rel_send(m, s) && rel_recv(m, s) }

/// What is decided stays so, whatever follows, and is not longer than the limit.
pub proof fn lemma_look(opt: Options, mode: Mode, b: Seq<u8>, pos: (nat, Frag), more: Seq<u8>)
    requires pos.0 <= lim(b.len(), Some(opt.max_command_size)),
    ensures ({
        let g = look(opt, mode, b, pos);
        &&& !(g is Need) ==> look(opt, mode, b + more, pos) == g
        &&& len_of(g) <= b.len() && len_of(g) <= opt.max_command_size
        &&& !(g is Need || g is TooLong) ==> len_of(g) > pos.0
        &&& g is TooLong ==> len_of(g) == opt.max_command_size
        &&& look(opt, mode, b, canon(Some(opt.max_command_size), b, pos)) == g
        &&& g is Announce ==> mode == Mode::Cmd
    }),
{
    broadcast use lemma_step_bounds;
    lemma_step_monotone(opt.crlf_relaxed, Some(opt.max_command_size), b, pos.0, pos.1, more);
    lemma_canon(opt.crlf_relaxed, Some(opt.max_command_size), b, pos, more);
    match step(opt.crlf_relaxed, Some(opt.max_command_size), b, pos.0, pos.1) {
        Step::Decode(n) => { assert(b.take(n as int) =~= (b + more).take(n as int)); }
        _ => {}
    }
}
pub proof fn lemma_parse_step(opt: Options, mode: Mode, b: Seq<u8>, pos: (nat, Frag), more: Seq<u8>)
    requires pos.0 <= lim(b.len(), Some(opt.max_command_size)), opt.max_command_size > 0, !(look(opt, mode, b, pos) is Need),
    ensures ({
        let g = look(opt, mode, b, pos);
        parse(opt, mode, b + more, pos) == seq![g] + parse(opt, mode_after(mode, g), b.skip(used_by(opt, g) as int) + more, pos_after(opt, pos, g))
    }),
{
    let g = look(opt, mode, b, pos);
    lemma_look(opt, mode, b, pos, more);
    let n = used_by(opt, g) as int;
    assert((b + more).skip(n) =~= b.skip(n) + more);
    reveal_with_fuel(parse, 1);
}
pub proof fn lemma_parse_none(opt: Options, mode: Mode, b: Seq<u8>, pos: (nat, Frag))
    requires look(opt, mode, b, pos) is Need,
    ensures parse(opt, mode, b, pos) == Seq::<Got>::empty(),
{
    hide(step); hide(look);
    reveal_with_fuel(parse, 1);
}
pub proof fn lemma_take_off(m: M, s: SV, g: Got)
    requires rel_recv(m, s), g == look(s.opt, s.mode, s.buf, m.pos),
    ensures ({
        let n = used_by(m.opt, g) as int;
        &&& m.rest() == s.buf && m.used == m.fed.take(m.used.len() as int)
        &&& m.fed == (m.used + s.buf.take(n)) + s.buf.skip(n)
        &&& m.opt.max_command_size > 0 ==> m.log + parse(m.opt, m.mode, s.buf, m.pos) == parse(m.opt, m.base.0, m.fed.skip(m.base.1 as int), (0, Frag::Line))
        &&& m.opt.max_command_size > 0 && g is Need ==> m.log == parse(m.opt, m.base.0, m.fed.skip(m.base.1 as int), (0, Frag::Line))
        &&& m.opt.max_command_size > 0 && !(g is Need) ==> continues(m.opt, m.log.push(g), mode_after(m.mode, g), s.buf.skip(n), pos_after(m.opt, m.pos, g), m.base.0, m.fed.skip(m.base.1 as int))
    }),
{
    hide(step); hide(parse); hide(look); hide(canon); hide(mode_after); hide(pos_after);
    let n = used_by(m.opt, g) as int;
    lemma_look(m.opt, m.mode, s.buf, m.pos, Seq::empty());
    assert(g == look(m.opt, m.mode, s.buf, m.pos));
    assert(n <= s.buf.len());
    assert(m.fed.skip(m.used.len() as int) =~= s.buf);
    assert(m.used =~= m.fed.take(m.used.len() as int));
    assert(m.fed =~= (m.used + s.buf.take(n)) + s.buf.skip(n));
    if m.opt.max_command_size > 0 {
        reveal(continues);
        let stream = m.fed.skip(m.base.1 as int);
        let e = Seq::<u8>::empty();
        assert(s.buf + e =~= s.buf);
        assert(stream + e =~= stream);
        assert(m.log + parse(m.opt, m.mode, s.buf + e, m.pos) == parse(m.opt, m.base.0, stream + e, (0, Frag::Line)));
        if g is Need { lemma_parse_none(m.opt, m.mode, s.buf, m.pos); assert(m.log + Seq::<Got>::empty() =~= m.log); }
        else {
            let m2 = mode_after(m.mode, g);
            let p2 = pos_after(m.opt, m.pos, g);
            assert forall|more: Seq<u8>| m.log.push(g) + #[trigger] parse(m.opt, m2, s.buf.skip(n) + more, p2) == parse(m.opt, m.base.0, stream + more, (0, Frag::Line)) by {
                lemma_parse_step(m.opt, m.mode, s.buf, m.pos, more);
                let rest = parse(m.opt, m2, s.buf.skip(n) + more, p2);
                assert(m.log + (seq![g] + rest) =~= m.log.push(g) + rest);
                assert(m.log + parse(m.opt, m.mode, s.buf + more, m.pos) == parse(m.opt, m.base.0, stream + more, (0, Frag::Line)));
            }
        }
    }
}
/// The sending half.
pub proof fn lemma_send(m: M, s: SV)
    requires rel(m, s),
    ensures ({
        let (s1, o) = send_step(s);
        &&& o == Out::Nothing <==> m.idle()
        &&& o == Out::Nothing ==> s1 == (SV { cur: None, ..s }) && rel(m, s1)
        &&& o != Out::Nothing ==> micro_ok(m, Got::Need, o) && rel(note(m, Got::Need, o), s1)
    }),
{
    let (s1, o) = send_step(s);
    lemma_take_off(m, s, look(s.opt, s.mode, s.buf, m.pos));
    if s.queue.len() > 0 { assert(s.queue[0] == m.msgs[m.sent as int]); assert(s.queue.skip(1) =~= m.msgs.skip(m.sent as int + 1)); }
}
/// The receiving half: the answer to what is received.
pub open spec fn round_out(s: SV, g: Got) -> Out {
    let x = s.buf.take(len_of(g) as int);
    match g {
        Got::Need => Out::Need, Got::TooLong(_) => Out::TooLong(x), Got::BadLf(_) => Out::BadLf(x), Got::Malformed(_) => Out::Malformed(x),
        Got::Announce(_, _, length, _) => if length <= s.opt.max_literal_size { Out::Nothing } else { Out::LiteralTooLong(x) },
        Got::Cmd(_, c) => Out::Ev(match c.body {
            CommandBody::Authenticate { mechanism, initial_response } => Event::CommandAuthenticateReceived { command_authenticate: CommandAuthenticate { tag: c.tag, mechanism, initial_response } },
            CommandBody::Idle => Event::IdleCommandReceived { tag: c.tag },
            _ => Event::CommandReceived { command: c },
        }),
        Got::Data(_, d) => Out::Ev(Event::AuthenticateDataReceived { authenticate_data: d }),
        Got::Done(_) => Out::Ev(Event::IdleDoneReceived),
    }
}
pub open spec fn kind_ok(mode: Mode, g: Got) -> bool {
    match g { Got::Cmd(..) => mode == Mode::Cmd, Got::Announce(..) => mode == Mode::Cmd, Got::Data(..) => mode == Mode::Auth, Got::Done(_) => mode == Mode::Done, _ => true }
}
pub proof fn lemma_round_out(s: SV)
    ensures recv_step(s).1 == round_out(s, look(s.opt, s.mode, s.buf, s.pos)), kind_ok(s.mode, look(s.opt, s.mode, s.buf, s.pos)),
{ }
pub proof fn lemma_recv_answer(m: M, s: SV, g: Got)
    requires rel(m, s), m.idle(), s.cur is None, g == look(s.opt, s.mode, s.buf, s.pos),
    ensures ({
        let o = round_out(s, g);
        &&& s01(m, g, o) && s02(m, g, o) && s03(m, g, o) && s05(m, g, o) && f05(m, g, o)
        &&& (o is Need) == (g is Need) && (o == Out::Nothing) == keeps(m.opt, g)
        &&& !(o is Bytes) && !(o matches Out::Ev(Event::GreetingSent { .. })) && !(o matches Out::Ev(Event::ResponseSent { .. }))
    }),
{
    hide(step); hide(parse); hide(look); hide(canon); hide(recv_step);
    lemma_look(s.opt, s.mode, s.buf, m.pos, Seq::empty());
    lemma_take_off(m, s, look(s.opt, s.mode, s.buf, m.pos));
    lemma_round_out(s);
    assert(g == look(m.opt, m.mode, m.rest(), m.pos));
}
/// The receiving half: what it leaves.
pub proof fn lemma_recv_rest(m: M, s: SV, g: Got)
    requires rel(m, s), m.idle(), s.cur is None, g == look(s.opt, s.mode, s.buf, s.pos),
    ensures ({
        let (s1, o) = recv_step(s);
        &&& s1.opt == s.opt && s1.cur is None && s1.mode == mode_after(s.mode, g) && s1.buf == s.buf.skip(used_by(s.opt, g) as int)
        &&& s1.queue == match answer(s.opt, g) { Some(response) => s.queue.push(QueuedMessage::Response { handle: None, response }), None => s.queue }
        &&& s1.pos == canon(Some(s.opt.max_command_size), s1.buf, pos_after(s.opt, m.pos, g))
        &&& pos_after(s.opt, m.pos, g).0 <= lim(s1.buf.len(), Some(s.opt.max_command_size))
        &&& mode_after(s.mode, g) != Mode::Cmd ==> pos_after(s.opt, m.pos, g) == (0nat, Frag::Line)
        &&& keeps(s.opt, g) ==> slack(s1) < slack(s)
    }),
{
    lemma_look(s.opt, s.mode, s.buf, m.pos, Seq::empty());
    lemma_canon(s.opt.crlf_relaxed, Some(s.opt.max_command_size), s.buf, m.pos, Seq::empty());
    broadcast use lemma_step_bounds;
    assert(s.buf.skip(0) =~= s.buf);
}
/// One round of a poll is as it should be.
pub proof fn lemma_micro(m: M, s: SV)
    requires rel(m, s),
    ensures ({
        let (s1, g, o) = micro(s);
        &&& micro_ok(m, g, o) && rel(note(m, g, o), s1)
        &&& o == Out::Nothing ==> keeps(m.opt, g) && slack(s1) < slack(s)
    }),
{
    let (s1, g, o) = micro(s);
    lemma_send(m, s);
    let (s0, o0) = send_step(s);
    if o0 == Out::Nothing {
        lemma_recv_answer(m, s0, g);
        lemma_round_out(s0);
        lemma_recv_rest(m, s0, g);
        lemma_round(m, s0, g, o, s1);
    }
}
pub proof fn lemma_round(m: M, s: SV, g: Got, o: Out, s1: SV)
    requires rel(m, s), m.idle(), s.cur is None, g == look(s.opt, s.mode, s.buf, m.pos), (s1, o) == recv_step(s),
        (o is Need) == (g is Need), !(o is Bytes), !(o matches Out::Ev(Event::GreetingSent { .. })), !(o matches Out::Ev(Event::ResponseSent { .. })),
        s1.opt == s.opt && s1.cur is None && s1.mode == mode_after(s.mode, g) && s1.buf == s.buf.skip(used_by(s.opt, g) as int),
        s1.queue == match answer(s.opt, g) { Some(response) => s.queue.push(QueuedMessage::Response { handle: None, response }), None => s.queue },
        s1.pos == canon(Some(s.opt.max_command_size), s1.buf, pos_after(s.opt, m.pos, g)),
        pos_after(s.opt, m.pos, g).0 <= lim(s1.buf.len(), Some(s.opt.max_command_size)),
        mode_after(s.mode, g) != Mode::Cmd ==> pos_after(s.opt, m.pos, g) == (0nat, Frag::Line),
    ensures f01(m, g, o), rel(note(m, g, o), s1),
{
    hide(recv_step);
    hide(look);
    hide(step);
    hide(canon);
    let m1 = note(m, g, o);
    let n = used_by(m.opt, g) as int;
    lemma_take_off(m, s, g);
    let x = m1.msgs.skip(m1.sent as int);
    match answer(m.opt, g) { Some(response) => { assert(x =~= s.queue.push(QueuedMessage::Response { handle: None, response })); } None => {} }
    assert(rel_send(m1, s1));
    assert(s.buf.skip(0) =~= s.buf);
    assert(s.buf.take(0) =~= Seq::<u8>::empty());
    assert(m.used + Seq::<u8>::empty() =~= m.used);
    assert(m1.used == m.used + s.buf.take(n));
    assert(m1.fed == m1.used + s1.buf);
    assert(rel_recv(m1, s1));
    lemma_take_off(m1, s1, look(s1.opt, s1.mode, s1.buf, m1.pos));
}
/// A poll is as it should be.
pub proof fn lemma_poll(m: M, s: SV) -> (r: (Seq<Got>, M))
    requires rel(m, s),
    ensures poll_ok(m, r.0, next_step(s).1, r.1), rel(r.1, next_step(s).0),
    decreases slack(s)
{
    let (s1, g, o) = micro(s);
    lemma_micro(m, s);
    let m1 = note(m, g, o);
    reveal_with_fuel(poll_ok, 2);
    if o == Out::Nothing {
        let (gs, m2) = lemma_poll(m1, s1);
        let all = seq![g] + gs;
        assert(all.skip(1) =~= gs);
        assert(gs.len() > 0);
        (all, m2)
    } else {
        let gs = seq![g];
        (gs, m1)
    }
}
pub proof fn lemma_start_rel(opt: Options, greeting: Greeting<'static>)
    ensures rel(start(opt, greeting), SV { opt, mode: Mode::Cmd, buf: Seq::empty(), pos: (0, Frag::Line), queue: seq![QueuedMessage::Greeting { greeting }], cur: None }),
{
    let m = start(opt, greeting);
    assert(m.msgs.skip(0) =~= m.msgs);
    assert(m.fed =~= m.used + Seq::<u8>::empty());
    lemma_fresh(m, Seq::empty());
}
/// Nothing was received yet since the user decided.
pub proof fn lemma_fresh(m: M, buf: Seq<u8>)
    requires m.log.len() == 0, m.pos == (0nat, Frag::Line), m.base == (m.mode, m.used.len()), m.fed == m.used + buf,
    ensures continues(m.opt, m.log, m.mode, buf, m.pos, m.base.0, m.fed.skip(m.base.1 as int)),
{
    reveal(continues);
    assert(m.fed.skip(m.base.1 as int) =~= buf);
    assert forall|more: Seq<u8>| m.log + #[trigger] parse(m.opt, m.mode, buf + more, m.pos) == parse(m.opt, m.base.0, m.fed.skip(m.base.1 as int) + more, (0, Frag::Line)) by {
        assert(m.log + parse(m.opt, m.mode, buf + more, m.pos) =~= parse(m.opt, m.mode, buf + more, m.pos));
    }
}
pub proof fn lemma_input(m: M, s: SV, b: Seq<u8>)
    requires rel(m, s),
    ensures rel(M { fed: m.fed + b, ..m }, SV { buf: s.buf + b, pos: canon(Some(s.opt.max_command_size), s.buf + b, s.pos), ..s }),
{
    let m1 = M { fed: m.fed + b, ..m };
    let s1 = SV { buf: s.buf + b, pos: canon(Some(s.opt.max_command_size), s.buf + b, s.pos), ..s };
    lemma_canon(s.opt.crlf_relaxed, Some(s.opt.max_command_size), s.buf, m.pos, b);
    assert(m1.fed =~= m1.used + s1.buf);
    reveal(continues);
    let stream = m.fed.skip(m.base.1 as int);
    assert(m1.fed.skip(m.base.1 as int) =~= stream + b);
    if m.opt.max_command_size > 0 {
        assert forall|more: Seq<u8>| m.log + #[trigger] parse(m.opt, m.mode, (s.buf + b) + more, m.pos) == parse(m.opt, m.base.0, (stream + b) + more, (0, Frag::Line)) by {
            assert((s.buf + b) + more =~= s.buf + (b + more));
            assert((stream + b) + more =~= stream + (b + more));
        }
    }
}
pub proof fn lemma_user_sends(m: M, s: SV, handle: ResponseHandle, response: Response<'static>)
    requires rel(m, s),
    ensures rel(user_sends(m, handle, response), user_reply(s, handle, response)),
{
    let m1 = user_sends(m, handle, response);
    assert(m1.msgs.skip(m.sent as int) =~= s.queue.push(QueuedMessage::Response { handle: Some(handle), response }));
    if m.sent > 0 { assert(m1.last() == m.last()); }
}
pub proof fn lemma_user_switches(m: M, s: SV, mode: Mode)
    requires rel(m, s), m.mode != Mode::Cmd,
    ensures rel(user_switches(m, mode), SV { mode, ..s }),
{
    lemma_fresh(user_switches(m, mode), s.buf);
}
/// F04: up to the limit the limit makes no difference, and a message is too long exactly if as many bytes as the limit permits are
/// there and do not decide it.
pub proof fn lemma_limit_is_exact(relaxed: bool, max: u32, b: Seq<u8>, seen: nat, frag: Frag)
    requires seen <= lim(b.len(), Some(max)),
    ensures ({
        let free = step(relaxed, None, b, seen, frag);
        let limited = step(relaxed, Some(max), b, seen, frag);
        let n = match free { Step::BadLf(n) => n, Step::Decode(n) => n, _ => 0 };
        &&& !(free is Need) && n <= max ==> limited == free
        &&& !(free is Need) && n > max ==> limited == Step::TooLong(max as nat)
        &&& free is Need ==> limited == if b.len() >= max { Step::TooLong(max as nat) } else { Step::Need }
    }),
{
    let l = lim(b.len(), Some(max)) as int;
    let at = match frag { Frag::Line => seen, Frag::Lit(n) => seen + n } as int;
    if at <= b.len() {
        let y = b.subrange(at, b.len() as int);
        lemma_first_lf(y);
        if at <= l {
            let x = b.subrange(at, l);
            lemma_first_lf(x);
            assert(forall|j: int| 0 <= j < x.len() ==> x[j] == y[j]);
            match first_lf(x) {
                Some(k) => { assert(y[k as int] == 10); match first_lf(y) { Some(k2) => { if k2 < k { assert(x[k2 as int] == 10); } if k2 > k { assert(y[k as int] != 10); } } None => {} } }
                None => { match first_lf(y) { Some(k2) => { if k2 < x.len() { assert(x[k2 as int] == 10); } } None => {} } }
            }
        }
    }
}

// ---- the same for the code: a server together with its observer, over the contracts of the public functions ----
pub struct Watched { pub s: Server, pub m: Ghost<M> }
impl Watched {
    pub open spec fn wf(self) -> bool { self.s.wf() && rel(self.m@, self.s.sv()) }
    pub fn new(options: Options, greeting: Greeting<'static>) -> (r: Self)
        requires options.wf(),
        ensures r.wf(), r.m@ == start(options, greeting),
    {
        let s = Server::new(options, greeting);
        proof { lemma_start_rel(options, greeting); }
        Watched { s, m: Ghost(start(options, greeting)) }
    }
    /// Every poll answers as it should.
    pub fn poll(&mut self) -> (r: Result<Event, Interrupt<Error>>)
        requires old(self).wf(),
        ensures final(self).wf(), exists|gs: Seq<Got>| #[trigger] poll_ok(old(self).m@, gs, out_of_next(r), final(self).m@),
    {
        let ghost s0 = self.s.sv();
        let r = State::next(&mut self.s);
        proof { let (gs, m2) = lemma_poll(self.m@, s0); self.m@ = m2; }
        r
    }
    pub fn input(&mut self, bytes: &[u8])
        requires old(self).wf(),
        ensures final(self).wf(), final(self).m@ == (M { fed: old(self).m@.fed + bytes@, ..old(self).m@ }),
    {
        let ghost s0 = self.s.sv();
        State::enqueue_input(&mut self.s, bytes);
        proof { lemma_input(self.m@, s0, bytes@); self.m@ = M { fed: self.m@.fed + bytes@, ..self.m@ }; }
    }
    pub fn send_data(&mut self, data: Data<'static>) -> (r: ResponseHandle)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).m@ == user_sends(old(self).m@, r, Response::Data(data)),
    {
        let ghost s0 = self.s.sv();
        let r = self.s.enqueue_data(data);
        proof { lemma_user_sends(self.m@, s0, r, Response::Data(data)); self.m@ = user_sends(self.m@, r, Response::Data(data)); }
        r
    }
    pub fn send_status(&mut self, status: Status<'static>) -> (r: ResponseHandle)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).m@ == user_sends(old(self).m@, r, Response::Status(status)),
    {
        let ghost s0 = self.s.sv();
        let r = self.s.enqueue_status(status);
        proof { lemma_user_sends(self.m@, s0, r, Response::Status(status)); self.m@ = user_sends(self.m@, r, Response::Status(status)); }
        r
    }
    pub fn send_continuation(&mut self, c: CommandContinuationRequest<'static>) -> (r: ResponseHandle)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).m@ == user_sends(old(self).m@, r, Response::CommandContinuationRequest(c)),
    {
        let ghost s0 = self.s.sv();
        let r = self.s.enqueue_continuation_request(c);
        proof { lemma_user_sends(self.m@, s0, r, Response::CommandContinuationRequest(c)); self.m@ = user_sends(self.m@, r, Response::CommandContinuationRequest(c)); }
        r
    }
    /// S04: exactly during an authentication.
    pub fn authenticate_continue(&mut self, c: CommandContinuationRequest<'static>) -> (r: Result<ResponseHandle, CommandContinuationRequest<'static>>)
        requires old(self).wf(),
        ensures final(self).wf(), r is Ok <==> old(self).m@.mode == Mode::Auth,
            match r {
                Ok(h) => final(self).m@ == user_sends(old(self).m@, h, Response::CommandContinuationRequest(c)),
                Err(x) => x == c && final(self).m@ == old(self).m@ && final(self).s.sv() == old(self).s.sv(),
            },
    {
        let ghost s0 = self.s.sv();
        let r = self.s.authenticate_continue(c);
        proof {
            if let Ok(h) = r { lemma_user_sends(self.m@, s0, h, Response::CommandContinuationRequest(c)); self.m@ = user_sends(self.m@, h, Response::CommandContinuationRequest(c)); }
        }
        r
    }
    pub fn authenticate_finish(&mut self, status: Status<'static>) -> (r: Result<ResponseHandle, Status<'static>>)
        requires old(self).wf(),
        ensures final(self).wf(), r is Ok <==> old(self).m@.mode == Mode::Auth,
            match r {
                Ok(h) => final(self).m@ == user_switches(user_sends(old(self).m@, h, Response::Status(status)), Mode::Cmd),
                Err(x) => x == status && final(self).m@ == old(self).m@ && final(self).s.sv() == old(self).s.sv(),
            },
    {
        let ghost s0 = self.s.sv();
        let r = self.s.authenticate_finish(status);
        proof {
            if let Ok(h) = r {
                let resp = Response::Status(status);
                lemma_user_sends(self.m@, s0, h, resp);
                self.m@ = user_sends(self.m@, h, resp);
                lemma_user_switches(self.m@, user_reply(s0, h, resp), Mode::Cmd);
                self.m@ = user_switches(self.m@, Mode::Cmd);
            }
        }
        r
    }
    /// S04: exactly while an IDLE waits for the decision.
    pub fn idle_accept(&mut self, c: CommandContinuationRequest<'static>) -> (r: Result<ResponseHandle, CommandContinuationRequest<'static>>)
        requires old(self).wf(),
        ensures final(self).wf(), r is Ok <==> old(self).m@.mode == Mode::Wait,
            match r {
                Ok(h) => final(self).m@ == user_switches(user_sends(old(self).m@, h, Response::CommandContinuationRequest(c)), Mode::Done),
                Err(x) => x == c && final(self).m@ == old(self).m@ && final(self).s.sv() == old(self).s.sv(),
            },
    {
        let ghost s0 = self.s.sv();
        let r = self.s.idle_accept(c);
        proof {
            if let Ok(h) = r {
                let resp = Response::CommandContinuationRequest(c);
                lemma_user_sends(self.m@, s0, h, resp);
                self.m@ = user_sends(self.m@, h, resp);
                lemma_user_switches(self.m@, user_reply(s0, h, resp), Mode::Done);
                self.m@ = user_switches(self.m@, Mode::Done);
            }
        }
        r
    }
    pub fn idle_reject(&mut self, status: Status<'static>) -> (r: Result<ResponseHandle, Status<'static>>)
        requires old(self).wf(),
        ensures final(self).wf(), r is Ok <==> old(self).m@.mode == Mode::Wait,
            match r {
                Ok(h) => final(self).m@ == user_switches(user_sends(old(self).m@, h, Response::Status(status)), Mode::Cmd),
                Err(x) => x == status && final(self).m@ == old(self).m@ && final(self).s.sv() == old(self).s.sv(),
            },
    {
        let ghost s0 = self.s.sv();
        let r = self.s.idle_reject(status);
        proof {
            if let Ok(h) = r {
                let resp = Response::Status(status);
                lemma_user_sends(self.m@, s0, h, resp);
                self.m@ = user_sends(self.m@, h, resp);
                lemma_user_switches(self.m@, user_reply(s0, h, resp), Mode::Cmd);
                self.m@ = user_switches(self.m@, Mode::Cmd);
            }
        }
        r
    }
}
}
}

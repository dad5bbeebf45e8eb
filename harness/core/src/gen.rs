//! Random messages.
use crate::util::Rng;
use imap_types::{auth::*, command::*, core::*, response::*, secret::Secret};
use imap_types::{flag::Flag, mailbox::Mailbox, sequence::SequenceSet};
use std::{borrow::Cow, marker::PhantomData, num::NonZeroU32};

pub fn word(r: &mut Rng) -> String { let n = match r.below(1500) { 0 => *r.pick(&[255u64, 256, 1023, 1024, 8190, 16384, 20000]), 1..=4 => r.range(20, 300), _ => r.range(1, 6) }; (0..n).map(|_| *r.pick(b"abcXYZ019.-") as char).collect() }
pub fn text(r: &mut Rng) -> Text<'static> {
    loop {
        let n = r.range(1, 12);
        let s: String = (0..n).map(|_| *r.pick(b"abc XYZ01.,:)]}{-=") as char).collect();
        if !s.starts_with('[') && !s.starts_with(' ') { return Text::try_from(s).unwrap(); }
    }
}
/// Literal data: anything, with a liking for line ends.
pub fn bytes(r: &mut Rng, n: usize) -> Vec<u8> { (0..n).map(|_| match r.below(8) { 0 => b'\n', 1 => b'\r', 2 => r.next() as u8, 3 => b'}', _ => *r.pick(b"abc {+*") }).collect() }
pub fn parts(r: &mut Rng, lits: bool, size: &mut dyn FnMut(&mut Rng) -> usize) -> Vec<Part> {
    let n = r.below(5);
    (0..n).map(|_| if lits && r.chance(45) { let n = size(r); Part::Literal(bytes(r, n), if r.chance(60) { LiteralMode::Sync } else { LiteralMode::NonSync }) } else { Part::Word(word(r)) }).collect()
}
pub fn mech(r: &mut Rng) -> AuthMechanism<'static> { match r.below(4) { 0 => AuthMechanism::Plain, 1 => AuthMechanism::ScramSha256, 2 => AuthMechanism::of_name("X-FOO"), _ => AuthMechanism::Login } }
pub fn auth_data(r: &mut Rng) -> AuthenticateData<'static> { if r.chance(15) { AuthenticateData::Cancel } else { let n = match r.below(200) { 0 => *r.pick(&[1000usize, 4096, 12288, 16384, 20000]), _ => r.below(12) as usize }; AuthenticateData::Continue(Secret::new(Cow::Owned(bytes(r, n)))) } }
pub fn command(r: &mut Rng, tag: Tag<'static>, size: &mut dyn FnMut(&mut Rng) -> usize) -> Command<'static> {
    let body = match r.below(16) {
        13..=15 => typed(r, size),
        0 => CommandBody::Noop, 12 => r.pick(&[CommandBody::Logout, CommandBody::Check, CommandBody::Close, CommandBody::Expunge, CommandBody::Unselect]).clone(), 1 => CommandBody::Capability, 2 | 3 => CommandBody::Idle,
        4 | 5 => CommandBody::Authenticate { mechanism: mech(r), initial_response: if r.chance(30) { let n = r.below(5) as usize; Some(Secret::new(Cow::Owned(bytes(r, n)))) } else { None } },
        _ => CommandBody::Raw { parts: parts(r, true, size) },
    };
    Command { tag, body }
}
/// A literal of a size that the caller chooses.
fn literal(r: &mut Rng, size: &mut dyn FnMut(&mut Rng) -> usize) -> Literal<'static> { let n = size(r); Literal { data: bytes(r, n), mode: if r.chance(60) { LiteralMode::Sync } else { LiteralMode::NonSync }, p: PhantomData } }
fn astring(r: &mut Rng, size: &mut dyn FnMut(&mut Rng) -> usize) -> AString<'static> { if r.chance(40) { AString::String(IString::Literal(literal(r, size))) } else { AString::Atom(AtomExt(word(r), PhantomData)) } }
fn mailbox(r: &mut Rng, size: &mut dyn FnMut(&mut Rng) -> usize) -> Mailbox<'static> { if r.chance(30) { Mailbox::Inbox } else { Mailbox::of(astring(r, size)) } }
pub fn typed(r: &mut Rng, size: &mut dyn FnMut(&mut Rng) -> usize) -> CommandBody<'static> {
    match r.below(13) {
        0 => CommandBody::StartTLS, 1 | 2 => CommandBody::Login { username: astring(r, size), password: Secret::new(astring(r, size)) }, 3 | 4 => CommandBody::Select { mailbox: mailbox(r, size) }, 5 => CommandBody::Examine { mailbox: mailbox(r, size) },
        6 => CommandBody::Create { mailbox: mailbox(r, size) }, 7 => CommandBody::Delete { mailbox: mailbox(r, size) }, 8 => CommandBody::Rename { from: mailbox(r, size), to: mailbox(r, size) },
        9 | 10 => CommandBody::Append { mailbox: mailbox(r, size), flags: vec![], date: None, message: literal(r, size) }, 11 => CommandBody::Copy { sequence_set: SequenceSet(word(r)), mailbox: mailbox(r, size), uid: false },
        _ => if r.chance(50) { CommandBody::Subscribe { mailbox: mailbox(r, size) } } else { CommandBody::Unsubscribe { mailbox: mailbox(r, size) } },
    }
}
pub fn nz(r: &mut Rng) -> NonZeroU32 { NonZeroU32::new(r.range(1, 99) as u32).unwrap() }
pub fn code(r: &mut Rng) -> Option<Code<'static>> { match r.below(11) { 10 => Some(match r.below(12) { 0 => Code::UidNext(nz(r)), 1 => Code::UidValidity(nz(r)), 2 => Code::Unseen(nz(r)), 3 => Code::CompressionActive, 4 => Code::OverQuota, 5 => Code::TooBig, 6 => Code::UnknownCte, 7 => Code::UidNotSticky, 8 => Code::Closed, 9 => Code::BadCharset { allowed: vec![] }, 10 => Code::Referral(Cow::Owned(word(r))), _ => Code::AppendUid { uid_validity: nz(r), uid: nz(r) } }), 8 => Some(r.pick(&[Code::Parse, Code::ReadWrite, Code::TryCreate]).clone()), 0 => Some(Code::Alert), 1 => Some(Code::ReadOnly), 2 => Some(Code::Capability(caps(r))), 3 => Some(Code::Other(CodeOther::unvalidated(&b"X-Y"[..]))), _ => None } }
pub fn caps(r: &mut Rng) -> Vec1<Capability<'static>> {
    const SOME: [&str; 6] = ["IMAP4REV1", "IDLE", "STARTTLS", "AUTH=PLAIN", "X", "MOVE"];
    const ALL: [&str; 35] = ["IMAP4REV1", "IDLE", "STARTTLS", "AUTH=PLAIN", "AUTH=LOGIN", "AUTH=XOAUTH2", "AUTH=OAUTHBEARER", "AUTH=SCRAM-SHA-1", "AUTH=SCRAM-SHA-256-PLUS", "AUTH=NTLM", "LOGINDISABLED", "MAILBOX-REFERRALS", "LOGIN-REFERRALS", "SASL-IR", "ENABLE",
        "COMPRESS=DEFLATE", "QUOTA", "QUOTASET", "QUOTA=RES-STORAGE", "QUOTA=RES-X", "LITERAL+", "LITERAL-", "MOVE", "ID", "UNSELECT", "SORT", "SORT=DISPLAY", "THREAD=REFERENCES", "METADATA", "METADATA-SERVER", "BINARY", "UIDPLUS", "CONDSTORE", "QRESYNC", "X"];
    let n = match r.below(40) { 0 => r.range(60, 300), 1..=5 => r.range(5, 20), _ => r.range(1, 4) };
    let all = r.chance(40);
    Vec1::try_from((0..n).map(|_| Capability::of_name(if all { *r.pick(&ALL) } else { *r.pick(&SOME) })).collect::<Vec<_>>()).unwrap()
}
pub fn kind(r: &mut Rng) -> StatusKind { *r.pick(&[StatusKind::Ok, StatusKind::No, StatusKind::Bad]) }
pub fn status(r: &mut Rng, tag: Option<Tag<'static>>) -> Status<'static> {
    if tag.is_none() && r.chance(20) { return Status::Bye(Bye { code: code(r), text: text(r) }); }
    let k = kind(r); let c = code(r); Status::new(tag, k, c, text(r)).unwrap()
}
pub fn data(r: &mut Rng) -> Data<'static> { match r.below(8) { 6 => Data::Recent(r.below(9) as u32), 7 => if r.chance(50) { Data::Flags((0..r.below(4)).map(|_| Flag::of(*r.pick(&["\\Seen", "\\Deleted", "\\X", "key"]))).collect()) } else { Data::Search((0..r.below(4)).map(|_| nz(r)).collect(), None) }, 0 => Data::Exists(r.below(100) as u32), 1 => Data::Expunge(nz(r)), 2 => Data::Capability(caps(r)), _ => Data::Raw { parts: parts(r, true, &mut |r| r.size()) } } }
pub fn ccr(r: &mut Rng) -> CommandContinuationRequest<'static> {
    if r.chance(40) { let n = r.below(8) as usize; return CommandContinuationRequest::base64(bytes(r, n)); }
    loop { let c = if r.chance(20) { code(r) } else { None }; if let Ok(c) = CommandContinuationRequest::basic(c, text(r)) { return c; } }
}
pub fn greeting(r: &mut Rng) -> Greeting<'static> { Greeting { kind: *r.pick(&[GreetingKind::Ok, GreetingKind::Ok, GreetingKind::PreAuth, GreetingKind::Bye]), code: code(r), text: text(r) } }
/// Now and then damages a message.
pub fn spoil(r: &mut Rng, mut b: Vec<u8>) -> Vec<u8> {
    match r.below(60) {
        0..=2 => { let n = b.len(); if n >= 2 && b[n - 2] == b'\r' { b.remove(n - 2); } b }
        3 => { let lf: Vec<usize> = (1..b.len()).filter(|i| b[*i] == b'\n' && b[*i - 1] == b'\r').collect(); if !lf.is_empty() { let i = *r.pick(&lf); b.remove(i - 1); } b }
        4 => { if !b.is_empty() { let i = r.below(b.len() as u64) as usize; b[i] = r.next() as u8; } b }
        5 => { if !b.is_empty() { let i = r.below(b.len() as u64) as usize; b.remove(i); } b }
        6 => { let i = r.below(b.len() as u64 + 1) as usize; b.insert(i, *r.pick(b"\r\n {}+")); b }
        7 => b"\r\n".to_vec(),
        8 => b"\n".to_vec(),
        9 => { let n = r.below(20) as usize; let mut x = bytes(r, n); x.extend(b"\r\n"); x }
        10 => { let n = if r.chance(30) { *r.pick(&[u32::MAX as u64, u32::MAX as u64 - 1, 1 << 31, (1 << 31) - 1, 1 << 32, 1 << 24]) } else { r.below(9) }; if r.chance(60) { return format!("A RAW {{{n}{}}}\r\n", if r.chance(50) { "+" } else { "" }).into_bytes(); } format!("A RAW {{{n}}}x\r\n").into_bytes() }
        11 => { let n = b.len(); b.truncate(n.saturating_sub(2)); b.extend(b"\r\r\n"); b }
        _ => b,
    }
}

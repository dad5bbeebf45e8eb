//! Stand-in for the `imap-codec` crate (not available offline): same traits, a small grammar.
use imap_types::{auth::*, command::*, core::*, extensions::idle::IdleDone, response::*, secret::Secret, base64, unbase64};
use imap_types::{flag::*, mailbox::*, sequence::*};
use std::{borrow::Cow, marker::PhantomData, num::NonZeroU32};
pub use imap_types;

macro_rules! codecs { ($($n:ident),*) => { $( #[derive(Clone, Debug, Default, PartialEq, Eq)] #[non_exhaustive] pub struct $n {} impl $n { pub fn new() -> Self { Self::default() } } )* } }
codecs!(GreetingCodec, ResponseCodec, CommandCodec, AuthenticateDataCodec, IdleDoneCodec);

pub mod decode {
    use super::*;
    use bounded_static::IntoBoundedStatic;
    pub trait Decoder {
        type Message<'a>: Sized;
        type Error<'a>;
        fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Self::Message<'a>), Self::Error<'a>>;
    }
    #[derive(Clone, Debug, PartialEq, Eq)] pub enum GreetingDecodeError { Incomplete, Failed }
    #[derive(Clone, Debug, PartialEq, Eq)] pub enum CommandDecodeError<'a> { Incomplete, LiteralFound { tag: Tag<'a>, length: u32, mode: LiteralMode }, Failed }
    #[derive(Clone, Debug, PartialEq, Eq)] pub enum AuthenticateDataDecodeError { Incomplete, Failed }
    #[derive(Clone, Debug, PartialEq, Eq)] pub enum ResponseDecodeError { Incomplete, LiteralFound { length: u32 }, Failed }
    #[derive(Clone, Debug, PartialEq, Eq)] pub enum IdleDoneDecodeError { Incomplete, Failed }
    macro_rules! own { ($($t:ty),*) => { $( impl IntoBoundedStatic for $t { type Static = $t; fn into_static(self) -> $t { self } } )* } }
    own!(GreetingDecodeError, AuthenticateDataDecodeError, ResponseDecodeError, IdleDoneDecodeError);
    impl<'a> IntoBoundedStatic for CommandDecodeError<'a> { type Static = CommandDecodeError<'static>;
        fn into_static(self) -> CommandDecodeError<'static> { match self { Self::Incomplete => CommandDecodeError::Incomplete, Self::Failed => CommandDecodeError::Failed,
            Self::LiteralFound { tag, length, mode } => CommandDecodeError::LiteralFound { tag: tag.into_static(), length, mode } } } }

    pub(crate) enum E { Incomplete, Lit(u32, LiteralMode), Failed }
    type R<T> = Result<T, E>;
    struct P<'i> { b: &'i [u8] }
    impl<'i> P<'i> {
        fn eat(&mut self, s: &str) -> bool { if self.b.starts_with(s.as_bytes()) { self.b = &self.b[s.len()..]; true } else { false } }
        fn eol(&mut self) -> R<()> { if self.eat("\r\n") || self.eat("\n") { Ok(()) } else if self.b.is_empty() { Err(E::Incomplete) } else { Err(E::Failed) } }
        fn span(&mut self, f: impl Fn(u8) -> bool) -> String {
            let n = self.b.iter().position(|x| !f(*x)).unwrap_or(self.b.len());
            let s = String::from_utf8_lossy(&self.b[..n]).into_owned(); self.b = &self.b[n..]; s
        }
        fn word(&mut self) -> R<String> { let s = self.span(|c| c > 32 && c < 127 && !b"[]{}()\"*+".contains(&c) || c == b'+'); if s.is_empty() { Err(if self.b.is_empty() { E::Incomplete } else { E::Failed }) } else { Ok(s) } }
        fn text(&mut self) -> R<Text<'static>> { let s = self.span(|c| c != 0 && c < 128 && c != b'\r' && c != b'\n'); Text::try_from(s).map_err(|_| if self.b.is_empty() { E::Incomplete } else { E::Failed }) }
        fn sp(&mut self) -> R<()> { if self.eat(" ") { Ok(()) } else if self.b.is_empty() { Err(E::Incomplete) } else { Err(E::Failed) } }
        fn parts(&mut self) -> R<Vec<Part>> {
            let mut v = Vec::new();
            while self.eat(" ") {
                if self.eat("{") {
                    let n: u32 = self.span(|c| c.is_ascii_digit()).parse().map_err(|_| E::Failed)?;
                    let mode = if self.eat("+") { LiteralMode::NonSync } else { LiteralMode::Sync };
                    if !self.eat("}") { return Err(E::Failed); }
                    self.eol()?;
                    if self.b.is_empty() { return Err(E::Lit(n, mode)); }
                    if self.b.len() < n as usize { return Err(E::Incomplete); }
                    v.push(Part::Literal(self.b[..n as usize].to_vec(), mode));
                    self.b = &self.b[n as usize..];
                } else { v.push(Part::Word(self.word()?)); }
            }
            Ok(v)
        }
        fn code(&mut self) -> R<Option<Code<'static>>> {
            if !self.eat("[") { return Ok(None); }
            let c = match self.word()?.as_str() {
                "ALERT" => Code::Alert, "PARSE" => Code::Parse, "READ-ONLY" => Code::ReadOnly, "READ-WRITE" => Code::ReadWrite, "TRYCREATE" => Code::TryCreate,
                "CAPABILITY" => Code::Capability(self.caps()?),
                "UIDNEXT" => Code::UidNext(self.nz()?), "UIDVALIDITY" => Code::UidValidity(self.nz()?), "UNSEEN" => Code::Unseen(self.nz()?), "COMPRESSIONACTIVE" => Code::CompressionActive, "OVERQUOTA" => Code::OverQuota, "TOOBIG" => Code::TooBig,
                "UNKNOWN-CTE" => Code::UnknownCte, "UIDNOTSTICKY" => Code::UidNotSticky, "CLOSED" => Code::Closed, "NOMODSEQ" => Code::NoModSeq, "BADCHARSET" => Code::BadCharset { allowed: vec![] },
                "REFERRAL" => { self.sp()?; Code::Referral(Cow::Owned(self.word()?)) }
                "APPENDUID" => Code::AppendUid { uid_validity: self.nz()?, uid: self.nz()? },
                o => Code::Other(CodeOther::unvalidated(o.as_bytes().to_vec())),
            };
            if !self.eat("]") { return Err(E::Failed); }
            self.sp()?;
            Ok(Some(c))
        }
        fn nz(&mut self) -> R<NonZeroU32> { self.sp()?; self.span(|c| c.is_ascii_digit()).parse().map_err(|_| E::Failed) }
        fn flags(&mut self) -> R<Vec<Flag<'static>>> { let mut v = vec![]; while self.eat(" ") { v.push(Flag::of(&self.word()?)); } Ok(v) }
        fn astring(p: &Part) -> AString<'static> { match p { Part::Word(w) => AString::Atom(AtomExt(w.clone(), PhantomData)), Part::Literal(d, mode) => AString::String(IString::Literal(Literal { data: d.clone(), mode: *mode, p: PhantomData })) } }
        fn caps(&mut self) -> R<Vec1<Capability<'static>>> {
            let mut v = Vec::new();
            while self.eat(" ") { v.push(Capability::of_name(&self.word()?)); }
            Vec1::try_from(v).map_err(|_| E::Failed)
        }
        fn kind(&mut self) -> Option<StatusKind> { if self.eat("OK ") { Some(StatusKind::Ok) } else if self.eat("NO ") { Some(StatusKind::No) } else if self.eat("BAD ") { Some(StatusKind::Bad) } else { None } }
        fn code_text(&mut self) -> R<(Option<Code<'static>>, Text<'static>)> { let c = self.code()?; let t = self.text()?; self.eol()?; Ok((c, t)) }
        fn greeting(&mut self) -> R<Greeting<'static>> {
            if !self.eat("* ") { return Err(E::Failed); }
            let kind = if self.eat("OK ") { GreetingKind::Ok } else if self.eat("PREAUTH ") { GreetingKind::PreAuth } else if self.eat("BYE ") { GreetingKind::Bye } else { return Err(E::Failed) };
            let (code, text) = self.code_text()?;
            Ok(Greeting { kind, code, text })
        }
        fn response(&mut self) -> R<Response<'static>> {
            if self.eat("+ ") {
                let line = self.span(|c| c != b'\r' && c != b'\n');
                if let Some(d) = unbase64(line.as_bytes()) { self.eol()?; return Ok(Response::CommandContinuationRequest(CommandContinuationRequest::base64(d))); }
                let mut p = P { b: line.as_bytes() };
                let code = p.code()?;
                let c = CommandContinuationRequest::basic(code, p.text()?).map_err(|_| E::Failed)?;
                if !p.b.is_empty() { return Err(E::Failed); }
                self.eol()?;
                return Ok(Response::CommandContinuationRequest(c));
            }
            if self.eat("* ") {
                if let Some(kind) = self.kind() { let (code, text) = self.code_text()?; return Ok(Response::Status(Status::Untagged(StatusBody { kind, code, text }))); }
                if self.eat("BYE ") { let (code, text) = self.code_text()?; return Ok(Response::Status(Status::Bye(Bye { code, text }))); }
                let d = if self.eat("CAPABILITY") { Data::Capability(self.caps()?) }
                    else if self.eat("RAW") { Data::Raw { parts: self.parts()? } }
                    else if self.eat("FLAGS") { Data::Flags(self.flags()?) }
                    else if self.eat("SEARCH") { let mut v = vec![]; while self.b.starts_with(b" ") { v.push(self.nz()?); } Data::Search(v, None) }
                    else { let n: u32 = self.span(|c| c.is_ascii_digit()).parse().map_err(|_| E::Failed)?;
                        if self.eat(" EXISTS") { Data::Exists(n) } else if self.eat(" RECENT") { Data::Recent(n) } else if self.eat(" EXPUNGE") { Data::Expunge(n.try_into().map_err(|_| E::Failed)?) } else { return Err(E::Failed) } };
                self.eol()?;
                return Ok(Response::Data(d));
            }
            let tag = self.tag()?;
            let Some(kind) = self.kind() else { return Err(E::Failed) };
            let (code, text) = self.code_text()?;
            Ok(Response::Status(Status::Tagged(Tagged { tag, body: StatusBody { kind, code, text } })))
        }
        fn tag(&mut self) -> R<Tag<'static>> {
            let t = self.span(|c| imap_types::core::tag_byte(c));
            let t = Tag::try_from(t).map_err(|_| E::Failed)?;
            self.sp()?;
            Ok(t)
        }
        fn command(&mut self) -> Result<Command<'static>, (Option<Tag<'static>>, E)> {
            let tag = self.tag().map_err(|e| (None, e))?;
            let t = Some(tag.clone());
            let body = self.body().map_err(|e| (t.clone(), e))?;
            self.eol().map_err(|e| (t, e))?;
            Ok(Command { tag, body })
        }
        fn body(&mut self) -> R<CommandBody<'static>> {
            Ok(if self.eat("NOOP") { CommandBody::Noop } else if self.eat("LOGOUT") { CommandBody::Logout } else if self.eat("CHECK") { CommandBody::Check } else if self.eat("CLOSE") { CommandBody::Close }
                else if self.eat("EXPUNGE") { CommandBody::Expunge } else if self.eat("UNSELECT") { CommandBody::Unselect } else if self.eat("CAPABILITY") { CommandBody::Capability } else if self.eat("IDLE") { CommandBody::Idle }
                else if self.eat("AUTHENTICATE ") {
                    let mechanism = AuthMechanism::of_name(&self.word()?);
                    let initial_response = if self.eat(" ") { let w = self.word()?; Some(Secret::new(Cow::Owned(if w == "=" { vec![] } else { unbase64(w.as_bytes()).ok_or(E::Failed)? }))) } else { None };
                    CommandBody::Authenticate { mechanism, initial_response }
                } else if self.eat("RAW") { CommandBody::Raw { parts: self.parts()? } } else if self.eat("STARTTLS") { CommandBody::StartTLS }
                else {
                    let name = self.span(|c| c.is_ascii_uppercase());
                    let p = self.parts()?;
                    let mb = |i: usize| Mailbox::of(Self::astring(&p[i]));
                    match (name.as_str(), p.as_slice()) {
                        ("LOGIN", [u, w]) => CommandBody::Login { username: Self::astring(u), password: Secret::new(Self::astring(w)) },
                        ("SELECT", [_]) => CommandBody::Select { mailbox: mb(0) }, ("EXAMINE", [_]) => CommandBody::Examine { mailbox: mb(0) }, ("CREATE", [_]) => CommandBody::Create { mailbox: mb(0) }, ("DELETE", [_]) => CommandBody::Delete { mailbox: mb(0) },
                        ("SUBSCRIBE", [_]) => CommandBody::Subscribe { mailbox: mb(0) }, ("UNSUBSCRIBE", [_]) => CommandBody::Unsubscribe { mailbox: mb(0) }, ("RENAME", [_, _]) => CommandBody::Rename { from: mb(0), to: mb(1) },
                        ("APPEND", [_, Part::Literal(d, mode)]) => CommandBody::Append { mailbox: mb(0), flags: vec![], date: None, message: Literal { data: d.clone(), mode: *mode, p: PhantomData } },
                        ("COPY", [Part::Word(s), _]) => CommandBody::Copy { sequence_set: SequenceSet(s.clone()), mailbox: mb(1), uid: false }, ("MOVE", [Part::Word(s), _]) => CommandBody::Move { sequence_set: SequenceSet(s.clone()), mailbox: mb(1), uid: false },
                        _ => return Err(E::Failed),
                    }
                } )
        }
    }
    impl Decoder for GreetingCodec { type Message<'a> = Greeting<'a>; type Error<'a> = GreetingDecodeError;
        fn decode<'a>(&self, b: &'a [u8]) -> Result<(&'a [u8], Greeting<'a>), GreetingDecodeError> {
            let mut p = P { b }; match p.greeting() { Ok(m) => Ok((p.b, m)), Err(E::Incomplete) => Err(GreetingDecodeError::Incomplete), _ => Err(GreetingDecodeError::Failed) } } }
    impl Decoder for ResponseCodec { type Message<'a> = Response<'a>; type Error<'a> = ResponseDecodeError;
        fn decode<'a>(&self, b: &'a [u8]) -> Result<(&'a [u8], Response<'a>), ResponseDecodeError> {
            let mut p = P { b }; match p.response() { Ok(m) => Ok((p.b, m)), Err(E::Incomplete) => Err(ResponseDecodeError::Incomplete), Err(E::Lit(length, _)) => Err(ResponseDecodeError::LiteralFound { length }), _ => Err(ResponseDecodeError::Failed) } } }
    impl Decoder for CommandCodec { type Message<'a> = Command<'a>; type Error<'a> = CommandDecodeError<'a>;
        fn decode<'a>(&self, b: &'a [u8]) -> Result<(&'a [u8], Command<'a>), CommandDecodeError<'a>> {
            let mut p = P { b }; match p.command() { Ok(m) => Ok((p.b, m)), Err((_, E::Incomplete)) => Err(CommandDecodeError::Incomplete),
                Err((Some(tag), E::Lit(length, mode))) => Err(CommandDecodeError::LiteralFound { tag, length, mode }), _ => Err(CommandDecodeError::Failed) } } }
    impl Decoder for AuthenticateDataCodec { type Message<'a> = AuthenticateData<'a>; type Error<'a> = AuthenticateDataDecodeError;
        fn decode<'a>(&self, b: &'a [u8]) -> Result<(&'a [u8], AuthenticateData<'a>), AuthenticateDataDecodeError> {
            let mut p = P { b };
            let m = if p.eat("*") { AuthenticateData::Cancel } else { let s = p.span(|c| c != b'\r' && c != b'\n'); AuthenticateData::Continue(Secret::new(Cow::Owned(unbase64(s.as_bytes()).ok_or(AuthenticateDataDecodeError::Failed)?))) };
            match p.eol() { Ok(()) => Ok((p.b, m)), Err(E::Incomplete) => Err(AuthenticateDataDecodeError::Incomplete), _ => Err(AuthenticateDataDecodeError::Failed) } } }
    impl Decoder for IdleDoneCodec { type Message<'a> = IdleDone; type Error<'a> = IdleDoneDecodeError;
        fn decode<'a>(&self, b: &'a [u8]) -> Result<(&'a [u8], IdleDone), IdleDoneDecodeError> {
            let mut p = P { b };
            if !p.eat("DONE") { return Err(if b"DONE".starts_with(b) { IdleDoneDecodeError::Incomplete } else { IdleDoneDecodeError::Failed }); }
            match p.eol() { Ok(()) => Ok((p.b, IdleDone)), Err(E::Incomplete) => Err(IdleDoneDecodeError::Incomplete), _ => Err(IdleDoneDecodeError::Failed) } } }
}
pub mod encode {
    use super::*;
    use std::collections::VecDeque;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Fragment { Line { data: Vec<u8> }, Literal { data: Vec<u8>, mode: LiteralMode } }
    #[derive(Clone, Debug)]
    pub struct Encoded { items: VecDeque<Fragment> }
    impl Encoded { pub fn dump(self) -> Vec<u8> { self.flat_map(|f| match f { Fragment::Line { data } | Fragment::Literal { data, .. } => data }).collect() } }
    impl Iterator for Encoded { type Item = Fragment; fn next(&mut self) -> Option<Fragment> { self.items.pop_front() } }
    pub trait Encoder { type Message<'a>; fn encode(&self, m: &Self::Message<'_>) -> Encoded; }
    #[derive(Default)] struct W { items: VecDeque<Fragment>, cur: Vec<u8> }
    impl W {
        fn s(&mut self, s: &str) { self.cur.extend(s.as_bytes()); }
        fn flush(&mut self) { if !self.cur.is_empty() { let data = std::mem::take(&mut self.cur); self.items.push_back(Fragment::Line { data }); } }
        fn done(mut self) -> Encoded { self.s("\r\n"); self.flush(); Encoded { items: self.items } }
        fn parts(&mut self, parts: &[Part]) { for p in parts { match p {
            Part::Word(w) => { self.s(" "); self.s(w); }
            Part::Literal(d, mode) => { self.s(&format!(" {{{}{}}}\r\n", d.len(), if *mode == LiteralMode::NonSync { "+" } else { "" })); self.flush(); self.items.push_back(Fragment::Literal { data: d.clone(), mode: *mode }); }
        } } }
        fn caps(&mut self, c: &Vec1<Capability>) { for c in c.iter() { self.s(" "); self.s(&c.name()); } }
        fn astring(&mut self, a: &AString) { match a {
            AString::Atom(a) => self.s(a.inner()), AString::String(IString::Quoted(q)) => { self.s("\""); self.s(q.inner()); self.s("\""); }
            AString::String(IString::Literal(l)) => self.literal(l) } }
        fn literal(&mut self, l: &Literal) { self.s(&format!("{{{}{}}}\r\n", l.data.len(), if l.mode == LiteralMode::NonSync { "+" } else { "" })); self.flush(); self.items.push_back(Fragment::Literal { data: l.data.clone(), mode: l.mode }); }
        fn mailbox(&mut self, m: &Mailbox) { self.s(" "); match m { Mailbox::Inbox => self.s("INBOX"), Mailbox::Other(o) => self.astring(o.inner()) } }
        fn code(&mut self, c: &Option<Code>) { if let Some(c) = c { self.s("["); match c {
            Code::Alert => self.s("ALERT"), Code::Parse => self.s("PARSE"), Code::ReadOnly => self.s("READ-ONLY"), Code::ReadWrite => self.s("READ-WRITE"), Code::TryCreate => self.s("TRYCREATE"), Code::Other(o) => self.cur.extend(o.inner()),
            Code::UidNext(n) => self.s(&format!("UIDNEXT {n}")), Code::UidValidity(n) => self.s(&format!("UIDVALIDITY {n}")), Code::Unseen(n) => self.s(&format!("UNSEEN {n}")), Code::CompressionActive => self.s("COMPRESSIONACTIVE"), Code::OverQuota => self.s("OVERQUOTA"), Code::TooBig => self.s("TOOBIG"),
            Code::UnknownCte => self.s("UNKNOWN-CTE"), Code::UidNotSticky => self.s("UIDNOTSTICKY"), Code::Closed => self.s("CLOSED"), Code::NoModSeq => self.s("NOMODSEQ"), Code::BadCharset { .. } => self.s("BADCHARSET"), Code::Referral(r) => { self.s("REFERRAL "); self.s(r) }
            Code::AppendUid { uid_validity, uid } => self.s(&format!("APPENDUID {uid_validity} {uid}")),
            Code::Capability(c) => { self.s("CAPABILITY"); self.caps(c); }, _ => unreachable!() } self.s("] "); } }
        fn kind(&mut self, k: StatusKind) { self.s(match k { StatusKind::Ok => "OK ", StatusKind::No => "NO ", StatusKind::Bad => "BAD " }); }
    }
    impl Encoder for GreetingCodec { type Message<'a> = Greeting<'a>; fn encode(&self, m: &Greeting<'_>) -> Encoded {
        let mut w = W::default(); w.s("* "); w.s(match m.kind { GreetingKind::Ok => "OK ", GreetingKind::PreAuth => "PREAUTH ", GreetingKind::Bye => "BYE " }); w.code(&m.code); w.s(m.text.inner()); w.done() } }
    impl Encoder for ResponseCodec { type Message<'a> = Response<'a>; fn encode(&self, m: &Response<'_>) -> Encoded {
        let mut w = W::default();
        match m {
            Response::CommandContinuationRequest(CommandContinuationRequest::Base64(b)) => { w.s("+ "); w.s(&base64(&b.0)); }
            Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b)) => { w.s("+ "); w.code(&b.code().cloned()); w.s(b.text().inner()); }
            Response::Data(d) => { w.s("* "); match d { Data::Capability(c) => { w.s("CAPABILITY"); w.caps(c); } Data::Exists(n) => w.s(&format!("{n} EXISTS")), Data::Recent(n) => w.s(&format!("{n} RECENT")), Data::Flags(f) => { w.s("FLAGS"); for f in f { w.s(" "); w.s(&f.name()); } } Data::Search(v, _) => { w.s("SEARCH"); for n in v { w.s(&format!(" {n}")); } } Data::Expunge(n) => w.s(&format!("{n} EXPUNGE")), Data::Raw { parts } => { w.s("RAW"); w.parts(parts); } _ => unreachable!() } }
            Response::Status(s) => match s {
                Status::Untagged(b) => { w.s("* "); w.kind(b.kind); w.code(&b.code); w.s(b.text.inner()); }
                Status::Tagged(t) => { w.s(t.tag.inner()); w.s(" "); w.kind(t.body.kind); w.code(&t.body.code); w.s(t.body.text.inner()); }
                Status::Bye(b) => { w.s("* BYE "); w.code(&b.code); w.s(b.text.inner()); }
            },
        }
        w.done() } }
    impl Encoder for CommandCodec { type Message<'a> = Command<'a>; fn encode(&self, m: &Command<'_>) -> Encoded {
        let mut w = W::default(); w.s(m.tag.inner()); w.s(" ");
        match &m.body {
            CommandBody::Noop => w.s("NOOP"), CommandBody::Logout => w.s("LOGOUT"), CommandBody::Check => w.s("CHECK"), CommandBody::Close => w.s("CLOSE"), CommandBody::Expunge => w.s("EXPUNGE"), CommandBody::Unselect => w.s("UNSELECT"), CommandBody::Capability => w.s("CAPABILITY"), CommandBody::Idle => w.s("IDLE"), CommandBody::Raw { parts } => { w.s("RAW"); w.parts(parts); }
            CommandBody::Authenticate { mechanism, initial_response } => { w.s("AUTHENTICATE "); w.s(&mechanism.name()); if let Some(r) = initial_response { w.s(" "); let r = r.declassify(); w.s(&if r.is_empty() { "=".to_string() } else { base64(r) }); } }
            CommandBody::StartTLS => w.s("STARTTLS"),
            CommandBody::Login { username, password } => { w.s("LOGIN "); w.astring(username); w.s(" "); w.astring(password.declassify()); }
            CommandBody::Select { mailbox } | CommandBody::Examine { mailbox } | CommandBody::Create { mailbox } | CommandBody::Delete { mailbox } | CommandBody::Subscribe { mailbox } | CommandBody::Unsubscribe { mailbox } => { w.s(m.body.name()); w.mailbox(mailbox); }
            CommandBody::Rename { from, to } => { w.s("RENAME"); w.mailbox(from); w.mailbox(to); }
            CommandBody::Append { mailbox, message, .. } => { w.s("APPEND"); w.mailbox(mailbox); w.s(" "); w.literal(message); }
            CommandBody::Copy { sequence_set, mailbox, .. } | CommandBody::Move { sequence_set, mailbox, .. } => { w.s(m.body.name()); w.s(" "); w.s(&sequence_set.0); w.mailbox(mailbox); }
            _ => unreachable!(),
        }
        w.done() } }
    impl Encoder for AuthenticateDataCodec { type Message<'a> = AuthenticateData<'a>; fn encode(&self, m: &AuthenticateData<'_>) -> Encoded {
        let mut w = W::default(); match m { AuthenticateData::Cancel => w.s("*"), AuthenticateData::Continue(d) => w.s(&base64(d.declassify())) } w.done() } }
    impl Encoder for IdleDoneCodec { type Message<'a> = IdleDone; fn encode(&self, _: &IdleDone) -> Encoded { let mut w = W::default(); w.s("DONE"); w.done() } }
}

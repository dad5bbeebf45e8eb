//! Stand-in for the `imap-types` crate (not available offline): the part of its interface that
//! imap-next uses, over a small but structurally faithful set of messages.
pub use bounded_static;
use bounded_static::{IntoBoundedStatic, ToBoundedStatic};
use std::marker::PhantomData;

/// All borrowed-looking types own their data, so only the lifetime parameter changes.
macro_rules! bounded { ($($t:ident),*) => { $(
    impl<'a> IntoBoundedStatic for $t<'a> { type Static = $t<'static>;
        fn into_static(self) -> $t<'static> { let s = std::mem::ManuallyDrop::new(self); unsafe { std::ptr::read(&*s as *const $t<'a> as *const $t<'static>) } } }
    impl<'a> ToBoundedStatic for $t<'a> { type Static = $t<'static>;
        fn to_static(&self) -> $t<'static> { self.clone().into_static() } }
)* } }
use auth::*; use command::*; use response::*; use core::*;
bounded!(Tag, Text, AuthMechanism, AuthMechanismOther, Code, Capability, StatusBody, Tagged, Bye, Status, Data, Greeting,
    CommandContinuationRequestBasic, CommandContinuationRequest, Response, B64);

pub mod utils {
    pub fn escape_byte_string<B: AsRef<[u8]>>(b: B) -> String { b.as_ref().escape_ascii().to_string() }
}
pub mod secret {
    use super::*;
    #[derive(Clone, PartialEq, Eq, Hash)]
    pub struct Secret<T>(T);
    impl<T> Secret<T> {
        pub fn new(v: T) -> Self { Secret(v) }
        pub fn declassify(&self) -> &T { &self.0 }
    }
    impl<T> From<T> for Secret<T> { fn from(v: T) -> Self { Secret(v) } }
    impl<T> std::fmt::Debug for Secret<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("/* REDACTED */") } }
    impl<T: IntoBoundedStatic> IntoBoundedStatic for Secret<T> { type Static = Secret<T::Static>; fn into_static(self) -> Self::Static { Secret(self.0.into_static()) } }
    impl<T: ToBoundedStatic> ToBoundedStatic for Secret<T> { type Static = Secret<T::Static>; fn to_static(&self) -> Self::Static { Secret(self.0.to_static()) } }
}
pub mod core {
    use super::*;
    use std::borrow::Cow;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum LiteralMode { Sync, NonSync }
    #[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct Tag<'a>(String, PhantomData<&'a ()>);
    impl<'a> std::fmt::Debug for Tag<'a> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Tag({:?})", self.0) } }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum ValidationError { Empty, Invalid }
    impl std::fmt::Display for ValidationError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{self:?}") } }
    impl std::error::Error for ValidationError {}
    pub fn tag_byte(b: u8) -> bool { (0x21..0x7f).contains(&b) && !b"(){%*\"\\+".contains(&b) }
    impl<'a> Tag<'a> {
        pub fn validate(b: &[u8]) -> Result<(), ValidationError> {
            if b.is_empty() { Err(ValidationError::Empty) } else if b.iter().all(|b| tag_byte(*b)) { Ok(()) } else { Err(ValidationError::Invalid) }
        }
        pub fn unvalidated<C: Into<Cow<'a, str>>>(s: C) -> Self {
            let s: String = s.into().into_owned();
            #[cfg(debug_assertions)]
            Self::validate(s.as_bytes()).unwrap();
            Tag(s, PhantomData)
        }
        pub fn inner(&self) -> &str { &self.0 }
    }
    impl<'a> From<&Tag<'a>> for String { fn from(t: &Tag<'a>) -> String { t.0.clone() } }
    impl<'a> AsRef<str> for Tag<'a> { fn as_ref(&self) -> &str { &self.0 } }
    impl<'a> TryFrom<&'a str> for Tag<'a> { type Error = ValidationError; fn try_from(s: &'a str) -> Result<Self, ValidationError> { Self::validate(s.as_bytes())?; Ok(Tag(s.to_string(), PhantomData)) } }
    impl<'a> TryFrom<String> for Tag<'a> { type Error = ValidationError; fn try_from(s: String) -> Result<Self, ValidationError> { Self::validate(s.as_bytes())?; Ok(Tag(s, PhantomData)) } }

    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct Text<'a>(String, PhantomData<&'a ()>);
    impl<'a> Text<'a> {
        pub fn validate(b: &[u8]) -> Result<(), ValidationError> {
            if b.is_empty() { Err(ValidationError::Empty) } else if b.iter().all(|b| *b != 0 && *b < 128 && *b != b'\r' && *b != b'\n') { Ok(()) } else { Err(ValidationError::Invalid) }
        }
        pub fn unvalidated<C: Into<Cow<'a, str>>>(s: C) -> Self {
            let s: String = s.into().into_owned();
            #[cfg(debug_assertions)]
            Self::validate(s.as_bytes()).unwrap();
            Text(s, PhantomData)
        }
        pub fn inner(&self) -> &str { &self.0 }
    }
    impl<'a> AsRef<str> for Text<'a> { fn as_ref(&self) -> &str { &self.0 } }
    impl<'a> std::fmt::Display for Text<'a> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
    impl<'a> TryFrom<&'a str> for Text<'a> { type Error = ValidationError; fn try_from(s: &'a str) -> Result<Self, ValidationError> { Self::validate(s.as_bytes())?; Ok(Text(s.to_string(), PhantomData)) } }
    impl<'a> TryFrom<String> for Text<'a> { type Error = ValidationError; fn try_from(s: String) -> Result<Self, ValidationError> { Self::validate(s.as_bytes())?; Ok(Text(s, PhantomData)) } }

    #[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct Atom<'a>(pub String, pub PhantomData<&'a ()>);
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct AtomExt<'a>(pub String, pub PhantomData<&'a ()>);
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct Quoted<'a>(pub String, pub PhantomData<&'a ()>);
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct Literal<'a> { pub data: Vec<u8>, pub mode: LiteralMode, pub p: PhantomData<&'a ()> }
    impl<'a> Literal<'a> { pub fn data(&self) -> &[u8] { &self.data } pub fn mode(&self) -> LiteralMode { self.mode } }
    impl<'a> AsRef<[u8]> for Literal<'a> { fn as_ref(&self) -> &[u8] { &self.data } }
    impl<'a> Atom<'a> { pub fn inner(&self) -> &str { &self.0 } }
    impl<'a> AtomExt<'a> { pub fn inner(&self) -> &str { &self.0 } }
    impl<'a> Quoted<'a> { pub fn inner(&self) -> &str { &self.0 } }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] pub enum IString<'a> { Literal(Literal<'a>), Quoted(Quoted<'a>) }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] pub enum AString<'a> { Atom(AtomExt<'a>), String(IString<'a>) }
    impl<'a> AString<'a> { pub fn bytes(&self) -> &[u8] { match self { AString::Atom(a) => a.0.as_bytes(), AString::String(IString::Literal(l)) => &l.data, AString::String(IString::Quoted(q)) => q.0.as_bytes() } } }
    impl<'a> AsRef<[u8]> for AString<'a> { fn as_ref(&self) -> &[u8] { self.bytes() } }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct Vec1<T>(Vec<T>);
    impl<T> Vec1<T> {
        pub fn unvalidated(v: Vec<T>) -> Self { assert!(!v.is_empty()); Vec1(v) }
        pub fn into_inner(self) -> Vec<T> { self.0 }
    }
    impl<T> AsRef<[T]> for Vec1<T> { fn as_ref(&self) -> &[T] { &self.0 } }
    impl<T> From<T> for Vec1<T> { fn from(t: T) -> Self { Vec1(vec![t]) } }
    impl<T> std::ops::Deref for Vec1<T> { type Target = [T]; fn deref(&self) -> &[T] { &self.0 } }
    impl<T> TryFrom<Vec<T>> for Vec1<T> { type Error = ValidationError; fn try_from(v: Vec<T>) -> Result<Self, ValidationError> { if v.is_empty() { Err(ValidationError::Empty) } else { Ok(Vec1(v)) } } }
    impl<T> IntoIterator for Vec1<T> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
}
pub mod auth {
    use super::*;
    use std::borrow::Cow;
    use secret::Secret;
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct AuthMechanismOther<'a>(String, PhantomData<&'a ()>);
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    #[non_exhaustive]
    pub enum AuthMechanism<'a> {
        Plain, Login, OAuthBearer, XOAuth2, ScramSha1, ScramSha1Plus, ScramSha256, ScramSha256Plus, ScramSha3_512, ScramSha3_512Plus,
        Other(AuthMechanismOther<'a>),
    }
    const NAMES: [(&str, AuthMechanism<'static>); 10] = [
        ("PLAIN", AuthMechanism::Plain), ("LOGIN", AuthMechanism::Login), ("OAUTHBEARER", AuthMechanism::OAuthBearer), ("XOAUTH2", AuthMechanism::XOAuth2),
        ("SCRAM-SHA-1", AuthMechanism::ScramSha1), ("SCRAM-SHA-1-PLUS", AuthMechanism::ScramSha1Plus), ("SCRAM-SHA-256", AuthMechanism::ScramSha256),
        ("SCRAM-SHA-256-PLUS", AuthMechanism::ScramSha256Plus), ("SCRAM-SHA3-512", AuthMechanism::ScramSha3_512), ("SCRAM-SHA3-512-PLUS", AuthMechanism::ScramSha3_512Plus),
    ];
    impl<'a> AuthMechanism<'a> {
        pub fn of_name(s: &str) -> Self {
            NAMES.iter().find(|(n, _)| *n == s).map(|(_, m)| m.clone()).unwrap_or_else(|| AuthMechanism::Other(AuthMechanismOther(s.to_string(), PhantomData)))
        }
        pub fn name(&self) -> String {
            match self { AuthMechanism::Other(o) => o.0.clone(), m => NAMES.iter().find(|(_, n)| n == m).unwrap().0.to_string() }
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub enum AuthenticateData<'a> { Continue(Secret<Cow<'a, [u8]>>), Cancel }
    impl<'a> IntoBoundedStatic for AuthenticateData<'a> { type Static = AuthenticateData<'static>;
        fn into_static(self) -> AuthenticateData<'static> { match self { Self::Continue(s) => AuthenticateData::Continue(s.into_static()), Self::Cancel => AuthenticateData::Cancel } } }
}
pub mod extensions { pub mod idle {
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct IdleDone;
    impl crate::IntoBoundedStatic for IdleDone { type Static = IdleDone; fn into_static(self) -> IdleDone { self } }
} }
pub mod datetime {
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct DateTime(pub String);
}
pub mod mailbox {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] pub enum Mailbox<'a> { Inbox, Other(MailboxOther<'a>) }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct MailboxOther<'a>(pub AString<'a>);
    impl<'a> Mailbox<'a> {
        pub fn of(a: AString<'a>) -> Self { if a.bytes().eq_ignore_ascii_case(b"inbox") { Mailbox::Inbox } else { Mailbox::Other(MailboxOther(a)) } }
    }
    impl<'a> MailboxOther<'a> { pub fn inner(&self) -> &AString<'a> { &self.0 } }
}
pub mod flag {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] pub enum Flag<'a> { Answered, Deleted, Draft, Flagged, Seen, Extension(String, PhantomData<&'a ()>), Keyword(Atom<'a>) }
    impl<'a> Flag<'a> {
        pub fn of(s: &str) -> Self { match s { "\\Answered" => Flag::Answered, "\\Deleted" => Flag::Deleted, "\\Draft" => Flag::Draft, "\\Flagged" => Flag::Flagged, "\\Seen" => Flag::Seen,
            s if s.starts_with('\\') => Flag::Extension(s.into(), PhantomData), s => Flag::Keyword(Atom(s.into(), PhantomData)) } }
        pub fn name(&self) -> String { match self { Flag::Answered => "\\Answered".into(), Flag::Deleted => "\\Deleted".into(), Flag::Draft => "\\Draft".into(), Flag::Flagged => "\\Flagged".into(), Flag::Seen => "\\Seen".into(), Flag::Extension(s, _) => s.clone(), Flag::Keyword(a) => a.0.clone() } }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] pub enum FlagPerm<'a> { Flag(Flag<'a>), Asterisk }
}
pub mod sequence {
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct SequenceSet(pub String);
}
pub mod command {
    use super::*;
    use crate::{flag::*, mailbox::*, sequence::*};
    use std::borrow::Cow;
    use secret::Secret;
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub enum Part { Word(String), Literal(Vec<u8>, LiteralMode) }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct Command<'a> { pub tag: Tag<'a>, pub body: CommandBody<'a> }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    #[non_exhaustive]
    pub enum CommandBody<'a> {
        Capability, Noop, Logout, Check, Close, Expunge, Unselect,
        Authenticate { mechanism: AuthMechanism<'a>, initial_response: Option<Secret<Cow<'a, [u8]>>> },
        Idle,
        StartTLS,
        Login { username: AString<'a>, password: Secret<AString<'a>> },
        Select { mailbox: Mailbox<'a> }, Examine { mailbox: Mailbox<'a> }, Create { mailbox: Mailbox<'a> }, Delete { mailbox: Mailbox<'a> },
        Subscribe { mailbox: Mailbox<'a> }, Unsubscribe { mailbox: Mailbox<'a> },
        Rename { from: Mailbox<'a>, to: Mailbox<'a> },
        Append { mailbox: Mailbox<'a>, flags: Vec<Flag<'a>>, date: Option<datetime::DateTime>, message: Literal<'a> },
        Copy { sequence_set: SequenceSet, mailbox: Mailbox<'a>, uid: bool },
        Move { sequence_set: SequenceSet, mailbox: Mailbox<'a>, uid: bool },
        /// stands for all other commands: words and literals
        Raw { parts: Vec<Part> },
    }
    impl<'a> CommandBody<'a> {
        pub fn name(&self) -> &'static str {
            match self {
                Self::Capability => "CAPABILITY", Self::Noop => "NOOP", Self::Logout => "LOGOUT", Self::Check => "CHECK", Self::Close => "CLOSE", Self::Expunge => "EXPUNGE", Self::Unselect => "UNSELECT",
                Self::Authenticate { .. } => "AUTHENTICATE", Self::Idle => "IDLE", Self::StartTLS => "STARTTLS", Self::Login { .. } => "LOGIN", Self::Select { .. } => "SELECT", Self::Examine { .. } => "EXAMINE",
                Self::Create { .. } => "CREATE", Self::Delete { .. } => "DELETE", Self::Subscribe { .. } => "SUBSCRIBE", Self::Unsubscribe { .. } => "UNSUBSCRIBE", Self::Rename { .. } => "RENAME", Self::Append { .. } => "APPEND",
                Self::Copy { .. } => "COPY", Self::Move { .. } => "MOVE", Self::Raw { .. } => "RAW",
            }
        }
    }
    impl<'a> Command<'a> {
        pub fn new<T: TryInto<Tag<'a>>>(tag: T, body: CommandBody<'a>) -> Result<Self, T::Error> { Ok(Command { tag: tag.try_into()?, body }) }
    }
    bounded!(CommandBody, Command);
}
pub mod response {
    use super::*;
    pub use crate::core::Vec1;
    use crate::flag::*;
    use std::{borrow::Cow, num::{NonZeroU32, NonZeroU64}};
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    #[non_exhaustive]
    pub enum Code<'a> {
        Alert, BadCharset { allowed: Vec<Charset<'a>> }, Capability(Vec1<Capability<'a>>), Parse, PermanentFlags(Vec<FlagPerm<'a>>), ReadOnly, ReadWrite, TryCreate, UidNext(NonZeroU32), UidValidity(NonZeroU32), Unseen(NonZeroU32),
        Referral(Cow<'a, str>), CompressionActive, OverQuota, TooBig, UnknownCte, AppendUid { uid_validity: NonZeroU32, uid: NonZeroU32 }, UidNotSticky, Closed, NoModSeq, HighestModSeq(std::num::NonZeroU64),
        Other(CodeOther<'a>),
    }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct CodeOther<'a>(Cow<'a, [u8]>);
    impl<'a> CodeOther<'a> { pub fn unvalidated<D: Into<Cow<'a, [u8]>>>(d: D) -> Self { CodeOther(d.into()) } pub fn inner(&self) -> &[u8] { &self.0 } }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] pub enum Charset<'a> { Atom(Atom<'a>), Quoted(Quoted<'a>) }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    #[non_exhaustive]
    pub enum Capability<'a> {
        Imap4Rev1, Auth(AuthMechanism<'a>), LoginDisabled, StartTls, Idle, MailboxReferrals, LoginReferrals, SaslIr, Enable,
        Compress { algorithm: CompressionAlgorithm }, Quota, QuotaRes(Resource<'a>), QuotaSet, LiteralPlus, LiteralMinus, Move, Id, Unselect, Sort(Option<SortAlgorithm<'a>>), Thread(ThreadingAlgorithm<'a>),
        Metadata, MetadataServer, Binary, UidPlus, CondStore, QResync, Other(CapabilityOther<'a>),
    }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct CapabilityOther<'a>(Atom<'a>);
    impl<'a> CapabilityOther<'a> { pub fn inner(&self) -> &Atom<'a> { &self.0 } }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)] #[non_exhaustive] pub enum CompressionAlgorithm { Deflate }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] #[non_exhaustive] pub enum Resource<'a> { Storage, Message, Mailbox, AnnotationStorage, Other(Atom<'a>) }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] #[non_exhaustive] pub enum SortAlgorithm<'a> { Display, Other(Atom<'a>) }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] #[non_exhaustive] pub enum ThreadingAlgorithm<'a> { OrderedSubject, References, Other(Atom<'a>) }
    fn atom(s: &str) -> Atom<'static> { Atom(s.to_string(), PhantomData) }
    const CAPS: [(&str, Capability<'static>); 21] = [
        ("IMAP4REV1", Capability::Imap4Rev1), ("LOGINDISABLED", Capability::LoginDisabled), ("STARTTLS", Capability::StartTls), ("IDLE", Capability::Idle),
        ("MAILBOX-REFERRALS", Capability::MailboxReferrals), ("LOGIN-REFERRALS", Capability::LoginReferrals), ("SASL-IR", Capability::SaslIr), ("ENABLE", Capability::Enable),
        ("QUOTA", Capability::Quota), ("QUOTASET", Capability::QuotaSet), ("LITERAL+", Capability::LiteralPlus), ("LITERAL-", Capability::LiteralMinus), ("MOVE", Capability::Move),
        ("ID", Capability::Id), ("UNSELECT", Capability::Unselect), ("METADATA", Capability::Metadata), ("METADATA-SERVER", Capability::MetadataServer), ("BINARY", Capability::Binary),
        ("UIDPLUS", Capability::UidPlus), ("QRESYNC", Capability::QResync), ("CONDSTORE", Capability::CondStore),
    ];
    impl<'a> Capability<'a> {
        pub fn of_name(s: &str) -> Self {
            if let Some((_, c)) = CAPS.iter().find(|(n, _)| *n == s) { return c.clone(); }
            if let Some(m) = s.strip_prefix("AUTH=") { return Capability::Auth(AuthMechanism::of_name(m)); }
            if let Some(m) = s.strip_prefix("QUOTA=RES-") { return Capability::QuotaRes(match m { "STORAGE" => Resource::Storage, "MESSAGE" => Resource::Message, "MAILBOX" => Resource::Mailbox, "ANNOTATION-STORAGE" => Resource::AnnotationStorage, m => Resource::Other(atom(m)) }); }
            if s == "COMPRESS=DEFLATE" { return Capability::Compress { algorithm: CompressionAlgorithm::Deflate }; }
            if let Some(m) = s.strip_prefix("THREAD=") { return Capability::Thread(match m { "ORDEREDSUBJECT" => ThreadingAlgorithm::OrderedSubject, "REFERENCES" => ThreadingAlgorithm::References, m => ThreadingAlgorithm::Other(atom(m)) }); }
            if s == "SORT" { return Capability::Sort(None); }
            if let Some(m) = s.strip_prefix("SORT=") { return Capability::Sort(Some(if m == "DISPLAY" { SortAlgorithm::Display } else { SortAlgorithm::Other(atom(m)) })); }
            Capability::Other(CapabilityOther(atom(s)))
        }
        pub fn name(&self) -> String {
            match self {
                Capability::Auth(m) => format!("AUTH={}", m.name()),
                Capability::QuotaRes(r) => format!("QUOTA=RES-{}", match r { Resource::Storage => "STORAGE", Resource::Message => "MESSAGE", Resource::Mailbox => "MAILBOX", Resource::AnnotationStorage => "ANNOTATION-STORAGE", Resource::Other(a) => a.inner() }),
                Capability::Compress { .. } => "COMPRESS=DEFLATE".into(),
                Capability::Thread(t) => format!("THREAD={}", match t { ThreadingAlgorithm::OrderedSubject => "ORDEREDSUBJECT", ThreadingAlgorithm::References => "REFERENCES", ThreadingAlgorithm::Other(a) => a.inner() }),
                Capability::Sort(None) => "SORT".into(), Capability::Sort(Some(s)) => format!("SORT={}", match s { SortAlgorithm::Display => "DISPLAY", SortAlgorithm::Other(a) => a.inner() }), Capability::Other(o) => o.0.inner().to_string(),
                c => CAPS.iter().find(|(_, n)| n == c).unwrap().0.to_string(),
            }
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum StatusKind { Ok, No, Bad }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct StatusBody<'a> { pub kind: StatusKind, pub code: Option<Code<'a>>, pub text: Text<'a> }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct Tagged<'a> { pub tag: Tag<'a>, pub body: StatusBody<'a> }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct Bye<'a> { pub code: Option<Code<'a>>, pub text: Text<'a> }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub enum Status<'a> { Untagged(StatusBody<'a>), Tagged(Tagged<'a>), Bye(Bye<'a>) }
    impl<'a> Status<'a> {
        pub fn new<T: TryInto<Text<'a>>>(tag: Option<Tag<'a>>, kind: StatusKind, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> {
            let body = StatusBody { kind, code, text: text.try_into()? };
            Ok(match tag { Some(tag) => Status::Tagged(Tagged { tag, body }), None => Status::Untagged(body) })
        }
        pub fn ok<T: TryInto<Text<'a>>>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> { Self::new(tag, StatusKind::Ok, code, text) }
        pub fn no<T: TryInto<Text<'a>>>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> { Self::new(tag, StatusKind::No, code, text) }
        pub fn bad<T: TryInto<Text<'a>>>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> { Self::new(tag, StatusKind::Bad, code, text) }
        pub fn bye<T: TryInto<Text<'a>>>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> { Ok(Status::Bye(Bye { code, text: text.try_into()? })) }
        pub fn tag(&self) -> Option<&Tag<'a>> { match self { Status::Tagged(t) => Some(&t.tag), _ => None } }
        pub fn code(&self) -> Option<&Code<'a>> { match self { Status::Untagged(b) => b.code.as_ref(), Status::Tagged(t) => t.body.code.as_ref(), Status::Bye(b) => b.code.as_ref() } }
        pub fn text(&self) -> &Text<'a> { match self { Status::Untagged(b) => &b.text, Status::Tagged(t) => &t.body.text, Status::Bye(b) => &b.text } }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    #[non_exhaustive]
    pub enum Data<'a> {
        Capability(Vec1<Capability<'a>>), Exists(u32), Recent(u32), Expunge(NonZeroU32), Flags(Vec<Flag<'a>>), Search(Vec<NonZeroU32>, Option<NonZeroU64>),
        /// stands for all other data: words and literals
        Raw { parts: Vec<Part> },
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum GreetingKind { Ok, PreAuth, Bye }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct Greeting<'a> { pub kind: GreetingKind, pub code: Option<Code<'a>>, pub text: Text<'a> }
    impl<'a> Greeting<'a> {
        pub fn new<T: TryInto<Text<'a>>>(kind: GreetingKind, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> { Ok(Greeting { kind, code, text: text.try_into()? }) }
        pub fn ok<T: TryInto<Text<'a>>>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> { Self::new(GreetingKind::Ok, code, text) }
        pub fn preauth<T: TryInto<Text<'a>>>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> { Self::new(GreetingKind::PreAuth, code, text) }
        pub fn bye<T: TryInto<Text<'a>>>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> { Self::new(GreetingKind::Bye, code, text) }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct B64<'a>(pub Vec<u8>, pub PhantomData<&'a ()>);
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct CommandContinuationRequestBasic<'a> { code: Option<Code<'a>>, text: Text<'a> }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum ContinueError<E> { Ambiguity, Text(E) }
    impl<E: std::fmt::Debug> std::fmt::Display for ContinueError<E> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{self:?}") } }
    impl<'a> CommandContinuationRequestBasic<'a> {
        pub fn new<T: TryInto<Text<'a>>>(code: Option<Code<'a>>, text: T) -> Result<Self, ContinueError<T::Error>> {
            let text = text.try_into().map_err(ContinueError::Text)?;
            if text.inner().starts_with('[') || (code.is_none() && unbase64(text.inner().as_bytes()).is_some()) { return Err(ContinueError::Ambiguity); }
            Ok(Self { code, text })
        }
        pub fn code(&self) -> Option<&Code<'a>> { self.code.as_ref() }
        pub fn text(&self) -> &Text<'a> { &self.text }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub enum CommandContinuationRequest<'a> { Basic(CommandContinuationRequestBasic<'a>), Base64(B64<'a>) }
    impl<'a> CommandContinuationRequest<'a> {
        pub fn basic<T: TryInto<Text<'a>>>(code: Option<Code<'a>>, text: T) -> Result<Self, ContinueError<T::Error>> { Ok(Self::Basic(CommandContinuationRequestBasic::new(code, text)?)) }
        pub fn base64<D: Into<Vec<u8>>>(d: D) -> Self { Self::Base64(B64(d.into(), PhantomData)) }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub enum Response<'a> { CommandContinuationRequest(CommandContinuationRequest<'a>), Data(Data<'a>), Status(Status<'a>) }
}
const ALPHA: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn base64(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 { s.push(if i <= c.len() { ALPHA[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' }); }
    }
    s
}
/// Strict, padded base64 (the empty text included).
pub fn unbase64(b: &[u8]) -> Option<Vec<u8>> {
    if b.len() % 4 != 0 { return None; }
    let mut out = Vec::new();
    let last = b.len() / 4;
    for (k, c) in b.chunks(4).enumerate() {
        let pad = c.iter().rev().take_while(|x| **x == b'=').count();
        if pad > 2 || (pad > 0 && k + 1 != last) { return None; }
        let mut n = 0u32;
        for i in 0..4 { n = n << 6 | if i < 4 - pad { ALPHA.iter().position(|a| *a == c[i])? as u32 } else { 0 }; }
        let v = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        if (pad == 1 && v[2] != 0) || (pad == 2 && (v[1] != 0 || v[2] != 0)) { return None; }
        out.extend(&v[..3 - pad]);
    }
    Some(out)
}

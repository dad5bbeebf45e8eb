// ---- prelude: imap-types and imap-codec (not on this machine): data types and assumed contracts ----
pub mod std_borrow {
use vstd::prelude::*;
verus!{
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Cow<'a, T: ?Sized> { p: core::marker::PhantomData<&'a T> }
}
}
pub mod imap_types {
pub use crate::bounded_static;
pub mod utils {
use vstd::prelude::*;
verus!{
#[verifier::external_body]
pub fn escape_byte_string(b: &[u8]) -> (r: String) { unimplemented!() }
}
}
pub mod secret {
use vstd::prelude::*;
verus!{
pub struct Secret<T> { pub v: T }
impl<T> Secret<T> {
    pub fn new(v: T) -> (r: Self) ensures r == (Secret { v }) { Secret { v } }
    pub fn declassify(&self) -> (r: &T) ensures *r == self.v { &self.v }
}
}
}
pub mod core {
use vstd::prelude::*;
use ::core::marker::PhantomData;
use crate::prelude_all::stat;
use crate::bounded_static::*;
verus!{
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum LiteralMode { Sync, NonSync }

/// A tag is its text.
#[verifier::external_body]
pub struct Tag<'a> { p: PhantomData<&'a ()> }
impl<'a> Tag<'a> { pub uninterp spec fn text(&self) -> Seq<char>; }
#[verifier::external_body]
pub broadcast proof fn axiom_tag_ext(a: Tag, b: Tag)
    ensures #![trigger a.text(), b.text()] a.text() == b.text() ==> a == b
{}
pub open spec fn tag_char(c: char) -> bool {
    '0' as u32 <= c as u32 <= '9' as u32 || 'a' as u32 <= c as u32 <= 'z' as u32 || 'A' as u32 <= c as u32 <= 'Z' as u32
        || c == '.' || c == '-' || c == '_' || c == ':' || c == '/'
}
impl Tag<'static> {
    /// `unvalidated` checks its argument in debug builds.
    #[verifier::external_body]
    pub fn unvalidated(s: String) -> (r: Self)
        requires s@.len() > 0, forall|i: int| 0 <= i < s@.len() ==> tag_char(#[trigger] s@[i]),
        ensures r.text() == s@,
    { unimplemented!() }
}
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Tag<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<'a> PartialEq for Tag<'a> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl<'a> Clone for Tag<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<'a> Tag<'a> {
    #[verifier::external_body]
    pub fn inner(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
}
impl<'a> IntoBoundedStatic for Tag<'a> { type Static = Tag<'static>;
    #[verifier::external_body] fn into_static(self) -> (r: Tag<'static>) { unimplemented!() } }
impl<'a> ToBoundedStatic for Tag<'a> { type Static = Tag<'static>;
    #[verifier::external_body] fn to_static(&self) -> (r: Tag<'static>) { unimplemented!() } }

pub use super::response::Vec1;
/// What can be turned into a `Text`.
pub trait TextLike: Sized {
    spec fn chars(&self) -> Seq<char>;
    /// it is known to be a valid text
    spec fn is_text(&self) -> bool;
}
/// IMAP `text`: not empty, 7-bit, without NUL, CR and LF.
pub open spec fn text_char(c: char) -> bool { 1 <= c as u32 <= 127 && c as u32 != 13 && c as u32 != 10 }
pub open spec fn text_ok(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> text_char(#[trigger] s[i]) }
#[verifier::external_body]
pub struct Text<'a> { p: PhantomData<&'a ()> }
impl<'a> Text<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn unvalidated<T: TextLike>(s: T) -> (r: Self) requires text_ok(s.chars()) ensures r.text() == s.chars() { unimplemented!() }
    #[verifier::external_body]
    pub fn inner(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
}
#[verifier::external_body]
pub broadcast proof fn axiom_text_ext(a: Text, b: Text)
    ensures #![trigger a.text(), b.text()] a.text() == b.text() ==> a == b
{}
#[verifier::external_body]
pub broadcast proof fn axiom_text_valid(a: Text)
    ensures #![trigger a.text()] text_ok(a.text())
{}
impl<'a> Clone for Text<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<'a> ToBoundedStatic for Text<'a> { type Static = Text<'static>;
    #[verifier::external_body] fn to_static(&self) -> (r: Text<'static>) { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Text<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<'a> PartialEq for Text<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> IntoBoundedStatic for Text<'a> { type Static = Text<'static>;
    #[verifier::external_body] fn into_static(self) -> (r: Text<'static>) { unimplemented!() } }
impl<'a> Text<'a> {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
}
impl<'a> TextLike for Text<'a> { open spec fn chars(&self) -> Seq<char> { self.text() } open spec fn is_text(&self) -> bool { true } }
impl<'a> TextLike for &'a str { open spec fn chars(&self) -> Seq<char> { self@ } open spec fn is_text(&self) -> bool { false } }
impl TextLike for String { open spec fn chars(&self) -> Seq<char> { self@ } open spec fn is_text(&self) -> bool { false } }
}
}
pub mod auth {
use vstd::prelude::*;
use ::core::marker::PhantomData;
use crate::bounded_static::*;
use crate::prelude_all::stat;
verus!{
#[verifier::external_body]
pub struct AuthMechanismOther<'a> { p: PhantomData<&'a ()> }
pub enum AuthMechanism<'a> {
    Plain, Login, XOAuth2, ScramSha1, ScramSha1Plus, ScramSha256, ScramSha256Plus, ScramSha3_512, ScramSha3_512Plus,
    OAuthBearer, Other(AuthMechanismOther<'a>),
}
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for AuthMechanism<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<'a> PartialEq for AuthMechanism<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> Clone for AuthMechanism<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct AuthenticateData<'a> { p: PhantomData<&'a ()> }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for AuthenticateData<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<'a> PartialEq for AuthenticateData<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> Clone for AuthenticateData<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> IntoBoundedStatic for AuthenticateData<'a> { type Static = AuthenticateData<'static>;
    #[verifier::external_body] fn into_static(self) -> (r: AuthenticateData<'static>) { unimplemented!() } }
}
}
pub mod extensions { pub mod idle {
use vstd::prelude::*;
use crate::bounded_static::*;
use crate::prelude_all::stat;
verus!{
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct IdleDone;
impl IntoBoundedStatic for IdleDone { type Static = IdleDone;
    #[verifier::external_body] fn into_static(self) -> (r: IdleDone) { unimplemented!() } }
}
} }
pub mod command {
use vstd::prelude::*;
use ::core::marker::PhantomData;
use crate::bounded_static::*;
use crate::prelude_all::stat;
use super::core::*;
use super::auth::*;
use super::secret::*;
use crate::std_borrow::Cow;
verus!{
pub struct Command<'a> { pub tag: Tag<'a>, pub body: CommandBody<'a> }
#[verifier::external_body]
pub struct CommandBodyOther<'a> { p: PhantomData<&'a ()> }
#[verifier::external_body]
pub struct Mailbox<'a> { p: PhantomData<&'a ()> }
#[verifier::external_body]
pub struct AString<'a> { p: PhantomData<&'a ()> }
#[verifier::external_body]
pub struct Flag<'a> { p: PhantomData<&'a ()> }
#[verifier::external_body]
pub struct Literal<'a> { p: PhantomData<&'a ()> }
#[verifier::external_body]
pub struct SelectParameter { p: PhantomData<()> }
#[verifier::external_body]
pub struct DateTime { p: PhantomData<()> }
#[verifier::external_body]
pub struct SequenceSet { p: PhantomData<()> }
/// The bodies of imap-types (arguments that no code here looks into are opaque).
pub enum CommandBody<'a> {
    Capability, Noop, Logout, StartTLS, Check, Close, Expunge, Unselect,
    Authenticate { mechanism: AuthMechanism<'a>, initial_response: Option<Secret<Cow<'a, [u8]>>> },
    Login { username: AString<'a>, password: Secret<AString<'a>> },
    Select { mailbox: Mailbox<'a>, parameters: Vec<SelectParameter> },
    Examine { mailbox: Mailbox<'a>, parameters: Vec<SelectParameter> },
    Create { mailbox: Mailbox<'a> }, Delete { mailbox: Mailbox<'a> }, Rename { from: Mailbox<'a>, to: Mailbox<'a> },
    Subscribe { mailbox: Mailbox<'a> }, Unsubscribe { mailbox: Mailbox<'a> },
    Append { mailbox: Mailbox<'a>, flags: Vec<Flag<'a>>, date: Option<DateTime>, message: Literal<'a> },
    Copy { sequence_set: SequenceSet, mailbox: Mailbox<'a>, uid: bool },
    Move { sequence_set: SequenceSet, mailbox: Mailbox<'a>, uid: bool },
    Idle,
    Other(CommandBodyOther<'a>),
}
impl<'a> CommandBody<'a> {
    /// A command without a literal: its encoding is a single line.
    pub open spec fn plain(&self) -> bool {
        self is Capability || self is Noop || self is Logout || self is StartTLS || self is Check || self is Close || self is Expunge || self is Unselect || self is Authenticate || self is Idle
    }
    #[verifier::external_body]
    pub fn name(&self) -> (r: &'static str) { unimplemented!() }
}
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Command<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<'a> PartialEq for Command<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> Clone for Command<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for CommandBody<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<'a> PartialEq for CommandBody<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> Clone for CommandBody<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> ToBoundedStatic for Command<'a> { type Static = Command<'static>;
    #[verifier::external_body] fn to_static(&self) -> (r: Command<'static>) { unimplemented!() } }
impl<'a> IntoBoundedStatic for CommandBody<'a> { type Static = CommandBody<'static>;
    #[verifier::external_body] fn into_static(self) -> (r: CommandBody<'static>) { unimplemented!() } }
impl<'a> IntoBoundedStatic for Command<'a> { type Static = Command<'static>;
    #[verifier::external_body] fn into_static(self) -> (r: Command<'static>) { unimplemented!() } }
}
}
pub mod response {
use vstd::prelude::*;
use ::core::marker::PhantomData;
use crate::bounded_static::*;
use crate::prelude_all::stat;
use super::core::*;
use super::auth::*;
verus!{
#[verifier::external_body]
pub struct OtherCode<'a> { p: PhantomData<&'a ()> }
#[verifier::external_body]
pub struct Charset<'a> { p: PhantomData<&'a ()> }
#[verifier::external_body]
pub struct FlagPerm<'a> { p: PhantomData<&'a ()> }
#[verifier::external_body]
pub struct Flag<'a> { p: PhantomData<&'a ()> }
#[verifier::external_body]
pub struct ReferralText<'a> { p: PhantomData<&'a ()> }
#[verifier::external_body]
pub struct NonZeroU32 { p: PhantomData<()> }
#[verifier::external_body]
pub struct NonZeroU64 { p: PhantomData<()> }
pub enum Code<'a> {
    Alert, BadCharset { allowed: Vec<Charset<'a>> }, Parse, PermanentFlags(Vec<FlagPerm<'a>>), ReadOnly, ReadWrite, TryCreate, UidNext(NonZeroU32), UidValidity(NonZeroU32), Unseen(NonZeroU32),
    Capability(Vec1<Capability<'a>>), Referral(ReferralText<'a>), CompressionActive, OverQuota, TooBig, UnknownCte, AppendUid { uid_validity: NonZeroU32, uid: NonZeroU32 }, UidNotSticky, Closed, NoModSeq,
    HighestModSeq(NonZeroU64), Other(OtherCode<'a>),
}
#[verifier::external_body]
pub struct OtherCapability<'a> { p: PhantomData<&'a ()> }
#[verifier::external_body]
pub struct SortAlgorithm<'a> { p: PhantomData<&'a ()> }
#[verifier::external_body]
pub struct ThreadingAlgorithm<'a> { p: PhantomData<&'a ()> }
#[verifier::external_body]
pub struct ResourceOther<'a> { p: PhantomData<&'a ()> }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum CompressionAlgorithm { Deflate }
pub enum Resource<'a> { Storage, Message, Mailbox, AnnotationStorage, Other(ResourceOther<'a>) }
pub enum Capability<'a> {
    Imap4Rev1, Auth(AuthMechanism<'a>), LoginDisabled, StartTls, Idle, MailboxReferrals, LoginReferrals, SaslIr, Enable, Compress { algorithm: CompressionAlgorithm },
    Quota, QuotaRes(Resource<'a>), QuotaSet, LiteralPlus, LiteralMinus, Move, Id, Unselect, Sort(Option<SortAlgorithm<'a>>), Thread(ThreadingAlgorithm<'a>), Metadata, MetadataServer,
    Binary, UidPlus, CondStore, QResync, Other(OtherCapability<'a>),
}
/// A non-empty list.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Vec1<T> { v: Vec<T> }
impl<T> View for Vec1<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
#[verifier::external_body]
pub broadcast proof fn axiom_vec1_nonempty<T>(v: Vec1<T>)
    ensures (#[trigger] v@).len() > 0
{}
#[verifier::external_body]
pub broadcast proof fn axiom_vec1_ext<T>(a: Vec1<T>, b: Vec1<T>)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b
{}
impl<T> vstd::std_specs::cmp::PartialEqSpecImpl for Vec1<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<T> PartialEq for Vec1<T> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<T> Clone for Vec1<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct Vec1Error { p: u8 }
impl<T> Vec1<T> {
    #[verifier::external_body]
    pub fn try_from(v: Vec<T>) -> (r: Result<Vec1<T>, Vec1Error>) ensures r is Ok <==> v@.len() > 0, r is Ok ==> r->Ok_0@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from(t: T) -> (r: Vec1<T>) ensures r@ == seq![t] { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: crate::iters::Items<T>) ensures r.items() == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[T]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum StatusKind { Ok, No, Bad }
pub struct StatusBody<'a> { pub kind: StatusKind, pub code: Option<Code<'a>>, pub text: Text<'a> }
pub struct Tagged<'a> { pub tag: Tag<'a>, pub body: StatusBody<'a> }
pub struct Bye<'a> { pub code: Option<Code<'a>>, pub text: Text<'a> }
pub enum Status<'a> { Untagged(StatusBody<'a>), Tagged(Tagged<'a>), Bye(Bye<'a>) }
#[verifier::external_body]
pub struct TextError { p: u8 }
impl ::core::fmt::Debug for TextError { #[verifier::external_body] fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { unimplemented!() } }
impl<'a> Status<'a> {
    pub open spec fn code_spec(self) -> Option<Code<'a>> { match self { Status::Untagged(b) => b.code, Status::Tagged(t) => t.body.code, Status::Bye(b) => b.code } }
    pub open spec fn text_spec(self) -> Text<'a> { match self { Status::Untagged(b) => b.text, Status::Tagged(t) => t.body.text, Status::Bye(b) => b.text } }
    #[verifier::external_body]
    pub fn bad<T: TextLike>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> (r: Result<Status<'a>, TextError>)
        ensures
            r is Ok <==> (text.is_text() || text_ok(text.chars())),
            r is Ok ==> is_status(r->Ok_0, StatusKind::Bad, tag, code, text.chars()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn no<T: TextLike>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> (r: Result<Status<'a>, TextError>)
        ensures
            r is Ok <==> (text.is_text() || text_ok(text.chars())),
            r is Ok ==> is_status(r->Ok_0, StatusKind::No, tag, code, text.chars()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn ok<T: TextLike>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> (r: Result<Status<'a>, TextError>)
        ensures
            r is Ok <==> (text.is_text() || text_ok(text.chars())),
            r is Ok ==> is_status(r->Ok_0, StatusKind::Ok, tag, code, text.chars()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn code(&self) -> (r: Option<&Code<'a>>)
        ensures r is Some <==> self.code_spec() is Some, r is Some ==> *r->0 == self.code_spec()->0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn text(&self) -> (r: &Text<'a>) ensures *r == self.text_spec() { unimplemented!() }
    #[verifier::external_body]
    pub fn tag(&self) -> (r: Option<&Tag<'a>>)
        ensures match *self { Status::Tagged(t) => r is Some && *r->0 == t.tag, _ => r is None }
    { unimplemented!() }
}
/// A status response of this kind, tag, code and text.
pub open spec fn is_status(s: Status, kind: StatusKind, tag: Option<Tag>, code: Option<Code>, text: Seq<char>) -> bool {
    match (s, tag) {
        (Status::Tagged(t), Some(g)) => t.tag == g && t.body.kind == kind && t.body.code == code && t.body.text.text() == text,
        (Status::Untagged(b), None) => b.kind == kind && b.code == code && b.text.text() == text,
        _ => false,
    }
}
impl<'a> Clone for Status<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct DataOther<'a> { p: PhantomData<&'a ()> }
pub enum Data<'a> { Capability(Vec1<Capability<'a>>), Exists(u32), Recent(u32), Expunge(NonZeroU32), Flags(Vec<Flag<'a>>), Search(Vec<NonZeroU32>, Option<NonZeroU64>), Other(DataOther<'a>) }
pub struct Greeting<'a> { pub kind: GreetingKind, pub code: Option<Code<'a>>, pub text: Text<'a> }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum GreetingKind { Ok, PreAuth, Bye }
#[verifier::external_body]
pub struct CcrBase64<'a> { p: PhantomData<&'a ()> }
#[verifier::external_body]
pub struct CommandContinuationRequestBasic<'a> { p: PhantomData<&'a ()> }
pub enum CommandContinuationRequest<'a> { Basic(CommandContinuationRequestBasic<'a>), Base64(CcrBase64<'a>) }
pub uninterp spec fn is_base64(s: Seq<char>) -> bool;
pub open spec fn base64_char(c: char) -> bool {
    '0' as u32 <= c as u32 <= '9' as u32 || 'a' as u32 <= c as u32 <= 'z' as u32 || 'A' as u32 <= c as u32 <= 'Z' as u32
        || c == '+' || c == '/' || c == '='
}
#[verifier::external_body]
pub broadcast proof fn axiom_base64(s: Seq<char>)
    ensures #[trigger] is_base64(s) ==> forall|i: int| 0 <= i < s.len() ==> base64_char(#[trigger] s[i])
{}
/// The text of a basic continuation request: a text that cannot be mistaken for a code or for base64 data.
pub open spec fn ccr_ok(no_code: bool, s: Seq<char>) -> bool { text_ok(s) && s[0] != '[' && !(no_code && is_base64(s)) }
impl<'a> CommandContinuationRequestBasic<'a> {
    pub uninterp spec fn code_spec(&self) -> Option<Code<'a>>;
    pub uninterp spec fn text_spec(&self) -> Text<'a>;
    #[verifier::external_body]
    pub fn new<T: TextLike>(code: Option<Code<'a>>, text: T) -> (r: Result<Self, TextError>)
        ensures
            r is Ok <==> ccr_ok(code is None, text.chars()),
            r is Ok ==> r->Ok_0.code_spec() == code && r->Ok_0.text_spec().text() == text.chars(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn code(&self) -> (r: Option<&Code<'a>>)
        ensures r is Some <==> self.code_spec() is Some, r is Some ==> *r->0 == self.code_spec()->0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn text(&self) -> (r: &Text<'a>) ensures *r == self.text_spec() { unimplemented!() }
}
#[verifier::external_body]
pub broadcast proof fn axiom_ccr_basic_valid(a: CommandContinuationRequestBasic)
    ensures #![trigger a.text_spec()] ccr_ok(a.code_spec() is None, a.text_spec().text())
{}
#[verifier::external_body]
pub broadcast proof fn axiom_ccr_basic_ext(a: CommandContinuationRequestBasic, b: CommandContinuationRequestBasic)
    ensures #![trigger a.text_spec(), b.text_spec()] a.text_spec() == b.text_spec() && a.code_spec() == b.code_spec() ==> a == b
{}
impl<'a> CommandContinuationRequest<'a> {
    #[verifier::external_body]
    pub fn basic<T: TextLike>(code: Option<Code<'a>>, text: T) -> (r: Result<Self, TextError>)
        ensures
            r is Ok <==> ccr_ok(code is None, text.chars()),
            r is Ok ==> is_basic(r->Ok_0, code, text.chars()),
    { unimplemented!() }
}
pub open spec fn is_basic(c: CommandContinuationRequest, code: Option<Code>, text: Seq<char>) -> bool {
    match c { CommandContinuationRequest::Basic(b) => b.code_spec() == code && b.text_spec().text() == text, _ => false }
}
impl<'a> Clone for CommandContinuationRequest<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> Clone for Greeting<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> Clone for Data<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub enum Response<'a> { CommandContinuationRequest(CommandContinuationRequest<'a>), Data(Data<'a>), Status(Status<'a>) }
impl<'a> IntoBoundedStatic for Response<'a> { type Static = Response<'static>;
    #[verifier::external_body] fn into_static(self) -> (r: Response<'static>) { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Code<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<'a> PartialEq for Code<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> Clone for Code<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Capability<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<'a> PartialEq for Capability<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> Clone for Capability<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for StatusBody<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<'a> PartialEq for StatusBody<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> Clone for StatusBody<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Tagged<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<'a> PartialEq for Tagged<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> Clone for Tagged<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Bye<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<'a> PartialEq for Bye<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> Clone for Bye<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Status<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<'a> PartialEq for Status<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> ToBoundedStatic for Status<'a> { type Static = Status<'static>;
    #[verifier::external_body] fn to_static(&self) -> (r: Status<'static>) { unimplemented!() } }
impl<'a> IntoBoundedStatic for Status<'a> { type Static = Status<'static>;
    #[verifier::external_body] fn into_static(self) -> (r: Status<'static>) { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Data<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<'a> PartialEq for Data<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> ToBoundedStatic for Data<'a> { type Static = Data<'static>;
    #[verifier::external_body] fn to_static(&self) -> (r: Data<'static>) { unimplemented!() } }
impl<'a> IntoBoundedStatic for Data<'a> { type Static = Data<'static>;
    #[verifier::external_body] fn into_static(self) -> (r: Data<'static>) { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Greeting<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<'a> PartialEq for Greeting<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> ToBoundedStatic for Greeting<'a> { type Static = Greeting<'static>;
    #[verifier::external_body] fn to_static(&self) -> (r: Greeting<'static>) { unimplemented!() } }
impl<'a> IntoBoundedStatic for Greeting<'a> { type Static = Greeting<'static>;
    #[verifier::external_body] fn into_static(self) -> (r: Greeting<'static>) { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for CommandContinuationRequest<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<'a> PartialEq for CommandContinuationRequest<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> ToBoundedStatic for CommandContinuationRequest<'a> { type Static = CommandContinuationRequest<'static>;
    #[verifier::external_body] fn to_static(&self) -> (r: CommandContinuationRequest<'static>) { unimplemented!() } }
impl<'a> IntoBoundedStatic for CommandContinuationRequest<'a> { type Static = CommandContinuationRequest<'static>;
    #[verifier::external_body] fn into_static(self) -> (r: CommandContinuationRequest<'static>) { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for CommandContinuationRequestBasic<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<'a> PartialEq for CommandContinuationRequestBasic<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> Clone for CommandContinuationRequestBasic<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Response<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<'a> PartialEq for Response<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> Clone for Response<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> ToBoundedStatic for Response<'a> { type Static = Response<'static>;
    #[verifier::external_body] fn to_static(&self) -> (r: Response<'static>) { unimplemented!() } }
impl<'a> Status<'a> {
    #[verifier::external_body]
    pub fn bye<T: TextLike>(code: Option<Code<'a>>, text: T) -> (r: Result<Status<'a>, TextError>)
        ensures
            r is Ok <==> (text.is_text() || text_ok(text.chars())),
            r is Ok ==> (match r->Ok_0 { Status::Bye(b) => b.code == code && b.text.text() == text.chars(), _ => false }),
    { unimplemented!() }
}
impl<'a> Greeting<'a> {
    #[verifier::external_body]
    pub fn new<T: TextLike>(kind: GreetingKind, code: Option<Code<'a>>, text: T) -> (r: Result<Greeting<'a>, TextError>)
        ensures
            r is Ok <==> (text.is_text() || text_ok(text.chars())),
            r is Ok ==> r->Ok_0.kind == kind && r->Ok_0.code == code && r->Ok_0.text.text() == text.chars(),
    { unimplemented!() }
}
pub broadcast group imap_axioms {
    super::core::axiom_tag_ext, super::core::axiom_text_ext, super::core::axiom_text_valid,
    axiom_vec1_nonempty, axiom_vec1_ext, axiom_base64, axiom_ccr_basic_valid, axiom_ccr_basic_ext,
}
}
}
}
pub mod imap_codec {
pub mod decode {
use vstd::prelude::*;
use crate::prelude_all::stat;
use crate::bounded_static::*;
use crate::imap_types::{core::*, command::*, response::*, auth::*, extensions::idle::*};
use super::*;
verus!{
pub trait Decoder: Sized {
    type Message<'a>: Sized;
    type Error<'a>: Sized;
    /// What decoding the bytes of one message (or of a message up to the announcement of a literal) gives.
    spec fn decode_spec(&self, input: Seq<u8>) -> Result<Self::Message<'static>, Self::Error<'static>>;
    fn decode<'a>(&self, input: &'a [u8]) -> (r: Result<(&'a [u8], Self::Message<'a>), Self::Error<'a>>)
        ensures
            r is Ok ==> r->Ok_0.0@.len() == 0 && self.decode_spec(input@) == Ok::<Self::Message<'static>, Self::Error<'static>>(stat(r->Ok_0.1)),
            r is Err ==> self.decode_spec(input@) == Err::<Self::Message<'static>, Self::Error<'static>>(stat(r->Err_0));
}
pub enum GreetingDecodeError { Incomplete, Failed }
pub enum ResponseDecodeError { Incomplete, LiteralFound { length: u32 }, Failed }
pub enum CommandDecodeError<'a> { Incomplete, LiteralFound { tag: Tag<'a>, length: u32, mode: LiteralMode }, Failed }
pub enum AuthenticateDataDecodeError { Incomplete, Failed }
pub enum IdleDoneDecodeError { Incomplete, Failed }
impl IntoBoundedStatic for GreetingDecodeError { type Static = GreetingDecodeError;
    #[verifier::external_body] fn into_static(self) -> (r: GreetingDecodeError) { unimplemented!() } }
impl IntoBoundedStatic for ResponseDecodeError { type Static = ResponseDecodeError;
    #[verifier::external_body] fn into_static(self) -> (r: ResponseDecodeError) { unimplemented!() } }
impl<'a> IntoBoundedStatic for CommandDecodeError<'a> { type Static = CommandDecodeError<'static>;
    #[verifier::external_body] fn into_static(self) -> (r: CommandDecodeError<'static>) { unimplemented!() } }
impl IntoBoundedStatic for AuthenticateDataDecodeError { type Static = AuthenticateDataDecodeError;
    #[verifier::external_body] fn into_static(self) -> (r: AuthenticateDataDecodeError) { unimplemented!() } }
impl IntoBoundedStatic for IdleDoneDecodeError { type Static = IdleDoneDecodeError;
    #[verifier::external_body] fn into_static(self) -> (r: IdleDoneDecodeError) { unimplemented!() } }
pub uninterp spec fn dec_greeting(b: Seq<u8>) -> Result<Greeting<'static>, GreetingDecodeError>;
pub uninterp spec fn dec_response(b: Seq<u8>) -> Result<Response<'static>, ResponseDecodeError>;
pub uninterp spec fn dec_command(b: Seq<u8>) -> Result<Command<'static>, CommandDecodeError<'static>>;
pub uninterp spec fn dec_auth(b: Seq<u8>) -> Result<AuthenticateData<'static>, AuthenticateDataDecodeError>;
pub uninterp spec fn dec_done(b: Seq<u8>) -> Result<IdleDone, IdleDoneDecodeError>;
impl Decoder for GreetingCodec {
    type Message<'a> = Greeting<'a>; type Error<'a> = GreetingDecodeError;
    open spec fn decode_spec(&self, b: Seq<u8>) -> Result<Greeting<'static>, GreetingDecodeError> { dec_greeting(b) }
    #[verifier::external_body] fn decode<'a>(&self, input: &'a [u8]) -> (r: Result<(&'a [u8], Greeting<'a>), GreetingDecodeError>) { unimplemented!() }
}
impl Decoder for ResponseCodec {
    type Message<'a> = Response<'a>; type Error<'a> = ResponseDecodeError;
    open spec fn decode_spec(&self, b: Seq<u8>) -> Result<Response<'static>, ResponseDecodeError> { dec_response(b) }
    #[verifier::external_body] fn decode<'a>(&self, input: &'a [u8]) -> (r: Result<(&'a [u8], Response<'a>), ResponseDecodeError>) { unimplemented!() }
}
impl Decoder for CommandCodec {
    type Message<'a> = Command<'a>; type Error<'a> = CommandDecodeError<'a>;
    open spec fn decode_spec(&self, b: Seq<u8>) -> Result<Command<'static>, CommandDecodeError<'static>> { dec_command(b) }
    #[verifier::external_body] fn decode<'a>(&self, input: &'a [u8]) -> (r: Result<(&'a [u8], Command<'a>), CommandDecodeError<'a>>) { unimplemented!() }
}
impl Decoder for AuthenticateDataCodec {
    type Message<'a> = AuthenticateData<'a>; type Error<'a> = AuthenticateDataDecodeError;
    open spec fn decode_spec(&self, b: Seq<u8>) -> Result<AuthenticateData<'static>, AuthenticateDataDecodeError> { dec_auth(b) }
    #[verifier::external_body] fn decode<'a>(&self, input: &'a [u8]) -> (r: Result<(&'a [u8], AuthenticateData<'a>), AuthenticateDataDecodeError>) { unimplemented!() }
}
impl Decoder for IdleDoneCodec {
    type Message<'a> = IdleDone; type Error<'a> = IdleDoneDecodeError;
    open spec fn decode_spec(&self, b: Seq<u8>) -> Result<IdleDone, IdleDoneDecodeError> { dec_done(b) }
    #[verifier::external_body] fn decode<'a>(&self, input: &'a [u8]) -> (r: Result<(&'a [u8], IdleDone), IdleDoneDecodeError>) { unimplemented!() }
}
}
}
pub mod encode {
use vstd::prelude::*;
use std::collections::VecDeque;
use crate::imap_types::{core::*, command::*, response::*, auth::*, extensions::idle::*};
use super::*;
verus!{
pub enum Fragment { Line { data: Vec<u8> }, Literal { data: Vec<u8>, mode: LiteralMode } }
/// A fragment as a value: a line, or a literal that the receiver must (`sync`) or need not ask for.
pub struct FragV { pub lit: bool, pub sync: bool, pub data: Seq<u8> }
impl Fragment {
    pub open spec fn fv(self) -> FragV {
        match self {
            Fragment::Line { data } => FragV { lit: false, sync: false, data: data@ },
            Fragment::Literal { data, mode } => FragV { lit: true, sync: mode == LiteralMode::Sync, data: data@ },
        }
    }
}
pub open spec fn fvs(s: Seq<Fragment>) -> Seq<FragV> { s.map_values(|f: Fragment| f.fv()) }
/// All bytes of the fragments, in order.
pub open spec fn flat(s: Seq<FragV>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { s[0].data + flat(s.skip(1)) }
}
pub proof fn lemma_flat_concat(a: Seq<FragV>, b: Seq<FragV>)
    ensures flat(a + b) == flat(a) + flat(b),
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else { assert((a + b).skip(1) =~= a.skip(1) + b); lemma_flat_concat(a.skip(1), b); assert((a + b)[0] == a[0]); }
}
/// The shape of encoded messages: lines are not empty, and a literal is followed by a line.
pub open spec fn enc_wf(s: Seq<FragV>) -> bool {
    &&& s.len() > 0 && !s[0].lit
    &&& forall|i: int| 0 <= i < s.len() && !(#[trigger] s[i]).lit ==> s[i].data.len() > 0 && !s[i].sync
    &&& forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).lit ==> i + 1 < s.len() && !s[i + 1].lit
}
pub open spec fn one_line(s: Seq<FragV>) -> bool { enc_wf(s) && s.len() == 1 }
/// The fragments of an encoded message, one after the other.
#[verifier::external_body]
pub struct Encoded { v: Vec<Fragment> }
impl Encoded {
    pub uninterp spec fn frags(&self) -> Seq<Fragment>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Fragment>)
        ensures
            old(self).frags().len() == 0 ==> r is None && final(self).frags() == old(self).frags(),
            old(self).frags().len() > 0 ==> r == Some(old(self).frags()[0]) && final(self).frags() == old(self).frags().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<B: FragmentList>(self) -> (r: B) ensures r.list() == self.frags() { unimplemented!() }
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
}
pub trait FragmentList: Sized { spec fn list(&self) -> Seq<Fragment>; }
impl FragmentList for Vec<Fragment> { open spec fn list(&self) -> Seq<Fragment> { self@ } }
impl FragmentList for VecDeque<Fragment> { open spec fn list(&self) -> Seq<Fragment> { self@ } }
pub trait Encoder: Sized {
    type Message<'a>: Sized;
    /// the fragments of the message
    spec fn enc(m: Self::Message<'static>) -> Seq<FragV>;
    spec fn shape(m: Self::Message<'static>) -> bool;
    fn encode<'a>(&self, m: &Self::Message<'a>) -> (r: Encoded)
        ensures fvs(r.frags()) == Self::enc(*m), Self::shape(*m);
}
pub uninterp spec fn enc_greeting(m: Greeting) -> Seq<FragV>;
pub uninterp spec fn enc_response(m: Response) -> Seq<FragV>;
pub uninterp spec fn enc_command(m: Command) -> Seq<FragV>;
pub uninterp spec fn enc_auth(m: AuthenticateData) -> Seq<FragV>;
pub uninterp spec fn enc_done(m: IdleDone) -> Seq<FragV>;
impl Encoder for GreetingCodec { type Message<'a> = Greeting<'a>;
    open spec fn enc(m: Greeting<'static>) -> Seq<FragV> { enc_greeting(m) }
    open spec fn shape(m: Greeting<'static>) -> bool { one_line(enc_greeting(m)) }
    #[verifier::external_body] fn encode<'a>(&self, m: &Greeting<'a>) -> (r: Encoded) { unimplemented!() } }
impl Encoder for ResponseCodec { type Message<'a> = Response<'a>;
    open spec fn enc(m: Response<'static>) -> Seq<FragV> { enc_response(m) }
    open spec fn shape(m: Response<'static>) -> bool { enc_wf(enc_response(m)) }
    #[verifier::external_body] fn encode<'a>(&self, m: &Response<'a>) -> (r: Encoded) { unimplemented!() } }
impl Encoder for CommandCodec { type Message<'a> = Command<'a>;
    open spec fn enc(m: Command<'static>) -> Seq<FragV> { enc_command(m) }
    open spec fn shape(m: Command<'static>) -> bool {
        enc_wf(enc_command(m)) && (m.body.plain() ==> one_line(enc_command(m)))
    }
    #[verifier::external_body] fn encode<'a>(&self, m: &Command<'a>) -> (r: Encoded) { unimplemented!() } }
impl Encoder for AuthenticateDataCodec { type Message<'a> = AuthenticateData<'a>;
    open spec fn enc(m: AuthenticateData<'static>) -> Seq<FragV> { enc_auth(m) }
    open spec fn shape(m: AuthenticateData<'static>) -> bool { one_line(enc_auth(m)) }
    #[verifier::external_body] fn encode<'a>(&self, m: &AuthenticateData<'a>) -> (r: Encoded) { unimplemented!() } }
impl Encoder for IdleDoneCodec { type Message<'a> = IdleDone;
    open spec fn enc(m: IdleDone) -> Seq<FragV> { enc_done(m) }
    open spec fn shape(m: IdleDone) -> bool { one_line(enc_done(m)) }
    #[verifier::external_body] fn encode<'a>(&self, m: &IdleDone) -> (r: Encoded) { unimplemented!() } }
}
}
use vstd::prelude::*;
verus!{
pub struct GreetingCodec { pub v: u8 }
pub struct ResponseCodec { pub v: u8 }
pub struct CommandCodec { pub v: u8 }
pub struct AuthenticateDataCodec { pub v: u8 }
pub struct IdleDoneCodec { pub v: u8 }
impl Default for GreetingCodec { fn default() -> (r: Self) { GreetingCodec { v: 0 } } }
impl Default for ResponseCodec { fn default() -> (r: Self) { ResponseCodec { v: 0 } } }
impl Default for CommandCodec { fn default() -> (r: Self) { CommandCodec { v: 0 } } }
impl Default for AuthenticateDataCodec { fn default() -> (r: Self) { AuthenticateDataCodec { v: 0 } } }
impl Default for IdleDoneCodec { fn default() -> (r: Self) { IdleDoneCodec { v: 0 } } }
}
}

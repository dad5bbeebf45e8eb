// ---- prelude: TCP, TLS set-up and root certificates as the proxy uses them (assumed) ----
pub mod std_net {
use vstd::prelude::*;
verus!{
#[verifier::external_body]
pub struct SocketAddr { x: u8 }
impl Clone for SocketAddr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for SocketAddr {}
}
}
pub mod tokio {
pub mod task {
use vstd::prelude::*;
verus!{
/// Every task started with one of these has ended.
pub uninterp spec fn all_ended<A>(with: Seq<A>) -> bool;
/// Tasks that run on their own: what each of them was started with, in order.
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct JoinSet<A> { x: ::core::marker::PhantomData<A> }
#[verifier::external_body]
pub struct JoinError { x: u8 }
impl<A> JoinSet<A> {
    pub uninterp spec fn started(&self) -> Seq<A>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.started() == Seq::<A>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn<F: ::core::future::Future<Output = ()>>(&mut self, with: Ghost<A>, f: F) ensures final(self).started() == old(self).started().push(with@) { unimplemented!() }
    #[verifier::external_body]
    pub async fn join_next(&mut self) -> (r: Option<Result<(), JoinError>>)
        ensures final(self).started() == old(self).started(), r is None ==> all_ended(final(self).started())
    { unimplemented!() }
}
}
}
pub mod net {
use vstd::prelude::*;
use crate::std_net::SocketAddr;
use crate::std_io::Error;
use super::io::{AsyncRead, AsyncWrite, Rx, Tx};
verus!{
/// An address in text form.
pub trait AddrText { spec fn addr(&self) -> Seq<char>; }
impl AddrText for String { open spec fn addr(&self) -> Seq<char> { self@ } }
impl AddrText for str { open spec fn addr(&self) -> Seq<char> { self@ } }
impl<'a, T: AddrText + ?Sized> AddrText for &'a T { open spec fn addr(&self) -> Seq<char> { (**self).addr() } }
/// How a TCP connection came about.
pub ghost enum Origin { Accepted(Seq<char>), Dialled(Seq<char>) }
/// The two directions of a TCP connection.
pub struct ReadHalf { pub rx: Ghost<Rx> }
pub struct WriteHalf { pub tx: Ghost<Tx> }
pub struct TcpStream { pub r: ReadHalf, pub w: WriteHalf, pub how: Ghost<Origin> }
impl AsyncRead for ReadHalf {
    open spec fn rx(&self) -> Rx { self.rx@ }
    type Rest = ();
    open spec fn but_rx(&self) -> () { () }
}
impl AsyncWrite for WriteHalf {
    open spec fn tx(&self) -> Tx { self.tx@ }
    type Rest = ();
    open spec fn but_tx(&self) -> () { () }
}
impl AsyncRead for TcpStream {
    open spec fn rx(&self) -> Rx { self.r.rx@ }
    type Rest = (WriteHalf, Ghost<Origin>);
    open spec fn but_rx(&self) -> (WriteHalf, Ghost<Origin>) { (self.w, self.how) }
}
impl AsyncWrite for TcpStream {
    open spec fn tx(&self) -> Tx { self.w.tx@ }
    type Rest = (ReadHalf, Ghost<Origin>);
    open spec fn but_tx(&self) -> (ReadHalf, Ghost<Origin>) { (self.r, self.how) }
}
impl crate::tokio_rustls::Transport for TcpStream {
    open spec fn continues(&self, before: &Self) -> bool { self.how == before.how && (before.healthy() ==> self.healthy()) }
}
impl TcpStream {
    pub open spec fn origin(&self) -> Origin { self.how@ }
    /// no read or write of it failed or found it closed
    pub open spec fn healthy(&self) -> bool { self.r.rx@.zeros == 0 && self.r.rx@.fails == 0 && self.w.tx@.zeros == 0 && self.w.tx@.fails == 0 }
    #[verifier::external_body]
    pub async fn connect<A: AddrText>(addr: A) -> (r: Result<TcpStream, Error>)
        ensures r matches Ok(s) ==> s.origin() == Origin::Dialled(addr.addr()) && s.healthy()
    { unimplemented!() }
    pub fn split(&mut self) -> (p: (&mut ReadHalf, &mut WriteHalf))
        ensures *p.0 == old(self).r, *p.1 == old(self).w, final(self).r == *final(p.0), final(self).w == *final(p.1), final(self).how == old(self).how
    { (&mut self.r, &mut self.w) }
    #[verifier::external_body]
    pub async fn flush(&mut self) -> (r: Result<(), Error>)
        ensures final(self).but_tx() == old(self).but_tx(), match r { Ok(_) => final(self).tx() == (Tx { tries: old(self).tx().tries + 1, ..old(self).tx() }), Err(_) => final(self).tx() == old(self).tx().failed() }
    { unimplemented!() }
    #[verifier::external_body]
    pub async fn flush_cancelled(&mut self, cut: &mut bool) -> (r: Result<(), Error>)
        ensures final(self).but_tx() == old(self).but_tx(), final(self).tx() == (Tx { tries: old(self).tx().tries + 1, ..old(self).tx() }), *final(cut)
    { unimplemented!() }
}
/// An attempt to bind to this address failed.
pub uninterp spec fn cannot_bind(addr: Seq<char>) -> bool;
#[verifier::external_body]
pub struct TcpListener { x: u8 }
impl TcpListener {
    pub uninterp spec fn bound_to(&self) -> Seq<char>;
    #[verifier::external_body]
    pub async fn bind<A: AddrText>(addr: A) -> (r: Result<TcpListener, Error>)
        ensures match r { Ok(l) => l.bound_to() == addr.addr(), Err(_) => cannot_bind(addr.addr()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub async fn accept(&self) -> (r: Result<(TcpStream, SocketAddr), Error>)
        ensures r matches Ok(x) ==> x.0.origin() == Origin::Accepted(self.bound_to()) && x.0.healthy()
    { unimplemented!() }
}
}
}
pub mod io {
use vstd::prelude::*;
use crate::bytes::BytesMut;
verus!{
pub use crate::std_io::Error;
/// What came out of a socket: the bytes, and how often a read was waited for, gave nothing or failed.
pub ghost struct Rx { pub got: Seq<u8>, pub offers: nat, pub zeros: nat, pub fails: nat }
/// What a socket took.
pub ghost struct Tx { pub sent: Seq<u8>, pub tries: nat, pub zeros: nat, pub fails: nat }
impl Rx {
    pub open spec fn offered(self) -> Rx { Rx { offers: self.offers + 1, ..self } }
    pub open spec fn read(self, x: Seq<u8>) -> Rx { Rx { got: self.got + x, offers: self.offers + 1, zeros: if x.len() == 0 { self.zeros + 1 } else { self.zeros }, ..self } }
    pub open spec fn failed(self) -> Rx { Rx { offers: self.offers + 1, fails: self.fails + 1, ..self } }
}
impl Tx {
    pub open spec fn wrote(self, x: Seq<u8>) -> Tx { Tx { sent: self.sent + x, tries: self.tries + 1, zeros: if x.len() == 0 { self.zeros + 1 } else { self.zeros }, ..self } }
    pub open spec fn failed(self) -> Tx { Tx { tries: self.tries + 1, fails: self.fails + 1, ..self } }
}
/// Something to read from, and all else there is about it.
pub trait AsyncRead { type Rest; spec fn rx(&self) -> Rx; spec fn but_rx(&self) -> Self::Rest; }
pub trait AsyncWrite { type Rest; spec fn tx(&self) -> Tx; spec fn but_tx(&self) -> Self::Rest; }
pub trait AsyncReadExt {}
pub trait AsyncWriteExt {}
/// Appends what is there, at least one byte unless the end was reached. Has no effect when it is dropped before it is done.
#[verifier::external_body]
pub async fn read_buf<S: AsyncRead>(s: &mut S, b: &mut BytesMut) -> (r: Result<usize, Error>)
    ensures final(s).but_rx() == old(s).but_rx(), match r {
        Ok(n) => exists|x: Seq<u8>| x.len() == n && final(b)@ == old(b)@ + x && final(s).rx() == #[trigger] old(s).rx().read(x),
        Err(_) => final(b)@ == old(b)@ && final(s).rx() == old(s).rx().failed(),
    }
{ unimplemented!() }
#[verifier::external_body]
pub async fn read_buf_cancelled<S: AsyncRead>(s: &mut S, b: &mut BytesMut, cut: &mut bool) -> (r: Result<usize, Error>)
    ensures final(s).but_rx() == old(s).but_rx(), final(b)@ == old(b)@, final(s).rx() == old(s).rx().offered(), *final(cut)
{ unimplemented!() }
/// Takes a part of the bytes from the start, at least one unless there are none or nothing more is accepted. Has no effect when it is dropped before it is done.
#[verifier::external_body]
pub async fn write<S: AsyncWrite>(s: &mut S, b: &[u8]) -> (r: Result<usize, Error>)
    ensures final(s).but_tx() == old(s).but_tx(), match r {
        Ok(n) => n <= b@.len() && final(s).tx() == old(s).tx().wrote(b@.take(n as int)),
        Err(_) => final(s).tx() == old(s).tx().failed(),
    }
{ unimplemented!() }
#[verifier::external_body]
pub async fn write_cancelled<S: AsyncWrite>(s: &mut S, b: &[u8], cut: &mut bool) -> (r: Result<usize, Error>)
    ensures final(s).but_tx() == old(s).but_tx(), final(s).tx() == (Tx { tries: old(s).tx().tries + 1, ..old(s).tx() }), *final(cut)
{ unimplemented!() }
}
}
}
pub mod rustls {
use vstd::prelude::*;
use crate::tokio_rustls::{Session, client, server};
use crate::tokio::net::TcpStream;
use crate::bytes::{Reader as BytesReader, Writer as BytesWriter};
verus!{
pub use crate::tokio_rustls::rustls::Error;
/// A TLS session between socket and program.
pub ghost struct Tls {
    pub session: Session,
    /// ciphertext taken from the socket's bytes
    pub read: Seq<u8>,
    /// plaintext handed out, plaintext decrypted and not handed out yet
    pub given: Seq<u8>, pub ready: Seq<u8>,
    /// the peer closed the session; the end of the socket's bytes was fed to it; ciphertext was taken and not processed
    pub closed: bool, pub ended: bool, pub raw: bool,
    /// plaintext accepted, ciphertext to be written, ciphertext written
    pub accepted: Seq<u8>, pub pending: Seq<u8>, pub wrote: Seq<u8>,
    /// how often processing failed
    pub broken: nat,
}
impl Tls {
    /// Nothing was fed to it that was not processed, and its end of input was never reported.
    pub open spec fn settled(self) -> bool { !self.raw && !self.ended }
}
#[verifier::external_body]
pub struct ClientConnection { x: u8 }
#[verifier::external_body]
pub struct ServerConnection { x: u8 }
impl ClientConnection { pub uninterp spec fn tls(&self) -> Tls; }
impl ServerConnection { pub uninterp spec fn tls(&self) -> Tls; }
impl client::TlsStream<TcpStream> {
    /// What was received with the handshake and not read yet is still there.
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: (TcpStream, ClientConnection))
        ensures r.0 == self.transport(), r.1.tls().session == (Session::Client { name: self.name(), roots: self.roots() }), r.1.tls().settled(), r.1.tls().broken == 0
    { unimplemented!() }
}
impl server::TlsStream<TcpStream> {
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: (TcpStream, ServerConnection))
        ensures r.0 == self.transport(), r.1.tls().session == Session::Server(self.side()), r.1.tls().settled(), r.1.tls().broken == 0
    { unimplemented!() }
}
pub enum Connection { Client(ClientConnection), Server(ServerConnection) }
pub struct Reader<'a> { pub c: &'a mut Connection }
pub struct Writer<'a> { pub c: &'a mut Connection }
#[verifier::external_body]
pub struct IoState { x: u8 }
impl Connection {
    pub open spec fn tls(&self) -> Tls { match *self { Connection::Client(c) => c.tls(), Connection::Server(c) => c.tls() } }
    pub fn reader(&mut self) -> (r: Reader<'_>) ensures *r.c == *old(self), *final(self) == *final(r.c) { Reader { c: self } }
    pub fn writer(&mut self) -> (r: Writer<'_>) ensures *r.c == *old(self), *final(self) == *final(r.c) { Writer { c: self } }
    #[verifier::external_body]
    pub fn wants_read(&self) -> (r: bool) ensures r == (self.tls().ready.len() == 0 && !self.tls().closed) { unimplemented!() }
    #[verifier::external_body]
    pub fn wants_write(&self) -> (r: bool) ensures r == (self.tls().pending.len() > 0) { unimplemented!() }
    /// Takes ciphertext from the front. Fails when decrypted data was not read or taken data was not processed (its buffers are bounded).
    #[verifier::external_body]
    pub fn read_tls(&mut self, rd: &mut BytesReader<'_>) -> (r: Result<usize, crate::std_io::Error>)
        ensures *final(final(rd).b) == *final(old(rd).b),
            old(self).tls().settled() && old(self).tls().ready.len() == 0 ==> r is Ok,
            match r {
                Ok(n) => n <= old(rd).b@.len() && final(rd).b@ == old(rd).b@.skip(n as int) && (old(rd).b@.len() > 0 && !old(self).tls().closed ==> n > 0)
                    && final(self).tls() == (Tls { read: old(self).tls().read + old(rd).b@.take(n as int), raw: true, ended: old(self).tls().ended || (n == 0 && !old(self).tls().closed), ..old(self).tls() }),
                Err(_) => final(rd).b@ == old(rd).b@ && final(self).tls() == old(self).tls(),
            }
    { unimplemented!() }
    /// Decrypts what is complete. May add messages of its own to what is to be written (alerts, key updates).
    #[verifier::external_body]
    pub fn process_new_packets(&mut self) -> (r: Result<IoState, Error>)
        ensures
            old(self).tls().closed ==> final(self).tls().closed,
            exists|x: Seq<u8>, y: Seq<u8>| #![trigger old(self).tls().ready + x, old(self).tls().pending + y]
                final(self).tls() == (Tls { ready: old(self).tls().ready + x, pending: old(self).tls().pending + y, closed: final(self).tls().closed, raw: r is Err,
                    broken: if r is Err { old(self).tls().broken + 1 } else { old(self).tls().broken }, ..old(self).tls() })
    { unimplemented!() }
    /// Writes ciphertext to a buffer in memory, which takes everything.
    #[verifier::external_body]
    pub fn write_tls(&mut self, wr: &mut BytesWriter<'_>) -> (r: Result<usize, crate::std_io::Error>)
        ensures *final(final(wr).b) == *final(old(wr).b), r is Ok, r->Ok_0 <= old(self).tls().pending.len(), old(self).tls().pending.len() > 0 ==> r->Ok_0 > 0,
            final(wr).b@ == old(wr).b@ + old(self).tls().pending.take(r->Ok_0 as int),
            final(self).tls() == (Tls { pending: old(self).tls().pending.skip(r->Ok_0 as int), wrote: old(self).tls().wrote + old(self).tls().pending.take(r->Ok_0 as int), ..old(self).tls() })
    { unimplemented!() }
}
/// A buffer that is read into.
pub trait Chunk { spec fn bytes(&self) -> Seq<u8>; }
impl<const N: usize> Chunk for [u8; N] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl Chunk for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl Chunk for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl<'a> Reader<'a> {
    #[verifier::external_body]
    pub fn read<B: Chunk + ?Sized>(&mut self, b: &mut B) -> (r: Result<usize, crate::std_io::Error>)
        ensures *final(final(self).c) == *final(old(self).c), final(b).bytes().len() == old(b).bytes().len(),
            match r {
                Ok(n) => n <= old(b).bytes().len() && n <= old(self).c.tls().ready.len() && final(b).bytes().take(n as int) == old(self).c.tls().ready.take(n as int)
                    && (n == 0 && old(b).bytes().len() > 0 ==> old(self).c.tls().ready.len() == 0 && old(self).c.tls().closed)
                    && final(self).c.tls() == (Tls { ready: old(self).c.tls().ready.skip(n as int), given: old(self).c.tls().given + old(self).c.tls().ready.take(n as int), ..old(self).c.tls() }),
                Err(e) => old(self).c.tls().ready.len() == 0 && !old(self).c.tls().closed && final(self).c.tls() == old(self).c.tls()
                    && e.spec_kind() == (if old(self).c.tls().ended { crate::std_io::ErrorKind::UnexpectedEof } else { crate::std_io::ErrorKind::WouldBlock }),
            }
    { unimplemented!() }
}
impl<'a> Writer<'a> {
    /// Takes a part (its buffer is bounded), something if nothing waits to be written.
    #[verifier::external_body]
    pub fn write(&mut self, b: &[u8]) -> (r: Result<usize, crate::std_io::Error>)
        ensures *final(final(self).c) == *final(old(self).c), r is Ok, r->Ok_0 <= b@.len(), old(self).c.tls().pending.len() == 0 && b@.len() > 0 ==> r->Ok_0 > 0,
            exists|y: Seq<u8>| #![trigger old(self).c.tls().pending + y] final(self).c.tls() == (Tls { pending: old(self).c.tls().pending + y, accepted: old(self).c.tls().accepted + b@.take(r->Ok_0 as int), ..old(self).c.tls() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), crate::std_io::Error>)
        ensures *final(final(self).c) == *final(old(self).c), r is Ok, final(self).c.tls() == old(self).c.tls()
    { unimplemented!() }
}
}
}
pub mod once_cell { pub mod sync {
use vstd::prelude::*;
verus!{
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Lazy<T> { x: ::core::marker::PhantomData<T> }
impl<T> Lazy<T> {
    /// what the initialisation returns when the value is first used
    pub uninterp spec fn value(&self) -> T;
    #[verifier::external_body]
    pub const fn new<F: FnOnce() -> T>(f: F) -> (r: Self)
        requires call_requires(f, ())
        ensures call_ensures(f, (), r.value())
    { ::core::mem::forget(f); Lazy { x: ::core::marker::PhantomData } }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: T) ensures r == self.value() { unimplemented!() }
}
#[verifier::external]
unsafe impl<T> Sync for Lazy<T> {}
}
} }
pub mod rustls_native_certs {
use vstd::prelude::*;
use crate::tokio_rustls::rustls::pki_types::CertificateDer;
use crate::iters::Items;
verus!{
/// The certificates the system trusts.
pub uninterp spec fn system_roots() -> Seq<Seq<u8>>;
/// Assumed to succeed: the machine has a readable set of root certificates (a property of the machine, not of a peer).
#[verifier::external_body]
pub fn load_native_certs() -> (r: Result<Items<CertificateDer<'static>>, crate::std_io::Error>)
    ensures r is Ok, r->Ok_0.items().map_values(|c: CertificateDer<'static>| c.der()) == system_roots()
{ unimplemented!() }
}
}

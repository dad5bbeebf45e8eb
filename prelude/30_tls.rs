// ---- prelude: PEM files and the types of rustls (assumed) ----
pub mod tokio_rustls {
use vstd::prelude::*;
use std::sync::Arc;
use rustls::{ClientConfig, ServerConfig, ServerSide};
use rustls::pki_types::ServerName;
verus!{
/// What carries a TLS session: the same connection, after a handshake that succeeded.
pub trait Transport: Sized { spec fn continues(&self, before: &Self) -> bool; }
/// An established TLS session: who we are and whom we believe.
pub ghost enum Session { Server(ServerSide), Client { name: Seq<char>, roots: Seq<Seq<u8>> } }
pub mod server { use super::*; verus!{
#[verifier::external_body]
#[verifier::accept_recursive_types(S)]
pub struct TlsStream<S> { x: S }
impl<S> TlsStream<S> { pub uninterp spec fn transport(&self) -> S; pub uninterp spec fn side(&self) -> ServerSide; }
} }
pub mod client { use super::*; verus!{
#[verifier::external_body]
#[verifier::accept_recursive_types(S)]
pub struct TlsStream<S> { x: S }
impl<S> TlsStream<S> { pub uninterp spec fn transport(&self) -> S; pub uninterp spec fn name(&self) -> Seq<char>; pub uninterp spec fn roots(&self) -> Seq<Seq<u8>>; }
} }
pub enum TlsStream<S> { Client(client::TlsStream<S>), Server(server::TlsStream<S>) }
impl<S> TlsStream<S> {
    pub open spec fn transport(&self) -> S { match *self { TlsStream::Client(s) => s.transport(), TlsStream::Server(s) => s.transport() } }
    pub open spec fn session(&self) -> Session { match *self { TlsStream::Client(s) => Session::Client { name: s.name(), roots: s.roots() }, TlsStream::Server(s) => Session::Server(s.side()) } }
}
impl<S> From<client::TlsStream<S>> for TlsStream<S> { fn from(s: client::TlsStream<S>) -> (r: Self) { TlsStream::Client(s) } }
impl<S> vstd::std_specs::convert::FromSpecImpl<client::TlsStream<S>> for TlsStream<S> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(s: client::TlsStream<S>) -> Self { TlsStream::Client(s) } }
impl<S> From<server::TlsStream<S>> for TlsStream<S> { fn from(s: server::TlsStream<S>) -> (r: Self) { TlsStream::Server(s) } }
impl<S> vstd::std_specs::convert::FromSpecImpl<server::TlsStream<S>> for TlsStream<S> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(s: server::TlsStream<S>) -> Self { TlsStream::Server(s) } }
#[verifier::external_body]
pub struct TlsAcceptor { x: u8 }
impl TlsAcceptor {
    pub uninterp spec fn side(&self) -> ServerSide;
    #[verifier::external_body]
    pub fn from(c: Arc<ServerConfig>) -> (r: Self) ensures r.side() == c.given@ { unimplemented!() }
    /// Returns a stream only after the handshake completed.
    #[verifier::external_body]
    pub async fn accept<S: Transport>(&self, s: S) -> (r: Result<server::TlsStream<S>, crate::std_io::Error>)
        ensures r matches Ok(t) ==> t.transport().continues(&s) && t.side() == self.side()
    { unimplemented!() }
}
#[verifier::external_body]
pub struct TlsConnector { x: u8 }
impl TlsConnector {
    pub uninterp spec fn roots(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn from(c: Arc<ClientConfig>) -> (r: Self) ensures r.roots() == c.roots@ { unimplemented!() }
    /// Returns a stream only after the handshake completed and the server's certificate was verified.
    #[verifier::external_body]
    pub async fn connect<S: Transport>(&self, n: ServerName<'static>, s: S) -> (r: Result<client::TlsStream<S>, crate::std_io::Error>)
        ensures r matches Ok(t) ==> t.transport().continues(&s) && t.name() == n.name() && t.roots() == self.roots()
    { unimplemented!() }
}
}
pub mod rustls {
use vstd::prelude::*;
verus!{
#[verifier::external_body]
pub struct Error { x: u8 }
impl ::core::fmt::Debug for Error { #[verifier::external_body] fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { unimplemented!() } }
use pki_types::*;
pub ghost struct ServerSide { pub chain: Seq<Seq<u8>>, pub key: PrivateKeyDer<'static> }
/// The configuration of a server: the fields the proxy may set, and what was given to the builder.
pub struct ServerConfig { pub alpn_protocols: Vec<Vec<u8>>, pub given: Ghost<ServerSide> }
pub struct ServerBuilder { x: u8 }
pub struct ServerBuilderCert { x: u8 }
impl ServerConfig {
    #[verifier::external_body]
    pub fn builder() -> ServerBuilder { unimplemented!() }
}
impl ServerBuilder {
    #[verifier::external_body]
    pub fn with_no_client_auth(self) -> ServerBuilderCert { unimplemented!() }
}
impl ServerBuilderCert {
    #[verifier::external_body]
    pub fn with_single_cert(self, chain: Vec<CertificateDer<'static>>, key: PrivateKeyDer<'static>) -> (r: Result<ServerConfig, Error>)
        ensures r matches Ok(c) ==> c.given@ == (ServerSide { chain: chain@.map_values(|c: CertificateDer| c.der()), key })
    { unimplemented!() }
}
#[verifier::external_body]
pub struct RootCertStore { x: u8 }
impl RootCertStore {
    pub uninterp spec fn roots(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn empty() -> (r: Self) ensures r.roots() == Seq::<Seq<u8>>::empty() { unimplemented!() }
    /// Assumed to succeed: the certificates of the system are well-formed.
    #[verifier::external_body]
    pub fn add(&mut self, c: CertificateDer<'static>) -> (r: Result<(), Error>) ensures r is Ok, final(self).roots() == old(self).roots().push(c.der()) { unimplemented!() }
}
/// The configuration of a client; its builder always verifies the server's certificate against the given roots.
pub struct ClientConfig { pub alpn_protocols: Vec<Vec<u8>>, pub roots: Ghost<Seq<Seq<u8>>> }
#[verifier::external_body]
pub struct ClientBuilder { x: u8 }
#[verifier::external_body]
pub struct ClientBuilderRoots { x: u8 }
impl ClientConfig {
    #[verifier::external_body]
    pub fn builder() -> ClientBuilder { unimplemented!() }
}
impl ClientBuilder {
    #[verifier::external_body]
    pub fn with_root_certificates(self, roots: RootCertStore) -> (r: ClientBuilderRoots) ensures r.roots() == roots.roots() { unimplemented!() }
}
impl ClientBuilderRoots {
    pub uninterp spec fn roots(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn with_no_client_auth(self) -> (r: ClientConfig) ensures r.roots@ == self.roots() { unimplemented!() }
}
}
pub mod pki_types {
use vstd::prelude::*;
use ::core::marker::PhantomData;
verus!{
#[verifier::external_body]
pub struct CertificateDer<'a> { p: PhantomData<&'a ()> }
impl<'a> CertificateDer<'a> {
    pub uninterp spec fn der(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from(v: Vec<u8>) -> (r: Self) ensures r.der() == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.der() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: CertificateDer<'static>) ensures r.der() == self.der() { unimplemented!() }
}
#[verifier::external_body]
pub struct PrivatePkcs8KeyDer<'a> { p: PhantomData<&'a ()> }
impl<'a> PrivatePkcs8KeyDer<'a> {
    pub uninterp spec fn der(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from(v: Vec<u8>) -> (r: Self) ensures r.der() == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn secret_pkcs8_der(&self) -> (r: &[u8]) ensures r@ == self.der() { unimplemented!() }
}
#[verifier::external_body]
pub struct OtherKeyDer<'a> { p: PhantomData<&'a ()> }
/// A host name that TLS can ask for.
pub uninterp spec fn server_name_ok(s: Seq<char>) -> bool;
#[verifier::external_body]
pub struct ServerName<'a> { p: PhantomData<&'a ()> }
#[verifier::external_body]
pub struct InvalidDnsNameError { x: u8 }
impl ::core::fmt::Debug for InvalidDnsNameError { #[verifier::external_body] fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { unimplemented!() } }
impl<'a> ServerName<'a> {
    pub uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn try_from(s: String) -> (r: Result<ServerName<'static>, InvalidDnsNameError>)
        ensures r is Ok <==> server_name_ok(s@), r matches Ok(n) ==> n.name() == s@
    { unimplemented!() }
}
pub enum PrivateKeyDer<'a> { Pkcs8(PrivatePkcs8KeyDer<'a>), Pkcs1(OtherKeyDer<'a>), Sec1(OtherKeyDer<'a>) }
}
}
}
}
pub mod rustls_pemfile {
use vstd::prelude::*;
use crate::tokio_rustls::rustls::pki_types::*;
use crate::std_io::{BufReader, Error};
use crate::iters::Items;
verus!{
/// What is found in the text of a PEM file: an item, or something that cannot be read, and so on.
pub ghost enum Found { Der(Seq<u8>), Bad }
pub uninterp spec fn certs_in(b: Seq<u8>) -> Seq<Found>;
pub uninterp spec fn pkcs8_keys_in(b: Seq<u8>) -> Seq<Found>;
#[verifier::external_body]
pub fn certs<R>(r: &mut BufReader<R>) -> (i: Items<Result<CertificateDer<'static>, Error>>)
    ensures i.items().len() == certs_in(old(r).rest()).len(),
        forall|k: int| #![trigger i.items()[k]] #![trigger certs_in(old(r).rest())[k]] 0 <= k < i.items().len() ==> (match i.items()[k] { Ok(c) => certs_in(old(r).rest())[k] == Found::Der(c.der()), Err(_) => certs_in(old(r).rest())[k] == Found::Bad }),
{ unimplemented!() }
#[verifier::external_body]
pub fn pkcs8_private_keys<R>(r: &mut BufReader<R>) -> (i: Items<Result<PrivatePkcs8KeyDer<'static>, Error>>)
    ensures i.items().len() == pkcs8_keys_in(old(r).rest()).len(),
        forall|k: int| #![trigger i.items()[k]] #![trigger pkcs8_keys_in(old(r).rest())[k]] 0 <= k < i.items().len() ==> (match i.items()[k] { Ok(c) => pkcs8_keys_in(old(r).rest())[k] == Found::Der(c.der()), Err(_) => pkcs8_keys_in(old(r).rest())[k] == Found::Bad }),
{ unimplemented!() }
}
}

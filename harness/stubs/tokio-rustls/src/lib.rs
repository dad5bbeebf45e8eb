//! Stand-in for the `tokio-rustls` crate (not available offline): handshakes over the real rustls, and `TlsStream`.
//! Like the original it reads at most 4 KiB at a time and leaves what it read too much in the connection.
pub use rustls;
use rustls::{pki_types::ServerName, ClientConfig, ClientConnection, Connection, ServerConfig, ServerConnection};
use std::{io, sync::Arc};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

pub mod client {
    pub struct TlsStream<IO> { pub(crate) io: IO, pub(crate) session: rustls::ClientConnection }
    impl<IO> TlsStream<IO> {
        pub fn get_ref(&self) -> (&IO, &rustls::ClientConnection) { (&self.io, &self.session) }
        pub fn get_mut(&mut self) -> (&mut IO, &mut rustls::ClientConnection) { (&mut self.io, &mut self.session) }
        pub fn into_inner(self) -> (IO, rustls::ClientConnection) { (self.io, self.session) }
    }
}
pub mod server {
    pub struct TlsStream<IO> { pub(crate) io: IO, pub(crate) session: rustls::ServerConnection }
    impl<IO> TlsStream<IO> {
        pub fn get_ref(&self) -> (&IO, &rustls::ServerConnection) { (&self.io, &self.session) }
        pub fn get_mut(&mut self) -> (&mut IO, &mut rustls::ServerConnection) { (&mut self.io, &mut self.session) }
        pub fn into_inner(self) -> (IO, rustls::ServerConnection) { (self.io, self.session) }
    }
}
pub enum TlsStream<T> { Client(client::TlsStream<T>), Server(server::TlsStream<T>) }
impl<T> From<client::TlsStream<T>> for TlsStream<T> { fn from(s: client::TlsStream<T>) -> Self { TlsStream::Client(s) } }
impl<T> From<server::TlsStream<T>> for TlsStream<T> { fn from(s: server::TlsStream<T>) -> Self { TlsStream::Server(s) } }
impl<T> TlsStream<T> {
    pub fn get_ref(&self) -> &T { match self { TlsStream::Client(s) => &s.io, TlsStream::Server(s) => &s.io } }
}

async fn write_out<IO: AsyncWrite + Unpin>(io: &mut IO, c: &mut Connection) -> io::Result<()> {
    while c.wants_write() {
        let mut v = Vec::new();
        c.write_tls(&mut v)?;
        io.write_all(&v).await?;
    }
    io.flush().await
}
async fn handshake<IO: AsyncRead + AsyncWrite + Unpin>(io: &mut IO, c: &mut Connection) -> io::Result<()> {
    loop {
        write_out(io, c).await?;
        if !c.is_handshaking() { return Ok(()); }
        let mut b = [0u8; 4096];
        let n = io.read(&mut b).await?;
        if n == 0 { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "tls handshake eof")); }
        let mut rest = &b[..n];
        while !rest.is_empty() {
            c.read_tls(&mut rest)?;
            if let Err(e) = c.process_new_packets() {
                let _ = write_out(io, c).await;
                return Err(io::Error::new(io::ErrorKind::InvalidData, e));
            }
        }
    }
}

#[derive(Clone)]
pub struct TlsAcceptor(Arc<ServerConfig>);
impl From<Arc<ServerConfig>> for TlsAcceptor { fn from(c: Arc<ServerConfig>) -> Self { TlsAcceptor(c) } }
impl TlsAcceptor {
    pub async fn accept<IO: AsyncRead + AsyncWrite + Unpin>(&self, mut io: IO) -> io::Result<server::TlsStream<IO>> {
        let s = ServerConnection::new(self.0.clone()).map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
        let mut c = Connection::Server(s);
        handshake(&mut io, &mut c).await?;
        match c { Connection::Server(session) => Ok(server::TlsStream { io, session }), _ => unreachable!() }
    }
}
#[derive(Clone)]
pub struct TlsConnector(Arc<ClientConfig>);
impl From<Arc<ClientConfig>> for TlsConnector { fn from(c: Arc<ClientConfig>) -> Self { TlsConnector(c) } }
impl TlsConnector {
    pub async fn connect<IO: AsyncRead + AsyncWrite + Unpin>(&self, domain: ServerName<'static>, mut io: IO) -> io::Result<client::TlsStream<IO>> {
        let s = ClientConnection::new(self.0.clone(), domain).map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
        let mut c = Connection::Client(s);
        handshake(&mut io, &mut c).await?;
        match c { Connection::Client(session) => Ok(client::TlsStream { io, session }), _ => unreachable!() }
    }
}

//! The other side of a connection: a non-blocking socket, optionally with its own rustls connection, driven step by step.
use crate::util::*;
use std::{io::{ErrorKind, Read, Write}, net::TcpStream as Std, sync::{Arc, OnceLock}};
use tokio_rustls::rustls::{self, pki_types::*, ClientConfig, Connection, RootCertStore, ServerConfig};

pub fn pem(name: &str) -> &'static [u8] {
    match name {
        "ca.pem" => include_bytes!("../certs/ca.pem"), "rogue.pem" => include_bytes!("../certs/rogue.pem"),
        "good.pem" => include_bytes!("../certs/good.pem"), "good.key" => include_bytes!("../certs/good.key"),
        "other.pem" => include_bytes!("../certs/other.pem"), "other.key" => include_bytes!("../certs/other.key"),
        "expired.pem" => include_bytes!("../certs/expired.pem"), "expired.key" => include_bytes!("../certs/expired.key"),
        "rogue-good.pem" => include_bytes!("../certs/rogue-good.pem"), "rogue-good.key" => include_bytes!("../certs/rogue-good.key"),
        n => panic!("{n}"),
    }
}
pub fn certs(name: &str) -> Vec<CertificateDer<'static>> { rustls_pemfile::certs(&mut &*pem(name)).map(|c| c.unwrap()).collect() }
pub fn key(name: &str) -> PrivateKeyDer<'static> { PrivateKeyDer::Pkcs8(rustls_pemfile::pkcs8_private_keys(&mut &*pem(name)).next().unwrap().unwrap()) }
pub fn versions(v12: bool) -> &'static [&'static rustls::SupportedProtocolVersion] {
    static V12: &[&rustls::SupportedProtocolVersion] = &[&rustls::version::TLS12];
    if v12 { V12 } else { rustls::ALL_VERSIONS }
}
pub fn server_config(name: &str, v12: bool, frag: Option<usize>) -> Arc<ServerConfig> {
    let mut c = ServerConfig::builder_with_protocol_versions(versions(v12)).with_no_client_auth().with_single_cert(certs(&format!("{name}.pem")), key(&format!("{name}.key"))).unwrap();
    c.max_fragment_size = frag;
    c.alpn_protocols = vec![b"imap".to_vec()];
    Arc::new(c)
}
pub fn roots(name: &str) -> RootCertStore { let mut r = RootCertStore::empty(); for c in certs(name) { r.add(c).unwrap(); } r }
pub fn client_config(v12: bool, frag: Option<usize>) -> Arc<ClientConfig> {
    static R: OnceLock<RootCertStore> = OnceLock::new();
    let mut c = ClientConfig::builder_with_protocol_versions(versions(v12)).with_root_certificates(R.get_or_init(|| roots("ca.pem")).clone()).with_no_client_auth();
    c.max_fragment_size = frag;
    c.alpn_protocols = vec![b"imap".to_vec()];
    c.resumption = rustls::client::Resumption::disabled();
    Arc::new(c)
}

pub struct Peer {
    pub sock: Std,
    pub tls: Option<Connection>,
    /// plain bytes still to be handed to TLS, or to the socket
    pub plain: Vec<u8>,
    /// bytes for the socket
    pub out: Vec<u8>,
    pub got: Vec<u8>,
    pub raw: u64,
    pub eof: bool,
    /// hold the socket output back until the plain bytes are in it too
    pub coalesce: bool,
    pub sent_fin: bool,
    pub alerted: bool,
    pub dead: Option<String>,
    pub reset: bool,
}
impl Peer {
    pub fn new(sock: Std, tls: Option<Connection>) -> Self {
        sock.set_nonblocking(true).unwrap();
        sock.set_nodelay(true).unwrap();
        let tls = tls.map(|mut t| { t.set_buffer_limit(None); t });
        Peer { sock, tls, plain: vec![], out: vec![], got: vec![], raw: 0, eof: false, coalesce: false, sent_fin: false, alerted: false, dead: None, reset: false }
    }
    pub fn idle(&self) -> bool { self.plain.is_empty() && self.out.is_empty() && self.tls.as_ref().is_none_or(|t| !t.wants_write()) }
    /// Moves some bytes; says whether anything moved.
    pub fn step(&mut self, send: usize, recv: usize) -> bool {
        let mut moved = false;
        match &mut self.tls {
            None => { let n = self.plain.len().min(send); self.out.extend(self.plain.drain(..n)); }
            Some(t) => {
                if !self.plain.is_empty() { let n = if self.coalesce { self.plain.len() } else { self.plain.len().min(send) }; t.writer().write_all(&self.plain[..n]).unwrap(); self.plain.drain(..n); moved = true; }
                while t.wants_write() { t.write_tls(&mut self.out).unwrap(); moved = true; }
            }
        }
        if !self.out.is_empty() && send > 0 {
            let n = if self.coalesce { self.out.len() } else { self.out.len().min(send) };
            match self.sock.write(&self.out[..n]) { Ok(k) => { self.out.drain(..k); moved |= k > 0; } Err(e) if e.kind() == ErrorKind::WouldBlock => (), Err(e) => { self.dead = Some(e.to_string()); self.out.clear(); self.plain.clear(); } }
        }
        if recv > 0 && !self.eof {
            // without this, the other side's small writes wait for delayed acknowledgements
            let one: libc::c_int = 1;
            unsafe { libc::setsockopt(std::os::fd::AsRawFd::as_raw_fd(&self.sock), libc::IPPROTO_TCP, libc::TCP_QUICKACK, (&one as *const libc::c_int).cast(), 4); }
            let mut b = vec![0; recv];
            match self.sock.read(&mut b) {
                Ok(0) => { self.eof = true; moved = true; }
                Ok(n) => {
                    moved = true;
                    self.raw += n as u64;
                    match &mut self.tls {
                        None => self.got.extend(&b[..n]),
                        Some(t) => {
                            let mut rest = &b[..n];
                            while !rest.is_empty() && self.dead.is_none() {
                                t.read_tls(&mut rest).unwrap();
                                if let Err(e) = t.process_new_packets() { self.dead = Some(e.to_string()); }
                                let mut c = [0; 4096];
                                while let Ok(k) = t.reader().read(&mut c) { if k == 0 { break; } self.got.extend(&c[..k]); }
                            }
                        }
                    }
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => (),
                Err(e) => { self.dead = Some(e.to_string()); self.eof = true; }
            }
        }
        moved
    }
    pub fn fin(&mut self) { let _ = self.sock.shutdown(std::net::Shutdown::Write); self.sent_fin = true; }
    /// Resets the connection instead of closing it.
    pub fn reset(&mut self) {
        let l = listen(&host());
        let unused = Std::connect(l.local_addr().unwrap()).unwrap();
        let linger = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe { libc::setsockopt(std::os::fd::AsRawFd::as_raw_fd(&self.sock), libc::SOL_SOCKET, libc::SO_LINGER, (&linger as *const libc::linger).cast(), std::mem::size_of::<libc::linger>() as u32); }
        drop(std::mem::replace(&mut self.sock, unused));
        (self.sent_fin, self.eof, self.reset, self.dead) = (true, true, true, Some("reset".into()));
    }
    pub fn alert(&mut self) { if let Some(t) = &mut self.tls { if t.is_handshaking() { return; } t.send_close_notify(); self.alerted = true; } }
    pub fn random_step(&mut self, r: &mut Rng) -> bool {
        let a = match r.below(6) { 0 => 0, 1 => 1, 2 => r.range(1, 50) as usize, 3 => r.range(1, 5000) as usize, _ => r.range(1, 1 << 18) as usize };
        let b = match r.below(6) { 0 => 0, 1 => 1, 2 => r.range(1, 50) as usize, 3 => r.range(1, 5000) as usize, _ => 1 << 18 };
        self.step(a, b)
    }
}
/// A connected pair of loopback sockets, with small kernel buffers now and then.
pub fn pair(r: &mut Rng, rt: &tokio::runtime::Runtime) -> (tokio::net::TcpStream, Std) {
    let _g = rt.enter();
    let l = listen(&host());
    let a = tokio::net::TcpSocket::new_v4().unwrap();
    match r.below(12) { 0 => { let _ = a.set_send_buffer_size(2048); } 1..=5 => { let _ = a.set_send_buffer_size(32768); } _ => () }
    match r.below(12) { 0 => { let _ = a.set_recv_buffer_size(2048); } 1..=5 => { let _ = a.set_recv_buffer_size(65536); } _ => () }
    let addr = l.local_addr().unwrap();
    let h = std::thread::scope(|s| { let t = s.spawn(|| l.accept().unwrap().0); (rt.block_on(a.connect(addr)).unwrap(), t.join().unwrap()) });
    h.0.set_nodelay(true).unwrap();
    h
}

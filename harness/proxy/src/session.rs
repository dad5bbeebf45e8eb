//! One proxied session: a client and a server of ours, and the proxy under test between them.
use crate::{peer::*, util::*};
use proxy_under_test::{config::*, proxy::*};
use std::{future::Future, net::{TcpListener, TcpStream}, pin::pin, sync::atomic::Ordering, task::Poll, time::{Duration, Instant}};
use tokio::task::JoinHandle;

pub fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().enable_all().event_interval(1).build().unwrap() }
pub fn free_port(host: &str) -> u16 { listen(host).local_addr().unwrap().port() }
pub async fn turn() { PROGRESS.fetch_add(1, Ordering::SeqCst); tokio::task::yield_now().await }
/// Waits for a future while the peers are stepped; `None`: it took too long.
pub async fn with_steps<F: Future>(f: F, secs: f64, mut step: impl FnMut()) -> Option<F::Output> {
    let start = Instant::now();
    let mut f = pin!(f);
    loop {
        if let Poll::Ready(x) = std::future::poll_fn(|cx| Poll::Ready(f.as_mut().poll(cx))).await { return Some(x); }
        step();
        if start.elapsed().as_secs_f64() > secs { return None; }
        turn().await;
    }
}
pub struct Session { pub client: Peer, pub server: Peer, pub task: JoinHandle<()> }
pub enum Setup { Up(Session), BindFailed(String), AcceptFailed(String, Peer), ConnectFailed(String, Peer, Option<Peer>), Stuck(&'static str, Peer, Option<Peer>) }
/// `client_tls`/`server_tls`: our ends' TLS sides, if they speak TLS.
pub async fn setup(bind: Bind, connect: Connect, port: u16, fake: &TcpListener, client_tls: Option<tokio_rustls::rustls::Connection>, server_tls: Option<tokio_rustls::rustls::Connection>, client_first: &[u8], server_first: &[u8]) -> Setup {
    let (Bind::Insecure { host, .. } | Bind::Tls { host, .. }) = &bind;
    let host = host.clone();
    let service = Service { name: "s".into(), bind, connect };
    let bound = match Proxy::bind(service).await { Ok(b) => b, Err(e) => return Setup::BindFailed(format!("{e:?}")) };
    let sock = TcpStream::connect((host.as_str(), port)).unwrap();
    let mut client = Peer::new(sock, client_tls);
    client.plain.extend(client_first);
    let accepted = match with_steps(bound.accept_client(), 5.0, || { client.step(1 << 16, 1 << 16); if client.dead.is_some() && !client.sent_fin { client.step(1 << 16, 0); client.fin(); } }).await {
        None => return Setup::Stuck("accept_client", client, None),
        Some(Err(e)) => return Setup::AcceptFailed(format!("{e:?}"), client),
        Some(Ok(a)) => a,
    };
    fake.set_nonblocking(true).unwrap();
    let mut server: Option<Peer> = None;
    let mut server_tls = Some(server_tls);
    let connected = with_steps(accepted.connect_to_server(), 5.0, || {
        client.step(1 << 16, 1 << 16);
        match &mut server {
            None => if let Ok((s, _)) = fake.accept() { let mut p = Peer::new(s, server_tls.take().unwrap()); p.plain.extend(server_first); server = Some(p); },
            Some(s) => { s.step(1 << 16, 1 << 16); if s.dead.is_some() && !s.sent_fin { s.fin(); } }
        }
    }).await;
    let connected = match connected { None => return Setup::Stuck("connect_to_server", client, server), Some(Err(e)) => { for _ in 0..20 { client.step(1 << 16, 1 << 16); if let Some(s) = &mut server { s.step(1 << 16, 1 << 16); } turn().await; } return Setup::ConnectFailed(format!("{e:?}"), client, server) } Some(Ok(c)) => c };
    if server.is_none() { for _ in 0..1000 { if let Ok((s, _)) = fake.accept() { let mut p = Peer::new(s, server_tls.take().unwrap()); p.plain.extend(server_first); server = Some(p); break; } turn().await; } }
    let task = tokio::spawn(connected.start_conversation());
    Setup::Up(Session { client, server: server.expect("connected"), task })
}
impl Session {
    pub fn step(&mut self) -> bool { let a = self.client.step(1 << 16, 1 << 16); let b = self.server.step(1 << 16, 1 << 16); a | b }
    /// Steps until the condition holds.
    pub async fn until(&mut self, secs: f64, cond: impl Fn(&Session) -> bool) -> bool {
        let start = Instant::now();
        let mut quiet = 0;
        loop {
            let moved = self.step();
            if cond(self) { return true; }
            if start.elapsed().as_secs_f64() > secs { return false; }
            quiet = if moved { 0 } else { quiet + 1 };
            if quiet > 200 { PROGRESS.fetch_add(1, Ordering::SeqCst); tokio::time::sleep(Duration::from_millis(1)).await; } else { turn().await; }
        }
    }
    /// Nothing happens for a while.
    pub async fn settle(&mut self) { let mut quiet = 0; while quiet < 12 { if self.step() { quiet = 0 } else { quiet += 1 } turn().await; } }
    /// The end of the proxy's task: whether it panicked.
    pub async fn finish(self, secs: f64) -> Option<Result<(), String>> {
        let mut task = self.task;
        let (mut c, mut s) = (self.client, self.server);
        match with_steps(&mut task, secs, || { c.step(1 << 16, 1 << 16); s.step(1 << 16, 1 << 16); std::thread::sleep(Duration::from_micros(50)); }).await {
            None => { task.abort(); None }
            Some(Ok(())) => Some(Ok(())),
            Some(Err(e)) => Some(Err(if e.is_panic() { format!("panicked: {}", PANIC.lock().unwrap()) } else { "was cancelled".into() })),
        }
    }
}

//! The program itself: it serves every service of the file as configured, and goes on doing so whatever clients do.
use crate::{peer::*, util::*};
use std::{io::{Read, Write}, net::{TcpListener, TcpStream}, process::{Child, Command, Stdio}, sync::atomic::Ordering, time::{Duration, Instant}};
use tokio_rustls::rustls::{pki_types::ServerName, ClientConnection, Connection};
struct Running(Child);
impl Drop for Running { fn drop(&mut self) { let _ = self.0.kill(); let _ = self.0.wait(); } }
struct Svc { dflt: bool, bdflt: bool, host: String, name: String, port: u16, tls: bool, backend: TcpListener, bport: u16, taken: Option<TcpListener> }
fn tick() { PROGRESS.fetch_add(1, Ordering::SeqCst); std::thread::sleep(Duration::from_millis(1)); }
/// Connects, sends `first`, and returns what comes back within the time, or until `want` is there.
fn visit(child: &mut Running, s: &Svc, tls: bool, first: &[u8], want: &[u8], secs: f64) -> Result<Vec<u8>, String> {
    let start = Instant::now();
    let sock = loop {
        match TcpStream::connect((s.host.as_str(), s.port)) { Ok(x) => break x, Err(e) => if start.elapsed().as_secs_f64() > secs { return Err(format!("cannot connect: {e}")) } }
        if let Ok(Some(x)) = child.0.try_wait() { return Err(format!("cannot connect, the program ended: {x}")); }
        tick();
    };
    let side = if tls {
        let c = client_config(false, None);
        Some(Connection::Client(ClientConnection::new(c, ServerName::try_from("localhost").unwrap()).unwrap()))
    } else { None };
    let mut p = Peer::new(sock, side);
    p.plain.extend(first);
    s.backend.set_nonblocking(true).unwrap();
    // every connection the proxy makes is greeted (some are for clients that came before us), and ours is the one that gets what we sent
    let mut back: Vec<(TcpStream, Vec<u8>)> = vec![];
    let mut there = first.is_empty();
    let mut last = None;
    while start.elapsed().as_secs_f64() < secs {
        p.step(1 << 16, 1 << 16);
        while let Ok((mut b, _)) = s.backend.accept() { let _ = b.write_all(format!("* OK {} {}\r\n", s.name, s.bport).as_bytes()); let _ = b.set_nonblocking(true); back.push((b, vec![])); }
        for (b, got) in &mut back {
            let mut buf = [0; 4096];
            if let Ok(n) = b.read(&mut buf) { got.extend(&buf[..n]); }
            if !first.is_empty() && got == first { there = true; }
        }
        let greeted = !want.is_empty() && p.got.windows(want.len()).any(|w| w == want);
        if greeted && there { break; }
        if p.eof || p.dead.is_some() { last.get_or_insert(Instant::now()); }
        if last.is_some_and(|l: Instant| l.elapsed() > Duration::from_millis(300)) { break; }
        tick();
    }
    if !there && !p.got.is_empty() { return Err(format!("the server did not get {}, but {}", show(first), back.iter().map(|b| show(&b.1)).collect::<Vec<_>>().join(" | "))); }
    Ok(p.got)
}
/// A failure counts if it happens again with other ports.
pub fn program(seed: u64, t: &mut Trace) -> Result<(), Viol> { once(seed, t).or_else(|_| once(seed, t)) }
fn once(seed: u64, t: &mut Trace) -> Result<(), Viol> {
    let mut r = Rng::new(seed);
    let exe = std::env::current_exe().unwrap().with_file_name("proxy-bin");
    let dir = crate::pem::scratch();
    let (cert, key, roots) = (dir.join("p.crt"), dir.join("p.key"), dir.join("roots.pem"));
    std::fs::write(&cert, pem("good.pem")).unwrap();
    std::fs::write(&key, pem("good.key")).unwrap();
    let n = if r.chance(8) { r.range(6, 40) } else { r.range(1, 5) };
    let host = host();
    let mut v: Vec<Svc> = (0..n).map(|i| {
        let backend = listen(&host);
        let bport = backend.local_addr().unwrap().port();
        let name = match r.below(5) { 0 => String::new(), 1 => "same".into(), _ => format!("service {i}") };
        Svc { dflt: false, bdflt: false, host: host.clone(), name, port: 0, tls: r.chance(40), backend, bport, taken: None }
    }).collect();
    // some services use the default ports, if we may
    if r.chance(25) {
        let k = r.below(n as u64) as usize;
        if r.chance(50) { v[k].dflt = true; } else if let Ok(l) = TcpListener::bind((host.as_str(), 143)) { v[k].bdflt = true; v[k].bport = 143; v[k].backend = l; }
    }
    for s in v.iter_mut() {
        let l = match TcpListener::bind((host.as_str(), if s.tls { 993 } else { 143 })) { Ok(l) if s.dflt => l, _ => { s.dflt = false; listen(&host) } };
        s.port = l.local_addr().unwrap().port();
        s.taken = Some(l);
    }
    let blocked: Vec<bool> = v.iter().map(|_| n > 1 && r.chance(15)).collect();
    let mut text = String::new();
    for s in &v {
        let identity = if s.tls { format!("identity = {{ type = \"CertificateChainAndLeafKey\", certificate_chain_path = {:?}, leaf_key_path = {:?} }}\n", cert.display().to_string(), key.display().to_string()) } else { String::new() };
        let at = |dflt: bool, port: u16| if dflt { String::new() } else { format!("port = {port}\n") };
        let (p, bp) = (at(s.dflt, s.port), at(s.bdflt, s.bport));
        text += &format!("[[services]]\nname = {:?}\n[services.bind]\nencryption = {:?}\nhost = {host:?}\n{p}{identity}[services.connect]\nencryption = \"Insecure\"\nhost = {host:?}\n{bp}", s.name, if s.tls { "Tls" } else { "Insecure" });
    }
    let fault = match r.below(12) { 0 => "missing", 1 => "malformed", 2 => "unknown encryption", _ => "" };
    if fault == "malformed" { text += "\n]]"; }
    if fault == "unknown encryption" { text = text.replacen("\"Insecure\"", "\"None\"", 1); }
    let path = dir.join(format!("{seed}.toml"));
    if fault != "missing" { std::fs::write(&path, &text).unwrap(); }
    t.op(|| format!("configuration ({fault}), blocked {blocked:?}:\n{text}"));
    t.note(&format!("{n}{}{}{fault}{blocked:?}{:?}", v.iter().any(|s| s.dflt), v.iter().any(|s| s.bdflt), v.iter().map(|s| s.tls).collect::<Vec<_>>()));
    // the working folder has a good configuration of its own, which must not be used
    let empty = dir.join("cwd");
    std::fs::create_dir_all(&empty).unwrap();
    std::fs::write(empty.join("config.toml"), "services = []\n").unwrap();
    for (s, b) in v.iter_mut().zip(&blocked) { if !b { s.taken = None; } }
    let mut child = Running(Command::new(&exe).arg("--config").arg(&path).current_dir(&empty).env("SSL_CERT_FILE", &roots).env_remove("RUST_LOG").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("the program is there"));
    let res = (|| {
        if !fault.is_empty() {
            let start = Instant::now();
            loop {
                if let Some(s) = child.0.try_wait().unwrap() { if s.success() { return viol(&["P04"], format!("a configuration that is {fault} is no error")); } return Ok(()); }
                if start.elapsed() > Duration::from_secs(8) { return viol(&["P04"], format!("the program runs with a configuration that is {fault}")); }
                tick();
            }
        }
        let mut reached = false;
        let mut visits: Vec<usize> = (0..v.len()).chain((0..v.len()).filter(|_| r.chance(50))).collect();
        for i in (1..visits.len()).rev() { visits.swap(i, r.below(i as u64 + 1) as usize); }
        visits.truncate(14);
        for i in visits {
            let s = &v[i];
            if blocked[i] { continue; }
            if r.chance(40) {
                // a client that does not do what it should
                let first = *r.pick(&[&b""[..], b"\r\n", b"B1 NOOP\r\n", b"\x16\x03\x01\x00\x05hello", b"B1 LOGIN {5}\r\n", b"{9999999999}\r\n"]);
                t.op(|| format!("bad client for service {i}: {}", show(first)));
                if let Ok(mut c) = TcpStream::connect((s.host.as_str(), s.port)) { let _ = c.write_all(first); if r.chance(50) { let _ = socket_reset(&c); } }
            }
            let hello = format!("* OK {} {}\r\n", s.name, s.bport);
            let first: &[u8] = if r.chance(50) { b"A1 NOOP\r\n" } else { b"" };
            t.op(|| format!("client for service {i} (tls {}), sends {}", s.tls, show(first)));
            let mut got = Ok(vec![]);
            // a greeting may go to a connection that a bad client left behind
            for _ in 0..3 { got = visit(&mut child, s, s.tls, first, hello.as_bytes(), if reached { 4.0 } else { 8.0 }); if matches!(&got, Ok(g) if !g.is_empty()) || matches!(&got, Err(e) if e.starts_with("cannot connect")) { break; } }
            reached = true;
            match got {
                Ok(g) if g == hello.as_bytes() => (),
                Ok(g) => return viol(&["P04", "P03", "P02", "P05"], format!("service {i} answers {}, not {}", show(&g), show(hello.as_bytes()))),
                Err(e) => {
                    if e.starts_with("cannot connect") && TcpListener::bind((s.host.as_str(), s.port)).is_err() { return Ok(()); }
                    let what = if e.starts_with("cannot connect") { &["P04", "P03"][..] } else { &["P02"] };
                    return viol(what, format!("service {i}: {e}"));
                }
            }
            if s.tls && r.chance(30) {
                let g = visit(&mut child, s, false, b"", b"* ", 0.05).unwrap_or_default();
                if g.windows(2).any(|w| w == b"* ") { return viol(&["P05"], format!("service {i} with TLS answers in clear: {}", show(&g))); }
            }
        }
        Ok(())
    })();
    let _ = std::fs::remove_file(&path);
    res
}
/// Closing it resets the connection.
fn socket_reset(c: &TcpStream) -> std::io::Result<()> {
    use std::os::fd::AsRawFd;
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    let n = unsafe { libc::setsockopt(c.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32) };
    if n == 0 { Ok(()) } else { Err(std::io::Error::last_os_error()) }
}

//! P05: which encryption is used on either side, and that it is never given up.
use crate::{peer::*, session::*, util::*};
use proxy_under_test::config::*;
use tokio_rustls::rustls::{pki_types::ServerName, ClientConfig, ClientConnection, Connection, ServerConnection};
const L: &[&str] = &["P05"];
fn has(hay: &[u8], needle: &[u8]) -> bool { hay.windows(needle.len()).any(|w| w == needle) }

pub fn case(seed: u64, t: &mut Trace) -> Result<(), Viol> {
    let mut r = Rng::new(seed);
    let rt = rt();
    let dir = crate::pem::scratch();
    // often the standard ports, if we may
    let fake = match r.below(6) { 0 => std::net::TcpListener::bind(("127.0.0.1", 143)).ok(), 1 => std::net::TcpListener::bind(("127.0.0.1", 993)).ok(), _ => None }.unwrap_or_else(|| listen("127.0.0.1"));
    let fake_port = fake.local_addr().unwrap().port();
    let bhost = host();
    let port = match r.below(6) { 0 => Some(143), 1 => Some(993), _ => None }.filter(|p| std::net::TcpListener::bind((bhost.as_str(), *p)).is_ok()).unwrap_or_else(|| free_port(&bhost));
    let (bind_tls, connect_tls) = (r.chance(60), r.chance(60));
    // our certificate towards the client
    let name = *r.pick(&["good", "good", "good", "rogue-good"]);
    let files = if bind_tls { r.below(10) } else { 9 };
    let (cert_path, key_path) = (dir.join(format!("{seed}.crt")), dir.join(format!("{seed}.key")));
    let identity_ok = files > 3;
    match files { 0 => (), _ => std::fs::write(&cert_path, pem(&format!("{name}.pem"))).unwrap() }
    match files { 1 => (), 2 => std::fs::write(&key_path, pem("other.key")).unwrap(), 3 => std::fs::write(&key_path, pem(&format!("{name}.pem"))).unwrap(), _ => std::fs::write(&key_path, pem(&format!("{name}.key"))).unwrap() }
    let identity = Identity::CertificateChainAndLeafKey { certificate_chain_path: cert_path.display().to_string(), leaf_key_path: key_path.display().to_string() };
    let bind = if bind_tls { Bind::Tls { host: bhost.clone(), port, identity } } else { Bind::Insecure { host: bhost.clone(), port } };
    let chost = *r.pick(&["localhost", "127.0.0.1"]);
    let connect = if connect_tls { Connect::Tls { host: chost.into(), port: fake_port } } else { Connect::Insecure { host: chost.into(), port: fake_port } };
    // what our client does
    let client_plain = if bind_tls { r.chance(25) } else { true };
    let client_tls = if client_plain { None } else {
        let mut c = ClientConfig::builder_with_protocol_versions(versions(r.chance(30))).with_root_certificates(roots(if name == "good" { "ca.pem" } else { "rogue.pem" })).with_no_client_auth();
        c.resumption = tokio_rustls::rustls::client::Resumption::disabled();
        if r.chance(50) { c.alpn_protocols = vec![b"imap".to_vec()]; }
        Some(Connection::Client(ClientConnection::new(std::sync::Arc::new(c), ServerName::try_from("localhost").unwrap()).unwrap()))
    };
    // what our server does
    let scert = if connect_tls { *r.pick(&["good", "good", "good", "other", "expired", "rogue-good"]) } else { "good" };
    let server_plain = if connect_tls { r.chance(20) } else { true };
    let server_tls = if server_plain { None } else { Some(Connection::Server(ServerConnection::new(server_config(scert, r.chance(30), None)).unwrap())) };
    t.op(|| format!("bind tls {bind_tls} (files {files}, {name}), client speaks plain {client_plain}; connect tls {connect_tls} to {chost}, server has {scert}, speaks plain {server_plain}"));
    t.note(&format!("{bind_tls}{files}{name}{client_plain}{connect_tls}{scert}{server_plain}"));
    let res = guarded(L, "the proxy's connection setup", || rt.block_on(async {
        let greeting: &[u8] = b"* OK hello from the server\r\n";
        let accept_ok = !bind_tls || (identity_ok && !client_plain);
        let connect_ok = !connect_tls || (!server_plain && scert == "good");
        match setup(bind, connect, port, &fake, client_tls, server_tls, if client_plain { b"A1 NOOP\r\n" } else { b"" }, greeting).await {
            Setup::BindFailed(e) => { if e.contains("AddrInUse") { return Ok(()); } viol(L, format!("bind failed: {e}")) }
            Setup::Stuck(what, c, s) => {
                let _ = (c, s);
                viol(L, format!("{what} does not finish"))
            }
            Setup::AcceptFailed(e, mut c) => {
                for _ in 0..20 { c.step(0, 1 << 16); turn().await; }
                t.op(|| format!("accept failed: {e}"));
                if accept_ok { return viol(L, format!("a good client was not accepted: {e}")); }
                if has(&c.got, b"* ") { return viol(L, "IMAP data was sent in clear".into()); }
                Ok(())
            }
            Setup::ConnectFailed(e, c, s) => {
                t.op(|| format!("connect failed: {e}"));
                if !accept_ok { return viol(L, "a client that did not finish the TLS handshake was accepted".into()); }
                if connect_ok { return viol(L, format!("a good server was refused: {e}")); }
                if let Some(s) = &s { if s.tls.is_none() && has(&s.got, b"NOOP") { return viol(L, "IMAP data was sent in clear to the server".into()); } if s.tls.is_some() && !s.got.is_empty() { return viol(L, "data was sent to a server that was not verified".into()); } }
                if has(&c.got, b"hello") { return viol(L, "the greeting of a refused server was passed on".into()); }
                Ok(())
            }
            Setup::Up(mut s) => {
                t.op(|| "session is up".into());
                if !accept_ok { return viol(L, "a client without a finished TLS handshake got a session".into()); }
                if !connect_ok { return viol(L, format!("a session was set up with a server that is not secured as configured (certificate {scert}, plain {server_plain})")); }
                if !client_plain { s.client.plain.extend(b"A1 NOOP\r\n"); }
                let both = s.until(4.0, |s| has(&s.client.got, b"hello from the server\r\n") && has(&s.server.got, b"NOOP\r\n")).await;
                if !both { return viol(&["P05", "P02"], format!("no conversation: client got {}, server got {}", show(&s.client.got), show(&s.server.got))); }
                if let Some(c) = &s.client.tls {
                    let got: Vec<Vec<u8>> = c.peer_certificates().unwrap_or(&[]).iter().map(|c| c.to_vec()).collect();
                    let want: Vec<Vec<u8>> = certs(&format!("{name}.pem")).iter().map(|c| c.to_vec()).collect();
                    if got != want { return viol(L, format!("the proxy presented {} certificates, not the {} configured ones", got.len(), want.len())); }
                }
                s.client.fin();
                match s.finish(4.0).await { Some(Ok(())) => Ok(()), Some(Err(e)) => viol(&["P03"], format!("the session {e}")), None => viol(&["P03"], "the session goes on after the client closed".into()) }
            }
        }
    }));
    let _ = std::fs::remove_file(&cert_path); let _ = std::fs::remove_file(&key_path);
    res?
}

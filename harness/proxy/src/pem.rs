//! P06: certificate and key files, against an independent description.
use crate::{peer, util::*};
use proxy_under_test::util as put;
use std::path::PathBuf;
use tokio_rustls::rustls::pki_types::*;
const L: &[&str] = &["P06"];
struct Dir(PathBuf);
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
thread_local! { static DIR: Dir = { let d = std::env::temp_dir().join(format!("hproxy-{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); Dir(d) }; }
pub fn scratch() -> PathBuf { DIR.with(|d| d.0.clone()) }

fn section(label: &str, der: &[u8], width: usize, nl: &str) -> String {
    let b = imap_types::base64(der);
    let mut s = format!("-----BEGIN {label}-----{nl}");
    for c in b.as_bytes().chunks(width) { s += std::str::from_utf8(c).unwrap(); s += nl; }
    s + &format!("-----END {label}-----{nl}")
}
pub fn case(seed: u64, t: &mut Trace) -> Result<(), Viol> {
    let mut r = Rng::new(seed);
    let nl = if r.chance(20) { "\r\n" } else { "\n" };
    let mut text = String::new();
    let (mut certs, mut keys): (Vec<Vec<u8>>, Vec<Vec<u8>>) = (vec![], vec![]);
    let mut bad = false;
    let n = match r.below(60) { 59 => r.range(7, 60), x => x % 8 };
    let n = match n { 7..=60 if n > 7 => n, 0 => 0, 1..=4 => r.range(1, 3), _ => r.range(2, 6) };
    for _ in 0..n {
        if r.chance(15) { text += "some comment"; text += nl; }
        let len = if r.chance(2) { r.range(200, 40000) } else { r.range(1, 200) } as usize;
        let der: Vec<u8> = if r.chance(15) && !certs.is_empty() { certs[0].clone() } else { (0..len).map(|_| r.next() as u8).collect() };
        let label = match r.below(12) { 0..=4 => "CERTIFICATE", 5..=7 => "PRIVATE KEY", 8 => "RSA PRIVATE KEY", 9 => "EC PRIVATE KEY", 10 => "PUBLIC KEY", _ => "X509 CRL" };
        let s = section(label, &der, 64, nl);
        if label == "CERTIFICATE" { certs.push(der.clone()); }
        if label == "PRIVATE KEY" { keys.push(der.clone()); }
        t.note(label);
        if r.chance(7) && !bad {
            bad = true;
            let s2 = match r.below(3) { 0 => s.replacen(nl, &format!("{nl}!!!{nl}"), 1), 1 => s[..s.rfind("-----END").unwrap()].to_string(), _ => s.replacen("-----END", "-----FIN", 1) };
            t.note("bad"); text += &s2;
            break;
        }
        text += &s;
    }
    if r.chance(3) { let (a, b) = (peer::pem("good.pem"), peer::pem("good.key")); text = String::from_utf8(if r.chance(50) { [a, b].concat() } else { [b, a].concat() }).unwrap(); bad = false; certs = peer::certs("good.pem").iter().map(|c| c.to_vec()).collect(); keys = vec![peer::key("good.key").secret_der().to_vec()]; }
    let p = scratch().join(format!("{seed} {}.pem", if r.chance(10) { "name with \"quotes\"" } else { "x" }));
    let missing = r.below(25);
    if missing == 0 { t.note("missing"); } else if missing == 1 { std::fs::create_dir_all(&p).unwrap(); t.note("folder"); } else { std::fs::write(&p, &text).unwrap(); }
    t.op(|| format!("file (missing {missing}, bad {bad}, {} certificates, {} keys):\n{text}", certs.len(), keys.len()));
    let c = guarded(L, "load_certificate_chain_pem", || put::load_certificate_chain_pem(&p));
    let k = guarded(L, "load_leaf_key_pem", || put::load_leaf_key_pem(&p));
    if missing == 1 { let _ = std::fs::remove_dir(&p); } else { let _ = std::fs::remove_file(&p); }
    let (c, k): (Result<Vec<CertificateDer<'static>>, put::IdentityError>, Result<PrivateKeyDer<'static>, put::IdentityError>) = (c?, k?);
    t.op(|| format!("chain: {:?}, key ok: {}", c.as_ref().map(|c| c.len()), k.is_ok()));
    let fail = bad || missing < 2;
    let path = p.display().to_string();
    let named = |e: &put::IdentityError| format!("{e}").contains(&path);
    match &c {
        Ok(_) if fail => return viol(L, format!("an unreadable or malformed file gave a chain of {} certificates", c.as_ref().unwrap().len())),
        Ok(c) => if c.len() != certs.len() || c.iter().zip(&certs).any(|(a, b)| a.as_ref() != b.as_slice()) { return viol(L, format!("the file has {} certificates, the chain differs ({})", certs.len(), c.len())); },
        Err(e) if !fail => return viol(L, format!("a file with {} certificates was refused: {e}", certs.len())),
        Err(e) => if !named(e) { return viol(L, format!("the error does not name the file: {e}")); },
    }
    match &k {
        Ok(_) if fail || keys.len() != 1 => return viol(L, format!("a key was taken from a file with {} keys (broken: {fail})", keys.len())),
        Ok(k) => if !matches!(k, PrivateKeyDer::Pkcs8(_)) || k.secret_der() != keys[0].as_slice() { return viol(L, "the key differs".into()); },
        Err(e) if !fail && keys.len() == 1 => return viol(L, format!("a file with one key was refused: {e}")),
        Err(e) => if !named(e) { return viol(L, format!("the error does not name the file: {e}")); },
    }
    Ok(())
}

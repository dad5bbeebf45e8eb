//! P04: configuration files and endpoint addresses, against an independent description.
use crate::{config::*, util::*};
const L: &[&str] = &["P04"];
struct Dir(std::path::PathBuf);
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
thread_local! { static DIR: Dir = { let d = std::env::temp_dir().join(format!("hunit-{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); Dir(d) }; }

#[derive(Clone, Debug, PartialEq)]
struct End { tls: bool, host: String, port: Option<u16>, identity: Option<(String, String)> }
fn host(r: &mut Rng) -> String { match r.below(12) { 9 => "IMAP.Example.ORG".into(), 10 => (*r.pick(&[" host", "host ", "host.", "\thost\n", "a b"])).into(), 11 => "a".repeat(r.range(200, 300) as usize), 0 => "::1".into(), 1 => "[::1]".into(), 2 => "imap.example.org".into(), 3 => "127.0.0.1".into(), 4 => String::new(), 5 => "exämple".into(), 6 => "a:b".into(), 7 => "{port}".into(), _ => (0..r.range(1, 8)).map(|_| *r.pick(b"abc.-09") as char).collect() } }
fn port(r: &mut Rng) -> u16 { match r.below(8) { 0 => 0, 1 => 65535, 2 => 143, 3 => 993, 4 => 9, 5 => 10, 6 => r.below(1000) as u16, _ => r.next() as u16 } }
fn q(s: &str) -> String { format!("{s:?}") }
fn fields(r: &mut Rng, e: &End) -> Vec<(String, String)> {
    let mut f = vec![("encryption".into(), q(if e.tls { "Tls" } else { "Insecure" })), ("host".into(), q(&e.host))];
    if let Some(p) = e.port { f.push(("port".into(), p.to_string())); }
    if let Some((c, k)) = &e.identity { f.push(("identity".into(), format!("{{ type = \"CertificateChainAndLeafKey\", certificate_chain_path = {}, leaf_key_path = {} }}", q(c), q(k)))); }
    for i in (1..f.len()).rev() { let j = r.below(i as u64 + 1) as usize; f.swap(i, j); }
    f
}
fn same(e: &End, bind: Option<&Bind>, connect: Option<&Connect>) -> bool {
    let port = e.port.unwrap_or(if e.tls { 993 } else { 143 });
    match (bind, connect) {
        (Some(Bind::Insecure { host, port: p }), _) => !e.tls && *host == e.host && *p == port,
        (Some(Bind::Tls { host, port: p, identity: Identity::CertificateChainAndLeafKey { certificate_chain_path: c, leaf_key_path: k } }), _) => e.tls && *host == e.host && *p == port && e.identity == Some((c.clone(), k.clone())),
        (_, Some(Connect::Insecure { host, port: p })) => !e.tls && *host == e.host && *p == port,
        (_, Some(Connect::Tls { host, port: p })) => e.tls && *host == e.host && *p == port,
        _ => false,
    }
}
pub fn case(seed: u64, t: &mut Trace) -> Result<(), Viol> {
    let mut r = Rng::new(seed);
    let n = if r.chance(2) { r.range(5, 40) as usize } else { r.below(5) as usize };
    let mut text = String::new();
    if r.chance(20) { text += "# comment\n"; }
    let mut want: Vec<(String, End, End)> = vec![];
    // what is wrong with one of the services, if anything
    let bad = if n > 0 && r.chance(45) { Some((r.below(n as u64) as usize, r.below(13))) } else { None };
    let mut expect_err = bad.is_some();
    if n == 0 { if r.chance(50) { text += "services = []\n"; } else { expect_err = true; } }
    for i in 0..n {
        let name = match r.below(6) { 0 => String::new(), 4 => "Same".into(), 5 => " x ".into(), 1 => "Best \"Provider\"\n".into(), _ => format!("s{i}") };
        let mut ends: Vec<(End, Vec<(String, String)>)> = (0..2).map(|k| {
            let tls = r.chance(50);
            let e = End { tls, host: host(&mut r), port: if r.chance(60) { Some(port(&mut r)) } else { None }, identity: if k == 0 && tls { Some((format!("{}c{i}.pem", *r.pick(&["", "../", "/A/", "~/", " "])), format!("k \\ {i}{}", *r.pick(&["", " ", ".PEM"])))) } else { None } };
            let f = fields(&mut r, &e); (e, f)
        }).collect();
        let mut top = vec![("name".to_string(), q(&name))];
        let mut skip = [false, false];
        if let Some((j, what)) = bad { if j == i {
            let k = r.below(2) as usize;
            let set = |f: &mut Vec<(String, String)>, key: &str, v: &str| { f.retain(|x| x.0 != key); f.push((key.into(), v.into())); };
            match what {
                0 => ends[k].1.retain(|f| f.0 != "host"),
                1 => ends[k].1.retain(|f| f.0 != "encryption"),
                2 => { let v = *r.pick(&["\"tls\"", "\"TLS\"", "\"STARTTLS\"", "\"insecure\"", "\"\"", "\"None\"", "\"Plain\"", "1", "true"]); set(&mut ends[k].1, "encryption", v) }
                3 => set(&mut ends[k].1, "port", *r.pick(&["65536", "-1", "\"143\"", "1.5", "100000", "4294967296", "true"])),
                4 => { let f = &mut ends[0].1; set(f, "encryption", "\"Tls\""); f.retain(|x| x.0 != "identity"); }
                5 => top.clear(),
                6 => skip[k] = true,
                7 => { let f = &mut ends[0].1; set(f, "encryption", "\"Tls\""); set(f, "identity", "{ type = \"CertificateChainAndLeafKey\", certificate_chain_path = \"x\" }"); }
                8 => { let f = &mut ends[0].1; set(f, "encryption", "\"Tls\""); set(f, "identity", "{ type = \"Pkcs12\", certificate_chain_path = \"x\", leaf_key_path = \"y\" }"); }
                9 => set(&mut ends[k].1, "host", "1"),
                10 => top[0].1 = "1".into(),
                11 => { let f = &mut ends[0].1; set(f, "encryption", "\"Tls\""); set(f, "identity", "{ certificate_chain_path = \"x\", leaf_key_path = \"y\" }"); }
                _ => { let f = &mut ends[0].1; set(f, "encryption", "\"Tls\""); set(f, "identity", "{ type = \"CertificateChainAndLeafKey\", leaf_key_path = \"y\" }"); }
            }
        } }
        text += "[[services]]\n";
        let inline = [r.chance(50), r.chance(50)];
        for (k, v) in &top { text += &format!("{k} = {v}\n"); }
        for k in 0..2 { if inline[k] && !skip[k] { text += &format!("{} = {{ {} }}\n", ["bind", "connect"][k], ends[k].1.iter().map(|f| format!("{} = {}", f.0, f.1)).collect::<Vec<_>>().join(", ")); } }
        for k in 0..2 { if !inline[k] && !skip[k] { text += &format!("[services.{}]\n", ["bind", "connect"][k]); for f in &ends[k].1 { text += &format!("{} = {}\n", f.0, f.1); } } }
        let c = ends.pop().unwrap().0; let b = ends.pop().unwrap().0;
        want.push((name, b, c));
    }
    let mut bytes = text.clone().into_bytes();
    match r.below(30) { 0 => { bytes.extend(b"\n[[services]\n"); expect_err = true; } 1 => { bytes.extend(b"\n# \xff\n"); expect_err = true; } 2 => { bytes.extend(b"\nservices = 3 x\n"); expect_err = true; } _ => () }
    let p = DIR.with(|d| d.0.join(format!("{seed}.toml")));
    let missing = r.below(25);
    if missing == 0 { expect_err = true; } else if missing == 1 { std::fs::create_dir_all(&p).unwrap(); expect_err = true; } else { std::fs::write(&p, &bytes).unwrap(); }
    t.op(|| format!("{} file: {}", if expect_err { "wrong" } else { "valid" }, show(&bytes)));
    let got = guarded(L, "Config::load", || Config::load(&p));
    if missing == 1 { let _ = std::fs::remove_dir(&p); } else { let _ = std::fs::remove_file(&p); }
    let got = got?;
    t.op(|| format!("load -> {got:?}"));
    t.note(&format!("{expect_err} {n} {bad:?} {}", want.iter().map(|w| format!("{}{}{}{}", w.1.tls, w.1.port.is_some(), w.2.tls, w.2.port.is_some())).collect::<String>()));
    match (&got, expect_err) {
        (Err(_), true) => (),
        (Err(e), false) => return viol(L, format!("a valid configuration was refused: {e}\n{text}")),
        (Ok(c), true) => return viol(L, format!("a wrong configuration (missing {missing}, {bad:?}) was accepted as {c:?}:\n{text}")),
        (Ok(c), false) => {
            if c.services.len() != want.len() { return viol(L, format!("{} services instead of {}", c.services.len(), want.len())); }
            for (s, (name, b, k)) in c.services.iter().zip(&want) { if s.name != *name || !same(b, Some(&s.bind), None) || !same(k, None, Some(&s.connect)) { return viol(L, format!("service is {s:?}, the file says {name:?} {b:?} {k:?}")); } }
        }
    }
    let (h, p) = (host(&mut r), port(&mut r));
    let want = { let mut s = h.clone(); s.push(':'); s += &p.to_string(); s };
    let id = Identity::CertificateChainAndLeafKey { certificate_chain_path: "c".into(), leaf_key_path: "k".into() };
    for (what, got) in [
        ("Bind::Insecure", guarded(L, "addr_port", || Bind::Insecure { host: h.clone(), port: p }.addr_port())?),
        ("Bind::Tls", guarded(L, "addr_port", || Bind::Tls { host: h.clone(), port: p, identity: id.clone() }.addr_port())?),
        ("Connect::Insecure", guarded(L, "addr_port", || Connect::Insecure { host: h.clone(), port: p }.addr_port())?),
        ("Connect::Tls", guarded(L, "addr_port", || Connect::Tls { host: h.clone(), port: p }.addr_port())?),
    ] { if got != want { return viol(L, format!("address of {what} with host {h:?} and port {p} is {got:?}")); } }
    Ok(())
}

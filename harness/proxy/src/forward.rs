//! P01, P02, P03: what passes through the proxy. `forward`: one message at a time, each with a definite outcome. `chaos`: anything at any time.
use crate::{gen, peer::Peer, session::*, util::*};
use imap_codec::{decode::*, encode::*, *};
use imap_types::{auth::*, command::*, core::*, response::*};
use proxy_under_test::config::*;

const NAMES: &[&str] = &["IMAP4REV1", "IDLE", "STARTTLS", "LOGINDISABLED", "AUTH=PLAIN", "AUTH=LOGIN", "AUTH=XOAUTH2", "AUTH=OAUTHBEARER", "AUTH=SCRAM-SHA-1", "AUTH=SCRAM-SHA-1-PLUS", "AUTH=SCRAM-SHA-256", "AUTH=SCRAM-SHA-256-PLUS", "AUTH=SCRAM-SHA3-512",
    "AUTH=X-FOO", "SASL-IR", "QUOTA", "QUOTASET", "QUOTA=RES-STORAGE", "QUOTA=RES-X", "MOVE", "LITERAL+", "LITERAL-", "UNSELECT", "ID", "ENABLE", "COMPRESS=DEFLATE", "CONDSTORE", "UIDPLUS", "BINARY", "METADATA", "METADATA-SERVER", "SORT", "SORT=X", "THREAD=REFS", "NAMESPACE", "MAILBOX-REFERRALS", "LOGIN-REFERRALS", "X", "XIDLE"];
fn supported(n: &str) -> bool {
    matches!(n, "IMAP4REV1" | "IDLE" | "AUTH=PLAIN" | "AUTH=LOGIN" | "AUTH=XOAUTH2" | "AUTH=SCRAM-SHA-1" | "AUTH=SCRAM-SHA-256" | "SASL-IR" | "QUOTA" | "QUOTASET" | "MOVE" | "LITERAL+" | "LITERAL-" | "UNSELECT" | "ID") || n.starts_with("QUOTA=RES-")
}
fn caps(r: &mut Rng) -> Vec1<Capability<'static>> { let bad_only = r.chance(10); let n = if r.chance(4) { r.range(30, 200) } else { r.range(1, 7) }; let v: Vec<&str> = (0..n).map(|_| loop { let c = *r.pick(NAMES); if !bad_only || !supported(c) { break c; } }).collect(); Vec1::try_from(v.into_iter().map(Capability::of_name).collect::<Vec<_>>()).unwrap() }
fn filtered(c: &Vec1<Capability<'static>>) -> Vec1<Capability<'static>> { let v: Vec<Capability<'static>> = c.iter().filter(|c| supported(&c.name())).cloned().collect(); Vec1::try_from(v).unwrap_or(Vec1::from(Capability::Imap4Rev1)) }
fn filtered_code(c: &Option<Code<'static>>) -> Option<Code<'static>> { match c { Some(Code::Capability(c)) => Some(Code::Capability(filtered(c))), c => c.clone() } }
fn code(r: &mut Rng) -> Option<Code<'static>> { if r.chance(45) { Some(Code::Capability(caps(r))) } else { gen::code(r) } }
fn status(r: &mut Rng, tag: Option<Tag<'static>>) -> Status<'static> { with_code(gen::status(r, tag), code(r)) }
fn with_code(s: Status<'static>, code: Option<Code<'static>>) -> Status<'static> { match s { Status::Untagged(b) => Status::Untagged(StatusBody { code, ..b }), Status::Tagged(t) => Status::Tagged(Tagged { tag: t.tag, body: StatusBody { code, ..t.body } }), Status::Bye(b) => Status::Bye(Bye { code, ..b }) } }
fn filtered_status(s: &Status<'static>) -> Status<'static> { with_code(s.clone(), filtered_code(&s.code().cloned())) }
fn data(r: &mut Rng) -> Data<'static> { if r.chance(40) { Data::Capability(caps(r)) } else { gen::data(r) } }
fn filtered_data(d: &Data<'static>) -> Data<'static> { match d { Data::Capability(c) => Data::Capability(filtered(c)), d => d.clone() } }
fn ccr(r: &mut Rng) -> CommandContinuationRequest<'static> { if r.chance(40) { loop { if let Ok(c) = CommandContinuationRequest::basic(Some(Code::Capability(caps(r))), gen::text(r)) { return c; } } } else { gen::ccr(r) } }
fn filtered_ccr(c: &CommandContinuationRequest<'static>) -> CommandContinuationRequest<'static> { match c { CommandContinuationRequest::Basic(b) => CommandContinuationRequest::basic(filtered_code(&b.code().cloned()), b.text().clone()).unwrap(), c => c.clone() } }
fn enc(x: Response<'static>) -> Vec<u8> { ResponseCodec::new().encode(&x).dump() }

/// Takes the next whole server-to-client message.
fn take_response(p: &mut Peer) -> Option<Vec<u8>> {
    let mut end = 0;
    loop {
        let k = p.got[end..].iter().position(|b| *b == b'\n')?;
        end += k + 1;
        if let Some(n) = literal(&p.got[..end]) { if p.got.len() < end + n { return None; } end += n; continue; }
        return Some(p.got.drain(..end).collect());
    }
}
fn literal(line: &[u8]) -> Option<usize> { let l = line.strip_suffix(b"\r\n").or(line.strip_suffix(b"\n"))?; let l = l.strip_suffix(b"}")?; let i = l.iter().rposition(|b| *b == b'{')?; let d = &l[i + 1..]; let d = d.strip_suffix(b"+").unwrap_or(d); std::str::from_utf8(d).ok()?.parse().ok() }

struct Pair { s: Session }
impl Pair {
    async fn client_gets(&mut self, want: &[u8]) -> bool { self.s.until(3.0, |s| s.client.got.len() >= want.len() || s.task.is_finished()).await; let ok = self.s.client.got.starts_with(want); if ok { self.s.client.got.drain(..want.len()); } ok }
    async fn server_gets(&mut self, want: &[u8]) -> bool { self.s.until(3.0, |s| s.server.got.len() >= want.len() || s.task.is_finished()).await; let ok = self.s.server.got.starts_with(want); if ok { self.s.server.got.drain(..want.len()); } ok }
}
enum Start { Up(Session), Skip, Bad(Viol) }
async fn start() -> Start {
    let h = host();
    let fake = listen(&h);
    let fp = fake.local_addr().unwrap().port();
    let port = free_port(&h);
    let (b, c) = (Bind::Insecure { host: h.clone(), port }, Connect::Insecure { host: h, port: fp });
    match setup(b, c, port, &fake, None, None, b"", b"").await {
        Setup::Up(s) => Start::Up(s),
        Setup::BindFailed(_) => Start::Skip,
        Setup::AcceptFailed(e, _) | Setup::ConnectFailed(e, _, _) => Start::Bad(Viol { labels: vec!["P03", "P05"], what: format!("setup failed: {e}") }),
        Setup::Stuck(w, _, _) => Start::Bad(Viol { labels: vec!["P03", "P05"], what: format!("{w} is stuck") }),
    }
}
const ALL: &[&str] = &["P01", "P02", "P03"];
/// A message that must arrive: what else arrived decides whom it concerns.
macro_rules! must { ($p:ident, $who:ident, $want:expr, $filter:expr, $what:expr) => {{
    let want: &[u8] = &$want;
    let ok = if stringify!($who) == "client" { $p.client_gets(want).await } else { $p.server_gets(want).await };
    if !ok {
        if $p.s.task.is_finished() { let e = $p.s.finish(1.0).await; return match e { Some(Err(e)) => viol(&["P03", "P02"], format!("the session {e} ({})", $what)), _ => viol(&["P02"], format!("the session ended ({})", $what)) }; }
        let got = if stringify!($who) == "client" { show(&$p.s.client.got) } else { show(&$p.s.server.got) };
        let f: bool = $filter;
        let l: &[&'static str] = if f { &["P01", "P02"] } else { &["P02"] };
        return viol(l, format!("{}: the {} should have got {}, it got {got}", $what, stringify!($who), show(want)));
    }
}} }
pub fn forward(seed: u64, t: &mut Trace) -> Result<(), Viol> {
    let mut r = Rng::new(seed);
    let rt = rt();
    guarded(ALL, "the proxy", || rt.block_on(async {
        let s = match start().await { Start::Up(s) => s, Start::Skip => return Ok(()), Start::Bad(v) => return Err(v) };
        let mut p = Pair { s };
        let g = Greeting { code: code(&mut r), ..gen::greeting(&mut r) };
        p.s.server.plain.extend(GreetingCodec::new().encode(&g).dump());
        t.op(|| format!("greeting {g:?}")); t.note("greeting");
        let want = GreetingCodec::new().encode(&Greeting { code: filtered_code(&g.code), ..g.clone() }).dump();
        must!(p, client, want, true, format!("greeting {g:?}"));
        let steps = r.range(5, 40);
        for n in 0..steps {
            let tag = Tag::try_from(format!("{}{n}", gen::word(&mut r).replace('.', "T"))).unwrap();
            match r.below(11) {
                0 | 1 => { let d = data(&mut r); t.op(|| format!("server sends {d:?}")); t.note("data"); p.s.server.plain.extend(enc(Response::Data(d.clone()))); must!(p, client, enc(Response::Data(filtered_data(&d))), matches!(d, Data::Capability(_)), format!("{d:?}")); }
                2 => { let tg = if r.chance(50) { Some(tag) } else { None }; let s = status(&mut r, tg); t.op(|| format!("server sends {s:?}")); t.note("status"); p.s.server.plain.extend(enc(Response::Status(s.clone()))); must!(p, client, enc(Response::Status(filtered_status(&s))), matches!(s.code(), Some(Code::Capability(_))), format!("{s:?}")); }
                3 => { let c = ccr(&mut r); t.op(|| format!("server sends {c:?}")); t.note("ccr"); p.s.server.plain.extend(enc(Response::CommandContinuationRequest(c.clone()))); must!(p, client, enc(Response::CommandContinuationRequest(filtered_ccr(&c))), true, format!("{c:?}")); }
                4 => { // several at once
                    let mut want = vec![];
                    for _ in 0..r.range(2, 6) { let (a, b) = if r.chance(50) { let d = data(&mut r); (enc(Response::Data(d.clone())), enc(Response::Data(filtered_data(&d)))) } else { let s = status(&mut r, None); (enc(Response::Status(s.clone())), enc(Response::Status(filtered_status(&s)))) }; p.s.server.plain.extend(a); want.extend(b); }
                    let cmds: Vec<u8> = (0..r.below(4)).flat_map(|k| format!("M{n}x{k} RAW x{k}\r\n").into_bytes()).collect();
                    p.s.client.plain.extend(&cmds);
                    t.op(|| format!("server sends several messages; client sends {}", show(&cmds))); t.note("several");
                    must!(p, client, want, true, "several messages");
                    must!(p, server, cmds, false, "several commands");
                }
                5 | 6 => { // a command, literal by literal
                    let body = if r.chance(20) { r.pick(&[CommandBody::Noop, CommandBody::Capability, CommandBody::Logout, CommandBody::Close]).clone() } else {
                        let mut size = |r: &mut Rng| if r.chance(10) { r.range(200, 3000) as usize } else { r.below(30) as usize };
                        if r.chance(30) { gen::typed(&mut r, &mut size) } else { CommandBody::Raw { parts: gen::parts(&mut r, true, &mut size) } } };
                    let cmd = Command { tag: tag.clone(), body };
                    t.op(|| format!("client sends {cmd:?}"));
                    let frags: Vec<Fragment> = CommandCodec::new().encode(&cmd).collect();
                    // the client towards the proxy: the proxy accepts every literal (they are small)
                    for f in &frags { match f {
                        Fragment::Line { data } => p.s.client.plain.extend(data),
                        Fragment::Literal { data, mode } => { if *mode == LiteralMode::Sync { must!(p, client, b"+ proxy: Literal accepted by proxy\r\n"[..], false, "literal of a command"); } p.s.client.plain.extend(data); }
                    } }
                    // the proxy towards the server
                    let lits = frags.iter().filter(|f| matches!(f, Fragment::Literal { mode: LiteralMode::Sync, .. })).count();
                    let refuse = if lits > 0 && r.chance(35) { Some(r.below(lits as u64) as usize) } else { None };
                    t.note(&format!("command {} {}", lits.min(3), refuse.is_some()));
                    let mut k = 0;
                    let mut refused = false;
                    for f in &frags { match f {
                        Fragment::Line { data } => must!(p, server, data[..], false, "command"),
                        Fragment::Literal { data, mode } => {
                            if *mode == LiteralMode::Sync {
                                // other messages may come first
                                if r.chance(30) { let d = data_between(&mut r); p.s.server.plain.extend(enc(Response::Data(d.clone()))); must!(p, client, enc(Response::Data(filtered_data(&d))), true, "data before a literal"); }
                                if refuse == Some(k) {
                                    let c = if r.chance(35) { Some(Code::Alert) } else { code(&mut r) };
                                    let s = Status::bad(Some(tag.clone()), c.clone(), gen::text(&mut r)).unwrap();
                                    t.op(|| format!("server refuses a literal: {s:?}"));
                                    p.s.server.plain.extend(enc(Response::Status(s.clone())));
                                    let want = if c == Some(Code::Alert) { s.clone() } else { Status::bad(Some(tag.clone()), None, "proxy: Command rejected by server").unwrap() };
                                    must!(p, client, enc(Response::Status(want)), false, "refused literal");
                                    refused = true; break;
                                }
                                p.s.server.plain.extend(b"+ go ahead\r\n");
                                k += 1;
                            }
                            must!(p, server, data[..], false, "literal");
                        }
                    } }
                    if !refused { t.op(|| "command arrived".into()); }
                }
                7 | 8 => { // authentication
                    let ir = r.chance(30);
                    let cmd = Command { tag: tag.clone(), body: CommandBody::Authenticate { mechanism: gen::mech(&mut r), initial_response: if ir { Some(imap_types::secret::Secret::new(std::borrow::Cow::Owned(gen::bytes(&mut r, 5)))) } else { None } } };
                    let b = CommandCodec::new().encode(&cmd).dump();
                    t.op(|| format!("client authenticates {}", show(&b)));
                    p.s.client.plain.extend(&b); must!(p, server, b[..], false, "AUTHENTICATE");
                    let rounds = r.below(4); t.note(&format!("auth {rounds}"));
                    for _ in 0..rounds {
                        if r.chance(30) { let d = data(&mut r); p.s.server.plain.extend(enc(Response::Data(d.clone()))); must!(p, client, enc(Response::Data(filtered_data(&d))), true, "data during AUTHENTICATE"); }
                        let c = ccr(&mut r); t.op(|| format!("challenge {c:?}"));
                        p.s.server.plain.extend(enc(Response::CommandContinuationRequest(c.clone()))); must!(p, client, enc(Response::CommandContinuationRequest(filtered_ccr(&c))), true, format!("challenge {c:?}"));
                        let d = gen::auth_data(&mut r); let b = AuthenticateDataCodec::new().encode(&d).dump();
                        t.op(|| format!("answer {}", show(&b)));
                        p.s.client.plain.extend(&b); must!(p, server, b[..], false, "authentication data");
                        if d == AuthenticateData::Cancel { break; }
                    }
                    let s = status(&mut r, Some(tag)); t.op(|| format!("result {s:?}"));
                    p.s.server.plain.extend(enc(Response::Status(s.clone()))); must!(p, client, enc(Response::Status(filtered_status(&s))), matches!(s.code(), Some(Code::Capability(_))), format!("end of authentication {s:?}"));
                }
                9 => { // idle
                    let b = CommandCodec::new().encode(&Command { tag: tag.clone(), body: CommandBody::Idle }).dump();
                    p.s.client.plain.extend(&b); must!(p, server, b[..], false, "IDLE");
                    if r.chance(35) {
                        let s = status(&mut r, Some(tag)); t.op(|| format!("IDLE refused {s:?}")); t.note("idle refused");
                        p.s.server.plain.extend(enc(Response::Status(s.clone()))); must!(p, client, enc(Response::Status(filtered_status(&s))), matches!(s.code(), Some(Code::Capability(_))), format!("IDLE refused {s:?}"));
                    } else {
                        let c = ccr(&mut r); t.op(|| format!("IDLE accepted {c:?}")); t.note("idle");
                        p.s.server.plain.extend(enc(Response::CommandContinuationRequest(c.clone()))); must!(p, client, enc(Response::CommandContinuationRequest(filtered_ccr(&c))), true, format!("IDLE accepted {c:?}"));
                        for _ in 0..r.below(3) { let d = data(&mut r); p.s.server.plain.extend(enc(Response::Data(d.clone()))); must!(p, client, enc(Response::Data(filtered_data(&d))), true, "data during IDLE"); }
                        p.s.client.plain.extend(b"DONE\r\n"); must!(p, server, b"DONE\r\n"[..], false, "DONE");
                        let s = status(&mut r, Some(tag)); p.s.server.plain.extend(enc(Response::Status(s.clone()))); must!(p, client, enc(Response::Status(filtered_status(&s))), true, "end of IDLE");
                    }
                }
                _ => { // malformed messages are skipped, and nothing comes of them
                    let both = r.below(3);
                    if both != 1 { p.s.client.plain.extend(b"?? nonsense \x01\r\n"); }
                    if both != 0 { p.s.server.plain.extend(b"?? nonsense \x01\r\n"); }
                    t.op(|| format!("malformed messages ({both})")); t.note("malformed");
                    p.s.settle().await;
                }
            }
            if !p.s.client.got.is_empty() || !p.s.server.got.is_empty() { return viol(&["P02"], format!("nobody sent this: to the client {}, to the server {}", show(&p.s.client.got), show(&p.s.server.got))); }
        }
        p.s.settle().await;
        if !p.s.client.got.is_empty() || !p.s.server.got.is_empty() { return viol(&["P02"], format!("nobody sent this: to the client {}, to the server {}", show(&p.s.client.got), show(&p.s.server.got))); }
        if p.s.task.is_finished() { return match p.s.finish(1.0).await { Some(Err(e)) => viol(&["P03"], format!("the session {e}")), _ => viol(&["P03"], "the session ended without a reason".into()) }; }
        end(p.s, &mut r).await
    }))?
}
fn data_between(r: &mut Rng) -> Data<'static> { data(r) }
async fn end(mut s: Session, r: &mut Rng) -> Result<(), Viol> {
    if r.chance(50) { s.client.fin() } else { s.server.fin() }
    match s.finish(4.0).await { Some(Ok(())) => Ok(()), Some(Err(e)) => viol(&["P03"], format!("the session {e}")), None => viol(&["P03"], "the session goes on although one side closed".into()) }
}
pub fn chaos(seed: u64, t: &mut Trace) -> Result<(), Viol> {
    let mut r = Rng::new(seed);
    let rt = rt();
    guarded(ALL, "the proxy", || rt.block_on(async {
        let mut s = match start().await { Start::Up(s) => s, Start::Skip => return Ok(()), Start::Bad(v) => return Err(v) };
        let g = Greeting { code: code(&mut r), ..gen::greeting(&mut r) };
        let greeted = !r.chance(5);
        if greeted { s.server.plain.extend(GreetingCodec::new().encode(&g).dump()); }
        let mut first = true;
        let mut tags: Vec<Tag<'static>> = vec![];
        let steps = r.range(5, 60);
        for n in 0..steps {
            let tag = if r.chance(60) && !tags.is_empty() { tags[tags.len() - 1].clone() } else { Tag::try_from(format!("T{n}")).unwrap() };
            let (who, b): (&str, Vec<u8>) = match r.below(12) {
                0 | 1 => { tags.push(tag.clone()); ("client", CommandCodec::new().encode(&Command { tag, body: CommandBody::Idle }).dump()) }
                2 | 3 => { tags.push(tag.clone()); ("client", CommandCodec::new().encode(&Command { tag, body: CommandBody::Authenticate { mechanism: gen::mech(&mut r), initial_response: None } }).dump()) }
                4 => ("client", AuthenticateDataCodec::new().encode(&gen::auth_data(&mut r)).dump()),
                5 => ("client", b"DONE\r\n".to_vec()),
                6 => { tags.push(tag.clone()); ("client", CommandCodec::new().encode(&gen::command(&mut r, tag, &mut |r| r.below(20) as usize)).dump()) }
                7 | 8 => ("server", enc(Response::CommandContinuationRequest(ccr(&mut r)))),
                9 | 10 => ("server", enc(Response::Status(status(&mut r, Some(tag))))),
                _ => ("server", if r.chance(10) { GreetingCodec::new().encode(&gen::greeting(&mut r)).dump() } else { enc(Response::Data(data(&mut r))) }),
            };
            let b = if r.chance(20) { gen::spoil(&mut r, b) } else { b };
            t.op(|| format!("{who} sends {}", show(&b))); t.note(&format!("{who}{}", b.len() % 7));
            if who == "client" { s.client.plain.extend(&b) } else { s.server.plain.extend(&b) }
            match r.below(3) { 0 => (), 1 => { for _ in 0..r.below(12) { s.step(); turn().await; } } _ => s.settle().await }
            while let Some(m) = take_response(&mut s.client) {
                t.op(|| format!("client receives {}", show(&m)));
                let c: Option<Vec1<Capability>> = if first { match GreetingCodec::new().decode(&m) { Ok((_, g)) => match g.code { Some(Code::Capability(c)) => Some(c), _ => None }, _ => None } } else {
                    match ResponseCodec::new().decode(&m) { Ok((_, Response::Data(Data::Capability(c)))) => Some(c), Ok((_, Response::Status(s))) => match s.code() { Some(Code::Capability(c)) => Some(c.clone()), _ => None }, Ok((_, Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b)))) => match b.code() { Some(Code::Capability(c)) => Some(c.clone()), _ => None }, _ => None } };
                first = false;
                if let Some(c) = c { if let Some(x) = c.iter().find(|c| !supported(&c.name())) { return viol(&["P01"], format!("{} was advertised to the client: {}", x.name(), show(&m))); } }
            }
            if s.task.is_finished() { break; }
        }
        if s.task.is_finished() { return match s.finish(1.0).await { Some(Err(e)) => viol(&["P03"], format!("the session {e}")), _ => Ok(()) }; }
        // while the greeting is awaited only the server is watched
        if !greeted { s.server.fin(); }
        end(s, &mut r).await
    }))?
}

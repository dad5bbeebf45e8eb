use crate::contracts::*;
use crate::{jlist, jstr};
use proc_macro2::Span;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

/// External crates that are replaced by contract modules of the same name in the prelude.
const STUB_CRATES: &[&str] = &[
    "bytes", "imap_codec", "imap_types", "bounded_static", "tokio", "tokio_rustls", "rustls", "imap_next",
    "once_cell", "rustls_native_certs", "rustls_pemfile", "colored", "toml", "rand", "anyhow", "argh",
    "tracing", "thiserror", "serde", "tracing_subscriber",
];
const DROP_USE: &[&str] = &["tracing", "thiserror", "serde", "colored"];
const TRACE_MACROS: &[&str] = &["trace", "debug", "info", "warn", "error", "println", "eprintln"];
const STD_SUBST: &[(&str, &str)] = &[
    ("std::sync::atomic", "crate::std_atomic"),
    ("std::fs", "crate::std_fs"),
    ("std::io", "crate::std_io"),
    ("std::path", "crate::std_path"),
    ("std::net", "crate::std_net"),
    ("std::fmt", "core::fmt"),
];

#[derive(Default)]
pub struct Ctx {
    pub cfgs: Vec<String>,
    /// (module, fn key, what)
    pub lost: Vec<(String, String, String)>,
    /// like `lost`, for steps of the argument only: nothing that is claimed goes with them, so a proof without them is one
    pub weak: Vec<(String, String, String)>,
    pub edits: Vec<(String, String, usize, String)>,
    /// id -> (kind, tags, module, fn, contract file, line)
    pub blocks: Vec<(String, Vec<String>, String, String, String, usize)>,
    /// id -> (key, module, src, line, status, props)
    pub fns: Vec<(String, String, String, usize, String, Vec<String>)>,
    /// (module, type, derives)
    pub derives: Vec<(String, String, Vec<String>)>,
    pub facts: Vec<(String, String)>,
    /// plant a false assertion at the start of every contracted body
    pub canary: bool,
    /// fn ids where one was planted
    pub planted: Vec<usize>,
}

impl Ctx {
    fn cfg_on(&self, n: &str) -> bool {
        self.cfgs.iter().any(|c| c == n)
    }
    pub fn json(&self, text: &str) -> String {
        // locate markers
        let mut starts: BTreeMap<String, (usize, usize)> = BTreeMap::new();
        for (ln, line) in text.lines().enumerate() {
            let mut rest = line;
            while let Some(p) = rest.find("/*@") {
                let r = &rest[p + 3..];
                let Some(q) = r.find("*/") else { break };
                let m = r[..q].to_string();
                let (k, id) = m.split_at(1);
                match k {
                    "B" | "F" => {
                        starts.insert(format!("{}{}", if k == "B" { "b" } else { "f" }, id), (ln + 1, ln + 1));
                    }
                    "E" | "G" => {
                        if let Some(e) = starts.get_mut(&format!("{}{}", if k == "E" { "b" } else { "f" }, id)) {
                            e.1 = ln + 1;
                        }
                    }
                    _ => {}
                }
                rest = &r[q + 2..];
            }
        }
        let mut o = String::from("{\n\"blocks\":[\n");
        for (i, (kind, tags, m, f, file, line)) in self.blocks.iter().enumerate() {
            let (s, e) = starts.get(&format!("b{i}")).copied().unwrap_or((0, 0));
            let _ = writeln!(
                o,
                "{}{{\"id\":{i},\"kind\":{},\"tags\":{},\"module\":{},\"fn\":{},\"file\":{},\"line\":{line},\"start\":{s},\"end\":{e}}}",
                if i > 0 { "," } else { "" }, jstr(kind), jlist(tags), jstr(m), jstr(f), jstr(file)
            );
        }
        o.push_str("],\n\"fns\":[\n");
        for (i, (key, m, src, line, status, props)) in self.fns.iter().enumerate() {
            let (s, e) = starts.get(&format!("f{i}")).copied().unwrap_or((0, 0));
            let _ = writeln!(
                o,
                "{}{{\"key\":{},\"module\":{},\"src\":{},\"line\":{line},\"status\":{},\"props\":{},\"start\":{s},\"end\":{e},\"body\":{}}}",
                if i > 0 { "," } else { "" }, jstr(key), jstr(m), jstr(src), jstr(status), jlist(props), self.planted.contains(&i)
            );
        }
        o.push_str("],\n\"lost\":[\n");
        for (i, (m, f, w)) in self.lost.iter().enumerate() {
            let _ = writeln!(o, "{}{{\"module\":{},\"fn\":{},\"what\":{}}}", if i > 0 { "," } else { "" }, jstr(m), jstr(f), jstr(w));
        }
        o.push_str("],\n\"weak\":[\n");
        for (i, (m, f, w)) in self.weak.iter().enumerate() {
            let _ = writeln!(o, "{}{{\"module\":{},\"fn\":{},\"what\":{}}}", if i > 0 { "," } else { "" }, jstr(m), jstr(f), jstr(w));
        }
        o.push_str("],\n\"edits\":[\n");
        for (i, (rule, src, line, what)) in self.edits.iter().enumerate() {
            let _ = writeln!(o, "{}{{\"rule\":{},\"src\":{},\"line\":{line},\"what\":{}}}", if i > 0 { "," } else { "" }, jstr(rule), jstr(src), jstr(what));
        }
        o.push_str("],\n\"derives\":[\n");
        for (i, (m, t, d)) in self.derives.iter().enumerate() {
            let _ = writeln!(o, "{}{{\"module\":{},\"type\":{},\"derives\":{}}}", if i > 0 { "," } else { "" }, jstr(m), jstr(t), jlist(d));
        }
        o.push_str("],\n\"facts\":[\n");
        for (i, (k, v)) in self.facts.iter().enumerate() {
            let _ = writeln!(o, "{}[{},{}]", if i > 0 { "," } else { "" }, jstr(k), jstr(v));
        }
        o.push_str("]\n}\n");
        o
    }
}

/// Loops and closures of a function (what contracts are attached to), and a hash of its tokens.
fn shape(sig: &Signature, body: Option<&syn::Block>) -> String {
    use syn::visit::Visit;
    #[derive(Default)]
    struct C(usize, usize);
    impl<'a> Visit<'a> for C {
        fn visit_expr(&mut self, e: &'a syn::Expr) {
            match e {
                syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_) => self.0 += 1,
                syn::Expr::Closure(_) => self.1 += 1,
                _ => (),
            }
            syn::visit::visit_expr(self, e);
        }
    }
    let mut c = C::default();
    let mut h: u64 = 0xcbf29ce484222325;
    let mut add = |t: String| for b in t.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); };
    add(quote::ToTokens::to_token_stream(sig).to_string());
    if let Some(b) = body {
        c.visit_block(b);
        add(quote::ToTokens::to_token_stream(b).to_string());
    }
    format!("loops={} closures={} params={} tokens={h:016x}", c.0, c.1, sig.inputs.len())
}

struct Edit {
    start: usize,
    end: usize,
    text: String,
    /// order among insertions at the same place
    prio: i32,
}

struct X<'a> {
    ctx: &'a mut Ctx,
    spec: &'a mut FileSpec,
    src: &'a str,
    edits: Vec<Edit>,
    /// text appended to the module inside verus!
    tail: String,
    enums: BTreeMap<String, ItemEnum>,
    // current function state
    self_ty: Option<String>,
    fnidx: Option<usize>,
    fnkey: String,
    nloops: usize,
    nclosures: usize,
    /// per loop: (loop index, brk mode)
    loop_stack: Vec<Brk>,
    tail_loop: Option<(usize, usize)>,
    loop_value: bool,
    counts: BTreeMap<String, usize>,
    stmt_stack: Vec<(usize, usize, bool, Option<(usize, usize, String)>)>,
    nwraps: usize,
    used_after: Vec<(String, usize)>,
    used_before: Vec<(String, usize)>,
    /// emitting the variant of a function that is dropped at one of its await points
    cancel: bool,
    /// text of the head of the impl block we are in
    impl_head: Option<String>,
    /// parameters of a type that is only known to read or write asynchronously
    io_params: Vec<String>,
    /// modules in files of their own that this file declares
    mods: Vec<String>,
    stmt_macro: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum Brk {
    Plain,
    Ret,
    Var(usize),
    Barrier,
}

fn rng(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

pub fn transform(ctx: &mut Ctx, spec: &mut FileSpec, src: &str, file: &File) -> String {
    let module = spec.module.clone();
    let mut enums = BTreeMap::new();
    for i in &file.items {
        if let Item::Enum(e) = i {
            enums.insert(e.ident.to_string(), e.clone());
        }
    }
    // byte offset of a leading BOM or shebang is not expected
    let mut x = X {
        ctx, spec, src, edits: vec![], tail: String::new(), enums, self_ty: None, fnidx: None, fnkey: String::new(),
        nloops: 0, nclosures: 0, loop_stack: vec![], tail_loop: None,
            loop_value: false, counts: BTreeMap::new(), stmt_stack: vec![], nwraps: 0,
        used_after: vec![], used_before: vec![], cancel: false, impl_head: None, io_params: vec![], stmt_macro: false,
        mods: file.items.iter().filter_map(|i| match i { Item::Mod(m) if m.content.is_none() => Some(m.ident.to_string()), _ => None }).collect(),
    };
    for a in &file.attrs {
        x.del(a.span(), "R2", "inner attribute");
    }
    for i in &file.items {
        x.item(i);
    }
    let edits = std::mem::take(&mut x.edits);
    let tail = std::mem::take(&mut x.tail);
    let uses: Vec<String> = contract_uses(&x.spec.uses.iter().map(|b| b.text.clone()).collect::<Vec<_>>().join("\n"), &file, |a| x.cfg_ok(a));
    let pre: Vec<CBlock> = x.spec.prelude.clone();
    let mut ptext = String::new();
    for b in &pre {
        let t = x.block("prelude", b, "");
        ptext.push_str(&t);
        ptext.push('\n');
    }
    let out = render(src, edits, 0, src.len());
    format!(
        "\npub mod {module} {{\nuse vstd::prelude::*;\nuse crate::prelude_all::*;\n{}\nverus!{{\nbroadcast use crate::prelude_all::vx_axioms;\n{ptext}\n// ---- text of the source file follows ----\n{out}\n{tail}\n}} // verus!\n}}\n",
        uses.join("\n")
    )
}

/// The imports of the contract, without names that the source file imports or defines itself.
fn contract_uses(text: &str, file: &File, cfg: impl Fn(&[Attribute]) -> bool) -> Vec<String> {
    fn leaves(t: &UseTree, path: &str, out: &mut Vec<(String, String)>) {
        match t {
            UseTree::Path(p) => leaves(&p.tree, &format!("{path}{}::", p.ident), out),
            UseTree::Name(n) => out.push((n.ident.to_string(), format!("{path}{}", n.ident))),
            UseTree::Rename(r) => out.push((r.rename.to_string(), format!("{path}{} as {}", r.ident, r.rename))),
            UseTree::Glob(_) => out.push((String::new(), format!("{path}*"))),
            UseTree::Group(g) => g.items.iter().for_each(|i| leaves(i, path, out)),
        }
    }
    let mut have = Vec::new();
    for i in &file.items {
        match i {
            Item::Use(u) if cfg(&u.attrs) => leaves(&u.tree, "", &mut have),
            Item::Struct(s) => have.push((s.ident.to_string(), String::new())),
            Item::Enum(s) => have.push((s.ident.to_string(), String::new())),
            Item::Type(s) => have.push((s.ident.to_string(), String::new())),
            _ => {}
        }
    }
    let Ok(uses) = syn::parse_str::<File>(text) else { return vec![text.to_string()] };
    let mut out = Vec::new();
    for i in &uses.items {
        let Item::Use(u) = i else { return vec![text.to_string()] };
        let mut want = Vec::new();
        leaves(&u.tree, "", &mut want);
        for (name, path) in want {
            if name.is_empty() || name == "_" || name == "self" || !have.iter().any(|h| h.0 == name) {
                out.push(format!("use {path};"));
            }
        }
    }
    out
}

fn render(src: &str, mut edits: Vec<Edit>, from: usize, to: usize) -> String {
    edits.sort_by(|a, b| (a.start, a.end != a.start, a.prio).cmp(&(b.start, b.end != b.start, b.prio)));
    let mut out = String::new();
    let mut pos = from;
    for e in &edits {
        if e.start < pos {
            // nested inside a deleted region: skip
            continue;
        }
        out.push_str(&src[pos..e.start]);
        out.push_str(&e.text);
        pos = e.end.max(e.start);
    }
    out.push_str(&src[pos..to]);
    out
}

/// Parts between the commas that are not inside brackets.
fn top_split(t: &str) -> impl Iterator<Item = &str> {
    let mut depth = 0;
    t.split(move |c| {
        match c {
            '<' | '(' | '[' => depth += 1,
            '>' | ')' | ']' => depth -= 1,
            _ => (),
        }
        c == ',' && depth == 0
    })
}

/// The names bound in a function body, in order.
fn locals(b: &syn::Block) -> Vec<String> {
    struct L(Vec<String>);
    impl<'a> Visit<'a> for L {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            let n = p.ident.to_string();
            if n.starts_with(|c: char| c.is_lowercase() || c == '_') { self.0.push(n); }
            visit::visit_pat_ident(self, p);
        }
    }
    let mut l = L(vec![]);
    l.visit_block(b);
    l.0
}
/// Is this a parameter of the closure whose contract this is?
fn binds(t: &str, name: &str) -> bool {
    let head = t.trim_start().strip_prefix('|').and_then(|t| t.split_once('|')).map_or("", |x| x.0);
    let b = top_split(head).any(|p| p.split(':').next().unwrap().trim() == name);
    b
}
/// Which names became which others, where the rest of the sequence stayed the same.
fn renamed(want: &[String], have: &[String]) -> Vec<(String, String)> {
    let (n, m) = (want.len(), have.len());
    let mut len = vec![vec![0; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            len[i][j] = if want[i] == have[j] { len[i + 1][j + 1] + 1 } else { len[i + 1][j].max(len[i][j + 1]) };
        }
    }
    let mut out: Vec<(String, String)> = Vec::new();
    let (mut i, mut j) = (0, 0);
    let (mut gw, mut gh) = (vec![], vec![]);
    loop {
        if i == n || j == m || want[i] == have[j] {
            if i == n { gh.extend_from_slice(&have[j..]); }
            if j == m { gw.extend_from_slice(&want[i..]); }
            if gw.len() == gh.len() {
                for (a, b) in gw.drain(..).zip(gh.drain(..)) {
                    // a name that is still there, or is taken by something else, stays
                    if !have.contains(&a) && !want.contains(&b) && !out.iter().any(|o| o.0 == a) { out.push((a, b)); }
                }
            }
            gw.clear();
            gh.clear();
            if i == n || j == m { return out }
            i += 1;
            j += 1;
        } else if len[i + 1][j] >= len[i][j + 1] {
            gw.push(want[i].clone());
            i += 1;
        } else {
            gh.push(have[j].clone());
            j += 1;
        }
    }
}

/// Renames a variable in contract text. Fields keep their names: `x.name`, `S { name: .. }`, and `S { name }`, which
/// becomes `S { name: to }`.
fn rename_ident(t: &str, from: &str, to: &str) -> String {
    let id = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut rest = t;
    while let Some(p) = rest.find(from) {
        let after = &rest[p + from.len()..];
        let before = rest[..p].chars().last().or(out.chars().last());
        out.push_str(&rest[..p]);
        let next = after.trim_start();
        let field = (before == Some('.') && !out.ends_with("..")) || (next.starts_with(':') && !next.starts_with("::"));
        if before.map_or(false, id) || field || after.chars().next().map_or(false, id) {
            out.push_str(from);
        } else {
            let prev = out.trim_end().chars().last();
            if matches!(prev, Some('{' | ',')) && (next.starts_with(',') || next.starts_with('}')) && in_struct(&t[..t.len() - rest.len() + p]) {
                out.push_str(&format!("{from}: "));
            }
            out.push_str(to);
        }
        rest = after;
    }
    out + rest
}
/// Does this text end inside the braces of a struct expression or pattern?
fn in_struct(t: &str) -> bool {
    let mut depth = 0;
    for (i, c) in t.char_indices().rev() {
        match c {
            ')' | ']' | '}' => depth += 1,
            '(' | '[' | '{' if depth > 0 => depth -= 1,
            '{' => {
                let w = t[..i].trim_end();
                let w = w.rsplit(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("");
                return w.starts_with(|c: char| c.is_uppercase());
            }
            '(' | '[' => return false,
            _ => {}
        }
    }
    false
}

fn type_key(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, type_key(&r.elem)),
        _ => "?".into(),
    }
}
fn norm_ty(src: &str, t: &Type) -> String {
    let (a, b) = rng(t.span());
    src[a..b].split_whitespace().collect::<Vec<_>>().join(" ")
}

impl<'a> X<'a> {
    fn text(&self, s: Span) -> &'a str {
        let (a, b) = rng(s);
        &self.src[a..b]
    }
    fn line(&self, pos: usize) -> usize {
        self.src[..pos].matches('\n').count() + 1
    }
    fn note(&mut self, rule: &str, pos: usize, what: impl Into<String>) {
        let l = self.line(pos);
        let s = self.spec.src.clone();
        self.ctx.edits.push((rule.into(), s, l, what.into()));
    }
    fn lost(&mut self, what: impl Into<String>) {
        let m = self.spec.module.clone();
        let k = self.fnkey.clone();
        self.ctx.lost.push((m, k, what.into()));
    }
    /// A part of the contract has no place: strong if it claims something of its own (it has tags), weak if it only helps.
    fn lost_part(&mut self, claims: bool, what: impl Into<String>) {
        if claims {
            return self.lost(what);
        }
        let m = self.spec.module.clone();
        let k = self.fnkey.clone();
        self.ctx.weak.push((m, k, what.into()));
    }
    fn rep(&mut self, start: usize, end: usize, text: impl Into<String>) {
        self.edits.push(Edit { start, end, text: text.into(), prio: 0 });
    }
    fn ins(&mut self, pos: usize, prio: i32, text: impl Into<String>) {
        self.edits.push(Edit { start: pos, end: pos, text: text.into(), prio });
    }
    fn del(&mut self, s: Span, rule: &str, what: &str) {
        let (a, b) = rng(s);
        self.note(rule, a, format!("dropped {what}: {}", first_line(&self.src[a..b])));
        self.rep(a, b, "");
    }
    fn block(&mut self, kind: &str, b: &CBlock, fnkey: &str) -> String {
        let id = self.ctx.blocks.len();
        self.ctx.blocks.push((kind.into(), b.tags.clone(), self.spec.module.clone(), fnkey.into(), b.file.clone(), b.line));
        format!("/*@B{id}*/\n{}/*@E{id}*/", b.text)
    }

    // ---- cfg and attributes -------------------------------------------------------------

    fn cfg_eval(&self, m: &Meta) -> bool {
        match m {
            Meta::Path(p) => {
                let n = p.get_ident().map(|i| i.to_string()).unwrap_or_default();
                self.ctx.cfg_on(&n)
            }
            Meta::NameValue(nv) => {
                let n = nv.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                let v = self.text(nv.value.span()).trim_matches('"').to_string();
                self.ctx.cfg_on(&format!("{n}={v}"))
            }
            Meta::List(l) => {
                let n = l.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                let inner: Vec<Meta> = l
                    .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                    .map(|p| p.into_iter().collect())
                    .unwrap_or_default();
                match n.as_str() {
                    "not" => !inner.iter().all(|m| self.cfg_eval(m)),
                    "all" => inner.iter().all(|m| self.cfg_eval(m)),
                    "any" => inner.iter().any(|m| self.cfg_eval(m)),
                    _ => false,
                }
            }
        }
    }
    /// true if all cfg attributes hold
    fn cfg_ok(&self, attrs: &[Attribute]) -> bool {
        attrs.iter().all(|a| {
            if a.path().is_ident("cfg") {
                a.parse_args::<Meta>().map(|m| self.cfg_eval(&m)).unwrap_or(true)
            } else {
                true
            }
        })
    }
    fn do_attrs(&mut self, attrs: &[Attribute], ty: Option<&str>) {
        for a in attrs {
            if a.path().is_ident("doc") {
                // comments are kept; doc attributes with values are dropped
                if self.text(a.span()).starts_with("#[") {
                    self.del(a.span(), "R2", "attribute");
                }
                continue;
            }
            if a.path().is_ident("derive") {
                let mut kept = vec![];
                let mut all = vec![];
                if let Ok(ps) = a.parse_args_with(punctuated::Punctuated::<Path, Token![,]>::parse_terminated) {
                    for p in ps {
                        let n = p.segments.last().unwrap().ident.to_string();
                        all.push(n.clone());
                        if n == "Clone" || n == "Copy" {
                            kept.push(n);
                        }
                    }
                }
                let (s, e) = rng(a.span());
                if let Some(t) = ty {
                    let m = self.spec.module.clone();
                    self.ctx.derives.push((m, t.into(), all.clone()));
                }
                let mut noclone = false;
                if let Some(t) = ty {
                    if self.spec.type_attrs.iter().any(|(n, a)| n == t && a.contains("noclone")) {
                        noclone = true;
                    }
                }
                if let Some(t) = ty {
                    if kept.iter().any(|k| k == "Clone") && !kept.iter().any(|k| k == "Copy") && self.spec.type_attrs.iter().any(|(n, a)| n == t && a.contains("clone-eq")) {
                        noclone = true;
                        let _ = write!(self.tail, "\n// generated from derive(Clone): the fields are cloned one by one\nimpl Clone for {t} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n");
                        self.note("R18", s, format!("derive(Clone) of {t} given the contract of a field-wise copy"));
                    }
                }
                if noclone {
                    kept.clear();
                }
                let r = if kept.is_empty() { String::new() } else { format!("#[derive({})]", kept.join(", ")) };
                self.note("R2", s, format!("derive({}) reduced to derive({})", all.join(", "), kept.join(", ")));
                self.rep(s, e, r);
                continue;
            }
            if a.path().is_ident("cfg") {
                let (s, e) = rng(a.span());
                self.note("R1", s, format!("cfg evaluated true: {}", self.text(a.span())));
                self.rep(s, e, "");
                continue;
            }
            self.del(a.span(), "R2", "attribute");
        }
    }
    fn do_vis(&mut self, vis: &Visibility, at: usize) {
        match vis {
            Visibility::Public(_) => {}
            Visibility::Restricted(r) => {
                let (s, e) = rng(r.span());
                self.rep(s, e, "pub");
            }
            Visibility::Inherited => self.ins(at, 0, "pub "),
        }
    }

    // ---- items --------------------------------------------------------------------------

    fn item_attrs(i: &Item) -> &[Attribute] {
        match i {
            Item::Const(x) => &x.attrs,
            Item::Enum(x) => &x.attrs,
            Item::Fn(x) => &x.attrs,
            Item::Impl(x) => &x.attrs,
            Item::Macro(x) => &x.attrs,
            Item::Mod(x) => &x.attrs,
            Item::Static(x) => &x.attrs,
            Item::Struct(x) => &x.attrs,
            Item::Trait(x) => &x.attrs,
            Item::Type(x) => &x.attrs,
            Item::Use(x) => &x.attrs,
            _ => &[],
        }
    }

    fn item(&mut self, i: &Item) {
        let attrs = Self::item_attrs(i);
        if !self.cfg_ok(attrs) {
            self.del(i.span(), "R1", "item with false cfg");
            return;
        }
        match i {
            Item::Use(u) => self.item_use(u),
            Item::Mod(_) => self.del(i.span(), "R1", "module declaration"),
            Item::Struct(s) => {
                let name = s.ident.to_string();
                self.do_attrs(&s.attrs, Some(&name));
                let at = rng(s.struct_token.span).0;
                self.do_vis(&s.vis, at);
                self.type_attr(&name, &s.vis, at);
                self.fields(&s.fields, true);
                self.serde_struct(s);
                self.paths_in(|v| v.visit_item_struct(s));
            }
            Item::Enum(e) => {
                let name = e.ident.to_string();
                self.do_attrs(&e.attrs, Some(&name));
                let at = rng(e.enum_token.span).0;
                self.do_vis(&e.vis, at);
                self.type_attr(&name, &e.vis, at);
                for v in &e.variants {
                    self.do_attrs(&v.attrs, None);
                    self.thiserror_from(e, v);
                    self.fields(&v.fields, false);
                }
                self.serde_enum(e);
                self.paths_in(|v| v.visit_item_enum(e));
            }
            Item::Fn(f) => {
                let key = f.sig.ident.to_string();
                let at = rng(sig_start(&f.sig)).0;
                self.do_vis(&f.vis, at);
                let whole = rng(f.span());
                self.function(&key, &f.attrs, &f.sig, Some(&f.block), whole, at, &f.vis);
            }
            Item::Impl(im) => self.item_impl(im),
            Item::Static(s) => {
                let name = s.ident.to_string();
                self.do_attrs(&s.attrs, None);
                let at = rng(s.static_token.span).0;
                self.do_vis(&s.vis, at);
                if let Some((_, t)) = self.spec.statics.iter().find(|(n, _)| *n == name).cloned() {
                    if t == "drop" {
                        self.del(s.span(), "R6", "static (given by the prelude)");
                        return;
                    }
                    self.ins(at, 1, "exec ");
                    let (_, te) = rng(s.ty.span());
                    let (es, ee) = rng(s.expr.span());
                    let (_, se) = rng(s.semi_token.span);
                    // `@N ...`: the static is named N in the contracts
                    if let Some(r) = t.strip_prefix('@') {
                        let (id, more) = r.split_once(' ').unwrap_or((r, ""));
                        self.rep(te, es, format!(" ensures crate::prelude_all::static_named({name}, {id}), {more} {{ crate::prelude_all::name_static("));
                        self.rep(ee, se, format!(", Ghost({id})) }}"));
                    } else {
                        self.rep(te, es, format!(" ensures {t} {{ "));
                        self.rep(ee, se, " }");
                    }
                    self.note("R6", at, format!("static {name} made an exec static with ensures {t}"));
                } else {
                    self.static_fn(s, at);
                    return;
                }
                self.fnkey = name;
                self.paths_in(|v| v.visit_item_static(s));
            }
            Item::Const(c) => {
                self.do_attrs(&c.attrs, None);
                let at = rng(c.const_token.span).0;
                self.do_vis(&c.vis, at);
                if let Type::Reference(r) = &*c.ty {
                    if r.lifetime.is_none() {
                        self.ins(rng(r.and_token.span).1, 0, "'static ");
                        self.note("R19", at, "elided lifetime of a constant written out");
                    }
                }
                if let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = &*c.expr {
                    let v = l.value();
                    let n = c.ident.to_string();
                    let mut e = format!("{n}@.len() == {}", v.chars().count());
                    for (i, ch) in v.chars().enumerate() {
                        let _ = write!(e, ", {n}@[{i}] == {ch:?}");
                    }
                    let lit = self.text(c.expr.span()).to_string();
                    let _ = write!(self.tail, "\n// generated from the string constant {n}\npub proof fn text_of_{n}() ensures {e} {{ reveal_strlit({lit}); }}\n");
                    self.note("R19", at, format!("lemma with the characters of {n}"));
                }
                self.paths_in(|v| v.visit_item_const(c));
            }
            Item::Trait(t) => {
                self.do_attrs(&t.attrs, None);
                let at = rng(t.trait_token.span).0;
                self.do_vis(&t.vis, at);
                let name = t.ident.to_string();
                let open = rng(t.brace_token.span.open());
                if t.supertraits.is_empty() && t.generics.where_clause.is_none() {
                    self.ins(open.0, 0, ": Sized ");
                    self.note("R13", at, format!("trait {name} gets the bound Sized"));
                }
                self.inner(&name, open.1);
                for it in &t.items {
                    if let TraitItem::Fn(f) = it {
                        let key = format!("{name}::{}", f.sig.ident);
                        let at = rng(sig_start(&f.sig)).0;
                        self.function(&key, &f.attrs, &f.sig, f.default.as_ref(), rng(f.span()), at, &Visibility::Public(Default::default()));
                    }
                }
                self.paths_in(|v| visit::visit_item_trait(v, t));
            }
            Item::Type(_) => {}
            Item::Macro(m) => {
                self.fnkey = "*".into();
                self.lost(format!("item macro not supported: {}", first_line(self.text(m.span()))));
            }
            _ => {
                self.fnkey = "*".into();
                self.lost(format!("item not supported: {}", first_line(self.text(i.span()))));
            }
        }
    }

    fn type_attr(&mut self, name: &str, vis: &Visibility, at: usize) {
        let pos = match vis {
            Visibility::Inherited => at,
            v => rng(v.span()).0,
        };
        let l: Vec<String> = self
            .spec
            .type_attrs
            .iter()
            .filter(|(n, a)| n == name && !a.contains("noclone") && !a.contains("clone-eq"))
            .map(|(_, a)| a.clone())
            .collect();
        for a in l {
            self.ins(pos, -1, format!("{a} "));
        }
    }

    fn inner(&mut self, key: &str, pos: usize) {
        let l: Vec<CBlock> = self.spec.inner.iter().filter(|(k, _)| k == key).map(|(_, b)| b.clone()).collect();
        for b in l {
            let t = self.block("inner", &b, key);
            self.ins(pos, 0, format!("\n{t}\n"));
        }
    }

    fn fields(&mut self, f: &Fields, vis: bool) {
        for fl in f {
            self.do_attrs(&fl.attrs, None);
            if vis {
                let at = match &fl.ident {
                    Some(i) => rng(i.span()).0,
                    None => rng(fl.ty.span()).0,
                };
                self.do_vis(&fl.vis, at);
            }
        }
    }

    fn thiserror_from(&mut self, e: &ItemEnum, v: &Variant) {
        for f in &v.fields {
            if f.attrs.iter().any(|a| a.path().is_ident("from")) {
                let ty = self.subst_text(&norm_ty(self.src, &f.ty));
                let en = e.ident.to_string();
                let vn = v.ident.to_string();
                let (g, ga) = generics_text(self.src, &e.generics);
                let _ = write!(
                    self.tail,
                    "\n// generated from #[from] (thiserror)\nimpl{g} From<{ty}> for {en}{ga} {{ fn from(e: {ty}) -> (r: Self) ensures r == (Self::{vn}(e)) {{ Self::{vn}(e) }} }}\nimpl{g} vstd::std_specs::convert::FromSpecImpl<{ty}> for {en}{ga} {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(e: {ty}) -> Self {{ Self::{vn}(e) }} }}\n"
                );
                let p = rng(v.span()).0;
                self.note("R3", p, format!("#[from] expanded to From<{ty}> for {en}"));
            }
        }
    }

    /// R16: the relation between a value and what a derived `Deserialize` reads from it, from the definition and its attributes.
    fn serde_struct(&mut self, s: &ItemStruct) {
        if !derives(&s.attrs, "Deserialize") { return; }
        let name = s.ident.to_string();
        self.fnkey = name.clone();
        let p = rng(s.span()).0;
        let a = self.serde_attr(&s.attrs);
        if !a.other.is_empty() || a.tag.is_some() || !s.generics.params.is_empty() {
            self.lost(format!("serde attributes of {name} not supported: {}", a.other.join(", ")));
        }
        let mut c = vec![];
        for f in &s.fields {
            c.push(self.serde_field(f, &format!("r.{}", f.ident.as_ref().map_or("0".into(), |i| i.to_string())), false));
        }
        if c.is_empty() { c.push("true".into()); }
        self.serde_impl(&name, &c.join("\n        && "), p);
    }
    fn serde_enum(&mut self, e: &ItemEnum) {
        if !derives(&e.attrs, "Deserialize") { return; }
        let name = e.ident.to_string();
        self.fnkey = name.clone();
        let p = rng(e.span()).0;
        let a = self.serde_attr(&e.attrs);
        let Some(tag) = a.tag.clone() else {
            self.lost(format!("{name}: only internally tagged enums are supported"));
            return;
        };
        if !a.other.is_empty() {
            self.lost(format!("serde attributes of {name} not supported: {}", a.other.join(", ")));
        }
        let mut arms = vec![];
        for v in &e.variants {
            let va = self.serde_attr(&v.attrs);
            if !va.other.is_empty() || va.default.is_some() {
                self.lost(format!("serde attributes of {name}::{} not supported: {}", v.ident, va.other.join(", ")));
            }
            let names = va.names(&v.ident.to_string());
            let mut c = vec![format!("({})", names.iter().map(|n| format!("crate::serde::tag_is(m, {tag:?}@, {n:?}@)")).collect::<Vec<_>>().join(" || "))];
            let mut binds = vec![];
            match &v.fields {
                Fields::Named(fs) => {
                    for f in &fs.named {
                        binds.push(f.ident.as_ref().unwrap().to_string());
                        c.push(self.serde_field(f, &f.ident.as_ref().unwrap().to_string(), true));
                    }
                }
                Fields::Unit => {}
                Fields::Unnamed(_) => self.lost(format!("{name}::{}: tuple variant", v.ident)),
            }
            arms.push(format!("{name}::{} {{ {} }} => {}", v.ident, binds.join(", "), c.join(" && ")));
        }
        self.serde_impl(&name, &format!("match r {{\n            {},\n        }}", arms.join(",\n            ")), p);
    }
    fn serde_impl(&mut self, name: &str, cond: &str, p: usize) {
        let _ = write!(
            self.tail,
            "\n// generated from derive(Deserialize) (serde)\nimpl crate::serde::De for {name} {{\n    open spec fn de(v: crate::serde::Val, r: Self) -> bool {{ match v {{\n        crate::serde::Val::Table(m) => {cond},\n        crate::serde::Val::List(_) => crate::serde::positional(v, r),\n        _ => false,\n    }} }}\n}}\n"
        );
        self.note("R16", p, format!("derive(Deserialize) of {name} expanded to the relation De::de"));
    }
    fn serde_field(&mut self, f: &Field, place: &str, _tagged: bool) -> String {
        let a = self.serde_attr(&f.attrs);
        let fname = f.ident.as_ref().map_or("0".into(), |i| i.to_string());
        if !a.other.is_empty() || a.tag.is_some() || a.bare_default {
            self.lost(format!("serde attributes of field {fname} not supported: {}", a.other.join(", ")));
        }
        let ty = self.subst_text(&norm_ty(self.src, &f.ty));
        let names = a.names(&fname);
        let mut alts: Vec<String> = names
            .iter()
            .map(|n| {
                let mut c = vec![format!("m.dom().contains({n:?}@)")];
                c.extend(names.iter().filter(|x| *x != n).map(|x| format!("!m.dom().contains({x:?}@)")));
                c.push(format!("<{ty} as crate::serde::De>::de(m[{n:?}@], {place})"));
                format!("({})", c.join(" && "))
            })
            .collect();
        if let Some(d) = &a.default {
            let mut c: Vec<String> = names.iter().map(|x| format!("!m.dom().contains({x:?}@)")).collect();
            c.push(format!("call_ensures({d}, (), {place})"));
            alts.push(format!("({})", c.join(" && ")));
        }
        format!("({})", alts.join(" || "))
    }
    fn serde_attr(&mut self, attrs: &[Attribute]) -> SerdeAttr {
        let mut o = SerdeAttr::default();
        for a in attrs {
            if !a.path().is_ident("serde") {
                continue;
            }
            let _ = a.parse_nested_meta(|m| {
                let n = m.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                let val: Option<String> = if m.input.peek(Token![=]) { Some(m.value()?.parse::<LitStr>()?.value()) } else { None };
                match (n.as_str(), val) {
                    ("tag", Some(v)) => o.tag = Some(v),
                    ("rename", Some(v)) => o.rename = Some(v),
                    ("alias", Some(v)) => o.alias.push(v),
                    ("default", Some(v)) => o.default = Some(v),
                    ("default", None) => o.bare_default = true,
                    ("skip_serializing", None) | ("skip_serializing_if", Some(_)) | ("serialize_with", Some(_)) => {}
                    _ => o.other.push(n),
                }
                Ok(())
            })
            .map_err(|e| o.other.push(format!("unreadable: {e}")));
        }
        o
    }

    fn item_impl(&mut self, im: &ItemImpl) {
        let ty = type_key(&im.self_ty);
        let full = norm_ty(self.src, &im.self_ty);
        let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        if let Some(tr) = &tr {
            let key = format!("{tr} for {ty}");
            let reason = self.spec.drops.iter().find(|(k, _)| *k == key).map(|(_, r)| r.clone());
            let reason = reason.or(if tr == "Debug" || tr == "Display" {
                if self.spec.keep_impls.contains(&key) { None } else { Some("formatting for logs".into()) }
            } else {
                None
            });
            if let Some(r) = reason {
                let (a, b) = rng(im.span());
                self.note("R5", a, format!("dropped impl {key}: {r}"));
                self.rep(a, b, "");
                return;
            }
        }
        self.do_attrs(&im.attrs, None);
        self.self_ty = Some(ty.clone());
        self.impl_head = Some(format!("impl{} {}", generics_text(self.src, &im.generics).0, full));
        let ikey = match &tr {
            Some(tr) => format!("{tr} for {ty}"),
            None => ty.clone(),
        };
        self.inner(&ikey, rng(im.brace_token.span.open()).1);
        for it in &im.items {
            match it {
                ImplItem::Fn(f) => {
                    let mut key = match &tr {
                        Some(tr) => format!("<{ty} as {tr}>::{}", f.sig.ident),
                        None => format!("{ty}::{}", f.sig.ident),
                    };
                    // `impl From<X> for Y`: allow a more specific key
                    if tr.is_some() {
                        let (_, p, _) = im.trait_.as_ref().unwrap();
                        let (a, b) = rng(p.span());
                        let pt = self.src[a..b].split_whitespace().collect::<Vec<_>>().join(" ");
                        let k2 = format!("<{full} as {pt}>::{}", f.sig.ident);
                        if self.spec.fns.iter().any(|s| s.key == k2) {
                            key = k2;
                        }
                    } else {
                        let k2 = format!("{full}::{}", f.sig.ident);
                        if self.spec.fns.iter().any(|s| s.key == k2) {
                            key = k2;
                        }
                    }
                    let at = rng(sig_start(&f.sig)).0;
                    if !self.cfg_ok(&f.attrs) {
                        self.del(f.span(), "R1", "function with false cfg");
                        continue;
                    }
                    if tr.is_none() {
                        self.do_vis(&f.vis, at);
                    }
                    self.function(&key, &f.attrs, &f.sig, Some(&f.block), rng(f.span()), at, &f.vis);
                }
                ImplItem::Type(t) => {
                    let ty = &t.ty;
                    self.paths_in(|v| v.visit_type(ty));
                }
                _ => {}
            }
        }
        let st = &im.self_ty;
        let g = &im.generics;
        self.paths_in(|v| {
            v.visit_type(st);
            v.visit_generics(g);
        });
        if let Some((_, p, _)) = &im.trait_ {
            self.paths_in(|v| v.visit_path(p));
        }
        self.self_ty = None;
        self.impl_head = None;
    }

    fn item_use(&mut self, u: &ItemUse) {
        let mut flat = vec![];
        flatten(&u.tree, &mut vec![], &mut flat);
        let vis = match u.vis {
            Visibility::Inherited => "",
            _ => "pub ",
        };
        let mut o = String::new();
        for (p, rename) in flat {
            if DROP_USE.contains(&p[0].as_str()) || p.join("::") == "tokio::select" {
                continue;
            }
            let mut s = self.subst_path(&p.join("::"));
            if s.starts_with("core::fmt") || s.contains("::Debug") {
                s = format!("/*unused*/ {s}");
            }
            let s = s.trim_end_matches("::self").to_string();
            let _ = write!(o, "{vis}use {s}{}; ", rename.map(|r| format!(" as {r}")).unwrap_or_default());
        }
        let (a, b) = rng(u.span());
        self.note("R4", a, "use paths redirected to contract modules");
        self.rep(a, b, o);
    }

    fn subst_path(&self, p: &str) -> String {
        for (a, b) in &self.spec.subst {
            if let Some(r) = p.strip_prefix(a.as_str()) {
                if r.is_empty() || r.starts_with("::") {
                    return format!("{b}{r}");
                }
            }
        }
        for (a, b) in STD_SUBST {
            if let Some(r) = p.strip_prefix(a) {
                if r.is_empty() || r.starts_with("::") {
                    return format!("{b}{r}");
                }
            }
        }
        let first = p.split("::").next().unwrap();
        if p.contains("::") && self.mods.iter().any(|m| m == first) {
            return format!("crate::{p}");
        }
        if STUB_CRATES.contains(&first) {
            return format!("crate::{p}");
        }
        p.to_string()
    }
    fn subst_text(&self, t: &str) -> String {
        self.subst_path(t)
    }

    fn paths_in(&mut self, f: impl FnOnce(&mut PathVisitor)) {
        let mut v = PathVisitor { found: vec![] };
        f(&mut v);
        for (s, e) in v.found {
            let t = self.src[s..e].to_string();
            let n = self.subst_path(&t);
            if n != t && !self.edits.iter().any(|x| x.start == s && x.end == e) {
                self.rep(s, e, n);
            }
        }
    }

    // ---- functions ----------------------------------------------------------------------

    #[allow(clippy::too_many_arguments)]
    fn function(&mut self, key: &str, attrs: &[Attribute], sig: &Signature, body: Option<&syn::Block>, whole: (usize, usize), sig_at: usize, vis: &Visibility) {
        if !self.cfg_ok(attrs) {
            self.note("R1", whole.0, format!("dropped fn {key} (cfg)"));
            self.rep(whole.0, whole.1, "");
            return;
        }
        self.fnkey = key.to_string();
        let mut fi = self.spec.fns.iter().position(|f| f.key == key);
        if fi.is_none() {
            // trailing-name match for trait methods written with other generics
            fi = self.spec.fns.iter().position(|f| f.key == format!("*::{}", sig.ident) && !f.used);
        }
        let module = self.spec.module.clone();
        let src = self.spec.src.clone();
        let line = self.line(sig_at);
        if let Some(k) = fi {
            if let Some(r) = self.spec.fns[k].drop.clone() {
                self.spec.fns[k].used = true;
                self.note("R5", whole.0, format!("dropped fn {key}: {r}"));
                self.rep(whole.0, whole.1, "");
                self.ctx.fns.push((key.into(), module, src, line, format!("dropped: {r}"), vec![]));
                return;
            }
        }
        let id = self.ctx.fns.len();
        let status = match fi {
            None => "uncontracted".to_string(),
            Some(k) => {
                let f = &mut self.spec.fns[k];
                f.used = true;
                match &f.assume {
                    Some(r) => format!("assumed: {r}"),
                    None => "contracted".into(),
                }
            }
        };
        let props = fi.map(|k| {
            let f = &self.spec.fns[k];
            let mut p = f.props.clone();
            for b in f.ensures.iter().chain(f.requires.iter()) {
                p.extend(b.tags.clone());
            }
            p.sort();
            p.dedup();
            p
        }).unwrap_or_default();
        if !self.cancel {
            self.ctx.facts.push((format!("shape {module}::{key}"), shape(sig, body)));
            let names: Vec<String> = sig.inputs.iter().map(|a| match a {
                FnArg::Receiver(_) => "self".to_string(),
                FnArg::Typed(t) => match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => "_".into() },
            }).collect();
            self.ctx.facts.push((format!("params {module}::{key}"), names.join(",")));
        }
        self.ctx.fns.push((key.into(), module.clone(), src, line, status.clone(), props));
        self.do_attrs(attrs, None);
        let vstart = match vis {
            Visibility::Inherited => sig_at,
            v if rng(v.span()).1 > 0 => rng(v.span()).0,
            _ => sig_at,
        };
        self.ins(vstart, -3, format!("/*@F{id}*/"));
        self.ins(whole.1, 9, format!("/*@G{id}*/"));

        if let Some(k) = fi {
            // the contract speaks about parameters by position: it follows their names
            let have = sig.inputs.iter().map(|a| match a {
                FnArg::Receiver(_) => "self".to_string(),
                FnArg::Typed(t) => match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => "_".into() },
            });
            let names: Vec<(String, String)> = self.spec.fns[k].params.iter().flatten().cloned().zip(have).filter(|(a, b)| a != b && a != "self" && b != "self" && b != "_").collect();
            if !names.is_empty() {
                for (n, (a, _)) in names.iter().enumerate() { self.spec.fns[k].rename(&mut |t| rename_ident(t, a, &format!("__p{n}"))); }
                for (n, (_, b)) in names.iter().enumerate() { self.spec.fns[k].rename(&mut |t| rename_ident(t, &format!("__p{n}"), b)); }
            }
        }
        if let (Some(k), Some(b)) = (fi, body) {
            // and about local variables by their place in the sequence of bindings
            let have = locals(b);
            if !self.cancel && self.spec.fns[k].inner_parts() {
                self.ctx.facts.push((format!("locals {module}::{key}"), have.join(",")));
            }
            if let Some(want) = self.spec.fns[k].locals.clone() {
                let names = renamed(&want, &have);
                for (n, (a, _)) in names.iter().enumerate() { self.spec.fns[k].rename_inner(&mut |t, c| if c && binds(t, a) { t.to_string() } else { rename_ident(t, a, &format!("__l{n}")) }); }
                for (n, (_, b)) in names.iter().enumerate() { self.spec.fns[k].rename_inner(&mut |t, _| rename_ident(t, &format!("__l{n}"), b)); }
            }
        }
        let fs: Option<FnSpec> = fi.map(|k| self.spec.fns[k].clone());
        self.signature_rules(sig);
        // signature
        let end_of_sig = match body {
            Some(b) => rng(b.brace_token.span.open()).0,
            None => whole.1 - 1,
        };
        if let Some(fs) = &fs {
            for a in &fs.attrs {
                self.ins(vstart, -2, format!("{a} "));
            }
            if fs.assume.is_some() {
                self.ins(vstart, -2, "#[verifier::external_body] ");
            }
            if let Some(ps) = &fs.params {
                let have: Vec<String> = sig.inputs.iter().map(|a| match a {
                    FnArg::Receiver(_) => "self".into(),
                    FnArg::Typed(t) => match &*t.pat {
                        Pat::Ident(i) => i.ident.to_string(),
                        _ => "_".into(),
                    },
                }).collect();
                if have.len() != ps.len() {
                    self.lost(format!("parameters changed: contract {ps:?}, source {have:?}"));
                } else {
                    for (a, b) in ps.iter().zip(&have) {
                        if a != b && (a == "self" || b == "self" || b == "_") {
                            self.lost(format!("parameter renamed: contract {a}, source {b}"));
                        }
                    }
                }
            }
            if let Some(r) = &fs.ret {
                if let ReturnType::Type(_, t) = &sig.output {
                    let (a, b) = rng(t.span());
                    self.ins(a, -5, format!("({r}: "));
                    self.ins(b, 5, ")");
                } else {
                    self.ins(rng(sig.paren_token.span.close()).1, 5, format!(" -> ({r}: ())"));
                }
            }
            let mut c = String::new();
            for b in &fs.requires {
                let _ = write!(c, "\n    requires {}", self.block("requires", b, key));
            }
            if fs.requires.len() > 1 {
                // merge: a single requires keyword
                c = String::from("\n    requires ");
                for b in &fs.requires {
                    let t = self.block("requires", b, key);
                    c.push_str(&t);
                }
            }
            if !fs.ensures.is_empty() {
                c.push_str("\n    ensures ");
                for b in &fs.ensures {
                    let t = self.block("ensures", b, key);
                    c.push_str(&t);
                    c.push('\n');
                }
            }
            if let Some(d) = &fs.decreases {
                let t = self.block("decreases", d, key);
                let _ = write!(c, "\n    decreases {t}");
            }
            c.push('\n');
            self.ins(end_of_sig, 7, c);
        }
        // types in the signature
        self.paths_in(|v| v.visit_signature(sig));
        // body
        let Some(b) = body else { return };
        if self.ctx.canary && status == "contracted" {
            self.ins(rng(b.brace_token.span.open()).1, -9, "\nproof { assert(false); }\n");
            self.ctx.planted.push(id);
        }
        if let Some(fs) = &fs {
            let open = rng(b.brace_token.span.open()).1;
            for bs in &fs.body_start {
                let t = self.block("hint", bs, key);
                self.ins(open, 0, format!("\n{t}\n"));
            }
        }
        self.fnidx = fi;
        self.nloops = 0;
        self.nclosures = 0;
        self.counts.clear();
        self.used_after.clear();
        self.used_before.clear();
        self.loop_stack = vec![Brk::Barrier];
        self.tail_loop = match b.stmts.last() {
            Some(Stmt::Expr(Expr::Loop(l), None)) => Some(rng(l.span())),
            _ => None,
        };
        self.visit_block(b);
        if let Some(fs) = &fs {
            let nl = self.nloops;
            let want = fs.loops.keys().max().map_or(0, |m| m + 1);
            if nl != want && fs.assume.is_none() {
                let claims = fs.loops.iter().any(|(n, l)| *n >= nl && l.claims());
                self.lost_part(claims, format!("loop count changed: contract {want}, source {nl}"));
            }
            let nc = self.nclosures;
            let wantc = fs.closures.keys().max().map_or(0, |m| m + 1);
            if wantc > nc {
                let claims = fs.closures.iter().any(|(n, b)| *n >= nc && !b.tags.is_empty());
                self.lost_part(claims, format!("closure count changed: contract {wantc}, source {nc}"));
            }
            for (n, k, b) in &fs.after {
                if !self.used_after.contains(&(n.clone(), *k)) {
                    self.lost_part(!b.tags.is_empty(), format!("anchor lost: after {n} {k}"));
                }
            }
            for (n, k, b) in &fs.before {
                if !self.used_before.contains(&(n.clone(), *k)) {
                    self.lost_part(!b.tags.is_empty(), format!("anchor lost: before {n} {k}"));
                }
            }
        } else if self.nloops > 0 {
            self.lost("uncontracted function with a loop");
        }
        self.fnidx = None;
        if !self.cancel && self.spec.fns.iter().any(|f| f.key == format!("cancelled {key}")) {
            // R9: what becomes of the function when it is dropped at one of its await points
            let saved = std::mem::take(&mut self.edits);
            self.cancel = true;
            self.function(&format!("cancelled {key}"), attrs, sig, body, whole, sig_at, vis);
            self.cancel = false;
            self.fnkey = key.to_string();
            let edits = std::mem::replace(&mut self.edits, saved);
            let text = render(self.src, edits, whole.0, whole.1);
            self.note("R9", whole.0, format!("second copy of {key} that stops at one of its await points"));
            match &self.impl_head {
                Some(h) => { let _ = write!(self.tail, "\n{h} {{\n{text}\n}}\n"); }
                None => { let _ = write!(self.tail, "\n{text}\n"); }
            }
        }
    }

    /// The parameters of a closure: a name, the type if there is one, and what takes a pattern apart.
    fn closure_params(&self, c: &ExprClosure) -> Vec<(String, Option<String>, Option<String>)> {
        c.inputs.iter().enumerate().map(|(n, p)| {
            let (p, ty) = match p { Pat::Type(t) => (&*t.pat, Some(self.text(t.ty.span()).to_string())), p => (p, None) };
            match p {
                Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() => (i.ident.to_string(), ty, None),
                Pat::Wild(_) => (format!("__c{n}"), ty, None),
                Pat::Reference(r) if r.mutability.is_none() && matches!(&*r.pat, Pat::Ident(_)) => (format!("__c{n}"), ty, Some(format!("let {} = *__c{n}; ", self.text(r.pat.span())))),
                p => (format!("__c{n}"), ty, Some(format!("let {} = __c{n}; ", self.text(p.span())))),
            }
        }).collect()
    }

    /// The contract of a closure, with the names that the closure's own parameters have in the source.
    fn closure_names(&mut self, b: &CBlock, c: &ExprClosure) -> Option<CBlock> {
        let mut b = b.clone();
        let head = b.text.trim_start().strip_prefix('|').and_then(|t| t.split_once('|')).map(|x| x.0.to_string()).unwrap_or_default();
        let want: Vec<String> = top_split(&head).filter_map(|p| p.split_once(':')).map(|p| p.0.trim().to_string()).collect();
        let have: Vec<String> = self.closure_params(c).into_iter().map(|p| p.0).collect();
        if want.len() != have.len() {
            self.lost_part(!b.tags.is_empty(), format!("closure parameters changed: contract {want:?}, source {have:?}"));
            return None;
        }
        let t = b.text.trim_start();
        let mut body = t[1 + head.len()..].to_string();
        let mut binders: Vec<String> = top_split(&head).map(|p| p.trim().to_string()).collect();
        for (n, (w, h)) in want.iter().zip(&have).enumerate() {
            if w != h && h != "_" {
                if let Some((_, ty)) = binders[n].split_once(':') { binders[n] = format!("{h}:{ty}"); }
                body = rename_ident(&body, w, h);
            }
        }
        b.text = format!("|{}{body}", binders.join(", "));
        Some(b)
    }

    /// R20: `mut x: S` for a type parameter `S` becomes `x: &mut S` (references implement the same traits by forwarding).
    /// In the copy for cancellation: the name and the additional parameter.
    fn signature_rules(&mut self, sig: &Signature) {
        for p in sig.generics.type_params() {
            let unpin = |b: &TypeParamBound| matches!(b, TypeParamBound::Trait(t) if t.path.segments.last().unwrap().ident == "Unpin");
            if p.bounds.iter().any(unpin) {
                // R13: the marker says nothing about behaviour
                let (s, e) = rng(p.bounds.span());
                let kept: Vec<String> = p.bounds.iter().filter(|b| !unpin(b)).map(|b| self.subst_text(self.text(b.span()))).collect();
                self.note("R13", s, "bound Unpin dropped");
                let s = if kept.is_empty() { rng(p.colon_token.span()).0 } else { s };
                self.rep(s, e, kept.join(" + "));
            }
        }
        self.io_params.clear();
        let whole_generics = {
            let (a, b) = rng(sig.generics.span());
            let w = sig.generics.where_clause.as_ref().map_or(String::new(), |w| self.text(w.span()).to_string());
            format!("{} {w}", &self.src[a..b])
        };
        for a in &sig.inputs {
            let FnArg::Typed(t) = a else { continue };
            let Pat::Ident(i) = &*t.pat else { continue };
            let (is_ref, ty) = match &*t.ty {
                Type::Reference(r) => (true, norm_ty(self.src, &r.elem)),
                ty => (false, norm_ty(self.src, ty)),
            };
            if !sig.generics.type_params().any(|p| p.ident == ty) { continue }
            if whole_generics.contains("AsyncRead") || whole_generics.contains("AsyncWrite") {
                self.io_params.push(i.ident.to_string());
            }
            if !is_ref && i.mutability.is_some() {
                let (s, _) = rng(t.pat.span());
                let (ts, _) = rng(t.ty.span());
                self.note("R20", s, format!("parameter `mut {0}: {ty}` written as `{0}: &mut {ty}`", i.ident));
                self.rep(s, ts, format!("{}: &mut ", i.ident));
            }
        }
        if self.cancel {
            let (s, e) = rng(sig.ident.span());
            self.rep(s, e, format!("{}_cancelled", sig.ident));
            let comma = if sig.inputs.is_empty() || sig.inputs.trailing_punct() { "" } else { ", " };
            self.ins(rng(sig.paren_token.span.close()).0, 4, format!("{comma}__cut: &mut bool"));
        }
    }

    /// The text of a call, or of the call of the variant that is dropped before it is done.
    fn call_text(&self, e: &Expr, cut: Option<&str>) -> Option<String> {
        let suffix = if cut.is_some() { "_cancelled" } else { "" };
        let (f, recv, args) = match e {
            Expr::Call(c) => (self.text(c.func.span()).to_string(), None, &c.args),
            Expr::MethodCall(c) => {
                let r = self.text(c.receiver.span()).to_string();
                if self.io_params.contains(&r) {
                    (format!("crate::tokio::io::{}", c.method), Some(r), &c.args)
                } else {
                    (format!("{r}.{}", c.method), None, &c.args)
                }
            }
            _ => return None,
        };
        let mut v: Vec<String> = recv.into_iter().collect();
        v.extend(args.iter().map(|a| self.text(a.span()).to_string()));
        v.extend(cut.map(|c| c.to_string()));
        Some(format!("{f}{suffix}({})", v.join(", ")))
    }
    /// The call was started, did not complete, and was dropped. That it has completed is impossible then.
    fn dropped_call(&self, e: &Expr) -> Option<String> {
        Some(format!("{{ let mut __c = false; let _ = {}.await; if !__c {{ crate::fmtp::impossible(); }} }}", self.call_text(e, Some("&mut __c"))?))
    }

    /// A static whose initial value has a contract of its own (`fn static NAME`).
    fn static_fn(&mut self, s: &ItemStatic, at: usize) {
        let name = s.ident.to_string();
        let key = format!("static {name}");
        self.fnkey = key.clone();
        let fi = self.spec.fns.iter().position(|f| f.key == key);
        let fs = fi.map(|k| { self.spec.fns[k].used = true; self.spec.fns[k].clone() });
        let (_, te) = rng(s.ty.span());
        let (es, ee) = rng(s.expr.span());
        let (_, se) = rng(s.semi_token.span);
        let mut c = String::new();
        let mut props = vec![];
        for b in fs.iter().flat_map(|f| f.ensures.iter()) {
            props.extend(b.tags.clone());
            c.push_str(&self.block("ensures", b, &key));
        }
        if c.is_empty() { c.push_str("true"); }
        let start: String = fs.iter().flat_map(|f| f.body_start.iter()).map(|b| b.text.clone()).collect();
        let id = self.ctx.fns.len();
        let (m, src, line) = (self.spec.module.clone(), self.spec.src.clone(), self.line(at));
        self.ctx.fns.push((key.clone(), m, src, line, if fs.is_some() { "contracted".into() } else { "uncontracted".into() }, props));
        self.ins(at, 1, format!("/*@F{id}*/exec "));
        self.rep(te, es, format!(" ensures {c} {{ {start} "));
        let mut lazy = false;
        if let Expr::Call(call) = &*s.expr {
            if let (1, Some(Expr::Closure(cl))) = (call.args.len(), call.args.first()) {
                if cl.inputs.is_empty() && matches!(&*cl.body, Expr::Block(_)) {
                    // a closure in a static captures nothing: it is a function
                    lazy = true;
                    let (cs, _) = rng(cl.span());
                    let (bs, be) = rng(cl.body.span());
                    let head = match fs.as_ref().and_then(|f| f.closures.get(&0)).cloned() {
                        Some(b) => {
                            let t = self.block("closure", &b, &key);
                            t.replacen("||", "", 1)
                        }
                        None => { self.lost("closure of a static without a contract"); String::new() }
                    };
                    self.rep(cs, bs, format!("init_{name}) }} pub fn init_{name}(){head} "));
                    self.rep(be, se + 1, format!("/*@G{id}*/"));
                    self.note("R6", at, format!("initialiser of static {name} written as a function"));
                }
            }
        }
        if !lazy {
            self.rep(ee, se, format!(" }}/*@G{id}*/"));
        }
        self.note("R6", at, format!("static {name} made an exec static"));
        self.fnidx = fi;
        self.nloops = 0;
        self.nclosures = 0;
        self.counts.clear();
        self.loop_stack = vec![Brk::Barrier];
        match &*s.expr {
            Expr::Call(call) if lazy => {
                self.visit_expr(&call.func);
                if let Some(Expr::Closure(cl)) = call.args.first() { self.nclosures = 1; self.visit_expr(&cl.body); }
            }
            e => self.visit_expr(e),
        }
        self.fnidx = None;
        let t = &s.ty;
        self.paths_in(|v| v.visit_type(t));
        if let Some(fs) = fs {
            let want = fs.loops.keys().max().map_or(0, |m| m + 1);
            if want != self.nloops || fs.closures.len() > self.nclosures { self.lost("loops or closures changed"); }
        }
    }

    fn cur_spec(&self) -> Option<FnSpec> {
        self.fnidx.map(|k| self.spec.fns[k].clone())
    }

    fn loop_spec(&mut self, kind: &str, at: usize, open_end: usize, close: usize, whole: (usize, usize)) -> usize {
        let n = self.nloops;
        self.nloops += 1;
        if let Some(fs) = self.cur_spec() {
            let key = self.fnkey.clone();
            if let Some(l) = fs.loops.get(&n) {
                if !l.kind.is_empty() && l.kind != kind {
                    self.lost_part(l.claims(), format!("loop {n} changed kind: contract {}, source {kind}", l.kind));
                    return n;
                }
                // the value that the loop gives does not exist when it is left in another way
                let value = format!("__brk{n}");
                let missing = kind != "loop" || !std::mem::take(&mut self.loop_value);
                let (l, cut) = if missing { l.without(&value) } else { (l.clone(), false) };
                if cut { self.lost_part(false, format!("loop {n} no longer gives a value")); }
                let l = &l;
                if let Some(b) = &l.spec {
                    let mut t = self.block("loop", b, &key);
                    if self.cancel {
                        // R9: inside the copy the flag is set only where it stops
                        t = t.lines().map(|l| if l.trim() == "invariant" { "    invariant !*__cut,".to_string() } else { l.to_string() }).collect::<Vec<_>>().join("\n");
                    }
                    self.ins(at, 7, format!("\n{t}\n"));
                }
                for b in &l.start {
                    let t = self.block("hint", b, &key);
                    self.ins(open_end, 0, format!("\n{t}\n"));
                }
                for b in &l.end {
                    let t = self.block("hint", b, &key);
                    self.ins(close, 0, format!("\n{t}\n"));
                }
                for b in &l.before {
                    let t = self.block("hint", b, &key);
                    self.ins(whole.0, -1, format!("\n{t}\n"));
                }
                for b in &l.after {
                    let t = self.block("hint", b, &key);
                    self.ins(whole.1, -4, format!("\n{t}\n"));
                }
            }
        }
        n
    }

    /// Hints before and after a call. `$r` is the value of the call.
    fn hint_call(&mut self, name: &str, at: Span) {
        let at = rng(at);
        let k = self.counts.entry(name.to_string()).or_insert(0);
        let n = *k;
        *k += 1;
        let Some(fs) = self.cur_spec() else { return };
        let key = self.fnkey.clone();
        for (nm, kk, b) in &fs.after {
            if nm == name && *kk == n {
                if let Some((_, e, semi, bound)) = self.stmt_stack.last().cloned() {
                    let mut b = b.clone();
                    if b.text.contains("$r") {
                        match bound {
                            Some((x, y, name)) if (x, y) == at => b.text = b.text.replace("$r", &name),
                            _ => {
                                let v = format!("__v{}", self.nwraps);
                                self.nwraps += 1;
                                b.text = b.text.replace("$r", &v);
                                let t = self.block("hint", &b, &key);
                                self.ins(at.0, -5, format!("{{ let {v} = "));
                                self.ins(at.1, 3, format!(";\n{t}\n{v} }}"));
                                self.used_after.push((nm.clone(), n));
                                continue;
                            }
                        }
                    }
                    let b = &b;
                    if semi {
                        let t = self.block("hint", b, &key);
                        self.ins(e, 2, format!("\n{t}\n"));
                        self.used_after.push((nm.clone(), n));
                    }
                }
            }
        }
        for (nm, kk, b) in &fs.before {
            if nm == name && *kk == n {
                if let Some((s, ..)) = self.stmt_stack.last().cloned() {
                    let t = self.block("hint", b, &key);
                    self.ins(s, -1, format!("\n{t}\n"));
                    self.used_before.push((nm.clone(), n));
                }
            }
        }
    }

    fn handle_macro(&mut self, m: &Macro, span: Span, is_stmt: bool) -> bool {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let (a, b) = rng(span);
        if TRACE_MACROS.contains(&name.as_str()) {
            let args = m.tokens.to_string();
            self.note("R7", a, format!("dropped log statement {name}!"));
            for bad in ["& mut", ".await", "?;", "unwrap ()", "expect ("] {
                if args.contains(bad) {
                    self.lost(format!("log macro with a possible effect: {}", first_line(&args)));
                }
            }
            self.rep(a, b, if is_stmt { "" } else { "()" });
            return true;
        }
        if name == "format" || name == "write" {
            match self.format_macro(m, name == "write") {
                Some(t) => {
                    self.note("R8", a, format!("{name}! expanded to concatenation"));
                    self.rep(a, b, if is_stmt { format!("{t};") } else { t });
                }
                None => self.lost(format!("{name}! not understood: {}", self.text(span))),
            }
            return true;
        }
        if name == "select" {
            match self.select_macro(m) {
                Some(t) => {
                    self.note("R9", a, "select! expanded to a nondeterministic choice with cancellation of the other branches");
                    self.rep(a, b, t);
                }
                None => self.lost(format!("select! not understood: {}", first_line(self.text(span)))),
            }
            return true;
        }
        if name == "vec" {
            self.macro_paths(m.tokens.clone());
            return true;
        }
        if let "assert_eq" | "assert_ne" | "debug_assert_eq" | "debug_assert_ne" = name.as_str() {
            // by definition a comparison that panics if it fails (debug assertions count as if enabled)
            let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
            match args {
                Ok(v) if v.len() >= 2 => {
                    let op = if name.ends_with("eq") { "==" } else { "!=" };
                    let t = format!("assert!(({}) {op} ({}))", self.text(v[0].span()), self.text(v[1].span()));
                    self.note("R23", a, format!("{name}! written as assert!"));
                    self.rep(a, b, if is_stmt { format!("{t};") } else { t });
                }
                _ => self.lost(format!("{name}! not understood")),
            }
            return true;
        }
        if name == "matches" || name == "assert" || name == "unreachable" || name == "panic" || name == "todo" || name == "unimplemented" || name == "debug_assert" {
            // the token text is kept as it is, but for paths into contract modules
            self.macro_paths(m.tokens.clone());
            return true;
        }
        self.lost(format!("macro not supported: {name}!"));
        true
    }

    /// R4 inside the tokens of a macro: paths that start with the name of a contract module.
    fn macro_paths(&mut self, ts: proc_macro2::TokenStream) {
        use proc_macro2::TokenTree as T;
        let v: Vec<T> = ts.into_iter().collect();
        let colon = |i: usize| matches!(v.get(i), Some(T::Punct(p)) if p.as_char() == ':');
        for (i, t) in v.iter().enumerate() {
            match t {
                T::Group(g) => self.macro_paths(g.stream()),
                T::Ident(id) if colon(i + 1) && colon(i + 2) && !(i > 0 && colon(i - 1)) => {
                    let (s, mut e) = rng(id.span());
                    let mut k = i + 1;
                    while colon(k) && colon(k + 1) && matches!(v.get(k + 2), Some(T::Ident(_))) {
                        e = rng(v[k + 2].span()).1;
                        k += 3;
                    }
                    let t = self.src[s..e].to_string();
                    let n = self.subst_path(&t);
                    if n != t {
                        self.rep(s, e, n);
                    }
                }
                _ => {}
            }
        }
    }

    /// The text of an argument of `format!`, in which there may be further `format!`s.
    fn format_arg(&mut self, e: &Expr) -> Option<String> {
        struct F<'a>(Vec<&'a Macro>, Vec<(usize, usize)>);
        impl<'a> Visit<'a> for F<'a> {
            fn visit_expr_macro(&mut self, m: &'a ExprMacro) {
                if m.mac.path.is_ident("format") {
                    self.0.push(&m.mac);
                    self.1.push(rng(m.span()));
                }
            }
        }
        let mut f = F(vec![], vec![]);
        f.visit_expr(e);
        let (start, end) = rng(e.span());
        let mut at = start;
        let mut t = String::new();
        for (m, (a, b)) in f.0.into_iter().zip(f.1) {
            t += &self.src[at..a];
            t += &self.format_macro(m, false)?;
            at = b;
        }
        t += &self.src[at..end];
        Some(t)
    }

    /// `format!("lit {a}:{b}", ...)` as `fmtcat(...)` over display contracts.
    fn format_macro(&mut self, m: &Macro, write: bool) -> Option<String> {
        let args: punctuated::Punctuated<Expr, Token![,]> =
            m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
        let mut args: Vec<Expr> = args.into_iter().collect();
        let mut target = None;
        if write {
            target = Some(self.text(args.remove(0).span()).to_string());
        }
        let Expr::Lit(ExprLit { lit: Lit::Str(fmt), .. }) = args.remove(0) else { return None };
        let f = fmt.value();
        let mut named = BTreeMap::new();
        let mut pos = vec![];
        for a in args {
            if let Expr::Assign(ass) = &a {
                named.insert(self.text(ass.left.span()).to_string(), self.format_arg(&ass.right)?);
            } else {
                pos.push(self.format_arg(&a)?);
            }
        }
        let mut parts: Vec<String> = vec![];
        let mut lit = String::new();
        let mut it = f.chars().peekable();
        let mut next = 0;
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => {
                    it.next();
                    lit.push('{');
                }
                '}' if it.peek() == Some(&'}') => {
                    it.next();
                    lit.push('}');
                }
                '{' => {
                    let mut n = String::new();
                    for c in it.by_ref() {
                        if c == '}' {
                            break;
                        }
                        n.push(c);
                    }
                    if !lit.is_empty() {
                        parts.push(if lit.len() <= 4 { format!("&*crate::fmtp::lit({{ proof {{ reveal_strlit({lit:?}); }} {lit:?} }})") } else { format!("&*crate::fmtp::lit({lit:?})") });
                        lit.clear();
                    }
                    let mut fun = "show";
                    let mut n2 = n.as_str();
                    if let Some((a, b)) = n.split_once(':') {
                        n2 = a;
                        if b == "?" {
                            fun = "debug";
                        } else if !b.is_empty() {
                            return None;
                        }
                    }
                    let e = if n2.is_empty() {
                        let e = pos.get(next)?.clone();
                        next += 1;
                        e
                    } else if let Ok(k) = n2.parse::<usize>() {
                        pos.get(k)?.clone()
                    } else if let Some(e) = named.get(n2) {
                        e.clone()
                    } else {
                        n2.to_string()
                    };
                    parts.push(format!("&*crate::fmtp::{fun}(&({e}))"));
                }
                c => lit.push(c),
            }
        }
        if !lit.is_empty() {
            parts.push(if lit.len() <= 4 { format!("&*crate::fmtp::lit({{ proof {{ reveal_strlit({lit:?}); }} {lit:?} }})") } else { format!("&*crate::fmtp::lit({lit:?})") });
        }
        let mut e = String::from("crate::fmtp::empty()");
        for p in parts {
            e = format!("crate::fmtp::cat({e}, {p})");
        }
        Some(match target {
            None => e,
            Some(t) => format!("{{ use crate::fmtp::WriteText as _; ({t}).write_text({e}) }}"),
        })
    }

    /// R22: `tokio::spawn(async { .. })`: the block stands where it is spawned. It owns all it uses (its type is 'static), nothing
    /// waits for it, and a panic in it ends only it.
    fn spawned(&mut self, c: &ExprCall, a: &Expr) -> bool {
        let b = match a {
            Expr::Async(b) => b,
            Expr::MethodCall(m) if m.method == "in_current_span" || m.method == "instrument" => match &*m.receiver { Expr::Async(b) => b, _ => return false },
            _ => return false,
        };
        struct Exits(bool);
        impl<'a> Visit<'a> for Exits {
            fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
            fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
            fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        }
        let mut e = Exits(false);
        e.visit_block(&b.block);
        if e.0 { return false; }
        let (s, t) = rng(c.span());
        let (bs, be) = rng(b.block.span());
        self.note("R22", s, "spawned block run in place");
        self.rep(s, bs, "");
        self.rep(be, t, "");
        self.visit_block(&b.block);
        true
    }

    /// `select! { p = call(args) => e, ... }` with calls of the form f(..) / x.f(..): the winner runs to
    /// completion, every other branch may run up to any suspension point (`f_cancelled`).
    fn select_macro(&mut self, m: &Macro) -> Option<String> {
        struct Arm {
            pat: Pat,
            fut: Expr,
            body: Expr,
        }
        struct Arms(Vec<Arm>);
        impl parse::Parse for Arms {
            fn parse(i: parse::ParseStream) -> Result<Self> {
                let mut v = vec![];
                while !i.is_empty() {
                    let pat = Pat::parse_single(i)?;
                    i.parse::<Token![=]>()?;
                    let fut: Expr = i.parse()?;
                    i.parse::<Token![=>]>()?;
                    let body: Expr = i.parse()?;
                    let _ = i.parse::<Option<Token![,]>>()?;
                    v.push(Arm { pat, fut, body });
                }
                Ok(Arms(v))
            }
        }
        let arms: Arms = m.parse_body().ok()?;
        let arms = arms.0;
        let mut o = String::new();
        if self.cancel {
            let mut all = String::new();
            for a in &arms { all.push_str(&self.dropped_call(&a.fut)?); }
            let _ = write!(o, "if crate::fmtp::stop() {{ {all} *__cut = true; return crate::fmtp::arbitrary(); }} ");
        }
        o.push_str("let __sel: usize = crate::fmtp::arbitrary_choice(); ");
        let n = arms.len();
        for (k, a) in arms.iter().enumerate() {
            let mut pre = String::new();
            for (j, b) in arms.iter().enumerate() {
                // it is not even started when another one completes first
                if j != k { let _ = write!(pre, "if crate::fmtp::stop() {{ {} }} ", self.dropped_call(&b.fut)?); }
            }
            let arm = format!("{{ {pre} let {} = {}.await; {} }}", self.text(a.pat.span()), self.call_text(&a.fut, None)?, self.text(a.body.span()));
            if k + 1 < n {
                let _ = write!(o, "if __sel == {k} {arm} else ");
            } else {
                o.push_str(&arm);
            }
        }
        Some(if self.stmt_macro { format!("{{ {o} }}") } else { format!("({{ {o} }})") })
    }
}

fn sig_start(s: &Signature) -> Span {
    if let Some(c) = &s.constness {
        return c.span;
    }
    if let Some(c) = &s.asyncness {
        return c.span;
    }
    if let Some(c) = &s.unsafety {
        return c.span;
    }
    s.fn_token.span
}

fn generics_text(src: &str, g: &Generics) -> (String, String) {
    if g.params.is_empty() {
        return (String::new(), String::new());
    }
    let mut a = vec![];
    let mut b = vec![];
    for p in &g.params {
        let (s, e) = rng(p.span());
        a.push(src[s..e].to_string());
        b.push(match p {
            GenericParam::Type(t) => t.ident.to_string(),
            GenericParam::Lifetime(l) => l.lifetime.to_string(),
            GenericParam::Const(c) => c.ident.to_string(),
        });
    }
    (format!("<{}>", a.join(", ")), format!("<{}>", b.join(", ")))
}

fn flatten(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            flatten(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            let mut v = pre.clone();
            v.push(n.ident.to_string());
            out.push((v, None));
        }
        UseTree::Rename(n) => {
            let mut v = pre.clone();
            v.push(n.ident.to_string());
            out.push((v, Some(n.rename.to_string())));
        }
        UseTree::Glob(_) => {
            let mut v = pre.clone();
            v.push("*".into());
            out.push((v, None));
        }
        UseTree::Group(g) => {
            for t in &g.items {
                flatten(t, pre, out);
            }
        }
    }
}

#[derive(Default)]
struct SerdeAttr {
    tag: Option<String>,
    rename: Option<String>,
    alias: Vec<String>,
    default: Option<String>,
    bare_default: bool,
    other: Vec<String>,
}
impl SerdeAttr {
    fn names(&self, own: &str) -> Vec<String> {
        let mut o = vec![self.rename.clone().unwrap_or(own.to_string())];
        for a in &self.alias {
            if !o.contains(a) {
                o.push(a.clone());
            }
        }
        o
    }
}
fn derives(attrs: &[Attribute], what: &str) -> bool {
    attrs.iter().filter(|a| a.path().is_ident("derive")).any(|a| {
        a.parse_args_with(punctuated::Punctuated::<Path, Token![,]>::parse_terminated)
            .is_ok_and(|ps| ps.iter().any(|p| p.segments.last().unwrap().ident == what))
    })
}
fn first_line(s: &str) -> String {
    s.lines().next().unwrap_or("").chars().take(100).collect()
}

/// Collects the leading part of paths with at least two segments.
struct PathVisitor {
    found: Vec<(usize, usize)>,
}
impl<'ast> Visit<'ast> for PathVisitor {
    fn visit_path(&mut self, p: &'ast Path) {
        path_prefix(p, &mut self.found);
        visit::visit_path(self, p);
    }
    fn visit_attribute(&mut self, _: &'ast Attribute) {}
    fn visit_visibility(&mut self, _: &'ast Visibility) {}
    fn visit_impl_item_fn(&mut self, _: &'ast ImplItemFn) {}
    fn visit_trait_item_fn(&mut self, _: &'ast TraitItemFn) {}
}
fn path_prefix(p: &Path, found: &mut Vec<(usize, usize)>) {
    if p.segments.len() >= 2 && p.leading_colon.is_none() {
        // plain identifier segments from the start
        let s = rng(p.segments[0].ident.span()).0;
        let mut e = rng(p.segments[0].ident.span()).1;
        for seg in p.segments.iter().skip(1) {
            if !p.segments[0].arguments.is_empty() {
                break;
            }
            e = rng(seg.ident.span()).1;
            if !seg.arguments.is_empty() {
                break;
            }
        }
        found.push((s, e));
    }
}

/// Is this certainly a string?
fn stringy(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, Lit::Str(_)),
        Expr::Reference(r) => stringy(&r.expr),
        Expr::Paren(p) => stringy(&p.expr),
        Expr::Macro(m) => m.mac.path.is_ident("format"),
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "to_string" | "as_str"),
        Expr::Binary(b) => matches!(b.op, BinOp::Add(_)) && (stringy(&b.left) || stringy(&b.right)),
        _ => false,
    }
}
struct BreakFinder {
    depth: usize,
    found: bool,
}
impl<'ast> Visit<'ast> for BreakFinder {
    fn visit_expr_loop(&mut self, l: &'ast ExprLoop) {
        self.depth += 1;
        visit::visit_expr_loop(self, l);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, l: &'ast ExprWhile) {
        self.depth += 1;
        visit::visit_expr_while(self, l);
        self.depth -= 1;
    }
    fn visit_expr_for_loop(&mut self, l: &'ast ExprForLoop) {
        self.depth += 1;
        visit::visit_expr_for_loop(self, l);
        self.depth -= 1;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_expr_break(&mut self, b: &'ast ExprBreak) {
        if self.depth == 1 && b.expr.is_some() {
            self.found = true;
        }
        visit::visit_expr_break(self, b);
    }
}

impl<'a, 'ast> Visit<'ast> for X<'a> {
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        let attrs: &[Attribute] = match s {
            Stmt::Local(l) => &l.attrs,
            Stmt::Macro(m) => &m.attrs,
            Stmt::Expr(e, _) => expr_attrs(e),
            Stmt::Item(i) => Self::item_attrs(i),
        };
        if !self.cfg_ok(attrs) {
            self.del(s.span(), "R1", "statement with false cfg");
            return;
        }
        let dropped = matches!(s, Stmt::Macro(m) if TRACE_MACROS.contains(&m.mac.path.segments.last().unwrap().ident.to_string().as_str()));
        for a in attrs {
            let (x, y) = rng(a.span());
            if a.path().is_ident("cfg") {
                self.note("R1", x, "cfg evaluated true");
            }
            if !dropped {
                self.rep(x, y, "");
            }
        }
        let (a, b) = rng(s.span());
        let semi = match s {
            Stmt::Local(_) | Stmt::Macro(_) => true,
            Stmt::Expr(_, semi) => semi.is_some() || matches!(s, Stmt::Expr(Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::ForLoop(_), _)),
            _ => false,
        };
        let bound = match s {
            Stmt::Local(Local { pat, init: Some(i), .. }) => {
                let pat = match pat { Pat::Type(t) => &*t.pat, p => p };
                match pat { Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none() => { let (x, y) = rng(i.expr.span()); Some((x, y, p.ident.to_string())) } _ => None }
            }
            _ => None,
        };
        self.stmt_stack.push((a, b, semi, bound));
        match s {
            Stmt::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                let sp = rng(m.span());
                let _ = sp;
                if TRACE_MACROS.contains(&name.as_str()) {
                    self.handle_macro(&m.mac, m.span(), true);
                } else {
                    self.stmt_macro = true;
                    self.handle_macro(&m.mac, m.mac.span(), false);
                    self.stmt_macro = false;
                }
            }
            Stmt::Item(Item::Use(u)) => self.item_use(u),
            Stmt::Item(i) => {
                self.lost(format!("nested item: {}", first_line(self.text(i.span()))));
            }
            _ => visit::visit_stmt(self, s),
        }
        self.stmt_stack.pop();
    }
    fn visit_attribute(&mut self, _: &'ast Attribute) {}
    fn visit_expr_macro(&mut self, m: &'ast ExprMacro) {
        self.handle_macro(&m.mac, m.span(), false);
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let n = p.path.segments.last().unwrap().ident.to_string();
            self.hint_call(&n, c.span());
            if self.text(p.span()) == "tokio::spawn" && c.args.len() == 1 && self.spawned(c, &c.args[0]) {
                return;
            }
        }
        for a in &c.args {
            self.ctor_arg(a);
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_binary(&mut self, b: &'ast ExprBinary) {
        match b.op {
            BinOp::Add(_) if stringy(&b.left) || stringy(&b.right) => {
                // R31: `+` of strings is a call
                let (s, e) = rng(b.span());
                let (os, oe) = rng(b.op.span());
                self.note("R31", s, "`+` of strings written as a call");
                self.ins(s, -6, "crate::fmtp::concat(");
                self.rep(os, oe, ",");
                self.ins(e, -6, ")");
            }
            BinOp::AddAssign(_) if stringy(&b.right) => {
                let (s, e) = rng(b.span());
                let (os, oe) = rng(b.op.span());
                self.note("R31", s, "`+=` of strings written as a call");
                self.ins(s, -6, "crate::fmtp::append(&mut ");
                self.rep(os, oe, ",");
                self.ins(e, -6, ")");
            }
            _ => (),
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_lit(&mut self, l: &'ast ExprLit) {
        if let Lit::ByteStr(b) = &l.lit {
            // R32: a byte string literal is a reference to an array (the verifier does not look into literals)
            let v = b.value();
            if (1..=16).contains(&v.len()) {
                let (s, e) = rng(l.span());
                self.note("R32", s, "byte string literal written as an array");
                let bytes: Vec<String> = v.iter().map(|b| format!("{b}u8")).collect();
                self.rep(s, e, format!("(&[{}])", bytes.join(", ")));
            }
        }
    }
    fn visit_expr_await(&mut self, e: &'ast ExprAwait) {
        if self.cancel {
            match self.dropped_call(&e.base) {
                Some(d) => {
                    let (s, end) = rng(e.span());
                    self.ins(s, -4, format!("({{ if crate::fmtp::stop() {{ {d} *__cut = true; return crate::fmtp::arbitrary(); }} "));
                    self.ins(end, -2, " })");
                }
                None => self.lost("await of something that is not a call"),
            }
        }
        visit::visit_expr_await(self, e);
    }
    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
        let r = self.text(c.receiver.span()).to_string();
        if self.io_params.contains(&r) && matches!(&*c.receiver, Expr::Path(_)) {
            // R21: methods of AsyncReadExt/AsyncWriteExt on a value of a type parameter are called as functions
            let (s, _) = rng(c.receiver.span());
            let (_, e) = rng(c.paren_token.span.open());
            self.note("R21", s, format!("{} called as a function", c.method));
            self.rep(s, e, format!("crate::tokio::io::{}({r}{}", c.method, if c.args.is_empty() { "" } else { ", " }));
        }
        if c.method == "spawn" && c.args.len() == 1 {
            // R24: a task started in a `JoinSet` by calling an async function: its arguments are kept as ghost values
            match &c.args[0] {
                Expr::Call(f) if matches!(&*f.func, Expr::Path(_)) && f.args.len() == 1 && matches!(&f.args[0], Expr::Path(_)) => {
                    let (s, _) = rng(f.span());
                    let a = self.text(f.args[0].span()).to_string();
                    self.note("R24", s, "the argument of a spawned task is recorded as a ghost value");
                    self.ins(s, 0, format!("Ghost({a}), "));
                }
                _ => self.lost("spawn of something that is not the call of a function with a variable"),
            }
        }
        for a in &c.args {
            self.ctor_arg(a);
        }
        visit::visit_expr_method_call(self, c);
        self.hint_call(&c.method.to_string(), c.span());
    }
    fn visit_expr_loop(&mut self, l: &'ast ExprLoop) {
        let whole = rng(l.span());
        let mut bf = BreakFinder { depth: 0, found: false };
        bf.visit_expr_loop(l);
        let open = rng(l.body.brace_token.span.open());
        let close = rng(l.body.brace_token.span.close()).0;
        self.loop_value = bf.found && self.tail_loop != Some(whole);
        let n = self.loop_spec("loop", open.0, open.1, close, whole);
        let mode = if bf.found {
            if self.tail_loop == Some(whole) {
                self.note("R10", whole.0, "break-with-value of a function's tail loop written as return");
                Brk::Ret
            } else {
                self.note("R10", whole.0, "loop with break-with-value: value carried in a variable");
                self.ins(whole.0, 3, format!("{{ let __brk{n}; "));
                self.ins(whole.1, -3, format!(" __brk{n} }}"));
                Brk::Var(n)
            }
        } else {
            Brk::Plain
        };
        self.loop_stack.push(mode);
        visit::visit_expr_loop(self, l);
        self.loop_stack.pop();
    }
    fn visit_expr_while(&mut self, l: &'ast ExprWhile) {
        let open = rng(l.body.brace_token.span.open());
        let close = rng(l.body.brace_token.span.close()).0;
        let kind = self.cur_spec().and_then(|f| f.loops.get(&self.nloops).map(|l| l.kind.clone())).unwrap_or_default();
        let from_iter = match &*l.cond {
            Expr::Let(c) => match (&*c.pat, &*c.expr) {
                (Pat::TupleStruct(p), Expr::MethodCall(m)) if p.path.is_ident("Some") && p.elems.len() == 1 && m.method == "next" && m.args.is_empty() => match &*m.receiver {
                    Expr::Path(q) if q.path.get_ident().is_some() => Some((self.text(p.elems[0].span()).to_string(), self.text(q.span()).to_string())),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        };
        if let (true, Some((pat, it))) = (kind == "forx", from_iter) {
            // R14: the same loop without the `for`
            let n = self.nloops;
            let (ws, _) = rng(l.while_token.span);
            self.note("R14", ws, "while loop over an iterator's `next`");
            if let Some(k) = self.fnidx {
                let from = format!("__it{n}");
                if let Some(sp) = self.spec.fns[k].loops.get_mut(&n) {
                    for b in sp.spec.iter_mut().chain(&mut sp.start).chain(&mut sp.end) { b.text = rename_ident(&b.text, &from, &it); }
                }
            }
            self.rep(ws, open.0, "loop ");
            self.loop_spec("forx", open.0, open.1, close, rng(l.span()));
            self.ins(open.1, 1, format!("\nlet {pat} = match {it}.next() {{ Some(__x) => __x, None => break }};\n"));
            self.loop_stack.push(Brk::Plain);
            self.visit_block(&l.body);
            self.loop_stack.pop();
            return;
        }
        if kind == "loop" {
            // R26: `while C { B }` is, by definition, `loop { if C { B } else { break; } }`
            let (ws, we) = rng(l.while_token.span);
            let at = rng(l.cond.span()).0;
            self.note("R26", ws, "while loop written as the loop it stands for");
            self.rep(ws, we, "loop");
            self.loop_value = false;
            self.loop_spec("loop", at, open.1, close, rng(l.span()));
            self.ins(at, 8, "{ if ");
            self.ins(close + 1, -6, " else { break; } }");
        } else {
            self.loop_spec("while", open.0, open.1, close, rng(l.span()));
        }
        self.visit_expr(&l.cond);
        self.loop_stack.push(Brk::Plain);
        self.visit_block(&l.body);
        self.loop_stack.pop();
    }
    fn visit_expr_for_loop(&mut self, l: &'ast ExprForLoop) {
        let open = rng(l.body.brace_token.span.open());
        let close = rng(l.body.brace_token.span.close()).0;
        let forx = self.cur_spec().map_or(false, |f| f.loops.get(&self.nloops).map_or(false, |l| l.kind == "forx"));
        if forx {
            // R14: `for P in E { B }` is, by definition, a loop over the iterator's `next`
            let n = self.nloops;
            let whole = rng(l.span());
            let (es, ee) = rng(l.expr.span());
            let (fs, _) = rng(l.for_token.span);
            self.note("R14", fs, "for loop written as the loop over the iterator's `next` that it stands for");
            let pat = self.text(l.pat.span()).to_string();
            self.rep(fs, es, format!("{{ let mut __it{n} = ("));
            self.ins(ee, 1, ").into_iter(); loop ");
            self.loop_spec("forx", open.0, open.1, close, whole);
            self.ins(open.1, 1, format!("\nlet {pat} = match __it{n}.next() {{ Some(__x) => __x, None => break }};\n"));
            self.ins(whole.1, -5, "}");
            self.visit_expr(&l.expr);
            self.loop_stack.push(Brk::Plain);
            self.visit_block(&l.body);
            self.loop_stack.pop();
            return;
        }
        let n = self.loop_spec("for", open.0, open.1, close, rng(l.span()));
        let (es, _) = rng(l.expr.span());
        self.ins(es, 0, format!("__it{n}: "));
        self.visit_expr(&l.expr);
        self.loop_stack.push(Brk::Plain);
        self.visit_block(&l.body);
        self.loop_stack.pop();
    }
    fn visit_expr_break(&mut self, b: &'ast ExprBreak) {
        if let Some(e) = &b.expr {
            let (s, _) = rng(b.break_token.span);
            let (es, ee) = rng(e.span());
            match self.loop_stack.last() {
                Some(Brk::Ret) => self.rep(s, es, "return "),
                Some(Brk::Var(n)) => {
                    let n = *n;
                    self.rep(s, es, format!("{{ __brk{n} = "));
                    self.ins(ee, 4, "; break; }");
                }
                _ => self.lost("break with value in an unexpected place"),
            }
        }
        visit::visit_expr_break(self, b);
    }
    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
        let n = self.nclosures;
        self.nclosures += 1;
        let params = self.closure_params(c);
        let lets: String = params.iter().filter_map(|p| p.2.clone()).collect();
        let (s, _) = rng(c.or1_token.span);
        let (bs, be) = rng(c.body.span());
        let block = matches!(&*c.body, Expr::Block(_));
        let spec = self.cur_spec().and_then(|fs| fs.closures.get(&n).cloned()).and_then(|b| self.closure_names(&b, c));
        if let Some(b) = spec {
            let key = self.fnkey.clone();
            let t = self.block("closure", &b, &key);
            self.note("R11", s, "closure given parameter types and a contract");
            if lets.is_empty() && block && matches!(c.output, ReturnType::Default) {
                self.rep(s, bs, format!("{t} "));
            } else {
                self.rep(s, bs, format!("{t} {{ {lets}"));
                self.ins(be, -4, " }");
            }
        } else if (!lets.is_empty() || c.inputs.iter().any(|p| matches!(p, Pat::Wild(_)))) && matches!(c.output, ReturnType::Default) {
            self.note("R11", s, "pattern of a closure parameter taken apart in its body");
            let ps = params.iter().map(|p| match &p.1 { Some(t) => format!("{}: {t}", p.0), None => p.0.clone() }).collect::<Vec<_>>().join(", ");
            self.rep(s, bs, format!("|{ps}| {{ {lets}"));
            self.ins(be, -4, " }");
        }
        self.loop_stack.push(Brk::Barrier);
        // only the body is visited: the header may have been replaced
        self.visit_expr(&c.body);
        self.loop_stack.pop();
    }
    fn visit_path(&mut self, p: &'ast Path) {
        let mut v = vec![];
        path_prefix(p, &mut v);
        for (s, e) in v {
            let t = self.src[s..e].to_string();
            let n = self.subst_path(&t);
            if n != t {
                self.rep(s, e, n);
            }
        }
        visit::visit_path(self, p);
    }
}

impl<'a> X<'a> {
    /// The text of a type, with the paths as they are in the result.
    fn norm_ty(&self, t: &Type) -> String {
        struct P(Vec<(usize, usize)>);
        impl<'a> Visit<'a> for P { fn visit_path(&mut self, p: &'a Path) { path_prefix(p, &mut self.0); visit::visit_path(self, p) } }
        let mut p = P(vec![]);
        p.visit_type(t);
        let (a, b) = rng(t.span());
        let mut out = String::new();
        let mut pos = a;
        p.0.sort();
        for (s, e) in p.0 {
            if s < pos { continue }
            out.push_str(&self.src[pos..s]);
            out.push_str(&self.subst_path(&self.src[s..e]));
            pos = e;
        }
        out.push_str(&self.src[pos..b]);
        out.split_whitespace().collect::<Vec<_>>().join(" ")
    }
    /// R12: a tuple variant constructor passed as a function value becomes a closure with the obvious contract.
    fn ctor_arg(&mut self, a: &Expr) {
        let Expr::Path(p) = a else { return };
        if p.path.segments.len() != 2 {
            return;
        }
        let e0 = p.path.segments[0].ident.to_string();
        let v0 = p.path.segments[1].ident.to_string();
        let en = if e0 == "Self" { self.self_ty.clone().unwrap_or_default() } else { e0 };
        let Some(e) = self.enums.get(&en).cloned() else { return };
        let Some(v) = e.variants.iter().find(|v| v.ident == v0) else { return };
        if let Fields::Unnamed(f) = &v.fields {
            if f.unnamed.len() == 1 && e.generics.params.is_empty() {
                let ty = self.norm_ty(&f.unnamed[0].ty);
                let (s, ee) = rng(a.span());
                self.note("R12", s, "enum constructor used as a function value written as a closure");
                self.rep(s, ee, format!("|__x: {ty}| -> (__r: {en}) ensures __r == {en}::{v0}(__x) {{ {en}::{v0}(__x) }}"));
            }
        }
    }
}

fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::MethodCall(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        Expr::Block(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        _ => &[],
    }
}

//! R25: a call of a function of the same file that has no contract is replaced by the function's body.
//!
//! The parameters become local variables, an early exit becomes the value of the enclosing expression. What cannot be
//! replaced faithfully by these rules is left as a call (about whose result nothing is then known).
use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::{spanned::Spanned, visit::Visit, *};

#[derive(Clone)]
struct Helper {
    key: String,
    /// the type it is a method or associated function of, and that type's generics
    ty: Option<(Type, String, Generics)>,
    sig: Signature,
    body: Block,
    span: (usize, usize),
    private: bool,
}

fn range(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}
fn text(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string()
}
fn type_name(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}
fn plain_attrs(a: &[Attribute]) -> bool {
    a.iter().all(|a| ["doc", "inline", "must_use", "allow", "instrument"].iter().any(|n| a.path().is_ident(n)) || a.path().segments.last().map_or(false, |s| s.ident == "main"))
}
fn mentions(ts: TokenStream, name: &str) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Group(g) => mentions(g.stream(), name),
        TokenTree::Ident(i) => i == name,
        _ => false,
    })
}
/// `name` called or written as a path: not merely a local of that name.
fn calls(ts: TokenStream, name: &str) -> bool {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let punct = |n: Option<usize>, c: &str| matches!(n.and_then(|n| v.get(n)), Some(TokenTree::Punct(p)) if c.contains(p.as_char()));
    v.iter().enumerate().any(|(n, t)| match t {
        TokenTree::Group(g) => calls(g.stream(), name),
        TokenTree::Ident(i) if i == name => {
            matches!(v.get(n + 1), Some(TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis)
                || punct(n.checked_sub(1), ":") && punct(n.checked_sub(2), ":") || punct(Some(n + 1), ":") && punct(Some(n + 2), ":")
        }
        _ => false,
    })
}
fn map_idents(ts: TokenStream, f: &mut dyn FnMut(&Ident, bool, bool) -> Option<TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let colon = |t: Option<&TokenTree>| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == ':');
    let mut out = TokenStream::new();
    for (n, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                let mut h = Group::new(g.delimiter(), map_idents(g.stream(), f));
                h.set_span(g.span());
                out.extend([TokenTree::Group(h)]);
            }
            TokenTree::Ident(i) => {
                let path = colon(v.get(n + 1)) && colon(v.get(n + 2));
                let lifetime = n > 0 && matches!(&v[n - 1], TokenTree::Punct(p) if p.as_char() == '\'');
                match f(i, path, lifetime) {
                    Some(t) => out.extend(t),
                    None => out.extend([TokenTree::Ident(i.clone())]),
                }
            }
            t => out.extend([t.clone()]),
        }
    }
    out
}
/// A type as it can be written on a local variable: lifetimes and type parameters are left to inference.
fn local_type(t: &Type, gs: &[&Generics]) -> Option<String> {
    struct I(bool);
    impl<'a> Visit<'a> for I {
        fn visit_type_impl_trait(&mut self, _: &'a TypeImplTrait) { self.0 = true; }
    }
    let mut i = I(false);
    i.visit_type(t);
    if i.0 { return None; }
    let params: Vec<String> = gs.iter().flat_map(|g| g.type_params()).map(|p| p.ident.to_string()).collect();
    let ts = map_idents(t.to_token_stream(), &mut |i, _, life| {
        if life { (i != "static").then(|| "_".parse().unwrap()) } else { params.contains(&i.to_string()).then(|| "_".parse().unwrap()) }
    });
    Some(ts.to_string())
}

/// `&self.a.b` and the like: the first name and the place.
fn place_of(e: &Expr) -> Option<(String, String)> {
    let Expr::Reference(r) = e else { return None };
    let mut p = &*r.expr;
    let mut fields = 0;
    loop {
        match p {
            Expr::Field(f) => { fields += 1; p = &f.base }
            Expr::Path(q) if fields > 0 => return q.path.get_ident().map(|i| (i.to_string(), text(&r.expr))),
            _ => return None,
        }
    }
}
fn binds(b: &Block, name: &str) -> bool {
    struct N<'b>(&'b str, bool);
    impl<'a, 'b> Visit<'a> for N<'b> {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) { if p.ident == self.0 { self.1 = true } visit::visit_pat_ident(self, p) }
        fn visit_field_value(&mut self, f: &'a FieldValue) { if f.colon_token.is_none() && matches!(&f.member, Member::Named(n) if n == self.0) { self.1 = true } visit::visit_field_value(self, f) }
        fn visit_macro(&mut self, m: &'a Macro) { if mentions(m.tokens.clone(), self.0) { self.1 = true } }
    }
    let mut n = N(name, false);
    n.visit_block(b);
    n.1
}
/// The variable of that name, which is a reference, replaced by the place it refers to.
fn put_place(ts: TokenStream, name: &str, place: &str, refd: &str) -> Option<TokenStream> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let is = |t: Option<&TokenTree>, c: char| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c);
    let mut out = TokenStream::new();
    for (n, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), put_place(g.stream(), name, place, refd)?))]),
            TokenTree::Ident(i) if i == name && !(n > 0 && is(v.get(n - 1), '.')) && !is(v.get(n + 1), ':') => {
                let text = if is(v.get(n + 1), '.') && !is(v.get(n + 2), '.') { place.to_string() } else { format!("({refd})") };
                out.extend(text.parse::<TokenStream>().ok()?);
            }
            t => out.extend([t.clone()]),
        }
    }
    Some(out)
}

/// Does control leave the function from inside?
struct Exits { found: bool, esc: bool }
impl<'a> Visit<'a> for Exits {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        if self.esc && r.expr.as_deref().map_or(false, failing) { return; }
        self.found = true;
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        if !self.esc { self.found = true; }
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'a ExprAsync) {}
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_macro(&mut self, m: &'a Macro) {
        if mentions(m.tokens.clone(), "return") || m.tokens.clone().to_string().contains('?') && !m.path.segments.last().map_or(false, |s| ["trace", "debug", "info", "warn", "error"].iter().any(|n| s.ident == n)) {
            self.found = true;
        }
    }
}
fn failing(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.is_ident("None"),
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")),
        _ => false,
    }
}
fn pat_names(p: &Pat) -> Vec<String> {
    struct N(Vec<String>);
    impl<'a> Visit<'a> for N { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push(p.ident.to_string()); visit::visit_pat_ident(self, p) } }
    let mut n = N(vec![]);
    n.visit_pat(p);
    n.0
}
#[derive(Clone, Copy, PartialEq)]
enum Ret { Option, Result, Other }
struct Low { esc: bool, ret: Ret }
impl Low {
    fn exits_expr(&self, e: &Expr) -> bool { let mut x = Exits { found: false, esc: self.esc }; x.visit_expr(e); x.found }
    fn exits(&self, s: &Stmt) -> bool { let mut x = Exits { found: false, esc: self.esc }; x.visit_stmt(s); x.found }
    fn any(&self, s: &[Stmt]) -> bool { s.iter().any(|s| self.exits(s)) }
    /// Ends in every case by leaving the function.
    fn diverges(&self, s: &[Stmt]) -> bool {
        match s.last() {
            Some(Stmt::Expr(Expr::Return(_), _)) => true,
            Some(Stmt::Expr(Expr::If(i), _)) => self.diverges(&i.then_branch.stmts) && match &i.else_branch {
                Some((_, e)) => match &**e { Expr::Block(b) => self.diverges(&b.block.stmts), Expr::If(_) => self.diverges(&[Stmt::Expr((**e).clone(), None)]), _ => false },
                None => false,
            },
            Some(Stmt::Expr(Expr::Match(m), _)) => !m.arms.is_empty() && m.arms.iter().all(|a| match &*a.body { Expr::Block(b) => self.diverges(&b.block.stmts), Expr::Return(_) => true, _ => false }),
            Some(Stmt::Expr(Expr::Block(b), _)) => self.diverges(&b.block.stmts),
            _ => false,
        }
    }
    fn stmts(b: &Expr) -> Vec<Stmt> {
        match b {
            Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => b.block.stmts.clone(),
            e => vec![Stmt::Expr(e.clone(), None)],
        }
    }
    /// One way through, followed by the rest (which a way that leaves does not reach).
    fn branch(&self, mut way: Vec<Stmt>, rest: &[Stmt]) -> Option<String> {
        if self.diverges(&way) || rest.is_empty() {
            return self.seq(&way);
        }
        if way.iter().any(|s| matches!(s, Stmt::Local(_))) {
            if self.any(&way) {
                // names bound on the way must not reach the rest
                let bound: Vec<String> = way.iter().filter_map(|s| match s { Stmt::Local(l) => Some(pat_names(&l.pat)), _ => None }).flatten().collect();
                let after: TokenStream = rest.iter().map(|s| s.to_token_stream()).collect();
                if bound.iter().any(|b| mentions(after.clone(), b)) { return None; }
                if let Some(Stmt::Expr(_, semi)) = way.last_mut() {
                    if semi.is_none() { *semi = Some(Default::default()); }
                }
                way.extend(rest.iter().cloned());
                return self.seq(&way);
            }
            let w = way.iter().map(|s| text(s)).collect::<String>();
            return Some(format!("{{ {w} }} {}", self.seq(rest)?));
        }
        if let Some(Stmt::Expr(_, semi)) = way.last_mut() {
            if semi.is_none() { *semi = Some(Default::default()); }
        }
        way.extend(rest.iter().cloned());
        self.seq(&way)
    }
    /// The statements as text whose value is what the function returns.
    fn seq(&self, s: &[Stmt]) -> Option<String> {
        let Some(first) = s.first() else { return Some(String::new()) };
        let rest = &s[1..];
        if !self.any(s) {
            return Some(s.iter().map(|s| text(s)).collect::<Vec<_>>().join(" "));
        }
        if !self.exits(first) {
            return Some(format!("{} {}", text(first), self.seq(rest)?));
        }
        match first {
            Stmt::Expr(Expr::Return(r), _) => match &r.expr {
                Some(e) => self.seq(&Self::stmts(e)),
                None => Some("()".into()),
            },
            Stmt::Expr(Expr::If(i), _) if !self.exits_expr(&i.cond) => {
                let a = self.branch(i.then_branch.stmts.clone(), rest)?;
                let b = match &i.else_branch {
                    Some((_, e)) => self.branch(Self::stmts(e), rest)?,
                    None => self.seq(rest)?,
                };
                Some(format!("if {} {{ {a} }} else {{ {b} }}", text(&i.cond)))
            }
            Stmt::Expr(Expr::Match(m), _) if !self.exits_expr(&m.expr) => {
                let mut arms = String::new();
                let mut copies = 0;
                for a in &m.arms {
                    let way = Self::stmts(&a.body);
                    if !self.diverges(&way) && !rest.is_empty() { copies += 1; }
                    let g = a.guard.as_ref().map_or(String::new(), |(_, g)| format!("if {}", text(g)));
                    arms += &format!("{} {g} => {{ {} }} ", text(&a.pat), self.branch(way, rest)?);
                }
                if copies > 2 { return None; }
                Some(format!("match {} {{ {arms} }}", text(&m.expr)))
            }
            Stmt::Expr(Expr::Block(b), _) if b.label.is_none() => self.branch(b.block.stmts.clone(), rest),
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                match (&init.diverge, &*init.expr) {
                    (Some((_, d)), e) if !self.exits_expr(e) => {
                        let Expr::Block(d) = &**d else { return None };
                        if !self.diverges(&d.block.stmts) { return None; }
                        Some(format!("match {} {{ {} => {{ {} }} _ => {{ {} }} }}", text(e), text(&l.pat), self.seq(rest)?, self.seq(&d.block.stmts)?))
                    }
                    (None, Expr::Try(t)) if !self.exits_expr(&t.expr) => self.tried(&t.expr, &text(&l.pat), rest),
                    (None, Expr::Match(m)) if !self.exits_expr(&m.expr) => {
                        // `let p = match e { A => value, B => return x };`
                        let mut arms = String::new();
                        let mut through = 0;
                        for a in &m.arms {
                            let way = Self::stmts(&a.body);
                            let g = a.guard.as_ref().map_or(String::new(), |(_, g)| format!("if {}", text(g)));
                            let t = if self.diverges(&way) { self.seq(&way)? } else {
                                if self.any(&way) { return None; }
                                through += 1;
                                format!("let {} = {}; {}", text(&l.pat), text(&a.body), self.seq(rest)?)
                            };
                            arms += &format!("{} {g} => {{ {t} }} ", text(&a.pat));
                        }
                        if through > 2 { return None; }
                        Some(format!("match {} {{ {arms} }}", text(&m.expr)))
                    }
                    _ => None,
                }
            }
            Stmt::Expr(Expr::Try(t), Some(_)) if !self.exits_expr(&t.expr) => self.tried(&t.expr, "_", rest),
            Stmt::Expr(Expr::Call(c), None) if rest.is_empty() && self.ret == Ret::Result && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) && c.args.len() == 1 => match &c.args[0] {
                // `Ok(e?)`
                Expr::Try(t) if !self.exits_expr(&t.expr) => Some(format!("match {} {{ Ok(__v) => Ok(__v), Err(__e) => Err(core::convert::From::from(__e)) }}", text(&t.expr))),
                _ => None,
            },
            _ => None,
        }
    }
    fn tried(&self, e: &Expr, pat: &str, rest: &[Stmt]) -> Option<String> {
        let rest = self.seq(rest)?;
        match self.ret {
            Ret::Option => Some(format!("match {} {{ Some({pat}) => {{ {rest} }} None => None }}", text(e))),
            Ret::Result => Some(format!("match {} {{ Ok({pat}) => {{ {rest} }} Err(__e) => Err(core::convert::From::from(__e)) }}", text(e))),
            Ret::Other => None,
        }
    }
}

/// Finds the first call that can be replaced.
struct Site<'a> {
    helpers: &'a BTreeMap<String, Helper>,
    fields: &'a BTreeMap<String, BTreeMap<String, Type>>,
    self_ty: Option<String>,
    caller: Option<(String, String)>,
    n: usize,
    by_ref: BTreeSet<String>,
    /// expressions whose value the current function returns as it is
    tails: BTreeSet<(usize, usize)>,
    edit: Option<(usize, usize, String, String)>,
}
fn tails(e: &Expr, out: &mut BTreeSet<(usize, usize)>) {
    out.insert(range(e.span()));
    match e {
        Expr::Block(b) if b.label.is_none() => tail_block(&b.block, out),
        Expr::If(i) => {
            tail_block(&i.then_branch, out);
            if let Some((_, e)) = &i.else_branch { tails(e, out) }
        }
        Expr::Match(m) => m.arms.iter().for_each(|a| tails(&a.body, out)),
        _ => (),
    }
}
fn tail_block(b: &Block, out: &mut BTreeSet<(usize, usize)>) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last() { tails(e, out) }
}
fn error_of(ret: &str) -> String {
    // the error type of a result, or nothing for an option
    let t = ret.replace(' ', "");
    let Some(p) = t.find("Result<") else { return if t.contains("Option<") { "option".into() } else { "?".into() } };
    let mut depth = 0;
    for (i, c) in t[p..].char_indices() {
        match c {
            '<' | '(' | '[' => depth += 1,
            '>' | ')' | ']' => depth -= 1,
            ',' if depth == 1 => return t[p + i + 1..].trim_end_matches('>').into(),
            _ => (),
        }
    }
    "?".into()
}
impl<'a> Site<'a> {
    /// An expression that is not part of the tree being visited.
    fn detached(&mut self, e: &Expr) {
        self.visit_expr(&e.clone());
    }
    fn function(&mut self, key: String, sig: &Signature, body: &Block) {
        self.caller = Some((key, text(&sig.output)));
        self.by_ref = sig.inputs.iter().filter_map(|a| match a {
            FnArg::Typed(t) => match (&*t.pat, type_name(&t.ty)) {
                (Pat::Ident(i), Some(t)) if i.mutability.is_some() && sig.generics.type_params().any(|p| p.ident == t) => Some(i.ident.to_string()),
                _ => None,
            },
            _ => None,
        }).collect();
        self.tails.clear();
        tail_block(body, &mut self.tails);
        self.visit_block(body);
        self.caller = None;
    }
    /// `whole`: what is replaced; `tried`: it is followed by `?`; `stmt`: it is a statement of its own
    fn replace(&mut self, whole: (usize, usize), h: &Helper, recv: Option<&Expr>, args: Vec<Expr>, awaited: bool, tried: bool, stmt: bool) {
        let Some((ckey, cret)) = self.caller.clone() else { return };
        if ckey == h.key || h.sig.asyncness.is_some() != awaited { return }
        let takes_self = h.sig.receiver().is_some();
        if takes_self != recv.is_some() { return }
        let params: Vec<&PatType> = h.sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => Some(t), _ => None }).collect();
        if params.len() != args.len() { return }
        let hret = text(&h.sig.output);
        let ret = if hret.replace(' ', "").starts_with("->Option<") { Ret::Option } else if hret.contains("Result") { Ret::Result } else { Ret::Other };
        let same_self = h.ty.as_ref().map_or(true, |(_, n, _)| self.self_ty.as_deref() == Some(n));
        let is_tail = self.tails.contains(&whole) && hret == cret && (same_self || !hret.contains("Self"));
        let esc = tried && error_of(&hret) != "?" && error_of(&hret) == error_of(&cret);
        let low = Low { esc, ret };
        let mut body: Block = h.body.clone();
        let mut lets = String::new();
        let n = self.n;
        // the receiver
        let mut gens: Vec<&Generics> = vec![&h.sig.generics];
        if let Some((_, _, g)) = &h.ty { gens.push(g); }
        if let (Some(recv), Some(r)) = (recv, h.sig.receiver()) {
            let direct = matches!(recv, Expr::Path(p) if p.path.is_ident("self")) && same_self;
            if !direct {
                let Some((t, _, _)) = &h.ty else { return };
                let Some(t) = local_type(t, &gens) else { return };
                let v = format!("__r{n}");
                match (&r.reference, &r.mutability) {
                    (Some(_), None) => lets += &format!("let {v}: &{t} = &{}; ", text(recv)),
                    (Some(_), Some(_)) => lets += &format!("let {v}: &mut {t} = &mut {}; ", text(recv)),
                    (None, m) => lets += &format!("let {}{v}: {t} = {}; ", if m.is_some() { "mut " } else { "" }, text(recv)),
                }
                if r.colon_token.is_some() { return }
                let ts = map_idents(body.to_token_stream(), &mut |i, path, _| (i == "self" && !path).then(|| v.parse().unwrap()));
                let Ok(b) = parse2(ts) else { return };
                body = b;
            }
        }
        if !same_self {
            let Some((_, name, _)) = &h.ty else { return };
            let ts = map_idents(body.to_token_stream(), &mut |i, _, _| (i == "Self").then(|| name.parse().unwrap()));
            let Ok(b) = parse2(ts) else { return };
            body = b;
        }
        // the parameters
        let mut todo: Vec<(String, Option<String>, String, bool)> = vec![];
        for (p, a) in params.iter().zip(&args) {
            let (name, simple) = match &*p.pat {
                Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => (i.ident.to_string(), i.mutability.is_none()),
                _ => (String::new(), false),
            };
            if simple && matches!(a, Expr::Path(q) if q.path.is_ident(&name)) { continue }
            // a parameter that R20 turns into a reference of that kind
            if simple && self.by_ref.contains(&name) && matches!(a, Expr::Reference(r) if r.mutability.is_some() && matches!(&*r.expr, Expr::Path(q) if q.path.is_ident(&name))) { continue }
            // a reference to a place named by fields only: the place itself is used
            if let (true, Some((base, place)), Type::Reference(t)) = (simple, place_of(a), &*p.ty) {
                let named = matches!(&*t.elem, Type::Path(e) if !gens.iter().any(|g| g.type_params().any(|q| e.path.is_ident(&q.ident))) && !e.path.is_ident("str"));
                if named && !binds(&body, &name) && !binds(&body, &base) {
                    let refd = text(a);
                    if let Some(b) = put_place(body.to_token_stream(), &name, &place, &refd).and_then(|t| parse2(t).ok()) {
                        body = b;
                        continue;
                    }
                }
            }
            todo.push((text(&p.pat), local_type(&p.ty, &gens), text(a), true));
        }
        let clash = (0..todo.len()).any(|i| {
            let Ok(p) = syn::parse::Parser::parse_str(Pat::parse_single, &todo[i].0) else { return true };
            let mut names = vec![];
            struct N<'b>(&'b mut Vec<String>);
            impl<'a, 'b> Visit<'a> for N<'b> { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push(p.ident.to_string()); visit::visit_pat_ident(self, p) } }
            N(&mut names).visit_pat(&p);
            todo[i + 1..].iter().any(|t| names.iter().any(|n| mentions(t.2.parse().unwrap_or_default(), n)))
        });
        for (k, (p, t, a, _)) in todo.iter().enumerate() {
            let t = t.as_ref().map_or(String::new(), |t| format!(": {t}"));
            if clash { lets += &format!("let __a{n}_{k}{t} = {a}; "); } else { lets += &format!("let {p}{t} = {a}; "); }
        }
        if clash { for (k, (p, ..)) in todo.iter().enumerate() { lets += &format!("let {p} = __a{n}_{k}; "); } }
        // the body
        let leaves = low.any(&body.stmts);
        let inner_done = leaves && is_tail;
        let inner = if !leaves || is_tail { body.stmts.iter().map(|s| text(s)).collect::<Vec<_>>().join(" ") } else {
            match low.seq(&body.stmts) { Some(t) => t, None => return }
        };
        let inner = match &h.sig.output {
            // what `?` leaves open is settled by the type
            ReturnType::Type(_, t) if ret != Ret::Other && (tried || stmt) && !inner_done => match local_type(t, &gens) {
                Some(t) if same_self || !t.contains("Self") => format!("let __v{n}: {t} = {{ {inner} }}; __v{n}"),
                _ => inner,
            },
            _ => inner,
        };
        let new = if stmt { format!("{{ {lets}{inner} }}") } else { format!("({{ {lets}{inner} }})") };
        if parse_str::<Expr>(&new).is_err() { return }
        self.edit = Some((whole.0, whole.1, new, h.key.clone()));
    }
    fn call(&mut self, e: &Expr, whole: (usize, usize), awaited: bool, tried: bool, stmt: bool) {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return };
                if p.qself.is_some() || p.path.segments.iter().any(|s| !s.arguments.is_empty()) { return }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let key = match &segs[..] {
                    [f] => f.clone(),
                    [s, f] if s == "self" => f.clone(),
                    [s, f] if s == "Self" => match &self.self_ty { Some(t) => format!("{t}::{f}"), None => return },
                    [t, f] => format!("{t}::{f}"),
                    _ => return,
                };
                let Some(h) = self.helpers.get(&key) else { return };
                if h.sig.receiver().is_some() { return }
                self.replace(whole, h, None, c.args.iter().cloned().collect(), awaited, tried, stmt);
            }
            Expr::MethodCall(m) => {
                if m.turbofish.is_some() { return }
                let name = m.method.to_string();
                let found = match &*m.receiver {
                    Expr::Path(p) if p.path.is_ident("self") => self.self_ty.as_ref().and_then(|t| self.helpers.get(&format!("{t}::{name}"))),
                    Expr::Field(f) => match (&*f.base, &f.member, &self.self_ty) {
                        (Expr::Path(p), Member::Named(m), Some(t)) if p.path.is_ident("self") => self.fields.get(t).and_then(|f| f.get(&m.to_string())).and_then(type_name).and_then(|t| self.helpers.get(&format!("{t}::{name}"))),
                        _ => None,
                    },
                    // of another variable: the type written on the new variable makes sure that it is this method
                    Expr::Path(_) => {
                        let c: Vec<&Helper> = self.helpers.values().filter(|h| h.ty.is_some() && h.sig.ident == name).collect();
                        if c.len() == 1 { Some(c[0]) } else { None }
                    }
                    _ => None,
                };
                let Some(h) = found else { return };
                self.replace(whole, h, Some(&m.receiver), m.args.iter().cloned().collect(), awaited, tried, stmt);
            }
            _ => (),
        }
    }
}
impl<'a, 'ast> Visit<'ast> for Site<'a> {
    fn visit_item(&mut self, i: &'ast Item) {
        if self.edit.is_some() { return }
        match i {
            Item::Fn(f) if plain_attrs(&f.attrs) => self.function(f.sig.ident.to_string(), &f.sig, &f.block),
            Item::Impl(im) if plain_attrs(&im.attrs) => {
                self.self_ty = type_name(&im.self_ty);
                for x in &im.items {
                    if let (ImplItem::Fn(f), Some(t)) = (x, self.self_ty.clone()) {
                        if self.edit.is_none() && plain_attrs(&f.attrs) { self.function(format!("{t}::{}", f.sig.ident), &f.sig, &f.block) }
                    }
                }
                self.self_ty = None;
            }
            _ => (),
        }
    }
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        if self.edit.is_some() { return }
        if let Stmt::Expr(e, Some(_)) = s {
            // a statement of its own
            match e {
                Expr::Await(a) => self.call(&a.base, range(e.span()), true, false, true),
                e => self.call(e, range(e.span()), false, false, true),
            }
        }
        if self.edit.is_none() { visit::visit_stmt(self, s) }
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        if self.edit.is_some() { return }
        if let Expr::Return(r) = e {
            if let Some(x) = &r.expr { tails(x, &mut self.tails) }
        }
        if let Expr::Try(t) = e {
            match &*t.expr {
                Expr::Await(a) => self.call(&a.base, range(t.expr.span()), true, true, false),
                x => self.call(x, range(x.span()), false, true, false),
            }
        }
        if self.edit.is_some() { return }
        match e {
            Expr::Await(a) => self.call(&a.base, range(e.span()), true, false, false),
            Expr::Call(_) | Expr::MethodCall(_) => self.call(e, range(e.span()), false, false, false),
            _ => (),
        }
        if let Expr::MethodCall(m) = e {
            // the name of a helper given as an argument: a closure that calls it
            for a in &m.args {
                let Expr::Path(p) = a else { continue };
                let Some(f) = p.path.get_ident() else { continue };
                let Some(h) = self.helpers.get(&f.to_string()) else { continue };
                if self.edit.is_some() || h.ty.is_some() || h.sig.asyncness.is_some() { continue }
                let names: Option<Vec<String>> = h.sig.inputs.iter().map(|a| match a { FnArg::Typed(t) => match &*t.pat { Pat::Ident(i) if i.mutability.is_none() => Some(i.ident.to_string()), _ => None }, _ => None }).collect();
                let Some(names) = names else { continue };
                let l = names.join(", ");
                let (s, e) = range(a.span());
                self.edit = Some((s, e, format!("|{l}| {f}({l})"), h.key.clone()));
            }
        }
        if self.edit.is_none() { visit::visit_expr(self, e) }
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        if self.edit.is_some() || !m.path.segments.last().map_or(false, |s| ["format", "write", "assert", "assert_eq", "vec"].iter().any(|n| s.ident == n)) { return }
        let Ok(args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) else { return };
        for a in &args { if self.edit.is_none() { self.detached(a) } }
    }
    // inside a closure or an async block leaving means something else
    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
        let t = std::mem::take(&mut self.tails);
        let caller = self.caller.clone();
        if let Some(c) = &mut self.caller { c.1 = "closure".into(); }
        visit::visit_expr_closure(self, c);
        self.tails = t;
        self.caller = caller;
    }
    fn visit_expr_async(&mut self, _: &'ast ExprAsync) {}
}

/// Returns the new text, what was done (line, what), and the functions that are gone or have been inlined.
pub fn inline(mut src: String, contracted: &BTreeSet<String>) -> (String, Vec<(usize, String)>, Vec<String>) {
    let mut notes = vec![];
    let mut gone: BTreeSet<String> = BTreeSet::new();
    for n in 0..40 {
        let Ok(file) = parse_file(&src) else { break };
        let mut helpers = BTreeMap::new();
        let mut fields: BTreeMap<String, BTreeMap<String, Type>> = BTreeMap::new();
        for i in &file.items {
            match i {
                Item::Struct(s) => {
                    fields.insert(s.ident.to_string(), s.fields.iter().filter_map(|f| Some((f.ident.as_ref()?.to_string(), f.ty.clone()))).collect());
                }
                Item::Fn(f) if plain_attrs(&f.attrs) && f.sig.unsafety.is_none() => {
                    let key = f.sig.ident.to_string();
                    helpers.insert(key.clone(), Helper { key, ty: None, sig: f.sig.clone(), body: (*f.block).clone(), span: range(f.span()), private: matches!(f.vis, Visibility::Inherited) });
                }
                Item::Impl(im) if im.trait_.is_none() && plain_attrs(&im.attrs) => {
                    let Some(t) = type_name(&im.self_ty) else { continue };
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            if !plain_attrs(&f.attrs) { continue }
                            let key = format!("{t}::{}", f.sig.ident);
                            helpers.insert(key.clone(), Helper { key, ty: Some(((*im.self_ty).clone(), t.clone(), im.generics.clone())), sig: f.sig.clone(), body: f.block.clone(), span: range(f.span()), private: matches!(f.vis, Visibility::Inherited) });
                        }
                    }
                }
                _ => (),
            }
        }
        helpers.retain(|k, h| k != "main" && !contracted.contains(k) && !contracted.contains(&format!("*::{}", h.sig.ident)) && !calls(h.body.to_token_stream(), &h.sig.ident.to_string()));
        // what is no longer called goes
        let dead = helpers.values().find(|h| gone.contains(&h.key) && h.private && {
            // Debug and Display are not looked at (R5), neither are the tests
            let mut cut: Vec<(usize, usize)> = file.items.iter().filter(|i| match i {
                Item::Impl(im) => im.trait_.as_ref().map_or(false, |(_, t, _)| t.segments.last().map_or(false, |s| s.ident == "Debug" || s.ident == "Display")),
                Item::Mod(m) => m.ident == "tests",
                _ => false,
            }).map(|i| range(i.span())).collect();
            cut.push(h.span);
            cut.sort();
            let mut outside = String::new();
            let mut pos = 0;
            for (a, b) in cut { if a >= pos { outside += &src[pos..a]; pos = b; } }
            outside += &src[pos..];
            outside.parse::<TokenStream>().map_or(false, |t| !calls(t.clone(), &h.sig.ident.to_string()) && (h.ty.is_some() || !mentions(t, &h.sig.ident.to_string())))
        });
        if let Some(h) = dead {
            let lines = "\n".repeat(src[h.span.0..h.span.1].matches('\n').count());
            src = format!("{}{}{}", &src[..h.span.0], lines, &src[h.span.1..]);
            continue;
        }
        let mut s = Site { helpers: &helpers, fields: &fields, self_ty: None, caller: None, n, by_ref: BTreeSet::new(), tails: BTreeSet::new(), edit: None };
        s.visit_file(&file);
        let Some((a, b, new, key)) = s.edit else { break };
        notes.push((src[..a].matches('\n').count() + 1, format!("call of {key}, which has no contract, replaced by its body")));
        gone.insert(key);
        let lines = "\n".repeat(src[a..b].matches('\n').count());
        src = format!("{}{}{}{}", &src[..a], new, lines, &src[b..]);
    }
    (src, notes, gone.into_iter().collect())
}

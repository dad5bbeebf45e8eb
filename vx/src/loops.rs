//! Source-to-source rules for control flow that a contract does not expect in that form (R27 to R30).
//! None of them applies where the form is the one the contract was written for.
use crate::contracts::{FileSpec, FnSpec};
use quote::ToTokens;
use std::collections::BTreeSet;
use syn::{spanned::Spanned, visit::Visit, *};

fn range(s: proc_macro2::Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}
/// The loops of a body in the order in which they are numbered, and the closures.
#[derive(Default)]
struct Count { loops: Vec<(usize, usize)>, closures: usize, macros: bool }
impl<'a> Visit<'a> for Count {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => self.loops.push(range(e.span())),
            Expr::Closure(_) => self.closures += 1,
            _ => (),
        }
        visit::visit_expr(self, e);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if m.path.segments.last().map_or(false, |s| s.ident == "select") { self.macros = true }
    }
}
/// `break` and `continue` of the loop itself.
#[derive(Default)]
struct Own { breaks: Vec<(usize, usize, Option<(usize, usize)>)>, continues: Vec<(usize, usize)>, labels: bool, depth: usize }
impl<'a> Visit<'a> for Own {
    fn visit_expr_loop(&mut self, l: &'a ExprLoop) { self.labels |= l.label.is_some(); self.depth += 1; visit::visit_expr_loop(self, l); self.depth -= 1 }
    fn visit_expr_while(&mut self, l: &'a ExprWhile) { self.labels |= l.label.is_some(); self.depth += 1; visit::visit_expr_while(self, l); self.depth -= 1 }
    fn visit_expr_for_loop(&mut self, l: &'a ExprForLoop) { self.labels |= l.label.is_some(); self.depth += 1; visit::visit_expr_for_loop(self, l); self.depth -= 1 }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'a ExprAsync) {}
    fn visit_macro(&mut self, m: &'a Macro) {
        let t = m.tokens.to_string();
        if t.contains("break") || t.contains("continue") { self.labels = true }
    }
    fn visit_expr_break(&mut self, b: &'a ExprBreak) {
        self.labels |= b.label.is_some();
        if self.depth == 0 {
            let (s, e) = range(b.span());
            self.breaks.push((s, e, b.expr.as_ref().map(|x| range(x.span()))));
        }
        visit::visit_expr_break(self, b);
    }
    fn visit_expr_continue(&mut self, c: &'a ExprContinue) {
        self.labels |= c.label.is_some();
        if self.depth == 0 { self.continues.push(range(c.span())) }
    }
}

struct Site<'s> {
    spec: &'s FileSpec,
    src: &'s str,
    self_ty: Option<String>,
    edits: Option<(Vec<(usize, usize, String)>, usize, &'static str, String)>,
}
impl<'s> Site<'s> {
    fn t(&self, s: proc_macro2::Span) -> &'s str { let (a, b) = range(s); &self.src[a..b] }
    fn function(&mut self, key: &str, sig: &Signature, body: &Block) {
        let Some(f) = self.spec.fns.iter().find(|f| f.key == key) else { return };
        if f.assume.is_some() || f.drop.is_some() { return }
        let f = f.clone();
        self.rest(&f, sig, body);
        if self.edits.is_none() { self.recursion(&f, key, sig, body) }
        if self.edits.is_none() && sig.inputs.iter().any(|a| match a { FnArg::Receiver(r) => r.mutability.is_some(), FnArg::Typed(t) => matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()) }) {
            let mut g = Guards { src: self.src, edit: None };
            g.visit_block(body);
            if let Some((e, at)) = g.edit { self.edits = Some((e, at, "R29", "match arm with a guard written as an arm that tests it".into())) }
        }
    }
    /// R27: what follows a loop is moved to where the loop is left.
    fn rest(&mut self, f: &FnSpec, _sig: &Signature, body: &Block) {
        let mut c = Count::default();
        c.visit_block(body);
        if c.macros || c.loops.len() != f.loops.len() { return }
        for (i, s) in body.stmts.iter().enumerate() {
            let (e, pat) = match s {
                Stmt::Expr(e, _) => (e, None),
                Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: None, .. }), .. }) => (&**expr, Some(self.t(pat.span()))),
                _ => continue,
            };
            let (blk, is_while) = match e {
                Expr::Loop(l) if l.label.is_none() => (&l.body, None),
                Expr::While(l) if l.label.is_none() => (&l.body, Some(l)),
                _ => continue,
            };
            let at = range(e.span());
            let n = c.loops.iter().position(|l| *l == at).unwrap();
            let Some(l) = f.loops.get(&n) else { return };
            let text = l.spec.as_ref().map_or("", |b| &b.text);
            if l.kind != "loop" || text.contains("ensures") || text.contains("invariant_except_break") || !l.after.is_empty() { continue }
            let mut own = Own::default();
            own.visit_block(blk);
            if own.labels || (own.breaks.is_empty() && is_while.is_none()) { continue }
            let after = &body.stmts[i + 1..];
            if after.is_empty() && pat.is_none() && is_while.is_none() && own.breaks.iter().all(|b| b.2.is_some()) { continue }
            let mut k = Count::default();
            after.iter().for_each(|s| k.visit_stmt(s));
            if !k.loops.is_empty() || k.closures > 0 || own.breaks.len() > 4 { continue }
            let end = range(s.span()).1;
            let last = range(body.brace_token.span.close()).0;
            let rest = self.src[end..last].trim().to_string();
            let leave = |v: Option<(usize, usize)>| match (pat, v) {
                (Some(p), Some((a, b))) => format!("return {{ let {p} = {}; {rest} }}", &self.src[a..b]),
                (None, Some((a, b))) if rest.is_empty() => format!("return {}", &self.src[a..b]),
                _ => format!("return {{ {rest} }}"),
            };
            let mut ed: Vec<(usize, usize, String)> = own.breaks.iter().map(|b| (b.0, b.1, leave(b.2))).collect();
            match is_while {
                Some(w) => {
                    let (a, b) = range(w.while_token.span);
                    let at = range(w.cond.span()).0;
                    ed.push((a, b, "loop { if".into()));
                    let _ = at;
                    ed.push((range(blk.span()).1, end, format!(" else {{ {} }} }}", leave(None))));
                }
                None => {
                    ed.push((range(s.span()).0, at.0, String::new()));
                    ed.push((at.1, end, String::new()));
                }
            }
            ed.push((end, last, "\n".repeat(self.src[end..last].matches('\n').count())));
            self.edits = Some((ed, at.0, "R27", "what follows a loop moved to where the loop is left".into()));
            return;
        }
    }
    /// R28: a loop around the whole body is the recursion the contract was written for.
    fn recursion(&mut self, f: &FnSpec, key: &str, sig: &Signature, body: &Block) {
        if !f.loops.is_empty() || f.decreases.is_none() || sig.asyncness.is_some() { return }
        let mut c = Count::default();
        c.visit_block(body);
        if c.macros || c.loops.len() != 1 { return }
        let Some(Stmt::Expr(Expr::Loop(l), _)) = body.stmts.first() else { return };
        if l.label.is_some() { return }
        let mut own = Own::default();
        own.visit_block(&l.body);
        if own.labels { return }
        let after = &body.stmts[1..];
        let end = range(body.stmts[0].span()).1;
        let last = range(body.brace_token.span.close()).0;
        let rest = self.src[end..last].trim().to_string();
        if !after.is_empty() && own.breaks.is_empty() { return }
        let mut args = vec![];
        for a in &sig.inputs {
            match a {
                FnArg::Receiver(_) => (),
                FnArg::Typed(t) => match &*t.pat { Pat::Ident(i) if i.mutability.is_none() => args.push(i.ident.to_string()), _ => return },
            }
        }
        let name = key.rsplit("::").next().unwrap();
        let again = if sig.receiver().is_some() { format!("self.{name}({})", args.join(", ")) } else if self.self_ty.is_some() { format!("Self::{name}({})", args.join(", ")) } else { format!("{name}({})", args.join(", ")) };
        let mut ed = vec![];
        for b in &own.breaks {
            ed.push((b.0, b.1, match b.2 { Some((x, y)) if rest.is_empty() => format!("return {}", &self.src[x..y]), _ => format!("return {{ {rest} }}") }));
        }
        for c in &own.continues { ed.push((c.0, c.1, format!("return {again}"))) }
        let open = range(l.body.brace_token.span.open());
        ed.push((range(body.stmts[0].span()).0, open.1, String::new()));
        let close = range(l.body.brace_token.span.close()).0;
        let leaves = matches!(l.body.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
        ed.push((close, last, if leaves { String::new() } else { format!("; {again} ") }));
        self.edits = Some((ed, open.0, "R28", "loop around the whole body written as the recursion it stands for".into()));
    }
}
impl<'a, 's> Visit<'a> for Site<'s> {
    fn visit_item(&mut self, i: &'a Item) {
        if self.edits.is_some() { return }
        match i {
            Item::Fn(f) => self.function(&f.sig.ident.to_string(), &f.sig, &f.block),
            Item::Impl(im) => {
                let Type::Path(p) = &*im.self_ty else { return };
                let ty = p.path.segments.last().unwrap().ident.to_string();
                self.self_ty = Some(ty.clone());
                for x in &im.items {
                    let ImplItem::Fn(f) = x else { continue };
                    let key = match &im.trait_ {
                        Some((_, t, _)) => format!("<{ty} as {}>::{}", t.segments.last().unwrap().ident, f.sig.ident),
                        None => format!("{ty}::{}", f.sig.ident),
                    };
                    if self.edits.is_none() { self.function(&key, &f.sig, &f.block) }
                }
                self.self_ty = None;
            }
            _ => (),
        }
    }
}

/// R29: arms with a guard that change something.
struct Guards<'s> { src: &'s str, edit: Option<(Vec<(usize, usize, String)>, usize)> }
fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => place(&f.base),
        Expr::Reference(r) => place(&r.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && place(&u.expr),
        Expr::Paren(p) => place(&p.expr),
        _ => false,
    }
}
struct Changes(bool);
impl<'a> Visit<'a> for Changes {
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) { if matches!(&*a.left, Expr::Field(_) | Expr::Unary(_)) { self.0 = true } visit::visit_expr_assign(self, a) }
    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
        if matches!(&*b.left, Expr::Field(_) | Expr::Unary(_)) && b.op.to_token_stream().to_string().ends_with('=') && !matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_)) { self.0 = true }
        visit::visit_expr_binary(self, b)
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if place(&m.receiver) && matches!(&*m.receiver, Expr::Path(_) | Expr::Field(_)) { self.0 = true }
        visit::visit_expr_method_call(self, m)
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
impl<'a, 's> Visit<'a> for Guards<'s> {
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_match(&mut self, m: &'a ExprMatch) {
        if self.edit.is_none() && place(&m.expr) {
            for (i, a) in m.arms.iter().enumerate() {
                let Some((_, g)) = &a.guard else { continue };
                let mut ch = Changes(false);
                ch.visit_expr(&a.body);
                let mut k = Count::default();
                m.arms[i + 1..].iter().for_each(|a| k.visit_arm(a));
                if !ch.0 || k.closures > 0 || !k.loops.is_empty() || i + 1 == m.arms.len() { continue }
                let t = |s: proc_macro2::Span| { let (a, b) = range(s); &self.src[a..b] };
                let (first, last) = (range(m.arms[i + 1].span()).0, range(m.brace_token.span.close()).0);
                let others = &self.src[first..last];
                let (s, e) = range(a.span());
                let new = format!("{} => if {} {{ {} }} else {{ match {} {{ {} }} }}{}", t(a.pat.span()), t(g.span()), t(a.body.span()), t(m.expr.span()), others.split_whitespace().collect::<Vec<_>>().join(" "), if a.comma.is_some() || i + 1 < m.arms.len() { "," } else { "" });
                let lines = "\n".repeat(self.src[s..e].matches('\n').count().saturating_sub(new.matches('\n').count()));
                self.edit = Some((vec![(s, e, format!("{new}{lines}"))], s));
                return;
            }
        }
        visit::visit_expr_match(self, m);
    }
}

/// R30: functions of the file that have another name than in the contract: same parameters, same place.
fn renamed(src: &str, spec: &FileSpec) -> Option<(String, String, String)> {
    let file = parse_file(src).ok()?;
    let mut have: Vec<(String, String, bool)> = vec![];
    let names = |s: &Signature| s.inputs.iter().map(|a| match a {
        FnArg::Receiver(_) => "self".to_string(),
        FnArg::Typed(t) => match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => "_".into() },
    }).collect::<Vec<_>>().join(",");
    for i in &file.items {
        match i {
            Item::Fn(f) => have.push((f.sig.ident.to_string(), names(&f.sig), matches!(f.vis, Visibility::Inherited))),
            Item::Impl(im) if im.trait_.is_none() => {
                let Type::Path(p) = &*im.self_ty else { continue };
                let ty = p.path.segments.last().unwrap().ident.to_string();
                for x in &im.items {
                    if let ImplItem::Fn(f) = x { have.push((format!("{ty}::{}", f.sig.ident), names(&f.sig), matches!(f.vis, Visibility::Inherited))) }
                }
            }
            _ => (),
        }
    }
    let scope = |k: &str| k.rsplit_once("::").map_or(String::new(), |x| x.0.to_string());
    let keys: BTreeSet<&str> = spec.fns.iter().map(|f| f.key.as_str()).collect();
    let missing: Vec<&FnSpec> = spec.fns.iter().filter(|f| !f.key.contains(' ') && f.params.is_some() && !have.iter().any(|h| h.0 == f.key)).collect();
    for m in &missing {
        let want = m.params.as_ref().unwrap().join(",");
        if missing.iter().filter(|o| scope(&o.key) == scope(&m.key) && o.params == m.params).count() != 1 { continue }
        let c: Vec<_> = have.iter().filter(|h| !keys.contains(h.0.as_str()) && scope(&h.0) == scope(&m.key) && h.1 == want && h.2).collect();
        if let [c] = &c[..] {
            let short = |k: &str| k.rsplit("::").next().unwrap().to_string();
            return Some((short(&c.0), short(&m.key), c.0.clone()));
        }
    }
    None
}
fn rename(src: &str, from: &str, to: &str) -> String {
    let id = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut rest = src;
    while let Some(p) = rest.find(from) {
        let before = rest[..p].chars().last().or(out.chars().last());
        out.push_str(&rest[..p]);
        rest = &rest[p + from.len()..];
        let whole = !before.map_or(false, id) && !rest.chars().next().map_or(false, id);
        out.push_str(if whole && rest.trim_start().starts_with('(') { to } else { from });
    }
    out + rest
}

/// New text, what was done (line, rule, what), functions found under another name.
pub fn names(mut src: String, spec: &FileSpec) -> (String, Vec<(usize, String, String)>, Vec<String>) {
    let (mut notes, mut moved) = (vec![], vec![]);
    for _ in 0..4 {
        let Some((from, to, key)) = renamed(&src, spec) else { break };
        src = rename(&src, &from, &to);
        notes.push((1, "R30".into(), format!("{key} taken for the {to} of the contract")));
        moved.push(key);
    }
    (src, notes, moved)
}
pub fn control(mut src: String, spec: &FileSpec) -> (String, Vec<(usize, String, String)>) {
    let mut notes = vec![];
    for _ in 0..12 {
        let Ok(file) = parse_file(&src) else { break };
        let mut s = Site { spec, src: &src, self_ty: None, edits: None };
        s.visit_file(&file);
        let Some((mut ed, at, rule, what)) = s.edits else { break };
        ed.sort();
        let mut out = String::new();
        let mut pos = 0;
        let mut bad = false;
        for (a, b, t) in &ed {
            if *a < pos { bad = true; break }
            out.push_str(&src[pos..*a]);
            out.push_str(t);
            pos = *b;
        }
        out.push_str(&src[pos..]);
        if bad || parse_file(&out).is_err() { break }
        notes.push((src[..at].matches('\n').count() + 1, rule.to_string(), what));
        src = out;
    }
    (src, notes)
}

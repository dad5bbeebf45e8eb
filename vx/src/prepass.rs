//! Source-to-source rules applied before the contracts are spliced in. They keep the number of lines.
use quote::ToTokens;
use syn::{spanned::Spanned, visit::Visit, *};

fn binds(p: &Pat) -> bool {
    struct B(bool);
    impl<'a> Visit<'a> for B {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            if p.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') { self.0 = true; }
        }
        fn visit_field_pat(&mut self, f: &'a FieldPat) { if f.colon_token.is_none() { self.0 = true; } visit::visit_field_pat(self, f); }
    }
    let mut b = B(false);
    b.visit_pat(p);
    b.0
}
/// The alternatives of an or-pattern that binds names, also of one that is inside `Some(..)` and the like when that is all there is.
fn cases(p: &Pat) -> Option<Vec<String>> {
    match p {
        Pat::Or(o) if binds(p) => Some(o.cases.iter().map(|c| c.to_token_stream().to_string()).collect()),
        Pat::Paren(p) => cases(&p.pat),
        Pat::TupleStruct(t) if t.elems.len() == 1 => cases(&t.elems[0]).map(|c| c.into_iter().map(|c| format!("{} ({c})", t.path.to_token_stream())).collect()),
        _ => None,
    }
}
struct F { edit: Option<(usize, usize, String)>, what: &'static str }
impl<'a> Visit<'a> for F {
    fn visit_expr_if(&mut self, e: &'a ExprIf) {
        if self.edit.is_some() { return; }
        if let Expr::Let(l) = &*e.cond {
            if let Some(c) = cases(&l.pat) {
                let body = e.then_branch.to_token_stream().to_string();
                let (s, b) = (e.span().byte_range(), e.then_branch.span().byte_range());
                let last = c.len() - 1;
                let arms: String = c.iter().enumerate().map(|(i, p)| if i < last { format!("{p} => {body} ") } else { format!("{p} => ") }).collect();
                let els = e.else_branch.as_ref().map_or("{}".to_string(), |(_, b)| b.to_token_stream().to_string());
                // the original then-branch stays in place as the last arm
                self.edit = Some((s.start, s.end, format!("match {} {{ {arms}\u{1}{}:{}\u{1} _ => {els} }}", l.expr.to_token_stream(), b.start, b.end)));
                self.what = "if let with an or-pattern that binds written as one match arm per alternative";
                return;
            }
        }
        visit::visit_expr_if(self, e);
    }
    fn visit_arm(&mut self, a: &'a Arm) {
        if self.edit.is_some() { return; }
        if let Some(c) = cases(&a.pat) {
            let guard = a.guard.as_ref().map_or(String::new(), |(_, g)| format!(" if {}", g.to_token_stream()));
            let body = a.body.to_token_stream().to_string();
            let (s, b) = (a.span().byte_range(), a.body.span().byte_range());
            let last = c.len() - 1;
            let arms: String = c.iter().enumerate().map(|(i, p)| if i < last { format!("{p}{guard} => {{ {body} }} ") } else { format!("{p}{guard} => ") }).collect();
            self.edit = Some((s.start, s.end, format!("{arms}\u{1}{}:{}\u{1}{}", b.start, b.end, if a.comma.is_some() { "," } else { "" })));
            self.what = "match arm with an or-pattern that binds written as one arm per alternative";
            return;
        }
        visit::visit_arm(self, a);
    }
}
/// R17. Returns the new text and what was done (line, what).
pub fn split_or(mut src: String) -> (String, Vec<(usize, String)>) {
    let mut notes = vec![];
    for _ in 0..50 {
        let Ok(file) = parse_file(&src) else { return (src, notes) };
        let mut f = F { edit: None, what: "" };
        f.visit_file(&file);
        let Some((s, e, t)) = f.edit else { break };
        let p: Vec<&str> = t.split('\u{1}').collect();
        let (bs, be) = p[1].split_once(':').map(|(a, b)| (a.parse::<usize>().unwrap(), b.parse::<usize>().unwrap())).unwrap();
        let nl = |t: &str| "\n".repeat(t.matches('\n').count());
        let new = format!("{}{}{}{}{}", p[0], nl(&src[s..bs]), &src[bs..be], nl(&src[be..e]), p[2]);
        notes.push((src[..s].matches('\n').count() + 1, f.what.to_string()));
        src = format!("{}{}{}", &src[..s], new, &src[e..]);
    }
    (src, notes)
}

//! vx: splices contracts into the unmodified text of the sources in /repo and emits one Verus crate.
//!
//! Every change made to the source text is one of a fixed list of rules (R..) and is logged in the map file.
mod contracts;
mod inline;
mod loops;
mod prepass;
mod xform;

use contracts::FileSpec;
use std::fmt::Write as _;

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut repo = "/repo".to_string();
    let mut out = String::new();
    let mut map = String::new();
    let mut preludes = vec![];
    let mut cfgs = vec![];
    let mut cfiles = vec![];
    let mut canary = false;
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--repo" => { repo = args[i + 1].clone(); i += 1 }
            "--out" => { out = args[i + 1].clone(); i += 1 }
            "--map" => { map = args[i + 1].clone(); i += 1 }
            "--prelude" => { preludes.push(args[i + 1].clone()); i += 1 }
            "--cfg" => { cfgs.push(args[i + 1].clone()); i += 1 }
            "--canary" => canary = true,
            f => cfiles.push(f.to_string()),
        }
        i += 1;
    }
    let mut ctx = xform::Ctx { cfgs, canary, ..Default::default() };
    let mut text = String::new();
    text.push_str("#![allow(unused, non_camel_case_types, non_snake_case, unused_variables, unused_imports, dead_code)]\n#![feature(allocator_api)]\n#![feature(pattern)]\n#![feature(const_trait_impl)]\n#![feature(const_destruct)]\n#![verifier::allow(autoderive_clone_without_spec)]\nuse vstd::prelude::*;\n");
    for p in &preludes {
        text.push_str(&std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{p}: {e}")));
        text.push('\n');
    }
    let mut specs: Vec<FileSpec> = vec![];
    for c in &cfiles {
        specs.extend(contracts::parse(c));
    }
    for s in &mut specs {
        let path = format!("{repo}/{}", s.src);
        match std::fs::read_to_string(&path) {
            Err(e) => ctx.lost.push((s.module.clone(), "*".into(), format!("cannot read {path}: {e}"))),
            Ok(src) => match syn::parse_file(&src).map(|f| {
                drop(f);
                let contracted = s.fns.iter().map(|f| f.key.clone()).collect();
                let (src, notes, moved) = loops::names(src, s);
                for (l, r, w) in notes { ctx.edits.push((r, s.src.clone(), l, w)); }
                for k in moved { ctx.facts.push((format!("shape {}::{k}", s.module), "renamed".into())); }
                let (mut src, notes, gone) = inline::inline(src, &contracted);
                for (l, w) in notes { ctx.edits.push(("R25".into(), s.src.clone(), l, w)); }
                let (new, notes) = loops::control(src, s);
                for (l, r, w) in notes { ctx.edits.push((r, s.src.clone(), l, w)); }
                src = new;
                for k in gone { ctx.facts.push((format!("shape {}::{k}", s.module), "inlined".into())); }
                if s.split_or {
                    let (new, notes) = prepass::split_or(src);
                    for (l, w) in notes { ctx.edits.push(("R17".into(), s.src.clone(), l, w)); }
                    src = new;
                }
                let f = syn::parse_file(&src).expect("R17, R25");
                (src, f)
            }) {
                Err(e) => ctx.lost.push((s.module.clone(), "*".into(), format!("cannot parse {path}: {e}"))),
                Ok((src, file)) => {
                    let body = xform::transform(&mut ctx, s, &src, &file);
                    text.push_str(&body);
                }
            },
        }
        for f in &s.fns {
            if !f.used && !f.optional {
                ctx.lost.push((s.module.clone(), f.key.clone(), "function not found in the source".into()));
            }
        }
    }
    text.push_str("\nverus!{ fn main() {} }\n");
    std::fs::write(&out, &text).unwrap();
    std::fs::write(&map, ctx.json(&text)).unwrap();
}

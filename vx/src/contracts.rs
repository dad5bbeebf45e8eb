//! Parser for the contract files (`*.vxc`).
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct CBlock {
    pub tags: Vec<String>,
    pub text: String,
    pub file: String,
    pub line: usize,
}

#[derive(Clone, Debug, Default)]
pub struct LoopSpec {
    pub kind: String,
    pub spec: Option<CBlock>,
    pub start: Vec<CBlock>,
    pub end: Vec<CBlock>,
    pub before: Vec<CBlock>,
    pub after: Vec<CBlock>,
    pub opts: String,
}

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub key: String,
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub props: Vec<String>,
    pub requires: Vec<CBlock>,
    pub ensures: Vec<CBlock>,
    pub decreases: Option<CBlock>,
    pub body_start: Vec<CBlock>,
    pub loops: BTreeMap<usize, LoopSpec>,
    /// key: closure index; text is `params -> ret ensures ...` header
    pub closures: BTreeMap<usize, CBlock>,
    /// after the call of method/function NAME (k-th occurrence) statement
    pub after: Vec<(String, usize, CBlock)>,
    pub before: Vec<(String, usize, CBlock)>,
    pub params: Option<Vec<String>>,
    /// the local variables of the function the contract was written for, in order
    pub locals: Option<Vec<String>>,
    pub optional: bool,
    pub assume: Option<String>,
    pub drop: Option<String>,
    pub used: bool,
    pub sig: Option<String>,
    /// take what is not given here from the contract of this function
    pub inherit: Option<String>,
}

impl LoopSpec {
    /// Does it state something of its own, beyond steps of an argument?
    pub fn claims(&self) -> bool {
        self.spec.iter().chain(&self.start).chain(&self.end).chain(&self.before).chain(&self.after).any(|b| !b.tags.is_empty())
    }
    /// The parts of it which do not speak of this variable, and whether others were left out.
    pub fn without(&self, name: &str) -> (LoopSpec, bool) {
        let says = |t: &str| t.match_indices(name).any(|(i, m)| !t[i + m.len()..].starts_with(|c: char| c.is_alphanumeric() || c == '_'));
        let (mut l, mut cut) = (self.clone(), false);
        if let Some(b) = &mut l.spec {
            if says(&b.text) {
                let (mut out, mut skip) = (String::new(), false);
                for line in b.text.lines() {
                    let t = line.trim_start();
                    let head = |k: &str| t.strip_prefix(k).is_some_and(|r| r.is_empty() || r.starts_with(char::is_whitespace));
                    if head("ensures") { skip = true } else if head("decreases") || head("invariant") || head("invariant_except_break") { skip = false }
                    if !skip { out.push_str(line); }
                    out.push('\n');
                }
                b.text = out;
                cut = true;
            }
        }
        for v in [&mut l.start, &mut l.end, &mut l.before, &mut l.after] {
            let n = v.len();
            v.retain(|b| !says(&b.text));
            cut |= v.len() != n;
        }
        (l, cut)
    }
}
impl FnSpec {
    pub fn rename(&mut self, f: &mut dyn FnMut(&str) -> String) {
        let mut one = |b: &mut CBlock| b.text = f(&b.text);
        self.requires.iter_mut().chain(&mut self.ensures).chain(&mut self.decreases).chain(&mut self.body_start).for_each(&mut one);
        self.rename_inner(&mut |t, _| f(t));
    }
    /// Does the contract have parts inside the body?
    pub fn inner_parts(&self) -> bool {
        !self.closures.is_empty() || !self.after.is_empty() || !self.before.is_empty() || !self.loops.is_empty()
    }
    /// Only the parts inside the body, which may speak about local variables.
    pub fn rename_inner(&mut self, f: &mut dyn FnMut(&str, bool) -> String) {
        self.closures.values_mut().for_each(|b| b.text = f(&b.text, true));
        let mut one = |b: &mut CBlock| b.text = f(&b.text, false);
        self.after.iter_mut().chain(&mut self.before).for_each(|x| one(&mut x.2));
        for l in self.loops.values_mut() {
            l.spec.iter_mut().chain(&mut l.start).chain(&mut l.end).chain(&mut l.before).chain(&mut l.after).for_each(&mut one);
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct FileSpec {
    pub src: String,
    pub module: String,
    pub uses: Vec<CBlock>,
    pub prelude: Vec<CBlock>,
    pub fns: Vec<FnSpec>,
    /// `Trait for Type` impls to drop with a reason
    pub drops: Vec<(String, String)>,
    /// extra items inserted in `trait X` or `impl X for Y`
    pub inner: Vec<(String, CBlock)>,
    /// textual substitutions of paths `a::b` -> `c::d` (whole path prefix)
    pub subst: Vec<(String, String)>,
    /// rule R17 applies
    pub split_or: bool,
    /// replacement of a function signature's generics etc. (monomorphisation), `sig KEY`
    pub type_attrs: Vec<(String, String)>,
    pub statics: Vec<(String, String)>,
    pub keep_impls: Vec<String>,
}

pub fn parse(path: &str) -> Vec<FileSpec> {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let mut files: Vec<FileSpec> = vec![];
    let mut cur: Option<(Sink, CBlock)> = None;
    #[derive(Clone)]
    enum Sink {
        Uses,
        Prelude,
        Inner(String),
        Requires,
        Ensures,
        Decreases,
        BodyStart,
        Loop(usize, String),
        LoopStart(usize),
        LoopEnd(usize),
        LoopBefore(usize),
        LoopAfter(usize),
        Closure(usize),
        After(String, usize),
        Before(String, usize),
    }
    fn flush(files: &mut Vec<FileSpec>, cur: &mut Option<(Sink, CBlock)>) {
        let Some((sink, mut b)) = cur.take() else { return };
        while b.text.ends_with("\n\n") {
            b.text.pop();
        }
        let f = files.last_mut().expect("directive before //@ file");
        match sink {
            Sink::Uses => f.uses.push(b),
            Sink::Prelude => f.prelude.push(b),
            Sink::Inner(k) => f.inner.push((k, b)),
            s => {
                let fs = f.fns.last_mut().expect("fn directive outside fn");
                match s {
                    Sink::Requires => fs.requires.push(b),
                    Sink::Ensures => fs.ensures.push(b),
                    Sink::Decreases => fs.decreases = Some(b),
                    Sink::BodyStart => fs.body_start.push(b),
                    Sink::Loop(n, k) => {
                        let l = fs.loops.entry(n).or_default();
                        l.kind = k;
                        l.spec = Some(b);
                    }
                    Sink::LoopStart(n) => fs.loops.entry(n).or_default().start.push(b),
                    Sink::LoopEnd(n) => fs.loops.entry(n).or_default().end.push(b),
                    Sink::LoopBefore(n) => fs.loops.entry(n).or_default().before.push(b),
                    Sink::LoopAfter(n) => fs.loops.entry(n).or_default().after.push(b),
                    Sink::Closure(n) => {
                        fs.closures.insert(n, b);
                    }
                    Sink::After(n, k) => fs.after.push((n, k, b)),
                    Sink::Before(n, k) => fs.before.push((n, k, b)),
                    _ => unreachable!(),
                }
            }
        }
    }
    let tags = |s: Option<&str>| -> Vec<String> {
        s.map(|s| s.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect())
            .unwrap_or_default()
    };
    for (ln, line) in text.lines().enumerate() {
        let t = line.trim_start();
        if let Some(d) = t.strip_prefix("//@") {
            flush(&mut files, &mut cur);
            let d = d.trim();
            let mut w = d.split_whitespace();
            let cmd = w.next().unwrap_or("");
            let rest: Vec<&str> = w.collect();
            let blk = |tg: Vec<String>| CBlock { tags: tg, text: String::new(), file: path.to_string(), line: ln + 2 };
            macro_rules! fnm {
                () => {
                    files.last_mut().unwrap().fns.last_mut().unwrap_or_else(|| panic!("{path}:{}", ln + 1))
                };
            }
            match cmd {
                "file" => files.push(FileSpec {
                    src: rest[0].to_string(),
                    module: rest[2].to_string(),
                    ..Default::default()
                }),
                "use" => cur = Some((Sink::Uses, blk(vec![]))),
                "prelude" => cur = Some((Sink::Prelude, blk(tags(rest.first().copied())))),
                "inner" => cur = Some((Sink::Inner(rest.join(" ")), blk(vec![]))),
                "end" => {}
                "split-or" => files.last_mut().unwrap().split_or = true,
                "drop-impl" => {
                    let s = rest.join(" ");
                    let (k, r) = s.split_once('|').unwrap_or((&s, ""));
                    files.last_mut().unwrap().drops.push((k.trim().into(), r.trim().into()));
                }
                "keep-impl" => files.last_mut().unwrap().keep_impls.push(rest.join(" ")),
                "subst" => {
                    let s = rest.join(" ");
                    let (a, b) = s.split_once("=>").unwrap();
                    files.last_mut().unwrap().subst.push((a.trim().into(), b.trim().into()));
                }
                "type-attr" => files
                    .last_mut()
                    .unwrap()
                    .type_attrs
                    .push((rest[0].into(), rest[1..].join(" "))),
                "static" => files
                    .last_mut()
                    .unwrap()
                    .statics
                    .push((rest[0].into(), rest[1..].join(" "))),
                "fn" => files.last_mut().unwrap().fns.push(FnSpec {
                    key: rest.join(" "),
                    ..Default::default()
                }),
                "ret" => fnm!().ret = Some(rest[0].to_string()),
                "locals" => fnm!().locals = Some(tags(Some(&rest.join("")))),
                "params" => fnm!().params = Some(tags(Some(&rest.join("")))),
                "attr" => fnm!().attrs.push(rest.join(" ")),
                "props" => {
                    let t = tags(Some(&rest.join("")));
                    fnm!().props.extend(t)
                }
                "sig" => fnm!().sig = Some(rest.join(" ")),
                "inherit" => fnm!().inherit = Some(rest.join(" ")),
                "optional" => fnm!().optional = true,
                "assume" => fnm!().assume = Some(rest.join(" ")),
                "drop" => fnm!().drop = Some(rest.join(" ")),
                "requires" => cur = Some((Sink::Requires, blk(tags(rest.first().copied())))),
                "ensures" => cur = Some((Sink::Ensures, blk(tags(rest.first().copied())))),
                "decreases" => cur = Some((Sink::Decreases, blk(vec![]))),
                "body-start" => cur = Some((Sink::BodyStart, blk(vec![]))),
                "loop" => {
                    let n: usize = rest[0].parse().unwrap();
                    cur = Some((Sink::Loop(n, rest.get(1).unwrap_or(&"").to_string()), blk(vec![])));
                }
                "loop-start" => cur = Some((Sink::LoopStart(rest[0].parse().unwrap()), blk(tags(rest.get(1).copied())))),
                "loop-end" => cur = Some((Sink::LoopEnd(rest[0].parse().unwrap()), blk(tags(rest.get(1).copied())))),
                "loop-before" => cur = Some((Sink::LoopBefore(rest[0].parse().unwrap()), blk(tags(rest.get(1).copied())))),
                "loop-after" => cur = Some((Sink::LoopAfter(rest[0].parse().unwrap()), blk(tags(rest.get(1).copied())))),
                "closure" => cur = Some((Sink::Closure(rest[0].parse().unwrap()), blk(vec![]))),
                "after" => cur = Some((Sink::After(rest[0].into(), rest.get(1).map_or(0, |x| x.parse().unwrap())), blk(vec![]))),
                "before" => cur = Some((Sink::Before(rest[0].into(), rest.get(1).map_or(0, |x| x.parse().unwrap())), blk(vec![]))),
                "#" | "" => {}
                other => panic!("{path}:{}: unknown directive {other}", ln + 1),
            }
        } else if let Some((_, b)) = &mut cur {
            b.text.push_str(line);
            b.text.push('\n');
        } else if !t.is_empty() && !t.starts_with("//") {
            panic!("{path}:{}: text outside block: {line}", ln + 1);
        }
    }
    flush(&mut files, &mut cur);
    for f in &mut files {
        let all = f.fns.clone();
        for g in &mut f.fns {
            let Some(k) = &g.inherit else { continue };
            let from = all.iter().find(|x| x.key == *k).unwrap_or_else(|| panic!("{path}: inherit {k}"));
            macro_rules! take { ($($n:ident)*) => { $( if g.$n.is_empty() { g.$n = from.$n.clone(); } )* } }
            take!(attrs requires body_start loops closures after before);
            if g.params.is_none() { g.params = from.params.clone(); }
            if g.locals.is_none() { g.locals = from.locals.clone(); }
            if g.decreases.is_none() { g.decreases = from.decreases.clone(); }
        }
    }
    files
}

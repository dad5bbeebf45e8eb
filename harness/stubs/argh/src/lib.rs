//! Stand-in for the crate argh (not available offline): `--name value` options only.
pub use argh_derive::FromArgs;
pub trait FromArgs: Sized { fn read(options: &mut Options) -> Result<Self, String>; }
pub struct Options(Vec<(String, String)>);
impl Options {
    pub fn take(&mut self, name: &str) -> Option<String> { let i = self.0.iter().position(|o| o.0 == name)?; Some(self.0.remove(i).1) }
}
pub fn from_env<T: FromArgs>() -> T {
    let run = || -> Result<T, String> {
        let mut v = vec![];
        let mut it = std::env::args().skip(1);
        while let Some(a) = it.next() {
            let n = a.strip_prefix("--").ok_or_else(|| format!("Unrecognized argument: {a}"))?;
            v.push((n.replace('-', "_"), it.next().ok_or_else(|| format!("No value provided for option '{a}'."))?));
        }
        let mut o = Options(v);
        let t = T::read(&mut o)?;
        match o.0.first() { Some(x) => Err(format!("Unrecognized argument: --{}", x.0)), None => Ok(t) }
    };
    run().unwrap_or_else(|e| { eprintln!("{e}"); std::process::exit(1) })
}

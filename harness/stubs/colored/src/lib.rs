//! Stand-in for the `colored` crate (not available offline).
pub trait Colorize: Sized {
    fn text(self) -> String;
    fn red(self) -> String { self.text() }
    fn blue(self) -> String { self.text() }
    fn green(self) -> String { self.text() }
    fn yellow(self) -> String { self.text() }
}
impl<'a> Colorize for &'a str { fn text(self) -> String { self.to_string() } }

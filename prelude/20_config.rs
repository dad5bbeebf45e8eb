// ---- prelude: files, TOML and serde (assumed) ----
pub mod std_path {
use vstd::prelude::*;
verus!{
#[verifier::external_body]
pub struct Path { x: u8 }
/// How a path is displayed.
pub uninterp spec fn path_text(p: &Path) -> Seq<char>;
#[verifier::external_body]
pub struct Display<'a> { x: &'a u8 }
impl<'a> Display<'a> {
    pub uninterp spec fn chars(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.chars() { unimplemented!() }
}
impl Path {
    #[verifier::external_body]
    pub fn display<'a>(&'a self) -> (r: Display<'a>) ensures r.chars() == path_text(self) { unimplemented!() }
}
#[verifier::external_body]
pub struct PathBuf { x: u8 }
}
}
pub mod std_convert {
use vstd::prelude::*;
verus!{
/// `AsRef` of a path, a host name, ...
pub trait AsRef<T: ?Sized> { spec fn shared(&self) -> &T; fn as_ref(&self) -> (r: &T) ensures r == self.shared(); }
impl<'a, T: ?Sized, S: ?Sized + AsRef<T>> AsRef<T> for &'a S { open spec fn shared(&self) -> &T { (**self).shared() } fn as_ref(&self) -> (r: &T) { (**self).as_ref() } }
impl AsRef<crate::std_path::Path> for str { uninterp spec fn shared(&self) -> &crate::std_path::Path; #[verifier::external_body] fn as_ref(&self) -> (r: &crate::std_path::Path) { unimplemented!() } }
impl AsRef<crate::std_path::Path> for String { uninterp spec fn shared(&self) -> &crate::std_path::Path; #[verifier::external_body] fn as_ref(&self) -> (r: &crate::std_path::Path) { unimplemented!() } }
impl AsRef<crate::std_path::Path> for crate::std_path::Path { open spec fn shared(&self) -> &crate::std_path::Path { self } fn as_ref(&self) -> (r: &crate::std_path::Path) { self } }
}
}
pub mod std_io {
use vstd::prelude::*;
verus!{
#[verifier::external_body]
pub struct Error { x: u8 }
impl ::core::fmt::Debug for Error { #[verifier::external_body] fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { unimplemented!() } }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ErrorKind { WouldBlock, WriteZero, UnexpectedEof, Interrupted, InvalidData, InvalidInput, BrokenPipe, ConnectionReset, Other }
impl Error {
    pub uninterp spec fn spec_kind(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.spec_kind() { unimplemented!() }
}
impl From<ErrorKind> for Error { #[verifier::external_body] fn from(k: ErrorKind) -> (r: Error) ensures r.spec_kind() == k { unimplemented!() } }
pub trait Read {}
pub trait Write {}
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct BufReader<R> { x: R }
impl<R> BufReader<R> {
    /// what has not been read yet
    pub uninterp spec fn rest(&self) -> Seq<u8>;
}
impl BufReader<crate::std_fs::File> {
    #[verifier::external_body]
    pub fn new(f: crate::std_fs::File) -> (r: Self) ensures r.rest() == f.content() { unimplemented!() }
}
}
}
pub mod std_fs {
use vstd::prelude::*;
use crate::std_convert::AsRef;
use crate::std_path::Path;
verus!{
/// Reading the file gave this text (possibly, at the time of the call).
pub uninterp spec fn reads(p: &Path, text: Seq<char>) -> bool;
/// A file opened for reading.
#[verifier::external_body]
pub struct File { x: u8 }
/// The file at this path, when it was opened, had this content.
pub uninterp spec fn contains(p: &Path, b: Seq<u8>) -> bool;
impl File {
    pub uninterp spec fn content(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn open<P: AsRef<Path>>(p: P) -> (r: Result<File, crate::std_io::Error>)
        ensures match r { Ok(f) => contains(p.shared(), f.content()), Err(_) => unreadable(p.shared()) }
    { unimplemented!() }
}
/// Reading the file failed.
pub uninterp spec fn unreadable(p: &Path) -> bool;
#[verifier::external_body]
pub fn read_to_string<P: AsRef<Path>>(p: P) -> (r: Result<String, crate::std_io::Error>)
    ensures match r { Ok(s) => reads(p.shared(), s@), Err(_) => unreadable(p.shared()) }
{ unimplemented!() }
}
}
pub mod serde {
use vstd::prelude::*;
verus!{
pub trait Deserialize {}
pub trait Serialize {}
/// A TOML value.
pub ghost enum Val { Str(Seq<char>), Int(int), List(Seq<Val>), Table(Map<Seq<char>, Val>), Other }
/// The value `v` is read as `r`. The relation of a type that derives `Deserialize` is generated from its definition (rule R16).
pub trait De: Sized { spec fn de(v: Val, r: Self) -> bool; }
/// How serde reads a sequence as a struct or tagged enum (fields by position): not specified.
pub uninterp spec fn positional<T>(v: Val, r: T) -> bool;
impl De for String { open spec fn de(v: Val, r: String) -> bool { v == Val::Str(r@) } }
impl De for u16 { open spec fn de(v: Val, r: u16) -> bool { v == Val::Int(r as int) } }
impl De for u32 { open spec fn de(v: Val, r: u32) -> bool { v == Val::Int(r as int) } }
impl De for u64 { open spec fn de(v: Val, r: u64) -> bool { v == Val::Int(r as int) } }
impl<T: De> De for Vec<T> {
    open spec fn de(v: Val, r: Vec<T>) -> bool {
        v matches Val::List(l) && l.len() == r@.len() && forall|i: int| 0 <= i < l.len() ==> T::de(#[trigger] l[i], r@[i])
    }
}
/// A function that serde calls for a missing field returns.
#[verifier::external_body]
pub proof fn axiom_default_returns<T, F: Fn() -> T>(f: F)
    requires call_requires(f, ()),
    ensures exists|p: T| call_ensures(f, (), p)
{}
pub open spec fn tag_is(m: Map<Seq<char>, Val>, tag: Seq<char>, name: Seq<char>) -> bool { m.dom().contains(tag) && m[tag] == Val::Str(name) }
}
}
pub mod toml {
use vstd::prelude::*;
use crate::serde::*;
verus!{
/// The document that a text denotes, if it is well-formed TOML.
pub uninterp spec fn document(text: Seq<char>) -> Option<Val>;
#[verifier::external_body]
pub fn from_str<T: De>(s: &str) -> (r: Result<T, de::Error>)
    ensures match r {
        Ok(x) => document(s@) is Some && T::de(document(s@)->0, x),
        Err(_) => document(s@) is None || forall|x: T| !#[trigger] T::de(document(s@)->0, x),
    }
{ unimplemented!() }
}
pub mod de { use vstd::prelude::*; verus!{
#[verifier::external_body]
pub struct Error { x: u8 } 
} }
pub mod ser { use vstd::prelude::*; verus!{
#[verifier::external_body]
pub struct Error { x: u8 } 
} }
}

//! Stand-in for the `bounded-static` crate (not available offline): the two traits.
use std::borrow::Cow;
pub trait IntoBoundedStatic {
    type Static: 'static;
    fn into_static(self) -> Self::Static;
}
pub trait ToBoundedStatic {
    type Static: 'static;
    fn to_static(&self) -> Self::Static;
}
macro_rules! own { ($($t:ty),*) => { $(
    impl IntoBoundedStatic for $t { type Static = $t; fn into_static(self) -> $t { self } }
    impl ToBoundedStatic for $t { type Static = $t; fn to_static(&self) -> $t { self.clone() } }
)* } }
own!(String, bool, u8, u16, u32, u64, usize, (), char);
impl<T: IntoBoundedStatic> IntoBoundedStatic for Vec<T> { type Static = Vec<T::Static>; fn into_static(self) -> Self::Static { self.into_iter().map(|x| x.into_static()).collect() } }
impl<T: ToBoundedStatic> ToBoundedStatic for Vec<T> { type Static = Vec<T::Static>; fn to_static(&self) -> Self::Static { self.iter().map(|x| x.to_static()).collect() } }
impl<T: IntoBoundedStatic> IntoBoundedStatic for Option<T> { type Static = Option<T::Static>; fn into_static(self) -> Self::Static { self.map(|x| x.into_static()) } }
impl<T: ToBoundedStatic> ToBoundedStatic for Option<T> { type Static = Option<T::Static>; fn to_static(&self) -> Self::Static { self.as_ref().map(|x| x.to_static()) } }
impl<'a> IntoBoundedStatic for Cow<'a, [u8]> { type Static = Cow<'static, [u8]>; fn into_static(self) -> Self::Static { Cow::Owned(self.into_owned()) } }
impl<'a> ToBoundedStatic for Cow<'a, [u8]> { type Static = Cow<'static, [u8]>; fn to_static(&self) -> Self::Static { Cow::Owned(self.clone().into_owned()) } }

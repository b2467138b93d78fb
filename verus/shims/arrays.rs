// ---------------------------------------------------------------- iterating over an array (assumed contracts)
pub trait VArray<T> { spec fn items(&self) -> Seq<T>; fn v_iter(&self) -> (r: It<&'static T>) ensures r.s() == refs(self.items()); }
impl<T, const N: usize> VArray<T> for [T; N] { open spec fn items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_iter(&self) -> (r: It<&'static T>) { unimplemented!() } }
pub trait VArrayInto<T>: Sized { spec fn s_items(self) -> Seq<T>; fn v_into_iter(self) -> (r: It<T>) ensures r.s() == self.s_items(); }
impl<T, const N: usize> VArrayInto<T> for [T; N] { open spec fn s_items(self) -> Seq<T> { self@ } #[verifier::external_body] fn v_into_iter(self) -> (r: It<T>) { unimplemented!() } }
impl<'a, T, const N: usize> VArrayInto<&'static T> for &'a [T; N] { open spec fn s_items(self) -> Seq<&'static T> { refs(self@) } #[verifier::external_body] fn v_into_iter(self) -> (r: It<&'static T>) { unimplemented!() } }

// ---------------------------------------------------------------- the code's own helpers, by the contracts proved under P28
pub struct EncodedCharsIter;
impl EncodedCharsIter {
    #[verifier::external_body] pub fn decode<T: Unit>(src: CPtr<T>, vk: Ghost<bool>) -> (r: It<T::Item>)
        requires src.null() || is_str(src), vk@ ==> T::decodes(str_at(src))
        ensures T::decodes(str_at(src)), r.s() == T::items(str_at(src)) { unimplemented!() }
}
pub trait VEncode<T: Unit>: Sized {
    spec fn writable(self) -> bool;
    spec fn written(self) -> Seq<char>;
    fn encode(self, dest: &mut MPtr<T>, vk: Ghost<bool>, Tracked(m): Tracked<&mut Mem<T>>)
        requires !old(dest).null(), vk@ ==> self.writable()
        ensures self.writable(), wrote1::<T>(old(m).m, final(m).m, old(dest).addr(), self.written()),
            final(dest).addr() == old(dest).addr() + enc::<T>(self.written()).len(), !final(dest).null();
}
impl VEncode<u8> for It<char> {
    open spec fn writable(self) -> bool { true }
    open spec fn written(self) -> Seq<char> { self.s() }
    #[verifier::external_body] fn encode(self, dest: &mut MPtr<u8>, vk: Ghost<bool>, Tracked(m): Tracked<&mut Mem<u8>>) { unimplemented!() }
}
impl VEncode<u16> for It<Result<char, DecErr>> {
    open spec fn writable(self) -> bool { all_ok(self.s()) }
    open spec fn written(self) -> Seq<char> { oks(self.s()) }
    #[verifier::external_body] fn encode(self, dest: &mut MPtr<u16>, vk: Ghost<bool>, Tracked(m): Tracked<&mut Mem<u16>>) { unimplemented!() }
}

#[verifier::external_body] pub fn ptr_to_slice<T: Unit>(src: CPtr<T>, vk: Ghost<bool>) -> (r: VSlice<T>) requires src.null() || is_str(src) ensures r.view() == str_at(src) { unimplemented!() }

    pub mod slice {
        use super::super::*;
        #[verifier::external_body] pub fn from_raw_parts<T>(p: CPtr<T>, n: usize) -> (r: VSlice<T>) requires !p.null(), 0 <= p.off(), p.off() + n <= p.cells().len()
            ensures r.view() == p.cells().subrange(p.off(), p.off() + n) { unimplemented!() }
        #[verifier::external_body] pub fn from_raw_parts_mut<T>(p: MPtr<T>, n: usize) -> (r: VBuf<T>) requires !p.null() ensures r.addr() == p.addr(), r.n() == n { unimplemented!() }
    }
    pub mod str {
        use super::super::*;
        #[verifier::external_body] pub fn from_utf8(s: VSlice<u8>) -> (r: Result<VStr, Utf8Err>)
            ensures r is Ok <==> well8(s.view()), r is Ok ==> r->Ok_0.view() == dec8(s.view()) { unimplemented!() }
    }
    pub mod char {
        use super::super::*;
        #[verifier::external_body] pub fn decode_utf16(s: It<u16>) -> (r: It<Result<char, DecErr>>) ensures r.s() == items16(s.s()) { unimplemented!() }
    }

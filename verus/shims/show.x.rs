    pub mod fmt {
        use super::super::*;
        #[verifier::external_body] pub fn format(f: VFmt) -> (r: VString) ensures r.bytes() == f.bytes() { unimplemented!() }
    }
    pub mod __export { use super::super::*; #[verifier::external_body] pub fn must_use<T>(t: T) -> (r: T) ensures r == t { unimplemented!() } }

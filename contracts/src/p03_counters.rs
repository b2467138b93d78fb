//! P03/P04/P05: CTU, CTD, CTUD and their typed variants, over every state of the FB's memory.
use crate::core::*;
use iec61131std::counters as real;

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ctu<T> {
    pub cu: bool,
    pub r: bool,
    pub pv: T,
    pub q: bool,
    pub cv: T,
    pub internal: bool,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ctd<T> {
    pub cd: bool,
    pub ld: bool,
    pub pv: T,
    pub q: bool,
    pub cv: T,
    pub internal: bool,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ctud<T> {
    pub cu: bool,
    pub cd: bool,
    pub r: bool,
    pub ld: bool,
    pub pv: T,
    pub qu: bool,
    pub qd: bool,
    pub cv: T,
    pub internal_up: bool,
    pub internal_down: bool,
}

macro_rules! up { ($g:ident, $t:ty, $($f:ident),*) => { contracts! { group $g; $(
    fn $f(cu: bool, r: bool, pv: $t, q: bool, cv: $t, internal: bool) -> Ctu<$t> = {
        Instance::new(Ctu { cu, r, pv, q, cv, internal }).call(|m| unsafe { real::$f(m) })
    };
    given same::<Ctu<$t>, real::CTUParams<$t>>();
    post s {
        let edge = cu && !internal;
        let cv2 = if r { 0 } else if edge && cv < <$t>::MAX { cv + 1 } else { cv };
        // R holds the edge detector: an edge that begins under R counts once R is released
        let remembered = if r { s.internal == internal } else { s.internal == cu };
        s.cv == cv2 && s.q == (cv2 >= pv) && remembered && s.cu == cu && s.r == r && s.pv == pv
    };
)* } } }
macro_rules! down { ($g:ident, $t:ty, $($f:ident),*) => { contracts! { group $g; $(
    fn $f(cd: bool, ld: bool, pv: $t, q: bool, cv: $t, internal: bool) -> Ctd<$t> = {
        Instance::new(Ctd { cd, ld, pv, q, cv, internal }).call(|m| unsafe { real::$f(m) })
    };
    given same::<Ctd<$t>, real::CTDParams<$t>>();
    post s {
        let edge = cd && !internal;
        let cv2 = if ld { pv } else if edge && cv > <$t>::MIN { cv - 1 } else { cv };
        // LD holds the edge detector: an edge that begins under LD counts once LD is released (tests/counters_tests.rs)
        let remembered = if ld { s.internal == internal } else { s.internal == cd };
        s.cv == cv2 && s.q == (cv2 <= 0) && remembered && s.cd == cd && s.ld == ld && s.pv == pv
    };
)* } } }
macro_rules! updown { ($g:ident, $t:ty, $($f:ident),*) => { contracts! { group $g; $(
    fn $f(cu: bool, cd: bool, r: bool, ld: bool, pv: $t, qu: bool, qd: bool, cv: $t, iu: bool, id: bool) -> Ctud<$t> = {
        Instance::new(Ctud { cu, cd, r, ld, pv, qu, qd, cv, internal_up: iu, internal_down: id }).call(|m| unsafe { real::$f(m) })
    };
    given same::<Ctud<$t>, real::CTUDParams<$t>>();
    post s {
        let (eu, ed) = (cu && !iu, cd && !id);
        let cv2 = if r { 0 } else if ld { pv } else if eu && ed { cv }
            else if eu && cv < <$t>::MAX { cv + 1 } else if ed && cv > <$t>::MIN { cv - 1 } else { cv };
        let remembered = if r || ld { s.internal_up == iu && s.internal_down == id } else { s.internal_up == cu && s.internal_down == cd };
        s.cv == cv2 && s.qu == (cv2 >= pv) && s.qd == (cv2 <= 0) && remembered
            && s.cu == cu && s.cd == cd && s.r == r && s.ld == ld && s.pv == pv
    };
)* } } }

up!(ctu_int, i16, CTU, CTU_INT);
up!(ctu_dint, i32, CTU_DINT);
up!(ctu_udint, u32, CTU_UDINT);
up!(ctu_lint, i64, CTU_LINT);
up!(ctu_ulint, u64, CTU_ULINT);
down!(ctd_int, i16, CTD, CTD_INT);
down!(ctd_dint, i32, CTD_DINT);
down!(ctd_udint, u32, CTD_UDINT);
down!(ctd_lint, i64, CTD_LINT);
down!(ctd_ulint, u64, CTD_ULINT);
updown!(ctud_int, i16, CTUD, CTUD_INT);
updown!(ctud_dint, i32, CTUD_DINT);
updown!(ctud_udint, u32, CTUD_UDINT);
updown!(ctud_lint, i64, CTUD_LINT);
updown!(ctud_ulint, u64, CTUD_ULINT);

/// Histories of scans from zeroed memory, judged by the outputs alone.
fn steps(b: &[u8; 12]) -> impl Iterator<Item = (bool, bool, bool, bool, bool)> + '_ {
    // cu, cd, r, ld, and whether PV changes; R, LD and PV changes are rare
    b.iter().map(|b| (b & 1 != 0, b & 2 != 0, b & 0x1c == 0, b & 0xe0 == 0, b & 0x5c == 4))
}
macro_rules! up_hist { ($g:ident, $t:ty, $($f:ident),*) => { contracts! { group $g by native; $(
    fn $f(b: [u8; 12], pvs: [$t; 12]) -> Result<(), String> = {
        let mut m = Instance::new(Ctu::<$t> { cu: false, r: false, pv: 0, q: false, cv: 0, internal: false });
        let (mut cv, mut edge) = (0 as $t, false);
        m.m.pv = pvs[0];
        for (i, (cu, _, r, _, ch)) in steps(&b).enumerate() {
            if ch { m.m.pv = pvs[i] }
            (m.m.cu, m.m.r) = (cu, r);
            let s = m.call(|m| unsafe { real::$f(m) });
            if r { cv = 0 } else { if cu && !edge && cv < <$t>::MAX { cv += 1 } edge = cu; }
            if s.cv != cv || s.q != (cv >= s.pv) { return Err(format!("scan {i}: CV={} Q={} expected CV={cv}", s.cv, s.q)) }
        }
        Ok(())
    };
    post s s.is_ok();
)* } } }
macro_rules! down_hist { ($g:ident, $t:ty, $($f:ident),*) => { contracts! { group $g by native; $(
    fn $f(b: [u8; 12], pvs: [$t; 12]) -> Result<(), String> = {
        let mut m = Instance::new(Ctd::<$t> { cd: false, ld: false, pv: 0, q: false, cv: 0, internal: false });
        let (mut cv, mut edge) = (0 as $t, false);
        m.m.pv = pvs[0];
        for (i, (_, cd, _, ld, ch)) in steps(&b).enumerate() {
            if ch { m.m.pv = pvs[i] }
            (m.m.cd, m.m.ld) = (cd, ld);
            let s = m.call(|m| unsafe { real::$f(m) });
            if ld { cv = s.pv } else { if cd && !edge && cv > <$t>::MIN { cv -= 1 } edge = cd; }
            if s.cv != cv || s.q != (cv <= 0) { return Err(format!("scan {i}: CV={} Q={} expected CV={cv}", s.cv, s.q)) }
        }
        Ok(())
    };
    post s s.is_ok();
)* } } }
macro_rules! updown_hist { ($g:ident, $t:ty, $($f:ident),*) => { contracts! { group $g by native; $(
    fn $f(b: [u8; 12], pvs: [$t; 12]) -> Result<(), String> = {
        let mut m = Instance::new(Ctud::<$t> { cu: false, cd: false, r: false, ld: false, pv: 0, qu: false, qd: false, cv: 0,
            internal_up: false, internal_down: false });
        let (mut cv, mut eu, mut ed) = (0 as $t, false, false);
        m.m.pv = pvs[0];
        for (i, (cu, cd, r, ld, ch)) in steps(&b).enumerate() {
            if ch { m.m.pv = pvs[i] }
            (m.m.cu, m.m.cd, m.m.r, m.m.ld) = (cu, cd, r, ld);
            let s = m.call(|m| unsafe { real::$f(m) });
            if r { cv = 0 } else if ld { cv = s.pv } else {
                let (u, d) = (cu && !eu, cd && !ed);
                if u && !d && cv < <$t>::MAX { cv += 1 } else if d && !u && cv > <$t>::MIN { cv -= 1 }
                (eu, ed) = (cu, cd);
            }
            if s.cv != cv || s.qu != (cv >= s.pv) || s.qd != (cv <= 0) {
                return Err(format!("scan {i}: CV={} QU={} QD={} expected CV={cv}", s.cv, s.qu, s.qd))
            }
        }
        Ok(())
    };
    post s s.is_ok();
)* } } }
up_hist!(ctu_hist_int, i16, CTU, CTU_INT);
up_hist!(ctu_hist_dint, i32, CTU_DINT);
up_hist!(ctu_hist_udint, u32, CTU_UDINT);
up_hist!(ctu_hist_lint, i64, CTU_LINT);
up_hist!(ctu_hist_ulint, u64, CTU_ULINT);
down_hist!(ctd_hist_int, i16, CTD, CTD_INT);
down_hist!(ctd_hist_dint, i32, CTD_DINT);
down_hist!(ctd_hist_udint, u32, CTD_UDINT);
down_hist!(ctd_hist_lint, i64, CTD_LINT);
down_hist!(ctd_hist_ulint, u64, CTD_ULINT);
updown_hist!(ctud_hist_int, i16, CTUD, CTUD_INT);
updown_hist!(ctud_hist_dint, i32, CTUD_DINT);
updown_hist!(ctud_hist_udint, u32, CTUD_UDINT);
updown_hist!(ctud_hist_lint, i64, CTUD_LINT);
updown_hist!(ctud_hist_ulint, u64, CTUD_ULINT);

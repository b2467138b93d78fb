//! P06/P07/P08: TP, TON, TOF.
//!
//! `step_*` (Kani): one call from every state of the instance's memory that satisfies the state invariant, under a clock
//! that may move between two readings; the postcondition re-establishes the invariant and fixes Q, ET and the new
//! private state, so by induction it holds for every call history (the zeroed instance satisfies the invariant).
//! `hist_*`: histories from zeroed memory judged by Q and ET alone, whatever the private state looks like; natively
//! over the crate's own mock clock.
use crate::core::*;
use iec61131std::timers as real;

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Start {
    sec: i64,
    ns: u32,
    pad: u32,
}
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Timer {
    pub input: bool,
    pub pt: i64,
    pub q: bool,
    pub et: i64,
    pub edge: bool,
    pub running: bool,
    pub start: Start,
}
const ZERO: Timer = Timer { input: false, pt: 0, q: false, et: 0, edge: false, running: false, start: Start { sec: 0, ns: 0, pad: 0 } };

// Under Kani a Duration and an Instant stand for their number of nanoseconds, kept in the seconds field with nanos = 0:
// comparison and subtraction of the real types then are those of the numbers, and the conversions between a Duration
// and a number of nanoseconds are replaced by their contract in that representation. Conversions to other units have
// none and make a harness undecided.
#[cfg(kani)]
mod clock {
    use std::time::{Duration, Instant};
    /// The values successive readings give; the last one repeats.
    pub static mut READS: [i64; 3] = [0; 3];
    pub static mut AT: usize = 0;
    pub fn set(r: [i64; 3]) {
        unsafe {
            READS = r;
            AT = 0;
        }
    }
    pub fn now() -> Instant {
        unsafe {
            let t = READS[AT];
            if AT < 2 {
                AT += 1;
            }
            ::core::mem::transmute::<(i64, u32, u32), Instant>((t, 0, 0))
        }
    }
    pub fn from_nanos(n: u64) -> Duration {
        unsafe { ::core::mem::transmute::<(u64, u32, u32), Duration>((n, 0, 0)) }
    }
    fn secs(d: &Duration) -> u64 {
        unsafe { *(d as *const Duration as *const u64) }
    }
    pub fn as_nanos(d: &Duration) -> u128 {
        secs(d) as u128
    }
    pub fn no_u64(_: &Duration) -> u64 {
        kani::assert(false, "unsupported by the representation of Duration");
        0
    }
    pub fn no_u128(_: &Duration) -> u128 {
        kani::assert(false, "unsupported by the representation of Duration");
        0
    }
    pub fn no_u32(_: &Duration) -> u32 {
        kani::assert(false, "unsupported by the representation of Duration");
        0
    }
    /// the subtraction of two Instants ends here, with nanos = 0
    pub fn new(s: u64, n: u32) -> Duration {
        kani::assert(n == 0, "unsupported by the representation of Duration");
        from_nanos(s)
    }
    pub fn no_from(_: u64) -> Duration {
        kani::assert(false, "unsupported by the representation of Duration");
        Duration::ZERO
    }
}
#[cfg(not(kani))]
mod clock {
    pub fn set(r: [i64; 3]) {
        #[cfg(feature = "mock_time")]
        iec61131std::timers::test_time_helpers::MockClock::set_time(std::time::Duration::from_nanos(r[0] as u64));
    }
}

type Fb = extern "C" fn(&mut real::TimerParams);
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Tp,
    Ton,
    Tof,
}

/// Nanoseconds
type T = i64;

/// What one call does to (running, start, edge) and what it outputs, for a clock reading `t`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Spec {
    running: bool,
    start: T,
    edge: bool,
    q: bool,
    et: i64,
}
fn spec(k: Kind, s: Spec, input: bool, pt: T, t: T) -> Spec {
    let (rise, fall) = (input && !s.edge, !input && s.edge);
    let elapsed = t - s.start;
    let within = s.running && elapsed <= pt;
    let capped = if elapsed < pt { elapsed } else { pt };
    let begin = Spec { running: true, start: t, edge: input, q: true, et: 0 };
    let idle = Spec { running: false, start: 0, edge: input, q: false, et: 0 };
    let runs = Spec { running: true, start: s.start, edge: input, q: within, et: capped };
    match k {
        Kind::Tp => match () {
            _ if within => runs,
            _ if rise => begin,
            _ if s.running && input => runs,
            _ => idle,
        },
        Kind::Ton => match () {
            _ if !input => idle,
            _ if s.running => Spec { q: !within, ..runs },
            _ => Spec { q: false, ..begin },
        },
        Kind::Tof => match () {
            _ if input => Spec { q: true, ..idle },
            _ if fall => begin,
            _ if s.running => runs,
            _ => idle,
        },
    }
}
fn fresh() -> Spec {
    Spec { running: false, start: 0, edge: false, q: false, et: 0 }
}
/// readings of one clock that do not run backwards; spans up to 292 years
fn clock_ok(r: [T; 3]) -> bool {
    0 <= r[0] && r[0] <= r[1] && r[1] <= r[2]
}
/// the invariants of the private state; the zeroed instance satisfies them
fn inv(k: Kind, s: &Timer) -> bool {
    (!s.running || s.start.ns == 0 && s.start.sec >= 0)
        && (s.running || s.et == 0)
        && match k {
            Kind::Tp => true,
            Kind::Ton => s.running == s.edge,
            Kind::Tof => !(s.running && s.edge),
        }
}
fn view(s: &Timer) -> Spec {
    Spec { running: s.running, start: if s.running { s.start.sec } else { 0 }, edge: s.edge, q: s.q, et: s.et }
}

macro_rules! steps { ($g:ident, $k:expr, $($f:ident),*) => { contracts! { group $g by kani proof; $(
    #[kani::stub(std::time::Instant::now, crate::p06_timers::clock::now)]
    #[kani::stub(std::time::Duration::from_nanos, crate::p06_timers::clock::from_nanos)]
    #[kani::stub(std::time::Duration::as_nanos, crate::p06_timers::clock::as_nanos)]
    #[kani::stub(std::time::Duration::as_micros, crate::p06_timers::clock::no_u128)]
    #[kani::stub(std::time::Duration::as_millis, crate::p06_timers::clock::no_u128)]
    #[kani::stub(std::time::Duration::as_secs, crate::p06_timers::clock::no_u64)]
    #[kani::stub(std::time::Duration::subsec_nanos, crate::p06_timers::clock::no_u32)]
    #[kani::stub(std::time::Duration::subsec_micros, crate::p06_timers::clock::no_u32)]
    #[kani::stub(std::time::Duration::subsec_millis, crate::p06_timers::clock::no_u32)]
    #[kani::stub(std::time::Duration::new, crate::p06_timers::clock::new)]
    #[kani::stub(std::time::Duration::from_secs, crate::p06_timers::clock::no_from)]
    #[kani::stub(std::time::Duration::from_millis, crate::p06_timers::clock::no_from)]
    #[kani::stub(std::time::Duration::from_micros, crate::p06_timers::clock::no_from)]
    fn $f(input: bool, pt: i64, q: bool, et: i64, edge: bool, running: bool, sec: i64, n: u32, clk: [i64; 3]) -> Timer = {
        clock::set(clk);
        Instance::new(Timer { input, pt, q, et, edge, running, start: Start { sec, ns: n, pad: 0 } }).call(|x| real::$f(x))
    };
    given same::<Timer, real::TimerParams>() && pt >= 0 && clock_ok(clk)
        && inv($k, &Timer { input, pt, q, et, edge, running, start: Start { sec, ns: n, pad: 0 } })
        && (!running || sec <= clk[0])
        && n <= 1_000_000_000; // a present start time or (not running) the absent one
    post o {
        let before = view(&Timer { input, pt, q, et, edge, running, start: Start { sec, ns: n, pad: 0 } });
        // one of the readings explains everything the call did
        let explains = |t: T| {
            let e = spec($k, before, input, pt, t);
            o.q == e.q && o.et == e.et && o.running == e.running && o.edge == e.edge && (!e.running || o.start.sec == e.start)
        };
        (explains(clk[0]) || explains(clk[1]) || explains(clk[2])) && o.input == input && o.pt == pt && inv($k, o)
    };
)* } } }
steps!(step_tp, Kind::Tp, TP, TP_TIME, TP_LTIME);
steps!(step_ton, Kind::Ton, TON, TON_TIME, TON_LTIME);
steps!(step_tof, Kind::Tof, TOF, TOF_TIME, TOF_LTIME);

/// N calls from zeroed memory; the clock moves by `dt` before each call, and by `reads` between readings of the last one.
fn history<const N: usize>(f: Fb, k: Kind, ins: [bool; N], pts: [T; N], dt: [T; N], t0: T, reads: [T; 2]) -> Result<(), usize> {
    let mut m = Instance::new(ZERO);
    let mut s = fresh();
    let mut at = t0;
    for i in 0..N {
        at += dt[i];
        let last = i + 1 == N;
        let b = if last { at + reads[0] } else { at };
        let c = if last { b + reads[1] } else { at };
        clock::set([at, b, c]);
        (m.m.input, m.m.pt) = (ins[i], pts[i]);
        let o = m.call(|x| f(x));
        let ok = |t: T| {
            let e = spec(k, s, ins[i], pts[i], t);
            o.q == e.q && o.et == e.et
        };
        if !(ok(at) || last && cfg!(kani) && (ok(b) || ok(c))) || o.input != ins[i] || o.pt != pts[i] {
            return Err(i);
        }
        s = spec(k, s, ins[i], pts[i], at);
    }
    Ok(())
}
macro_rules! hists { ($g:ident, $h:ident, $k:expr, $($f:ident),*) => {
    contracts! { group $g by proof; $(
    #[kani::stub(std::time::Instant::now, crate::p06_timers::clock::now)]
    #[kani::stub(std::time::Duration::from_nanos, crate::p06_timers::clock::from_nanos)]
    #[kani::stub(std::time::Duration::as_nanos, crate::p06_timers::clock::as_nanos)]
    #[kani::stub(std::time::Duration::as_micros, crate::p06_timers::clock::no_u128)]
    #[kani::stub(std::time::Duration::as_millis, crate::p06_timers::clock::no_u128)]
    #[kani::stub(std::time::Duration::as_secs, crate::p06_timers::clock::no_u64)]
    #[kani::stub(std::time::Duration::subsec_nanos, crate::p06_timers::clock::no_u32)]
    #[kani::stub(std::time::Duration::subsec_micros, crate::p06_timers::clock::no_u32)]
    #[kani::stub(std::time::Duration::subsec_millis, crate::p06_timers::clock::no_u32)]
    #[kani::stub(std::time::Duration::new, crate::p06_timers::clock::new)]
    #[kani::stub(std::time::Duration::from_secs, crate::p06_timers::clock::no_from)]
    #[kani::stub(std::time::Duration::from_millis, crate::p06_timers::clock::no_from)]
    #[kani::stub(std::time::Duration::from_micros, crate::p06_timers::clock::no_from)]
    fn $f(ins: [bool; 4], pts: [u16; 4], dt: [u16; 4], reads: [u16; 2]) -> Result<(), usize> =
            history(real::$f, $k, ins, pts.map(|x| x as i64), dt.map(|x| x as i64), 0, reads.map(|x| x as i64));
        post r r.is_ok();
    )* }
    // longer histories over a few preset and step sizes
    contracts! { group $h by native; $(
        fn $f(b: [u8; 16], pt: [u16; 2], unit: u32, t0: u32) -> Result<(), usize> = {
            let u = [1, 1, 7, 1000, 999_999_999, 1_000_000_000, 3_600_000_000_000, 10_000_000_000_000_000][unit as usize % 8];
            history(real::$f, $k, b.map(|x| x & 1 == 1), b.map(|x| u * (pt[(x as usize >> 1) & (x as usize >> 4) & 1] as i64 % 50)),
                b.map(|x| u * ((x >> 2) as i64 % 40)), (t0 as i64) << 20, [0; 2])
        };
        post r r.is_ok();
    )* }
} }
hists!(hist_tp, long_tp, Kind::Tp, TP, TP_TIME, TP_LTIME);
hists!(hist_ton, long_ton, Kind::Ton, TON, TON_TIME, TON_LTIME);
hists!(hist_tof, long_tof, Kind::Tof, TOF, TOF_TIME, TOF_LTIME);

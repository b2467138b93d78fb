//! P02: SR (set dominant) and RS (reset dominant).
use crate::core::*;
use iec61131std::bistable_functionblocks as real;

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Bi {
    pub set: bool,
    pub reset: bool,
    pub q: bool,
}

fn step(f: unsafe extern "C" fn(&mut real::SetResetParams), set: bool, reset: bool, q: bool) -> Bi {
    Instance::new(Bi { set, reset, q }).call(|m| unsafe { f(m) })
}

contracts! { group bistable;
    fn SR(set: bool, reset: bool, q: bool) -> Bi = step(real::SR, set, reset, q);
    given same::<Bi, real::SetResetParams>();
    post r r.q == (if set { true } else if reset { false } else { q }) && r.set == set && r.reset == reset;

    fn RS(set: bool, reset: bool, q: bool) -> Bi = step(real::RS, set, reset, q);
    given same::<Bi, real::SetResetParams>();
    post r r.q == (if reset { false } else if set { true } else { q }) && r.set == set && r.reset == reset;
}

/// Histories from zeroed memory, judged by the outputs alone: the latch holds between scans.
fn hist(f: unsafe extern "C" fn(&mut real::SetResetParams), ins: [(bool, bool); 6]) -> [bool; 6] {
    let mut m = Instance::new(Bi { set: false, reset: false, q: false });
    ::core::array::from_fn(|i| {
        (m.m.set, m.m.reset) = ins[i];
        m.call(|x| unsafe { f(x) }).q
    })
}
fn pairs(s: [bool; 6], r: [bool; 6]) -> [(bool, bool); 6] {
    ::core::array::from_fn(|i| (s[i], r[i]))
}
fn latch(s: [bool; 6], r: [bool; 6], set_wins: bool) -> [bool; 6] {
    let mut q = false;
    ::core::array::from_fn(|i| {
        q = if s[i] && r[i] { set_wins } else if s[i] { true } else if r[i] { false } else { q };
        q
    })
}
contracts! { group bistable_histories by proof;
    fn SR_history(s: [bool; 6], r: [bool; 6]) -> [bool; 6] = hist(real::SR, pairs(s, r));
    post q *q == latch(s, r, true);
    fn RS_history(s: [bool; 6], r: [bool; 6]) -> [bool; 6] = hist(real::RS, pairs(s, r));
    post q *q == latch(s, r, false);
}

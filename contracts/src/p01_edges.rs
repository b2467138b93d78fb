//! P01: R_TRIG / F_TRIG. State is the FB's own memory (CLK, Q, internal), so a contract over every state and every
//! input is inductive: it covers every call history.
use crate::core::*;
use iec61131std::flanks as real;

/// The memory the ST declaration gives the FB: CLK, Q, and one internal byte.
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Trig {
    pub clk: bool,
    pub q: bool,
    pub internal: bool,
}

fn step(f: extern "C" fn(&mut real::Trigger), clk: bool, q: bool, internal: bool) -> Trig {
    Instance::new(Trig { clk, q, internal }).call(|m| f(m))
}

contracts! { group edges;
    // internal holds the input of the previous call
    fn R_TRIG(clk: bool, q: bool, internal: bool) -> Trig = step(real::R_TRIG, clk, q, internal);
    given same::<Trig, real::Trigger>();
    post r r.q == (clk && !internal) && r.internal == clk && r.clk == clk;

    fn F_TRIG(clk: bool, q: bool, internal: bool) -> Trig = step(real::F_TRIG, clk, q, internal);
    given same::<Trig, real::Trigger>();
    post r r.q == (!clk && internal) && r.internal == clk && r.clk == clk;
}

/// Histories from the zeroed FB: Q is true exactly on the scans on which the input changed.
fn hist(f: extern "C" fn(&mut real::Trigger), ins: [bool; 6]) -> [bool; 6] {
    let mut m = Instance::new(Trig { clk: false, q: false, internal: false });
    let mut out = [false; 6];
    for i in 0..6 {
        m.m.clk = ins[i];
        out[i] = m.call(|x| f(x)).q;
    }
    out
}
contracts! { group edge_histories by proof;
    fn R_TRIG_history(ins: [bool; 6]) -> [bool; 6] = hist(real::R_TRIG, ins);
    post r (0..6).all(|i| r[i] == (ins[i] && !(i > 0 && ins[i - 1])));
    fn F_TRIG_history(ins: [bool; 6]) -> [bool; 6] = hist(real::F_TRIG, ins);
    post r (0..6).all(|i| r[i] == (!ins[i] && (i > 0 && ins[i - 1])));
}

//! P33: TIME(), natively over the real clock call with the reading replaced: this module defines `clock_gettime` for
//! the whole process (readings of other clocks are passed to the kernel).
use crate::core::*;
use iec61131std::extra_functions as real;

#[cfg(not(kani))]
mod fake {
    use std::cell::Cell;
    thread_local! { pub static NOW: Cell<Option<(i64, i64)>> = const { Cell::new(None) }; pub static READS: Cell<u32> = const { Cell::new(0) }; }
    #[repr(C)]
    pub struct Timespec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    /// Each reading after the first shows 1.000000001 s more than the one before.
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32 {
        if clock == 0 {
            if let Ok(Some((s, n))) = NOW.try_with(|x| x.get()) {
                let k = READS.with(|r| { let k = r.get(); r.set(k + 1); k }) as i64;
                let n = n + k;
                *ts = Timespec { sec: s + k + n / 1_000_000_000, nsec: n % 1_000_000_000 };
                return 0;
            }
        }
        syscall(228, clock, ts) as i32
    }
}
fn at(s: u32, n: u32) -> i64 {
    // local time is 5 h 30 min ahead of UTC, all year
    std::env::set_var("TZ", "VER-5:30");
    // chrono looks at TZ again when a second has passed: make it look before the reading that counts
    fake::READS.with(|r| r.set(0));
    fake::NOW.with(|x| x.set(Some((s as i64, n as i64))));
    let r = guarded(|| real::TIME());
    fake::NOW.with(|x| x.set(None));
    r.unwrap()
}
#[cfg(not(kani))]
contracts! { group clock by native;
    fn TIME(s: u32, n: u32) -> i64 = at(s, n % 1_000_000_000);
    post r *r == ((s as i64 + 19_800) % 86_400) * 1_000_000_000 + n as i64 % 1_000_000_000;
}

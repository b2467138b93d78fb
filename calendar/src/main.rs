//! chrono's NaiveDate over its whole domain: what verus/shims/chrono.rs and vlib/chrono.py assume of the calendar date.
//! ymd_day, ymd_valid are the shim's, written out.
use chrono::{Datelike, NaiveDate, TimeDelta, Weekday};

fn leap(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}
fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
fn before_month(y: i64, m: i64) -> i64 {
    (if m <= 1 { 0 } else { [31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334][(m - 2).min(10) as usize] }) + (m > 2 && leap(y)) as i64
}
fn ymd_valid(y: i64, m: i64, d: i64) -> bool {
    (1..=12).contains(&m) && 1 <= d && d <= month_len(y, m)
}
fn ymd_day(y: i64, m: i64, d: i64) -> i64 {
    365 * (y - 1970) + ((y - 1).div_euclid(4) - (y - 1).div_euclid(100) + (y - 1).div_euclid(400)) - 477 + before_month(y, m) + d - 1
}
const DMIN: i64 = -96_465_292;
const DMAX: i64 = 95_026_236;
const UNIX: i64 = 719_163;

fn fail(what: &str, at: String) -> ! {
    println!("BROKEN {what} {at}");
    std::process::exit(1);
}
macro_rules! hold {
    ($c:expr, $w:expr, $($a:expr),*) => { if !$c { fail($w, format!("{:?}", ($($a,)*))) } };
}
fn dno(d: NaiveDate) -> i64 {
    d.num_days_from_ce() as i64 - UNIX
}

/// every day number: one i32 after the other
fn days(lo: i64, hi: i64) -> u64 {
    let sunday0 = [Weekday::Sun, Weekday::Mon, Weekday::Tue, Weekday::Wed, Weekday::Thu, Weekday::Fri, Weekday::Sat];
    let epoch = NaiveDate::from_ymd_opt(1970, 1, 1).unwrap();
    for ce in lo..hi {
        let day = ce - UNIX;
        let got = NaiveDate::from_num_days_from_ce_opt(ce as i32);
        hold!(got.is_some() == (DMIN <= day && day <= DMAX), "from_num_days_from_ce_opt: range", ce);
        let Some(t) = got else { continue };
        hold!(dno(t) == day, "num_days_from_ce", ce);
        let (y, m, d) = (t.year() as i64, t.month() as i64, t.day() as i64);
        hold!(ymd_valid(y, m, d) && ymd_day(y, m, d) == day, "year, month, day", ce, y, m, d);
        hold!(t.month0() as i64 == m - 1 && t.day0() as i64 == d - 1, "month0, day0", ce);
        hold!(t.weekday() == sunday0[(day + 4).rem_euclid(7) as usize], "weekday", ce);
        hold!(NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32) == Some(t), "from_ymd_opt", ce);
        let (first, o) = (ymd_day(y, 1, 1), t.ordinal());
        hold!(o as i64 == day - first + 1 && t.leap_year() == leap(y), "ordinal, leap_year", ce);
        let one = t.with_ordinal(1);
        hold!(one.map(dno) == Some(first) && one.unwrap().with_ordinal(o) == Some(t), "with_ordinal", ce);
        hold!(t.signed_duration_since(epoch) == TimeDelta::days(day), "signed_duration_since the epoch", ce);
    }
    (hi - lo) as u64
}
/// two dates, a date and a distance (proved, not enumerated): a sample of what was proved
fn pairs(lo: i64, hi: i64) -> u64 {
    let mut n = 0;
    let far = [1, 7, 28, 30, 31, 59, 60, 364, 365, 366, 367, 1461, 36_524, 36_525, 146_096, 146_097, 146_098, 10_000_000, 191_491_528];
    for ce in (lo..hi).step_by(7) {
        let t = NaiveDate::from_num_days_from_ce_opt(ce as i32).unwrap();
        let k = far[(ce.rem_euclid(19)) as usize] + ce.rem_euclid(5) - 2;
        for k in [0, 1, -1, k, -k] {
            let to = ce - UNIX + k;
            let got = t.checked_add_signed(TimeDelta::days(k));
            hold!(got.is_some() == (DMIN <= to && to <= DMAX), "checked_add_signed: range", ce, k);
            if let Some(u) = got {
                hold!(dno(u) == to, "checked_add_signed", ce, k);
                hold!(u.signed_duration_since(t) == TimeDelta::days(k), "signed_duration_since", ce, k);
            }
            n += 1;
        }
    }
    n
}
/// every year of chrono's range and around it, every month and day up to the first that are not any
fn names(lo: i64, hi: i64) -> u64 {
    let mut n = 0;
    for y in lo..hi {
        for m in (0..=13).chain([16, 255, 256, 1 << 31, u32::MAX as i64]) {
            for d in (0..=32).chain([63, 64, 256, 1 << 31, u32::MAX as i64]) {
                let got = NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32);
                let within = (-262_143..=262_142).contains(&y);
                hold!(got.is_some() == (within && ymd_valid(y, m, d)), "from_ymd_opt: valid", y, m, d);
                n += 1;
            }
        }
    }
    n
}
fn spread(lo: i64, hi: i64, f: fn(i64, i64) -> u64) -> u64 {
    let parts = 64;
    let next = std::sync::atomic::AtomicI64::new(0);
    let total = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= parts {
                    break;
                }
                let at = |i: i64| lo + ((hi - lo) as i128 * i as i128 / parts as i128) as i64;
                total.fetch_add(f(at(i), at(i + 1)), std::sync::atomic::Ordering::SeqCst);
            });
        }
    });
    total.into_inner()
}
fn main() {
    let d = spread(i32::MIN as i64, i32::MAX as i64 + 1, days);
    let p = spread(DMIN + UNIX, DMAX + UNIX + 1, pairs);
    let n = spread(-263_000, 263_001, names);
    for y in [i32::MIN, i32::MIN + 1, -1_000_000, 1_000_000, i32::MAX - 1, i32::MAX] {
        hold!(NaiveDate::from_ymd_opt(y, 1, 1).is_none(), "from_ymd_opt: year", y);
    }
    for (i, w) in [Weekday::Sun, Weekday::Mon, Weekday::Tue, Weekday::Wed, Weekday::Thu, Weekday::Fri, Weekday::Sat].into_iter().enumerate() {
        let i = i as u32;
        hold!(w.num_days_from_sunday() == i && w.num_days_from_monday() == (i + 6) % 7 && w.number_from_sunday() == i + 1 && w.number_from_monday() == (i + 6) % 7 + 1, "weekday numbers", i);
    }
    println!("{{\"day_numbers\": {d}, \"names\": {n}, \"pairs_sampled\": {p}, \"dates\": {}}}", DMAX - DMIN + 1);
}

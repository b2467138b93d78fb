//! The proleptic Gregorian calendar on plain integers: the oracle for everything the crate computes with chrono.
pub const SEC: i128 = 1_000_000_000;
pub const DAY: i128 = 86_400 * SEC;

pub fn leap(y: i128) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}
pub fn month_len(y: i128, m: i128) -> i128 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => 28 + leap(y) as i128,
        _ => 0,
    }
}
/// Days before the first of January of year y, counted from 1970-01-01.
fn year_start(y: i128) -> i128 {
    let p = y - 1;
    365 * (y - 1970) + (p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400)) - (492 - 19 + 4)
}
/// Day number of a date (1970-01-01 is 0), if there is such a date.
pub fn day_number(y: i128, m: i128, d: i128) -> Option<i128> {
    if !(1..=12).contains(&m) || d < 1 || d > month_len(y, m) {
        return None;
    }
    Some(year_start(y) + (1..m).map(|k| month_len(y, k)).sum::<i128>() + d - 1)
}
/// (year, month, day) of a day number.
pub fn date_of(day: i128) -> (i128, i128, i128) {
    let mut y = 1970 + day.div_euclid(366);
    while year_start(y + 1) <= day {
        y += 1;
    }
    while year_start(y) > day {
        y -= 1;
    }
    let (mut m, mut d) = (1, day - year_start(y));
    while d >= month_len(y, m) {
        d -= month_len(y, m);
        m += 1;
    }
    (y, m, d + 1)
}
pub struct Fields {
    pub y: i128, pub mo: i128, pub d: i128, pub h: i128, pub mi: i128, pub s: i128, pub ns: i128, pub day: i128,
}
pub fn fields(t: i64) -> Fields {
    let day = (t as i128).div_euclid(DAY);
    let tod = (t as i128).rem_euclid(DAY);
    let (y, mo, d) = date_of(day);
    let s = tod / SEC;
    Fields { y, mo, d, h: s / 3600, mi: s / 60 % 60, s: s % 60, ns: tod % SEC, day }
}
pub fn fits(x: i128) -> bool {
    x >= i64::MIN as i128 && x <= i64::MAX as i128
}

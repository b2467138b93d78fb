    pub mod chrono {
        pub use super::super::{Utc, NaiveDate, NaiveTime, NaiveDateTime, DateTime, Local, Weekday};
        pub use super::super::Delta as Duration;
        pub use super::super::Delta as TimeDelta;
    }
    pub mod time { pub use super::super::SDuration as Duration; }

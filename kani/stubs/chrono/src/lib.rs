//! Empty bodies for wall-clock formatting: only log messages and `Display` impls use it.
use std::fmt;
use std::marker::PhantomData;
use std::time::SystemTime;

pub struct Local;
pub struct Utc;

pub struct DateTime<Z>(PhantomData<Z>);
impl<Z> From<SystemTime> for DateTime<Z> {
    fn from(_t: SystemTime) -> Self {
        DateTime(PhantomData)
    }
}
impl<Z> From<DateTime<Z>> for SystemTime {
    fn from(_t: DateTime<Z>) -> Self {
        SystemTime::UNIX_EPOCH
    }
}
pub struct Formatted;
impl fmt::Display for Formatted {
    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl<Z> DateTime<Z> {
    pub fn format(&self, _fmt: &str) -> Formatted {
        Formatted
    }
    pub fn to_rfc3339(&self) -> String {
        String::new()
    }
}

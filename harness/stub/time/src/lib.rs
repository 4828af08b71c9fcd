//! Stand-in for time: points in time as nanoseconds since the epoch.
pub mod error {
    #[derive(Debug)]
    pub struct ComponentRange;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Duration(i128);
impl Duration {
    pub const fn milliseconds(v: i64) -> Self {
        Self(v as i128 * 1_000_000)
    }
    pub const fn seconds(v: i64) -> Self {
        Self(v as i128 * 1_000_000_000)
    }
    pub const fn nanoseconds(v: i64) -> Self {
        Self(v as i128)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct OffsetDateTime(i128);
/// +-9999 years, as time without the large-dates feature
const MIN: i128 = -377705116800;
const MAX: i128 = 253402300799;
impl OffsetDateTime {
    pub fn from_unix_timestamp(s: i64) -> Result<Self, error::ComponentRange> {
        if (s as i128) < MIN || s as i128 > MAX {
            return Err(error::ComponentRange);
        }
        Ok(Self(s as i128 * 1_000_000_000))
    }
    pub fn from_unix_timestamp_nanos(n: i128) -> Result<Self, error::ComponentRange> {
        if n < MIN * 1_000_000_000 || n >= (MAX + 1) * 1_000_000_000 {
            return Err(error::ComponentRange);
        }
        Ok(Self(n))
    }
    pub fn unix_timestamp(self) -> i64 {
        self.0.div_euclid(1_000_000_000) as i64
    }
    pub fn unix_timestamp_nanos(self) -> i128 {
        self.0
    }
}
impl std::ops::Add<Duration> for OffsetDateTime {
    type Output = Self;
    fn add(self, d: Duration) -> Self {
        Self(self.0 + d.0)
    }
}

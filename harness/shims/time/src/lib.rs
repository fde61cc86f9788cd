//! Stand-in for the part of `time` linkspace uses: a unix timestamp formatted as RFC 2822.
pub mod format_description {
    pub mod well_known {
        #[derive(Clone, Copy, Debug)]
        pub struct Rfc2822;
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct OffsetDateTime {
    secs: i64,
}
#[derive(Debug)]
pub struct Error;
const MIN: i128 = -377705116800;
const MAX: i128 = 253402300799;
impl OffsetDateTime {
    pub fn from_unix_timestamp_nanos(n: i128) -> Result<Self, Error> {
        let s = n.div_euclid(1_000_000_000);
        if !(MIN..=MAX).contains(&s) {
            return Err(Error);
        }
        Ok(OffsetDateTime { secs: s as i64 })
    }
    pub fn format(&self, _f: &format_description::well_known::Rfc2822) -> Result<String, Error> {
        let days = self.secs.div_euclid(86400);
        let sod = self.secs.rem_euclid(86400);
        let wd = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][days.rem_euclid(7) as usize];
        // days to civil date (proleptic Gregorian)
        let z = days + 719468;
        let era = z.div_euclid(146097);
        let doe = z.rem_euclid(146097);
        let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
        let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
        let mp = (5 * doy + 2) / 153;
        let d = doy - (153 * mp + 2) / 5 + 1;
        let m = if mp < 10 { mp + 3 } else { mp - 9 };
        let y = yoe + era * 400 + i64::from(m <= 2);
        if y < 1900 {
            return Err(Error);
        }
        let mon = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][(m - 1) as usize];
        Ok(format!("{wd}, {d:02} {mon} {y:04} {:02}:{:02}:{:02} +0000", sod / 3600, sod / 60 % 60, sod % 60))
    }
}

//! Calendar arithmetic of our own (independent of chrono).

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Date {
    pub y: i32,
    pub m: u32,
    pub d: u32,
}

pub const FORMATS: &[&str] = &[
    "%Y/%m/%d", "%Y-%m-%d", "%d.%m.%Y", "%m/%d/%Y", "%Y.%m.%d", "%d-%b-%Y", "%Y%m%d", "%j-%Y", "%F", "%d|%m|%Y", "%d/%m/%y",
];

/// How many of the formats can tell the years around this date. (Two digits can't tell all.)
pub fn formats(d: Date) -> usize {
    if d.y > 1975 && d.y < 2060 { FORMATS.len() } else { FORMATS.len() - 1 }
}
const MON: &[&str] = &["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

pub fn leap(y: i32) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
pub fn month_len(y: i32, m: u32) -> u32 {
    match m {
        2 => if leap(y) { 29 } else { 28 },
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

impl Date {
    pub fn new(y: i32, m: u32, d: u32) -> Date {
        Date { y, m, d }
    }
    /// Days since 1970-01-01.
    pub fn days(self) -> i64 {
        let y = if self.m <= 2 { self.y - 1 } else { self.y } as i64;
        let era = y.div_euclid(400);
        let yoe = y - era * 400;
        let m = self.m as i64;
        let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + self.d as i64 - 1;
        era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
    }
    pub fn from_days(z: i64) -> Date {
        let z = z + 719468;
        let era = z.div_euclid(146097);
        let doe = z - era * 146097;
        let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
        let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
        let mp = (5 * doy + 2) / 153;
        let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
        let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
        let y = (yoe + era * 400 + if m <= 2 { 1 } else { 0 }) as i32;
        Date { y, m, d }
    }
    pub fn plus(self, n: i64) -> Date {
        Date::from_days(self.days() + n)
    }
    /// 0 = Monday
    pub fn weekday(self) -> usize {
        (self.days() + 3).rem_euclid(7) as usize
    }
    pub fn epoch_noon(self) -> i64 {
        self.days() * 86400 + 43200
    }
    pub fn iso(self) -> String {
        format!("{:04}-{:02}-{:02}", self.y, self.m, self.d)
    }
    pub fn yday(self) -> i64 {
        self.days() - Date::new(self.y, 1, 1).days() + 1
    }
    pub fn fmt(self, f: &str) -> String {
        self.fmt_pad(f, true)
    }
    pub fn fmt_pad(self, f: &str, pad: bool) -> String {
        if f == "%F" {
            return self.fmt_pad("%Y-%m-%d", pad);
        }
        let mut out = String::new();
        let mut it = f.chars();
        let p2 = |x: i64| if pad { format!("{:02}", x) } else { format!("{}", x) };
        while let Some(c) = it.next() {
            if c != '%' {
                out.push(c);
                continue;
            }
            match it.next() {
                Some('Y') => out += &format!("{:04}", self.y),
                Some('y') => out += &format!("{:02}", self.y % 100),
                Some('m') => out += &p2(self.m as i64),
                Some('d') => out += &p2(self.d as i64),
                Some('b') => out += MON[self.m as usize - 1],
                Some('j') => out += &format!("{:03}", self.yday()),
                x => panic!("format {:?}", x),
            }
        }
        out
    }
    /// Parses what `fmt` writes (unpadded also). None if it doesn't match.
    pub fn parse(s: &str, f: &str) -> Option<Date> {
        if f == "%F" {
            return Date::parse(s, "%Y-%m-%d");
        }
        let (mut y, mut m, mut d, mut j) = (None, None, None, None);
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        let mut it = f.chars();
        let num = |i: &mut usize, max: usize| -> Option<i64> {
            let st = *i;
            while *i < b.len() && *i - st < max && b[*i].is_ascii_digit() {
                *i += 1;
            }
            b[st..*i].iter().collect::<String>().parse().ok()
        };
        while let Some(c) = it.next() {
            if c != '%' {
                if b.get(i) != Some(&c) {
                    return None;
                }
                i += 1;
                continue;
            }
            match it.next()? {
                'Y' => y = Some(num(&mut i, 4)? as i32),
                'y' => {
                    let v = num(&mut i, 2)? as i32;
                    y = Some(if v < 70 { 2000 + v } else { 1900 + v })
                }
                'm' => m = Some(num(&mut i, 2)? as u32),
                'd' => d = Some(num(&mut i, 2)? as u32),
                'j' => j = Some(num(&mut i, 3)?),
                'b' => {
                    let t: String = b.get(i..i + 3)?.iter().collect();
                    m = Some(MON.iter().position(|x| *x == t)? as u32 + 1);
                    i += 3;
                }
                _ => return None,
            }
        }
        if i != b.len() {
            return None;
        }
        if let Some(j) = j {
            return Some(Date::new(y?, 1, 1).plus(j - 1));
        }
        let (y, m, d) = (y?, m?, d?);
        if m < 1 || m > 12 || d < 1 || d > month_len(y, m) {
            return None;
        }
        Some(Date { y, m, d })
    }
}

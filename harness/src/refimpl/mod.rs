//! Independent reference implementations written from the standards
//! (ISO 13818-1, EN 300 468), not from the code under test.

pub mod desc;
pub mod tables;
pub mod text;
pub mod ts;

use crate::engine::Rng;

/// MPEG-2 CRC-32, bit by bit
pub fn crc(data: &[u8]) -> u32 {
    let mut r: u32 = 0xFFFF_FFFF;
    for &b in data {
        for i in (0..8).rev() {
            let top = (r >> 31) ^ u32::from((b >> i) & 1);
            r <<= 1;
            if top == 1 {
                r ^= 0x04C1_1DB7;
            }
        }
    }
    r
}

/// the same value, byte-wise with a table built from the bitwise definition; for bulk use
pub fn crc_fast(data: &[u8]) -> u32 {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut r = (i as u32) << 24;
            for _ in 0..8 {
                r = if r >> 31 == 1 { (r << 1) ^ 0x04C1_1DB7 } else { r << 1 };
            }
            *e = r;
        }
        t
    });
    let mut r: u32 = 0xFFFF_FFFF;
    for &b in data {
        r = (r << 8) ^ t[((r >> 24) as u8 ^ b) as usize];
    }
    r
}

/// reserved bits: all ones, or random
pub enum Rsv {
    Ones,
    Rand(Rng),
}

impl Rsv {
    pub fn get(&mut self, width: u32) -> u64 {
        match self {
            Rsv::Ones => (1u64 << width) - 1,
            Rsv::Rand(r) => r.upto((1u64 << width) - 1),
        }
    }

    /// decimal digit that is not read
    pub fn digit(&mut self) -> u64 {
        match self {
            Rsv::Ones => 0,
            Rsv::Rand(r) => r.upto(9),
        }
    }
}

/// bit writer
#[derive(Default)]
pub struct Bw {
    pub v: Vec<u8>,
    n: u32,
}

impl Bw {
    pub fn new() -> Bw {
        Bw::default()
    }
    pub fn put(&mut self, value: u64, width: u32) -> &mut Bw {
        assert!(width == 64 || value >> width == 0, "harness: value {} too wide for {} bits", value, width);
        for i in (0..width).rev() {
            if self.n % 8 == 0 {
                self.v.push(0);
            }
            let bit = ((value >> i) & 1) as u8;
            *self.v.last_mut().unwrap() |= bit << (7 - self.n % 8);
            self.n += 1;
        }
        self
    }
    pub fn bytes(&mut self, b: &[u8]) -> &mut Bw {
        assert!(self.n % 8 == 0);
        self.v.extend_from_slice(b);
        self.n += 8 * b.len() as u32;
        self
    }
    pub fn done(&mut self) -> Vec<u8> {
        assert!(self.n % 8 == 0);
        std::mem::take(&mut self.v)
    }
}

/// bit reader
pub struct Br<'a> {
    v: &'a [u8],
    n: usize,
}

impl<'a> Br<'a> {
    pub fn new(v: &'a [u8]) -> Br<'a> {
        Br { v, n: 0 }
    }
    pub fn get(&mut self, width: u32) -> Result<u64, String> {
        let mut r = 0;
        for _ in 0..width {
            let b = self.v.get(self.n / 8).ok_or("reads past the end")?;
            r = (r << 1) | u64::from((b >> (7 - self.n % 8)) & 1);
            self.n += 1;
        }
        Ok(r)
    }
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        assert!(self.n % 8 == 0);
        let p = self.n / 8;
        if p + n > self.v.len() {
            return Err("reads past the end".into());
        }
        self.n += 8 * n;
        Ok(&self.v[p..p + n])
    }
    pub fn left(&self) -> usize {
        self.v.len() - self.n / 8
    }
}

/// decimal digits as nibbles
pub fn to_bcd(mut v: u64, digits: u32) -> u64 {
    let mut r = 0;
    for i in 0..digits {
        r |= (v % 10) << (4 * i);
        v /= 10;
    }
    assert!(v == 0, "harness: too many digits");
    r
}

pub fn from_bcd(v: u64, digits: u32) -> Option<u64> {
    let mut r = 0;
    for i in (0..digits).rev() {
        let d = (v >> (4 * i)) & 15;
        if d > 9 {
            return None;
        }
        r = r * 10 + d;
    }
    Some(r)
}

fn leap(y: u64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

/// calendar date of a day counted from 1970-01-01, by plain counting
pub fn civil(mut days: u64) -> (u64, u64, u64) {
    let mut y = 1970;
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if days < n {
            break;
        }
        days -= n;
        y += 1;
    }
    let ml = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while days >= ml[m] {
        days -= ml[m];
        m += 1;
    }
    (y, m as u64 + 1, days + 1)
}

/// EN 300 468 annex C: date to MJD
pub fn mjd_of_civil(y: u64, m: u64, d: u64) -> u64 {
    let l = u64::from(m == 1 || m == 2);
    let y = y - 1900;
    14956 + d + ((y - l) * 36525 / 100) + ((m + 1 + l * 12) * 306_001 / 10_000)
}

pub fn mjd_of_unix(t: u64) -> u64 {
    let (y, m, d) = civil(t / 86400);
    mjd_of_civil(y, m, d)
}

/// last second whose day still fits the 16-bit MJD
pub const TIME_MAX: u64 = (65535 - 40587) * 86400 + 86399;

/// 40-bit UTC time of the standard
pub fn utc40(t: u64) -> u64 {
    let s = t % 86400;
    (mjd_of_unix(t) << 24) | (to_bcd(s / 3600, 2) << 16) | (to_bcd(s / 60 % 60, 2) << 8) | to_bcd(s % 60, 2)
}

/// reads the 40-bit UTC time by the standard's formula
pub fn unix_of_utc40(v: u64) -> Result<u64, String> {
    let mjd = v >> 24;
    // annex C, in integers
    let yp = (mjd * 100 - 1_507_820) / 36525;
    let mp = (mjd * 10_000 - 149_561_000 - (yp * 36525 / 100) * 10_000) / 306_001;
    let d = mjd - 14956 - yp * 36525 / 100 - mp * 306_001 / 10_000;
    let k = u64::from(mp == 14 || mp == 15);
    let y = 1900 + yp + k;
    let m = mp - 1 - k * 12;
    // days since the epoch by plain counting
    let mut days = 0;
    for yy in 1970..y {
        days += if leap(yy) { 366 } else { 365 };
    }
    let ml = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if !(1..=12).contains(&m) || d == 0 || d > ml[m as usize - 1] {
        return Err(format!("MJD {} is no date: {}-{}-{}", mjd, y, m, d));
    }
    for x in &ml[..m as usize - 1] {
        days += x;
    }
    days += d - 1;
    let s = v & 0xFF_FFFF;
    Ok(days * 86400 + hms_of_bcd(s)?)
}

pub fn hms_of_bcd(v: u64) -> Result<u64, String> {
    let h = from_bcd(v >> 16, 2).ok_or("hour is not BCD")?;
    let m = from_bcd((v >> 8) & 0xFF, 2).ok_or("minute is not BCD")?;
    let s = from_bcd(v & 0xFF, 2).ok_or("second is not BCD")?;
    if m > 59 || s > 59 {
        return Err(format!("time field {:06x}", v));
    }
    Ok(h * 3600 + m * 60 + s)
}

pub fn bcd_of_hms(t: u64) -> u64 {
    (to_bcd(t / 3600, 2) << 16) | (to_bcd(t / 60 % 60, 2) << 8) | to_bcd(t % 60, 2)
}

pub fn hex(b: &[u8]) -> String {
    let mut o = String::new();
    for (i, x) in b.iter().enumerate() {
        if i >= 64 {
            o.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        o.push_str(&format!("{:02x}", x));
    }
    o
}

/// first position at which two byte strings differ
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let f = |v: &[u8]| hex(&v[n.saturating_sub(4).min(v.len())..v.len().min(n + 12)]);
    format!("lengths {} and {}, first difference at {}: ..{} against ..{}", a.len(), b.len(), n, f(a), f(b))
}

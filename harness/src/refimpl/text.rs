//! DVB text: character tables and wire form.

use crate::engine::Src;
use super::hex;

pub const TABLES: [u8; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 21];
pub const UTF8: u8 = 21;

include!("tables_data.rs");

/// table of 96 code points for 0xA0..=0xFF; 0 is unassigned
pub fn table(cp: u8) -> &'static [u16; 96] {
    match cp {
        0 => &T0, 1 => &T1, 2 => &T2, 3 => &T3, 4 => &T4, 5 => &T5, 6 => &T6, 7 => &T7, 8 => &T8,
        9 => &T9, 10 => &T10, 11 => &T11, 13 => &T13, 14 => &T14, 15 => &T15,
        _ => panic!("harness: no table {}", cp),
    }
}

pub fn decode(cp: u8, data: &[u8]) -> String {
    if cp == UTF8 {
        return String::from_utf8_lossy(data).into_owned();
    }
    let t = table(cp);
    let mut o = String::new();
    for &b in data {
        match b {
            0..=0x7F => o.push(b as char),
            0x80..=0x9F => {}
            _ => match t[b as usize - 0xA0] {
                0 => o.push('?'),
                u => o.push(char::from_u32(u.into()).unwrap()),
            },
        }
    }
    o
}

pub fn encode(cp: u8, s: &str) -> Vec<u8> {
    if cp == UTF8 {
        return s.as_bytes().to_vec();
    }
    let t = table(cp);
    let mut o = Vec::new();
    for c in s.chars() {
        let u = c as u32;
        if u < 0x80 {
            o.push(u as u8);
        } else if u < 0xA0 {
            continue;
        } else if let Some(p) = t.iter().position(|&x| u32::from(x) == u) {
            o.push(0xA0 + p as u8);
        } else {
            match c {
                '\u{AB}' | '\u{BB}' | '\u{201C}' | '\u{201D}' | '\u{201F}' => o.push(b'"'),
                '\u{2018}' | '\u{2019}' | '\u{201B}' => o.push(b'\''),
                '\u{2026}' => o.extend_from_slice(b"..."),
                _ => o.push(b'?'),
            }
        }
    }
    o
}

/// selector bytes written before the text of a table
pub fn selector(cp: u8) -> Vec<u8> {
    match cp {
        0 => vec![],
        1..=4 => vec![0x10, 0, cp],
        5..=15 => vec![cp - 4],
        UTF8 => vec![0x15],
        _ => panic!("harness: no selector {}", cp),
    }
}

/// table and text of a received string by the standard; None: reserved or unsupported selector
pub fn select(b: &[u8]) -> Option<(u8, &[u8])> {
    match b {
        [] => Some((0, b)),
        [x, ..] if *x >= 0x20 => Some((0, b)),
        [x @ 1..=11, r @ ..] if *x != 8 => Some((x + 4, r)),
        [0x10, 0, n @ 1..=15, r @ ..] if *n != 12 => Some((*n, r)),
        [0x15, r @ ..] => Some((UTF8, r)),
        _ => None,
    }
}

#[derive(Clone, PartialEq)]
pub struct TextM {
    pub cp: u8,
    pub data: Vec<u8>,
}

impl std::fmt::Debug for TextM {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "T{}:{}", self.cp, hex(&self.data))
    }
}

impl TextM {
    pub fn wire(&self) -> Vec<u8> {
        if self.data.is_empty() {
            return vec![];
        }
        let mut v = selector(self.cp);
        v.extend_from_slice(&self.data);
        v
    }

    pub fn from_wire(b: &[u8]) -> Result<TextM, String> {
        let (cp, d) = select(b).ok_or_else(|| format!("reserved text selector {}", hex(&b[..b.len().min(3)])))?;
        Ok(TextM { cp: if d.is_empty() { 0 } else { cp }, data: d.to_vec() })
    }

    pub fn to_lib(&self) -> mpegts::textcode::StringDVB {
        mpegts::textcode::StringDVB::from(self.wire().as_slice())
    }

    pub fn same(&self, l: &mpegts::textcode::StringDVB) -> Result<(), String> {
        if l.as_bytes() != self.data.as_slice() {
            return Err(format!("text {} instead of {}", hex(l.as_bytes()), hex(&self.data)));
        }
        if !self.data.is_empty() && l.get_codepage() != self.cp {
            return Err(format!("text table {} instead of {}", l.get_codepage(), self.cp));
        }
        Ok(())
    }

    /// text whose wire form has at most `max` bytes
    pub fn gen(s: &mut Src, max: usize) -> TextM {
        let cp = gen_cp(s);
        let room = max.saturating_sub(selector(cp).len());
        let n = gen_len(s, room);
        TextM { cp, data: gen_data(s, cp, n) }.norm()
    }

    pub fn norm(mut self) -> TextM {
        if self.data.is_empty() {
            self.cp = 0;
        }
        // text without selector cannot begin with a selector byte
        if self.cp == 0 && self.data.first().map_or(false, |&b| b < 0x20) {
            self.data[0] |= 0x20;
        }
        self
    }
}

pub fn gen_len(s: &mut Src, room: usize) -> usize {
    match s.weighted(&[6, 2, 1]) {
        0 => s.size(0, room.min(24) as u64) as usize,
        1 => s.int(0, room as u64) as usize,
        _ => room - s.size(0, room.min(4) as u64) as usize,
    }
}

pub fn gen_cp(s: &mut Src) -> u8 {
    match s.weighted(&[4, 3, 6]) {
        0 => 0,
        1 => UTF8,
        _ => *s.pick(&TABLES),
    }
}

/// characters of every UTF-8 length
pub fn gen_char(s: &mut Src) -> char {
    let u = match s.weighted(&[4, 3, 3, 3, 1]) {
        0 => s.uni(0x20, 0x7E),
        1 => s.int(0x80, 0x7FF),
        2 => s.int(0x800, 0xFFFF),
        3 => s.int(0x1_0000, 0x10_FFFF),
        _ => *s.pick(&[0xAB, 0xBB, 0x2018, 0x2019, 0x201B, 0x201C, 0x201D, 0x201F, 0x2026, 0x20AC, 0x0, 0x80, 0x9F, 0xA0,
            0x7F, 0xFFFD, 0xFEFF, 0x1_0041, 0x1_00E9, 0x2_00A0]),
    };
    char::from_u32(u as u32).unwrap_or('\u{FFFD}')
}

/// about n bytes (never more) of a table
pub fn gen_data(s: &mut Src, cp: u8, n: usize) -> Vec<u8> {
    if cp == UTF8 && !s.chance(1, 6) {
        let mut t = String::new();
        if n > 40 {
            // repeat a few characters
            let k = s.uni(1, 4);
            let cs: Vec<char> = (0..k).map(|_| gen_char(s)).collect();
            let shift = s.uni(0, 3) as usize;
            for _ in 0..shift {
                t.push('a');
            }
            let mut i = 0;
            while t.len() + cs[i % cs.len()].len_utf8() <= n {
                t.push(cs[i % cs.len()]);
                i += 1;
            }
        } else {
            loop {
                let c = gen_char(s);
                if t.len() + c.len_utf8() > n {
                    break;
                }
                t.push(c);
            }
        }
        return t.into_bytes();
    }
    match s.weighted(&[2, 3, 1]) {
        0 => {
            let mut v = s.bytes(n);
            for b in &mut v {
                *b = 0x20 + *b % 0x5F;
            }
            v
        }
        1 => {
            // upper half
            let mut v = s.bytes(n);
            for b in &mut v {
                if *b % 5 != 0 {
                    *b |= 0xA0;
                }
            }
            v
        }
        _ => s.bytes(n),
    }
}

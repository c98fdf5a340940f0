//! Choice-tape property testing engine: generation, replay, shrinking.

use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::sync::OnceLock;

/// Why a case fails.
#[derive(Debug, Clone)]
pub enum Fail {
    /// The property is broken.
    Viol(String),
    /// The property is broken in exactly the way recorded under this signature.
    Known(&'static str, String),
}

pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !($cond) {
            return Err($crate::engine::Fail::Viol(format!($($arg)+)));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b {
            return Err($crate::engine::Fail::Viol(format!(
                "{}: got {:?}, expected {:?}", format!($($arg)+), a, b)));
        }
    }};
}

/// xoshiro256**, seeded with splitmix64
#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        let mut next = || {
            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        };
        Rng([next(), next(), next(), next()])
    }

    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }

    /// uniform in 0..=max
    pub fn upto(&mut self, max: u64) -> u64 {
        if max == u64::MAX {
            return self.next();
        }
        ((u128::from(self.next()) * (u128::from(max) + 1)) >> 64) as u64
    }
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut x: u64 = 0x1234_5678_9ABC_DEF1;
    for &p in parts {
        x ^= p;
        x = Rng::new(x).next();
    }
    x
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

/// Integer literals of the sources under test and their neighbours.
static DICT: OnceLock<Vec<u64>> = OnceLock::new();

fn scan_literals(text: &str, out: &mut Vec<u64>) {
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let prev_word = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
        if c.is_ascii_digit() && !prev_word {
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                j += 1;
            }
            let tok: String = text[i..j].chars().filter(|&c| c != '_').collect::<String>().to_lowercase();
            let v = if let Some(h) = tok.strip_prefix("0x") {
                let h: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                u64::from_str_radix(&h, 16).ok()
            } else if let Some(h) = tok.strip_prefix("0b") {
                let h: String = h.chars().take_while(|c| *c == '0' || *c == '1').collect();
                u64::from_str_radix(&h, 2).ok()
            } else {
                let h: String = tok.chars().take_while(|c| c.is_ascii_digit()).collect();
                h.parse().ok()
            };
            if let Some(v) = v {
                out.push(v);
            }
            i = j;
        } else {
            i += 1;
        }
    }
}

fn scan_dir(dir: &std::path::Path, out: &mut Vec<u64>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut paths: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    paths.sort();
    for p in paths {
        if p.is_dir() {
            scan_dir(&p, out);
        } else if p.extension().map_or(false, |e| e == "rs") {
            // big constant tables would drown the interesting literals
            let name = p.file_name().unwrap().to_string_lossy().to_string();
            if name == "data.rs" || name == "lang.rs" || name == "tests.rs" {
                continue;
            }
            if let Ok(t) = std::fs::read_to_string(&p) {
                let mut v = Vec::new();
                for line in t.lines() {
                    // table rows
                    if line.matches("0x").count() >= 5 {
                        continue;
                    }
                    if line.trim_start().starts_with("//") {
                        continue;
                    }
                    scan_literals(line, &mut v);
                }
                out.append(&mut v);
            }
        }
    }
}

pub fn dict() -> &'static [u64] {
    DICT.get_or_init(|| {
        let mut v = Vec::new();
        scan_dir(std::path::Path::new("/repo/src"), &mut v);
        let mut all = Vec::new();
        for x in v {
            all.push(x);
            all.push(x.wrapping_add(1));
            all.push(x.saturating_sub(1));
        }
        all.extend_from_slice(&[0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 182, 183, 184, 185,
            187, 188, 189, 255, 256, 1020, 1021, 1024, 4092, 4093, 4096, 8191, 8192, 65535]);
        all.sort_unstable();
        all.dedup();
        all
    })
}

/// Source of choices: random (recording) or replaying a tape.
pub struct Src {
    rng: Option<Rng>,
    tape: Vec<u64>,
    pos: usize,
    /// choices taken from the tape before the random ones
    given: usize,
    /// largest value of each choice
    #[cfg(feature = "guided")]
    max: Vec<u64>,
    pub verbose: bool,
    pub notes: Vec<String>,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src {
            rng: Some(Rng::new(seed)),
            tape: Vec::new(),
            pos: 0,
            given: 0,
            #[cfg(feature = "guided")]
            max: Vec::new(),
            verbose: false,
            notes: Vec::new(),
            labels: Vec::new(),
            nontrivial: false,
        }
    }

    pub fn replay(tape: Vec<u64>) -> Src {
        let mut s = Src::random(0);
        s.rng = None;
        s.tape = tape;
        s
    }

    /// a tape that goes on with random choices, which depend on the tape only
    pub fn continued(tape: Vec<u64>) -> Src {
        let mut h = DefaultHasher::new();
        tape.hash(&mut h);
        let mut s = Src::random(h.finish());
        s.given = tape.len();
        s.tape = tape;
        s
    }

    #[cfg(feature = "guided")]
    pub fn len(&self) -> usize {
        self.pos
    }

    /// all choices made by the run, each with its largest value
    #[cfg(feature = "guided")]
    pub fn made(&self) -> Vec<(u64, u64)> {
        self.tape.iter().copied().zip(self.max.iter().copied()).collect()
    }

    /// choices really made by the run
    pub fn consumed(&self) -> Vec<u64> {
        let mut t = self.tape[..self.pos.min(self.tape.len())].to_vec();
        while t.last() == Some(&0) {
            t.pop();
        }
        t
    }

    pub fn tape_hash(&self) -> u64 {
        let mut h = DefaultHasher::new();
        self.tape[..self.pos.min(self.tape.len())].hash(&mut h);
        h.finish()
    }

    #[inline]
    fn draw(&mut self, max: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) if self.pos >= self.given => {
                let v = f(r).min(max);
                self.tape.push(v);
                v
            }
            _ => {
                if self.pos < self.tape.len() {
                    let v = self.tape[self.pos].min(max);
                    self.tape[self.pos] = v;
                    v
                } else {
                    self.tape.push(0);
                    0
                }
            }
        };
        #[cfg(feature = "guided")]
        self.max.push(max);
        self.pos += 1;
        v
    }

    /// uniform in lo..=hi
    pub fn uni(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        lo + self.draw(hi - lo, |r| r.upto(hi - lo))
    }

    /// lo..=hi with bias to ends, powers of two and literals of the code
    pub fn int(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        let w = hi - lo;
        lo + self.draw(w, |r| biased(r, lo, hi))
    }

    /// lo..=hi, mostly near lo (size of a collection)
    pub fn size(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        let w = hi - lo;
        lo + self.draw(w, |r| {
            let k = r.upto(9);
            if k < 5 {
                let m = w.min(4);
                r.upto(m)
            } else if k < 8 {
                let m = w.min(20);
                r.upto(m)
            } else {
                r.upto(w)
            }
        })
    }

    /// true with probability num/den; false is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(1, |r| u64::from(r.upto(den - 1) < num)) == 1
    }

    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let i = self.draw(w.len() as u64 - 1, |r| {
            let mut x = r.upto(total - 1);
            for (i, &k) in w.iter().enumerate() {
                if x < k {
                    return i as u64;
                }
                x -= k;
            }
            0
        }) as usize;
        // a replayed tape may name a choice that is never made
        if w[i] == 0 {
            return w.iter().position(|&k| k > 0).unwrap();
        }
        i
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.uni(0, v.len() as u64 - 1) as usize]
    }

    pub fn u8(&mut self) -> u8 { self.int(0, 0xFF) as u8 }
    pub fn u16(&mut self) -> u16 { self.int(0, 0xFFFF) as u16 }
    pub fn pid(&mut self) -> u16 { self.int(0, 0x1FFF) as u16 }
    pub fn bit(&mut self) -> u8 { self.uni(0, 1) as u8 }
    pub fn bits(&mut self, n: u32) -> u8 { self.uni(0, (1 << n) - 1) as u8 }

    /// n bytes; individually drawn when few, from a patterned blob when many
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if n <= 24 {
            return (0..n).map(|_| self.u8()).collect();
        }
        let kind = self.weighted(&[1, 1, 1, 6, 2, 1]);
        let seed = self.uni(0, u64::from(u32::MAX));
        let mut r = Rng::new(seed);
        match kind {
            0 => vec![seed as u8; n],
            1 => vec![0xFF; n],
            2 => (0..n).map(|i| (i as u64 + seed) as u8).collect(),
            3 => (0..n).map(|_| r.next() as u8).collect(),
            4 => {
                let d = dict();
                let m = d.partition_point(|&x| x < 256) as u64;
                (0..n).map(|_| d[r.upto(m - 1) as usize] as u8).collect()
            }
            _ => (0..n).map(|i| if (i as u64 + seed) % 7 == 0 { 0x47 } else { r.upto(3) as u8 }).collect(),
        }
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.notes.push(f());
        }
    }

    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }

    /// marks the case as non-trivial and labels it
    pub fn hit(&mut self, l: &'static str) {
        self.nontrivial = true;
        self.label(l);
    }
}

pub fn biased(r: &mut Rng, lo: u64, hi: u64) -> u64 {
    let w = hi - lo;
    match r.upto(19) {
        0..=8 => r.upto(w),
        9..=10 => {
            let m = w.min(3);
            r.upto(m)
        }
        11..=12 => {
            let m = w.min(3);
            w - r.upto(m)
        }
        13..=14 => {
            // around a power of two
            let bits = 64 - w.leading_zeros() as u64;
            let p = 1u64 << r.upto(bits.min(63));
            let v = match r.upto(2) {
                0 => p.wrapping_sub(1),
                1 => p,
                _ => p.wrapping_add(1),
            };
            if v >= lo && v <= hi { v - lo } else { r.upto(w) }
        }
        15 => {
            // few distinct small values, so that values repeat inside a case
            let m = w.min(5);
            r.upto(m)
        }
        _ => {
            let d = dict();
            let a = d.partition_point(|&x| x < lo);
            let b = d.partition_point(|&x| x <= hi);
            if a < b {
                d[a + r.upto((b - a - 1) as u64) as usize] - lo
            } else {
                r.upto(w)
            }
        }
    }
}

//
// Running one case

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static IN_CASE: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let old = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        if IN_CASE.with(|c| c.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                (*s).to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let loc = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
            PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, msg)));
        } else {
            old(info)
        }
    }));
}

pub fn run_case(f: fn(&mut Src) -> R, s: &mut Src) -> R {
    crate::alloc::begin_case();
    IN_CASE.with(|c| c.set(true));
    let r = panic::catch_unwind(AssertUnwindSafe(|| f(s)));
    IN_CASE.with(|c| c.set(false));
    crate::alloc::end_case();
    match r {
        Ok(r) => r,
        Err(_) => {
            let msg = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
            Err(Fail::Viol(msg))
        }
    }
}

/// Shrinks a failing tape. `fails` runs a tape and returns the canonical tape and message if it still fails.
pub fn shrink(start: Vec<u64>, mut fails: impl FnMut(&[u64]) -> Option<(Vec<u64>, String)>, budget: usize) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;

    fn better(a: &[u64], b: &[u64]) -> bool {
        (a.len(), a) < (b.len(), b)
    }

    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if left == 0 {
                false
            } else {
                left -= 1;
                match fails(&cand) {
                    Some((t, _)) if better(&t, &best) => {
                        best = t;
                        true
                    }
                    _ => false,
                }
            }
        }};
    }

    loop {
        let before = best.clone();

        // delete blocks
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i >= k && left > 0 {
                let a = i - k;
                if i <= best.len() {
                    let mut c = best.clone();
                    c.drain(a..i);
                    if attempt!(c) {
                        i = i.min(best.len());
                        continue;
                    }
                    // deleting a block often needs the count before it lowered
                    if a > 0 && best.len() >= i && best[a - 1] > 0 {
                        let mut c = best.clone();
                        c.drain(a..i);
                        c[a - 1] -= 1;
                        if attempt!(c) {
                            i = i.min(best.len());
                            continue;
                        }
                    }
                }
                i = i.saturating_sub(if k > 8 { k / 2 } else { 1 });
            }
            if k == 1 {
                break;
            }
            k /= 2;
            if best.len() > 2000 && k < best.len() / 64 {
                break;
            }
        }

        // zero blocks
        for k in [64usize, 8, 1] {
            let mut i = 0;
            while i < best.len() && left > 0 {
                let e = (i + k).min(best.len());
                if best[i..e].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..e] {
                        *x = 0;
                    }
                    attempt!(c);
                }
                i += k;
            }
        }

        // minimise values
        let mut i = 0;
        while i < best.len() && left > 0 {
            if best[i] > 0 {
                let mut lo = 0u64;
                let mut hi = best[i];
                let mut steps = 0;
                while lo < hi && steps < 70 && left > 0 && i < best.len() {
                    steps += 1;
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    c[i] = mid;
                    if attempt!(c) {
                        if i >= best.len() {
                            break;
                        }
                        hi = best[i].min(mid);
                    } else {
                        lo = mid + 1;
                    }
                }
                if i < best.len() && best[i] > 0 {
                    let mut c = best.clone();
                    c[i] -= 1;
                    attempt!(c);
                }
            }
            i += 1;
        }

        // lower a size while deleting what follows
        let mut i = 0;
        while i < best.len() && left > 0 {
            if best[i] > 0 && best[i] < 4096 {
                for del in [1usize, 2, 3, 4, 6, 8] {
                    if i + 1 + del <= best.len() {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(i + 1..i + 1 + del);
                        if attempt!(c) {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }

        if best == before || left == 0 {
            return best;
        }
    }
}

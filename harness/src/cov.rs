//! Run-time part of the coverage instrumentation of the library (feature `guided`).
//!
//! The library is compiled with edge and comparison callbacks. Each thread collects the features of
//! the case it runs: edges with their hit count class, and for every comparison how near its
//! operands came to each other.

use std::arch::global_asm;
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

const EDGES: usize = 1 << 16;
const CMP_BITS: u32 = 22;
pub const FEATURES: usize = EDGES * 8 + (1 << CMP_BITS);
pub const SITES: usize = 1 << (CMP_BITS - 7);
const PAIRS: usize = 4096;

static GUARDS: AtomicUsize = AtomicUsize::new(0);

struct Map {
    on: bool,
    calls: u64,
    hits: Vec<u8>,
    edges: Vec<u32>,
    cmp: Vec<u64>,
    cmps: Vec<u32>,
    /// operands and comparison
    pairs: Vec<(u64, u64, u32)>,
    used: Vec<u16>,
}

thread_local! {
    static MAP: UnsafeCell<Map> = const { UnsafeCell::new(Map {
        on: false, calls: 0, hits: Vec::new(), edges: Vec::new(), cmp: Vec::new(), cmps: Vec::new(), pairs: Vec::new(), used: Vec::new(),
    }) };
}

fn map<T>(f: impl FnOnce(&mut Map) -> T) -> Option<T> {
    // the callbacks do not nest: nothing called while a map is borrowed is instrumented
    MAP.try_with(|m| f(unsafe { &mut *m.get() })).ok()
}

pub fn is_edge(f: u32) -> bool {
    (f as usize) < EDGES * 8
}

/// comparison of a feature and how near its operands were: 0 when equal
pub fn near(f: u32) -> Option<(u32, u32)> {
    let c = f.checked_sub((EDGES * 8) as u32)?;
    (c & 64 != 0).then_some((c >> 7, c & 63))
}

/// feature of a comparison with equal operands
pub fn equal(site: u32) -> u32 {
    (EDGES * 8) as u32 + (site << 7) + 64
}

/// starts collecting in this thread
pub fn begin() {
    map(|m| {
        if m.hits.is_empty() {
            m.hits = vec![0; EDGES];
            m.cmp = vec![0; (1 << CMP_BITS) / 64];
            m.edges.reserve(EDGES);
            m.cmps.reserve(1 << 16);
            m.used.reserve(PAIRS);
            m.pairs = vec![(0, 0, 0); PAIRS];
        }
        m.calls = 0;
        for i in m.used.drain(..) {
            m.pairs[i as usize] = (0, 0, 0);
        }
        m.on = true;
    });
}

/// stops collecting, hands out the features and forgets them
pub fn end(f: impl FnMut(u32)) {
    let mut f = f;
    map(|m| {
        m.on = false;
        for &e in &m.edges {
            let n = m.hits[e as usize];
            m.hits[e as usize] = 0;
            let class = match n {
                0..=3 => n - 1,
                4..=7 => 3,
                8..=15 => 4,
                16..=31 => 5,
                32..=127 => 6,
                _ => 7,
            };
            f(e * 8 + u32::from(class));
        }
        m.edges.clear();
        for &c in &m.cmps {
            m.cmp[c as usize / 64] &= !(1 << (c % 64));
            f((EDGES * 8) as u32 + c);
        }
        m.cmps.clear();
    });
}

/// callbacks during the last case
pub fn calls() -> u64 {
    map(|m| m.calls).unwrap_or(0)
}

/// operands of comparisons of the last case that differed
pub fn pairs() -> Vec<(u64, u64, u32)> {
    map(|m| m.used.iter().map(|&i| m.pairs[i as usize]).collect()).unwrap_or_default()
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let n = (b as usize - a as usize) / 4;
    for i in 0..n {
        unsafe {
            if *a.add(i) == 0 {
                *a.add(i) = GUARDS.fetch_add(1, Relaxed) as u32 + 1;
            }
        }
    }
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    map(|m| {
        if m.on {
            m.calls += 1;
            let i = unsafe { *g } as usize % EDGES;
            let h = &mut m.hits[i];
            if *h == 0 {
                m.edges.push(i as u32);
            }
            *h = h.saturating_add(1);
        }
    });
}

/// addresses differ from run to run
fn address(a: u64) -> bool {
    (0x55..0x80).contains(&(a >> 40))
}

fn handle(a: u64, b: u64, site: u64) {
    map(|m| {
        if m.on {
            m.calls += 1;
            if address(a) || address(b) {
                return;
            }
            let key = site.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - CMP_BITS + 7) << 7;
            let x = u64::from((a ^ b).count_ones());
            let d = u64::from(64 - a.abs_diff(b).leading_zeros());
            for f in [key + x.min(63), key + 64 + d.min(63)] {
                let w = &mut m.cmp[f as usize / 64];
                if *w >> (f % 64) & 1 == 0 {
                    *w |= 1 << (f % 64);
                    m.cmps.push(f as u32);
                }
            }
            if a != b {
                // a few of each comparison
                let i = ((key >> 5) + (m.calls & 3)) as usize % PAIRS;
                if m.pairs[i] == (0, 0, 0) {
                    m.used.push(i as u16);
                }
                m.pairs[i] = (a, b, (key >> 7) as u32);
            }
        }
    });
}

extern "C" fn base() {}

fn site(pc: usize) -> u64 {
    pc.wrapping_sub(base as extern "C" fn() as usize) as u64
}

extern "C" fn cmp1(a: u8, b: u8, pc: usize) { handle(a.into(), b.into(), site(pc)) }
extern "C" fn cmp2(a: u16, b: u16, pc: usize) { handle(a.into(), b.into(), site(pc)) }
extern "C" fn cmp4(a: u32, b: u32, pc: usize) { handle(a.into(), b.into(), site(pc)) }
extern "C" fn cmp8(a: u64, b: u64, pc: usize) { handle(a, b, site(pc)) }
extern "C" fn switch(a: u64, cases: *const u64, pc: usize) {
    let n = unsafe { *cases } as usize;
    for i in 0..n {
        handle(a, unsafe { *cases.add(2 + i) }, site(pc) + i as u64);
    }
}

// the return address names the comparison
macro_rules! stub {
    ($($name:literal $f:ident),+) => {
        $(global_asm!(
            concat!(".globl ", $name), concat!($name, ":"), "mov rdx, [rsp]", "jmp {f}", f = sym $f);)+
    };
}

stub!("__sanitizer_cov_trace_cmp1" cmp1, "__sanitizer_cov_trace_const_cmp1" cmp1,
      "__sanitizer_cov_trace_cmp2" cmp2, "__sanitizer_cov_trace_const_cmp2" cmp2,
      "__sanitizer_cov_trace_cmp4" cmp4, "__sanitizer_cov_trace_const_cmp4" cmp4,
      "__sanitizer_cov_trace_cmp8" cmp8, "__sanitizer_cov_trace_const_cmp8" cmp8,
      "__sanitizer_cov_trace_switch" switch);

//! C23-C25: packet header, clock reference, PES header.

use mpegts::es::pes;
use mpegts::ts;

use crate::engine::*;
use crate::refimpl::*;
use crate::runner::*;
use crate::{ensure, ensure_eq};

fn gen_packet(s: &mut Src) -> Vec<u8> {
    let mut p = s.bytes(188);
    for x in p.iter_mut().take(4) {
        *x = s.u8();
    }
    if s.chance(1, 2) {
        p[0] = 0x47;
    }
    if s.chance(2, 3) {
        p[4] = s.int(0, 190) as u8;
    }
    p
}

/// numbers of every magnitude up to 2^bits
fn log_int(s: &mut Src, lo: u64, bits: u64) -> u64 {
    let b = s.uni(1, bits);
    s.int(lo, 1 << b)
}

//
// C23

fn check_header(p: &[u8]) -> R {
    let mut r = Br::new(p);
    let bits = |r: &mut Br, n: u32| r.get(n).expect("bits");
    let sync = bits(&mut r, 8);
    let err = bits(&mut r, 1);
    let pusi = bits(&mut r, 1);
    let _prio = bits(&mut r, 1);
    let pid = bits(&mut r, 13);
    let scr = bits(&mut r, 2);
    let af = bits(&mut r, 1);
    let pay = bits(&mut r, 1);
    let cc = bits(&mut r, 4);
    let len = bits(&mut r, 8);
    ensure_eq!(ts::is_sync(p), sync == 0x47, "is_sync of {}", hex(&p[..6]));
    ensure_eq!(ts::is_error(p), err == 1, "is_error of {}", hex(&p[..6]));
    ensure_eq!(ts::is_pusi(p), pusi == 1, "is_pusi of {}", hex(&p[..6]));
    ensure_eq!(u64::from(ts::get_pid(p)), pid, "get_pid of {}", hex(&p[..6]));
    ensure_eq!(ts::is_scrambled(p), scr != 0, "is_scrambled of {}", hex(&p[..6]));
    ensure_eq!(ts::is_adaptation(p), af == 1, "is_adaptation of {}", hex(&p[..6]));
    ensure_eq!(ts::is_payload(p), pay == 1, "is_payload of {}", hex(&p[..6]));
    ensure_eq!(u64::from(ts::get_cc(p)), cc, "get_cc of {}", hex(&p[..6]));
    if af == 1 {
        ensure_eq!(u64::from(ts::get_adaptation_size(p)), len, "get_adaptation_size of {}", hex(&p[..6]));
    }
    let off = match (pay, af) {
        (0, _) => 0,
        (_, 0) => 4,
        _ if 5 + len >= 188 => 0,
        _ => 5 + len,
    };
    ensure_eq!(u64::from(ts::get_payload_offset(p)), off, "get_payload_offset of {}", hex(&p[..6]));
    Ok(())
}

/// one setter on a packet: its bits and no others
fn check_setters(s: &mut Src, p: &[u8]) -> R {
    let pid = s.pid();
    let cc = s.bits(4);
    let mut cases: Vec<(&str, Vec<u8>, u32)> = Vec::new();
    let head = u32::from_be_bytes([p[0], p[1], p[2], p[3]]);
    let mut run = |name: &'static str, want: u32, f: &mut dyn FnMut(&mut [u8])| {
        let mut q = p.to_vec();
        f(&mut q);
        cases.push((name, q, want));
    };
    run("set_pid", (head & !0x001F_FF00) | (u32::from(pid) << 8), &mut |q| ts::set_pid(q, pid));
    run("set_cc", (head & !0xF) | u32::from(cc), &mut |q| ts::set_cc(q, cc));
    run("set_payload_0", head & !0x10, &mut |q| ts::set_payload_0(q));
    run("set_payload_1", head | 0x10, &mut |q| ts::set_payload_1(q));
    run("set_pusi_0", head & !0x40_0000, &mut |q| ts::set_pusi_0(q));
    run("set_pusi_1", head | 0x40_0000, &mut |q| ts::set_pusi_1(q));
    for (name, q, want) in cases {
        let got = u32::from_be_bytes([q[0], q[1], q[2], q[3]]);
        ensure!(got == want, "{}({}/{}) on {:08x} gives {:08x}, expected {:08x}", name, pid, cc, head, got, want);
        ensure!(q[4..] == p[4..], "{} changed the packet behind the header", name);
        check_header(&q)?;
        let ok = match name {
            "set_pid" => ts::get_pid(&q) == pid,
            "set_cc" => ts::get_cc(&q) == cc,
            "set_payload_0" => !ts::is_payload(&q),
            "set_payload_1" => ts::is_payload(&q),
            "set_pusi_0" => !ts::is_pusi(&q),
            _ => ts::is_pusi(&q),
        };
        ensure!(ok, "accessor after {}", name);
    }
    Ok(())
}

/// all values of the second and fourth byte
fn headers(s: &mut Src) -> R {
    let i = s.uni(0, 65535);
    s.hit("header");
    let mut p = gen_packet(s);
    p[1] = (i >> 8) as u8;
    p[3] = i as u8;
    check_header(&p)?;
    check_setters(s, &p)
}

/// all adaptation lengths
fn lengths(s: &mut Src) -> R {
    let i = s.uni(0, 1023);
    s.hit("adaptation length");
    let mut p = gen_packet(s);
    p[3] = (p[3] & 0xCF) | ((i >> 8) as u8) << 4;
    p[4] = i as u8;
    check_header(&p)
}

/// all PIDs and counters
fn pids(s: &mut Src) -> R {
    let pid = s.uni(0, 8191) as u16;
    s.hit("PID");
    let mut p = gen_packet(s);
    let before = p.clone();
    ts::set_pid(&mut p, pid);
    ensure_eq!(ts::get_pid(&p), pid, "PID set");
    ensure!((p[1] ^ before[1]) & 0xE0 == 0 && p[0] == before[0] && p[3..] == before[3..], "other bits changed by set_pid");
    for cc in 0..16 {
        ts::set_cc(&mut p, cc);
        ensure_eq!(ts::get_cc(&p), cc, "counter set");
        ensure_eq!(ts::get_pid(&p), pid, "PID after setting the counter");
    }
    if pid == 0 {
        let n = ts::NULL_PACKET;
        ensure_eq!(n.len(), 188, "size of the null packet");
        ensure_eq!(ts::PACKET_SIZE, 188, "PACKET_SIZE");
        check_header(n)?;
        ensure!(n[0] == 0x47 && n[1] & 0x5F == 0x1F && n[1] & 0x80 == 0 && n[2] == 0xFF && n[3] & 0xF0 == 0x10, "null packet header {}", hex(&n[..4]));
        ensure_eq!(ts::get_pid(n), ts::PID_NULL, "PID of the null packet");
        ensure_eq!((ts::PID_NULL, ts::PID_NONE), (8191, 8192), "PID_NULL and PID_NONE");
    }
    Ok(())
}

fn packets(s: &mut Src) -> R {
    let p = gen_packet(s);
    s.hit("packet");
    s.note(|| hex(&p));
    check_header(&p)?;
    check_setters(s, &p)
}

//
// C24

const PERIOD: u64 = (1 << 33) * 300;

fn gen_pcr(s: &mut Src) -> u64 {
    match s.weighted(&[4, 2, 2, 2]) {
        0 => s.uni(0, PERIOD - 1),
        1 => s.int(0, PERIOD - 1),
        2 => s.uni(0, 33_000_000),
        _ => PERIOD - 1 - s.uni(0, 33_000_000),
    }
}

fn fields(s: &mut Src) -> R {
    let p = gen_packet(s);
    let pcr = match s.weighted(&[3, 1, 1]) {
        0 => gen_pcr(s),
        // one bit of the base
        1 => (1u64 << s.uni(0, 32)) * 300 + s.uni(0, 299),
        _ => s.uni(0, (1 << 33) - 1) * 300 + *s.pick(&[0, 1, 255, 256, 257, 298, 299]),
    };
    s.hit("clock reference");
    s.note(|| format!("pcr {} in {}", pcr, hex(&p)));
    let mut q = p.clone();
    ts::set_pcr(&mut q, pcr);
    ensure_eq!(ts::get_pcr(&q), pcr, "read again");
    ensure!(q[..6] == p[..6] && q[12..] == p[12..], "bytes outside the field changed");
    let mut w = Bw::new();
    w.put(pcr / 300, 33).put(0x3F, 6).put(pcr % 300, 9);
    let want = w.done();
    ensure!(q[6..12] == want[..], "field {} instead of {}", hex(&q[6..12]), hex(&want));
    // any reserved bits
    let mut r = q.clone();
    r[10] = (r[10] & 0x81) | (s.u8() & 0x7E);
    ensure_eq!(ts::get_pcr(&r), pcr, "read with other reserved bits");
    for x in [&p, &q] {
        let has = x[3] & 0x20 != 0 && x[4] >= 7 && x[5] & 0x10 != 0;
        ensure_eq!(ts::is_pcr(x), has, "is_pcr of {}", hex(&x[..6]));
    }
    Ok(())
}

/// presence by adaptation bits, length and flags
fn presence(s: &mut Src) -> R {
    let i = s.uni(0, 4 * 65536 - 1);
    s.hit("adaptation field");
    let mut p = vec![0xFFu8; 188];
    p[0] = 0x47;
    p[3] = ((i >> 16) as u8) << 4;
    p[4] = (i >> 8) as u8;
    p[5] = i as u8;
    let has = p[3] & 0x20 != 0 && p[4] >= 7 && p[5] & 0x10 != 0;
    ensure_eq!(ts::is_pcr(&p), has, "is_pcr of {}", hex(&p[..6]));
    Ok(())
}

fn arithmetic(s: &mut Src) -> R {
    let a = gen_pcr(s);
    let b = match s.weighted(&[2, 3]) {
        0 => gen_pcr(s),
        // a moment later
        _ => (a + s.int(0, 100_000_000)) % PERIOD,
    };
    s.hit(if b < a { "across the wrap" } else { "no wrap" });
    s.note(|| format!("from {} to {}", a, b));
    let us = a / 27;
    ensure_eq!(ts::pcr_to_us(a), us, "microseconds of {}", a);
    ensure_eq!(ts::pcr_to_ms(a), us / 1000, "milliseconds of {}", a);
    let want = (b + PERIOD - a) % PERIOD;
    let got = ts::pcr_delta(a, b);
    if got != want {
        if b < a && got + 1 == want {
            return Err(Fail::Known("pcr-delta-wrap", format!("difference from {} to {} is {}, expected {}", a, b, got, want)));
        }
        return Err(Fail::Viol(format!("difference from {} to {} is {}, expected {}", a, b, got, want)));
    }
    Ok(())
}

fn jitter(s: &mut Src) -> R {
    let stc = gen_pcr(s);
    // early by up to a second, late by up to an hour
    let d: i64 = match s.weighted(&[2, 1, 1]) {
        0 => s.int(0, 27_000_000) as i64,
        1 => -(s.int(0, 27_000_000) as i64),
        _ => -(s.int(0, 27_000_000 * 3600) as i64),
    };
    let pcr = ((stc as i64 + d + PERIOD as i64) % PERIOD as i64) as u64;
    s.note(|| format!("pcr {} stc {}", pcr, stc));
    s.hit(if d > 0 && pcr < stc || d < 0 && pcr > stc { "across the wrap" } else { "no wrap" });
    ensure_eq!(ts::pcr_jitter_ns(pcr, stc), d * 1000 / 27, "jitter of {} against {}", pcr, stc);
    Ok(())
}

fn estimate(s: &mut Src) -> R {
    let last = gen_pcr(s);
    let delta = log_int(s, 0, 37);
    let last_bytes = log_int(s, 1, 30);
    let bytes = log_int(s, 0, 26);
    s.note(|| format!("pcr_to_stc({}, {}, {}, {})", last, bytes, delta, last_bytes));
    let exact = u128::from(delta) * u128::from(bytes) / u128::from(last_bytes) + u128::from(last);
    let want = (exact % u128::from(PERIOD)) as u64;
    s.hit(if exact >= u128::from(PERIOD) { "across the wrap" } else { "no wrap" });
    ensure_eq!(ts::pcr_to_stc(last, bytes, delta, last_bytes), want, "estimated clock");
    Ok(())
}

fn bitrate(s: &mut Src) -> R {
    let ms = log_int(s, 1, 24);
    let bytes = log_int(s, 0, 40);
    s.hit("bitrate");
    s.note(|| format!("{} bytes in {} ms", bytes, ms));
    ensure_eq!(ts::pcr_delta_bitrate(ms * 27_000, bytes), bytes * 8 / ms, "bitrate");
    // between whole milliseconds: by the whole milliseconds or the exact time
    let d = ms * 27_000 + s.uni(0, 26_999);
    let got = ts::pcr_delta_bitrate(d, bytes);
    let exact = (u128::from(bytes) * 8 * 27_000 / u128::from(d)) as u64;
    ensure!(got == bytes * 8 / ms || got == exact, "bitrate {} of {} bytes in {} ticks", got, bytes, d);
    Ok(())
}

//
// C25

fn stamp(w: &mut Bw, prefix: u64, v: u64, marks: u64) {
    w.put(prefix, 4).put(v >> 30, 3).put(marks & 1, 1).put((v >> 15) & 0x7FFF, 15).put((marks >> 1) & 1, 1).put(v & 0x7FFF, 15).put((marks >> 2) & 1, 1);
}

fn gen_pts(s: &mut Src) -> u64 {
    match s.weighted(&[3, 2, 1]) {
        0 => s.uni(0, (1 << 33) - 1),
        1 => s.int(0, (1 << 33) - 1),
        _ => 1u64 << s.uni(0, 32),
    }
}

fn has_extension(id: u8) -> bool {
    !matches!(id, 0xBC | 0xBE | 0xBF | 0xF0 | 0xF1 | 0xF2 | 0xF8 | 0xFF)
}

fn pes_headers(s: &mut Src) -> R {
    let id = match s.weighted(&[2, 2, 1]) {
        0 => *s.pick(&[0xE0, 0xC0, 0xBD, 0xEF, 0xDF]),
        1 => *s.pick(&[0xBC, 0xBE, 0xBF, 0xF0, 0xF1, 0xF2, 0xF8, 0xFF, 0xBB, 0xBD, 0xEF, 0xF3, 0xF7, 0xF9, 0xFE]),
        _ => s.u8(),
    };
    check_pes(s, id)
}

fn stream_ids(s: &mut Src) -> R {
    let id = s.uni(0, 255) as u8;
    for _ in 0..8 {
        check_pes(s, id)?;
    }
    Ok(())
}

fn check_pes(s: &mut Src, id: u8) -> R {
    let len = s.u16();
    let flags = s.bits(2);
    let (pts, dts) = (gen_pts(s), gen_pts(s));
    let marks = s.u8();
    let hlen = s.u8();
    let mut w = Bw::new();
    w.put(0, 16).put(1, 8).put(id.into(), 8).put(len.into(), 16);
    if has_extension(id) {
        s.hit("extended header");
        w.put(2, 2).put(s.bits(6).into(), 6);
        w.put(flags.into(), 2).put(u64::from(s.bits(6)), 6).put(hlen.into(), 8);
        stamp(&mut w, s.bits(4).into(), pts, marks.into());
        stamp(&mut w, s.bits(4).into(), dts, u64::from(marks) >> 3);
    } else {
        s.hit("plain header");
    }
    let mut p = w.done();
    let tail = s.size(0, 20) as usize;
    p.extend(s.bytes(tail));
    p.resize(p.len().max(20), 0xFF);
    s.note(|| format!("{} flags {} pts {} dts {}", hex(&p), flags, pts, dts));
    ensure!(pes::is_prefix(&p), "prefix not seen");
    ensure_eq!(pes::get_length(&p), len, "packet length");
    ensure_eq!(pes::is_syntax_spec(&p), has_extension(id), "extended header of stream {:02x}", id);
    if has_extension(id) {
        ensure_eq!(pes::get_payload_offset(&p), 9 + u16::from(hlen), "payload offset");
        ensure_eq!((pes::is_pts(&p), pes::is_dts(&p)), (flags & 2 != 0, flags & 1 != 0), "timestamp flags");
        ensure_eq!(pes::get_pts(&p), pts, "presentation timestamp");
        ensure_eq!(pes::get_dts(&p), dts, "decoding timestamp");
    } else {
        ensure_eq!(pes::get_payload_offset(&p), 6, "payload offset");
    }
    // any first three bytes
    let mut q = p;
    let i = s.uni(0, 2) as usize;
    q[i] = s.u8();
    ensure_eq!(pes::is_prefix(&q), q[..3] == [0, 0, 1], "prefix of {}", hex(&q[..3]));
    Ok(())
}

fn pts_arithmetic(s: &mut Src) -> R {
    let m = 1u64 << 33;
    let near = |s: &mut Src| match s.weighted(&[2, 1, 1]) {
        0 => gen_pts(s),
        1 => s.uni(0, 100_000),
        _ => m - 1 - s.uni(0, 100_000),
    };
    let a = near(s);
    let b = if s.chance(1, 2) { near(s) } else { (a + s.int(0, 1_000_000)) % m };
    s.hit(if b < a { "across the wrap" } else { "no wrap" });
    s.note(|| format!("from {} to {}", a, b));
    ensure_eq!(pes::pts_delta(a, b), (b + m - a) % m, "difference from {} to {}", a, b);
    ensure_eq!(pes::pts_to_ms(a), a / 90, "milliseconds of {}", a);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C23",
            rule: "A case is a packet: all 65536 values of the two flag bytes, all adaptation lengths, all PIDs, and generated packets; non-trivial always.",
            terminates: false,
            facets: vec![
                enumerate("headers", headers, 65536),
                enumerate("lengths", lengths, 1024),
                enumerate("pids", pids, 8192),
                random("packets", packets, 8_000_000, 30_000_000),
            ],
            assumptions: &["setters get values within their widths", "an adaptation field that leaves no room for payload counts as no payload"],
        },
        Prop {
            id: "C24",
            rule: "A case is a clock reference in a packet, or a pair of clock values, byte counts and times, near the wrap preferred; non-trivial always.",
            terminates: false,
            facets: vec![
                enumerate("presence", presence, 4 * 65536),
                random("fields", fields, 12_000_000, 60_000_000),
                random("arithmetic", arithmetic, 12_000_000, 60_000_000),
                random("jitter", jitter, 12_000_000, 60_000_000),
                random("estimate", estimate, 12_000_000, 60_000_000),
                random("bitrate", bitrate, 12_000_000, 60_000_000),
            ],
            assumptions: &[
                "estimates whose product of ticks and bytes fits in 64 bits, with a positive byte count",
                "jitter up to one second early, late by less than the period minus a second",
                "bitrate over at least one millisecond",
            ],
        },
        Prop {
            id: "C25",
            rule: "A case is a PES header of any stream id (all enumerated) with any marker bits, or a pair of timestamps; non-trivial always.",
            terminates: false,
            facets: vec![
                enumerate("stream-ids", stream_ids, 256),
                random("headers", pes_headers, 2_300_000, 27_000_000),
                random("arithmetic", pts_arithmetic, 12_000_000, 60_000_000),
            ],
            assumptions: &["timestamps below 2^33"],
        },
    ]
}

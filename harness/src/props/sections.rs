//! C01-C06: packets and sections.

use mpegts::psi::*;
use mpegts::textcode::StringDVB;
use mpegts::ts as lts;

use super::common::*;
use crate::engine::*;
use crate::refimpl::desc;
use crate::refimpl::tables::psi_of;
use crate::refimpl::ts::*;
use crate::refimpl::*;
use crate::runner::*;
use crate::{ensure, ensure_eq};

/// section size, often around packet boundaries
fn gen_size(s: &mut Src) -> usize {
    match s.weighted(&[4, 4, 2]) {
        0 => s.int(8, 400) as usize,
        1 => ((s.uni(0, 22) * 184 + 183 + s.uni(0, 6)) as usize - 3).clamp(8, 4096),
        _ => s.int(8, 4096) as usize,
    }
}

/// any section with valid checksum
pub fn gen_section(s: &mut Src, size: usize) -> Vec<u8> {
    let mut b = vec![s.u8(), s.u8(), 0];
    b.extend(s.bytes(size - 7));
    b.extend_from_slice(&[0; 4]);
    fix_section(&mut b);
    b
}

fn gen_af(s: &mut Src, len: usize) -> Vec<u8> {
    s.bytes(len)
}

//
// C01

fn gen_history(s: &mut Src, psi: &mut Psi) {
    for _ in 0..s.size(0, 6) {
        match s.weighted(&[2, 2, 1]) {
            0 => {
                let z = gen_size(s);
                let x = gen_section(s, z);
                let mut cc = s.bits(4);
                let p = packetise(&x, 0x20, &mut cc);
                let n = s.uni(1, p.len() as u64) as usize;
                for q in &p[..n] {
                    psi.mux(q);
                }
                s.label("history: packets of another section");
            }
            1 => {
                let mut p = vec![0x47, s.u8(), s.u8(), s.u8(), s.u8()];
                p.extend(s.bytes(183));
                psi.mux(&p);
                s.label("history: arbitrary packet");
            }
            _ => {
                let cap = s.uni(1, 183) as usize;
                let p = Pkt { pusi: s.bit() == 1, pid: 0x20, cc: s.bits(4), af: Some(gen_af(s, 183 - cap)), payload: Some(s.bytes(cap)) };
                psi.mux(&p.build());
            }
        }
    }
}

fn packetisation(s: &mut Src) -> R {
    let size = gen_size(s);
    let mut psi;
    if s.chance(1, 2) {
        // built with the constructor
        let id = s.u8();
        let ver = s.bits(5);
        let hdr = s.int(3, size as u64 - 4) as usize;
        psi = Psi::new(id, hdr, ver);
        psi.buffer.extend(s.bytes(size - 4 - hdr));
        psi.finalize();
    } else {
        let x = gen_section(s, size);
        psi = psi_of(&x);
        psi.buffer.truncate(size - 4);
        psi.size = 0;
        psi.finalize();
    }
    ensure_eq!(psi.size, size, "size of the finalised section");
    let sec = psi.buffer[..size].to_vec();
    psi.pid = s.pid();
    psi.cc = s.bits(4);
    let (pid, cc0) = (psi.pid, psi.cc);
    let n = existing(s, 200);
    let mut dst = vec![0x5A; n];
    s.note(|| format!("section of {} bytes, pid {}, cc {}: {}", size, pid, cc0, hex(&sec)));
    psi.demux(&mut dst);
    let count = (size + 1 + 183) / 184;
    ensure!(dst.len() >= n && dst[..n].iter().all(|&x| x == 0x5A), "existing output was changed");
    ensure_eq!(dst.len() - n, count * 188, "bytes appended");
    let mut cc = cc0;
    let got = viol(depacketise(&dst[n..], pid, &mut cc))?;
    ensure_eq!(psi.cc, cc, "counter for the next packet");
    ensure_eq!(got.len(), 1, "number of sections");
    ensure!(got[0] == sec, "packets carry other bytes: {}", diff(&got[0], &sec));
    ensure!(psi.buffer[..size] == sec[..] && psi.size == size, "packetising changed the section");
    if count > 1 {
        s.hit("several packets");
    }
    if (size + 1) % 184 == 0 {
        s.hit("fills the last packet");
    }

    let mut r = Psi::default();
    if s.chance(1, 8) {
        // the buffer the section was packetised from
        r = psi.clone();
        s.label("history: own section");
    } else if s.chance(1, 4) {
        r.pid = s.pid();
        r.cc = s.bits(4);
        s.label("history: PID and counter set");
    }
    gen_history(s, &mut r);
    for (i, p) in dst[n..].chunks(188).enumerate() {
        r.mux(p);
        if i + 1 < count {
            ensure!(!r.check(), "complete after packet {} of {}", i + 1, count);
        }
    }
    ensure!(r.check(), "not complete after its last packet");
    ensure_eq!(r.size, size, "size after reassembly");
    ensure!(r.buffer[..size] == sec[..], "reassembled bytes differ: {}", diff(&r.buffer[..size], &sec));
    if s.labels.iter().any(|l| l.starts_with("history")) {
        s.nontrivial = true;
    }
    Ok(())
}

/// every section size with one content
fn every_size(s: &mut Src) -> R {
    let size = s.uni(0, 4088) as usize + 8;
    s.hit("size");
    s.note(|| format!("section of {} bytes", size));
    let mut b: Vec<u8> = (0..size).map(|i| (i * 7 + 3) as u8).collect();
    fix_section(&mut b);
    let mut r = Psi::default();
    for cc in [0u8, 15, (size % 16) as u8] {
        let mut psi = psi_of(&b);
        psi.pid = 0x1FFE;
        psi.cc = cc;
        let mut dst = Vec::new();
        psi.demux(&mut dst);
        let mut c = cc;
        let got = viol(depacketise(&dst, 0x1FFE, &mut c))?;
        ensure_eq!(c, psi.cc, "counter for the next packet");
        ensure_eq!(dst.len(), (size + 184) / 184 * 188, "bytes appended");
        ensure!(got.len() == 1 && got[0] == b, "packets carry other bytes");
        let n = dst.len() / 188;
        for (i, p) in dst.chunks(188).enumerate() {
            r.mux(p);
            ensure_eq!(r.check(), i + 1 == n, "complete after packet {} of {}", i + 1, n);
        }
        ensure!(r.buffer[..r.size] == b[..], "reassembled bytes differ");
    }
    Ok(())
}

//
// C02

struct Stream {
    packets: Vec<Vec<u8>>,
    /// section completed by the packet
    done: Vec<Option<usize>>,
    /// section the payload of the packet begins in the middle of
    inside: Vec<Option<usize>>,
    payload: Vec<bool>,
    sections: Vec<Vec<u8>>,
    next_cc: u8,
}

fn gen_stream(s: &mut Src, max: u64) -> Stream {
    let n = if s.chance(1, 3000) { s.int(max, 150) } else { s.size(1, max) } as usize;
    if n as u64 > max {
        s.label("long stream");
    }
    let mode = s.weighted(&[3, 2, 2]);
    let sections: Vec<Vec<u8>> = (0..n).map(|_| {
        let z = match mode {
            0 => s.int(8, 600) as usize,
            1 => s.int(100, 1024) as usize,
            _ => gen_size(s),
        };
        gen_section(s, z)
    }).collect();
    let pid = s.pid();
    let mut cc = s.bits(4);
    let af_rate = *s.pick(&[0, 1, 4, 8]);
    let mut st = Stream { packets: vec![], done: vec![], inside: vec![], payload: vec![], sections: vec![], next_cc: 0 };
    let mut cur: Option<(usize, usize)> = None;
    let mut next = 0;
    while cur.is_some() || next < n {
        if s.chance(1, 12) {
            // no payload; the counter stays
            let p = Pkt { pusi: s.chance(1, 8), pid, cc: (cc + 15) % 16, af: Some(gen_af(s, 183)), payload: None };
            st.packets.push(p.build());
            st.done.push(None);
            st.inside.push(None);
            st.payload.push(false);
            s.label("packet without payload");
            continue;
        }
        if cur.is_none() && s.chance(1, 24) {
            // between two sections
            let cap = if s.chance(1, 2) { 184 } else { s.int(1, 183) as usize };
            let af = if cap < 184 { Some(gen_af(s, 183 - cap)) } else { None };
            st.packets.push(Pkt { pusi: false, pid, cc, af, payload: Some(vec![0xFF; cap]) }.build());
            st.done.push(None);
            st.inside.push(None);
            st.payload.push(true);
            cc = (cc + 1) % 16;
            s.label("packet with stuffing only");
            continue;
        }
        let mut cap = 184usize;
        if s.chance(af_rate, 10) {
            cap = s.int(1, 183) as usize;
            s.label("adaptation field");
        }
        let mut pay = Vec::new();
        let mut pusi = false;
        let mut done = None;
        let mut inside = None;
        match cur {
            None => {
                cap = cap.max(2);
                pusi = true;
                pay.push(0);
                let z = sections[next].len();
                let k = (cap - 1).min(z);
                pay.extend_from_slice(&sections[next][..k]);
                if k < 3 {
                    s.label("split header");
                }
                if k == z {
                    done = Some(next);
                } else {
                    cur = Some((next, k));
                }
                next += 1;
            }
            Some((i, pos)) => {
                inside = Some(i);
                let rem = sections[i].len() - pos;
                if rem >= cap {
                    pay.extend_from_slice(&sections[i][pos..pos + cap]);
                    if rem == cap {
                        done = Some(i);
                        cur = None;
                    } else {
                        cur = Some((i, pos + cap));
                    }
                } else {
                    done = Some(i);
                    cur = None;
                    let room = cap - rem;
                    if next < n && room >= 2 && sections[next].len() > room - 1 && s.chance(2, 3) {
                        pusi = true;
                        pay.push(rem as u8);
                        pay.extend_from_slice(&sections[i][pos..]);
                        pay.extend_from_slice(&sections[next][..room - 1]);
                        if room - 1 < 3 {
                            s.label("split header");
                        }
                        cur = Some((next, room - 1));
                        next += 1;
                        s.label("begins behind a tail");
                    } else {
                        pay.extend_from_slice(&sections[i][pos..]);
                    }
                }
            }
        }
        pay.resize(cap, 0xFF);
        let af = if cap < 184 { Some(gen_af(s, 183 - cap)) } else { None };
        st.packets.push(Pkt { pusi, pid, cc, af, payload: Some(pay) }.build());
        st.done.push(done);
        st.inside.push(inside);
        st.payload.push(true);
        cc = (cc + 1) % 16;
    }
    st.sections = sections;
    st.next_cc = cc;
    st
}

fn note_packets(s: &mut Src, packets: &[Vec<u8>]) {
    if s.verbose {
        for (i, p) in packets.iter().enumerate().take(60) {
            let t = format!("packet {}: {}", i, hex(p));
            s.note(|| t);
        }
    }
}

fn reassembly(s: &mut Src) -> R {
    let st = gen_stream(s, 7);
    let start = if s.chance(1, 3) { s.uni(0, st.packets.len() as u64 - 1) as usize } else { 0 };
    note_packets(s, &st.packets[start..]);
    let n = st.sections.len();
    s.note(|| format!("{} sections, from packet {}", n, start));
    // sections already begun before the first packet received
    let mut partial = None;
    for i in start..st.packets.len() {
        if st.payload[i] {
            partial = st.inside[i];
            break;
        }
    }
    if partial.is_some() {
        s.label("joined inside a section");
    }
    let mut psi = Psi::default();
    if s.chance(1, 8) {
        psi.pid = s.pid();
    }
    for i in start..st.packets.len() {
        let before = psi.check();
        psi.mux(&st.packets[i]);
        let c = psi.check();
        if !st.payload[i] {
            ensure_eq!(c, before, "packet {} without payload changes completeness", i - start);
            continue;
        }
        let want = st.done[i].filter(|&x| Some(x) != partial);
        match want {
            Some(k) => {
                let x = &st.sections[k];
                ensure!(c, "section {} of {} bytes not complete at packet {} that completes it", k, x.len(), i - start);
                ensure_eq!(psi.size, x.len(), "size of section {}", k);
                ensure!(psi.buffer[..psi.size] == x[..], "section {} differs: {}", k, diff(&psi.buffer[..psi.size], x));
            }
            None => ensure!(!c, "packet {} completes nothing but a section of {} bytes is reported", i - start, psi.size),
        }
    }
    if s.labels.len() > 0 {
        s.nontrivial = true;
    }
    Ok(())
}

//
// C03

fn buffer_bounded(psi: &Psi) -> R {
    ensure!(psi.buffer.len() <= 4098 + 4 * 188, "buffer holds {} bytes", psi.buffer.len());
    ensure!(psi.buffer.capacity() <= 4 * (4098 + 4 * 188), "buffer takes {} bytes of memory", psi.buffer.capacity());
    Ok(())
}

fn faults(s: &mut Src) -> R {
    let st = gen_stream(s, 6);
    let mut sent = st.sections.clone();
    let mut v = st.packets.clone();
    if s.chance(1, 3) {
        // once more; continues the counters
        let st2 = gen_stream(s, 4);
        sent.extend(st2.sections.clone());
        v.extend(st2.packets.clone());
    }
    let long = v.len() > 400;
    for _ in 0..s.size(1, if long { 60 } else { 12 }) {
        if v.is_empty() {
            break;
        }
        let i = s.uni(0, v.len() as u64 - 1) as usize;
        match s.weighted(&[3, 2, 2, 3, 1, 1]) {
            0 => {
                let k = (match s.weighted(&[3, 1]) {
                    0 => s.uni(1, 4),
                    _ => 16,
                } as usize).min(v.len() - i);
                v.drain(i..i + k);
                s.hit("dropped");
            }
            1 => {
                let p = v[i].clone();
                v.insert(i, p);
                s.hit("repeated");
            }
            2 => {
                let j = (i + s.uni(1, 5) as usize).min(v.len() - 1);
                v.swap(i, j);
                s.hit("reordered");
            }
            3 => {
                for _ in 0..s.size(1, 6) {
                    let at = match s.weighted(&[2, 3]) {
                        0 => s.uni(0, 8 * 8 - 1),
                        _ => s.uni(0, 188 * 8 - 1),
                    };
                    v[i][at as usize / 8] ^= 0x80 >> (at % 8);
                }
                s.hit("bits damaged");
            }
            4 => {
                let k = s.uni(1, v.len() as u64 - i as u64) as usize;
                let part: Vec<Vec<u8>> = v[i..i + k].to_vec();
                v.splice(i..i, part);
                s.hit("run repeated");
            }
            _ => {
                // damaged bytes
                let a = s.uni(0, 187) as usize;
                let k = s.size(1, 20) as usize;
                let e = (a + k).min(188);
                let x = s.bytes(e - a);
                v[i][a..e].copy_from_slice(&x);
                s.hit("bytes damaged");
            }
        }
        v.truncate(if long { 8000 } else { 400 });
    }
    note_packets(s, &v);
    let mut psi = Psi::default();
    if s.chance(1, 8) {
        psi.pid = s.pid();
    }
    for (i, p) in v.iter().enumerate() {
        psi.mux(p);
        buffer_bounded(&psi)?;
        if psi.check() {
            let got = &psi.buffer[..psi.size];
            ensure!(sent.iter().any(|x| x[..] == *got), "after packet {} a section of {} bytes that was never sent is reported: {}", i, psi.size, hex(got));
        }
    }

    // recovery
    let z = gen_size(s);
    let x = gen_section(s, z);
    let last = v.iter().rev().find(|p| p[3] & 0x10 != 0).map_or(0, |p| p[3] & 15);
    let pid = 0x100;
    let mut cc = (last + 1) % 16;
    let zero = s.chance(1, 2);
    let mut out: Vec<Vec<u8>> = Vec::new();
    let mut pos = 0;
    if zero {
        cc = s.bits(4);
        s.label("recovery with zero pointer field");
    } else {
        cc = (cc + s.uni(1, 14) as u8) % 16;
        s.label("recovery behind a gap");
        // rest of a section whose beginning was lost
        if s.chance(1, 2) {
            s.label("recovery later than the gap");
            for _ in 0..s.size(1, 20) {
                let pay = s.bytes(184);
                out.push(Pkt { pusi: false, pid, cc, af: None, payload: Some(pay) }.build());
                cc = (cc + 1) % 16;
            }
        }
    }
    while pos < x.len() {
        let mut pay = Vec::new();
        if pos == 0 {
            if zero {
                pay.push(0);
            } else {
                // something ends here; the new section must not end in this packet
                let room = 182usize.min(x.len() - 1);
                let k = s.uni(183 - room as u64, 182) as usize;
                pay.push(k as u8);
                pay.extend(s.bytes(k));
            }
        }
        let n = (184 - pay.len()).min(x.len() - pos);
        pay.extend_from_slice(&x[pos..pos + n]);
        pay.resize(184, 0xFF);
        out.push(Pkt { pusi: pos == 0, pid, cc, af: None, payload: Some(pay) }.build());
        cc = (cc + 1) % 16;
        pos += n;
    }
    note_packets(s, &out);
    let n = out.len();
    for (i, p) in out.iter().enumerate() {
        psi.mux(p);
        if i + 1 < n && psi.check() {
            let got = &psi.buffer[..psi.size];
            ensure!(sent.iter().any(|x| x[..] == *got), "during recovery a section of {} bytes that was never sent is reported", psi.size);
            ensure!(got != &x[..], "the recovering section is reported early");
        }
    }
    ensure!(psi.check(), "the undamaged section after the faults is not reported");
    ensure!(psi.buffer[..psi.size] == x[..], "the undamaged section after the faults differs");
    Ok(())
}

//
// C04

fn checksum(s: &mut Src) -> R {
    let n = match s.weighted(&[2, 1]) {
        0 => s.size(0, 300),
        _ => s.int(0, 5000),
    } as usize;
    let mut b = s.bytes(n);
    if s.chance(1, 2000) {
        b = b.repeat(s.uni(1, 30) as usize);
    }
    let n = b.len();
    if n > 0 {
        s.hit("bytes");
    }
    s.note(|| hex(&b));
    ensure_eq!(crc32b(&b), crc(&b), "checksum of {} bytes", n);
    Ok(())
}

fn checksum_short(s: &mut Src) -> R {
    let i = s.uni(0, 65536 + 256 + 1 - 1);
    let b: Vec<u8> = if i == 0 {
        vec![]
    } else if i <= 256 {
        vec![(i - 1) as u8]
    } else {
        let k = i - 257;
        vec![(k >> 8) as u8, k as u8]
    };
    s.hit("string");
    s.note(|| hex(&b));
    ensure_eq!(crc32b(&b), crc(&b), "checksum of {}", hex(&b));
    ensure_eq!(crc32b("123456789"), 0x0376_E6E7, "check value");
    Ok(())
}

fn finalise(s: &mut Src) -> R {
    let size = gen_size(s);
    let mut psi;
    let id = s.u8();
    let want;
    if s.chance(1, 2) {
        let hdr = s.int(3, size as u64 - 4) as usize;
        let ver = s.bits(5);
        psi = Psi::new(id, hdr, ver);
        ensure_eq!(psi.buffer.len(), hdr, "length of the new section");
        let mut w = vec![0u8; hdr];
        w[0] = id;
        w[1] = 0xB0;
        if hdr >= 6 {
            w[5] = 0xC1 | (ver << 1);
        }
        ensure_eq!(psi.buffer, w, "header of the new section");
        psi.buffer.extend(s.bytes(size - 4 - hdr));
        want = psi.buffer.clone();
    } else {
        psi = Psi::default();
        let mut b = vec![id, s.u8(), s.u8()];
        b.extend(s.bytes(size - 7));
        psi.buffer = b;
        want = psi.buffer.clone();
    }
    s.hit("section");
    psi.finalize();
    s.note(|| hex(&psi.buffer));
    let verify = |psi: &Psi, want: &[u8], what: &str| -> R {
        ensure_eq!(psi.size, size, "{}: size", what);
        ensure_eq!(psi.buffer.len(), size, "{}: bytes", what);
        let mut w = want.to_vec();
        w[1] = (w[1] & 0xF0) | ((size - 3) >> 8) as u8;
        w[2] = (size - 3) as u8;
        let c = crc_fast(&w);
        w.extend_from_slice(&c.to_be_bytes());
        ensure!(psi.buffer == w, "{}: {}", what, diff(&psi.buffer, &w));
        ensure!(psi.check(), "{}: does not check as complete", what);
        Ok(())
    };
    verify(&psi, &want, "finalised")?;
    // edited and finalised again
    let mut want = want;
    if size > 7 {
        let i = s.uni(3, size as u64 - 4) as usize;
        if i < size - 4 {
            let v = s.u8();
            psi.buffer[i] = v;
            want[i] = v;
        }
    }
    psi.finalize();
    verify(&psi, &want, "finalised again")
}

fn acceptance(s: &mut Src) -> R {
    let size = gen_size(s);
    let x = gen_section(s, size);
    let mut psi = psi_of(&x);
    ensure!(psi.check(), "an intact section is refused: {}", hex(&x));
    let bits = size as u64 * 8;
    let expect;
    match s.weighted(&[3, 3, 2, 2]) {
        0 => {
            let width = s.uni(1, 32);
            let at = s.int(0, bits - width);
            let mut pat = s.uni(0, u64::from(u32::MAX)) | 1;
            if width > 1 {
                pat |= 1 << (width - 1);
            }
            for j in 0..width {
                if pat >> j & 1 == 1 {
                    let p = at + j;
                    psi.buffer[(p / 8) as usize] ^= 0x80 >> (p % 8);
                }
            }
            s.hit("burst");
            expect = false;
        }
        1 => {
            let mut at: Vec<u64> = (0..s.uni(1, 3)).map(|_| s.int(0, bits - 1)).collect();
            at.sort_unstable();
            at.dedup();
            for p in at {
                psi.buffer[(p / 8) as usize] ^= 0x80 >> (p % 8);
            }
            s.hit("few bits");
            expect = false;
        }
        2 => {
            let n = s.int(0, size as u64 - 1) as usize;
            psi.buffer.truncate(n);
            s.hit("bytes missing");
            expect = false;
        }
        _ => {
            let n = s.size(0, 400) as usize;
            psi.buffer.extend(s.bytes(n));
            s.hit("trailing bytes");
            expect = true;
        }
    }
    let b = psi.buffer.clone();
    s.note(|| format!("{} (size {})", hex(&b), size));
    ensure_eq!(psi.check(), expect, "completeness");
    Ok(())
}

/// every single bit and every pair of neighbouring sizes of a fixed section
fn single_bits(s: &mut Src) -> R {
    let i = s.uni(0, 1024 * 8 - 1);
    s.hit("bit");
    let mut b: Vec<u8> = (0..1024).map(|i| (i * 31 + 7) as u8).collect();
    fix_section(&mut b);
    let mut psi = psi_of(&b);
    s.note(|| format!("bit {}", i));
    psi.buffer[(i / 8) as usize] ^= 0x80 >> (i % 8);
    ensure!(!psi.check(), "bit {} flipped and still accepted", i);
    psi.buffer[(i / 8) as usize] ^= 0x80 >> (i % 8);
    ensure!(psi.check(), "intact section refused");
    Ok(())
}

fn compare(s: &mut Src) -> R {
    let gen = |s: &mut Src| -> (Psi, bool) {
        match s.weighted(&[4, 2, 2]) {
            0 => {
                let z = s.size(8, 60) as usize;
                (psi_of(&gen_section(s, z)), true)
            }
            1 => {
                // incomplete, down to nothing
                let z = s.size(8, 300) as usize;
                let mut p = psi_of(&gen_section(s, z));
                let n = s.uni(0, z as u64 - 1) as usize;
                p.buffer.truncate(n);
                if n < 3 {
                    p.size = 0;
                }
                (p, false)
            }
            _ => {
                let mut p = Psi::default();
                let n = s.size(0, 20) as usize;
                let mut b = s.bytes(n);
                if b.len() > 2 {
                    b[1] = 0;
                    b[2] = s.size(0, 12) as u8;
                    p.size = 3 + b[2] as usize;
                }
                let full = p.size >= 8 && b.len() >= p.size;
                p.buffer = b;
                (p, full)
            }
        }
    };
    let (a, af) = gen(s);
    let (mut b, mut bf) = gen(s);
    if s.chance(1, 2) {
        b = a.clone();
        bf = af;
        if s.chance(2, 3) && !b.buffer.is_empty() {
            let i = s.uni(0, b.buffer.len() as u64 - 1) as usize;
            b.buffer[i] ^= s.u8();
        }
        if s.chance(1, 3) {
            b.buffer.extend(s.bytes(3));
            bf = b.size >= 8 && b.buffer.len() >= b.size;
        }
        if s.chance(1, 3) {
            b.pid ^= 1;
            b.cc = (b.cc + 1) % 16;
        }
    }
    s.hit(if af && bf { "complete" } else { "incomplete" });
    s.note(|| format!("{} (size {}) and {} (size {})", hex(&a.buffer), a.size, hex(&b.buffer), b.size));
    ensure!(a == a.clone(), "a buffer differs from its copy");
    ensure!(b == b.clone(), "a buffer differs from its copy");
    let got = a == b;
    ensure_eq!(b == a, got, "comparison the other way round");
    if af && bf {
        let want = a.size == b.size && a.buffer[a.size - 4..a.size] == b.buffer[b.size - 4..b.size];
        ensure_eq!(got, want, "equality");
    } else if a.size != b.size {
        ensure!(!got, "buffers of different size compare equal");
    }
    Ok(())
}

//
// C05

fn gen_hostile(s: &mut Src, cc: &mut u8) -> Vec<u8> {
    let mut p;
    match s.weighted(&[3, 3, 2]) {
        0 => {
            // plausible header
            let pusi = s.bit() == 1;
            p = vec![0x47, if pusi { 0x40 } else { 0 }, 0x11, 0x10 | *cc];
            if s.chance(1, 3) {
                p[3] |= 0x20;
                p.push(s.u8());
            }
            if pusi {
                p.push(s.u8());
            }
            for _ in 0..s.size(0, 6) {
                p.push(s.u8());
            }
            let n = 188 - p.len();
            p.extend(s.bytes(n));
            *cc = (*cc + 1) % 16;
        }
        1 => {
            // begin of a table
            let k = *s.pick(&KINDS);
            let id = k.gen_id(s);
            let len = s.int(0, 0xFFF);
            p = vec![0x47, 0x40, 0x11, 0x10 | *cc, 0, id, 0xB0 | (len >> 8) as u8, len as u8];
            let n = 180;
            p.extend(s.bytes(n));
            if s.chance(1, 2) {
                // place it anywhere
                let at = s.int(0, 182) as usize;
                p[4] = at as u8;
                let h = [id, 0xB0 | (len >> 8) as u8, len as u8];
                for (j, x) in h.iter().enumerate() {
                    if 5 + at + j < 188 {
                        p[5 + at + j] = *x;
                    }
                }
            }
            *cc = (*cc + 1) % 16;
        }
        _ => {
            p = vec![s.u8(), s.u8(), s.u8(), s.u8(), s.u8(), s.u8()];
            p.extend(s.bytes(182));
        }
    }
    if s.chance(1, 8) {
        let i = s.uni(0, 20) as usize;
        p[i] = s.u8();
    }
    p
}

fn use_packet(p: &[u8]) -> R {
    let off = lts::get_payload_offset(p);
    let want = if p[3] & 0x10 == 0 {
        0
    } else if p[3] & 0x20 == 0 {
        4
    } else if 5 + usize::from(p[4]) >= 188 {
        0
    } else {
        5 + p[4]
    };
    ensure_eq!(off, want, "payload offset of {}", hex(&p[..6]));
    let _ = (lts::is_sync(p), lts::is_error(p), lts::is_pusi(p), lts::get_pid(p), lts::is_scrambled(p), lts::is_adaptation(p), lts::get_adaptation_size(p), lts::is_payload(p), lts::get_cc(p));
    let pcr = lts::get_pcr(p);
    let _ = (lts::is_pcr(p), lts::pcr_to_ms(pcr), lts::pcr_to_us(pcr));
    let _ = format!("{:?} {:?}", lts::TsPacket::new(p), lts::TsAdaptation::new(p));
    Ok(())
}

fn hostile(s: &mut Src) -> R {
    let n = s.size(1, 60) as usize;
    let mut psi = Psi::default();
    let mut t = AllTables::default();
    let mut cc = s.bits(4);
    // a valid stream with edits, or hostile packets
    let list: Vec<Vec<u8>> = if s.chance(1, 3) {
        let k = *s.pick(&KINDS);
        let mut v = Vec::new();
        for x in k.gen_sections(s).iter().take(6) {
            v.extend(packetise(x, 0x11, &mut cc));
        }
        let m = s.size(1, 8);
        for _ in 0..m {
            let i = s.uni(0, v.len() as u64 - 1) as usize;
            let at = if s.chance(1, 2) { s.uni(0, 12) } else { s.uni(0, 187) } as usize;
            v[i][at] = s.u8();
        }
        v.truncate(60);
        s.label("mutated stream");
        v
    } else {
        (0..n).map(|_| gen_hostile(s, &mut cc)).collect()
    };
    note_packets(s, &list);
    for p in &list {
        use_packet(p)?;
        psi.mux(p);
        buffer_bounded(&psi)?;
        let c = psi.check();
        if psi.size != 0 && psi.buffer.len() < psi.size {
            s.hit("incomplete section");
        }
        if c {
            s.hit("complete section");
        }
        for k in KINDS {
            t.parse(k, &psi);
        }
    }
    let _ = format!("{:?}", t);
    Ok(())
}

/// every first byte of flags x adaptation field length x pointer field
fn headers(s: &mut Src) -> R {
    let i = s.uni(0, 256 * 256 - 1);
    let (flags, af) = ((i >> 8) as u8, i as u8);
    s.hit("flags and length");
    s.note(|| format!("byte 3 {:02x}, adaptation field length {}", flags, af));
    for pusi in [0u8, 0x40] {
        for ptr in [0u8, 1, 2, 60, 120, 170, 180, 181, 182, 183, 184, 255] {
            let mut p = vec![ptr; 188];
            p[0] = 0x47;
            p[1] = pusi;
            p[2] = 0x11;
            p[3] = flags;
            p[4] = af;
            p[5] = 0x10;
            use_packet(&p)?;
            // fresh, and in the middle of a section
            let mut psi = Psi::default();
            psi.mux(&p);
            buffer_bounded(&psi)?;
            let _ = psi.check();
            let mut q = vec![0u8; 188];
            q[..8].copy_from_slice(&[0x47, 0x40, 0x11, 0x10 | (flags.wrapping_sub(1) & 15), 0, 0x42, 0xF1, 0x20]);
            let mut psi = Psi::default();
            psi.mux(&q);
            psi.mux(&p);
            buffer_bounded(&psi)?;
            let _ = psi.check();
            Tdt::default().parse(&psi);
        }
    }
    Ok(())
}

/// an adaptation field that leaves no room, with a section in its bytes
fn no_room(s: &mut Src) -> R {
    let i = s.uni(0, 73 * 2 * 2 - 1);
    let (af, pusi, cont) = ((183 + i / 4) as u8, i & 1 == 1, i & 2 == 2);
    s.hit("length");
    s.note(|| format!("adaptation field length {}, unit start {}, in the middle of a section {}", af, pusi, cont));
    let mut x = vec![0x42u8, 0xF0, 0, 1, 2, 3, 4, 0, 0, 0, 0];
    fix_section(&mut x);
    for at in 5..=188 - x.len() {
        for fill in [0u8, 1, 0xFF] {
            let mut p = vec![fill; 188];
            p[..5].copy_from_slice(&[0x47, if pusi { 0x40 } else { 0 }, 0x11, 0x31, af]);
            p[at..at + x.len()].copy_from_slice(&x);
            let mut psi = Psi::default();
            if cont {
                let mut q = vec![0u8; 188];
                q[..8].copy_from_slice(&[0x47, 0x40, 0x11, 0x10, 0, 0x42, 0xF1, 0x20]);
                psi.mux(&q);
            }
            psi.mux(&p);
            ensure!(!psi.check(), "a packet without room for payload gives a section, its bytes at {}", at);
            // nor does it begin one that the next packet completes
            let mut q = p.clone();
            q[1] = 0;
            q[3] = 0x12;
            psi.mux(&q);
            ensure!(!psi.check(), "a packet without room for payload begins a section, its bytes at {}", at);
        }
    }
    Ok(())
}

/// time tables that end anywhere in a packet: no checksum protects them
fn short_tables(s: &mut Src) -> R {
    let i = s.uni(0, 183 * 7 - 1);
    let ptr = (i / 7) as usize;
    let k = KINDS[(i % 7) as usize];
    s.hit("position");
    s.note(|| format!("{:?} behind {} bytes", k, ptr));
    for len in [0usize, 1, 4, 5, 6, 9, 20, 0xFFF] {
        let id = match k {
            K::Pat => 0,
            K::Pmt => 2,
            K::Nit => 0x40,
            K::Sdt => 0x42,
            K::Eit => 0x50,
            K::Tdt => 0x70,
            K::Tot => 0x73,
        };
        let mut p = vec![0x99u8; 188];
        p[..5].copy_from_slice(&[0x47, 0x40, 0x11, 0x10, ptr as u8]);
        for (j, x) in [id, 0x70 | (len >> 8) as u8, len as u8].iter().enumerate() {
            if 5 + ptr + j < 188 {
                p[5 + ptr + j] = *x;
            }
        }
        let mut psi = Psi::default();
        let mut t = AllTables::default();
        psi.mux(&p);
        let _ = psi.check();
        for k in KINDS {
            t.parse(k, &psi);
        }
        // the rest arrives
        p[1] = 0;
        p[3] = 0x11;
        psi.mux(&p);
        for k in KINDS {
            t.parse(k, &psi);
        }
        let _ = format!("{:?}", t);
    }
    Ok(())
}

//
// C06

fn loops(r: &mut Br) -> Result<(), String> {
    r.get(4)?;
    let n = r.get(12)? as usize;
    desc::split_loop(r.take(n)?)?;
    Ok(())
}

/// structure of a section of the library's encoder
pub fn well_formed(k: K, b: &[u8]) -> Result<(), String> {
    match k {
        K::Tdt => {
            if b.len() != 8 {
                return Err(format!("TDT of {} bytes", b.len()));
            }
            Ok(())
        }
        K::Tot => {
            let mut r = Br::new(b);
            r.get(64)?;
            loops(&mut r)?;
            if r.left() != 4 || crc_fast(&b[..b.len() - 4]).to_be_bytes() != b[b.len() - 4..] {
                return Err("TOT ends badly".into());
            }
            Ok(())
        }
        _ => {
            let x = parse_section(b, 4098)?;
            if !k.accepts(x.table_id) && k != K::Eit {
                return Err(format!("table id {:02x}", x.table_id));
            }
            let mut r = Br::new(&x.body);
            match k {
                K::Pat => {
                    if x.body.len() % 4 != 0 {
                        return Err("broken PAT item".into());
                    }
                    return Ok(());
                }
                K::Pmt => {
                    r.get(16)?;
                    loops(&mut r)?;
                }
                K::Nit => {
                    loops(&mut r)?;
                    r.get(4)?;
                    let n = r.get(12)? as usize;
                    if n != r.left() {
                        return Err("stream loop length".into());
                    }
                }
                K::Sdt => {
                    r.get(24)?;
                }
                _ => {
                    r.get(48)?;
                }
            }
            while r.left() > 0 {
                match k {
                    K::Pmt | K::Sdt => r.get(24)?,
                    K::Nit => r.get(32)?,
                    _ => {
                        r.get(40)?;
                        r.get(40)?
                    }
                };
                loops(&mut r)?;
            }
            Ok(())
        }
    }
}

fn contents(s: &mut Src) -> R {
    let k = *s.pick(&KINDS);
    let mut t = AllTables::default();
    let fresh = t.dbg(k);
    let n = s.size(1, 3);
    let mut all = Vec::new();
    for _ in 0..n {
        let mut b;
        if s.chance(3, 4) {
            let mut v = k.gen_sections(s);
            let i = s.uni(0, v.len() as u64 - 1) as usize;
            b = v.swap_remove(i);
            mutate(s, &mut b, 3);
        } else {
            let id = k.gen_id(s);
            let z = s.int(1, 1400) as usize;
            b = vec![id, 0xF0, 0];
            b.extend(s.bytes(z));
        }
        if k == K::Tdt {
            b.resize(8, 0);
            b[1] = 0x70;
            b[2] = 5;
        } else {
            fix_section(&mut b);
        }
        all.push(b);
    }
    if s.verbose {
        for b in &all {
            let h = hex(b);
            s.note(|| format!("{:?} {}", k, h));
        }
    }
    for b in &all {
        if s.chance(1, 4) {
            let mut cc = 3;
            feed(&packetise(b, 0x1000, &mut cc), |p| t.parse(k, p));
        } else {
            t.parse(k, &psi_of(b));
        }
    }
    let shown = t.dbg(k);
    if shown != fresh {
        s.hit("decoded something");
    }
    let d: Option<&Descriptors> = match k {
        K::Pmt => Some(&t.pmt.descriptors),
        K::Nit => Some(&t.nit.descriptors),
        K::Tot => Some(&t.tot.descriptors),
        _ => None,
    };
    if let Some(d) = d {
        ensure_eq!(format!("{:?}", d.clone()), format!("{:?}", d), "copy of the descriptors");
    }
    if k == K::Eit {
        for e in &t.eit.items {
            ensure_eq!(format!("{:?}", e.clone()), format!("{:?}", e), "copy of the event");
        }
    }
    let mut cc = 0;
    let mut dst = Vec::new();
    t.demux(k, &mut cc, &mut dst);
    let mut c = 0;
    let sections = viol_ctx(depacketise(&dst, 0x100, &mut c), "encoded again")?;
    for (i, x) in sections.iter().enumerate() {
        if shown == fresh {
            // nothing accepted: no table id to encode
            continue;
        }
        viol_ctx(well_formed(k, x), &format!("section {} of {} encoded again ({})", i, sections.len(), hex(x)))?;
    }
    // what was encoded is decoded without trouble too
    let mut u = AllTables::default();
    for x in &sections {
        u.parse(k, &psi_of(x));
    }
    let _ = u.dbg(k);
    Ok(())
}

fn descriptor_loops(s: &mut Src) -> R {
    let b = match s.weighted(&[3, 3, 1]) {
        0 => {
            let mut rsv = gen_rsv(s);
            let mut b = desc::encode_list(&desc::gen_list(s, 800, 5), &mut rsv);
            mutate(s, &mut b, 0);
            b
        }
        1 => {
            // one descriptor of a supported type with free content
            let mut b = vec![*s.pick(&desc::TAGS), 0];
            let n = match s.weighted(&[3, 1]) {
                0 => s.size(0, 24),
                _ => s.int(0, 255),
            } as usize;
            b.extend(s.bytes(n));
            b[1] = n as u8;
            b
        }
        _ => {
            let n = s.int(0, 600) as usize;
            s.bytes(n)
        }
    };
    let shown = hex(&b);
    s.note(|| shown);
    let d = Descriptors::from_bytes(&b);
    if d.len() > 0 {
        s.hit("descriptors");
    }
    let text = format!("{:?}", d);
    let e = d.clone();
    ensure_eq!(format!("{:?}", e), text, "copy");
    let mut out = Vec::new();
    d.assemble(&mut out);
    ensure_eq!(out.len(), d.size(), "announced size");
    viol_ctx(desc::split_loop(&out), "encoded again")?;
    let f = Descriptors::from_bytes(&out);
    let _ = format!("{:?}", f);
    Ok(())
}

trait FromBytes {
    fn from_bytes(b: &[u8]) -> Self;
}

impl FromBytes for Descriptors {
    fn from_bytes(b: &[u8]) -> Descriptors {
        let mut d = Descriptors::default();
        d.parse(b);
        d
    }
}

fn texts(s: &mut Src) -> R {
    let n = s.size(0, 300) as usize;
    let mut b = s.bytes(n);
    if n > 0 && s.chance(1, 2) {
        b[0] = s.uni(0, 0x1F) as u8;
        s.hit("selector");
    }
    s.note(|| hex(&b));
    let t = StringDVB::from(&b[..]);
    let _ = t.to_string();
    let _ = format!("{:?}", t);
    let u = t.clone();
    ensure!(u == t, "copy differs");
    let mut out = Vec::new();
    t.assemble(&mut out);
    if out.len() <= 255 {
        t.assemble_sized(&mut out);
    }
    let _ = t.size();
    Ok(())
}

/// all texts of up to three bytes
fn short_texts(s: &mut Src) -> R {
    let i = s.uni(0, 0xFFFF);
    s.hit("prefix");
    s.note(|| format!("{:04x}", i));
    let (a, b) = ((i >> 8) as u8, i as u8);
    let mut list: Vec<Vec<u8>> = vec![vec![a], vec![a, b]];
    for c in 0..=255u8 {
        list.push(vec![a, b, c]);
        if a < 0x20 {
            list.push(vec![a, b, c, 0x41]);
            list.push(vec![a, b, c, 0xC4]);
        }
    }
    for x in list {
        let t = StringDVB::from(&x[..]);
        let _ = t.to_string();
        let mut out = Vec::new();
        t.assemble(&mut out);
        ensure_eq!(out.len(), t.size(), "announced size of {}", hex(&x));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "A case is a finalised section with PID, counter, existing output and a reassembler history; non-trivial when the section takes several packets or exactly fills the last one, or the reassembler has a history. One facet takes every size once.",
            terminates: false,
            facets: vec![
                enumerate("every-size", every_size, 4089),
                random("packetise", packetisation, 4_000_000, 30_000_000),
            ],
            assumptions: &["PID < 8192, counter < 16"],
        },
        Prop {
            id: "C02",
            rule: "A case is a packetised list of 1 to 7 sections and the packet at which reception starts; non-trivial when it has an adaptation field, a packet without payload or with stuffing only, a section begun behind a tail, a split header or a late start.",
            terminates: false,
            facets: vec![random("reassemble", reassembly, 3_000_000, 30_000_000)],
            assumptions: &["at most one section begins per packet and one begun behind a tail does not end in the same packet", "loss-free, in order"],
        },
        Prop {
            id: "C03",
            rule: "A case is a packetised list of sections with 1 to 12 faults (drop, repeat, reorder, bit and byte damage, repeated runs) followed by one undamaged section; non-trivial when a fault was applied.",
            terminates: false,
            facets: vec![random("faults", faults, 2_100_000, 25_000_000)],
            assumptions: &["a wrong section with a matching CRC-32 by chance (2^-32 each) is not expected within the run"],
        },
        Prop {
            id: "C04",
            rule: "A case is a byte string, a section to finalise, a damaged or extended section, or a pair of section buffers; non-trivial unless the byte string is empty.",
            terminates: false,
            facets: vec![
                enumerate("checksum-short", checksum_short, 65536 + 257),
                enumerate("single-bits", single_bits, 1024 * 8),
                random("checksum", checksum, 3_700_000, 30_000_000),
                random("finalise", finalise, 1_100_000, 13_000_000),
                random("acceptance", acceptance, 1_200_000, 14_000_000),
                random("compare", compare, 4_000_000, 30_000_000),
            ],
            assumptions: &["sections of 8 to 4096 bytes"],
        },
        Prop {
            id: "C05",
            rule: "A case is a sequence of up to 60 hostile packets (or one header combination); non-trivial when the reassembler got into a partial or complete section.",
            terminates: true,
            facets: vec![
                enumerate("headers", headers, 256 * 256),
                enumerate("no-room", no_room, 73 * 4),
                enumerate("short-tables", short_tables, 183 * 7),
                random("hostile", hostile, 2_300_000, 27_000_000),
            ],
            assumptions: &["packets are 188 bytes long"],
        },
        Prop {
            id: "C06",
            rule: "A case is one to three checksum-valid sections with mutated content, a descriptor loop or a text; non-trivial when the decoder took something out of it or a selector byte is present.",
            terminates: true,
            facets: vec![
                enumerate("short-texts", short_texts, 65536),
                random("contents", contents, 270_000, 3_200_000),
                random("loops", descriptor_loops, 1_600_000, 19_000_000),
                random("texts", texts, 3_300_000, 30_000_000),
            ],
            assumptions: &["sections of at most 4098 bytes"],
        },
    ]
}

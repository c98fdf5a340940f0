//! C07-C14: tables.

use mpegts::psi::*;

use super::common::*;
use crate::engine::*;
use crate::refimpl::desc::*;
use crate::refimpl::tables::*;
use crate::refimpl::*;
use crate::runner::*;
use crate::{ensure, ensure_eq};

fn note_sections(s: &mut Src, what: &str, v: &[Vec<u8>]) {
    let v: Vec<String> = v.iter().take(4).map(|x| hex(x)).collect();
    let w = what.to_string();
    s.note(move || format!("{} {:?}", w, v));
}

macro_rules! table_props {
    ($M:ident, $L:ident, $enc:ident, $dec:ident) => {
        fn $enc(s: &mut Src) -> R {
            let m = $M::gen(s);
            s.note(|| format!("{:?}", m));
            let (sections, packets) = demux(s, &m.to_lib())?;
            if !m.items.is_empty() {
                s.hit("items");
            }
            if sections.len() > 1 {
                s.label("several sections");
            }
            viol_ctx(m.check_wire(&sections), "encoded")?;
            let mut l = $L::default();
            feed(&packets, |p| l.parse(p));
            viol_ctx(m.same(&l), "decoded again")
        }

        fn $dec(s: &mut Src) -> R {
            let m = $M::gen(s);
            s.note(|| format!("{:?}", m));
            let mut rsv = gen_rsv(s);
            let sections = m.sections(s, &mut rsv);
            if !m.items.is_empty() {
                s.hit("items");
            }
            if sections.len() > 1 {
                s.label("several sections");
            }
            if sections.len() > 256 {
                return Ok(());
            }
            note_sections(s, "sections", &sections);
            let mut l = $L::default();
            deliver(s, &sections, |p| l.parse(p));
            viol_ctx(m.same(&l), "decoded")?;
            if sections.len() == 1 {
                let l = $L::from(&psi_of(&sections[0]));
                viol_ctx(m.same(&l), "decoded by From")?;
            }
            Ok(())
        }
    };
}

table_props!(PatM, Pat, pat_encode, pat_foreign);
table_props!(PmtM, Pmt, pmt_encode, pmt_foreign);
table_props!(NitM, Nit, nit_encode, nit_foreign);
table_props!(SdtM, Sdt, sdt_encode, sdt_foreign);

//
// EIT

pub fn gen_pf(s: &mut Src) -> EitM {
    let id = 0x4E + s.bit();
    let mut m = EitM::gen_head(s, id);
    match s.weighted(&[12, 1]) {
        0 => {
            for _ in 0..s.size(0, 6) {
                m.items.push(EventM::gen(s));
            }
        }
        _ => {
            let n = s.int(0, 256);
            for _ in 0..n {
                let mut e = EventM { id: s.u16(), start: gen_time(s), duration: gen_duration(s), status: 4, ca: 0, desc: vec![] };
                if s.chance(1, 8) {
                    e.desc = gen_list(s, 60, 2);
                }
                m.items.push(e);
            }
        }
    }
    m
}

fn pf_encode(s: &mut Src) -> R {
    let m = gen_pf(s);
    s.note(|| format!("{:?}", m));
    let (sections, packets) = demux(s, &m.to_lib())?;
    if m.items.is_empty() {
        ensure!(packets.is_empty(), "an empty table gives {} packets", packets.len());
        return Ok(());
    }
    s.hit("events");
    let n = m.items.len();
    let heads = viol_ctx(m.check_wire(&sections), "encoded")?;
    ensure_eq!(heads.len(), n, "number of sections");
    for (i, (h, k, _)) in heads.iter().enumerate() {
        let want = EitHead { table_id: m.table_id, num: i as u8, last: (n - 1) as u8, seg_last: (n - 1) as u8, last_table: m.table_id };
        ensure_eq!(*h, want, "header of section {}", i);
        ensure_eq!(*k, 1, "events in section {}", i);
    }
    let mut l = Eit::default();
    feed(&packets, |p| l.parse(p));
    viol_ctx(m.same(&l), "decoded again")?;
    ensure_eq!(l.table_id, m.table_id, "table id decoded again");
    Ok(())
}

fn pf_foreign(s: &mut Src) -> R {
    let m = gen_pf(s);
    let mut rsv = gen_rsv(s);
    s.note(|| format!("{:?}", m));
    // some sections with several events, some empty
    let mut groups: Vec<Vec<EventM>> = vec![vec![]];
    let mut used = 18;
    for e in &m.items {
        if used + e.size() > 4096 || s.chance(2, 3) {
            groups.push(vec![]);
            used = 18;
        }
        used += e.size();
        groups.last_mut().unwrap().push(e.clone());
    }
    let n = groups.len();
    let sections: Vec<Vec<u8>> = groups.iter().enumerate().map(|(i, g)| {
        let h = EitHead { table_id: m.table_id, num: i as u8, last: (n - 1) as u8, seg_last: (n - 1) as u8, last_table: m.table_id };
        m.section(h, g, &mut rsv)
    }).collect();
    note_sections(s, "sections", &sections);
    if !m.items.is_empty() {
        s.hit("events");
    }
    let mut l = Eit::default();
    deliver(s, &sections, |p| l.parse(p));
    viol_ctx(m.same(&l), "decoded")?;
    ensure_eq!(l.table_id, m.table_id, "table id decoded");
    Ok(())
}

const HOUR: u64 = 3600;

pub fn gen_schedule(s: &mut Src) -> EitM {
    let id = s.uni(0x50, 0x6F) as u8;
    let mut m = EitM::gen_head(s, id);
    let mode = s.weighted(&[120, 90, 60, 90, 30, 1]);
    let n = match mode {
        0 => s.size(1, 40),
        1 => s.size(1, 60),
        2 => s.uni(1, 500),
        3 => s.size(1, 30),
        4 => s.uni(30, 120),
        // up to all sixteen table ids
        _ => s.uni(200, 502),
    } as usize;
    // the start time of day decides how many empty sections precede
    let mut t = s.uni(0, TIME_MAX / 86400 - 80) * 86400 + gen_tod(s);
    let mut budget: Vec<(u64, usize)> = Vec::new();
    let mut used = 14;
    for i in 0..n {
        if i > 0 {
            t += match mode {
                0 => s.uni(0, 2 * HOUR),
                1 => s.int(0, 48 * HOUR),
                2 => s.uni(HOUR / 2, 3 * HOUR),
                3 => (s.uni(0, 4) * 3 * HOUR + s.uni(0, 2)).saturating_sub(1),
                4 => s.uni(0, HOUR / 4),
                _ => 3 * HOUR + s.uni(0, HOUR / 2),
            };
            // onto a segment boundary
            if mode == 3 && s.chance(1, 3) {
                t = ((t + 3 * HOUR - 1) / (3 * HOUR) * (3 * HOUR)).saturating_sub(u64::from(s.bit()));
                t = t.max(m.items[i - 1].start);
            }
        }
        t = t.min(TIME_MAX);
        budget.retain(|b| b.0 + 6 * HOUR > t);
        let load: usize = budget.iter().map(|b| b.1).sum();
        let room = (14_000usize.saturating_sub(load)).min(4096 - 18);
        if room < 12 {
            break;
        }
        let desc = match mode {
            2 | 5 => {
                if s.chance(1, 10) { gen_list(s, room.min(300) - 12, 2) } else { vec![] }
            }
            3 | 4 => {
                // aim at the section limit
                let left = (4092i64 - used as i64 - 12).max(0) as usize;
                let want = match s.weighted(&[1, 2]) {
                    0 => (left + s.uni(0, 6) as usize).saturating_sub(3),
                    _ => s.uni(0, 900) as usize,
                };
                filler(s, want.min(room - 12))
            }
            _ => gen_list(s, (room - 12).min(1200), 4),
        };
        let e = EventM { id: s.u16(), start: t, duration: gen_duration(s), status: s.bits(3), ca: s.bit(), desc };
        let z = e.size();
        used = if used + z > 4092 { 14 + z } else { used + z };
        budget.push((t, z));
        m.items.push(e);
    }
    m
}

fn sched_encode(s: &mut Src) -> R {
    let m = gen_schedule(s);
    s.note(|| format!("{:?}", m));
    let (sections, packets) = demux(s, &m.to_lib())?;
    let heads = viol_ctx(m.check_wire(&sections), "encoded")?;
    ensure!(!heads.is_empty(), "no sections");
    let base = m.table_id & 0xF0;
    s.hit("events");
    ensure_eq!((heads[0].0.table_id, heads[0].0.num), (base, 0), "first section");
    let mut ev = 0;
    let lasts = heads.last().unwrap().0;
    // an empty section for every period of the day up to the one of the first event
    let start = m.items[0].start;
    let lead = heads.iter().take_while(|h| h.1 == 0).count();
    let mut want_lead = (start % (24 * HOUR) / (3 * HOUR) + 1) as usize;
    if m.items[0].size() + 14 >= 4092 {
        // has no room behind an empty section of its own segment
        want_lead += 1;
    }
    ensure_eq!(lead, want_lead, "empty sections before the first event at {}", start % (24 * HOUR));
    // end of the period of the current segment
    let mut end = start / (3 * HOUR) * (3 * HOUR) + 6 * HOUR;
    for (i, (h, n, _)) in heads.iter().enumerate() {
        ensure!(h.table_id & 0xF0 == base, "section {} has table id {:02x}", i, h.table_id);
        if i > 0 {
            let (p, _, psize) = heads[i - 1];
            let seg = if p.num >= 248 { (p.table_id + 1, 0) } else { (p.table_id, (p.num / 8 + 1) * 8) };
            let cur = (h.table_id, h.num);
            let cont = p.num % 8 != 7 && cur == (p.table_id, p.num + 1);
            if !cont && i > lead {
                let t = m.items[ev].start;
                ensure!(*n > 0 && t >= end, "section {} begins a segment for an event at {}, before the end of the segment at {}", i, t, end);
                end += 3 * HOUR;
                if t == end - 3 * HOUR {
                    s.label("event at the end of a segment");
                }
            }
            if cont {
                s.label("continued segment");
                // (a first event as large as a section leaves the section before empty)
                ensure!(*n > 0, "section {} continues a segment without events", i);
                let first = m.items[ev].size();
                ensure!(psize - 4 + first >= 4092, "section {} begun although section {} of {} bytes has room for {} more", i, i - 1, psize, first);
            } else {
                ensure_eq!(cur, seg, "table id and number of section {} after {:?}", i, (p.table_id, p.num));
            }
            if h.table_id != p.table_id {
                s.label("several table ids");
            }
        }
        let max = heads.iter().filter(|x| x.0.table_id == h.table_id).map(|x| x.0.num).max().unwrap();
        ensure_eq!(h.last, max, "last section number in section {}", i);
        ensure_eq!(h.last_table, lasts.table_id, "last table id in section {}", i);
        // (an event after a longer gap is alone in its segment)
        let fresh = i > lead && heads[i - 1].0.num / 8 != h.num / 8;
        for e in &m.items[ev + usize::from(fresh)..ev + n] {
            ensure!(e.start < end, "section {} holds an event at {}, the segment ends at {}", i, e.start, end);
        }
        ev += n;
    }
    let mut l = Eit::default();
    feed(&packets, |p| l.parse(p));
    viol_ctx(m.same(&l), "decoded again")?;
    ensure_eq!(l.table_id & 0xF0, base, "table id decoded again");
    Ok(())
}

fn sched_foreign(s: &mut Src) -> R {
    let m = gen_schedule(s);
    s.note(|| format!("{:?}", m));
    let mut rsv = gen_rsv(s);
    let base = m.table_id & 0xF0;
    let mut sections = Vec::new();
    let mut groups: Vec<Vec<EventM>> = vec![];
    let mut used = 5000;
    for e in &m.items {
        if used + e.size() > 4096 || s.chance(1, 3) {
            groups.push(vec![]);
            used = 18;
        }
        used += e.size();
        groups.last_mut().unwrap().push(e.clone());
    }
    let mut num = 0u32;
    let mut last_id = base;
    for g in &groups {
        let id = base + (num / 256) as u8;
        if id & 0xF0 != base {
            return Ok(());
        }
        last_id = id;
        let h = EitHead { table_id: id, num: num as u8, last: 248, seg_last: num as u8, last_table: id };
        sections.push(m.section(h, g, &mut rsv));
        num += if s.chance(1, 2) { 1 } else { 8 - num % 8 };
        if s.chance(1, 16) {
            num += s.uni(0, 400) as u32;
        }
    }
    s.hit("events");
    let mut l = Eit::default();
    deliver(s, &sections, |p| l.parse(p));
    viol_ctx(m.same(&l), "decoded")?;
    ensure_eq!(l.table_id, last_id, "table id of the last section");
    Ok(())
}

//
// TDT, TOT

fn check_tdt_wire(b: &[u8], t: u64) -> Result<(), String> {
    let mut r = Br::new(b);
    if b.len() != 8 || r.get(8)? != 0x70 || r.get(1)? != 0 {
        return Err(format!("not a TDT section: {}", hex(b)));
    }
    r.get(3)?;
    if r.get(12)? != 5 {
        return Err("section length is not 5".into());
    }
    let u = unix_of_utc40(r.get(40)?)?;
    if u != t {
        return Err(format!("denotes {} instead of {}", u, t));
    }
    Ok(())
}

fn one_tdt(s: &mut Src, t: u64) -> R {
    let mut l = Tdt::default();
    l.time = t;
    let (sections, packets) = demux(s, &l)?;
    ensure_eq!(sections.len(), 1, "number of sections");
    viol(check_tdt_wire(&sections[0], t))?;
    let mut psi = Psi::default();
    for p in &packets {
        psi.mux(p);
    }
    let mut g = Tdt::default();
    g.parse(&psi);
    ensure_eq!(g.time, t, "decoded again");
    let mut rsv = gen_rsv(s);
    let f = tdt_section(t, &mut rsv);
    ensure_eq!(Tdt::from(&psi_of(&f)).time, t, "decoded from an independent encoder");
    Ok(())
}

fn tdt(s: &mut Src) -> R {
    let t = gen_time(s);
    s.note(|| format!("time {}", t));
    s.hit("time");
    one_tdt(s, t)
}

/// every day with the first and last second and one in between
fn tdt_days(s: &mut Src) -> R {
    let d = s.uni(0, TIME_MAX / 86400);
    s.hit("day");
    s.note(|| format!("day {}", d));
    for tod in [0, 86399, hash64(&[d]) % 86400] {
        one_tdt(s, d * 86400 + tod)?;
    }
    Ok(())
}

/// every second of a day
fn tdt_seconds(s: &mut Src) -> R {
    let t = s.uni(0, 1439);
    s.hit("minute");
    s.note(|| format!("minute {}", t));
    for sec in 0..60 {
        one_tdt(s, 18_000 * 86400 + t * 60 + sec)?;
    }
    Ok(())
}

fn tot(s: &mut Src) -> R {
    let t = gen_time(s);
    let max = if s.chance(1, 6) { 4000 } else { 1010 };
    let d = match s.weighted(&[3, 1]) {
        0 => gen_list(s, max, 6),
        _ => {
            let n = max - s.size(0, 6) as usize;
            filler(s, n)
        }
    };
    s.note(|| format!("time {} {:?}", t, d));
    s.hit("time");
    if !d.is_empty() {
        s.label("descriptors");
    }
    let mut l = Tot::default();
    l.time = t;
    l.descriptors = to_lib(&d);
    let (sections, packets) = demux(s, &l)?;
    ensure_eq!(sections.len(), 1, "number of sections");
    let b = &sections[0];
    let r = (|| -> Result<(), String> {
        let mut r = Br::new(b);
        if b.len() < 14 || r.get(8)? != 0x73 || r.get(1)? != 0 {
            return Err(format!("not a TOT section: {}", hex(b)));
        }
        r.get(3)?;
        if r.get(12)? as usize != b.len() - 3 {
            return Err("section length".into());
        }
        let u = unix_of_utc40(r.get(40)?)?;
        if u != t {
            return Err(format!("denotes {} instead of {}", u, t));
        }
        r.get(4)?;
        let n = r.get(12)? as usize;
        if n != r.left() - 4 {
            return Err(format!("descriptor loop length {} with {} bytes left", n, r.left()));
        }
        check_loop(r.take(n)?, &d)?;
        if crc(&b[..b.len() - 4]).to_be_bytes() != b[b.len() - 4..] {
            return Err("bad CRC".into());
        }
        Ok(())
    })();
    viol_ctx(r, "encoded")?;
    let mut g = Tot::default();
    let mut n = 0;
    feed(&packets, |p| {
        n += 1;
        g.parse(p);
    });
    ensure_eq!(n, 1, "complete sections");
    ensure_eq!(g.time, t, "decoded again");
    viol_ctx(same_list(&d, &g.descriptors), "decoded again")?;

    let mut rsv = gen_rsv(s);
    let f = tot_section(t, &d, &mut rsv);
    let mut g = Tot::default();
    deliver(s, &[f], |p| g.parse(p));
    ensure_eq!(g.time, t, "decoded from an independent encoder");
    viol_ctx(same_list(&d, &g.descriptors), "decoded from an independent encoder")
}

//
// C07

/// every table id offered to every table
fn ids(s: &mut Src) -> R {
    let i = s.uni(0, 7 * 256 - 1);
    let k = KINDS[(i / 256) as usize];
    let id = (i % 256) as u8;
    s.hit("table and id");
    s.note(|| format!("{:?} is offered id {:02x}", k, id));
    let mut t = AllTables::default();
    let before = t.dbg(k);
    let mut sec = match k {
        K::Tdt => tdt_section(1_600_000_000, &mut Rsv::Ones),
        K::Tot => tot_section(1_600_000_000, &[DescM::StreamId(7)], &mut Rsv::Ones),
        _ => {
            // id, network or program number 0x1234, version 5, descriptor loops empty
            let mut b = vec![id, 0xB0, 0, 0x12, 0x34, 0xCB, 0, 0];
            b.extend_from_slice(&[0; 24]);
            b
        }
    };
    sec[0] = id;
    if k != K::Tdt {
        fix_section(&mut sec);
    }
    if let Some(yes) = offered(k, &psi_of(&sec)) {
        ensure_eq!(yes, k.accepts(id), "acceptance test of a section with table id {:02x}", id);
    }
    t.parse(k, &psi_of(&sec));
    let after = t.dbg(k);
    if k.accepts(id) {
        ensure!(before != after, "{:?} ignores a section with table id {:02x}", k, id);
    } else {
        ensure!(before == after, "{:?} accepts a section with table id {:02x}: {}", k, id, after);
    }
    Ok(())
}

/// acceptance test of a table that has one
fn offered(k: K, psi: &Psi) -> Option<bool> {
    match k {
        K::Pmt => Some(Pmt::default().check(psi)),
        K::Nit => Some(Nit::default().check(psi)),
        _ => None,
    }
}

fn rejected(s: &mut Src) -> R {
    let k = *s.pick(&KINDS);
    let mut t = AllTables::default();
    if s.chance(1, 2) {
        for x in k.gen_sections(s) {
            t.parse(k, &psi_of(&x));
        }
        s.label("table with content");
    }
    let before = t.dbg(k);
    let mut v = k.gen_sections(s);
    let i = s.uni(0, v.len() as u64 - 1) as usize;
    let mut b = v.swap_remove(i);
    let mut psi = psi_of(&b);
    ensure!(offered(k, &psi) != Some(false), "the acceptance test of {:?} refuses {}", k, hex(&b));
    let how = s.weighted(&[2, 3, 3, 2, 3]);
    let name;
    match how {
        0 => {
            name = "foreign table id";
            let mut id = s.u8();
            if k.accepts(id) {
                id = 0xFE;
            }
            b[0] = id;
            if k != K::Tdt {
                fix_section(&mut b);
            }
            psi = psi_of(&b);
        }
        1 => {
            name = "wrong checksum";
            if k == K::Tdt {
                return Ok(());
            }
            // any burst of up to 32 bits behind the length field
            let bits = b.len() as u64 * 8;
            let width = s.uni(1, 32);
            let at = s.uni(24, bits - width);
            let mut pat = s.uni(0, u64::from(u32::MAX)) | 1;
            if width < 32 {
                pat &= (1 << width) - 1;
            }
            pat |= 1;
            for j in 0..width {
                if pat >> j & 1 == 1 {
                    let p = at + j;
                    psi.buffer[(p / 8) as usize] ^= 0x80 >> (p % 8);
                }
            }
        }
        2 => {
            name = "missing bytes";
            let n = s.int(3, b.len() as u64 - 1) as usize;
            psi.buffer.truncate(n);
            if s.chance(1, 2) {
                // as left by the reassembler after the first packets
                let mut cc = 0;
                let p = ts::packetise(&b, 0x100, &mut cc);
                if p.len() > 1 {
                    psi = Psi::default();
                    let m = s.uni(1, p.len() as u64 - 1) as usize;
                    for x in &p[..m] {
                        psi.mux(x);
                    }
                }
            }
        }
        3 => {
            name = "too small";
            if k == K::Tdt {
                // any other size
                let n = s.int(3, 40) as usize;
                let n = if n == 8 { 9 } else { n };
                b.resize(n, 0x11);
                b[2] = (n - 3) as u8;
                psi = psi_of(&b);
            } else {
                let n = s.uni(8, k.min_size() as u64 - 1) as usize;
                b.truncate(n);
                fix_section(&mut b);
                psi = psi_of(&b);
            }
        }
        _ => {
            name = "descriptor loop overruns";
            let (at, hdr) = match k {
                K::Pmt => (10, 12),
                K::Nit => (8, 10),
                K::Tot => (8, 10),
                _ => return Ok(()),
            };
            let room = b.len() - 4 - hdr;
            if room >= 0xFFF {
                return Ok(());
            }
            let n = match s.weighted(&[2, 1]) {
                0 => room + s.size(1, 8) as usize,
                _ => s.int(room as u64 + 1, 0xFFF) as usize,
            }.min(0xFFF);
            b[at] = (b[at] & 0xF0) | (n >> 8) as u8;
            b[at + 1] = n as u8;
            fix_section(&mut b);
            psi = psi_of(&b);
        }
    }
    s.hit(name);
    let shown = hex(&psi.buffer);
    let size = psi.size;
    s.note(|| format!("{:?}, {}: {} (size {})", k, name, shown, size));
    if how < 4 {
        ensure!(offered(k, &psi) != Some(true), "the acceptance test of {:?} says yes to a section with {}", k, name);
    }
    t.parse(k, &psi);
    let after = t.dbg(k);
    ensure!(before == after, "{:?} changed by a section with {}: before {} after {}", k, name, before, after);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "A case is a table (fresh or filled from valid sections) and one section it must refuse, or one (table, table id) pair; every case is non-trivial except a combination that does not exist for the table.",
            terminates: false,
            facets: vec![
                enumerate("ids", ids, 7 * 256),
                random("rejected", rejected, 1_000_000, 12_000_000),
            ],
            assumptions: &["A section is offered with the length its buffer had before bytes were removed, and at least its first three bytes present, as the reassembler leaves it."],
        },
        Prop {
            id: "C08",
            rule: "A case is a PAT with 0 to 3000 programs, counts around multiples of 253 preferred; non-trivial when it has programs.",
            terminates: false,
            facets: vec![random("encode", pat_encode, 750_000, 9_000_000), random("foreign", pat_foreign, 750_000, 9_000_000)],
            assumptions: &["version < 32, PID < 8192, at most 256 sections"],
        },
        Prop {
            id: "C09",
            rule: "A case is a PMT with 0 to 200 streams with generated descriptors, sizes aimed at the section limit; non-trivial when it has streams.",
            terminates: false,
            facets: vec![random("encode", pmt_encode, 560_000, 6_700_000), random("foreign", pmt_foreign, 450_000, 5_400_000)],
            assumptions: &["version < 32, PIDs < 8192; each stream and the program descriptors fit in a section of their own"],
        },
        Prop {
            id: "C10",
            rule: "A case is a NIT with 0 to 200 streams with generated descriptors, sizes aimed at the section limit; non-trivial when it has streams.",
            terminates: false,
            facets: vec![random("encode", nit_encode, 500_000, 6_000_000), random("foreign", nit_foreign, 450_000, 5_400_000)],
            assumptions: &["version < 32; each stream and the network descriptors fit in a section of their own"],
        },
        Prop {
            id: "C11",
            rule: "A case is an SDT with 0 to 200 services with generated descriptors, sizes aimed at the section limit; non-trivial when it has services.",
            terminates: false,
            facets: vec![random("encode", sdt_encode, 560_000, 6_700_000), random("foreign", sdt_foreign, 500_000, 6_000_000)],
            assumptions: &["version < 32, flags within their widths; each service fits in a section of its own"],
        },
        Prop {
            id: "C12",
            rule: "A case is a present/following EIT with 0 to 256 events; non-trivial when it has events.",
            terminates: false,
            facets: vec![random("encode", pf_encode, 750_000, 9_000_000), random("foreign", pf_foreign, 750_000, 9_000_000)],
            assumptions: &["fields within their widths; each event fits in a section"],
        },
        Prop {
            id: "C13",
            rule: "A case is a schedule EIT with 1 to 500 chronological events (dense, sparse, on segment boundaries, filling sections exactly); non-trivial always.",
            terminates: false,
            facets: vec![random("encode", sched_encode, 220_000, 2_600_000), random("foreign", sched_foreign, 250_000, 3_000_000)],
            assumptions: &["chronological events, at most eight sections in a three hour segment, at most 512 segments"],
        },
        Prop {
            id: "C14",
            rule: "A case is one time (with descriptors for the TOT), or all times of one day or minute; non-trivial always.",
            terminates: false,
            facets: vec![
                enumerate("tdt-days", tdt_days, TIME_MAX / 86400 + 1),
                enumerate("tdt-seconds", tdt_seconds, 1440),
                random("tdt", tdt, 4_000_000, 30_000_000),
                random("tot", tot, 1_800_000, 21_000_000),
            ],
            assumptions: &["times from 1970-01-01 to 2038-04-22"],
        },
    ]
}

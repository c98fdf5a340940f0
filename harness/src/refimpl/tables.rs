//! Models of the tables.

use mpegts::psi::*;

use super::desc::*;
use super::ts::*;
use super::*;
use crate::engine::Src;

pub type Res = Result<(), String>;

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, expected {:?}", what, got, want))
    }
}

fn ctx<T>(r: Result<T, String>, what: impl FnOnce() -> String) -> Result<T, String> {
    r.map_err(|e| format!("{}: {}", what(), e))
}

/// where items are put in sections
pub struct Layout {
    pub first: usize,
    pub next: usize,
    pub item: usize,
    pub cap: usize,
}

/// raw descriptors of exactly `n` bytes (0 when n is 1)
pub fn filler(s: &mut Src, mut n: usize) -> Vec<DescM> {
    let mut v = Vec::new();
    while n >= 2 {
        let mut k = n.min(257);
        if n - k == 1 {
            k -= 1;
        }
        let t = gen_unknown_tag(s);
        v.push(DescM::Raw(t, s.bytes(k - 2)));
        n -= k;
    }
    v
}

/// descriptors of a list of items; sizes aim at the section limits
pub fn gen_items(s: &mut Src, l: &Layout) -> Vec<Vec<DescM>> {
    let mode = s.weighted(&[500, 300, 200, 1]);
    let room = l.cap - l.next - l.item;
    let mut n = match mode {
        0 => s.size(0, 6),
        1 => s.size(1, 9),
        _ => s.uni(0, 200),
    };
    let templates: Vec<Vec<DescM>> = match mode {
        2 => {
            let k = s.uni(1, 3);
            (0..k).map(|_| gen_list(s, 200, 3)).collect()
        }
        3 => {
            // up to all 256 sections
            let z = s.int(30, room as u64) as usize;
            let d = filler(s, z);
            let fit = ((l.cap - l.next) / (l.item + list_size(&d))) as u64;
            n = s.int(1, 255) * fit;
            if n > 40 * fit {
                s.label("more than 40 sections");
            }
            vec![d]
        }
        _ => vec![],
    };
    let mut used = l.first;
    let mut out = Vec::new();
    for i in 0..n as usize {
        let d = match mode {
            0 => gen_list(s, room.min(600), 4),
            1 => {
                let left = l.cap as i64 - used as i64 - l.item as i64;
                let t = match s.weighted(&[2, 1, 1]) {
                    0 => left + s.uni(0, 6) as i64 - 3,
                    1 => left / 2 + s.uni(0, 6) as i64 - 3,
                    _ => s.int(0, room as u64) as i64,
                };
                let t = if t < 0 { room as i64 } else { t.min(room as i64) };
                filler(s, t as usize)
            }
            _ => templates[i % templates.len()].clone(),
        };
        let size = l.item + list_size(&d);
        if used + size > l.cap {
            used = l.next;
        }
        used += size;
        out.push(d);
    }
    if mode == 1 && n > 0 {
        s.label("section boundary");
    }
    out
}

/// random cut of n items into sections of at most cap bytes
fn cut(s: &mut Src, sizes: &[usize], l: &Layout) -> Vec<usize> {
    let greedy = s.chance(1, 2) || sizes.len() > 200;
    let mut counts = vec![0];
    let mut used = l.first;
    for &z in sizes {
        if used + z > l.cap || (!greedy && s.chance(1, 4)) {
            counts.push(0);
            used = l.next;
        }
        *counts.last_mut().unwrap() += 1;
        used += z;
    }
    counts
}

pub fn psi_of(section: &[u8]) -> Psi {
    let mut p = Psi::default();
    p.buffer = section.to_vec();
    p.size = section.len();
    p
}

pub fn version(s: &mut Src) -> u8 {
    s.bits(5)
}

/// checks section numbering and common header of a table's sections
pub fn parse_all(sections: &[Vec<u8>], table_id: u8, ext: u16, ver: u8, max: usize) -> Result<Vec<Sec>, String> {
    let mut out = Vec::new();
    for (i, b) in sections.iter().enumerate() {
        let r = (|| {
            let x = parse_section(b, max)?;
            eq("table_id", x.table_id, table_id)?;
            eq("table id extension", x.ext, ext)?;
            eq("version", x.version, ver)?;
            eq("section_number", usize::from(x.num), i)?;
            eq("last_section_number", usize::from(x.last), sections.len() - 1)?;
            Ok(x)
        })();
        out.push(ctx(r, || format!("section {}", i))?);
    }
    Ok(out)
}

//
// PAT

#[derive(Clone, Debug, PartialEq)]
pub struct PatM {
    pub version: u8,
    pub tsid: u16,
    pub items: Vec<(u16, u16)>,
}

impl PatM {
    pub fn gen(s: &mut Src) -> PatM {
        let version = version(s);
        let tsid = s.u16();
        let n = match s.weighted(&[500, 300, 100, 1]) {
            0 => s.size(0, 20),
            1 => (253 * s.uni(1, 4)).wrapping_add(s.uni(0, 4)) - 2,
            2 => s.uni(0, 3000),
            // up to all 256 sections
            _ => (253 * s.int(1, 256)).saturating_sub(s.size(0, 252)),
        };
        let items = if n <= 64 {
            (0..n).map(|_| (s.u16(), s.pid())).collect()
        } else {
            let mut r = crate::engine::Rng::new(s.uni(0, u64::from(u32::MAX)));
            (0..n).map(|_| (r.next() as u16, r.next() as u16 & 0x1FFF)).collect()
        };
        PatM { version, tsid, items }
    }

    pub fn to_lib(&self) -> Pat {
        let mut p = Pat::default();
        p.version = self.version;
        p.tsid = self.tsid;
        for &(pnr, pid) in &self.items {
            p.items.push(PatItem { pnr, pid });
        }
        p
    }

    pub fn same(&self, l: &Pat) -> Res {
        eq("version", l.version, self.version)?;
        eq("tsid", l.tsid, self.tsid)?;
        let g: Vec<(u16, u16)> = l.items.iter().map(|i| (i.pnr, i.pid)).collect();
        eq("number of programs", g.len(), self.items.len())?;
        eq("programs", &g, &self.items)
    }

    pub fn sections(&self, s: &mut Src, rsv: &mut Rsv) -> Vec<Vec<u8>> {
        let counts = if self.items.len() > 300 {
            self.items.chunks(253).map(|c| c.len()).collect()
        } else {
            cut(s, &vec![4; self.items.len()], &Layout { first: 8, next: 8, item: 4, cap: 1020 })
        };
        let mut it = self.items.iter();
        let last = (counts.len() - 1) as u8;
        counts.iter().enumerate().map(|(i, &n)| {
            let mut w = Bw::new();
            for _ in 0..n {
                let (pnr, pid) = it.next().unwrap();
                w.put((*pnr).into(), 16).put(rsv.get(3), 3).put((*pid).into(), 13);
            }
            section(0, self.tsid, self.version, i as u8, last, &w.done(), rsv)
        }).collect()
    }

    pub fn check_wire(&self, sections: &[Vec<u8>]) -> Res {
        let mut items = Vec::new();
        for x in parse_all(sections, 0, self.tsid, self.version, 1024)? {
            let mut r = Br::new(&x.body);
            while r.left() > 0 {
                let pnr = r.get(16)? as u16;
                r.get(3)?;
                items.push((pnr, r.get(13)? as u16));
            }
        }
        eq("number of programs on the wire", items.len(), self.items.len())?;
        eq("programs on the wire", &items, &self.items)
    }
}

//
// PMT

#[derive(Clone, Debug, PartialEq)]
pub struct PmtItemM {
    pub ty: u8,
    pub pid: u16,
    pub desc: Vec<DescM>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct PmtM {
    pub version: u8,
    pub pnr: u16,
    pub pcr: u16,
    pub desc: Vec<DescM>,
    pub items: Vec<PmtItemM>,
}

const PMT: Layout = Layout { first: 12, next: 12, item: 5, cap: 1020 };

/// descriptors of the whole table; at most `max` bytes
fn gen_table_desc(s: &mut Src, max: usize) -> Vec<DescM> {
    match s.weighted(&[3, 5, 1]) {
        0 => vec![],
        1 => gen_list(s, max.min(700), 4),
        _ => {
            let n = max - s.size(0, 5) as usize;
            filler(s, n)
        }
    }
}

impl PmtM {
    pub fn gen(s: &mut Src) -> PmtM {
        let version = version(s);
        let pnr = s.u16();
        let pcr = s.pid();
        let desc = gen_table_desc(s, 1020 - 12);
        let l = Layout { first: 12 + list_size(&desc), ..PMT };
        let items = gen_items(s, &l).into_iter().map(|desc| PmtItemM { ty: s.u8(), pid: s.pid(), desc }).collect();
        PmtM { version, pnr, pcr, desc, items }
    }

    pub fn to_lib(&self) -> Pmt {
        let mut p = Pmt::default();
        p.version = self.version;
        p.pnr = self.pnr;
        p.pcr = self.pcr;
        p.descriptors = to_lib(&self.desc);
        for i in &self.items {
            p.items.push(PmtItem { stream_type: i.ty, pid: i.pid, descriptors: to_lib(&i.desc) });
        }
        p
    }

    pub fn same(&self, l: &Pmt) -> Res {
        eq("version", l.version, self.version)?;
        eq("pnr", l.pnr, self.pnr)?;
        eq("pcr", l.pcr, self.pcr)?;
        ctx(same_list(&self.desc, &l.descriptors), || "program descriptors".into())?;
        eq("number of streams", l.items.len(), self.items.len())?;
        for (n, (g, w)) in l.items.iter().zip(&self.items).enumerate() {
            eq("stream type", g.stream_type, w.ty)?;
            eq("stream pid", g.pid, w.pid)?;
            ctx(same_list(&w.desc, &g.descriptors), || format!("stream {}", n))?;
        }
        Ok(())
    }

    pub fn sections(&self, s: &mut Src, rsv: &mut Rsv) -> Vec<Vec<u8>> {
        let sizes: Vec<usize> = self.items.iter().map(|i| 5 + list_size(&i.desc)).collect();
        let counts = cut(s, &sizes, &Layout { first: 12 + list_size(&self.desc), ..PMT });
        let mut it = self.items.iter();
        let last = (counts.len() - 1) as u8;
        counts.iter().enumerate().map(|(i, &n)| {
            let mut w = Bw::new();
            let d = if i == 0 { encode_list(&self.desc, rsv) } else { vec![] };
            w.put(rsv.get(3), 3).put(self.pcr.into(), 13).put(rsv.get(4), 4).put(d.len() as u64, 12).bytes(&d);
            for _ in 0..n {
                let x = it.next().unwrap();
                let d = encode_list(&x.desc, rsv);
                w.put(x.ty.into(), 8).put(rsv.get(3), 3).put(x.pid.into(), 13).put(rsv.get(4), 4);
                w.put(d.len() as u64, 12).bytes(&d);
            }
            section(2, self.pnr, self.version, i as u8, last, &w.done(), rsv)
        }).collect()
    }

    pub fn check_wire(&self, sections: &[Vec<u8>]) -> Res {
        let mut it = self.items.iter();
        let mut n = 0;
        for x in parse_all(sections, 2, self.pnr, self.version, 1024)? {
            let mut r = Br::new(&x.body);
            r.get(3)?;
            eq("PCR PID on the wire", r.get(13)? as u16, self.pcr)?;
            r.get(4)?;
            let len = r.get(12)? as usize;
            let want: &[DescM] = if x.num == 0 { &self.desc } else { &[] };
            ctx(check_loop(r.take(len)?, want), || format!("program descriptors of section {}", x.num))?;
            while r.left() > 0 {
                let w = it.next().ok_or("more streams on the wire than in the table")?;
                eq("stream type on the wire", r.get(8)? as u8, w.ty)?;
                r.get(3)?;
                eq("stream pid on the wire", r.get(13)? as u16, w.pid)?;
                r.get(4)?;
                let len = r.get(12)? as usize;
                ctx(check_loop(r.take(len)?, &w.desc), || format!("stream {}", n))?;
                n += 1;
            }
        }
        eq("number of streams on the wire", n, self.items.len())
    }
}

//
// NIT

#[derive(Clone, Debug, PartialEq)]
pub struct NitItemM {
    pub tsid: u16,
    pub onid: u16,
    pub desc: Vec<DescM>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct NitM {
    pub table_id: u8,
    pub version: u8,
    pub nid: u16,
    pub desc: Vec<DescM>,
    pub items: Vec<NitItemM>,
}

const NIT: Layout = Layout { first: 12, next: 12, item: 6, cap: 1020 };

impl NitM {
    pub fn gen(s: &mut Src) -> NitM {
        let table_id = 0x40 + s.bit();
        let version = version(s);
        let nid = s.u16();
        let desc = gen_table_desc(s, 1020 - 12);
        let l = Layout { first: 12 + list_size(&desc), ..NIT };
        let items = gen_items(s, &l).into_iter().map(|desc| NitItemM { tsid: s.u16(), onid: s.u16(), desc }).collect();
        NitM { table_id, version, nid, desc, items }
    }

    pub fn to_lib(&self) -> Nit {
        let mut p = Nit::default();
        p.table_id = self.table_id;
        p.version = self.version;
        p.network_id = self.nid;
        p.descriptors = to_lib(&self.desc);
        for i in &self.items {
            p.items.push(NitItem { tsid: i.tsid, onid: i.onid, descriptors: to_lib(&i.desc) });
        }
        p
    }

    pub fn same(&self, l: &Nit) -> Res {
        eq("table_id", l.table_id, self.table_id)?;
        eq("version", l.version, self.version)?;
        eq("network_id", l.network_id, self.nid)?;
        ctx(same_list(&self.desc, &l.descriptors), || "network descriptors".into())?;
        eq("number of streams", l.items.len(), self.items.len())?;
        for (n, (g, w)) in l.items.iter().zip(&self.items).enumerate() {
            eq("tsid", g.tsid, w.tsid)?;
            eq("onid", g.onid, w.onid)?;
            ctx(same_list(&w.desc, &g.descriptors), || format!("stream {}", n))?;
        }
        Ok(())
    }

    pub fn sections(&self, s: &mut Src, rsv: &mut Rsv) -> Vec<Vec<u8>> {
        let sizes: Vec<usize> = self.items.iter().map(|i| 6 + list_size(&i.desc)).collect();
        let counts = cut(s, &sizes, &Layout { first: 12 + list_size(&self.desc), ..NIT });
        let mut it = self.items.iter();
        let last = (counts.len() - 1) as u8;
        counts.iter().enumerate().map(|(i, &n)| {
            let mut w = Bw::new();
            let d = if i == 0 { encode_list(&self.desc, rsv) } else { vec![] };
            w.put(rsv.get(4), 4).put(d.len() as u64, 12).bytes(&d);
            let mut items = Bw::new();
            for _ in 0..n {
                let x = it.next().unwrap();
                let d = encode_list(&x.desc, rsv);
                items.put(x.tsid.into(), 16).put(x.onid.into(), 16).put(rsv.get(4), 4);
                items.put(d.len() as u64, 12).bytes(&d);
            }
            let items = items.done();
            w.put(rsv.get(4), 4).put(items.len() as u64, 12).bytes(&items);
            section(self.table_id, self.nid, self.version, i as u8, last, &w.done(), rsv)
        }).collect()
    }

    pub fn check_wire(&self, sections: &[Vec<u8>]) -> Res {
        let mut it = self.items.iter();
        let mut n = 0;
        for x in parse_all(sections, self.table_id, self.nid, self.version, 1024)? {
            let mut r = Br::new(&x.body);
            r.get(4)?;
            let len = r.get(12)? as usize;
            let want: &[DescM] = if x.num == 0 { &self.desc } else { &[] };
            ctx(check_loop(r.take(len)?, want), || format!("network descriptors of section {}", x.num))?;
            r.get(4)?;
            eq("transport stream loop length", r.get(12)? as usize, r.left())?;
            while r.left() > 0 {
                let w = it.next().ok_or("more streams on the wire than in the table")?;
                eq("tsid on the wire", r.get(16)? as u16, w.tsid)?;
                eq("onid on the wire", r.get(16)? as u16, w.onid)?;
                r.get(4)?;
                let len = r.get(12)? as usize;
                ctx(check_loop(r.take(len)?, &w.desc), || format!("stream {}", n))?;
                n += 1;
            }
        }
        eq("number of streams on the wire", n, self.items.len())
    }
}

//
// SDT

#[derive(Clone, Debug, PartialEq)]
pub struct SdtItemM {
    pub pnr: u16,
    pub sched: u8,
    pub pf: u8,
    pub status: u8,
    pub ca: u8,
    pub desc: Vec<DescM>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SdtM {
    pub table_id: u8,
    pub version: u8,
    pub tsid: u16,
    pub onid: u16,
    pub items: Vec<SdtItemM>,
}

const SDT: Layout = Layout { first: 11, next: 11, item: 5, cap: 1020 };

impl SdtM {
    pub fn gen(s: &mut Src) -> SdtM {
        let table_id = if s.bit() == 1 { 0x46 } else { 0x42 };
        let version = version(s);
        let tsid = s.u16();
        let onid = s.u16();
        let items = gen_items(s, &SDT).into_iter().map(|desc| SdtItemM {
            pnr: s.u16(),
            sched: s.bit(),
            pf: s.bit(),
            status: s.bits(3),
            ca: s.bit(),
            desc,
        }).collect();
        SdtM { table_id, version, tsid, onid, items }
    }

    pub fn to_lib(&self) -> Sdt {
        let mut p = Sdt::default();
        p.table_id = self.table_id;
        p.version = self.version;
        p.tsid = self.tsid;
        p.onid = self.onid;
        for i in &self.items {
            p.items.push(SdtItem {
                pnr: i.pnr,
                eit_schedule_flag: i.sched,
                eit_present_following_flag: i.pf,
                running_status: i.status,
                free_ca_mode: i.ca,
                descriptors: to_lib(&i.desc),
            });
        }
        p
    }

    pub fn same(&self, l: &Sdt) -> Res {
        eq("table_id", l.table_id, self.table_id)?;
        eq("version", l.version, self.version)?;
        eq("tsid", l.tsid, self.tsid)?;
        eq("onid", l.onid, self.onid)?;
        eq("number of services", l.items.len(), self.items.len())?;
        for (n, (g, w)) in l.items.iter().zip(&self.items).enumerate() {
            eq("service", (g.pnr, g.eit_schedule_flag, g.eit_present_following_flag, g.running_status, g.free_ca_mode),
                (w.pnr, w.sched, w.pf, w.status, w.ca))?;
            ctx(same_list(&w.desc, &g.descriptors), || format!("service {}", n))?;
        }
        Ok(())
    }

    pub fn sections(&self, s: &mut Src, rsv: &mut Rsv) -> Vec<Vec<u8>> {
        let sizes: Vec<usize> = self.items.iter().map(|i| 5 + list_size(&i.desc)).collect();
        let counts = cut(s, &sizes, &SDT);
        let mut it = self.items.iter();
        let last = (counts.len() - 1) as u8;
        counts.iter().enumerate().map(|(i, &n)| {
            let mut w = Bw::new();
            w.put(self.onid.into(), 16).put(rsv.get(8), 8);
            for _ in 0..n {
                let x = it.next().unwrap();
                let d = encode_list(&x.desc, rsv);
                w.put(x.pnr.into(), 16).put(rsv.get(6), 6).put(x.sched.into(), 1).put(x.pf.into(), 1);
                w.put(x.status.into(), 3).put(x.ca.into(), 1).put(d.len() as u64, 12).bytes(&d);
            }
            section(self.table_id, self.tsid, self.version, i as u8, last, &w.done(), rsv)
        }).collect()
    }

    pub fn check_wire(&self, sections: &[Vec<u8>]) -> Res {
        let mut it = self.items.iter();
        let mut n = 0;
        for x in parse_all(sections, self.table_id, self.tsid, self.version, 1024)? {
            let mut r = Br::new(&x.body);
            eq("onid on the wire", r.get(16)? as u16, self.onid)?;
            r.get(8)?;
            while r.left() > 0 {
                let w = it.next().ok_or("more services on the wire than in the table")?;
                eq("service id on the wire", r.get(16)? as u16, w.pnr)?;
                r.get(6)?;
                let f = (r.get(1)? as u8, r.get(1)? as u8, r.get(3)? as u8, r.get(1)? as u8);
                eq("service flags on the wire", f, (w.sched, w.pf, w.status, w.ca))?;
                let len = r.get(12)? as usize;
                ctx(check_loop(r.take(len)?, &w.desc), || format!("service {}", n))?;
                n += 1;
            }
        }
        eq("number of services on the wire", n, self.items.len())
    }
}

//
// EIT

#[derive(Clone, Debug, PartialEq)]
pub struct EventM {
    pub id: u16,
    pub start: u64,
    pub duration: u32,
    pub status: u8,
    pub ca: u8,
    pub desc: Vec<DescM>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct EitM {
    pub table_id: u8,
    pub version: u8,
    pub pnr: u16,
    pub tsid: u16,
    pub onid: u16,
    pub items: Vec<EventM>,
}

pub const DURATION_MAX: u64 = 99 * 3600 + 59 * 60 + 59;

pub fn gen_duration(s: &mut Src) -> u32 {
    (match s.weighted(&[4, 2, 1]) {
        0 => s.uni(0, 6 * 3600),
        1 => s.int(0, DURATION_MAX),
        _ => *s.pick(&[0, 59, 60, 3599, 3600, 86399, 86400, 86401, 90000, 172_800, DURATION_MAX, DURATION_MAX - 1]),
    }) as u32
}

pub fn gen_event_desc(s: &mut Src) -> Vec<DescM> {
    const ROOM: usize = 4096 - 14 - 12 - 4;
    match s.weighted(&[12, 1, 1]) {
        0 => gen_list(s, 700, 4),
        1 => {
            let n = s.int(0, ROOM as u64) as usize;
            filler(s, n)
        }
        _ => {
            let n = ROOM - s.size(0, 6) as usize;
            filler(s, n)
        }
    }
}

impl EventM {
    pub fn gen(s: &mut Src) -> EventM {
        EventM {
            id: s.u16(),
            start: gen_time(s),
            duration: gen_duration(s),
            status: s.bits(3),
            ca: s.bit(),
            desc: gen_event_desc(s),
        }
    }

    pub fn size(&self) -> usize {
        12 + list_size(&self.desc)
    }

    pub fn to_lib(&self) -> EitItem {
        let mut e = EitItem::default();
        e.event_id = self.id;
        e.start = self.start;
        e.duration = self.duration;
        e.status = self.status;
        e.ca_mode = self.ca;
        e.descriptors = to_lib(&self.desc);
        e
    }

    pub fn same(&self, g: &EitItem) -> Res {
        eq("event id", g.event_id, self.id)?;
        eq("start", g.start, self.start)?;
        eq("duration", g.duration, self.duration)?;
        eq("status", g.status, self.status)?;
        eq("ca_mode", g.ca_mode, self.ca)?;
        same_list(&self.desc, &g.descriptors)
    }

    pub fn encode(&self, rsv: &mut Rsv) -> Vec<u8> {
        let d = encode_list(&self.desc, rsv);
        let mut w = Bw::new();
        w.put(self.id.into(), 16).put(utc40(self.start), 40).put(bcd_of_hms(self.duration.into()), 24);
        w.put(self.status.into(), 3).put(self.ca.into(), 1).put(d.len() as u64, 12).bytes(&d);
        w.done()
    }

    pub fn check_wire(&self, r: &mut Br) -> Res {
        eq("event id on the wire", r.get(16)? as u16, self.id)?;
        eq("start on the wire", unix_of_utc40(r.get(40)?)?, self.start)?;
        eq("duration on the wire", hms_of_bcd(r.get(24)?)?, self.duration.into())?;
        eq("status and ca mode on the wire", (r.get(3)? as u8, r.get(1)? as u8), (self.status, self.ca))?;
        let len = r.get(12)? as usize;
        check_loop(r.take(len)?, &self.desc)
    }
}

/// header fields of one EIT section
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct EitHead {
    pub table_id: u8,
    pub num: u8,
    pub last: u8,
    pub seg_last: u8,
    pub last_table: u8,
}

impl EitM {
    pub fn gen_head(s: &mut Src, table_id: u8) -> EitM {
        EitM { table_id, version: version(s), pnr: s.u16(), tsid: s.u16(), onid: s.u16(), items: vec![] }
    }

    pub fn to_lib(&self) -> Eit {
        let mut e = Eit::default();
        e.table_id = self.table_id;
        e.version = self.version;
        e.pnr = self.pnr;
        e.tsid = self.tsid;
        e.onid = self.onid;
        e.items = self.items.iter().map(|i| i.to_lib()).collect();
        e
    }

    /// compares all but the table id
    pub fn same(&self, l: &Eit) -> Res {
        eq("version", l.version, self.version)?;
        eq("pnr", l.pnr, self.pnr)?;
        eq("tsid", l.tsid, self.tsid)?;
        eq("onid", l.onid, self.onid)?;
        eq("number of events", l.items.len(), self.items.len())?;
        for (n, (g, w)) in l.items.iter().zip(&self.items).enumerate() {
            ctx(w.same(g), || format!("event {}", n))?;
        }
        Ok(())
    }

    pub fn section(&self, h: EitHead, events: &[EventM], rsv: &mut Rsv) -> Vec<u8> {
        let mut w = Bw::new();
        w.put(self.tsid.into(), 16).put(self.onid.into(), 16).put(h.seg_last.into(), 8).put(h.last_table.into(), 8);
        for e in events {
            w.bytes(&e.encode(rsv));
        }
        section(h.table_id, self.pnr, self.version, h.num, h.last, &w.done(), rsv)
    }

    /// reads the sections; returns each section's header and number of events, having compared the events
    pub fn check_wire(&self, sections: &[Vec<u8>]) -> Result<Vec<(EitHead, usize, usize)>, String> {
        let mut it = self.items.iter();
        let mut n = 0;
        let mut out = Vec::new();
        for (i, b) in sections.iter().enumerate() {
            let x = ctx(parse_section(b, 4096), || format!("section {}", i))?;
            eq("service id", x.ext, self.pnr)?;
            eq("version", x.version, self.version)?;
            let mut r = Br::new(&x.body);
            eq("tsid on the wire", r.get(16)? as u16, self.tsid)?;
            eq("onid on the wire", r.get(16)? as u16, self.onid)?;
            let h = EitHead { table_id: x.table_id, num: x.num, last: x.last, seg_last: r.get(8)? as u8, last_table: r.get(8)? as u8 };
            let before = n;
            while r.left() > 0 {
                let w = it.next().ok_or("more events on the wire than in the table")?;
                ctx(w.check_wire(&mut r), || format!("event {}", n))?;
                n += 1;
            }
            out.push((h, n - before, x.size));
        }
        eq("number of events on the wire", n, self.items.len())?;
        Ok(out)
    }
}

//
// TDT, TOT

pub fn tdt_section(time: u64, rsv: &mut Rsv) -> Vec<u8> {
    let mut w = Bw::new();
    w.put(0x70, 8).put(0, 1).put(rsv.get(1), 1).put(rsv.get(2), 2).put(5, 12).put(utc40(time), 40);
    w.done()
}

pub fn tot_section(time: u64, desc: &[DescM], rsv: &mut Rsv) -> Vec<u8> {
    let d = encode_list(desc, rsv);
    let mut w = Bw::new();
    w.put(0x73, 8).put(0, 1).put(rsv.get(1), 1).put(rsv.get(2), 2).put(7 + d.len() as u64 + 4, 12).put(utc40(time), 40);
    w.put(rsv.get(4), 4).put(d.len() as u64, 12).bytes(&d);
    let mut v = w.done();
    let c = crc_fast(&v);
    v.extend_from_slice(&c.to_be_bytes());
    v
}

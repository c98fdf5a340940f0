//! Models of the descriptors: generator, standard wire layout, comparison with the library's values.

use mpegts::psi::*;
use mpegts::textcode::StringDVB;

use super::text::TextM;
use super::*;
use crate::engine::Src;

pub const TAGS: [u8; 14] = [0x09, 0x0A, 0x0E, 0x40, 0x41, 0x43, 0x44, 0x48, 0x4D, 0x4E, 0x52, 0x58, 0x5A, 0x83];

#[derive(Clone, PartialEq, Debug)]
pub struct Lto {
    pub country: [u8; 3],
    pub region: u8,
    pub polarity: u8,
    /// minutes
    pub offset: u16,
    pub change: u64,
    pub next: u16,
}

#[derive(Clone, PartialEq, Debug)]
pub enum DescM {
    Ca { caid: u16, pid: u16, data: Vec<u8> },
    Lang(Vec<([u8; 3], u8)>),
    Bitrate(u32),
    NetName(TextM),
    Services(Vec<(u16, u8)>),
    /// frequency kHz, position in minutes of angle
    Sat { freq: u32, pos: u16, we: u8, pol: u8, rof: u8, s2: u8, modu: u8, sr: u32, fec: u8 },
    /// frequency Hz
    Cable { freq: u32, outer: u8, modu: u8, sr: u32, fec: u8 },
    Service { ty: u8, provider: TextM, name: TextM },
    ShortEvent { lang: [u8; 3], name: TextM, text: TextM },
    ExtEvent { num: u8, last: u8, lang: [u8; 3], items: Vec<(TextM, TextM)>, text: TextM },
    StreamId(u8),
    Offsets(Vec<Lto>),
    Terr { freq: u32, bw: u8, prio: u8, ts: u8, fec: u8, modu: u8, hier: u8, hp: u8, lp: u8, gi: u8, tm: u8, other: u8 },
    Lcn(Vec<(u16, u8, u16)>),
    Raw(u8, Vec<u8>),
}

use DescM::*;

fn code(b: [u8; 3]) -> StringDVB {
    // latin letters: no selector, so the text is the three bytes
    StringDVB::from(&b[..])
}

fn code3(b: &[u8]) -> [u8; 3] {
    [b[0], b[1], b[2]]
}

pub fn gen_code(s: &mut Src) -> [u8; 3] {
    match s.weighted(&[5, 2]) {
        0 => *s.pick(&[*b"eng", *b"rus", *b"deu", *b"qaa", *b"mul", *b"GBR", *b"zxx"]),
        _ => {
            let mut c = [0; 3];
            for (i, x) in c.iter_mut().enumerate() {
                // the first byte selects no table
                *x = if i == 0 { s.int(0x20, 0xFF) } else { s.int(0, 0xFF) } as u8;
            }
            c
        }
    }
}

/// (a longer text belongs to a body that does not fit anyway)
fn len8(b: &[u8]) -> u64 {
    b.len().min(255) as u64
}

fn count(s: &mut Src, max: usize) -> usize {
    match s.weighted(&[8, 1, 1]) {
        0 => s.size(0, max.min(6) as u64) as usize,
        1 => s.int(0, max as u64) as usize,
        _ => max - s.size(0, max.min(2) as u64) as usize,
    }
}

pub fn gen_time(s: &mut Src) -> u64 {
    let day = match s.weighted(&[4, 2, 1]) {
        0 => s.uni(0, TIME_MAX / 86400),
        1 => s.int(0, TIME_MAX / 86400),
        // around turns of months and years
        _ => {
            let y = s.uni(0, 67);
            (y * 1461 / 4 + *s.pick(&[0, 30, 31, 58, 59, 60, 364, 365])).min(TIME_MAX / 86400)
        }
    };
    day * 86400 + gen_tod(s)
}

pub fn gen_tod(s: &mut Src) -> u64 {
    match s.weighted(&[4, 1]) {
        0 => s.uni(0, 86399),
        _ => *s.pick(&[0, 1, 59, 60, 3599, 3600, 35999, 36000, 43199, 43200, 71999, 72000, 86398, 86399]),
    }
}

impl DescM {
    pub fn tag(&self) -> u8 {
        match self {
            Ca { .. } => 0x09,
            Lang(_) => 0x0A,
            Bitrate(_) => 0x0E,
            NetName(_) => 0x40,
            Services(_) => 0x41,
            Sat { .. } => 0x43,
            Cable { .. } => 0x44,
            Service { .. } => 0x48,
            ShortEvent { .. } => 0x4D,
            ExtEvent { .. } => 0x4E,
            StreamId(_) => 0x52,
            Offsets(_) => 0x58,
            Terr { .. } => 0x5A,
            Lcn(_) => 0x83,
            Raw(t, _) => *t,
        }
    }

    /// descriptor of the given type with a body of at most `max` (<= 255) bytes, if that type can be so small
    pub fn gen_tag(s: &mut Src, tag: u8, max: usize) -> DescM {
        match tag {
            0x09 => {
                let caid = s.u16();
                let pid = s.pid();
                let n = text::gen_len(s, max.saturating_sub(4));
                Ca { caid, pid, data: s.bytes(n) }
            }
            0x0A => {
                let n = count(s, max / 4);
                Lang((0..n).map(|_| (gen_code(s), s.u8())).collect())
            }
            0x0E => Bitrate(s.int(0, 0x3F_FFFF) as u32),
            0x40 => NetName(TextM::gen(s, max)),
            0x41 => {
                let n = count(s, max / 3);
                Services((0..n).map(|_| (s.u16(), s.u8())).collect())
            }
            0x43 => Sat {
                freq: s.int(0, 99_999_999) as u32 * 10,
                pos: s.int(0, 9999) as u16 * 6,
                we: s.bit(),
                pol: s.bits(2),
                rof: s.bits(2),
                s2: s.bit(),
                modu: s.bits(2),
                sr: s.int(0, 999_999) as u32,
                fec: s.bits(4),
            },
            0x44 => Cable {
                freq: s.int(0, u64::from(u32::MAX / 100)) as u32 * 100,
                outer: s.bits(4),
                modu: s.u8(),
                sr: s.int(0, 999_999) as u32,
                fec: s.bits(4),
            },
            0x48 => {
                let ty = s.u8();
                let provider = TextM::gen(s, max.saturating_sub(3));
                let left = max.saturating_sub(3 + provider.wire().len());
                Service { ty, provider, name: TextM::gen(s, left) }
            }
            0x4D => {
                let lang = gen_code(s);
                let name = TextM::gen(s, max.saturating_sub(5));
                let left = max.saturating_sub(5 + name.wire().len());
                ShortEvent { lang, name, text: TextM::gen(s, left) }
            }
            0x4E => {
                let num = s.bits(4);
                let last = s.bits(4);
                let lang = gen_code(s);
                let mut left = max.saturating_sub(6);
                let n = s.size(0, 12);
                let mut items = Vec::new();
                for _ in 0..n {
                    if left < 2 {
                        break;
                    }
                    let a = TextM::gen(s, (left - 2).min(60));
                    let b = TextM::gen(s, (left - 2 - a.wire().len()).min(60));
                    left -= 2 + a.wire().len() + b.wire().len();
                    items.push((a, b));
                }
                ExtEvent { num, last, lang, items, text: TextM::gen(s, left) }
            }
            0x52 => StreamId(s.u8()),
            0x58 => {
                let n = count(s, max / 13);
                Offsets((0..n).map(|_| Lto {
                    country: gen_code(s),
                    region: s.bits(6),
                    polarity: s.bit(),
                    offset: s.int(0, 1439) as u16,
                    change: gen_time(s),
                    next: s.int(0, 1439) as u16,
                }).collect())
            }
            0x5A => Terr {
                freq: s.int(0, u64::from(u32::MAX / 10)) as u32 * 10,
                bw: s.bits(3),
                prio: s.bit(),
                ts: s.bit(),
                fec: s.bit(),
                modu: s.bits(2),
                hier: s.bits(3),
                hp: s.bits(3),
                lp: s.bits(3),
                gi: s.bits(2),
                tm: s.bits(2),
                other: s.bit(),
            },
            0x83 => {
                let n = count(s, max / 4);
                Lcn((0..n).map(|_| (s.u16(), s.bit(), s.int(0, 1023) as u16)).collect())
            }
            t => {
                let n = text::gen_len(s, max);
                Raw(t, s.bytes(n))
            }
        }
    }

    /// any descriptor with a body of at most `max` bytes
    pub fn gen(s: &mut Src, max: usize) -> DescM {
        let max = max.min(255);
        let d = match s.weighted(&[6, 2, 1]) {
            0 => {
                let t = *s.pick(&TAGS);
                DescM::gen_tag(s, t, max)
            }
            1 => {
                let t = gen_unknown_tag(s);
                DescM::gen_tag(s, t, max)
            }
            _ => gen_misfit(s, max),
        };
        if d.body(&mut Rsv::Ones).len() > max {
            let n = s.size(0, max as u64) as usize;
            return Raw(0x80, s.bytes(n));
        }
        d
    }

    pub fn body(&self, rsv: &mut Rsv) -> Vec<u8> {
        let mut w = Bw::new();
        match self {
            Ca { caid, pid, data } => {
                w.put((*caid).into(), 16).put(rsv.get(3), 3).put((*pid).into(), 13).bytes(data);
            }
            Lang(items) => {
                for (c, t) in items {
                    w.bytes(c).put((*t).into(), 8);
                }
            }
            Bitrate(b) => {
                w.put(rsv.get(2), 2).put((*b).into(), 22);
            }
            NetName(t) => {
                w.bytes(&t.wire());
            }
            Services(items) => {
                for (id, t) in items {
                    w.put((*id).into(), 16).put((*t).into(), 8);
                }
            }
            Sat { freq, pos, we, pol, rof, s2, modu, sr, fec } => {
                w.put(to_bcd((freq / 10).into(), 8), 32).put(to_bcd((pos / 6).into(), 4), 16);
                w.put((*we).into(), 1).put((*pol).into(), 2).put((*rof).into(), 2).put((*s2).into(), 1).put((*modu).into(), 2);
                // 7 digits in 0.1 ksymbol/s, the last one below the resolution of the field
                w.put(to_bcd(u64::from(*sr) * 10 + rsv.digit(), 7), 28).put((*fec).into(), 4);
            }
            Cable { freq, outer, modu, sr, fec } => {
                w.put(to_bcd((freq / 100).into(), 8), 32).put(rsv.get(12), 12).put((*outer).into(), 4);
                w.put((*modu).into(), 8).put(to_bcd(u64::from(*sr) * 10 + rsv.digit(), 7), 28).put((*fec).into(), 4);
            }
            Service { ty, provider, name } => {
                let (p, n) = (provider.wire(), name.wire());
                w.put((*ty).into(), 8).put(len8(&p), 8).bytes(&p).put(len8(&n), 8).bytes(&n);
            }
            ShortEvent { lang, name, text } => {
                let (n, t) = (name.wire(), text.wire());
                w.bytes(lang).put(len8(&n), 8).bytes(&n).put(len8(&t), 8).bytes(&t);
            }
            ExtEvent { num, last, lang, items, text } => {
                w.put((*num).into(), 4).put((*last).into(), 4).bytes(lang);
                let mut b = Vec::new();
                for (x, y) in items {
                    for z in [x.wire(), y.wire()] {
                        b.push(z.len() as u8);
                        b.extend_from_slice(&z);
                    }
                }
                let t = text.wire();
                w.put(len8(&b), 8).bytes(&b).put(len8(&t), 8).bytes(&t);
            }
            StreamId(t) => {
                w.put((*t).into(), 8);
            }
            Offsets(items) => {
                for i in items {
                    w.bytes(&i.country).put(i.region.into(), 6).put(rsv.get(1), 1).put(i.polarity.into(), 1);
                    w.put(to_bcd((i.offset / 60).into(), 2), 8).put(to_bcd((i.offset % 60).into(), 2), 8);
                    w.put(utc40(i.change), 40);
                    w.put(to_bcd((i.next / 60).into(), 2), 8).put(to_bcd((i.next % 60).into(), 2), 8);
                }
            }
            Terr { freq, bw, prio, ts, fec, modu, hier, hp, lp, gi, tm, other } => {
                w.put((freq / 10).into(), 32).put((*bw).into(), 3).put((*prio).into(), 1).put((*ts).into(), 1);
                w.put((*fec).into(), 1).put(rsv.get(2), 2).put((*modu).into(), 2).put((*hier).into(), 3);
                w.put((*hp).into(), 3).put((*lp).into(), 3).put((*gi).into(), 2).put((*tm).into(), 2);
                w.put((*other).into(), 1).put(rsv.get(32), 32);
            }
            Lcn(items) => {
                for (id, v, n) in items {
                    w.put((*id).into(), 16).put((*v).into(), 1).put(rsv.get(5), 5).put((*n).into(), 10);
                }
            }
            Raw(_, d) => {
                w.bytes(d);
            }
        }
        w.done()
    }

    pub fn encode(&self, rsv: &mut Rsv) -> Vec<u8> {
        let b = self.body(rsv);
        assert!(b.len() <= 255, "harness: descriptor body of {} bytes", b.len());
        let mut v = vec![self.tag(), b.len() as u8];
        v.extend_from_slice(&b);
        v
    }

    /// reads a descriptor of a supported type by the standard's layout; Err: does not fit the layout
    pub fn decode(tag: u8, b: &[u8]) -> Result<DescM, String> {
        let mut r = Br::new(b);
        let bcd = |v: u64, n: u32| from_bcd(v, n).ok_or_else(|| "digit above 9".to_string());
        let txt = |t: &[u8]| TextM::from_wire(t).unwrap_or(TextM { cp: 0, data: b"?".to_vec() });
        let d = match tag {
            0x09 => {
                let caid = r.get(16)? as u16;
                r.get(3)?;
                let pid = r.get(13)? as u16;
                Ca { caid, pid, data: r.take(b.len() - 4)?.to_vec() }
            }
            0x0A => {
                let mut v = Vec::new();
                while r.left() > 0 {
                    let c = code3(r.take(3)?);
                    v.push((c, r.get(8)? as u8));
                }
                Lang(v)
            }
            0x0E => {
                r.get(2)?;
                Bitrate(r.get(22)? as u32)
            }
            0x40 => NetName(txt(r.take(b.len())?)),
            0x41 => {
                let mut v = Vec::new();
                while r.left() > 0 {
                    v.push((r.get(16)? as u16, r.get(8)? as u8));
                }
                Services(v)
            }
            0x43 => Sat {
                freq: bcd(r.get(32)?, 8)? as u32 * 10,
                pos: bcd(r.get(16)?, 4)? as u16 * 6,
                we: r.get(1)? as u8,
                pol: r.get(2)? as u8,
                rof: r.get(2)? as u8,
                s2: r.get(1)? as u8,
                modu: r.get(2)? as u8,
                sr: {
                    let v = bcd(r.get(24)?, 6)? as u32;
                    r.get(4)?;
                    v
                },
                fec: r.get(4)? as u8,
            },
            0x44 => Cable {
                freq: {
                    let f = bcd(r.get(32)?, 8)? * 100;
                    if f > u64::from(u32::MAX) {
                        return Err("frequency too large".into());
                    }
                    r.get(12)?;
                    f as u32
                },
                outer: r.get(4)? as u8,
                modu: r.get(8)? as u8,
                sr: {
                    let v = bcd(r.get(24)?, 6)? as u32;
                    r.get(4)?;
                    v
                },
                fec: r.get(4)? as u8,
            },
            0x48 => {
                let ty = r.get(8)? as u8;
                let n = r.get(8)? as usize;
                let p = txt(r.take(n)?);
                let n = r.get(8)? as usize;
                Service { ty, provider: p, name: txt(r.take(n)?) }
            }
            0x4D => {
                let lang = code3(r.take(3)?);
                let n = r.get(8)? as usize;
                let name = txt(r.take(n)?);
                let n = r.get(8)? as usize;
                ShortEvent { lang, name, text: txt(r.take(n)?) }
            }
            0x4E => {
                let num = r.get(4)? as u8;
                let last = r.get(4)? as u8;
                let lang = code3(r.take(3)?);
                let n = r.get(8)? as usize;
                let ib = r.take(n)?;
                let mut ir = Br::new(ib);
                let mut items = Vec::new();
                while ir.left() > 0 {
                    let n = ir.get(8)? as usize;
                    let a = txt(ir.take(n)?);
                    let n = ir.get(8)? as usize;
                    items.push((a, txt(ir.take(n)?)));
                }
                let n = r.get(8)? as usize;
                ExtEvent { num, last, lang, items, text: txt(r.take(n)?) }
            }
            0x52 => StreamId(r.get(8)? as u8),
            0x58 => {
                let mut v = Vec::new();
                while r.left() > 0 {
                    let country = code3(r.take(3)?);
                    let region = r.get(6)? as u8;
                    r.get(1)?;
                    let polarity = r.get(1)? as u8;
                    let o = r.get(16)?;
                    let c = r.get(40)?;
                    let n = r.get(16)?;
                    let hm = |x: u64| -> Result<u16, String> { Ok((hms_of_bcd(x << 8)? / 60) as u16) };
                    if c >> 24 < 40587 {
                        return Err("date before 1970".into());
                    }
                    v.push(Lto { country, region, polarity, offset: hm(o)?, change: unix_of_utc40(c)?, next: hm(n)? });
                }
                Offsets(v)
            }
            0x5A => Terr {
                freq: {
                    let f = r.get(32)? * 10;
                    if f > u64::from(u32::MAX) {
                        return Err("frequency too large".into());
                    }
                    f as u32
                },
                bw: r.get(3)? as u8,
                prio: r.get(1)? as u8,
                ts: r.get(1)? as u8,
                fec: {
                    let v = r.get(1)? as u8;
                    r.get(2)?;
                    v
                },
                modu: r.get(2)? as u8,
                hier: r.get(3)? as u8,
                hp: r.get(3)? as u8,
                lp: r.get(3)? as u8,
                gi: r.get(2)? as u8,
                tm: r.get(2)? as u8,
                other: {
                    let v = r.get(1)? as u8;
                    r.get(32)?;
                    v
                },
            },
            0x83 => {
                let mut v = Vec::new();
                while r.left() > 0 {
                    let id = r.get(16)? as u16;
                    let vis = r.get(1)? as u8;
                    r.get(5)?;
                    v.push((id, vis, r.get(10)? as u16));
                }
                Lcn(v)
            }
            t => Raw(t, r.take(b.len())?.to_vec()),
        };
        if r.left() > 0 {
            return Err(format!("{} bytes left over", r.left()));
        }
        Ok(d)
    }

    /// values gen_tag can give: codes that are no table selectors, offsets below a day
    fn usual(&self) -> bool {
        match self {
            Lang(v) => v.iter().all(|x| x.0[0] >= 0x20),
            ShortEvent { lang, .. } | ExtEvent { lang, .. } => lang[0] >= 0x20,
            Offsets(v) => v.iter().all(|x| x.country[0] >= 0x20 && x.offset < 1440 && x.next < 1440 && x.change <= TIME_MAX),
            _ => true,
        }
    }

    pub fn to_lib(&self) -> Descriptor {
        match self {
            Ca { caid, pid, data } => Desc09 { caid: *caid, pid: *pid, data: data.clone() }.into(),
            Lang(v) => Desc0A { items: v.iter().map(|(c, t)| Desc0Ai { code: code(*c), audio_type: *t }).collect() }.into(),
            Bitrate(b) => Desc0E { bitrate: *b }.into(),
            NetName(t) => Desc40 { name: t.to_lib() }.into(),
            Services(v) => Desc41 { items: v.iter().map(|(i, t)| Desc41i { service_id: *i, service_type: *t }).collect() }.into(),
            Sat { freq, pos, we, pol, rof, s2, modu, sr, fec } => Desc43 {
                frequency: *freq,
                orbital_position: *pos,
                west_east_flag: *we,
                polarization: *pol,
                rof: *rof,
                s2: *s2,
                modulation: *modu,
                symbol_rate: *sr,
                fec: *fec,
            }.into(),
            Cable { freq, outer, modu, sr, fec } => Desc44 {
                frequency: *freq,
                fec_outer: *outer,
                modulation: *modu,
                symbol_rate: *sr,
                fec: *fec,
            }.into(),
            Service { ty, provider, name } => Desc48 { service_type: *ty, provider: provider.to_lib(), name: name.to_lib() }.into(),
            ShortEvent { lang, name, text } => Desc4D { lang: code(*lang), name: name.to_lib(), text: text.to_lib() }.into(),
            ExtEvent { num, last, lang, items, text } => Desc4E {
                number: *num,
                last_number: *last,
                lang: code(*lang),
                items: items.iter().map(|(a, b)| (a.to_lib(), b.to_lib())).collect(),
                text: text.to_lib(),
            }.into(),
            StreamId(t) => Desc52 { tag: *t }.into(),
            Offsets(v) => Desc58 {
                items: v.iter().map(|i| Desc58i {
                    country_code: code(i.country),
                    region_id: i.region,
                    offset_polarity: i.polarity,
                    offset: i.offset,
                    time_of_change: i.change,
                    next_offset: i.next,
                }).collect(),
            }.into(),
            Terr { freq, bw, prio, ts, fec, modu, hier, hp, lp, gi, tm, other } => Desc5A {
                frequency: *freq,
                bandwidth: *bw,
                priority: *prio,
                time_slicing: *ts,
                mpe_fec: *fec,
                modulation: *modu,
                hierarchy: *hier,
                code_rate_hp: *hp,
                code_rate_lp: *lp,
                guard_interval: *gi,
                transmission: *tm,
                other_frequency_flag: *other,
            }.into(),
            Lcn(v) => Desc83 { items: v.iter().map(|(i, s, n)| Desc83i { service_id: *i, visible: *s, lcn: *n }).collect() }.into(),
            Raw(t, d) => DescRaw { tag: *t, data: d.clone() }.into(),
        }
    }

    /// compares with a descriptor of the library; a descriptor of another kind panics in the downcast
    pub fn same(&self, l: &Descriptor) -> Result<(), String> {
        fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
            if got == want {
                Ok(())
            } else {
                Err(format!("{}: got {:?}, expected {:?}", what, got, want))
            }
        }
        let tag = self.tag();
        eq("tag", l.tag(), tag)?;
        let r = (|| -> Result<(), String> {
            match self {
                Ca { caid, pid, data } => {
                    let d = l.downcast_ref::<Desc09>();
                    eq("caid", d.caid, *caid)?;
                    eq("pid", d.pid, *pid)?;
                    eq("data", &d.data, data)
                }
                Lang(v) => {
                    let d = l.downcast_ref::<Desc0A>();
                    eq("items", d.items.len(), v.len())?;
                    for (a, b) in d.items.iter().zip(v) {
                        eq("code", a.code.as_bytes(), &b.0[..])?;
                        eq("audio_type", a.audio_type, b.1)?;
                    }
                    Ok(())
                }
                Bitrate(b) => eq("bitrate", l.downcast_ref::<Desc0E>().bitrate, *b),
                NetName(t) => t.same(&l.downcast_ref::<Desc40>().name),
                Services(v) => {
                    let d = l.downcast_ref::<Desc41>();
                    let g: Vec<(u16, u8)> = d.items.iter().map(|i| (i.service_id, i.service_type)).collect();
                    eq("items", &g, v)
                }
                Sat { freq, pos, we, pol, rof, s2, modu, sr, fec } => {
                    let d = l.downcast_ref::<Desc43>();
                    eq("frequency", d.frequency, *freq)?;
                    eq("orbital_position", d.orbital_position, *pos)?;
                    eq("flags", (d.west_east_flag, d.polarization, d.rof, d.s2, d.modulation), (*we, *pol, *rof, *s2, *modu))?;
                    eq("symbol_rate", d.symbol_rate, *sr)?;
                    eq("fec", d.fec, *fec)
                }
                Cable { freq, outer, modu, sr, fec } => {
                    let d = l.downcast_ref::<Desc44>();
                    eq("frequency", d.frequency, *freq)?;
                    eq("fec_outer", d.fec_outer, *outer)?;
                    eq("modulation", d.modulation, *modu)?;
                    eq("symbol_rate", d.symbol_rate, *sr)?;
                    eq("fec", d.fec, *fec)
                }
                Service { ty, provider, name } => {
                    let d = l.downcast_ref::<Desc48>();
                    eq("service_type", d.service_type, *ty)?;
                    provider.same(&d.provider)?;
                    name.same(&d.name)
                }
                ShortEvent { lang, name, text } => {
                    let d = l.downcast_ref::<Desc4D>();
                    eq("lang", d.lang.as_bytes(), &lang[..])?;
                    name.same(&d.name)?;
                    text.same(&d.text)
                }
                ExtEvent { num, last, lang, items, text } => {
                    let d = l.downcast_ref::<Desc4E>();
                    eq("numbers", (d.number, d.last_number), (*num, *last))?;
                    eq("lang", d.lang.as_bytes(), &lang[..])?;
                    eq("items", d.items.len(), items.len())?;
                    for (a, b) in d.items.iter().zip(items) {
                        b.0.same(&a.0)?;
                        b.1.same(&a.1)?;
                    }
                    text.same(&d.text)
                }
                StreamId(t) => eq("tag", l.downcast_ref::<Desc52>().tag, *t),
                Offsets(v) => {
                    let d = l.downcast_ref::<Desc58>();
                    eq("items", d.items.len(), v.len())?;
                    for (a, b) in d.items.iter().zip(v) {
                        eq("country_code", a.country_code.as_bytes(), &b.country[..])?;
                        eq("region_id", a.region_id, b.region)?;
                        eq("offset_polarity", a.offset_polarity, b.polarity)?;
                        eq("offset", a.offset, b.offset)?;
                        eq("time_of_change", a.time_of_change, b.change)?;
                        eq("next_offset", a.next_offset, b.next)?;
                    }
                    Ok(())
                }
                Terr { freq, bw, prio, ts, fec, modu, hier, hp, lp, gi, tm, other } => {
                    let d = l.downcast_ref::<Desc5A>();
                    eq("frequency", d.frequency, *freq)?;
                    eq("flags", [d.bandwidth, d.priority, d.time_slicing, d.mpe_fec, d.modulation, d.hierarchy,
                        d.code_rate_hp, d.code_rate_lp, d.guard_interval, d.transmission, d.other_frequency_flag],
                        [*bw, *prio, *ts, *fec, *modu, *hier, *hp, *lp, *gi, *tm, *other])
                }
                Lcn(v) => {
                    let d = l.downcast_ref::<Desc83>();
                    let g: Vec<(u16, u8, u16)> = d.items.iter().map(|i| (i.service_id, i.visible, i.lcn)).collect();
                    eq("items", &g, v)
                }
                Raw(t, data) => {
                    let d = l.downcast_ref::<DescRaw>();
                    eq("raw tag", d.tag, *t)?;
                    eq("raw data", &d.data, data)
                }
            }
        })();
        r.map_err(|e| format!("descriptor {:02x}: {}", tag, e))
    }
}

pub fn gen_unknown_tag(s: &mut Src) -> u8 {
    let t = match s.weighted(&[1, 2, 1]) {
        0 => *s.pick(&[0x56, 0x59, 0x6A, 0x6F, 0x7A, 0x81, 0x7F]),
        1 => s.uni(0, 255) as u8,
        // neighbours of supported tags
        _ => s.pick(&TAGS).wrapping_add(1 + 254 * s.bit()),
    };
    if TAGS.contains(&t) {
        0xA0
    } else {
        t
    }
}

/// content of a supported type that does not fit its layout
pub fn gen_misfit(s: &mut Src, max: usize) -> DescM {
    let t = *s.pick(&TAGS);
    if t == 0x40 {
        return Raw(0x80, vec![]);
    }
    // near the layout: encode a fitting one and damage it
    let mut b = match s.weighted(&[3, 1]) {
        0 => DescM::gen_tag(s, t, max).body(&mut Rsv::Ones),
        _ => {
            let n = s.size(0, max as u64) as usize;
            s.bytes(n)
        }
    };
    match s.weighted(&[2, 2, 3]) {
        0 => {
            let k = s.size(1, 4) as usize;
            b.truncate(b.len().saturating_sub(k));
        }
        1 => {
            let k = s.size(1, 4) as usize;
            let x = s.bytes(k);
            b.extend_from_slice(&x);
        }
        _ => {
            if !b.is_empty() {
                let i = s.uni(0, b.len() as u64 - 1) as usize;
                b[i] = s.u8();
            }
        }
    }
    b.truncate(max);
    match DescM::decode(t, &b) {
        Err(_) if t != 0x58 || b.len() % 13 != 0 => Raw(t, b),
        // fits after all (or only its dates are odd)
        Err(_) => Raw(0x80, b),
        Ok(d) => {
            // keep the fitting value when its text is faithful
            if d.usual() && d.body(&mut Rsv::Ones) == b { d } else { Raw(0x80, b) }
        }
    }
}

/// list of descriptors whose wire size is at most `max`
pub fn gen_list(s: &mut Src, max: usize, max_n: u64) -> Vec<DescM> {
    let n = s.size(0, max_n);
    let mut left = max;
    let mut v = Vec::new();
    for _ in 0..n {
        if left < 2 {
            break;
        }
        let d = DescM::gen(s, (left - 2).min(255));
        left -= d.encode(&mut Rsv::Ones).len();
        v.push(d);
    }
    v
}

pub fn encode_list(v: &[DescM], rsv: &mut Rsv) -> Vec<u8> {
    let mut o = Vec::new();
    for d in v {
        o.extend_from_slice(&d.encode(rsv));
    }
    o
}

pub fn list_size(v: &[DescM]) -> usize {
    v.iter().map(|d| 2 + d.body(&mut Rsv::Ones).len()).sum()
}

/// splits a loop into (tag, body); Err when it is not well formed
pub fn split_loop(mut b: &[u8]) -> Result<Vec<(u8, Vec<u8>)>, String> {
    let mut v = Vec::new();
    while !b.is_empty() {
        if b.len() < 2 || b.len() < 2 + b[1] as usize {
            return Err(format!("descriptor loop ends inside a descriptor: {}", hex(b)));
        }
        let n = 2 + b[1] as usize;
        v.push((b[0], b[2..n].to_vec()));
        b = &b[n..];
    }
    Ok(v)
}

/// compares loop bytes with the models, reading them by the standard
pub fn check_loop(b: &[u8], want: &[DescM]) -> Result<(), String> {
    let got = split_loop(b)?;
    if got.len() != want.len() {
        return Err(format!("{} descriptors on the wire, expected {}", got.len(), want.len()));
    }
    for ((t, body), w) in got.iter().zip(want) {
        if *t != w.tag() {
            return Err(format!("descriptor {:02x} on the wire, expected {:02x}", t, w.tag()));
        }
        let g = match w {
            Raw(..) => Raw(*t, body.clone()),
            _ => DescM::decode(*t, body).map_err(|e| format!("descriptor {:02x} on the wire: {} ({})", t, e, hex(body)))?,
        };
        if g != *w {
            return Err(format!("descriptor on the wire reads {:?}, expected {:?}", g, w));
        }
    }
    Ok(())
}

pub fn to_lib(v: &[DescM]) -> Descriptors {
    let mut d = Descriptors::default();
    for x in v {
        d.push(x.to_lib());
    }
    d
}

pub fn same_list(want: &[DescM], got: &Descriptors) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{} descriptors, expected {}", got.len(), want.len()));
    }
    for (g, w) in got.iter().zip(want) {
        w.same(g)?;
    }
    Ok(())
}

//! C15-C17, C28: descriptors.

use mpegts::es::StreamType;
use mpegts::psi::*;
use mpegts::textcode::StringDVB;

use super::common::*;
use crate::engine::*;
use crate::refimpl::desc::*;
use crate::refimpl::tables::psi_of;
use crate::refimpl::text::TextM;
use crate::refimpl::ts::section;
use crate::refimpl::*;
use crate::runner::*;
use crate::{ensure, ensure_eq};

/// encodes behind existing output and checks size and return value
fn assemble(s: &mut Src, d: &Descriptors) -> Result<Vec<u8>, Fail> {
    let n = existing(s, 40);
    let prefix = vec![0x5Au8; n];
    let mut out = prefix.clone();
    let r = d.assemble(&mut out);
    ensure!(out.len() >= n && out[..n] == prefix[..], "existing output was changed");
    let got = out[n..].to_vec();
    ensure_eq!(r, got.len(), "returned size against bytes appended {}", hex(&got));
    ensure_eq!(d.size(), got.len(), "announced size against bytes appended {}", hex(&got));
    Ok(got)
}

fn parse(b: &[u8]) -> Descriptors {
    let mut d = Descriptors::default();
    d.parse(b);
    d
}

//
// C15

fn encode_one(s: &mut Src, m: &DescM) -> R {
    let l = to_lib(std::slice::from_ref(m));
    s.note(|| format!("{:?}", m));
    let b = assemble(s, &l)?;
    s.note(|| format!("encodes to {}", hex(&b)));
    viol(check_loop(&b, std::slice::from_ref(m)))?;
    viol_ctx(same_list(std::slice::from_ref(m), &parse(&b)), "decoded again")
}

fn values(s: &mut Src) -> R {
    let t = *s.pick(&TAGS);
    let m = DescM::gen_tag(s, t, 255);
    s.hit(tag_label(t));
    if m.body(&mut Rsv::Ones).len() >= 250 {
        s.label("body of 250 bytes or more");
    }
    encode_one(s, &m)
}

fn tag_label(t: u8) -> &'static str {
    match t {
        0x09 => "type 09", 0x0A => "type 0a", 0x0E => "type 0e", 0x40 => "type 40", 0x41 => "type 41", 0x43 => "type 43",
        0x44 => "type 44", 0x48 => "type 48", 0x4D => "type 4d", 0x4E => "type 4e", 0x52 => "type 52", 0x58 => "type 58",
        0x5A => "type 5a", 0x83 => "type 83", _ => "other type",
    }
}

fn foreign(s: &mut Src) -> R {
    let t = *s.pick(&TAGS);
    let m = DescM::gen_tag(s, t, 255);
    s.hit(tag_label(t));
    let mut rsv = gen_rsv(s);
    let b = m.encode(&mut rsv);
    s.note(|| format!("{:?} as {}", m, hex(&b)));
    let l = parse(&b);
    viol(same_list(std::slice::from_ref(&m), &l))?;
    // what was decoded encodes to the same values
    let b2 = assemble(s, &l)?;
    viol_ctx(check_loop(&b2, std::slice::from_ref(&m)), "encoded again")
}

fn any_code(s: &mut Src) -> [u8; 3] {
    match s.weighted(&[1, 2]) {
        0 => {
            let c = [s.u8(), s.u8(), s.u8()];
            c
        }
        // looks like a table selector
        _ => [*s.pick(&[0x00, 0x01, 0x05, 0x0B, 0x0C, 0x0F, 0x10, 0x11, 0x14, 0x15, 0x1F]), s.u8(), s.u8()],
    }
}

/// received language and country codes of any three bytes
fn codes(s: &mut Src) -> R {
    let m = match s.uni(0, 3) {
        0 => DescM::Lang((0..s.size(1, 6)).map(|_| (any_code(s), s.u8())).collect()),
        1 => {
            let lang = any_code(s);
            DescM::ShortEvent { lang, name: TextM::gen(s, 20), text: TextM::gen(s, 20) }
        }
        2 => {
            let lang = any_code(s);
            DescM::ExtEvent { num: s.bits(4), last: s.bits(4), lang, items: vec![(TextM::gen(s, 9), TextM::gen(s, 9))], text: TextM::gen(s, 20) }
        }
        _ => DescM::Offsets((0..s.size(1, 3)).map(|_| Lto {
            country: any_code(s),
            region: s.bits(6),
            polarity: s.bit(),
            offset: s.int(0, 1439) as u16,
            change: gen_time(s),
            next: s.int(0, 1439) as u16,
        }).collect()),
    };
    s.hit("code");
    let b = m.encode(&mut Rsv::Ones);
    s.note(|| format!("{:?} as {}", m, hex(&b)));
    let l = parse(&b);
    viol(same_list(std::slice::from_ref(&m), &l))?;
    let _ = format!("{:?}", l);
    let b2 = assemble(s, &l)?;
    ensure!(b2 == b, "encoded again: {}", diff(&b2, &b));
    Ok(())
}

/// whole ranges of the small fields
fn ranges(s: &mut Src) -> R {
    let i = s.uni(0, 9999);
    s.hit("range");
    let (i16, i32) = (i as u16, i as u32);
    let lo = (i % 16) as u8;
    let mut all = vec![
        DescM::Sat { freq: i32 * 100_000, pos: i16 * 6, we: lo & 1, pol: lo & 3, rof: lo >> 2, s2: (lo >> 1) & 1, modu: lo >> 2, sr: i32 * 100 + 7, fec: lo },
        DescM::Cable { freq: i32 * 400_000, outer: lo, modu: i as u8, sr: 999_999 - i32 * 100, fec: 15 - lo },
        DescM::Bitrate(i32 * 419),
        DescM::Ca { caid: i16 * 6, pid: i16 % 8192, data: vec![i as u8; (i % 252) as usize] },
        DescM::Terr { freq: i32 * 429_490, bw: (i % 8) as u8, prio: lo & 1, ts: (lo >> 1) & 1, fec: (lo >> 2) & 1, modu: lo & 3,
            hier: (i / 8 % 8) as u8, hp: (i / 64 % 8) as u8, lp: (i / 512 % 8) as u8, gi: lo >> 2, tm: (i / 16 % 4) as u8, other: lo >> 3 },
        DescM::Lcn(vec![(i16, lo & 1, i16 % 1024); (i % 64) as usize]),
        DescM::Services(vec![(i16, i as u8); (i % 86) as usize]),
        DescM::Lang(vec![([b'a' + lo, b'z', b'q'], i as u8); (i % 64) as usize]),
    ];
    if i < 1440 {
        all.push(DescM::Offsets(vec![Lto { country: *b"GBR", region: (i % 64) as u8, polarity: lo & 1, offset: i16, change: i * 1_000_003, next: 1439 - i16 }; (i % 20) as usize]));
    }
    if i < 256 {
        all.push(DescM::StreamId(i as u8));
        for n in [i as usize, 255 - i as usize] {
            all.push(DescM::NetName(TextM { cp: 0, data: vec![b'n'; n] }.norm()));
            if n <= 252 {
                all.push(DescM::Service { ty: i as u8, provider: TextM { cp: 0, data: vec![b'p'; n] }.norm(), name: TextM { cp: 0, data: vec![b's'; 252 - n] }.norm() });
            }
            if n <= 250 {
                all.push(DescM::ShortEvent { lang: *b"eng", name: TextM { cp: 0, data: vec![b'p'; n] }.norm(), text: TextM { cp: 0, data: vec![b's'; 250 - n] }.norm() });
            }
            if n <= 249 {
                all.push(DescM::ExtEvent { num: lo, last: 15 - lo, lang: *b"eng", items: vec![], text: TextM { cp: 0, data: vec![b's'; n] }.norm() });
            }
            if n <= 247 {
                let mid = n / 2;
                all.push(DescM::ExtEvent { num: lo, last: 15 - lo, lang: *b"eng",
                    items: vec![(TextM { cp: 0, data: vec![b'p'; mid] }.norm(), TextM { cp: 0, data: vec![b'p'; n - mid] }.norm())],
                    text: TextM { cp: 0, data: vec![b's'; 247 - n] }.norm() });
            }
        }
    }
    let l = to_lib(&all);
    let b = assemble(s, &l)?;
    viol(check_loop(&b, &all))?;
    viol_ctx(same_list(&all, &parse(&b)), "decoded again")?;
    let mut rsv = Rsv::Rand(Rng::new(i));
    viol_ctx(same_list(&all, &parse(&encode_list(&all, &mut rsv))), "foreign")
}

//
// C16

fn loops(s: &mut Src) -> R {
    let v = gen_list(s, 2000, 10);
    if v.iter().any(|d| matches!(d, DescM::Raw(t, _) if TAGS.contains(t))) {
        s.hit("supported type with misfit content");
    }
    if v.iter().any(|d| matches!(d, DescM::Raw(t, _) if !TAGS.contains(t))) {
        s.hit("unknown type");
    }
    let mut rsv = gen_rsv(s);
    let mut b = encode_list(&v, &mut rsv);
    if s.chance(1, 2) {
        // incomplete descriptor
        let d = DescM::gen(s, 255).encode(&mut rsv);
        let n = s.size(0, d.len() as u64 - 1) as usize;
        b.extend_from_slice(&d[..n]);
        if n > 0 {
            s.hit("incomplete at the end");
        }
    }
    s.note(|| format!("{:?} as {}", v, hex(&b)));
    let l = parse(&b);
    viol(same_list(&v, &l))?;
    let out = assemble(s, &l)?;
    viol_ctx(check_loop(&out, &v), "encoded")?;
    viol_ctx(same_list(&v, &parse(&out)), "decoded again")
}

/// bytes of any content: raw descriptors keep theirs, the loop keeps its framing
fn received(s: &mut Src) -> R {
    let n = if s.chance(1, 1000) { s.int(300, 10_000) } else { s.size(0, 300) } as usize;
    let mut b = s.bytes(n);
    // make length bytes plausible
    let mut i = 0;
    while i + 2 <= b.len() {
        if s.chance(1, 2) {
            b[i] = *s.pick(&TAGS);
        }
        b[i + 1] = s.size(0, 40) as u8;
        i += 2 + b[i + 1] as usize;
    }
    s.note(|| hex(&b));
    // complete descriptors by framing alone
    let mut want = Vec::new();
    let mut r = &b[..];
    while r.len() >= 2 && r.len() >= 2 + r[1] as usize {
        let n = 2 + r[1] as usize;
        want.push((r[0], r[2..n].to_vec()));
        r = &r[n..];
    }
    let l = parse(&b);
    ensure_eq!(l.len(), want.len(), "number of descriptors");
    if want.len() > 1 {
        s.hit("several descriptors");
    }
    let out = assemble(s, &l)?;
    let got = viol(split_loop(&out))?;
    ensure_eq!(got.len(), want.len(), "number of encoded descriptors");
    for ((d, w), g) in l.iter().zip(&want).zip(&got) {
        ensure_eq!(d.tag(), w.0, "tag");
        ensure_eq!(g.0, w.0, "encoded tag");
        let fits = TAGS.contains(&w.0) && (w.0 == 0x58 && w.1.len() % 13 == 0 || DescM::decode(w.0, &w.1).is_ok());
        if !fits {
            s.hit("kept raw");
            ensure!(g.1 == w.1, "raw descriptor {:02x}: {}", w.0, diff(&g.1, &w.1));
        }
    }
    Ok(())
}

/// descriptor of any size, also too large; the model says whether it fits
fn gen_large(s: &mut Src) -> (Descriptor, Option<DescM>) {
    let text = |s: &mut Src, n: usize| TextM { cp: 0, data: vec![b'a' + s.bits(3); n] };
    // body of n bytes
    let n = match s.weighted(&[3, 1, 1]) {
        0 => s.uni(250, 262),
        1 => s.int(0, 600),
        _ => 256 * s.uni(1, 3) + s.uni(0, 12),
    } as usize;
    let m = match s.uni(0, 9) {
        0 => DescM::Ca { caid: s.u16(), pid: s.pid(), data: s.bytes(n.saturating_sub(4)) },
        1 => DescM::Lang(vec![(gen_code(s), s.u8()); n / 4]),
        2 => DescM::NetName(text(s, n)),
        3 => DescM::Services(vec![(s.u16(), s.u8()); n / 3]),
        4 => {
            let a = s.int(0, n.saturating_sub(3) as u64) as usize;
            DescM::Service { ty: s.u8(), provider: text(s, a), name: text(s, n.saturating_sub(3 + a)) }
        }
        5 => {
            let a = s.int(0, n.saturating_sub(5) as u64) as usize;
            DescM::ShortEvent { lang: gen_code(s), name: text(s, a), text: text(s, n.saturating_sub(5 + a)) }
        }
        6 => {
            let mut left = n.saturating_sub(6);
            let mut items = Vec::new();
            for _ in 0..s.size(0, 5) {
                if left < 2 {
                    break;
                }
                let a = s.int(0, left as u64 - 2) as usize;
                let b = s.int(0, (left - 2 - a) as u64) as usize;
                items.push((text(s, a), text(s, b)));
                left -= 2 + a + b;
            }
            DescM::ExtEvent { num: s.bits(4), last: s.bits(4), lang: gen_code(s), items, text: text(s, left) }
        }
        7 => DescM::Offsets(vec![Lto { country: gen_code(s), region: s.bits(6), polarity: s.bit(), offset: 60, change: 1_000_000_000, next: 0 }; n / 13]),
        8 => DescM::Lcn(vec![(s.u16(), s.bit(), s.int(0, 1023) as u16); n / 4]),
        _ => {
            let t = gen_unknown_tag(s);
            DescM::Raw(t, s.bytes(n))
        }
    };
    let fits = m.body(&mut Rsv::Ones).len() <= 255;
    let l = m.to_lib();
    (l, if fits { Some(m) } else { None })
}

fn oversize(s: &mut Src) -> R {
    let n = s.size(1, 5);
    let mut l = Descriptors::default();
    let mut want = Vec::new();
    for _ in 0..n {
        if s.chance(1, 2) {
            let (d, m) = gen_large(s);
            match &m {
                Some(_) => s.label("large but fits"),
                None => s.hit("too large"),
            }
            s.note(|| format!("{} {:?}", if m.is_some() { "fits" } else { "too large" }, d));
            l.push(d);
            want.extend(m);
        } else {
            let m = DescM::gen(s, 255);
            s.note(|| format!("{:?}", m));
            l.push(m.to_lib());
            want.push(m);
        }
    }
    let known = want.len();
    if known > 0 && s.chance(1, 1000) {
        // the same ones again and again, also more bytes than 16 bits can count
        for i in 0..s.int(1, 1200) as usize {
            l.push(want[i % known].to_lib());
            want.push(want[i % known].clone());
        }
        s.label("long list");
    }
    let b = assemble(s, &l)?;
    viol(check_loop(&b, &want))?;
    viol_ctx(same_list(&want, &parse(&b)), "decoded again")
}

/// text of any length as a language or country code leaves the framing intact
fn odd_codes(s: &mut Src) -> R {
    let code = |s: &mut Src| -> StringDVB {
        match s.uni(0, 3) {
            0 => StringDVB::default(),
            1 => StringDVB::from_str("eng", *s.pick(&crate::refimpl::text::TABLES)),
            2 => StringDVB::from_str("e", 0),
            _ => TextM::gen(s, 12).to_lib(),
        }
    };
    let mut l = Descriptors::default();
    let n = s.size(1, 4);
    let mut tags = Vec::new();
    for _ in 0..n {
        let d: Descriptor = match s.uni(0, 4) {
            0 => Desc0A { items: (0..s.size(0, 4)).map(|_| Desc0Ai { code: code(s), audio_type: s.u8() }).collect() }.into(),
            1 => Desc4D { lang: code(s), name: TextM::gen(s, 20).to_lib(), text: TextM::gen(s, 20).to_lib() }.into(),
            2 => Desc4E { number: 0, last_number: 0, lang: code(s), items: vec![], text: TextM::gen(s, 20).to_lib() }.into(),
            3 => Desc58 { items: (0..s.size(0, 3)).map(|_| Desc58i { country_code: code(s), ..Desc58i::default() }).collect() }.into(),
            _ => DescM::gen(s, 60).to_lib(),
        };
        tags.push(d.tag());
        l.push(d);
    }
    s.hit("codes of other lengths");
    s.note(|| format!("{:?}", l));
    let b = assemble(s, &l)?;
    let got: Vec<u8> = viol(split_loop(&b))?.iter().map(|x| x.0).collect();
    ensure_eq!(got, tags, "descriptors on the wire {}", hex(&b));
    Ok(())
}

/// descriptor type of somebody else
#[derive(Debug)]
struct Foreign(u8, Vec<u8>);

impl Desc for Foreign {
    fn tag(&self) -> u8 {
        self.0
    }
    fn size(&self) -> usize {
        2 + self.1.len()
    }
    fn assemble(&self, buffer: &mut Vec<u8>) {
        buffer.push(self.0);
        buffer.push(self.1.len() as u8);
        buffer.extend_from_slice(&self.1);
    }
}

/// tag, size and bytes of the type itself
fn typed(d: &Descriptor, raw: bool, out: &mut Vec<u8>) -> (u8, usize) {
    fn go<T: Desc + 'static>(d: &Descriptor, out: &mut Vec<u8>) -> (u8, usize) {
        let t = d.downcast_ref::<T>();
        t.assemble(out);
        (t.tag(), t.size())
    }
    if raw {
        return go::<DescRaw>(d, out);
    }
    match d.tag() {
        0x09 => go::<Desc09>(d, out),
        0x0A => go::<Desc0A>(d, out),
        0x0E => go::<Desc0E>(d, out),
        0x40 => go::<Desc40>(d, out),
        0x41 => go::<Desc41>(d, out),
        0x43 => go::<Desc43>(d, out),
        0x44 => go::<Desc44>(d, out),
        0x48 => go::<Desc48>(d, out),
        0x4D => go::<Desc4D>(d, out),
        0x4E => go::<Desc4E>(d, out),
        0x52 => go::<Desc52>(d, out),
        0x58 => go::<Desc58>(d, out),
        0x5A => go::<Desc5A>(d, out),
        _ => go::<Desc83>(d, out),
    }
}

/// each descriptor on its own, and types from outside the library in a list
fn direct(s: &mut Src) -> R {
    let mut l = Descriptors::default();
    let mut want = Vec::new();
    for _ in 0..s.size(1, 4) {
        match s.weighted(&[3, 2, 1]) {
            0 => {
                let m = DescM::gen(s, 255);
                s.note(|| format!("{:?}", m));
                let d = m.to_lib();
                let mut b = vec![0x5A; 3];
                let (tag, size) = typed(&d, matches!(m, DescM::Raw(..)), &mut b);
                ensure_eq!((tag, d.tag()), (m.tag(), m.tag()), "tag");
                ensure!(b[..3] == [0x5A; 3], "existing output was changed");
                ensure_eq!(size, b.len() - 3, "size of {:02x}", tag);
                viol(check_loop(&b[3..], std::slice::from_ref(&m)))?;
                want.extend_from_slice(&b[3..]);
                l.push(d);
            }
            1 => {
                let n = if s.chance(1, 4) { s.uni(250, 262) } else { s.size(0, 300) } as usize;
                let f = Foreign(s.u8(), s.bytes(n));
                s.note(|| format!("{:?}", f));
                s.hit("type from outside");
                if n <= 255 {
                    f.assemble(&mut want);
                }
                l.push(f);
            }
            _ => {
                // too large for the type's own encoder
                let n = if s.chance(1, 2) { s.uni(256, 262) } else { s.int(256, 700) } as usize;
                let mut b = vec![0x5A; 3];
                let d: Descriptor = if s.chance(1, 2) {
                    let d = DescRaw { tag: s.u8(), data: vec![s.u8(); n] };
                    d.assemble(&mut b);
                    d.into()
                } else {
                    let text = StringDVB::from(&vec![b'x'; n - 6][..]);
                    let d = Desc4E { number: 0, last_number: 0, lang: StringDVB::from_str("eng", 0), items: vec![], text };
                    d.assemble(&mut b);
                    d.into()
                };
                s.note(|| format!("body of {} bytes: {:?}", n, d));
                s.hit("too large");
                ensure!(b == [0x5A; 3], "body of {} bytes: something was written: {}", n, hex(&b));
                l.push(d);
            }
        }
    }
    let b = assemble(s, &l)?;
    ensure!(b == want, "list: {}", diff(&b, &want));
    Ok(())
}

//
// C17

fn snapshot(d: &Descriptors) -> (String, usize, Vec<u8>) {
    let mut b = Vec::new();
    d.assemble(&mut b);
    (format!("{:?}", d), d.size(), b)
}

fn check_access(d: &mut Descriptors, want: &[DescM]) -> R {
    ensure_eq!(d.len(), want.len(), "length");
    ensure_eq!(d.is_empty(), want.is_empty(), "emptiness");
    ensure_eq!(d.iter().count(), want.len(), "descriptors iterated over");
    viol(same_list(want, d))?;
    let all: Vec<String> = d.iter().map(|x| format!("{:02x} {:?}", x.tag(), x)).collect();
    for (i, w) in want.iter().enumerate() {
        let g = match d.get(i) {
            Some(x) => x,
            None => return Err(Fail::Viol(format!("no descriptor at index {}", i))),
        };
        viol_ctx(w.same(g), "by index")?;
        ensure_eq!(format!("{:02x} {:?}", g.tag(), g), all[i].clone(), "descriptor {} by index against iteration", i);
        let g = match d.get_mut(i) {
            Some(x) => x,
            None => return Err(Fail::Viol(format!("no mutable descriptor at index {}", i))),
        };
        viol_ctx(w.same(g), "by mutable index")?;
    }
    let n = want.len();
    for i in [n, n + 1, n + 127, n + 128, n + 256, n + 65536, n + (1 << 32), usize::MAX, 1 << 7, 1 << 8, 1 << 10, 1 << 16, 1 << 32, 1 << 63] {
        if i < n {
            continue;
        }
        ensure!(d.get(i).is_none() && d.get_mut(i).is_none(), "descriptor at index {} of {}", i, want.len());
    }
    Ok(())
}

/// changes one side; the model follows
fn change(s: &mut Src, d: &mut Descriptors, m: &mut Vec<DescM>) {
    match s.weighted(&[2, 2, 2]) {
        0 => {
            let x = DescM::gen(s, 60);
            d.push(x.to_lib());
            m.push(x);
            s.label("add");
        }
        1 if !m.is_empty() => {
            let i = s.uni(0, m.len() as u64 - 1) as usize;
            let x = DescM::gen(s, 60);
            *d.get_mut(i).expect("descriptor") = x.to_lib();
            m[i] = x;
            s.label("replace");
        }
        _ if !m.is_empty() => {
            // the content changes in place
            let i = s.uni(0, m.len() as u64 - 1) as usize;
            let t = m[i].tag();
            let raw = matches!(m[i], DescM::Raw(..));
            let x = if raw {
                let n = s.size(0, 20) as usize;
                DescM::Raw(t, s.bytes(n))
            } else {
                DescM::gen_tag(s, t, 255)
            };
            let l = d.get_mut(i).expect("descriptor");
            let y = x.to_lib();
            macro_rules! put {
                ($t:ty) => {
                    *l.downcast_mut::<$t>() = y.downcast_ref::<$t>().clone()
                };
            }
            if raw {
                put!(DescRaw)
            } else {
                match t {
                    0x09 => put!(Desc09), 0x0A => put!(Desc0A), 0x0E => put!(Desc0E), 0x40 => put!(Desc40), 0x41 => put!(Desc41),
                    0x43 => put!(Desc43), 0x44 => put!(Desc44), 0x48 => put!(Desc48), 0x4D => put!(Desc4D), 0x4E => put!(Desc4E),
                    0x52 => put!(Desc52), 0x58 => put!(Desc58), 0x5A => put!(Desc5A), 0x83 => put!(Desc83),
                    _ => put!(DescRaw),
                }
            }
            m[i] = x;
            s.label("change in place");
        }
        _ => {}
    }
}

fn copies(s: &mut Src) -> R {
    let mut m = gen_list(s, 1500, 8);
    if !m.is_empty() && s.chance(1, 5000) {
        let n = s.int(9, 600) as usize;
        m = gen_list(s, 200, 8).into_iter().cycle().take(n).enumerate().map(|(i, d)| match i % 3 {
            0 => DescM::Raw(0x80, i.to_be_bytes()[4..].to_vec()),
            _ => d,
        }).collect();
        s.label("hundreds of descriptors");
    }
    s.note(|| format!("{:?}", m));
    if m.iter().any(|d| matches!(d, DescM::Raw(t, _) if TAGS.contains(t))) {
        s.hit("raw under a supported tag");
    }
    if !m.is_empty() {
        s.hit("descriptors");
    }
    let mut a = if s.chance(1, 2) { to_lib(&m) } else { parse(&encode_list(&m, &mut Rsv::Ones)) };
    let mut b = a.clone();
    ensure!(snapshot(&a) == snapshot(&b), "copy differs: {:?} from {:?}", snapshot(&b), snapshot(&a));
    let mut mb = m.clone();
    check_access(&mut a, &m)?;
    check_access(&mut b, &mb)?;
    for _ in 0..s.size(1, 5) {
        if s.chance(1, 2) {
            let before = snapshot(&b);
            change(s, &mut a, &mut m);
            ensure!(snapshot(&b) == before, "the copy changed with the original");
        } else {
            let before = snapshot(&a);
            change(s, &mut b, &mut mb);
            ensure!(snapshot(&a) == before, "the original changed with the copy");
        }
        check_access(&mut a, &m)?;
        check_access(&mut b, &mb)?;
    }
    // single descriptors, copies of copies
    for d in a.iter() {
        let c = d.clone().clone();
        ensure_eq!(format!("{:02x} {:?}", c.tag(), c), format!("{:02x} {:?}", d.tag(), d), "copy of a descriptor");
    }
    drop(a);
    check_access(&mut b, &mb)
}

fn events(s: &mut Src) -> R {
    let m = gen_list(s, 800, 6);
    s.hit("event");
    let mut e = EitItem {
        event_id: s.u16(),
        start: gen_time(s),
        duration: s.int(0, 359_999) as u32,
        status: s.bits(3),
        ca_mode: s.bit(),
        descriptors: to_lib(&m),
    };
    s.note(|| format!("{:?}", e));
    let mut c = e.clone();
    ensure_eq!((c.event_id, c.start, c.duration, c.status, c.ca_mode), (e.event_id, e.start, e.duration, e.status, e.ca_mode), "copied event");
    ensure_eq!(format!("{:?}", c), format!("{:?}", e), "copied event prints");
    ensure!(snapshot(&c.descriptors) == snapshot(&e.descriptors), "descriptors of the copied event differ");
    // copies and originals encode identically
    let wire = |s: &mut Src, e: &EitItem| {
        let mut t = Eit { table_id: 0x4E, version: 1, pnr: 2, tsid: 3, onid: 4, items: vec![e.clone()] };
        if s.bit() == 1 {
            t.items = vec![e.clone().clone()];
        }
        let mut cc = 0;
        let mut out = Vec::new();
        t.demux(0x12, &mut cc, &mut out);
        out
    };
    ensure!(wire(s, &e) == wire(s, &c), "event and copy encode differently");
    let before = format!("{:?}", e);
    let mut mc = m.clone();
    change(s, &mut c.descriptors, &mut mc);
    c.event_id ^= 1;
    c.start += 1;
    ensure_eq!(format!("{:?}", e), before, "the event changed with its copy");
    let before = format!("{:?}", c);
    let mut me = m;
    change(s, &mut e.descriptors, &mut me);
    e.duration += 1;
    ensure_eq!(format!("{:?}", c), before, "the copy changed with the event");
    check_access(&mut c.descriptors, &mc)?;
    check_access(&mut e.descriptors, &me)
}

//
// C28

fn class(stream_type: u8, tags: &[u8]) -> StreamType {
    match stream_type {
        0x01 | 0x02 | 0x10 | 0x1B | 0x24 => StreamType::VIDEO,
        0x03 | 0x04 | 0x0F | 0x11 => StreamType::AUDIO,
        0x05 if tags.contains(&0x6F) => StreamType::AIT,
        0x06 => tags.iter().find_map(|t| match t {
            0x56 => Some(StreamType::TTX),
            0x59 => Some(StreamType::SUB),
            0x6A | 0x7A | 0x81 => Some(StreamType::AUDIO),
            _ => None,
        }).unwrap_or(StreamType::DATA),
        _ => StreamType::DATA,
    }
}

/// every stream type with every single tag
fn types(s: &mut Src) -> R {
    let i = s.uni(0, 65535 + 256);
    s.hit("type and tag");
    let mut p = PmtItem { stream_type: i as u8, pid: 0x100, ..PmtItem::default() };
    let tags: Vec<u8> = if i < 65536 { vec![(i >> 8) as u8] } else { vec![] };
    for t in &tags {
        p.descriptors.push(DescRaw { tag: *t, data: vec![] });
    }
    ensure_eq!(p.get_stream_type(), class(p.stream_type, &tags), "type {:02x} with descriptors {}", p.stream_type, hex(&tags));
    Ok(())
}

fn streams(s: &mut Src) -> R {
    let mut models = Vec::new();
    let n = s.size(1, 6);
    for _ in 0..n {
        let t = match s.weighted(&[4, 2, 2, 1]) {
            0 => 0x06,
            1 => 0x05,
            2 => *s.pick(&[0x01, 0x02, 0x10, 0x1B, 0x24, 0x03, 0x04, 0x0F, 0x11]),
            _ => s.u8(),
        };
        let mut d = Vec::new();
        if n == 1 && s.chance(1, 20) {
            // the telling one far behind
            let k = s.int(1, 200) as usize;
            d.extend(vec![DescM::Raw(*s.pick(&[0x80, 0x55, 0x11]), s.bytes(k % 3)); k]);
            s.label("long list");
        }
        for _ in 0..s.size(0, 5) {
            d.push(match s.weighted(&[3, 2]) {
                0 => {
                    let tag = *s.pick(&[0x6F, 0x56, 0x59, 0x6A, 0x7A, 0x81, 0x55, 0x57, 0x58, 0x5A, 0x6B, 0x79, 0x82, 0x80]);
                    match tag {
                        0x58 | 0x5A => DescM::gen_tag(s, tag, 40),
                        _ => {
                            let n = s.size(0, 8) as usize;
                            DescM::Raw(tag, s.bytes(n))
                        }
                    }
                }
                _ => DescM::gen(s, 12),
            });
        }
        if t == 5 || t == 6 {
            s.hit("private stream");
        }
        models.push((t, s.pid(), d));
    }
    s.note(|| format!("{:?}", models));
    let want: Vec<StreamType> = models.iter().map(|(t, _, d)| class(*t, &d.iter().map(|x| x.tag()).collect::<Vec<_>>())).collect();
    let mut pmt = Pmt { version: 3, pnr: 1, pcr: 0x100, ..Pmt::default() };
    for (t, pid, d) in &models {
        pmt.items.push(PmtItem { stream_type: *t, pid: *pid, descriptors: to_lib(d) });
    }
    let got: Vec<StreamType> = pmt.items.iter().map(|i| i.get_stream_type()).collect();
    ensure_eq!(got, want, "classes before encoding");
    // through the library's packets
    let (_, packets) = demux(s, &pmt)?;
    let mut back = Pmt::default();
    feed(&packets, |p| back.parse(p));
    let got: Vec<StreamType> = back.items.iter().map(|i| i.get_stream_type()).collect();
    ensure_eq!(got, want, "classes after decoding");
    // of another encoder
    let mut body = vec![0xE1, 0x00, 0xF0, 0x00];
    for (t, pid, d) in &models {
        let l = encode_list(d, &mut Rsv::Ones);
        body.extend_from_slice(&[*t, 0xE0 | (pid >> 8) as u8, *pid as u8, 0xF0 | (l.len() >> 8) as u8, l.len() as u8]);
        body.extend_from_slice(&l);
    }
    let mut back = Pmt::default();
    back.parse(&psi_of(&section(2, 1, 3, 0, 0, &body, &mut Rsv::Ones)));
    let got: Vec<StreamType> = back.items.iter().map(|i| i.get_stream_type()).collect();
    ensure_eq!(got, want, "classes of a foreign program map");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            rule: "A case is one descriptor of a supported type with values over their full widths (bodies up to 255 bytes), or one step through the ranges of all small fields; non-trivial always.",
            terminates: false,
            facets: vec![
                enumerate("ranges", ranges, 10_000),
                random("values", values, 4_000_000, 30_000_000),
                random("foreign", foreign, 4_000_000, 30_000_000),
                random("codes", codes, 4_000_000, 30_000_000),
            ],
            assumptions: &[
                "values within their field widths: frequencies and positions multiples of the wire unit, times from 1970-01-01 to 2038-04-22",
                "the seventh symbol rate digit (0.1 ksymbol/s) has no place in the decoded value and is written as 0",
            ],
        },
        Prop {
            id: "C16",
            rule: "A case is a descriptor list or loop; non-trivial when it holds an unknown, misfit, incomplete or oversize descriptor, one of a type from outside or several received ones.",
            terminates: false,
            facets: vec![
                random("loops", loops, 1_300_000, 15_000_000),
                random("received", received, 4_000_000, 30_000_000),
                random("oversize", oversize, 1_600_000, 19_000_000),
                random("odd-codes", odd_codes, 3_700_000, 30_000_000),
                random("direct", direct, 1_000_000, 10_000_000),
            ],
            assumptions: &["content that is a whole number of local time offset entries with impossible digits or dates counts as fitting"],
        },
        Prop {
            id: "C17",
            rule: "A case is a descriptor list or event, its copy and up to five changes on either side; non-trivial when it has descriptors.",
            terminates: false,
            facets: vec![random("copies", copies, 240_000, 2_800_000), random("events", events, 500_000, 6_000_000)],
            assumptions: &["descriptors of the library's own types"],
        },
        Prop {
            id: "C28",
            rule: "A case is a stream type with one descriptor tag (all 65536 pairs), or a program map of streams with generated descriptors; non-trivial when it has a private stream or is of the first kind.",
            terminates: false,
            facets: vec![enumerate("types", types, 65536 + 256), random("streams", streams, 4_000_000, 30_000_000)],
            assumptions: &[],
        },
    ]
}

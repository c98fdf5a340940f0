//! C30-C37: named constants, debug view, whole multiplex, the packetising trait, repeatable encoding, bytes behind a section,
//! wrong lengths, reserved bits.

use std::cell::RefCell;
use std::io::Read;

use mpegts::constants as c;
use mpegts::es;
use mpegts::psi::*;
use mpegts::reader::{TsDrain, TsRead, TsReader};
use mpegts::{textcode, ts};

use super::common::*;
use super::io::{gen_events, scan, Source};
use super::tables::{gen_pf, gen_schedule};
use crate::engine::*;
use crate::refimpl::desc::{gen_list, gen_time, same_list, to_lib, DescM};
use crate::refimpl::tables::*;
use crate::refimpl::ts::*;
use crate::refimpl::*;
use crate::runner::*;
use crate::{ensure, ensure_eq};

//
// C30

/// value on the wire of one field of a delivery descriptor built with the value
type Field = fn(&mut Src, u8) -> Result<u64, String>;

fn wire(m: DescM, bit: u32, width: u32) -> Result<u64, String> {
    let mut b = Vec::new();
    to_lib(&[m]).assemble(&mut b);
    let b = b.get(2..).unwrap_or_default().to_vec();
    let mut r = Br::new(&b);
    for _ in 0..bit {
        r.get(1)?;
    }
    r.get(width)
}

macro_rules! field {
    ($tag:expr, $V:ident, $f:ident, $bit:expr, $width:expr) => {{
        fn put(s: &mut Src, v: u8) -> Result<u64, String> {
            let mut m = DescM::gen_tag(s, $tag, 255);
            if let DescM::$V { $f, .. } = &mut m {
                *$f = v;
            }
            wire(m, $bit, $width)
        }
        put as Field
    }};
}

/// (name, value in the library, code point of the standard, field it belongs to)
#[rustfmt::skip]
fn code_points() -> Vec<(&'static str, u64, u64, Option<Field>)> {
    let mut v = Vec::new();
    macro_rules! list {
        ($field:expr; $($x:expr => $v:expr,)*) => { $(v.push((stringify!($x), $x as u64, $v as u64, $field));)* };
    }
    // satellite delivery system: EN 300 468, 6.2.13.2
    list![Some(field!(0x43, Sat, we, 48, 1)); c::POSITION_WEST => 0, c::POSITION_EAST => 1,];
    list![Some(field!(0x43, Sat, pol, 49, 2));
        c::POLARIZATION_H => 0, c::POLARIZATION_V => 1, c::POLARIZATION_L => 2, c::POLARIZATION_R => 3,];
    list![Some(field!(0x43, Sat, rof, 51, 2)); c::ROF_A035 => 0, c::ROF_A025 => 1, c::ROF_A020 => 2,];
    list![Some(field!(0x43, Sat, modu, 54, 2));
        c::MODULATION_DVB_S_AUTO => 0, c::MODULATION_DVB_S_QPSK => 1, c::MODULATION_DVB_S_8PSK => 2, c::MODULATION_DVB_S_16QAM => 3,];
    for f in [field!(0x43, Sat, fec, 84, 4), field!(0x44, Cable, fec, 84, 4)] {
        list![Some(f);
            c::FEC_NOT_DEFINED => 0, c::FEC_1_2 => 1, c::FEC_2_3 => 2, c::FEC_3_4 => 3, c::FEC_5_6 => 4, c::FEC_7_8 => 5,
            c::FEC_8_9 => 6, c::FEC_3_5 => 7, c::FEC_4_5 => 8, c::FEC_9_10 => 9, c::FEC_NONE => 15,];
    }
    // cable delivery system: 6.2.13.1
    list![Some(field!(0x44, Cable, outer, 44, 4)); c::FEC_OUTER_NOT_DEFINED => 0, c::FEC_OUTER_NO_CODING => 1, c::FEC_OUTER_RS => 2,];
    list![Some(field!(0x44, Cable, modu, 48, 8));
        c::MODULATION_DVB_C_NOT_DEFINED => 0, c::MODULATION_DVB_C_16_QAM => 1, c::MODULATION_DVB_C_32_QAM => 2,
        c::MODULATION_DVB_C_64_QAM => 3, c::MODULATION_DVB_C_128_QAM => 4, c::MODULATION_DVB_C_256_QAM => 5,];
    // terrestrial delivery system: 6.2.13.4
    list![Some(field!(0x5A, Terr, bw, 32, 3));
        c::BANDWIDTH_DVB_T_8MHZ => 0, c::BANDWIDTH_DVB_T_7MHZ => 1, c::BANDWIDTH_DVB_T_6MHZ => 2, c::BANDWIDTH_DVB_T_5MHZ => 3,];
    list![Some(field!(0x5A, Terr, modu, 40, 2));
        c::MODULATION_DVB_T_QPSK => 0, c::MODULATION_DVB_T_16QAM => 1, c::MODULATION_DVB_T_64QAM => 2,];
    list![Some(field!(0x5A, Terr, hier, 42, 3));
        c::HIERARCHY_DVB_T_NON_NATIVE => 0, c::HIERARCHY_DVB_T_A1_NATIVE => 1, c::HIERARCHY_DVB_T_A2_NATIVE => 2,
        c::HIERARCHY_DVB_T_A4_NATIVE => 3, c::HIERARCHY_DVB_T_NON_IN_DEPTH => 4, c::HIERARCHY_DVB_T_A1_IN_DEPTH => 5,
        c::HIERARCHY_DVB_T_A2_IN_DEPTH => 6, c::HIERARCHY_DVB_T_A4_IN_DEPTH => 7,];
    for f in [field!(0x5A, Terr, hp, 45, 3), field!(0x5A, Terr, lp, 48, 3)] {
        list![Some(f);
            c::CODE_RATE_DVB_T_1_2 => 0, c::CODE_RATE_DVB_T_2_3 => 1, c::CODE_RATE_DVB_T_3_4 => 2, c::CODE_RATE_DVB_T_5_6 => 3,
            c::CODE_RATE_DVB_T_7_8 => 4,];
    }
    list![Some(field!(0x5A, Terr, gi, 51, 2));
        c::GUARD_INTERVAL_1_32 => 0, c::GUARD_INTERVAL_1_16 => 1, c::GUARD_INTERVAL_1_8 => 2, c::GUARD_INTERVAL_1_4 => 3,];
    list![Some(field!(0x5A, Terr, tm, 53, 2)); c::TRANSMISSION_MODE_2K => 0, c::TRANSMISSION_MODE_8K => 1, c::TRANSMISSION_MODE_4K => 2,];
    list![None;
        // PIDs: ISO/IEC 13818-1 table 2-3, EN 300 468 table 1
        PAT_PID => 0, NIT_PID => 0x10, SDT_PID => 0x11, EIT_PID => 0x12, TDT_PID => 0x14, TOT_PID => 0x14,
        ts::PID_NULL => 0x1FFF, ts::PID_NONE => 0x2000, ts::PACKET_SIZE => 188,
        // clocks: ISO/IEC 13818-1, 2.4.2
        es::pes::PTS_CLOCK_MS => 90, es::pes::PTS_NONE => 1u64 << 33, es::pes::PTS_MAX => (1u64 << 33) - 1,
        ts::PCR_CLOCK_US => 27, ts::PCR_CLOCK_MS => 27_000, ts::PCR_SYSTEM_CLOCK => 27_000_000,
        ts::PCR_NONE => (1u64 << 33) * 300, ts::PCR_MAX => (1u64 << 33) * 300 - 1,
        // character tables
        textcode::ISO6937 => 0, textcode::ISO8859_1 => 1, textcode::ISO8859_2 => 2, textcode::ISO8859_3 => 3,
        textcode::ISO8859_4 => 4, textcode::ISO8859_5 => 5, textcode::ISO8859_6 => 6, textcode::ISO8859_7 => 7,
        textcode::ISO8859_8 => 8, textcode::ISO8859_9 => 9, textcode::ISO8859_10 => 10, textcode::ISO8859_11 => 11,
        textcode::ISO8859_13 => 13, textcode::ISO8859_14 => 14, textcode::ISO8859_15 => 15, textcode::UTF8 => 21,
    ];
    v
}

fn constants(s: &mut Src) -> R {
    let v = code_points();
    let i = s.uni(0, 199) as usize;
    if i >= v.len() {
        // the two ready-made packets
        ensure!(ts::NULL_PACKET.len() == 188 && ts::NULL_PACKET[..4] == [0x47, 0x1F, 0xFF, 0x10], "header of the null packet");
        ensure!(ts::FILL_PACKET.len() == 188 && ts::FILL_PACKET.iter().all(|b| *b == 0xFF), "stuffing");
        return Ok(());
    }
    let (name, got, want, field) = &v[i];
    s.note(|| format!("{} = {}", name, got));
    s.hit("constant");
    ensure_eq!(*got, *want, "{}", name);
    if let Some(f) = field {
        s.label("constant of a descriptor field");
        let w = viol_ctx(f(s, *got as u8), name)?;
        ensure_eq!(w, *want, "{} in its descriptor field", name);
    }
    Ok(())
}

//
// C31

/// `name: value` pairs of a debug output, in any layout
fn pairs(text: &str) -> Vec<(String, String)> {
    let mut v = Vec::new();
    let flat: String = text.split_whitespace().collect::<Vec<_>>().join(" ");
    for part in flat.split([',', '{', '}']) {
        if let Some((a, b)) = part.split_once(':') {
            v.push((a.trim().to_string(), b.trim().to_string()));
        }
    }
    v
}

fn view(s: &mut Src) -> R {
    let mut p = s.bytes(188);
    if s.chance(7, 8) {
        p[0] = 0x47;
    }
    p[1] = s.u8();
    p[2] = s.u8();
    p[3] = s.u8();
    p[4] = s.u8();
    p[5] = s.u8();
    let af = p[3] & 0x20 != 0;
    if af && s.chance(1, 4) {
        p[4] = s.uni(0, 8) as u8;
    }
    let len = p[4];
    s.note(|| hex(&p));
    let bit = |b: u8, n: u32| (b >> n & 1 == 1).to_string();
    let mut a: Vec<(&str, String)> = Vec::new();
    if af {
        s.hit("adaptation field");
        a.push(("length", len.to_string()));
        if len > 0 {
            let names = ["discontinuity", "random_access", "es_priority", "PCR_flag", "OPCR_flag", "splicing_point", "private_data", "af_extension"];
            for (i, n) in names.iter().enumerate() {
                a.push((n, bit(p[5], 7 - i as u32)));
            }
            if p[5] & 0x10 != 0 && len >= 7 {
                s.label("PCR");
                let mut r = Br::new(&p[6..12]);
                let base = viol(r.get(33))?;
                viol(r.get(6))?;
                let ext = viol(r.get(9))?;
                a.push(("pcr", (base * 300 + ext).to_string()));
            }
        }
    }
    let mut h = vec![
        ("sync", (p[0] == 0x47).to_string()),
        ("error", (p[1] >> 7).to_string()),
        ("pusi", bit(p[1], 6)),
        ("pid", (u16::from(p[1] & 0x1F) << 8 | u16::from(p[2])).to_string()),
        ("scrambling", (p[3] >> 6).to_string()),
        ("payload", bit(p[3], 4)),
        ("cc", (p[3] & 15).to_string()),
    ];
    if !af {
        h.push(("adaptation", "false".to_string()));
        ensure_eq!(format!("{:?}", ts::TsAdaptation::new(&p)), "false", "no adaptation field");
    }
    h.extend(a.iter().cloned());
    for (what, text, want) in [
        ("packet", format!("{:?}", ts::TsPacket::new(&p)), &h),
        ("packet, one field per line", format!("{:#?}", ts::TsPacket::new(&p)), &h),
        ("adaptation field", format!("{:?}", ts::TsAdaptation::new(&p)), &a),
    ] {
        let got = pairs(&text);
        for (n, v) in want {
            let mut found = got.iter().filter(|(a, _)| a == n);
            match found.next() {
                Some((_, x)) => ensure!(x == v, "{}: {} is {} in {}", what, n, v, text),
                None => return Err(Fail::Viol(format!("{}: no {} in {}", what, n, text))),
            }
            ensure!(found.next().is_none(), "{}: {} twice in {}", what, n, text);
        }
        if !af || len == 0 || p[5] & 0x10 == 0 {
            ensure!(got.iter().all(|(a, _)| a != "pcr"), "{}: pcr without the flag in {}", what, text);
        }
    }
    Ok(())
}

//
// tables of any kind

#[derive(Debug)]
enum Model {
    Pat(PatM),
    Pmt(PmtM),
    Nit(NitM),
    Sdt(SdtM),
    Eit(EitM),
    Tdt(u64),
    Tot(u64, Vec<DescM>),
}

impl Model {
    fn gen(s: &mut Src, k: K) -> Model {
        match k {
            K::Pat => Model::Pat(PatM::gen(s)),
            K::Pmt => Model::Pmt(PmtM::gen(s)),
            K::Nit => Model::Nit(NitM::gen(s)),
            K::Sdt => Model::Sdt(SdtM::gen(s)),
            K::Eit => Model::Eit(if s.chance(1, 2) { gen_pf(s) } else { gen_schedule(s) }),
            K::Tdt => Model::Tdt(gen_time(s)),
            K::Tot => {
                let t = gen_time(s);
                Model::Tot(t, gen_list(s, 1010, 5))
            }
        }
    }

    /// without the entries
    fn remove(&mut self, from: usize, to: usize) {
        match self {
            Model::Pat(m) => drop(m.items.drain(from..to)),
            Model::Pmt(m) => drop(m.items.drain(from..to)),
            Model::Nit(m) => drop(m.items.drain(from..to)),
            Model::Sdt(m) => drop(m.items.drain(from..to)),
            Model::Eit(m) => drop(m.items.drain(from..to)),
            _ => {}
        }
    }

    /// with the first descriptors only, of an entry or of the table
    fn shorten(&mut self, entry: Option<usize>, n: usize) {
        let d = match (self, entry) {
            (Model::Pmt(m), None) => &mut m.desc,
            (Model::Nit(m), None) => &mut m.desc,
            (Model::Tot(_, d), None) => d,
            (Model::Pmt(m), Some(i)) => &mut m.items[i].desc,
            (Model::Nit(m), Some(i)) => &mut m.items[i].desc,
            (Model::Sdt(m), Some(i)) => &mut m.items[i].desc,
            (Model::Eit(m), Some(i)) => &mut m.items[i].desc,
            _ => return,
        };
        d.truncate(n);
    }

    fn to_lib(&self) -> AllTables {
        let mut a = AllTables::default();
        match self {
            Model::Pat(m) => a.pat = m.to_lib(),
            Model::Pmt(m) => a.pmt = m.to_lib(),
            Model::Nit(m) => a.nit = m.to_lib(),
            Model::Sdt(m) => a.sdt = m.to_lib(),
            Model::Eit(m) => a.eit = m.to_lib(),
            Model::Tdt(t) => a.tdt.time = *t,
            Model::Tot(t, d) => {
                a.tot.time = *t;
                a.tot.descriptors = to_lib(d);
            }
        }
        a
    }

    fn same(&self, a: &AllTables) -> Result<(), String> {
        let time = |w: u64, g: u64| if w == g { Ok(()) } else { Err(format!("time {} instead of {}", g, w)) };
        match self {
            Model::Pat(m) => m.same(&a.pat),
            Model::Pmt(m) => m.same(&a.pmt),
            Model::Nit(m) => m.same(&a.nit),
            Model::Sdt(m) => m.same(&a.sdt),
            // nothing is sent without events
            Model::Eit(m) if m.items.is_empty() => Ok(()),
            Model::Eit(m) => m.same(&a.eit),
            Model::Tdt(t) => time(*t, a.tdt.time),
            Model::Tot(t, d) => time(*t, a.tot.time).and_then(|_| same_list(d, &a.tot.descriptors)),
        }
    }
}

fn table(a: &AllTables, k: K) -> &dyn PsiDemux {
    match k {
        K::Pat => &a.pat,
        K::Pmt => &a.pmt,
        K::Nit => &a.nit,
        K::Sdt => &a.sdt,
        K::Eit => &a.eit,
        K::Tdt => &a.tdt,
        K::Tot => &a.tot,
    }
}

//
// C32

struct Channel {
    pid: u16,
    tables: Vec<(K, Model)>,
    packets: Vec<Vec<u8>>,
    next: usize,
    psi: Psi,
    got: AllTables,
}

fn multiplex(s: &mut Src) -> R {
    let mut chans: Vec<Channel> = Vec::new();
    for _ in 0..s.size(1, 4) {
        let pid = s.pid();
        if pid == 0x1FFF || chans.iter().any(|c| c.pid == pid) {
            continue;
        }
        let mut ch = Channel { pid, tables: vec![], packets: vec![], next: 0, psi: Psi::default(), got: AllTables::default() };
        let mut cc = s.bits(4);
        // different kinds of tables may share a PID
        for _ in 0..s.weighted(&[0, 4, 2, 1]) {
            let k = *s.pick(&KINDS);
            if ch.tables.iter().any(|(x, _)| *x == k) {
                continue;
            }
            let m = Model::gen(s, k);
            s.note(|| format!("PID {}: {:?}", pid, m));
            let mut dst = Vec::new();
            table(&m.to_lib(), k).demux(pid, &mut cc, &mut dst);
            ch.packets.extend(dst.chunks(188).map(|p| p.to_vec()));
            if s.chance(1, 4) {
                s.label("priority");
                for p in &mut ch.packets {
                    p[1] |= 0x20 * s.bit();
                }
            }
            ch.tables.push((k, m));
        }
        chans.push(ch);
    }
    if chans.len() > 1 {
        s.hit("several PIDs");
    }
    if chans.iter().any(|c| c.tables.len() > 1) {
        s.label("several tables on a PID");
    }
    // one stream
    let mut data = Vec::new();
    let noise = s.uni(0, 2);
    loop {
        let open: Vec<usize> = (0..chans.len()).filter(|i| chans[*i].next < chans[*i].packets.len()).collect();
        if open.is_empty() {
            break;
        }
        let ch = &mut chans[*s.pick(&open)];
        let n = s.size(1, 20) as usize;
        for _ in 0..n {
            if let Some(p) = ch.packets.get(ch.next) {
                data.extend_from_slice(p);
                ch.next += 1;
            }
        }
        if noise > 0 {
            match s.weighted(&[6, 2, 1, 1]) {
                0 => {}
                1 => data.extend_from_slice(ts::NULL_PACKET),
                2 => {
                    // a PID nobody listens to
                    let mut p = s.bytes(188);
                    p[0] = 0x47;
                    let mut pid = s.pid();
                    while chans.iter().any(|c| c.pid == pid) {
                        pid = (pid + 1) & 0x1FFF;
                    }
                    p[1] = p[1] & 0xE0 | (pid >> 8) as u8;
                    p[2] = pid as u8;
                    data.extend(p);
                }
                _ => {
                    if noise > 1 {
                        let n = s.size(0, 50) as usize;
                        data.extend(s.bytes(n).iter().map(|b| if *b == 0x47 { 0x46 } else { *b }));
                    }
                }
            }
        }
    }
    let n = s.size(0, 60);
    let events = gen_events(s, n, false);
    let (starts, inside) = scan(&data);
    let total = starts.len();
    let src = Source { data, pos: 0, events, next: 0, inside, raised: vec![], calls: 0 };
    let mut packets: Vec<Vec<u8>> = Vec::new();
    let mut r = TsReader::new(src);
    if s.chance(1, 2) {
        let mut b = [0u8; 188];
        loop {
            match r.read(&mut b) {
                Ok(0) => break,
                Ok(n) => {
                    ensure_eq!(n, 188, "bytes read");
                    packets.push(b.to_vec());
                }
                Err(e) => return Err(Fail::Viol(format!("error {}", e))),
            }
        }
    } else {
        s.label("through the byte-stream adapter");
        let mut d = TsDrain::new(r);
        let mut all = Vec::new();
        let mut b = vec![0u8; s.size(1, 600) as usize];
        loop {
            match d.read(&mut b) {
                Ok(0) => break,
                Ok(n) => all.extend_from_slice(&b[..n]),
                Err(e) => return Err(Fail::Viol(format!("error {}", e))),
            }
        }
        ensure!(all.len() % 188 == 0, "{} bytes", all.len());
        packets.extend(all.chunks(188).map(|p| p.to_vec()));
    }
    ensure_eq!(packets.len(), total, "packets read");
    for p in &packets {
        let pid = ts::get_pid(p);
        if let Some(ch) = chans.iter_mut().find(|c| c.pid == pid) {
            ch.psi.mux(p);
            if ch.psi.check() {
                for k in KINDS {
                    if k != K::Tdt {
                        ch.got.parse(k, &ch.psi);
                    }
                }
            } else {
                // has no checksum
                ch.got.parse(K::Tdt, &ch.psi);
            }
        }
    }
    for ch in &chans {
        for (k, m) in &ch.tables {
            viol_ctx(m.same(&ch.got), &format!("{:?} on PID {}", k, ch.pid))?;
        }
        for k in KINDS {
            if ch.tables.iter().all(|(x, _)| *x != k) {
                ensure!(ch.got.dbg(k) == AllTables::default().dbg(k), "{:?} appeared on PID {}", k, ch.pid);
            }
        }
    }
    Ok(())
}

//
// C33

/// table of somebody else, with the default packetiser
struct Custom {
    table_id: u8,
    version: u8,
    ext: u16,
    bodies: Vec<Vec<u8>>,
    /// where the hook adds one
    at: usize,
    /// sections seen by the hook
    seen: RefCell<Vec<Vec<u8>>>,
}

impl PsiDemux for Custom {
    fn psi_list_assemble(&self) -> Vec<Psi> {
        self.bodies.iter().map(|b| {
            let mut psi = Psi::new(self.table_id, 8, self.version);
            psi.buffer[3] = (self.ext >> 8) as u8;
            psi.buffer[4] = self.ext as u8;
            psi.buffer.extend_from_slice(b);
            psi
        }).collect()
    }

    fn finalize(&self, psi: &mut Psi) {
        self.seen.borrow_mut().push(psi.buffer.clone());
        if let Some(b) = psi.buffer.get_mut(8 + self.at) {
            *b = b.wrapping_add(1);
        }
    }
}

/// the same without the hook
struct Plain(Custom);

impl PsiDemux for Plain {
    fn psi_list_assemble(&self) -> Vec<Psi> {
        self.0.psi_list_assemble()
    }
}

fn custom(s: &mut Src) -> R {
    let n = match s.weighted(&[6, 1]) {
        0 => s.size(0, 6),
        _ => s.int(0, 256),
    };
    let mut bodies = Vec::new();
    for _ in 0..n {
        let k = if n > 6 { s.size(0, 20) } else { s.int(0, 4096 - 12) } as usize;
        bodies.push(s.bytes(k));
    }
    let t = Custom { table_id: s.u8(), version: s.bits(5), ext: s.u16(), bodies, at: s.size(0, 300) as usize, seen: RefCell::default() };
    s.note(|| format!("table {:#x} version {} extension {:#x} bodies {:?} hook at {}", t.table_id, t.version, t.ext, t.bodies, t.at));
    let hook = s.chance(2, 3);
    let (sections, t) = if hook {
        let (x, _) = demux(s, &t)?;
        (x, t)
    } else {
        let p = Plain(t);
        let (x, _) = demux(s, &p)?;
        (x, p.0)
    };
    ensure_eq!(sections.len(), t.bodies.len(), "number of sections");
    if n > 1 {
        s.hit("several sections");
    }
    let seen = t.seen.borrow();
    ensure_eq!(seen.len(), if hook { sections.len() } else { 0 }, "calls of the hook");
    for (i, (x, b)) in sections.iter().zip(&t.bodies).enumerate() {
        let g = viol_ctx(parse_section(x, 4096), &format!("section {}", i))?;
        ensure_eq!((g.table_id, g.ext, g.version), (t.table_id, t.ext, t.version), "header of section {}", i);
        ensure_eq!((g.num, g.last), (i as u8, (n - 1) as u8), "number and last number of section {}", i);
        let mut want = b.clone();
        if hook {
            ensure!(seen[i].len() == 8 + b.len() && seen[i][8..] == b[..], "the hook saw {} for section {}", hex(&seen[i]), i);
            ensure_eq!((seen[i][6], seen[i][7]), (g.num, g.last), "numbers seen by the hook in section {}", i);
            if let Some(x) = want.get_mut(t.at) {
                *x = x.wrapping_add(1);
                s.label("changed by the hook");
            }
        }
        ensure!(g.body == want, "body of section {}: {}", i, diff(&g.body, &want));
    }
    Ok(())
}

//
// C34

fn repeat(s: &mut Src) -> R {
    let k = *s.pick(&KINDS);
    let m = Model::gen(s, k);
    s.note(|| format!("{:?}", m));
    let lib = m.to_lib();
    let before = lib.dbg(k);
    let t = table(&lib, k);
    let mut runs = Vec::new();
    for _ in 0..2 {
        let (pid, cc0, n) = (s.pid(), s.bits(4), existing(s, 400));
        let mut dst = vec![0x5Au8; n];
        let mut cc = cc0;
        t.demux(pid, &mut cc, &mut dst);
        ensure!(dst.len() >= n && dst[..n].iter().all(|b| *b == 0x5A), "existing output was changed");
        let mut want = cc0;
        let sections = viol_ctx(depacketise(&dst[n..], pid, &mut want), "packets")?;
        ensure_eq!(cc, want, "counter after encoding");
        runs.push(sections);
    }
    ensure!(lib.dbg(k) == before, "encoding changed the table: {} before, {} after", before, lib.dbg(k));
    ensure!(runs[0] == runs[1], "encoded again, the sections differ");
    if !runs[0].is_empty() {
        s.hit("sections");
    }
    // the same from the list of sections
    let list = t.psi_list_assemble();
    ensure_eq!(list.len(), runs[0].len(), "sections in the list");
    let n = list.len();
    for (i, (mut psi, want)) in list.into_iter().zip(&runs[0]).enumerate() {
        if matches!(k, K::Pat | K::Pmt | K::Nit | K::Sdt) {
            psi.buffer[6] = i as u8;
            psi.buffer[7] = (n - 1) as u8;
        }
        if k == K::Tdt {
            ensure!(psi.buffer[..] == want[..], "listed section: {}", diff(&psi.buffer, want));
        } else {
            psi.finalize();
            ensure!(psi.check(), "listed section {} is incomplete", i);
            ensure!(psi.buffer[..psi.size] == want[..], "listed section {}: {}", i, diff(&psi.buffer[..psi.size], want));
        }
    }
    // a copy with the same content encodes the same
    let other = m.to_lib();
    let mut a = Vec::new();
    let mut b = Vec::new();
    t.demux(0x123, &mut 5, &mut a);
    table(&other, k).demux(0x123, &mut 5, &mut b);
    ensure!(a == b, "two equal tables encode differently");
    Ok(())
}

/// decoding what was decoded and encoded changes nothing more, and refilling an equal table gives equal bytes
fn settled(s: &mut Src) -> R {
    let k = *s.pick(&KINDS);
    let m = Model::gen(s, k);
    s.note(|| format!("{:?}", m));
    let lib = m.to_lib();
    let encode = |a: &AllTables| {
        let mut dst = Vec::new();
        table(a, k).demux(0x20, &mut 0, &mut dst);
        dst
    };
    let first = encode(&lib);
    let decode = |ts: &[u8]| {
        let mut got = AllTables::default();
        let mut psi = Psi::default();
        for p in ts.chunks(188) {
            psi.mux(p);
            if k == K::Tdt || psi.check() {
                got.parse(k, &psi);
            }
        }
        got
    };
    if !first.is_empty() {
        s.hit("sections");
    } else {
        return Ok(());
    }
    let second = encode(&decode(&first));
    ensure!(first == second, "decoded and encoded again: {}", diff(&first, &second));
    Ok(())
}

//
// C35

fn behind(s: &mut Src) -> R {
    let k = *s.pick(&KINDS);
    let mut sections = k.gen_sections(s);
    if s.chance(1, 4) {
        // not necessarily what the standard allows, but checksummed
        for x in &mut sections {
            let id = x[0];
            mutate(s, x, 8);
            x[0] = id;
            if k != K::Tdt {
                fix_section(x);
            }
        }
        s.label("unusual content");
    }
    note_all(s, &sections);
    let mut a = AllTables::default();
    let mut b = AllTables::default();
    for x in &sections {
        if x.len() > 4096 {
            return Ok(());
        }
        let exact = psi_of(x);
        let mut more = exact.clone();
        let tail = match s.weighted(&[2, 2, 2, 1]) {
            0 => vec![0xFF; s.size(1, 184) as usize],
            1 => {
                let n = s.size(1, 184) as usize;
                s.bytes(n)
            }
            // the next section
            2 => {
                let mut v = sections[s.uni(0, sections.len() as u64 - 1) as usize].clone();
                v.truncate(s.int(1, 4096) as usize);
                v
            }
            _ => vec![0; s.size(1, 184) as usize],
        };
        more.buffer.extend(tail);
        more.pid = s.pid();
        more.cc = s.bits(4);
        s.hit("bytes behind the section");
        a.parse(k, &exact);
        b.parse(k, &more);
        // a fresh table each time
        let mut c = AllTables::default();
        c.parse(k, &exact);
        let f = match k {
            K::Pat => format!("{:?}", Pat::from(&more)),
            K::Pmt => format!("{:?}", Pmt::from(&more)),
            K::Nit => format!("{:?}", Nit::from(&more)),
            K::Sdt => format!("{:?}", Sdt::from(&more)),
            K::Eit => format!("{:?}", Eit::from(&more)),
            K::Tdt => format!("{:?}", Tdt::from(&more)),
            K::Tot => format!("{:?}", Tot::from(&more)),
        };
        ensure!(f == c.dbg(k), "From gives {}, parse into a new table {}", f, c.dbg(k));
    }
    let (a, b) = (a.dbg(k), b.dbg(k));
    ensure!(a == b, "with other bytes behind the sections: {} instead of {}", b, a);
    Ok(())
}

//
// C36, C37: places in sections

/// layout of the sections of a kind
struct Lay {
    /// where the length of the descriptor loop of the whole table is
    table: Option<usize>,
    /// bytes in front of the entries, without that loop
    head: usize,
    /// bytes of an entry without descriptors
    item: usize,
    /// where the length of its descriptor loop is
    len: usize,
    /// reserved bits of an entry
    rsv: &'static [(usize, u8)],
}

fn lay(k: K) -> Lay {
    match k {
        K::Pat => Lay { table: None, head: 8, item: 4, len: 0, rsv: &[(2, 0xE0)] },
        K::Pmt => Lay { table: Some(10), head: 12, item: 5, len: 3, rsv: &[(1, 0xE0), (3, 0xF0)] },
        K::Nit => Lay { table: Some(8), head: 12, item: 6, len: 4, rsv: &[(4, 0xF0)] },
        K::Sdt => Lay { table: None, head: 11, item: 5, len: 3, rsv: &[(2, 0xFC)] },
        K::Eit => Lay { table: None, head: 14, item: 12, len: 10, rsv: &[] },
        K::Tdt => Lay { table: None, head: 8, item: 0, len: 0, rsv: &[] },
        K::Tot => Lay { table: Some(8), head: 10, item: 0, len: 0, rsv: &[] },
    }
}

fn len12(b: &[u8], at: usize) -> usize {
    usize::from(b[at] & 15) << 8 | usize::from(b[at + 1])
}

fn put12(b: &mut [u8], at: usize, v: usize) {
    b[at] = b[at] & 0xF0 | (v >> 8) as u8;
    b[at + 1] = v as u8;
}

/// where the entries of a section begin
fn entries(k: K, b: &[u8]) -> Result<Vec<usize>, String> {
    let l = lay(k);
    let end = b.len() - if k == K::Tdt { 0 } else { 4 };
    let mut at = l.head + l.table.map_or(0, |x| len12(b, x));
    let mut v = Vec::new();
    while at < end && l.item > 0 {
        if end - at < l.item {
            return Err(format!("{} bytes left for an entry", end - at));
        }
        v.push(at);
        at += l.item + if k == K::Pat { 0 } else { len12(b, at + l.len) };
    }
    if at != end {
        return Err(format!("entries end at {}, not at {}", at, end));
    }
    Ok(v)
}

/// where the descriptors of a loop begin
fn descs(b: &[u8], from: usize, len: usize) -> Vec<usize> {
    let mut v = Vec::new();
    let mut at = from;
    while at < from + len {
        v.push(at);
        at += 2 + usize::from(b[at + 1]);
    }
    v
}

fn damage(s: &mut Src) -> R {
    let k = *s.pick(&[K::Pat, K::Pmt, K::Nit, K::Sdt, K::Eit, K::Tot]);
    let l = lay(k);
    let mut m = Model::gen(s, k);
    let mut rsv = gen_rsv(s);
    let mut sections = match &m {
        Model::Pat(m) => m.sections(s, &mut rsv),
        Model::Pmt(m) => m.sections(s, &mut rsv),
        Model::Nit(m) => m.sections(s, &mut rsv),
        Model::Sdt(m) => m.sections(s, &mut rsv),
        Model::Eit(m) => {
            // a few events to a section
            let mut v: Vec<Vec<EventM>> = vec![vec![]];
            let mut left = 4096 - 18;
            for e in m.items.iter().take(8) {
                if e.size() > left || s.chance(1, 4) {
                    v.push(vec![]);
                    left = 4096 - 18;
                }
                left -= e.size();
                v.last_mut().unwrap().push(e.clone());
            }
            let n = v.len() as u8;
            v.iter().enumerate().map(|(i, ev)| {
                let h = EitHead { table_id: m.table_id, num: i as u8, last: n - 1, seg_last: n - 1, last_table: m.table_id };
                m.section(h, ev, &mut rsv)
            }).collect()
        }
        Model::Tot(t, d) => vec![tot_section(*t, d, &mut rsv)],
        Model::Tdt(_) => return Ok(()),
    };
    if let Model::Eit(m) = &mut m {
        m.items.truncate(8);
    }
    // one of the sections is damaged
    let hurt = s.uni(0, sections.len() as u64 - 1) as usize;
    let mut first = 0;
    for x in &sections[..hurt] {
        first += entries(k, x).map_err(|e| Fail::Viol(format!("harness: {}", e)))?.len();
    }
    let only = sections.len() == 1;
    let b = &mut sections[hurt];
    let at = entries(k, b).map_err(|e| Fail::Viol(format!("harness: {}", e)))?;
    let end = b.len() - 4;
    let mut gone = false;
    // descriptor loops: entry, place of the length, begin
    let mut loops: Vec<(Option<usize>, usize, usize)> = l.table.map(|x| (None, x, x + 2)).into_iter().collect();
    if k != K::Pat {
        loops.extend(at.iter().enumerate().map(|(i, x)| (Some(first + i), x + l.len, x + l.item)));
    }
    let what = s.weighted(&[4, 4, 2, 2, 2, 2]);
    let beyond = |s: &mut Src, left: usize, max: usize| match s.weighted(&[3, 1, 2]) {
        0 => left + 1,
        1 => max,
        _ => s.int(left as u64 + 1, max as u64) as usize,
    };
    match what {
        0 if k != K::Pat && !at.is_empty() => {
            let i = s.uni(0, at.len() as u64 - 1) as usize;
            let left = end - at[i] - l.item;
            let v = beyond(s, left, 0xFFF);
            s.note(|| format!("descriptor length {} in entry {} of section {}", v, i, hurt));
            put12(b, at[i] + l.len, v);
            m.remove(first + i, first + at.len());
            s.hit("entry behind the section");
        }
        1 | 0 => {
            // a descriptor longer than its loop
            let mut c = Vec::new();
            for (e, x, from) in &loops {
                let n = len12(b, *x);
                for (i, d) in descs(b, *from, n).into_iter().enumerate() {
                    if from + n - d - 2 < 255 {
                        c.push((*e, i, d, from + n - d - 2));
                    }
                }
            }
            if !c.is_empty() {
                let (e, i, d, left) = *s.pick(&c);
                let v = beyond(s, left, 255);
                s.note(|| format!("length {} in descriptor {} of {:?} of section {}", v, i, e, hurt));
                b[d + 1] = v as u8;
                m.shorten(e, i);
                s.hit("descriptor behind its loop");
            }
        }
        2 => {
            // incomplete entry at the end
            if l.item > 1 {
                let n = s.uni(1, l.item as u64 - 1) as usize;
                let x = s.bytes(n);
                s.note(|| format!("{} bytes more in section {}", n, hurt));
                b.splice(end..end, x);
                s.hit("incomplete entry");
            }
        }
        3 => {
            // incomplete descriptor at the end
            if !loops.is_empty() {
                let (e, x, from) = *s.pick(&loops);
                let n = len12(b, x);
                if n < 0xFFF {
                    s.note(|| format!("one byte more in the loop {:?} of section {}", e, hurt));
                    let v = s.u8();
                    b.insert(from + n, v);
                    put12(b, x, n + 1);
                    s.hit("incomplete descriptor");
                }
            }
        }
        4 => {
            // descriptors of the table go on behind the section
            if let Some(x) = l.table {
                let v = beyond(s, end - x - 2, 0xFFF);
                s.note(|| format!("descriptor length {} in section {}", v, hurt));
                put12(b, x, v);
                gone = true;
                s.hit("section without place for its descriptors");
            }
        }
        _ => {
            // nothing behind the declared end of the only loop
            if k == K::Tot {
                let d = descs(b, 10, len12(b, 8));
                if !d.is_empty() {
                    let i = s.uni(0, d.len() as u64 - 1) as usize;
                    s.note(|| format!("loop ends before descriptor {}", i));
                    put12(b, 8, d[i] - 10);
                    m.shorten(None, i);
                    s.hit("bytes behind the loop");
                }
            }
        }
    }
    if b.len() > 4098 {
        return Ok(());
    }
    fix_section(b);
    s.note(|| format!("{:?}", m));
    let mut got = AllTables::default();
    if gone {
        // the section adds nothing
        let mut without = AllTables::default();
        for (i, x) in sections.iter().enumerate() {
            let psi = psi_of(x);
            got.parse(k, &psi);
            if i != hurt {
                without.parse(k, &psi);
            }
        }
        ensure!(got.dbg(k) == without.dbg(k), "section {} ({}): {} instead of {}", hurt, hex(&sections[hurt]), got.dbg(k), without.dbg(k));
        if only {
            ensure!(got.dbg(k) == AllTables::default().dbg(k), "read from a bad section: {}", got.dbg(k));
        }
        return Ok(());
    }
    for x in &sections {
        got.parse(k, &psi_of(x));
    }
    let r = match &m {
        Model::Eit(m) => m.same(&got.eit),
        m => m.same(&got),
    };
    viol_ctx(r, &format!("section {} is {}", hurt, hex(&sections[hurt])))
}

/// reserved bits of everything encoded
fn reserved(s: &mut Src) -> R {
    let k = *s.pick(&KINDS);
    let l = lay(k);
    let m = Model::gen(s, k);
    s.note(|| format!("{:?}", m));
    let lib = m.to_lib();
    let mut dst = Vec::new();
    table(&lib, k).demux(0x20, &mut 0, &mut dst);
    let sections = viol(depacketise(&dst, 0x20, &mut 0))?;
    if sections.len() > 1 {
        s.hit("several sections");
    }
    for (i, b) in sections.iter().enumerate() {
        let at = viol_ctx(entries(k, b), &format!("section {}", i))?;
        let mut bits: Vec<(usize, u8)> = match k {
            K::Pat | K::Pmt => vec![(1, 0x30), (5, 0xC0)],
            K::Tdt | K::Tot => vec![(1, 0x70)],
            _ => vec![(1, 0x70), (5, 0xC0)],
        };
        match k {
            K::Pmt => bits.extend([(8, 0xE0), (10, 0xF0)]),
            K::Nit => bits.extend([(8, 0xF0), (10 + len12(b, 8), 0xF0)]),
            K::Sdt => bits.push((10, 0xFF)),
            K::Tot => bits.push((8, 0xF0)),
            _ => {}
        }
        for x in at {
            bits.extend(l.rsv.iter().map(|(o, m)| (x + o, *m)));
        }
        for (o, mask) in bits {
            ensure!(b[o] & mask == mask, "section {}: byte {} is {:02x}, reserved bits {:02x}", i, o, b[o], mask);
        }
        if matches!(k, K::Pat | K::Pmt) {
            ensure!(b[1] & 0x40 == 0, "section {}: bit behind the syntax indicator", i);
        }
    }
    Ok(())
}

/// and of a descriptor
fn reserved_desc(s: &mut Src) -> R {
    let m = DescM::gen(s, 255);
    s.note(|| format!("{:?}", m));
    if matches!(m.tag(), 0x09 | 0x0E | 0x44 | 0x58 | 0x5A | 0x83) {
        s.hit("descriptor with reserved bits");
    }
    let mut b = Vec::new();
    to_lib(&[m.clone()]).assemble(&mut b);
    let w = m.encode(&mut Rsv::Ones);
    ensure!(b == w, "tag {:02x}: {}", m.tag(), diff(&b, &w));
    Ok(())
}

fn note_all(s: &mut Src, v: &[Vec<u8>]) {
    let v = v.to_vec();
    s.note(move || format!("sections {:?}", v));
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C30",
            rule: "A case is one named constant, for a descriptor field together with a generated descriptor carrying it; non-trivial except the ready-made packets.",
            terminates: false,
            facets: vec![enumerate("values", constants, 200), random("fields", constants, 10_000_000, 100_000_000)],
            assumptions: &["code points transcribed from EN 300 468 and ISO/IEC 13818-1"],
        },
        Prop {
            id: "C31",
            rule: "A case is one packet with arbitrary header; non-trivial when it has an adaptation field.",
            terminates: false,
            facets: vec![random("view", view, 4_000_000, 50_000_000)],
            assumptions: &["the clock reference is compared when the adaptation field is long enough for one"],
        },
        Prop {
            id: "C32",
            rule: "A case is one stream of one to four PIDs with one to three tables each, mixed with other packets and bytes; non-trivial with more than one PID.",
            terminates: false,
            facets: vec![random("multiplex", multiplex, 300_000, 3_600_000)],
            assumptions: &["the domains of the tables' own properties; bytes between packets are not sync bytes"],
        },
        Prop {
            id: "C33",
            rule: "A case is one table of 0 to 256 sections of an implementation outside the library, with or without the hook; non-trivial with several sections.",
            terminates: false,
            facets: vec![random("custom", custom, 1_200_000, 14_000_000)],
            assumptions: &["sections of at most 4096 bytes, at most 256 of them"],
        },
        Prop {
            id: "C34",
            rule: "A case is one table of any kind encoded several times; non-trivial when it gives sections.",
            terminates: false,
            facets: vec![random("repeat", repeat, 350_000, 4_500_000), random("settled", settled, 600_000, 7_500_000)],
            assumptions: &["the domains of the tables' own properties"],
        },
        Prop {
            id: "C35",
            rule: "A case is a table of any kind read from sections with other bytes behind them in the buffer; non-trivial always.",
            terminates: false,
            facets: vec![random("behind", behind, 400_000, 5_000_000)],
            assumptions: &["the section itself is complete"],
        },
        Prop {
            id: "C36",
            rule: "A case is a table read from valid sections of which one has one wrong length or an incomplete entry or descriptor; non-trivial when such damage was possible.",
            terminates: false,
            facets: vec![random("damage", damage, 1_000_000, 12_000_000)],
            assumptions: &["checksums are right; sections of at most 4098 bytes"],
        },
        Prop {
            id: "C37",
            rule: "A case is one encoded table or descriptor; non-trivial for a table of several sections and a descriptor that has reserved bits.",
            terminates: false,
            facets: vec![random("tables", reserved, 1_000_000, 12_000_000), random("descriptors", reserved_desc, 4_000_000, 40_000_000)],
            assumptions: &["the domains of the tables' own properties"],
        },
    ]
}

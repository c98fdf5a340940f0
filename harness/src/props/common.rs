//! Helpers shared by the properties.

use mpegts::psi::*;

use crate::engine::*;
use crate::refimpl::tables::*;
use crate::refimpl::ts::*;
use crate::refimpl::*;
use crate::{ensure, ensure_eq};

pub fn viol<T>(r: Result<T, String>) -> Result<T, Fail> {
    r.map_err(Fail::Viol)
}

pub fn viol_ctx<T>(r: Result<T, String>, what: &str) -> Result<T, Fail> {
    r.map_err(|e| Fail::Viol(format!("{}: {}", what, e)))
}

pub fn gen_rsv(s: &mut Src) -> Rsv {
    if s.chance(1, 2) {
        Rsv::Rand(Rng::new(s.uni(0, u64::from(u32::MAX))))
    } else {
        Rsv::Ones
    }
}

/// how many bytes lie in the output already
pub fn existing(s: &mut Src, usual: u64) -> usize {
    (if s.chance(1, 1000) { s.int(0, 140_000) } else { s.size(0, usual) }) as usize
}

/// encodes with the library behind existing output; returns the packets after reading them strictly into sections
pub fn demux<T: PsiDemux>(s: &mut Src, t: &T) -> Result<(Vec<Vec<u8>>, Vec<Vec<u8>>), Fail> {
    let pid = s.pid();
    let cc0 = s.bits(4);
    let n = existing(s, 200);
    let prefix = vec![0xA5u8; n];
    let mut dst = prefix.clone();
    let mut cc = cc0;
    t.demux(pid, &mut cc, &mut dst);
    ensure!(dst.len() >= n && dst[..n] == prefix[..], "existing output was changed");
    let mut want = cc0;
    let sections = viol_ctx(depacketise(&dst[n..], pid, &mut want), "packets")?;
    ensure_eq!(cc, want, "counter after encoding");
    Ok((sections, dst[n..].chunks(188).map(|p| p.to_vec()).collect()))
}

/// hands the packets to a reassembler and every complete section to f
pub fn feed(packets: &[Vec<u8>], mut f: impl FnMut(&Psi)) {
    let mut psi = Psi::default();
    for p in packets {
        psi.mux(p);
        if psi.check() {
            f(&psi);
        }
    }
}

/// hands sections of the reference encoder to f, directly or through packets
pub fn deliver(s: &mut Src, sections: &[Vec<u8>], mut f: impl FnMut(&Psi)) {
    if s.chance(1, 2) {
        for x in sections {
            f(&psi_of(x));
        }
    } else {
        let pid = s.pid();
        let mut cc = s.bits(4);
        let mut packets = Vec::new();
        for x in sections {
            packets.extend(packetise(x, pid, &mut cc));
        }
        feed(&packets, f);
    }
}

/// every kind of table
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Pat,
    Pmt,
    Nit,
    Sdt,
    Eit,
    Tdt,
    Tot,
}

pub const KINDS: [K; 7] = [K::Pat, K::Pmt, K::Nit, K::Sdt, K::Eit, K::Tdt, K::Tot];

#[derive(Debug, Default)]
pub struct AllTables {
    pub pat: Pat,
    pub pmt: Pmt,
    pub nit: Nit,
    pub sdt: Sdt,
    pub eit: Eit,
    pub tdt: Tdt,
    pub tot: Tot,
}

impl AllTables {
    pub fn parse(&mut self, k: K, psi: &Psi) {
        match k {
            K::Pat => self.pat.parse(psi),
            K::Pmt => self.pmt.parse(psi),
            K::Nit => self.nit.parse(psi),
            K::Sdt => self.sdt.parse(psi),
            K::Eit => self.eit.parse(psi),
            K::Tdt => self.tdt.parse(psi),
            K::Tot => self.tot.parse(psi),
        }
    }

    pub fn dbg(&self, k: K) -> String {
        match k {
            K::Pat => format!("{:?}", self.pat),
            K::Pmt => format!("{:?}", self.pmt),
            K::Nit => format!("{:?}", self.nit),
            K::Sdt => format!("{:?}", self.sdt),
            K::Eit => format!("{:?}", self.eit),
            K::Tdt => format!("{:?}", self.tdt),
            K::Tot => format!("{:?}", self.tot),
        }
    }

    pub fn demux(&self, k: K, cc: &mut u8, dst: &mut Vec<u8>) {
        match k {
            K::Pat => self.pat.demux(0x100, cc, dst),
            K::Pmt => self.pmt.demux(0x100, cc, dst),
            K::Nit => self.nit.demux(0x100, cc, dst),
            K::Sdt => self.sdt.demux(0x100, cc, dst),
            K::Eit => self.eit.demux(0x100, cc, dst),
            K::Tdt => self.tdt.demux(0x100, cc, dst),
            K::Tot => self.tot.demux(0x100, cc, dst),
        }
    }
}

impl K {
    pub fn accepts(self, id: u8) -> bool {
        match self {
            K::Pat => id == 0,
            K::Pmt => id == 2,
            K::Nit => id == 0x40 || id == 0x41,
            K::Sdt => id == 0x42 || id == 0x46,
            K::Eit => (0x4E..=0x6F).contains(&id),
            K::Tdt => id == 0x70,
            K::Tot => id == 0x73,
        }
    }

    pub fn gen_id(self, s: &mut Src) -> u8 {
        match self {
            K::Pat => 0,
            K::Pmt => 2,
            K::Nit => 0x40 + s.bit(),
            K::Sdt => 0x42 + 4 * s.bit(),
            K::Eit => s.uni(0x4E, 0x6F) as u8,
            K::Tdt => 0x70,
            K::Tot => 0x73,
        }
    }

    /// smallest section the table reads
    pub fn min_size(self) -> usize {
        match self {
            K::Pat => 12,
            K::Pmt | K::Nit => 16,
            K::Sdt => 15,
            K::Eit => 18,
            K::Tdt => 8,
            K::Tot => 14,
        }
    }

    /// valid sections of the reference encoder
    pub fn gen_sections(self, s: &mut Src) -> Vec<Vec<u8>> {
        let mut rsv = gen_rsv(s);
        match self {
            K::Pat => PatM::gen(s).sections(s, &mut rsv),
            K::Pmt => PmtM::gen(s).sections(s, &mut rsv),
            K::Nit => NitM::gen(s).sections(s, &mut rsv),
            K::Sdt => SdtM::gen(s).sections(s, &mut rsv),
            K::Eit => {
                let id = self.gen_id(s);
                let h = EitM::gen_head(s, id);
                let n = s.size(1, 4);
                (0..n).map(|i| {
                    let mut left = 4096 - 18;
                    let mut ev = Vec::new();
                    for _ in 0..s.size(0, 5) {
                        let e = EventM::gen(s);
                        if e.size() > left {
                            break;
                        }
                        left -= e.size();
                        ev.push(e);
                    }
                    let hd = EitHead { table_id: id, num: i as u8, last: n as u8 - 1, seg_last: i as u8, last_table: id };
                    h.section(hd, &ev, &mut rsv)
                }).collect()
            }
            K::Tdt => vec![tdt_section(desc::gen_time(s), &mut rsv)],
            K::Tot => {
                let t = desc::gen_time(s);
                let d = desc::gen_list(s, 1010, 5);
                vec![tot_section(t, &d, &mut rsv)]
            }
        }
    }
}

/// sets the length field and the checksum of section bytes; at least 8 bytes long
pub fn fix_section(b: &mut Vec<u8>) {
    while b.len() < 8 {
        b.push(0);
    }
    b.truncate(4098);
    let n = b.len();
    let len = n - 3;
    b[1] = (b[1] & 0xF0) | (len >> 8) as u8;
    b[2] = len as u8;
    let c = crc_fast(&b[..n - 4]);
    b[n - 4..].copy_from_slice(&c.to_be_bytes());
}

/// a few random edits
pub fn mutate(s: &mut Src, b: &mut Vec<u8>, from: usize) {
    let n = s.size(0, 12);
    for _ in 0..n {
        if b.len() <= from {
            break;
        }
        let i = s.uni(from as u64, b.len() as u64 - 1) as usize;
        match s.weighted(&[4, 4, 2, 2, 1, 1]) {
            0 => b[i] = s.u8(),
            1 => b[i] = b[i].wrapping_add(*s.pick(&[1, 255, 2, 254, 16])),
            2 => b[i] ^= 1 << s.bits(3),
            3 => b[i] = *s.pick(&[0, 0xFF, 0x7F, 0x80, 0x0F, 0xF0, 0x10, 0x15, 0x1F]),
            4 => {
                let k = s.size(1, 8) as usize;
                let e = (i + k).min(b.len());
                b.drain(i..e);
            }
            _ => {
                let k = s.size(1, 8) as usize;
                let x = s.bytes(k);
                b.splice(i..i, x);
            }
        }
    }
}

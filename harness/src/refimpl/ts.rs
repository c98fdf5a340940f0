//! TS packets and sections.

use super::*;

/// one packet of the reference packetiser
#[derive(Clone, Debug)]
pub struct Pkt {
    pub pusi: bool,
    pub pid: u16,
    pub cc: u8,
    /// adaptation field bytes after the length byte; None: no adaptation field
    pub af: Option<Vec<u8>>,
    pub payload: Option<Vec<u8>>,
}

impl Pkt {
    pub fn build(&self) -> Vec<u8> {
        let mut v = vec![0x47, (self.pid >> 8) as u8 | if self.pusi { 0x40 } else { 0 }, self.pid as u8,
            self.cc | if self.af.is_some() { 0x20 } else { 0 } | if self.payload.is_some() { 0x10 } else { 0 }];
        if let Some(af) = &self.af {
            v.push(af.len() as u8);
            v.extend_from_slice(af);
        }
        if let Some(p) = &self.payload {
            v.extend_from_slice(p);
        }
        assert!(v.len() == 188, "harness: packet of {} bytes", v.len());
        v
    }
}

/// section of the long form (syntax indicator set) with CRC
pub fn section(table_id: u8, ext: u16, version: u8, num: u8, last: u8, body: &[u8], rsv: &mut Rsv) -> Vec<u8> {
    let mut w = Bw::new();
    let len = 5 + body.len() + 4;
    w.put(table_id.into(), 8).put(1, 1).put(rsv.get(1), 1).put(rsv.get(2), 2).put(len as u64, 12);
    w.put(ext.into(), 16).put(rsv.get(2), 2).put(version.into(), 5).put(1, 1);
    w.put(num.into(), 8).put(last.into(), 8);
    let mut v = w.done();
    v.extend_from_slice(body);
    let c = crc_fast(&v);
    v.extend_from_slice(&c.to_be_bytes());
    v
}

pub struct Sec {
    pub table_id: u8,
    pub ext: u16,
    pub version: u8,
    pub num: u8,
    pub last: u8,
    pub body: Vec<u8>,
    pub size: usize,
}

/// reads a section of the long form strictly
pub fn parse_section(b: &[u8], max: usize) -> Result<Sec, String> {
    if b.len() < 12 {
        return Err(format!("section of {} bytes", b.len()));
    }
    if b.len() > max {
        return Err(format!("section of {} bytes, more than {}", b.len(), max));
    }
    let mut r = Br::new(b);
    let table_id = r.get(8)? as u8;
    if r.get(1)? != 1 {
        return Err("section_syntax_indicator is 0".into());
    }
    r.get(3)?;
    let len = r.get(12)? as usize;
    if len + 3 != b.len() {
        return Err(format!("section_length {} in {} bytes", len, b.len()));
    }
    let ext = r.get(16)? as u16;
    r.get(2)?;
    let version = r.get(5)? as u8;
    if r.get(1)? != 1 {
        return Err("current_next_indicator is 0".into());
    }
    let num = r.get(8)? as u8;
    let last = r.get(8)? as u8;
    if crc_fast(&b[..b.len() - 4]).to_be_bytes() != b[b.len() - 4..] {
        return Err("bad CRC".into());
    }
    Ok(Sec { table_id, ext, version, num, last, body: b[8..b.len() - 4].to_vec(), size: b.len() })
}

/// strict depacketiser for what the library's packetiser promises: every section starts in a packet
/// of its own with zero pointer field, no adaptation field, stuffing after the last byte
pub fn depacketise(ts: &[u8], pid: u16, cc: &mut u8) -> Result<Vec<Vec<u8>>, String> {
    if ts.len() % 188 != 0 {
        return Err(format!("{} bytes are no whole number of packets", ts.len()));
    }
    let mut out: Vec<Vec<u8>> = Vec::new();
    let mut want = 0usize;
    for (i, p) in ts.chunks(188).enumerate() {
        let open = out.last().map_or(false, |s| s.len() < want);
        let h = u32::from_be_bytes([p[0], p[1], p[2], p[3]]);
        let expect = 0x4700_0000 | if open { 0 } else { 0x40_0000 } | (u32::from(pid) << 8) | 0x10 | u32::from(*cc);
        if h != expect {
            return Err(format!("packet {}: header {:08x}, expected {:08x}", i, h, expect));
        }
        *cc = (*cc + 1) % 16;
        let mut pay = &p[4..];
        if !open {
            if pay[0] != 0 {
                return Err(format!("packet {}: pointer field {}", i, pay[0]));
            }
            pay = &pay[1..];
            want = 3 + (usize::from(pay[1] & 15) << 8) + usize::from(pay[2]);
            out.push(Vec::new());
        }
        let s = out.last_mut().unwrap();
        let n = (want - s.len()).min(pay.len());
        s.extend_from_slice(&pay[..n]);
        if pay[n..].iter().any(|&x| x != 0xFF) {
            return Err(format!("packet {}: stuffing is not 0xFF", i));
        }
    }
    if out.last().map_or(false, |s| s.len() < want) {
        return Err("last section is incomplete".into());
    }
    Ok(out)
}

/// plain packetiser
pub fn packetise(sec: &[u8], pid: u16, cc: &mut u8) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    let mut pos = 0;
    while pos < sec.len() {
        let mut p = Vec::new();
        if pos == 0 {
            p.push(0);
        }
        let n = (184 - p.len()).min(sec.len() - pos);
        p.extend_from_slice(&sec[pos..pos + n]);
        p.resize(184, 0xFF);
        out.push(Pkt { pusi: pos == 0, pid, cc: *cc, af: None, payload: Some(p) }.build());
        *cc = (*cc + 1) % 16;
        pos += n;
    }
    out
}

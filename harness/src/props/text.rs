//! C18-C20: text.

use mpegts::textcode::StringDVB;

use super::common::*;
use crate::engine::*;
use crate::refimpl::text::*;
use crate::refimpl::*;
use crate::runner::*;
use crate::{ensure, ensure_eq};

fn wire_of(t: &StringDVB) -> Vec<u8> {
    let mut v = Vec::new();
    t.assemble(&mut v);
    v
}

/// library text of these bytes in this table; the bytes are not empty
fn raw_text(cp: u8, data: &[u8]) -> StringDVB {
    let mut w = selector(cp);
    w.extend_from_slice(data);
    StringDVB::from(w.as_slice())
}

//
// C18

fn decode_bytes(s: &mut Src) -> R {
    let i = s.uni(0, 16 * 256 - 1) as usize;
    let cp = TABLES[i / 256];
    let b = (i % 256) as u8;
    s.hit("table and byte");
    for data in [vec![b'A', b], vec![b'A', b, b'z', b]] {
        let t = raw_text(cp, &data);
        ensure_eq!(t.get_codepage(), cp, "table");
        ensure_eq!(t.to_string(), decode(cp, &data), "table {} byte {:02x}", cp, b);
        ensure!(!t.is_empty(), "text with bytes is empty");
    }
    Ok(())
}

/// 256 code points of one table each
fn encode_chars(s: &mut Src) -> R {
    let i = s.uni(0, 16 * 0x1100 - 1);
    let cp = TABLES[(i / 0x1100) as usize];
    let base = (i % 0x1100) as u32 * 256;
    s.hit("table and block of code points");
    let chars: String = (base..base + 256).filter_map(char::from_u32).collect();
    let t = StringDVB::from_str(&chars, cp);
    ensure_eq!(t.get_codepage(), cp, "table");
    if t.as_bytes() != encode(cp, &chars).as_slice() {
        for c in chars.chars() {
            let one = c.to_string();
            let t = StringDVB::from_str(&one, cp);
            ensure!(t.as_bytes() == encode(cp, &one).as_slice(), "U+{:04X} in table {} gives {}, expected {}", c as u32, cp,
                hex(t.as_bytes()), hex(&encode(cp, &one)));
        }
        return Err(Fail::Viol(format!("block U+{:04X} in table {}: {}", base, cp, diff(t.as_bytes(), &encode(cp, &chars)))));
    }
    Ok(())
}

fn gen_string(s: &mut Src, cp: u8) -> String {
    let mut o = String::new();
    let n = if s.chance(1, 500) { s.int(40, 3000) } else { s.size(0, 40) };
    for _ in 0..n {
        let c = match s.weighted(&[3, 3, 2]) {
            0 => char::from(s.uni(0x20, 0x7E) as u8),
            1 if cp != UTF8 => {
                let t = table(*s.pick(&[cp, cp, TABLES[(cp as usize * 7 + 3) % 15]]));
                match t[s.uni(0, 95) as usize] {
                    0 => '?',
                    u => char::from_u32(u.into()).unwrap(),
                }
            }
            _ => gen_char(s),
        };
        o.push(c);
    }
    o
}

fn strings(s: &mut Src) -> R {
    let cp = *s.pick(&TABLES);
    let text = gen_string(s, cp);
    s.note(|| format!("table {} {:?}", cp, text));
    let t = StringDVB::from_str(&text, cp);
    let want = encode(cp, &text);
    ensure!(t.as_bytes() == want.as_slice(), "encoded: {}", diff(t.as_bytes(), &want));
    ensure_eq!(t.get_codepage(), cp, "table");
    ensure_eq!(t.is_empty(), want.is_empty(), "emptiness");
    ensure_eq!(t.to_string(), decode(cp, &want), "decoded again");
    let own = cp == UTF8 || text.chars().all(|c| (c as u32) < 0x80 || table(cp).iter().any(|&x| x != 0 && u32::from(x) == c as u32));
    if own {
        s.hit("characters of the table");
        ensure_eq!(t.to_string(), text, "text of the table's characters");
        // also over the wire; text without selector needs a printable first byte
        if cp != 0 || want.first().map_or(true, |&b| b >= 0x20) {
            let w = wire_of(&t);
            ensure_eq!(StringDVB::from(w.as_slice()).to_string(), text, "over the wire");
        }
    } else {
        s.hit("other characters");
    }
    Ok(())
}

fn unknown_table(s: &mut Src) -> R {
    let cp = loop {
        let c = s.u8();
        if !TABLES.contains(&c) {
            break c;
        }
        if s.consumed().len() > 20 {
            break 12;
        }
    };
    let text = gen_string(s, UTF8);
    s.hit("unknown table");
    s.note(|| format!("table {} {:?}", cp, text));
    let t = StringDVB::from_str(&text, cp);
    ensure_eq!(t.get_codepage(), UTF8, "table instead of unknown {}", cp);
    ensure_eq!(t.as_bytes(), text.as_bytes(), "bytes");
    ensure_eq!(t.to_string(), text, "text");
    Ok(())
}

//
// C19

fn on_wire(s: &mut Src) -> R {
    let m = TextM::gen(s, 255);
    if !m.data.is_empty() {
        s.hit("text");
    }
    s.note(|| format!("{:?}", m));
    let w = m.wire();
    let t = StringDVB::from(w.as_slice());
    viol_ctx(m.same(&t), "decoded")?;
    check_writing(s, &t, &w)
}

/// what is written, with its sizes, behind existing output
fn check_writing(s: &mut Src, t: &StringDVB, want: &[u8]) -> R {
    ensure_eq!(t.size(), want.len(), "announced size");
    let prefix = vec![0xC3u8; existing(s, 10)];
    let mut out = prefix.clone();
    t.assemble(&mut out);
    ensure!(out[..prefix.len()] == prefix[..], "existing output was changed");
    ensure!(&out[prefix.len()..] == want, "written: {}", diff(&out[prefix.len()..], want));
    let mut out = prefix.clone();
    if want.len() > 255 {
        // cannot have a length byte
        return Ok(());
    }
    t.assemble_sized(&mut out);
    let mut sized = vec![want.len() as u8];
    sized.extend_from_slice(want);
    ensure!(out[..prefix.len()] == prefix[..], "existing output was changed");
    ensure!(out[prefix.len()..] == sized[..], "written with length: {}", diff(&out[prefix.len()..], &sized));
    Ok(())
}

/// encoded from a string
fn from_string(s: &mut Src) -> R {
    let cp = *s.pick(&TABLES);
    let text = gen_string(s, cp);
    let t = StringDVB::from_str(&text, cp);
    s.note(|| format!("table {} {:?}", cp, text));
    let m = TextM { cp, data: encode(cp, &text) };
    // a text without selector cannot begin with a selector byte
    if m.wire().len() > 255 {
        s.label("more than 255 bytes");
    }
    if cp == 0 && m.data.first().map_or(false, |&b| b < 0x20) {
        return Ok(());
    }
    if !m.data.is_empty() {
        s.hit("text");
    }
    check_writing(s, &t, &m.wire())?;
    let back = StringDVB::from(m.wire().as_slice());
    viol_ctx(m.same(&back), "decoded")?;
    ensure_eq!(back.to_string(), t.to_string(), "text decoded");
    Ok(())
}

fn check_received(s: &mut Src, b: &[u8]) -> R {
    let t = StringDVB::from(b);
    let text = t.to_string();
    let _ = format!("{:?}", t);
    match select(b) {
        Some((cp, data)) => {
            s.label("standard selector");
            viol(TextM { cp: if data.is_empty() { 0 } else { cp }, data: data.to_vec() }.same(&t))?;
            ensure_eq!(text, decode(cp, data), "text");
        }
        None if b[0] == 0x10 && b.len() >= 3 && b[1] != 0 => s.label("three byte selector with a reserved second byte"),
        None => {
            s.hit("reserved selector");
            ensure_eq!(text, "?".to_string(), "text of a reserved selector");
        }
    }
    let w = wire_of(&t);
    ensure_eq!(t.size(), w.len(), "announced size");
    let again = StringDVB::from(w.as_slice());
    ensure_eq!(again.to_string(), text, "text re-encoded and decoded");
    if !t.is_empty() {
        ensure_eq!(again.get_codepage(), t.get_codepage(), "table re-encoded and decoded");
        ensure_eq!(again.as_bytes(), t.as_bytes(), "bytes re-encoded and decoded");
    }
    Ok(())
}

/// all texts of up to two bytes, and three byte selectors with and without text
fn short_texts(s: &mut Src) -> R {
    let i = s.uni(0, 65535);
    s.hit("short text");
    let (a, b) = ((i >> 8) as u8, i as u8);
    if i == 0 {
        check_received(s, &[])?;
    }
    if i < 256 {
        check_received(s, &[b])?;
    }
    check_received(s, &[a, b])?;
    check_received(s, &[a, b, 0xE9])?;
    check_received(s, &[0x10, a, b])?;
    check_received(s, &[0x10, a, b, b'x', 0xC3, 0xA9])?;
    check_received(s, &[a, b, 5, b'x', 0xC3, 0xA9])
}

fn any_text(s: &mut Src) -> R {
    let n = if s.chance(1, 500) { s.int(60, 5000) } else { s.size(0, 60) } as usize;
    let mut b = s.bytes(n);
    if n > 0 && s.chance(2, 3) {
        b[0] = s.uni(0, 0x1F) as u8;
        if n > 2 && s.chance(1, 2) {
            b[0] = 0x10;
            b[1] = s.bit() * s.u8();
            b[2] = s.uni(0, 24) as u8;
        }
    }
    s.note(|| hex(&b));
    if n > 0 {
        s.hit("received text");
    }
    check_received(s, &b)
}

//
// C20

/// text of any length in any table, also malformed UTF-8
fn gen_text(s: &mut Src) -> TextM {
    let cp = gen_cp(s);
    let n = match s.weighted(&[1500, 1000, 500, 1]) {
        0 => s.size(0, 40),
        1 => s.int(0, 400),
        2 => s.int(0, 2000),
        _ => s.int(2000, 140_000),
    } as usize;
    let data = if cp == UTF8 && s.chance(1, 8) {
        // nothing but continuation bytes
        vec![0x80 | s.bits(6); n]
    } else {
        gen_data(s, cp, n)
    };
    TextM { cp, data }.norm()
}

fn split(s: &mut Src) -> R {
    let m = gen_text(s);
    let limit = match s.weighted(&[4, 2, 1]) {
        0 => s.uni(8, 20),
        1 => s.int(8, 300),
        _ => *s.pick(&[249, 250, 252, 253, 254, 255, 256, 65535, usize::MAX as u64 >> 1]),
    } as usize;
    s.note(|| format!("limit {} {:?}", limit, m));
    let t = m.to_lib();
    let parts = t.split(limit);
    s.note(|| format!("parts {:?}", parts.iter().map(|p| hex(p.as_bytes())).collect::<Vec<_>>()));
    if parts.len() > 1 {
        s.hit("several pieces");
    }
    let valid = m.cp == UTF8 && std::str::from_utf8(&m.data).is_ok();
    let mut joined = Vec::new();
    let mut text = String::new();
    for p in &parts {
        ensure!(m.data.is_empty() || !p.is_empty(), "empty piece");
        ensure!(m.data.is_empty() || p.get_codepage() == m.cp, "piece in table {} instead of {}", p.get_codepage(), m.cp);
        let w = wire_of(p);
        ensure!(w.len() <= limit, "piece encodes into {} bytes, limit {}", w.len(), limit);
        ensure_eq!(p.size(), w.len(), "size of a piece");
        ensure!(!valid || std::str::from_utf8(p.as_bytes()).is_ok(), "UTF-8 cut inside a character: piece ends {}", hex(p.as_bytes()));
        joined.extend_from_slice(p.as_bytes());
        text.push_str(&p.to_string());
    }
    ensure!(joined == m.data, "joined pieces: {}", diff(&joined, &m.data));
    if m.cp != UTF8 || valid {
        ensure_eq!(text, t.to_string(), "text of the joined pieces");
    }
    viol_ctx(m.same(&t), "the text itself")
}

fn truncate(s: &mut Src) -> R {
    let m = gen_text(s);
    let limit = match s.weighted(&[6, 6, 4, 1]) {
        0 => s.uni(0, 8),
        1 => s.int(0, m.data.len() as u64 + 3),
        2 => (m.data.len() as u64 + 4).saturating_sub(s.uni(0, 12)),
        _ => s.int(0, u64::MAX),
    } as usize;
    s.note(|| format!("limit {} {:?}", limit, m));
    let mut t = m.to_lib();
    t.truncate(limit);
    let got = t.as_bytes();
    s.note(|| format!("gives {}", hex(got)));
    if m.data.len() <= limit {
        return viol_ctx(m.same(&t), "text that fits");
    }
    s.hit("truncated");
    ensure!(t.get_codepage() == m.cp, "table {} instead of {}", t.get_codepage(), m.cp);
    let dots = limit.min(3);
    ensure!(got.len() <= limit, "{} bytes, limit {}", got.len(), limit);
    ensure!(got.len() >= dots && got[got.len() - dots..].iter().all(|&b| b == b'.'), "{} does not end with {} dots", hex(got), dots);
    let kept = &got[..got.len() - dots];
    ensure!(m.data.starts_with(kept), "{} is no prefix of the text", hex(kept));
    let room = limit - dots;
    if m.cp != UTF8 {
        ensure_eq!(kept.len(), room, "bytes kept");
    } else if let Ok(x) = std::str::from_utf8(&m.data) {
        s.label("UTF-8 truncated");
        let mut n = room;
        while !x.is_char_boundary(n) {
            n -= 1;
        }
        if n < room {
            s.label("UTF-8 truncated inside a character");
        }
        ensure_eq!(kept.len(), n, "bytes kept, the last character boundary within {}", room);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            rule: "A case is one byte of a table (all), 256 code points of a table (all 1.1 million in each table), or a string; non-trivial always.",
            terminates: false,
            facets: vec![
                enumerate("bytes", decode_bytes, 16 * 256),
                enumerate("characters", encode_chars, 16 * 0x1100),
                random("strings", strings, 2_500_000, 30_000_000),
                random("unknown-table", unknown_table, 2_500_000, 30_000_000),
            ],
            assumptions: &["tables of ISO 8859-1 to -15 and the DVB Latin table, generated from Python's codecs and EN 300 468 figure A.1; combining accents of the Latin table count as characters of their own"],
        },
        Prop {
            id: "C19",
            rule: "A case is a text field; non-trivial when it has text.",
            terminates: false,
            facets: vec![
                enumerate("short", short_texts, 65536),
                random("wire", on_wire, 4_000_000, 30_000_000),
                random("strings", from_string, 4_000_000, 30_000_000),
                random("received", any_text, 4_000_000, 30_000_000),
            ],
            assumptions: &[
                "an empty text carries no selector, so its table is not kept",
                "text without selector begins with a byte of 0x20 or above; with a length prefix at most 255 bytes",
                "0x10 followed by a byte other than 0 only has to give printable, stable text",
            ],
        },
        Prop {
            id: "C20",
            rule: "A case is a text of up to 2000 (rarely 140000) bytes and a limit; non-trivial when split into several pieces or truncated.",
            terminates: true,
            facets: vec![random("split", split, 4_000_000, 30_000_000), random("truncate", truncate, 4_000_000, 30_000_000)],
            assumptions: &["malformed UTF-8 has no character boundaries to respect"],
        },
    ]
}

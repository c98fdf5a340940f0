//! C21-C22: packet reader and byte-stream adapter.

use std::io::{self, Read};

use mpegts::reader::{TsDrain, TsRead, TsReader};

use crate::engine::*;
use crate::refimpl::*;
use crate::runner::*;
use crate::{ensure, ensure_eq};

const KINDS: [io::ErrorKind; 5] = [
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Other,
];

fn error(i: usize) -> io::Error {
    io::Error::new(KINDS[i % KINDS.len()], format!("error {}", i))
}

/// is this the error number i, unchanged?
fn same_error(e: &io::Error, i: usize) -> bool {
    e.kind() == KINDS[i % KINDS.len()] && e.to_string() == format!("error {}", i)
}

#[derive(Clone, Debug)]
pub enum Ev {
    /// at most this many bytes
    Some(usize),
    Interrupted,
    /// error with this number, when between packets
    Fail(usize),
}

#[derive(Debug)]
pub struct Source {
    pub data: Vec<u8>,
    pub pos: usize,
    /// taken in turn; everything at once afterwards
    pub events: Vec<Ev>,
    pub next: usize,
    /// byte positions inside a packet
    pub inside: Vec<bool>,
    /// errors raised and not yet seen by the caller
    pub raised: Vec<usize>,
    pub calls: usize,
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        assert!(self.calls < 2_000_000, "the source is asked for data again and again");
        let mut max = usize::MAX;
        if let Some(e) = self.events.get(self.next) {
            self.next += 1;
            match e {
                Ev::Some(n) => max = *n,
                Ev::Interrupted => return Err(io::ErrorKind::Interrupted.into()),
                Ev::Fail(i) => {
                    if !self.inside.get(self.pos).copied().unwrap_or(false) {
                        self.raised.push(*i);
                        return Err(error(*i));
                    }
                }
            }
        }
        let n = max.min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn gen_stream(s: &mut Src) -> Vec<u8> {
    let mut v = Vec::new();
    if s.chance(1, 1000) {
        // long, or long without any packet
        if s.bit() == 1 {
            let x = s.bytes(188);
            for i in 0..s.int(1, 800) {
                v.push(0x47);
                v.push(i as u8);
                v.extend_from_slice(&x[2..]);
            }
            s.label("hundreds of packets");
        } else {
            let b = s.pick(&[0x00u8, 0x46, 0xFF]).to_owned();
            v.extend(vec![b; s.int(1, 140_000) as usize]);
            s.label("far to the first packet");
        }
    }
    for _ in 0..s.size(0, 8) {
        match s.weighted(&[4, 2, 1, 1]) {
            0 => {
                let mut p = s.bytes(188);
                p[0] = 0x47;
                v.extend(p);
            }
            1 => {
                let n = s.size(0, 40) as usize;
                v.extend(s.bytes(n));
            }
            2 => {
                // nothing that looks like a packet
                let n = s.size(0, 400) as usize;
                v.extend(s.bytes(n).iter().map(|b| if *b == 0x47 { 0x46 } else { *b }));
            }
            _ => v.extend(vec![0x47; s.size(0, 200) as usize]),
        }
    }
    // end in the middle of a packet
    if s.chance(1, 3) {
        let n = s.size(1, 187) as usize;
        let mut p = s.bytes(n);
        p[0] = 0x47;
        v.extend(p);
    }
    v
}

/// start positions of the packets, and which positions lie inside one (after its first byte)
pub fn scan(d: &[u8]) -> (Vec<usize>, Vec<bool>) {
    let mut starts = Vec::new();
    let mut inside = vec![false; d.len()];
    let mut i = 0;
    while i < d.len() {
        if d[i] != 0x47 {
            i += 1;
            continue;
        }
        if d.len() - i >= 188 {
            starts.push(i);
        }
        for x in inside.iter_mut().take(i + 188).skip(i + 1) {
            *x = true;
        }
        i += 188;
    }
    (starts, inside)
}

pub fn gen_events(s: &mut Src, n: u64, errors: bool) -> Vec<Ev> {
    let style = s.uni(0, 3);
    let mut v = Vec::new();
    if s.chance(1, 100) {
        v = vec![Ev::Interrupted; s.int(1, 5000) as usize];
    }
    for i in 0..n {
        v.push(match style {
            // bytes one by one
            0 => Ev::Some(1),
            1 => Ev::Some(s.uni(1, 400) as usize),
            _ => match s.weighted(&[4, 2, if errors { 2 } else { 0 }]) {
                0 => Ev::Some(*s.pick(&[1, 2, 3, 186, 187, 188, 189, 100, 50]) as usize),
                1 => Ev::Interrupted,
                _ => Ev::Fail(i as usize),
            },
        });
    }
    v
}

fn make_source(s: &mut Src, errors: bool) -> Source {
    let data = gen_stream(s);
    let (_, inside) = scan(&data);
    let max = if s.chance(1, 4) { 2000 } else { 60 };
    let n = s.size(0, max);
    let events = gen_events(s, n, errors);
    s.note(|| format!("source {} events {:?}", hex(&data), events));
    Source { data, pos: 0, events, next: 0, inside, raised: vec![], calls: 0 }
}

fn reading(s: &mut Src) -> R {
    let src = make_source(s, true);
    let data = src.data.clone();
    let (starts, _) = scan(&data);
    let extra = s.pick(&[0usize, 0, 1, 2, 100, 188]).to_owned();
    let mut r = TsReader::new(src);
    let mut got = 0;
    let mut zeros = 0;
    let mut calls = 0;
    let last = if s.chance(1, 50) { 300 } else { 4 };
    let _ = format!("{:?}", r.get_ref().pos);
    while zeros < last {
        calls += 1;
        ensure!(calls < 10_000, "reader keeps failing");
        let mut buf = vec![0xB7u8; 188 + extra];
        let res = r.read(&mut buf);
        ensure!(buf[188..].iter().all(|&b| b == 0xB7), "bytes beyond the packet were touched");
        match res {
            Ok(0) => {
                zeros += 1;
                ensure!(r.get_ref().pos == data.len(), "zero before the end of data, at {} of {}", r.get_ref().pos, data.len());
                ensure!(got == starts.len(), "zero after {} of {} packets", got, starts.len());
            }
            Ok(n) => {
                ensure_eq!(n, 188, "bytes read");
                ensure!(zeros == 0, "packet after the end of data");
                ensure!(got < starts.len(), "more packets than the {} in the data", starts.len());
                let p = &data[starts[got]..starts[got] + 188];
                ensure!(&buf[..188] == p, "packet {}: {}", got, diff(&buf[..188], p));
                got += 1;
            }
            Err(e) => {
                ensure!(e.kind() != io::ErrorKind::Interrupted, "interruption reached the caller");
                let raised = std::mem::take(&mut r.get_mut().raised);
                ensure!(raised.len() == 1 && same_error(&e, raised[0]), "error {:?} instead of {:?}", e, raised);
                s.hit("error between packets");
            }
        }
        ensure!(r.get_ref().raised.is_empty(), "errors {:?} were swallowed", r.get_ref().raised);
    }
    if !starts.is_empty() {
        s.hit("packets");
    }
    if data.len() > 188 * starts.len() {
        s.label("other bytes between packets");
    }
    let src = r.into_inner();
    ensure!(src.pos == data.len(), "source not read to its end");
    Ok(())
}

//
// C22

#[derive(Debug)]
struct Packets {
    packets: Vec<Vec<u8>>,
    /// error numbers before packet i
    errors: Vec<Vec<usize>>,
    pub next: usize,
    calls: usize,
}

impl TsRead for Packets {
    fn read(&mut self, packet: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        assert!(self.calls < 2_000_000, "the source is asked for packets again and again");
        assert!(packet.len() >= 188, "source asked for a packet with {} bytes of room", packet.len());
        if let Some(e) = self.errors[self.next].pop() {
            return Err(error(e));
        }
        if self.next == self.packets.len() {
            return Ok(0);
        }
        packet[..188].copy_from_slice(&self.packets[self.next]);
        self.next += 1;
        Ok(188)
    }
}

fn gen_buffer_len(s: &mut Src, style: u64) -> usize {
    (match style {
        0 => 1,
        1 => s.uni(1, 187),
        2 => *s.pick(&[186, 187, 188, 189, 376, 375, 377, 600]),
        _ => match s.weighted(&[2, 3, 3, 2]) {
            0 => 0,
            1 => s.uni(1, 187),
            2 => *s.pick(&[1, 2, 94, 186, 187, 188, 189, 190]),
            _ if s.chance(1, 50) => s.int(800, 70_000),
            _ => s.uni(188, 800),
        },
    }) as usize
}

/// reads everything from the adapter; errors are expected at these offsets
fn drain_all<T: Read>(s: &mut Src, d: &mut T, want: &[u8], mut errors: Vec<(usize, usize)>) -> R {
    let style = s.uni(0, 5);
    let mut off = 0;
    let mut zeros = 0;
    let mut calls = 0;
    let mut empty = 0;
    while zeros < 3 {
        calls += 1;
        ensure!(calls < 1000 + 2 * want.len(), "adapter does not come to an end");
        let mut n = gen_buffer_len(s, style);
        if n == 0 {
            empty += 1;
            if empty > 20 {
                n = 7;
            }
        }
        let mut buf = vec![0xB7u8; n];
        s.note(|| format!("read into {} bytes at {}", n, off));
        match d.read(&mut buf) {
            Ok(k) => {
                ensure!(k <= n, "{} bytes read into {}", k, n);
                // (searching for a packet at the end of data may use the buffer)
                ensure!(k == 0 || buf[k..].iter().all(|&b| b == 0xB7), "bytes beyond the {} returned were touched", k);
                if n == 0 {
                    s.label("empty buffer");
                    continue;
                }
                if k == 0 {
                    zeros += 1;
                    ensure!(off == want.len() && errors.is_empty(), "zero at {} of {} bytes", off, want.len());
                } else {
                    ensure!(off + k <= want.len(), "more than {} bytes", want.len());
                    ensure!(buf[..k] == want[off..off + k], "bytes at {}: {}", off, diff(&buf[..k], &want[off..off + k]));
                    ensure!(errors.first().map_or(true, |e| e.0 >= off + k), "bytes from after a source error at {:?}", errors.first());
                    off += k;
                }
            }
            Err(e) => {
                ensure!(!errors.is_empty(), "error {:?} the source did not raise", e);
                let (at, i) = errors.remove(0);
                ensure!(at == off && same_error(&e, i), "error {:?} at {} instead of error {} at {}", e, off, i, at);
                s.label("source error");
            }
        }
    }
    Ok(())
}

fn draining(s: &mut Src) -> R {
    let n = if s.chance(1, 1000) { s.int(7, 500) } else { s.size(0, 6) } as usize;
    let all = s.bytes(188);
    let packets: Vec<Vec<u8>> = (0..n).map(|i| {
        let mut p = if n > 6 { all.clone() } else { s.bytes(188) };
        p[0] = i as u8;
        p
    }).collect();
    let mut errors = vec![Vec::new(); n + 1];
    let mut want_errors = Vec::new();
    let mut k = 0;
    for (i, e) in errors.iter_mut().enumerate() {
        while s.chance(1, 6) && e.len() < 3 {
            // taken from the back
            e.insert(0, k);
            want_errors.push((i * 188, k));
            k += 1;
        }
    }
    if n > 0 {
        s.hit("packets");
    }
    s.note(|| format!("{} packets, errors {:?}", n, want_errors));
    let want = packets.concat();
    let mut d = TsDrain::new(Packets { packets, errors, next: 0, calls: 0 });
    drain_all(s, &mut d, &want, want_errors)?;
    let _ = format!("{:?}", d);
    Ok(())
}

/// adapter over the reader over a byte source
fn chained(s: &mut Src) -> R {
    let src = make_source(s, false);
    let (starts, _) = scan(&src.data);
    if !starts.is_empty() {
        s.hit("packets");
    }
    let want: Vec<u8> = starts.iter().flat_map(|&i| src.data[i..i + 188].to_vec()).collect();
    let mut d = TsDrain::new(TsReader::new(src));
    drain_all(s, &mut d, &want, vec![])
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            rule: "A case is a byte string of packets and other bytes, a schedule of short reads, interruptions and errors, and a buffer size; non-trivial when it has packets or errors.",
            terminates: false,
            facets: vec![random("reading", reading, 12_000_000, 60_000_000)],
            assumptions: &["errors other than interruptions in the middle of a packet are outside the statement", "a source that returned zero keeps doing so"],
        },
        Prop {
            id: "C22",
            rule: "A case is a packet source with errors in between and a sequence of buffer sizes; non-trivial when it has packets.",
            terminates: false,
            facets: vec![random("draining", draining, 4_400_000, 26_000_000), random("chained", chained, 3_000_000, 18_000_000)],
            assumptions: &["the packet source gives whole packets of 188 bytes, zero at its end, or an error"],
        },
    ]
}

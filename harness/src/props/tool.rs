//! C38: the generator of the character tables, run as a program on directories of mapping files.

use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

use mpegts::textcode::StringDVB;

use crate::engine::*;
use crate::refimpl::text::table;
use crate::runner::*;
use crate::{ensure, ensure_eq};

const PARTS: [(u8, &str); 15] = [
    (1, "Western European"), (2, "Central European"), (3, "South European"), (4, "North European"), (5, "Cyrillic"), (6, "Arabic"),
    (7, "Greek"), (8, "Hebrew"), (9, "Turkish"), (10, "Nordic"), (11, "Thai"), (13, "Baltic Rim"), (14, "Celtic"),
    (15, "Western European"), (16, "South-Eastern European"),
];

/// a directory of its own, removed with the value
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("iso8859-{}-{}", std::process::id(), NEXT.fetch_add(1, SeqCst)));
        std::fs::create_dir(&p).expect("scratch directory");
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn fatal(dir: &Path, what: &str) -> ! {
    let _ = std::fs::remove_dir_all(dir);
    println!("ERROR property=C38 {}", what);
    std::process::exit(3);
}

/// runs a program in the directory; Err when it fails
fn run_in(dir: &Path, mut c: Command) -> Result<String, String> {
    let out = dir.join("out");
    let err = dir.join("err");
    let file = |p: &Path| Stdio::from(std::fs::File::create(p).expect("scratch file"));
    let mut child = match c.current_dir(dir).stdin(Stdio::null()).stdout(file(&out)).stderr(file(&err)).spawn() {
        Ok(c) => c,
        Err(e) => fatal(dir, &format!("cannot run {:?}: {}", c, e)),
    };
    let t0 = Instant::now();
    let mut nap = 100;
    let st = loop {
        match child.try_wait() {
            Ok(Some(st)) => break st,
            Ok(None) if t0.elapsed() > Duration::from_secs(120) => {
                let _ = child.kill();
                let _ = child.wait();
                fatal(dir, "the generator does not end");
            }
            Ok(None) => {
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap * 2).min(5000);
            }
            Err(e) => fatal(dir, &format!("cannot wait for the generator: {}", e)),
        }
    };
    if !st.success() {
        let e = std::fs::read_to_string(&err).unwrap_or_default();
        return Err(format!("{}: {}", st, e.lines().take(3).collect::<Vec<_>>().join(" ")));
    }
    std::fs::read_to_string(&out).map_err(|e| e.to_string())
}

fn generator() -> Command {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    Command::new(std::env::var("VERIF_GENERATOR").unwrap_or_else(|_| format!("{}/harness/target/generator", root)))
}

struct Table {
    name: String,
    head: String,
    values: Vec<u32>,
}

/// the tables in the printed source text, however it is laid out
fn tables(text: &str) -> Result<Vec<Table>, String> {
    let mut v = Vec::new();
    let mut rest = text;
    while let Some(p) = ["static ", "const "].iter().filter_map(|k| rest.find(k).map(|p| p + k.len())).min() {
        let head = rest[..p].to_string();
        rest = &rest[p..];
        let e = rest.find(':').ok_or("table without type")?;
        let name = rest[..e].trim().to_string();
        let e = rest.find('=').ok_or("table without value")?;
        rest = &rest[e + 1..];
        let a = rest.find('[').ok_or("table without list")?;
        let b = rest.find(']').ok_or("list without end")?;
        let values: Result<Vec<u32>, String> = rest[a + 1..b].split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).map(|x| {
            match x.strip_prefix("0x").or(x.strip_prefix("0X")) {
                Some(h) => u32::from_str_radix(h, 16),
                None => x.parse(),
            }.map_err(|_| format!("{:?} in table {}", x, name))
        }).collect();
        v.push(Table { name, head, values: values? });
        rest = &rest[b + 1..];
    }
    Ok(v)
}

/// number of the part, its values from 0xA0 (0: not mapped)
type Part = (usize, Vec<u16>);

fn compare(text: &str, want: &[Part]) -> R {
    let got = tables(text).map_err(Fail::Viol)?;
    let names: Vec<&str> = got.iter().map(|t| t.name.as_str()).collect();
    let want_names: Vec<String> = want.iter().map(|(i, _)| format!("ISO8859_{}", PARTS[*i].0)).collect();
    ensure_eq!(names, want_names, "tables printed");
    for (t, (i, values)) in got.iter().zip(want) {
        ensure!(t.head.contains(PARTS[*i].1), "table {} is headed {:?} instead of {:?}", t.name, t.head.trim(), PARTS[*i].1);
        ensure_eq!(t.values.len(), 96, "entries of {}", t.name);
        for (k, (g, w)) in t.values.iter().zip(values).enumerate() {
            ensure!(*g == u32::from(*w), "{}: byte {:02x} is {:04x}, expected {:04x}", t.name, 0xA0 + k, g, w);
        }
    }
    Ok(())
}

fn code(s: &mut Src, v: u32, width: usize) -> String {
    let x = if s.bit() == 1 { format!("{:0w$X}", v, w = width) } else { format!("{:0w$x}", v, w = width) };
    format!("0{}{}", if s.chance(1, 10) { 'X' } else { 'x' }, x)
}

/// mapping file of a part
fn gen_file(s: &mut Src) -> (String, Vec<u16>) {
    let mut values = vec![0u16; 96];
    let mut lines: Vec<(u32, u32)> = Vec::new();
    match s.weighted(&[3, 2, 1]) {
        // as published: one line for each byte
        0 => {
            let first = s.pick(&[0u32, 0x20, 0x80, 0xA0]).to_owned();
            for b in first..256 {
                let u = if b < 0xA0 { b } else { s.int(1, 0xFFFF) as u32 };
                if b < 0xA0 || !s.chance(1, 8) {
                    lines.push((b, u));
                }
            }
        }
        1 => {
            for _ in 0..s.size(0, 12) {
                let b = if s.chance(1, 2) { *s.pick(&[0x9F, 0xA0, 0xA1, 0xFE, 0xFF, 0xAF, 0xB0]) } else { s.uni(0, 255) } as u32;
                if lines.iter().all(|l| l.0 != b) {
                    lines.push((b, s.int(1, 0xFFFF) as u32));
                }
            }
        }
        _ => {}
    }
    for &(b, u) in &lines {
        if b >= 0xA0 {
            values[b as usize - 0xA0] = u as u16;
        }
    }
    if s.chance(1, 3) {
        for i in (1..lines.len()).rev() {
            let j = s.uni(0, i as u64) as usize;
            lines.swap(i, j);
        }
        s.label("lines in any order");
    }
    let end = if s.chance(1, 4) { "\r\n" } else { "\n" };
    let loose = s.chance(1, 2);
    let mut t = String::new();
    for &(b, u) in &lines {
        if loose && s.chance(1, 6) {
            t.push_str(s.pick(&["#", "# comment", "  # 0xA0\t0x1234", "", "   ", "#0xFF\t0x0001", "\t"]));
            t.push_str(end);
        }
        if loose && s.chance(1, 6) {
            t.push_str(s.pick(&[" ", "\t", "   "]));
        }
        t.push_str(&code(s, b, 2));
        t.push(if loose && s.chance(1, 6) { ' ' } else { '\t' });
        t.push_str(&code(s, u, 4));
        if s.chance(3, 4) {
            t.push_str("\t#\tNAME OF THE CHARACTER 0xA5 0x4321");
        }
        if loose && s.chance(1, 6) {
            t.push_str("  ");
        }
        t.push_str(end);
    }
    if t.ends_with('\n') && s.chance(1, 4) {
        t.truncate(t.trim_end_matches(['\r', '\n']).len());
    }
    (t, values)
}

fn directory(s: &mut Src) -> R {
    let dir = Scratch::new();
    let data = dir.0.join("data");
    std::fs::create_dir(&data).expect("scratch directory");
    let mut parts: Vec<usize> = Vec::new();
    for _ in 0..s.size(0, 5) {
        let i = s.uni(0, 14) as usize;
        if !parts.contains(&i) {
            parts.push(i);
        }
    }
    if s.chance(1, 10) {
        parts = (0..15).collect();
    }
    let mut want: Vec<Part> = Vec::new();
    for &i in &parts {
        let (text, values) = gen_file(s);
        let name = format!("8859-{}{}", PARTS[i].0, s.pick(&[".TXT", ".TXT", ".txt", ""]));
        s.note(|| format!("{}: {:?}", name, text));
        std::fs::write(data.join(name), text).expect("scratch file");
        if values.iter().any(|&v| v != 0) {
            s.hit("mapping");
        }
        want.push((i, values));
    }
    if s.chance(1, 6) {
        std::fs::write(data.join(".8859-3.TXT"), "0xA0\t0x0001\n").expect("scratch file");
        s.label("hidden file");
    }
    if parts.len() > 1 {
        s.label("several files");
    }
    want.sort_by_key(|p| p.0);
    match run_in(&dir.0, generator()) {
        Ok(text) => compare(&text, &want),
        Err(e) => Err(Fail::Viol(format!("the generator fails: {}", e))),
    }
}

/// the published mappings give the tables the library decodes with, and the output compiles
fn published(s: &mut Src) -> R {
    let which = s.uni(0, 15) as usize;
    s.hit("published mapping");
    let dir = Scratch::new();
    let data = dir.0.join("data");
    std::fs::create_dir(&data).expect("scratch directory");
    let mut want: Vec<Part> = Vec::new();
    for (i, (part, _)) in PARTS.iter().enumerate() {
        if *part == 16 || which < 15 && which != i {
            continue;
        }
        let values = table(*part).to_vec();
        let mut text = String::from("#\n#\tName:\tISO/IEC 8859 to Unicode\n#\n\n");
        for b in 0..=255u32 {
            let u = if b < 0xA0 { b } else { u32::from(values[b as usize - 0xA0]) };
            if b < 0xA0 || u != 0 {
                text.push_str(&format!("0x{:02X}\t0x{:04X}\t#\tNAME\n", b, u));
            }
        }
        std::fs::write(data.join(format!("8859-{}.TXT", part)), text).expect("scratch file");
        want.push((i, values));
    }
    let text = match run_in(&dir.0, generator()) {
        Ok(t) => t,
        Err(e) => return Err(Fail::Viol(format!("the generator fails: {}", e))),
    };
    compare(&text, &want)?;
    for t in tables(&text).map_err(Fail::Viol)? {
        let part: u8 = t.name.rsplit('_').next().and_then(|x| x.parse().ok()).unwrap_or(0);
        for (k, v) in t.values.iter().enumerate() {
            let b = 0xA0 + k as u8;
            let mut w = crate::refimpl::text::selector(part);
            w.push(b);
            let c = if *v == 0 { '?' } else { char::from_u32(*v).unwrap_or('\u{FFFD}') };
            ensure_eq!(StringDVB::from(w.as_slice()).to_string(), c.to_string(), "byte {:02x} of part {} in the library", b, part);
        }
    }
    if which == 15 {
        std::fs::write(dir.0.join("t.rs"), &text).expect("scratch file");
        let mut c = Command::new("rustc");
        c.args(["--crate-type", "lib", "--emit", "metadata", "-o", "t.rmeta", "t.rs"]);
        if let Err(e) = run_in(&dir.0, c) {
            return Err(Fail::Viol(format!("the generated source does not compile: {}", e)));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C38",
        rule: "A case is a directory of mapping files on which the generator program is run, or the published mapping of one part or of all; non-trivial when a file maps a byte from 0xA0.",
        terminates: false,
        facets: vec![enumerate("published", published, 16), random("directories", directory, 20_000, 250_000)],
        assumptions: &["files are named after a part of ISO 8859 and map each byte at most once, the two codes being separated by one blank"],
    }]
}

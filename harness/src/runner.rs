//! Runs the facets of a property, watches for hangs, writes evidence and replay files.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

use crate::engine::*;

pub enum Kind {
    /// number of cases in the quick and the thorough tier
    Random(u64, u64),
    /// every index 0..n, drawn by the facet as its first choice
    Enumerate(u64),
}

pub struct Facet {
    pub name: &'static str,
    pub f: fn(&mut Src) -> R,
    pub kind: Kind,
}

pub fn random(name: &'static str, f: fn(&mut Src) -> R, quick: u64, thorough: u64) -> Facet {
    Facet { name, f, kind: Kind::Random(quick, thorough) }
}

pub fn enumerate(name: &'static str, f: fn(&mut Src) -> R, n: u64) -> Facet {
    Facet { name, f, kind: Kind::Enumerate(n) }
}

pub struct Prop {
    pub id: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    /// the statement promises termination and bounded memory
    pub terminates: bool,
    pub facets: Vec<Facet>,
    pub assumptions: &'static [&'static str],
}

pub const SHARDS: u64 = 8;
const CPU_LIMIT: f64 = 30.0;
/// one guided case for so many random ones
const GUIDED: u64 = 2;
/// index in a replay file whose tape goes on with random choices
const CONTINUED: u64 = u64::MAX;

struct Slot {
    seq: AtomicU64,
    index: AtomicU64,
    thread: AtomicUsize,
    oom: AtomicBool,
    crash: AtomicBool,
}

#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot {
    seq: AtomicU64::new(0),
    index: AtomicU64::new(0),
    thread: AtomicUsize::new(0),
    oom: AtomicBool::new(false),
    crash: AtomicBool::new(false),
};
static SLOTS: [Slot; SHARDS as usize + 1] = [SLOT0; SHARDS as usize + 1];

thread_local! {
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

/// called by the allocator in the thread that exceeded the limit
pub fn oom() {
    let s = SLOT.with(|s| s.get());
    if s != usize::MAX {
        SLOTS[s].oom.store(true, SeqCst);
    }
}

/// a signal that would end the process: the thread stays here, the main thread reports
extern "C" fn crashed(_: i32) {
    let s = SLOT.with(|s| s.get());
    if s == usize::MAX {
        unsafe { _exit(4) };
    }
    SLOTS[s].crash.store(true, SeqCst);
    loop {
        unsafe { pause() };
    }
}

/// stack overflows, aborts and invalid accesses inside a case
pub fn watch_crashes() {
    #[repr(C)]
    struct Action {
        handler: extern "C" fn(i32),
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    const SA_ONSTACK: i32 = 0x0800_0000;
    extern "C" {
        fn sigaction(signal: i32, new: *const Action, old: *mut Action) -> i32;
    }
    let a = Action { handler: crashed, mask: [0; 16], flags: SA_ONSTACK, restorer: 0 };
    for signal in [4, 6, 7, 8, 11] {
        unsafe { sigaction(signal, &a, std::ptr::null_mut()) };
    }
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn _exit(code: i32) -> !;
    fn pause() -> i32;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, id: *mut i32) -> i32;
    fn clock_gettime(id: i32, ts: *mut Timespec) -> i32;
}

fn cpu_time(thread: usize) -> f64 {
    unsafe {
        let mut id = 0;
        if pthread_getcpuclockid(thread, &mut id) != 0 {
            return 0.0;
        }
        let mut ts = Timespec { sec: 0, nsec: 0 };
        if clock_gettime(id, &mut ts) != 0 {
            return 0.0;
        }
        ts.sec as f64 + ts.nsec as f64 * 1e-9
    }
}

#[derive(Default)]
struct ShardOut {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    sample_idx: Vec<u64>,
    known: BTreeMap<&'static str, (u64, String)>,
    fail: Option<(u64, Vec<u64>, String)>,
}

pub fn case_seed(seed: u64, prop: &str, facet: &str, index: u64) -> u64 {
    hash64(&[seed, hash_str(prop), hash_str(facet), index])
}

fn make_src(kind: &Kind, seed: u64, prop: &str, facet: &str, index: u64) -> Src {
    match kind {
        Kind::Random(..) => Src::random(case_seed(seed, prop, facet, index)),
        Kind::Enumerate(_) => Src::replay(vec![index]),
    }
}

pub enum Stuck {
    Cpu(u64),
    Oom(u64),
    Crash(u64),
}

impl Stuck {
    pub fn parts(&self) -> (&'static str, u64) {
        match *self {
            Stuck::Cpu(i) => ("cpu", i),
            Stuck::Oom(i) => ("oom", i),
            Stuck::Crash(i) => ("crash", i),
        }
    }
}

/// description, and whether this is a violation
fn stuck_what(what: &str, prop: &Prop) -> (&'static str, bool) {
    match what {
        "oom" => ("case allocates more than 1 GiB", prop.terminates),
        "cpu" => ("case does not terminate (30 s of CPU time)", prop.terminates),
        _ => ("case crashes the process", true),
    }
}

/// waits for n messages while watching the slots
pub fn wait_all<T>(rx: &mpsc::Receiver<T>, n: usize, out: &mut Vec<T>) -> Result<(), Stuck> {
    let mut seen: Vec<(u64, f64)> = SLOTS.iter().map(|_| (u64::MAX, 0.0)).collect();
    while out.len() < n {
        match rx.recv_timeout(Duration::from_millis(250)) {
            Ok(x) => out.push(x),
            Err(mpsc::RecvTimeoutError::Timeout) => {
                for (i, s) in SLOTS.iter().enumerate() {
                    if s.crash.swap(false, SeqCst) {
                        return Err(Stuck::Crash(s.index.load(SeqCst)));
                    }
                    if s.oom.swap(false, SeqCst) {
                        return Err(Stuck::Oom(s.index.load(SeqCst)));
                    }
                    let th = s.thread.load(SeqCst);
                    if th == 0 {
                        continue;
                    }
                    let seq = s.seq.load(SeqCst);
                    let t = cpu_time(th);
                    if seen[i].0 != seq {
                        seen[i] = (seq, t);
                    } else if t - seen[i].1 > CPU_LIMIT {
                        return Err(Stuck::Cpu(s.index.load(SeqCst)));
                    }
                }
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => panic!("worker died"),
        }
    }
    Ok(())
}

pub fn enter_slot(i: usize) {
    SLOT.with(|s| s.set(i));
    SLOTS[i].thread.store(unsafe { pthread_self() }, SeqCst);
}

pub fn leave_slot(i: usize) {
    SLOTS[i].thread.store(0, SeqCst);
}

pub fn mark(i: usize, index: u64) {
    SLOTS[i].index.store(index, SeqCst);
    SLOTS[i].seq.fetch_add(1, SeqCst);
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7F..0xA0).contains(&(c as u32)) || c as u32 == 0xFFFE || c as u32 == 0xFFFF => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str(" ...");
        t
    }
}

pub struct Outcome {
    pub violated: bool,
    pub error: bool,
}

/// known findings: (signature, text)
pub fn known_findings(prop: &str) -> Vec<(String, String)> {
    let text = include_str!("../../known_findings.txt");
    let mut v = Vec::new();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("").to_string();
            let sig = it.next().unwrap_or("").strip_prefix("sig=").unwrap_or("").to_string();
            let t = it.next().unwrap_or("").to_string();
            if p == prop {
                v.push((sig, t));
            }
        }
    }
    v
}

fn write_replay(dir: &str, prop: &str, facet: &str, seed: u64, index: u64, tape: Option<&[u64]>, msg: &str, notes: &[String]) -> String {
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{}/{}-{}.json", dir, prop, facet);
    let mut o = String::new();
    let _ = writeln!(o, "{{\n \"property\": {},\n \"facet\": {},\n \"seed\": {},\n \"index\": {},", json_str(prop), json_str(facet), seed, index);
    match tape {
        Some(t) => {
            let list: Vec<String> = t.iter().map(|x| x.to_string()).collect();
            let _ = writeln!(o, " \"tape\": [{}],", list.join(","));
        }
        None => {
            let _ = writeln!(o, " \"tape\": null,");
        }
    }
    let _ = writeln!(o, " \"message\": {},", json_str(msg));
    let list: Vec<String> = notes.iter().map(|x| format!("  {}", json_str(x))).collect();
    let _ = writeln!(o, " \"case\": [\n{}\n ]\n}}", list.join(",\n"));
    std::fs::write(&path, o).expect("write replay file");
    path
}

/// what the coverage-guided search of a facet found
struct Guided {
    cases: u64,
    nontrivial: u64,
    corpus: u64,
    features: u64,
    fail: Option<Vec<u64>>,
    stuck: Option<(String, Vec<u64>)>,
}

/// the coverage-guided search runs in the binary with the instrumented library
fn guided(prop: &str, facet: &str, seed: u64, cases: u64) -> Result<Option<Guided>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let Some(exe) = exe.parent().and_then(|d| d.parent()).map(|d| d.join("guided/release/harness")) else { return Ok(None) };
    if !exe.exists() {
        return Ok(None);
    }
    let o = std::process::Command::new(&exe)
        .args(["guided", prop, facet, &seed.to_string(), &cases.to_string()])
        .stderr(std::process::Stdio::inherit())
        .output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("guided search: {}", o.status));
    }
    let mut g = Guided { cases: 0, nontrivial: 0, corpus: 0, features: 0, fail: None, stuck: None };
    let tape = |t: &str| -> Vec<u64> { t.split(',').filter_map(|x| x.parse().ok()).collect() };
    let mut any = false;
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "stats" if w.len() == 5 => {
                let v: Vec<u64> = w[1..].iter().map(|x| x.parse().unwrap_or(0)).collect();
                (g.cases, g.nontrivial, g.corpus, g.features) = (v[0], v[1], v[2], v[3]);
                any = true;
            }
            "fail" => g.fail = Some(tape(w.get(1).unwrap_or(&""))),
            "stuck" if w.len() >= 2 => {
                g.stuck = Some((w[1].to_string(), tape(w.get(2).unwrap_or(&""))));
                any = true;
            }
            _ => {}
        }
    }
    if !any {
        return Err("guided search: no result".into());
    }
    Ok(Some(g))
}

pub fn run(prop: &Prop, tier: &str, seed: u64, only: Option<&str>, evidence: &str, replay_dir: &str) -> Outcome {
    let t0 = Instant::now();
    let _ = dict();
    let mut evaluations = 0u64;
    let mut nontrivial = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut per_facet: Vec<String> = Vec::new();
    let mut violation: Option<(String, String, String)> = None;
    let mut error: Option<String> = None;
    let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let known = known_findings(prop.id);

    for facet in &prop.facets {
        if let Some(o) = only {
            if o != facet.name {
                continue;
            }
        }
        let ft = Instant::now();
        let n = match facet.kind {
            Kind::Random(q, t) => if tier == "thorough" { t } else { q },
            Kind::Enumerate(n) => n,
        };
        let best = Arc::new(AtomicU64::new(u64::MAX));
        let (tx, rx) = mpsc::channel::<ShardOut>();
        for shard in 0..SHARDS {
            let tx = tx.clone();
            let best = best.clone();
            let f = facet.f;
            let name = facet.name;
            let id = prop.id;
            let is_enum = matches!(facet.kind, Kind::Enumerate(_));
            let known_sigs: Vec<String> = known.iter().map(|k| k.0.clone()).collect();
            std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                let slot = shard as usize;
                enter_slot(slot);
                let mut out = ShardOut::default();
                let kind = if is_enum { Kind::Enumerate(n) } else { Kind::Random(n, n) };
                let mut i = shard;
                while i < n && i < best.load(SeqCst) {
                    mark(slot, i);
                    let mut s = make_src(&kind, seed, id, name, i);
                    let r = run_case(f, &mut s);
                    out.evaluations += 1;
                    for l in &s.labels {
                        *out.labels.entry(l).or_insert(0) += 1;
                    }
                    if s.nontrivial {
                        out.nontrivial.insert(s.tape_hash());
                        if out.sample_idx.len() < 2 {
                            out.sample_idx.push(i);
                        }
                    }
                    match r {
                        Ok(()) => {}
                        Err(Fail::Known(sig, msg)) if known_sigs.iter().any(|k| k == sig) => {
                            let e = out.known.entry(sig).or_insert((0, msg));
                            e.0 += 1;
                        }
                        Err(Fail::Known(_, msg)) | Err(Fail::Viol(msg)) => {
                            best.fetch_min(i, SeqCst);
                            out.fail = Some((i, s.consumed(), msg));
                            break;
                        }
                    }
                    i += SHARDS;
                }
                leave_slot(slot);
                let _ = tx.send(out);
            }).unwrap();
        }
        let mut outs = Vec::new();
        if let Err(st) = wait_all(&rx, SHARDS as usize, &mut outs) {
            best.store(0, SeqCst);
            let (what, idx) = st.parts();
            let (what, counts) = stuck_what(what, prop);
            evaluations += outs.iter().map(|o| o.evaluations).sum::<u64>() + 1;
            nontrivial += outs.iter().map(|o| o.nontrivial.len() as u64).sum::<u64>();
            if counts {
                let p = write_replay(replay_dir, prop.id, facet.name, seed, idx, None, what, &[]);
                violation = Some((facet.name.to_string(), what.to_string(), p));
                break;
            }
            error = Some(format!("facet {} index {}: {}", facet.name, idx, what));
            // a violation in another facet says more
            continue;
        }

        let mut distinct: HashSet<u64> = HashSet::new();
        let mut fails: Vec<(u64, Vec<u64>, String)> = Vec::new();
        let mut idx: Vec<u64> = Vec::new();
        let mut ev = 0;
        for o in outs {
            ev += o.evaluations;
            distinct.extend(o.nontrivial);
            for (l, c) in o.labels {
                *labels.entry(format!("{}/{}", facet.name, l)).or_insert(0) += c;
            }
            idx.extend(o.sample_idx);
            fails.extend(o.fail);
            for (sig, (c, m)) in o.known {
                let e = known_hits.entry(sig.to_string()).or_insert((0, m));
                e.0 += c;
            }
        }
        evaluations += ev;
        nontrivial += distinct.len() as u64;
        idx.sort_unstable();
        for &i in idx.iter().take(2) {
            let mut s = make_src(&facet.kind, seed, prop.id, facet.name, i);
            s.verbose = true;
            let r = run_case(facet.f, &mut s);
            if matches!(r, Ok(())) {
                samples.push(format!("{} #{}: {}", facet.name, i, clip(&s.notes.join("; "), 700)));
            }
        }
        per_facet.push(format!("{{\"facet\": {}, \"cases\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {:.2}}}",
            json_str(facet.name), ev, distinct.len(), ft.elapsed().as_secs_f64()));
        eprintln!("[{}] {}: {} cases, {} non-trivial, {:.1}s", prop.id, facet.name, ev, distinct.len(), ft.elapsed().as_secs_f64());

        fails.sort();
        if let Some((i, tape, msg)) = fails.into_iter().next() {
            let (tape, msg, notes) = shrink_case(facet.f, tape, msg, i);
            let p = write_replay(replay_dir, prop.id, facet.name, seed, i, Some(&tape), &msg, &notes);
            violation = Some((facet.name.to_string(), msg, p));
            break;
        }

        let cases = match facet.kind {
            Kind::Random(..) => n / GUIDED,
            Kind::Enumerate(_) => 0,
        };
        if cases == 0 {
            continue;
        }
        let ft = Instant::now();
        match guided(prop.id, facet.name, seed, cases) {
            Ok(None) => {}
            Ok(Some(g)) => {
                evaluations += g.cases;
                per_facet.push(format!("{{\"facet\": {}, \"guided\": true, \"cases\": {}, \"distinct_nontrivial\": {}, \"corpus\": {}, \"features\": {}, \"wall_s\": {:.2}}}",
                    json_str(facet.name), g.cases, g.nontrivial, g.corpus, g.features, ft.elapsed().as_secs_f64()));
                eprintln!("[{}] {} guided: {} cases, {} non-trivial, corpus {}, {} features, {:.1}s", prop.id, facet.name, g.cases, g.nontrivial, g.corpus, g.features, ft.elapsed().as_secs_f64());
                if let Some((what, tape)) = g.stuck {
                    // the plain build is what counts
                    let Err(st) = watched(facet.f, Src::continued(tape.clone())) else {
                        eprintln!("[{}] {} guided: {} does not repeat without instrumentation", prop.id, facet.name, what);
                        continue;
                    };
                    let (what, counts) = stuck_what(st.parts().0, prop);
                    if counts {
                        let p = write_replay(replay_dir, prop.id, facet.name, seed, CONTINUED, Some(&tape), what, &[]);
                        violation = Some((facet.name.to_string(), what.to_string(), p));
                        break;
                    }
                    error = Some(format!("facet {} guided: {}", facet.name, what));
                    continue;
                }
                if let Some(tape) = g.fail {
                    let mut s = Src::replay(tape.clone());
                    match run_case(facet.f, &mut s) {
                        Err(Fail::Viol(msg)) | Err(Fail::Known(_, msg)) => {
                            let (tape, msg, notes) = shrink_case(facet.f, tape, msg, 0);
                            let p = write_replay(replay_dir, prop.id, facet.name, seed, 0, Some(&tape), &msg, &notes);
                            violation = Some((facet.name.to_string(), msg, p));
                        }
                        // the plain build is what counts
                        Ok(()) => {
                            eprintln!("[{}] {} guided: a failure does not repeat without instrumentation", prop.id, facet.name);
                            continue;
                        }
                    }
                    break;
                }
            }
            // the search only adds to the cases above
            Err(e) => {
                eprintln!("[{}] {} {}", prop.id, facet.name, e);
                per_facet.push(format!("{{\"facet\": {}, \"guided\": true, \"cases\": 0, \"error\": {}}}", json_str(facet.name), json_str(&e)));
            }
        }
    }

    // evidence
    let mut o = String::new();
    let _ = writeln!(o, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",", json_str(prop.id), json_str(tier), seed);
    let _ = writeln!(o, " \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},", evaluations, nontrivial, json_str(prop.rule));
    let all_enum = prop.facets.iter().all(|f| matches!(f.kind, Kind::Enumerate(_)));
    let _ = writeln!(o, "  \"exhaustive\": {},", all_enum && violation.is_none() && error.is_none());
    let _ = writeln!(o, "  \"facets\": [\n   {}\n  ],", per_facet.join(",\n   "));
    let l: Vec<String> = labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let _ = writeln!(o, "  \"classes\": {{{}}},", l.join(", "));
    let s: Vec<String> = samples.iter().map(|x| json_str(x)).collect();
    let _ = writeln!(o, "  \"samples\": [\n   {}\n  ]\n }},", s.join(",\n   "));
    let kh: Vec<String> = known_hits.iter().map(|(k, v)| format!("{}: {}", json_str(k), v.0)).collect();
    let _ = writeln!(o, " \"known_findings_met\": {{{}}},", kh.join(", "));
    let a: Vec<String> = prop.assumptions.iter().map(|x| json_str(x)).collect();
    let _ = writeln!(o, " \"assumptions\": [{}],", a.join(", "));
    let _ = writeln!(o, " \"violations\": {},\n \"wall_s\": {:.2}\n}}", u32::from(violation.is_some()), t0.elapsed().as_secs_f64());
    if let Some(d) = std::path::Path::new(evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if let Err(e) = std::fs::write(evidence, o) {
        error = Some(format!("cannot write {}: {}", evidence, e));
    }

    for (sig, (c, m)) in &known_hits {
        let text = known.iter().find(|k| &k.0 == sig).map_or("", |k| k.1.as_str());
        println!("KNOWN-FINDING: property={} {} [{} cases, e.g. {}]", prop.id, text, c, clip(m, 200));
    }
    match violation {
        None if error.is_some() => {
            println!("ERROR property={} {}", prop.id, error.unwrap());
            Outcome { violated: false, error: true }
        }
        Some((facet, msg, path)) => {
            println!("facet {}: {}", facet, clip(&msg, 2000));
            println!("VIOLATION property={} replay={}", prop.id, path);
            Outcome { violated: true, error: false }
        }
        None => {
            println!("OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s", prop.id, evaluations, nontrivial, t0.elapsed().as_secs_f64());
            Outcome { violated: false, error: false }
        }
    }
}

/// runs one case in a watched thread
fn watched(f: fn(&mut Src) -> R, mut s: Src) -> Result<(R, Vec<String>), Stuck> {
    let (tx, rx) = mpsc::channel();
    std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        enter_slot(0);
        mark(0, 0);
        let r = run_case(f, &mut s);
        leave_slot(0);
        let _ = tx.send((r, s.notes));
    }).unwrap();
    let mut out = Vec::new();
    wait_all(&rx, 1, &mut out)?;
    Ok(out.pop().unwrap())
}

/// shrinks in a watched thread and describes the result
fn shrink_case(f: fn(&mut Src) -> R, tape: Vec<u64>, msg: String, index: u64) -> (Vec<u64>, String, Vec<String>) {
    let best: Arc<Mutex<(Vec<u64>, String)>> = Arc::new(Mutex::new((tape.clone(), msg)));
    let (tx, rx) = mpsc::channel::<()>();
    {
        let best = best.clone();
        std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let slot = SHARDS as usize;
            enter_slot(slot);
            let t0 = Instant::now();
            shrink(tape, |t| {
                if t0.elapsed() > Duration::from_secs(60) {
                    return None;
                }
                mark(slot, index);
                let mut s = Src::replay(t.to_vec());
                match run_case(f, &mut s) {
                    Err(Fail::Viol(m)) => {
                        let c = s.consumed();
                        let mut b = best.lock().unwrap();
                        if (c.len(), &c) < (b.0.len(), &b.0) {
                            *b = (c.clone(), m.clone());
                        }
                        Some((c, m))
                    }
                    _ => None,
                }
            }, 20_000);
            leave_slot(slot);
            let _ = tx.send(());
        }).unwrap();
    }
    let mut done = Vec::new();
    let stuck = wait_all(&rx, 1, &mut done).is_err();
    let (t, m) = best.lock().unwrap().clone();
    let mut notes = Vec::new();
    if !stuck {
        let mut s = Src::replay(t.clone());
        s.verbose = true;
        let _ = run_case(f, &mut s);
        notes = s.notes;
    }
    (t, m, notes)
}

fn field<'a>(text: &'a str, key: &str) -> Option<&'a str> {
    let k = format!("\"{}\":", key);
    let p = text.find(&k)? + k.len();
    Some(text[p..].trim_start())
}

/// runs a replay file again; true if it still fails
pub fn replay(props: &[Prop], path: &str) -> Result<bool, String> {
    let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    let strf = |k: &str| -> Result<String, String> {
        let v = field(&text, k).ok_or(format!("no {}", k))?;
        let v = v.strip_prefix('"').ok_or("not a string")?;
        Ok(v[..v.find('"').ok_or("bad string")?].to_string())
    };
    let numf = |k: &str| -> Result<u64, String> {
        let v = field(&text, k).ok_or(format!("no {}", k))?;
        let e = v.find(|c: char| !c.is_ascii_digit()).unwrap_or(v.len());
        v[..e].parse().map_err(|_| format!("bad {}", k))
    };
    let id = strf("property")?;
    let fname = strf("facet")?;
    let prop = props.iter().find(|p| p.id == id).ok_or("unknown property")?;
    let facet = prop.facets.iter().find(|f| f.name == fname).ok_or("unknown facet")?;
    let tape = field(&text, "tape").ok_or("no tape")?;
    let mut s = if let Some(t) = tape.strip_prefix('[') {
        let e = t.find(']').ok_or("bad tape")?;
        let v: Result<Vec<u64>, _> = t[..e].split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse::<u64>()).collect();
        let v = v.map_err(|e| e.to_string())?;
        if numf("index")? == CONTINUED { Src::continued(v) } else { Src::replay(v) }
    } else {
        make_src(&facet.kind, numf("seed")?, prop.id, facet.name, numf("index")?)
    };
    s.verbose = true;
    match watched(facet.f, s) {
        Err(st) => {
            println!("{}", stuck_what(st.parts().0, prop).0);
            println!("VIOLATION property={} replay={}", id, path);
            Ok(true)
        }
        Ok((r, notes)) => {
            for n in notes {
                println!("  {}", n);
            }
            match r {
                Ok(()) => {
                    println!("holds on this case");
                    Ok(false)
                }
                Err(Fail::Viol(m)) | Err(Fail::Known(_, m)) => {
                    println!("{}", m);
                    println!("VIOLATION property={} replay={}", id, path);
                    Ok(true)
                }
            }
        }
    }
}

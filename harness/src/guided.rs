//! Coverage-guided search over choice tapes, run as a child process with the instrumented library.
//!
//! The work is divided into rounds. In a round every shard mutates tapes of the common corpus on its
//! own; after it, what the shards found is merged in the order of the shards, so that the result
//! depends on the seed only.

use std::collections::{BTreeMap, HashSet};
use std::sync::{mpsc, Arc, Mutex};

use crate::cov;
use crate::engine::*;
use crate::runner::*;

const ROUNDS: u64 = 24;
const MAX_TAPE: usize = 6000;

struct Seen(Vec<u64>);

impl Seen {
    fn add(&mut self, f: u32) -> bool {
        let w = &mut self.0[f as usize / 64];
        let new = *w >> (f % 64) & 1 == 0;
        *w |= 1 << (f % 64);
        new
    }

    fn has(&self, f: u32) -> bool {
        self.0[f as usize / 64] >> (f % 64) & 1 == 1
    }
}

#[derive(Clone)]
struct Kept {
    tape: Arc<Vec<C>>,
    /// operands of comparisons that differed
    pairs: Arc<Vec<P>>,
    work: u64,
}

struct Entry {
    kept: Kept,
    feats: Vec<u32>,
    near: Vec<(u32, u32)>,
    /// reached a new edge or edge count, not only nearer operands
    edge: bool,
}

struct Common {
    corpus: Vec<Kept>,
    /// mean work of a random case
    mean: u64,
    edges: Vec<usize>,
    /// comparisons whose operands never were equal: how near they came and by which tape
    open: BTreeMap<u32, (u32, usize)>,
    seen: Vec<u64>,
    used: Vec<u32>,
    picked: Vec<u32>,
}

#[derive(Default)]
struct Out {
    shard: u64,
    cases: u64,
    work: u64,
    nontrivial: HashSet<u64>,
    found: Vec<Entry>,
    used: Vec<u32>,
    picked: Vec<u32>,
    fail: Option<Vec<u64>>,
}

static CURRENT: [Mutex<Vec<u64>>; SHARDS as usize] = [const { Mutex::new(Vec::new()) }; SHARDS as usize];

/// a choice and its largest value
type C = (u64, u64);

/// operands that differed and the comparison
type P = (u64, u64, u32);

/// what a shard knows about features and comparisons
struct Known {
    seen: Seen,
    /// how often operands of a comparison were used, and its nearest tape
    used: Vec<u32>,
    picked: Vec<u32>,
    /// the comparison for whose sake the tape was picked
    aim: Option<u32>,
}

/// operands, mostly of a comparison whose operands never were equal, preferably one seldom used
fn pair(r: &mut Rng, pairs: &[P], k: &mut Known) -> (u64, u64) {
    if pairs.is_empty() {
        return (0, 0);
    }
    if let Some(aim) = k.aim.filter(|_| r.upto(1) == 0) {
        let at = r.upto(pairs.len() as u64 - 1) as usize;
        if let Some(p) = pairs[at..].iter().chain(&pairs[..at]).find(|p| p.2 == aim) {
            return if r.upto(1) == 0 { (p.0, p.1) } else { (p.1, p.0) };
        }
    }
    let any = r.upto(7) == 0;
    let mut best: Option<P> = None;
    for _ in 0..8 {
        let p = pairs[r.upto(pairs.len() as u64 - 1) as usize];
        if (any || !k.seen.has(cov::equal(p.2))) && best.map_or(true, |b| k.used[p.2 as usize] < k.used[b.2 as usize]) {
            best = Some(p);
        }
    }
    let Some((a, b, site)) = best else { return (0, 0) };
    k.used[site as usize] += 1;
    if r.upto(1) == 0 { (a, b) } else { (b, a) }
}

fn value(r: &mut Rng, old: C, tape: &[C], pairs: &[P], k: &mut Known) -> C {
    let (v, max) = old;
    let new = match r.upto(12) {
        0 | 1 => {
            let d = 1 + r.upto(3);
            if r.upto(1) == 0 { v.saturating_add(d) } else { v.saturating_sub(d) }
        }
        2 => {
            let n = 64 - u64::from(max.leading_zeros());
            v ^ 1 << r.upto(n.max(1) - 1)
        }
        3 => {
            // moved by as much as a comparison lacked
            let (a, b) = pair(r, pairs, k);
            let by = *[1, 1, 1, 2, 4, 6, 8, 10, 60, 100, 256].get(r.upto(10) as usize).unwrap();
            v.wrapping_add(((b.wrapping_sub(a)) as i64 / by) as u64)
        }
        4 => tape[r.upto(tape.len() as u64 - 1) as usize].0,
        5 => {
            // as large a choice elsewhere, so that equal values meet
            let i = r.upto(tape.len() as u64 - 1) as usize;
            tape[i..].iter().chain(&tape[..i]).find(|c| c.1 == max).map_or(0, |c| c.0)
        }
        _ => biased(r, 0, max),
    };
    (new.min(max), max)
}

fn range(r: &mut Rng, n: usize) -> (usize, usize) {
    let k = if r.upto(3) == 0 { r.upto(n as u64 - 1) } else { r.upto((n as u64 - 1).min(8)) } as usize + 1;
    let a = r.upto((n - k) as u64) as usize;
    (a, a + k)
}

fn mutate(r: &mut Rng, tape: &[C], pairs: &[P], other: &[C], k: &mut Known) -> Vec<C> {
    let mut t = tape.to_vec();
    for _ in 0..1 << r.upto(3).min(r.upto(3)) {
        if t.is_empty() {
            break;
        }
        let n = t.len();
        let op = if k.aim.is_some() && r.upto(3) == 0 { 10 } else { r.upto(19) };
        match op {
            0..=9 => {
                let i = r.upto(n as u64 - 1) as usize;
                t[i] = value(r, t[i], tape, pairs, k);
            }
            10 | 11 => {
                // operand of a comparison in place of the other one
                let (a, b) = pair(r, pairs, k);
                let at: Vec<usize> = (0..n).filter(|&i| t[i].0 == a).collect();
                if !at.is_empty() {
                    let i = at[r.upto(at.len() as u64 - 1) as usize];
                    let b = match r.upto(5) {
                        0 => b.wrapping_add(1),
                        1 => b.wrapping_sub(1),
                        _ => b,
                    };
                    t[i].0 = b.min(t[i].1);
                }
            }
            12 => {
                let (a, b) = range(r, n);
                t.drain(a..b);
            }
            13 | 14 => {
                let (a, b) = range(r, n);
                let part = t[a..b].to_vec();
                let at = if r.upto(1) == 0 { b } else { r.upto(n as u64) as usize };
                t.splice(at..at, part);
            }
            15 if !other.is_empty() => {
                let i = r.upto(n as u64) as usize;
                let j = if r.upto(1) == 0 { i.min(other.len()) } else { r.upto(other.len() as u64) as usize };
                t.truncate(i);
                t.extend_from_slice(&other[j..]);
            }
            16 if !other.is_empty() => {
                let (a, b) = range(r, other.len());
                if r.upto(1) == 0 {
                    for i in a..b.min(n) {
                        t[i] = other[i];
                    }
                } else {
                    let at = r.upto(n as u64) as usize;
                    t.splice(at..at, other[a..b].to_vec());
                }
            }
            17 => {
                let at = r.upto(n as u64) as usize;
                t.truncate(at);
            }
            _ => {
                // all choices of a stretch anew
                let (a, b) = range(r, n);
                for c in &mut t[a..b] {
                    c.0 = biased(r, 0, c.1);
                }
            }
        }
        t.truncate(MAX_TAPE);
    }
    t
}

/// measure of the time a case takes that is the same in every run
fn work(s: &Src) -> u64 {
    200 + cov::calls() + 4 * s.len() as u64 + crate::alloc::allocated() / 16
}

fn shard(common: &Common, f: fn(&mut Src) -> R, known: &[String], shard: u64, seed: u64, n: u64) -> Out {
    let slot = shard as usize;
    let mut out = Out { shard, ..Out::default() };
    let mut r = Rng::new(seed);
    let mut k = Known { seen: Seen(common.seen.clone()), used: common.used.clone(), picked: common.picked.clone(), aim: None };
    let open: Vec<(u32, usize)> = common.open.iter().map(|x| (*x.0, x.1.1)).collect();
    let most = if common.corpus.is_empty() { n } else { 8 * n };
    while out.cases < most && out.work < n * common.mean {
        let total = common.corpus.len() + out.found.len();
        let get = |i: usize| -> &Kept {
            if i < common.corpus.len() { &common.corpus[i] } else { &out.found[i - common.corpus.len()].kept }
        };
        let mut s = if common.corpus.is_empty() || r.upto(31) == 0 {
            Src::random(r.next())
        } else {
            let a = loop {
                k.aim = None;
                let i = match r.upto(7) {
                    0 | 1 if !open.is_empty() => {
                        let (site, i) = (0..8).map(|_| open[r.upto(open.len() as u64 - 1) as usize])
                            .min_by_key(|x| k.picked[x.0 as usize]).unwrap();
                        k.picked[site as usize] += 1;
                        k.aim = Some(site);
                        i
                    }
                    2..=4 => {
                        // the later found, the likelier
                        let x = (r.upto(1 << 20) as f64 / (1 << 20) as f64).powi(4);
                        total - 1 - ((total as f64 * x) as usize).min(total - 1)
                    }
                    5 if !common.edges.is_empty() => common.edges[r.upto(common.edges.len() as u64 - 1) as usize],
                    _ => r.upto(total as u64 - 1) as usize,
                };
                // costly cases less often
                let a = get(i);
                if r.upto(a.work) <= common.mean / 4 {
                    break a;
                }
            };
            let b = get(r.upto(total as u64 - 1) as usize);
            let t: Vec<u64> = mutate(&mut r, &a.tape, &a.pairs, &b.tape, &mut k).into_iter().map(|c| c.0).collect();
            let mut c = CURRENT[slot].lock().unwrap();
            c.clear();
            c.extend_from_slice(&t);
            drop(c);
            Src::continued(t)
        };
        mark(slot, shard);
        cov::begin();
        let res = run_case(f, &mut s);
        let mut feats = Vec::new();
        let mut edge = false;
        cov::end(|f| {
            if k.seen.add(f) {
                feats.push(f);
                edge |= cov::is_edge(f);
            }
        });
        out.cases += 1;
        let work = work(&s);
        out.work += work;
        if s.nontrivial {
            out.nontrivial.insert(s.tape_hash());
        }
        match res {
            Ok(()) => {}
            Err(Fail::Known(sig, _)) if known.iter().any(|k| k == sig) => {}
            Err(_) => {
                out.fail = Some(s.consumed());
                break;
            }
        }
        if !feats.is_empty() && s.len() <= MAX_TAPE {
            out.found.push(Entry { kept: Kept { tape: Arc::new(s.made()), pairs: Arc::new(cov::pairs()), work }, near: feats.iter().filter_map(|&f| cov::near(f)).collect(), feats, edge });
        }
    }
    out.used = k.used;
    out.picked = k.picked;
    out
}

/// searches one facet and prints what was found
pub fn run(prop: &Prop, facet: &Facet, seed: u64, budget: u64) {
    let _ = dict();
    let known: Vec<String> = known_findings(prop.id).into_iter().map(|k| k.0).collect();
    let mut common = Common { corpus: Vec::new(), mean: u64::MAX / budget.max(1) / 16, edges: Vec::new(), open: BTreeMap::new(), seen: vec![0; cov::FEATURES / 64], used: vec![0; cov::SITES], picked: vec![0; cov::SITES] };
    // what is prepared on first use must not count as work of a case
    for i in 0..200 {
        let _ = run_case(facet.f, &mut Src::random(hash64(&[seed, i])));
    }
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut cases = 0;
    let mut total = 0;
    let mut features = 0;
    for round in 0..ROUNDS {
        let n = (budget / ROUNDS / SHARDS).max(1);
        let (tx, rx) = mpsc::channel::<Out>();
        let arc = Arc::new(common);
        for sh in 0..SHARDS {
            let (tx, arc, f, known) = (tx.clone(), arc.clone(), facet.f, known.clone());
            let seed = hash64(&[seed, hash_str(prop.id), hash_str(facet.name), 0x6755, round, sh]);
            std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                enter_slot(sh as usize);
                let out = shard(&arc, f, &known, sh, seed, n);
                leave_slot(sh as usize);
                drop(arc);
                let _ = tx.send(out);
            }).unwrap();
        }
        let mut outs = Vec::new();
        if let Err(st) = wait_all(&rx, SHARDS as usize, &mut outs) {
            let (what, sh) = st.parts();
            let t = CURRENT[sh as usize].lock().unwrap().clone();
            println!("stuck {} {}", what, list(&t));
            return;
        }
        // the shards drop theirs before they report
        common = Arc::try_unwrap(arc).ok().expect("corpus in use");
        outs.sort_by_key(|o| o.shard);
        let mut seen = Seen(std::mem::take(&mut common.seen));
        let (mut used, mut picked) = (common.used.clone(), common.picked.clone());
        for o in outs {
            cases += o.cases;
            total += o.work;
            nontrivial.extend(o.nontrivial);
            if let Some(t) = o.fail {
                println!("fail {}", list(&t));
                println!("stats {} {} {} {}", cases, nontrivial.len(), common.corpus.len(), features);
                return;
            }
            for i in 0..cov::SITES {
                // the shards began with equal counts
                used[i] += o.used[i] - common.used[i];
                picked[i] += o.picked[i] - common.picked[i];
            }
            for e in o.found {
                let new = e.feats.iter().filter(|&&f| seen.add(f)).count();
                if new > 0 {
                    features += new;
                    for &(site, d) in &e.near {
                        let x = common.open.entry(site).or_insert((u32::MAX, 0));
                        if d < x.0 {
                            *x = (d, common.corpus.len());
                            picked[site as usize] = 0;
                        }
                    }
                    if e.edge {
                        common.edges.push(common.corpus.len());
                    }
                    common.corpus.push(e.kept);
                }
            }
        }
        common.open.retain(|&site, _| !seen.has(cov::equal(site)));
        common.seen = seen.0;
        (common.used, common.picked) = (used, picked);
        // functions compiled into the harness are not instrumented
        if features == 0 {
            break;
        }
        if round == 0 {
            common.mean = total / cases.max(1);
        }
    }
    println!("stats {} {} {} {}", cases, nontrivial.len(), common.corpus.len(), features);
}

fn list(t: &[u64]) -> String {
    t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

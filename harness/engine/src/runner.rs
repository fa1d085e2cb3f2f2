//! Runs the sub-checks of one property: random generation, coverage-guided mutation, shrinking.
use crate::json::{esc, nums};
use crate::rng::{mix, Rng};
use crate::tape::{Dict, Tape};
use crate::{cov, rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::OnceLock;
use std::time::Instant;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    /// The machinery itself is at fault; never reported as a violation.
    pub internal: bool,
}
pub type R = Result<(), Fail>;

impl Fail {
    pub fn new(msg: impl Into<String>) -> Fail {
        Fail { msg: msg.into(), internal: false }
    }
    pub fn internal(msg: impl Into<String>) -> Fail {
        Fail { msg: msg.into(), internal: true }
    }
}

#[derive(Default)]
pub struct Ctx {
    classes: BTreeMap<String, u64>,
    nontrivial: Option<u64>,
    sample: Option<String>,
    want_sample: bool,
    /// Set when the generator produced nothing to judge (counted, not evaluated).
    discarded: bool,
    /// Number of this case among all shards (for enumerations).
    pub index: u64,
}
impl Ctx {
    /// Counts this case under a class shown in the evidence.
    pub fn class(&mut self, name: &str) {
        if let Some(c) = self.classes.get_mut(name) {
            *c += 1;
        } else {
            self.classes.insert(name.to_string(), 1);
        }
    }
    /// Declares this case non-trivial; `h` identifies it among equal ones.
    pub fn nontrivial(&mut self, h: u64) {
        self.nontrivial = Some(h);
    }
    pub fn nontrivial_bytes(&mut self, b: &[u8]) {
        self.nontrivial(rng::hash_bytes(b));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.sample = Some(s);
        }
    }
    pub fn discard(&mut self) {
        self.discarded = true;
    }
}

pub type SubFn = fn(&mut Tape, &mut Ctx) -> R;
pub struct Sub {
    pub name: &'static str,
    pub f: SubFn,
    /// Randomly generated cases of a quick run.
    pub random: u64,
    /// Coverage-guided cases of a quick run.
    pub guided: u64,
}
pub fn sub(name: &'static str, f: SubFn, random: u64, guided: u64) -> Sub {
    Sub { name, f, random, guided }
}

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Calls the code under test; a panic inside it is a violation.
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    let before = IN_LIB.with(|x| x.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|x| x.set(before));
    r.map_err(|_| {
        let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        Fail::new(format!("{} panicked: {}", what, m))
    })
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info);
        PANIC.with(|p| *p.borrow_mut() = Some(s));
    }));
}

/// A case that runs for this many seconds ends the process with this code.
const STUCK_S: u64 = 60;
pub const STUCK: i32 = 97;
static STARTED: AtomicU64 = AtomicU64::new(u64::MAX);
fn clock() -> u64 {
    static T0: OnceLock<Instant> = OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_secs()
}
fn watch() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        if clock().saturating_sub(STARTED.load(Relaxed)) > STUCK_S {
            std::process::exit(STUCK);
        }
    });
}

/// One execution; harness panics become internal failures.
fn exec(f: SubFn, base: &[u64], ext: Option<u64>, dict: &Dict, ctx: &mut Ctx) -> (R, Vec<u64>) {
    let mut t = Tape::new(base, ext, dict);
    STARTED.store(clock(), Relaxed);
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut t, ctx)));
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            IN_LIB.with(|x| x.set(false));
            if m.contains(" at /repo/") {
                // Reached without `lib`, say through a comparison inside a collection.
                Err(Fail::new(format!("the code under test panicked: {}", m)))
            } else {
                Err(Fail::internal(format!("check panicked: {}", m)))
            }
        }
    };
    (r, t.rec)
}

struct Args(BTreeMap<String, String>);
impl Args {
    fn s(&self, k: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| panic!("missing --{}", k))
    }
    fn u(&self, k: &str) -> u64 {
        self.s(k).parse().expect("number")
    }
}

fn shrink(f: SubFn, tape: Vec<u64>, dict: &Dict, limit: u32) -> Vec<u64> {
    let start = std::time::Instant::now();
    let mut evals = 0u32;
    let mut best = tape;
    let fails = |t: &[u64]| -> bool {
        let mut c = Ctx::default();
        matches!(exec(f, t, None, dict, &mut c).0, Err(Fail { internal: false, .. }))
    };
    let out_of_time = |e: &mut u32| {
        *e += 1;
        *e > limit || start.elapsed().as_secs() > 20
    };
    loop {
        let before = best.clone();
        // Drop trailing and inner chunks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len().saturating_sub(size);
            loop {
                if best.is_empty() {
                    break;
                }
                let end = (i + size).min(best.len());
                let mut t = best.clone();
                t.drain(i..end);
                if out_of_time(&mut evals) {
                    return best;
                }
                if fails(&t) {
                    best = t;
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size);
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero chunks, then lower single values.
        for size in [8usize, 4, 2] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[i..end].iter_mut().for_each(|x| *x = 0);
                    if out_of_time(&mut evals) {
                        return best;
                    }
                    if fails(&t) {
                        best = t;
                    }
                }
                i += size;
            }
        }
        for i in 0..best.len() {
            if best[i] == 0 {
                continue;
            }
            let mut lo = 0u64;
            let mut hi = best[i];
            let mut t = best.clone();
            t[i] = 0;
            if out_of_time(&mut evals) {
                return best;
            }
            if fails(&t) {
                best = t;
                continue;
            }
            while hi - lo > 1 {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                if out_of_time(&mut evals) {
                    return best;
                }
                if fails(&t) {
                    best = t;
                    hi = mid;
                } else {
                    lo = mid;
                }
            }
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        if best == before {
            return best;
        }
    }
}

fn mutate(r: &mut Rng, corpus: &[(Vec<u64>, Vec<(u64, u64)>)], dict: &Dict) -> Vec<u64> {
    // Prefer recent entries.
    let n = corpus.len() as u64;
    let i = if r.below(2) == 0 { n - 1 - r.below(n.min(16)) } else { r.below(n) } as usize;
    let (mut t, pairs) = corpus[i].clone();
    let rounds = 1 + r.below(4);
    for _ in 0..rounds {
        if t.is_empty() {
            t.push(r.next());
            continue;
        }
        let k = r.below(t.len() as u64) as usize;
        match r.below(12) {
            0 => t[k] = r.next(),
            1 => t[k] = r.below(32),
            2 => t[k] = t[k].wrapping_add(1),
            3 => t[k] = t[k].wrapping_sub(1),
            4 => {
                let b = crate::tape::BOUNDARIES;
                t[k] = b[r.below(b.len() as u64) as usize];
            }
            5 => {
                t.remove(k);
            }
            6 => {
                let v = t[k];
                t.insert(k, v);
            }
            7 => {
                let e = (k + 1 + r.below(12) as usize).min(t.len());
                let seg: Vec<u64> = t[k..e].to_vec();
                let at = r.below(t.len() as u64 + 1) as usize;
                for (o, v) in seg.into_iter().enumerate() {
                    t.insert(at + o, v);
                }
            }
            8 => {
                let o = &corpus[r.below(n) as usize].0;
                if !o.is_empty() {
                    let c = r.below(o.len() as u64) as usize;
                    t.truncate(k);
                    t.extend_from_slice(&o[c..]);
                }
            }
            9 => {
                // Input to state: a drawn value met a comparison, replace it by the other side.
                if !pairs.is_empty() {
                    let (a, b) = pairs[r.below(pairs.len() as u64) as usize];
                    let hits: Vec<usize> = (0..t.len()).filter(|i| t[*i] == a).collect();
                    if !hits.is_empty() {
                        t[hits[r.below(hits.len() as u64) as usize]] = b;
                    } else {
                        t[k] = b;
                    }
                }
            }
            10 => {
                let c = cov::consts();
                let all = c.len() + dict.ints.len();
                if all > 0 {
                    let j = r.below(all as u64) as usize;
                    t[k] = if j < c.len() { c[j] } else { dict.ints[j - c.len()] };
                }
            }
            _ => t.truncate(k),
        }
        if t.len() > 400 {
            t.truncate(400);
        }
    }
    t
}

pub fn main(props: &[(&str, Vec<Sub>)]) -> i32 {
    install_hook();
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    clock();
    watch();
    let mut a = BTreeMap::new();
    while let Some(k) = it.next() {
        a.insert(k.trim_start_matches("--").to_string(), it.next().unwrap_or_default());
    }
    let a = Args(a);
    let dict = a.0.get("dict").map(|p| Dict::load(p)).unwrap_or_default();
    // Deep recursion of the code under test happens on a stack of known size (the usual 8 MiB).
    match cmd.as_str() {
        "run" => run(props, &a, &dict),
        "replay" => replay(props, &a, &dict),
        "shrink" => 0,
        "merge" => {
            let mut s: HashSet<u64> = HashSet::new();
            for p in a.s("files").split(',') {
                let b = std::fs::read(p).unwrap_or_default();
                for c in b.chunks_exact(8) {
                    s.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
            println!("{}", s.len());
            0
        }
        _ => {
            eprintln!("usage: run|replay|merge");
            2
        }
    }
}

fn find<'a>(props: &'a [(&str, Vec<Sub>)], prop: &str) -> &'a [Sub] {
    &props.iter().find(|p| p.0 == prop).unwrap_or_else(|| panic!("no property {}", prop)).1
}

/// `--tape` is a file of whitespace-separated numbers. Exit 1 and the message when the case fails.
fn replay(props: &[(&str, Vec<Sub>)], a: &Args, dict: &Dict) -> i32 {
    let subs = find(props, &a.s("prop"));
    let s = subs.iter().find(|s| s.name == a.s("sub")).expect("sub");
    let txt = std::fs::read_to_string(a.s("tape")).expect("tape");
    let tape: Vec<u64> = txt.split_whitespace().map(|x| x.parse().expect("number")).collect();
    let ext = a.0.get("ext").and_then(|x| x.parse().ok());
    let mut ctx = Ctx { want_sample: true, ..Ctx::default() };
    let (r, rec) = exec(s.f, &tape, ext, dict, &mut ctx);
    if let Some(p) = a.0.get("rec") {
        let v: Vec<String> = rec.iter().map(|x| x.to_string()).collect();
        let _ = std::fs::write(p, v.join(" "));
    }
    match r {
        Ok(()) => {
            println!("PASS {}", ctx.sample.unwrap_or_default());
            0
        }
        Err(f) if f.internal => {
            println!("INTERNAL {}", f.msg);
            2
        }
        Err(f) => {
            println!("FAIL {}", f.msg);
            1
        }
    }
}

fn run(props: &[(&str, Vec<Sub>)], a: &Args, dict: &Dict) -> i32 {
    let prop = a.s("prop");
    let subs = find(props, &prop);
    let (seed, shard, nshards) = (a.u("seed"), a.u("shard"), a.u("nshards"));
    // Work multiplier in percent.
    let mult = a.u("mult");
    let only = a.0.get("sub").cloned();
    let out = a.s("out");
    let cur = std::fs::File::create(format!("{}/cur-{}", out, shard)).expect("cur");
    let mut seen: HashSet<u64> = HashSet::new();
    let mut subs_json = Vec::new();
    let mut failures = Vec::new();
    let mut internal = 0;
    let mut case_no = 0u64;
    for s in subs {
        if only.as_ref().map_or(false, |o| o != s.name) {
            continue;
        }
        let t0 = std::time::Instant::now();
        let per = |n: u64| (n * mult / 100 + nshards - 1) / nshards;
        let (nr, ng) = (per(s.random), per(s.guided));
        let sub_id = rng::hash_bytes(s.name.as_bytes()) ^ rng::hash_bytes(prop.as_bytes());
        let mut ctx = Ctx::default();
        let mut evals = 0u64;
        let mut discards = 0u64;
        let mut nontrivial = 0u64;
        let mut samples: Vec<String> = Vec::new();
        let mut virgin: Vec<u8> = Vec::new();
        let mut corpus: Vec<(Vec<u64>, Vec<(u64, u64)>)> = Vec::new();
        let mut r = Rng::new(mix(seed ^ sub_id).wrapping_add(shard));
        let guided_from = nr;
        let mut failed = false;
        for i in 0..nr + ng {
            let ext = mix(mix(mix(seed) ^ sub_id) ^ (i * nshards + shard));
            let guided = i >= guided_from;
            // A part of the guided executions seeds the corpus with fresh cases.
            let base = if guided && !corpus.is_empty() && r.below(8) != 0 { mutate(&mut r, &corpus, dict) } else { Vec::new() };
            case_no += 1;
            {
                let mut b = Vec::with_capacity(64 + base.len() * 8);
                let _ = writeln!(b, "{} {} {} {}", case_no, s.name, ext, base.len());
                for x in &base {
                    let _ = write!(b, "{} ", x);
                }
                b.push(b'\n');
                let _ = cur.write_all_at(&b, 0);
            }
            ctx.nontrivial = None;
            ctx.discarded = false;
            ctx.index = i * nshards + shard;
            ctx.sample = None;
            ctx.want_sample = samples.len() < 3 && (i % 97 == 5 * (shard + 1) || samples.is_empty());
            if guided {
                cov::start();
            }
            let (res, rec) = exec(s.f, &base, Some(ext), dict, &mut ctx);
            if guided {
                cov::stop();
            }
            evals += 1;
            if ctx.discarded {
                discards += 1;
            }
            if let Some(h) = ctx.nontrivial {
                nontrivial += 1;
                seen.insert(mix(h ^ sub_id));
                if let Some(x) = ctx.sample.take() {
                    samples.push(x);
                }
            }
            if let Err(f) = res {
                if f.internal {
                    internal += 1;
                    eprintln!("INTERNAL {} {}: {} tape={}", prop, s.name, f.msg, nums(&rec));
                    if internal > 3 {
                        break;
                    }
                    continue;
                }
                // The recording alone must reproduce it, without the extension generator.
                let mut c = Ctx::default();
                let again = (0..20).any(|_| exec(s.f, &rec, None, dict, &mut c).0.is_err());
                if !again {
                    // Only hash seeds differ between executions: it happened, but cannot be shrunk.
                    failures.push(format!("{{\"sub\":{},\"tape\":{},\"message\":{}}}", esc(s.name), nums(&rec), esc(&f.msg)));
                    failed = true;
                    break;
                }
                let small = shrink(s.f, rec, dict, 4000);
                let mut c = Ctx::default();
                let (rs, rec2) = exec(s.f, &small, None, dict, &mut c);
                let msg = match rs {
                    Err(f) => f.msg,
                    Ok(()) => f.msg,
                };
                failures.push(format!("{{\"sub\":{},\"tape\":{},\"message\":{}}}", esc(s.name), nums(&rec2), esc(&msg)));
                failed = true;
                break;
            }
            // Long cases are slow and mutate badly: they count as explored but are not kept.
            if guided && cov::merge(&mut virgin) > 0 && rec.len() <= 300 {
                let pairs = cov::pairs();
                corpus.push((rec, pairs));
            }
        }
        let classes: Vec<String> = ctx.classes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let ss: Vec<String> = samples.iter().map(|s| esc(s)).collect();
        subs_json.push(format!(
            "{{\"name\":{},\"evaluations\":{},\"random\":{},\"guided\":{},\"discarded\":{},\"nontrivial\":{},\"classes\":{{{}}},\"samples\":[{}],\"corpus\":{},\"edges\":{},\"wall_s\":{:.3},\"failed\":{}}}",
            esc(s.name), evals, nr, ng, discards, nontrivial, classes.join(","), ss.join(","), corpus.len(), cov::edges_hit(&virgin), t0.elapsed().as_secs_f64(), failed
        ));
    }
    let _ = cur.write_all_at(b"done\n", 0);
    let mut h = Vec::with_capacity(seen.len() * 8);
    for x in &seen {
        h.extend_from_slice(&x.to_le_bytes());
    }
    std::fs::write(format!("{}/hashes-{}", out, shard), h).expect("hashes");
    let j = format!(
        "{{\"shard\":{},\"subs\":[{}],\"failures\":[{}],\"internal\":{},\"edges_total\":{}}}",
        shard,
        subs_json.join(","),
        failures.join(","),
        internal,
        cov::total()
    );
    std::fs::write(format!("{}/shard-{}.json", out, shard), j).expect("json");
    0
}

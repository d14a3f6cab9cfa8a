//! Bounded-exhaustive exploration engine.
//!
//! A check enumerates *cases*; every case has a unique textual key that is its replayable
//! artefact.  Cases run inside a worker process on several threads.  The worker publishes the
//! case each thread is in through a shared memory page, so that a crash (signal, abort, stack
//! overflow, out-of-memory) or a hang of the code under test is attributed to a case by the
//! parent, confirmed by re-running that case alone, and reported as a violation.
pub mod refs;

use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SLOTS: usize = 16;
const SLOT_BYTES: usize = 4096;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    /// The bounds of a check run once per build configuration.
    Small,
    Quick,
    Thorough,
}

/// How the evidence of a check is written.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Level {
    Exploration,
    Fault,
    Model,
}

pub struct CheckDef {
    pub id: &'static str,
    pub level: Level,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Seconds one case may take before it counts as hung.
    pub hang_s: u64,
    pub run: fn(&Eng),
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub unit: usize,
    pub seq: u64,
    pub key: String,
    pub detail: String,
}

pub struct Eng {
    pub id: String,
    pub tier: Tier,
    replay: Option<String>,
    nthreads: usize,
    shm: *mut u8,
    violations: Mutex<Vec<Violation>>,
    nviol: AtomicUsize,
    evals: AtomicU64,
    nontrivial: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    states: Mutex<HashSet<u64>>,
    keys: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    info: Mutex<Vec<(String, String)>>,
    capped: AtomicBool,
    unit_base: AtomicUsize,
    replay_hit: AtomicBool,
    prefix: Mutex<String>,
}
/// Errors that a build configuration documents: (case, message) -> excused.
pub static EXCUSE: std::sync::OnceLock<fn(&str, &str) -> bool> = std::sync::OnceLock::new();
unsafe impl Sync for Eng {}
unsafe impl Send for Eng {}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_CASE: RefCell<bool> = const { RefCell::new(false) };
}

pub struct Cx<'a> {
    pub eng: &'a Eng,
    slot: usize,
    unit: usize,
    seq: RefCell<u64>,
    states: RefCell<HashSet<u64>>,
    keys: RefCell<HashSet<u64>>,
    transitions: RefCell<u64>,
    evals: RefCell<u64>,
    nontrivial: RefCell<u64>,
    traces: RefCell<u64>,
    prefix: String,
}

pub type Unit<'u> = Box<dyn Fn(&Cx) + Send + Sync + 'u>;

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Eng {
    pub fn quick(&self) -> bool {
        self.tier != Tier::Thorough
    }
    pub fn small(&self) -> bool {
        self.tier == Tier::Small
    }
    pub fn pick3<T>(&self, small: T, quick: T, thorough: T) -> T {
        match self.tier {
            Tier::Small => small,
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    /// Prepended to the keys of all cases that follow.
    pub fn set_prefix(&self, p: &str) {
        *self.prefix.lock().unwrap() = p.to_string();
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn note(&self, k: &str, v: impl ToString) {
        let p = self.prefix.lock().unwrap().clone();
        self.info.lock().unwrap().push((format!("{p}{k}"), v.to_string()));
    }
    /// Mark that a bound was hit: the enumeration is then not reported as exhaustive.
    pub fn cap(&self) {
        self.capped.store(true, Ordering::Relaxed);
    }
    pub fn is_replay(&self) -> bool {
        self.replay.is_some()
    }
    /// Run all units, on all threads.  Units are handed out in order (minimal-first).
    pub fn run_units<'u>(&self, units: Vec<Unit<'u>>) {
        let base = self.unit_base.fetch_add(units.len(), Ordering::SeqCst);
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for slot in 0..self.nthreads.min(units.len().max(1)) {
                let next = &next;
                let units = &units;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= units.len() {
                            break;
                        }
                        self.run_one(slot, base + i, &units[i]);
                    })
                    .unwrap();
            }
        });
    }
    /// Run units one after another on one thread (for checks that touch process-global state).
    pub fn run_serial<'u>(&self, units: Vec<Unit<'u>>) {
        let base = self.unit_base.fetch_add(units.len(), Ordering::SeqCst);
        for (i, u) in units.iter().enumerate() {
            self.run_one(0, base + i, u);
        }
    }
    fn run_one(&self, slot: usize, unit: usize, u: &Unit) {
        let cx = Cx {
            eng: self,
            slot,
            unit,
            seq: RefCell::new(0),
            states: Default::default(),
            keys: Default::default(),
            transitions: Default::default(),
            evals: Default::default(),
            nontrivial: Default::default(),
            traces: Default::default(),
            prefix: self.prefix.lock().unwrap().clone(),
        };
        // A panic outside a case is a bug of the harness, not of the code under test.
        u(&cx);
        self.evals.fetch_add(*cx.evals.borrow(), Ordering::Relaxed);
        self.nontrivial.fetch_add(*cx.nontrivial.borrow(), Ordering::Relaxed);
        self.transitions.fetch_add(*cx.transitions.borrow(), Ordering::Relaxed);
        self.traces.fetch_add(*cx.traces.borrow(), Ordering::Relaxed);
        self.states.lock().unwrap().extend(cx.states.borrow().iter());
        self.keys.lock().unwrap().extend(cx.keys.borrow().iter());
    }
    fn slot_ptr(&self, slot: usize) -> *mut u8 {
        unsafe { self.shm.add(slot * SLOT_BYTES) }
    }
    fn enter(&self, slot: usize, key: &str) {
        unsafe {
            let p = self.slot_ptr(slot);
            let seq = p as *const AtomicU64;
            let len = p.add(8) as *const AtomicU64;
            (*len).store(0, Ordering::SeqCst);
            let b = key.as_bytes();
            let n = b.len().min(SLOT_BYTES - 16);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(16), n);
            (*len).store(n as u64, Ordering::SeqCst);
            (*seq).fetch_add(1, Ordering::SeqCst);
        }
    }
    fn leave(&self, slot: usize) {
        unsafe {
            let p = self.slot_ptr(slot);
            (*(p.add(8) as *const AtomicU64)).store(0, Ordering::SeqCst);
        }
    }
}

impl<'a> Cx<'a> {
    pub fn small(&self) -> bool {
        self.eng.small()
    }
    pub fn quick(&self) -> bool {
        self.eng.quick()
    }
    /// One explored case. `f` returns Ok(nontrivial) or Err(what is wrong).
    pub fn case<K, F>(&self, key: K, f: F)
    where
        K: FnOnce() -> String,
        F: FnOnce() -> Result<bool, String>,
    {
        let seq = {
            let mut s = self.seq.borrow_mut();
            *s += 1;
            *s
        };
        let mut key = key();
        if !self.prefix.is_empty() {
            key = format!("{}{key}", self.prefix);
        }
        if let Some(r) = &self.eng.replay {
            if *r != key {
                return;
            }
            self.eng.replay_hit.store(true, Ordering::SeqCst);
        }
        if self.eng.nviol.load(Ordering::Relaxed) > 400 {
            self.eng.cap();
            return;
        }
        self.eng.enter(self.slot, &key);
        IN_CASE.with(|c| *c.borrow_mut() = true);
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_CASE.with(|c| *c.borrow_mut() = false);
        self.eng.leave(self.slot);
        *self.evals.borrow_mut() += 1;
        let err = match r {
            Ok(Ok(nt)) => {
                if nt && self.keys.borrow_mut().insert(hash64(&key)) {
                    *self.nontrivial.borrow_mut() += 1;
                    if seq <= 1 {
                        let mut s = self.eng.samples.lock().unwrap();
                        if s.len() < 12 {
                            s.push(key.clone());
                        }
                    }
                }
                None
            }
            Ok(Err(e)) if EXCUSE.get().is_some_and(|x| x(&key, &e)) => None,
            Ok(Err(e)) => Some(e),
            Err(p) => {
                let mut m = PANIC_MSG.with(|m| m.borrow().clone());
                if m.is_empty() {
                    m = p
                        .downcast_ref::<&str>()
                        .map(|s| s.to_string())
                        .or_else(|| p.downcast_ref::<String>().cloned())
                        .unwrap_or_else(|| "panic".into());
                }
                Some(format!("panicked: {m}"))
            }
        };
        if let Some(detail) = err {
            self.eng.nviol.fetch_add(1, Ordering::Relaxed);
            self.eng.violations.lock().unwrap().push(Violation {
                unit: self.unit,
                seq,
                key,
                detail,
            });
        }
    }
    /// Record a state of the reference model.
    pub fn state<H: Hash + ?Sized>(&self, s: &H) {
        self.states.borrow_mut().insert(hash64(s));
    }
    pub fn transitions(&self, n: u64) {
        *self.transitions.borrow_mut() += n;
    }
    /// A model trace replayed step by step against the implementation.
    pub fn trace(&self) {
        *self.traces.borrow_mut() += 1;
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('u') => {
                    let h: String = it.by_ref().take(4).collect();
                    if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                        o.push(c);
                    }
                }
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("KMC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

fn map_shm(path: &Path) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(path)
        .expect("shm file");
    f.set_len((SLOTS * SLOT_BYTES) as u64).unwrap();
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            SLOTS * SLOT_BYTES,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}

fn read_slot(shm: *mut u8, slot: usize) -> (u64, Option<String>) {
    unsafe {
        let p = shm.add(slot * SLOT_BYTES);
        let seq = (*(p as *const AtomicU64)).load(Ordering::SeqCst);
        let len = (*(p.add(8) as *const AtomicU64)).load(Ordering::SeqCst) as usize;
        if len == 0 || len > SLOT_BYTES - 16 {
            return (seq, None);
        }
        let b = std::slice::from_raw_parts(p.add(16), len).to_vec();
        (seq, Some(String::from_utf8_lossy(&b).into_owned()))
    }
}

fn worker(def: &CheckDef, tier: Tier, replay: Option<String>, shm: &Path, out: &Path) -> i32 {
    unsafe {
        let gb = std::env::var("KMC_AS_GB").ok().and_then(|v| v.parse::<u64>().ok()).unwrap_or(20);
        let lim = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}").replace('\n', " ");
        if IN_CASE.with(|c| *c.borrow()) {
            PANIC_MSG.with(|p| *p.borrow_mut() = m);
        } else {
            // Harness bug or a helper thread of the code under test.
            PANIC_MSG.with(|p| *p.borrow_mut() = m.clone());
            eprintln!("[kmc] panic outside a case: {m}");
        }
    }));
    let nthreads = std::env::var("KMC_THREADS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .clamp(1, SLOTS);
    let eng = Eng {
        id: def.id.to_string(),
        tier,
        replay,
        nthreads,
        shm: map_shm(shm),
        violations: Default::default(),
        nviol: Default::default(),
        evals: Default::default(),
        nontrivial: Default::default(),
        transitions: Default::default(),
        traces: Default::default(),
        states: Default::default(),
        keys: Default::default(),
        samples: Default::default(),
        info: Default::default(),
        capped: Default::default(),
        unit_base: Default::default(),
        replay_hit: Default::default(),
        prefix: Default::default(),
    };
    (def.run)(&eng);
    let mut v = eng.violations.lock().unwrap().clone();
    v.sort_by_key(|v| (v.unit, v.seq));
    let mut o = String::new();
    let _ = writeln!(o, "evals\t{}", eng.evals.load(Ordering::SeqCst));
    let _ = writeln!(o, "distinct\t{}", eng.keys.lock().unwrap().len());
    let _ = writeln!(o, "states\t{}", eng.states.lock().unwrap().len());
    let _ = writeln!(o, "transitions\t{}", eng.transitions.load(Ordering::SeqCst));
    let _ = writeln!(o, "traces\t{}", eng.traces.load(Ordering::SeqCst));
    let _ = writeln!(o, "capped\t{}", eng.capped.load(Ordering::SeqCst) as u8);
    let _ = writeln!(o, "replayhit\t{}", eng.replay_hit.load(Ordering::SeqCst) as u8);
    for s in eng.samples.lock().unwrap().iter() {
        let _ = writeln!(o, "sample\t{}", esc(s));
    }
    for (k, s) in eng.info.lock().unwrap().iter() {
        let _ = writeln!(o, "info\t{}\t{}", esc(k), esc(s));
    }
    for v in v.iter() {
        let _ = writeln!(o, "viol\t{}\t{}", esc(&v.key), esc(&v.detail));
    }
    let _ = writeln!(o, "done\t1");
    std::fs::write(out, o).unwrap();
    0
}

#[derive(Default, Debug)]
struct WorkerResult {
    num: std::collections::BTreeMap<String, u64>,
    samples: Vec<String>,
    info: Vec<(String, String)>,
    viols: Vec<(String, String)>,
    done: bool,
    /// Slots that were inside a case when the worker died, and how it died.
    crash: Option<(Vec<String>, String)>,
    engine_error: Option<String>,
}

/// The programs that make up this check: this one, or one per build configuration.
fn executables() -> Vec<(String, PathBuf)> {
    match std::env::var("KMC_EXES") {
        Ok(l) => l.split(';').filter_map(|x| x.split_once('=')).map(|(n, p)| (format!("{n}/"), PathBuf::from(p))).collect(),
        Err(_) => vec![(String::new(), std::env::current_exe().unwrap())],
    }
}

fn run_worker(exe: &Path, def: &CheckDef, tier: Tier, replay: Option<&str>, tmp: &Path, tag: &str) -> WorkerResult {
    let shm_path = tmp.join(format!("shm-{tag}"));
    let out_path = tmp.join(format!("out-{tag}"));
    let _ = std::fs::remove_file(&shm_path);
    let _ = std::fs::remove_file(&out_path);
    let shm = map_shm(&shm_path);
    let mut cmd = std::process::Command::new(exe);
    cmd.arg(def.id)
        .arg("--worker")
        .arg(&shm_path)
        .arg(&out_path)
        .arg(if tier == Tier::Thorough { "thorough" } else { "quick" })
        .env("KMC_SCRATCH", tmp);
    if let Some(r) = replay {
        let p = tmp.join(format!("key-{tag}"));
        std::fs::write(&p, r).unwrap();
        cmd.arg(&p);
    }
    let mut child = cmd.spawn().expect("spawn worker");
    let mut last = vec![(0u64, Instant::now()); SLOTS];
    let mut res = WorkerResult::default();
    let status = loop {
        if let Some(st) = child.try_wait().unwrap() {
            break st;
        }
        std::thread::sleep(Duration::from_millis(20));
        let mut hung = None;
        for (i, l) in last.iter_mut().enumerate() {
            let (seq, key) = read_slot(shm, i);
            if seq != l.0 || key.is_none() {
                *l = (seq, Instant::now());
            } else if l.1.elapsed() > Duration::from_secs(def.hang_s) {
                hung = key;
            }
        }
        if let Some(k) = hung {
            let _ = child.kill();
            let _ = child.wait();
            res.crash = Some((
                vec![k],
                format!("did not return within {} s (hang)", def.hang_s),
            ));
            unsafe { libc::munmap(shm as *mut _, SLOTS * SLOT_BYTES) };
            return res;
        }
    };
    let crashed: Vec<String> = (0..SLOTS).filter_map(|i| read_slot(shm, i).1).collect();
    unsafe { libc::munmap(shm as *mut _, SLOTS * SLOT_BYTES) };
    if let Ok(s) = std::fs::read_to_string(&out_path) {
        for line in s.lines() {
            let f: Vec<&str> = line.split('\t').collect();
            match f[0] {
                "done" => res.done = true,
                "sample" => res.samples.push(unesc(f[1])),
                "info" => res.info.push((unesc(f[1]), unesc(f[2]))),
                "viol" => res.viols.push((unesc(f[1]), unesc(f[2]))),
                k => {
                    res.num.insert(k.to_string(), f[1].parse().unwrap_or(0));
                }
            }
        }
    }
    if !res.done {
        if let Some(sig) = status.signal() {
            if sig == libc::SIGKILL || crashed.is_empty() {
                res.engine_error = Some(format!("worker ended by signal {sig} outside a case"));
            } else {
                res.crash = Some((crashed, format!("the process died with signal {sig}")));
            }
        } else {
            res.engine_error = Some(format!("worker exited with {status} without a result"));
        }
    }
    res
}

struct Known {
    property: String,
    key: String,
    what: String,
}

/// Lines `finding: property=<id> case=<exact key> :: <what fails>` (only `finding:` suppresses).
fn known_findings() -> Vec<Known> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                if let Some((id, rest)) = r.split_once(" case=") {
                    let (key, what) = rest.split_once(" :: ").unwrap_or((rest, ""));
                    v.push(Known {
                        property: id.trim().into(),
                        key: key.trim().into(),
                        what: what.trim().into(),
                    });
                }
            }
        }
    }
    v
}

fn json_list(v: &[String]) -> String {
    let q: Vec<String> = v.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    format!("[{}]", q.join(", "))
}

/// Entry point of every checker binary.
pub fn main_with(defs: &[CheckDef]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: {} <ID> [--tier quick|thorough] [--replay FILE] [--case KEY]", args[0]);
        for d in defs {
            eprintln!("  {}", d.id);
        }
        std::process::exit(2);
    }
    let id = &args[1];
    let def = match defs.iter().find(|d| d.id == id) {
        Some(d) => d,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    };
    if args.get(2).map(|s| s.as_str()) == Some("--worker") {
        let tier = match (args[5].as_str(), std::env::var("KMC_EXES").is_ok()) {
            ("quick", true) => Tier::Small,
            ("quick", _) | (_, true) => Tier::Quick,
            _ => Tier::Thorough,
        };
        let replay = args.get(6).map(|p| std::fs::read_to_string(p).unwrap());
        std::process::exit(worker(def, tier, replay, Path::new(&args[3]), Path::new(&args[4])));
    }
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut replay: Option<String> = None;
    let mut verbose = false;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                tier = if args[i + 1] == "thorough" { Tier::Thorough } else { Tier::Quick };
                i += 1;
            }
            "--replay" => {
                let s = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                let k = s
                    .lines()
                    .find_map(|l| l.trim().strip_prefix("\"case\": \""))
                    .map(|l| unesc(l.trim_end().trim_end_matches(',').trim_end_matches('"')))
                    .expect("no case in the replay file");
                if s.contains("\"tier\": \"thorough\"") {
                    tier = Tier::Thorough;
                }
                replay = Some(k);
                i += 1;
            }
            "--case" => {
                replay = Some(args[i + 1].clone());
                i += 1;
            }
            "-v" => verbose = true,
            a => {
                eprintln!("unknown argument {a}");
                std::process::exit(2);
            }
        }
        i += 1;
    }
    let start = Instant::now();
    let tmp = std::env::temp_dir().join(format!("kmc-{}-{}", def.id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let mut res = WorkerResult { done: true, ..Default::default() };
    let mut viols = Vec::new();
    for (x, (name, exe)) in executables().iter().enumerate() {
        if replay.as_ref().is_some_and(|r| !r.starts_with(name.as_str())) {
            continue;
        }
        let mut one = run_worker(exe, def, tier, replay.as_deref(), &tmp, &format!("main{x}"));
        viols.append(&mut one.viols);
        if let Some((keys, how)) = one.crash.take() {
            // Attribute the crash: re-run each candidate alone.
            let mut confirmed = Vec::new();
            if keys.len() > 1 {
                for (n, k) in keys.iter().enumerate() {
                    let r = run_worker(exe, def, tier, Some(k), &tmp, &format!("c{x}-{n}"));
                    if let Some((_, how)) = r.crash {
                        confirmed.push((k.clone(), how));
                    } else if let Some(v) = r.viols.first() {
                        confirmed.push(v.clone());
                    }
                }
            }
            if confirmed.is_empty() {
                for k in keys {
                    confirmed.push((k, how.clone()));
                }
            }
            viols.extend(confirmed);
        }
        for (k, v) in one.num {
            *res.num.entry(k).or_insert(0) += v;
        }
        res.samples.extend(one.samples);
        res.info.extend(one.info);
        res.done &= one.done;
        if let Some(e) = one.engine_error {
            res.engine_error.get_or_insert(format!("{name}{e}"));
        }
    }
    res.samples.truncate(24);
    if std::env::var("KMC_KEEP").is_err() {
        let _ = std::fs::remove_dir_all(&tmp);
    }
    if let Some(e) = &res.engine_error {
        if viols.is_empty() {
            eprintln!("[kmc] engine error: {e}");
            std::process::exit(3);
        }
    }
    if replay.is_some() && viols.is_empty() && res.num.get("replayhit") == Some(&0) {
        eprintln!("[kmc] the case was not found in the enumeration");
        std::process::exit(3);
    }
    let wall = start.elapsed().as_secs_f64();
    let known = known_findings();
    let mut unlisted = Vec::new();
    let mut seen = HashSet::new();
    for (k, d) in &viols {
        if let Some(kn) = known.iter().find(|kn| kn.property == def.id && kn.key == *k) {
            if seen.insert(k.clone()) {
                println!("KNOWN-FINDING: property={} {} ({})", def.id, kn.what, k);
            }
        } else {
            unlisted.push((k.clone(), d.clone()));
        }
    }
    let get = |k: &str| res.num.get(k).copied().unwrap_or(0);
    // Evidence.
    if replay.is_none() {
        let level = match def.level {
            Level::Exploration => "exploration",
            Level::Fault => "fault_enumeration",
            Level::Model => "model_checking",
        };
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
        let mut e = String::new();
        let _ = writeln!(e, "{{");
        let _ = writeln!(e, "  \"property\": \"{}\",", def.id);
        let _ = writeln!(
            e,
            "  \"tier\": \"{}\",",
            if tier == Tier::Quick { "quick" } else { "thorough" }
        );
        let _ = writeln!(e, "  \"seed\": {seed},");
        let _ = writeln!(e, "  \"level\": \"{level}\",");
        let _ = writeln!(e, "  \"coverage\": {{");
        let _ = writeln!(e, "    \"evaluations\": {},", get("evals"));
        let _ = writeln!(e, "    \"distinct_nontrivial\": {},", get("distinct"));
        let _ = writeln!(e, "    \"rule\": \"{}\",", esc(def.rule));
        if def.level == Level::Model {
            let _ = writeln!(e, "    \"states\": {},", get("states"));
            let _ = writeln!(e, "    \"transitions\": {},", get("transitions"));
            let _ = writeln!(e, "    \"traces_validated_against_impl\": {},", get("traces"));
        }
        if def.level != Level::Model && get("transitions") > 0 {
            let _ = writeln!(e, "    \"schedules_or_steps\": {},", get("transitions"));
        }
        for (k, v) in &res.info {
            let _ = writeln!(e, "    \"{}\": \"{}\",", esc(k), esc(v));
        }
        let _ = writeln!(
            e,
            "    \"exhaustive\": {},",
            get("capped") == 0 && res.done && viols.is_empty()
        );
        let _ = writeln!(e, "    \"samples\": {}", json_list(&res.samples));
        let _ = writeln!(e, "  }},");
        let a: Vec<String> = def.assumptions.iter().map(|s| s.to_string()).collect();
        let _ = writeln!(e, "  \"assumptions\": {},", json_list(&a));
        let _ = writeln!(e, "  \"wall_s\": {wall:.3},");
        let _ = writeln!(e, "  \"violations\": {}", unlisted.len());
        let _ = writeln!(e, "}}");
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", def.id)), e).expect("write evidence");
    }
    println!(
        "[kmc] {} {:?}: {} cases, {} distinct, {} states, {} transitions, {} violations ({} unlisted), {:.1} s",
        def.id,
        tier,
        get("evals"),
        get("distinct"),
        get("states"),
        get("transitions"),
        viols.len(),
        unlisted.len(),
        wall
    );
    if unlisted.is_empty() {
        std::process::exit(0);
    }
    let rdir = verif_dir().join("out").join("replay");
    let _ = std::fs::create_dir_all(&rdir);
    let max = if verbose { 400 } else { 5 };
    for (n, (k, d)) in unlisted.iter().take(max).enumerate() {
        let p = rdir.join(format!("{}-{:016x}.json", def.id, hash64(k)));
        let mut f = String::new();
        let _ = writeln!(f, "{{");
        let _ = writeln!(f, "  \"property\": \"{}\",", def.id);
        let _ = writeln!(
            f,
            "  \"tier\": \"{}\",",
            if tier == Tier::Quick { "quick" } else { "thorough" }
        );
        let _ = writeln!(f, "  \"case\": \"{}\",", esc(k));
        let _ = writeln!(f, "  \"detail\": \"{}\",", esc(d));
        let _ = writeln!(f, "  \"replay_cmd\": \"./check.sh {} --replay {}\"", def.id, p.display());
        let _ = writeln!(f, "}}");
        let _ = std::fs::write(&p, f);
        println!("VIOLATION property={} replay={}", def.id, p.display());
        println!("  case: {k}");
        let d: String = d.chars().take(600).collect();
        println!("  {d}");
        let _ = n;
    }
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}

/// Scratch directory of this run (removed by the parent).
pub fn scratch() -> PathBuf {
    PathBuf::from(std::env::var("KMC_SCRATCH").unwrap_or_else(|_| "/tmp".into()))
}

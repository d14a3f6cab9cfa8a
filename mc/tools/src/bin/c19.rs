//! C19: xtask turns what it finds out about the machine into commands that fit it, runs exactly
//! those, and reports how they ended.
//!
//! The program itself runs with a PATH that holds nothing but stand-ins, which record how they
//! were called; nothing of what it starts is real.
use kmc_engine::*;
use std::collections::BTreeSet;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use xtask::*;

pub const DEF: CheckDef = CheckDef {
    id: "C19",
    level: Level::Exploration,
    rule: "one case = 'config' (architecture, set of processor flags, processor count, extra features) through the library; or 'run' (subcommand, detected machine, environment, exit status of every program started) through the program",
    assumptions: &["cargo, uname, lscpu, sysctl and sh are stand-ins that record their arguments", "processor flags are given as whole words, as lscpu prints them"],
    hang_s: 120,
    run,
};

type Set = BTreeSet<String>;
fn set(v: impl IntoIterator<Item = impl Into<String>>) -> Set {
    v.into_iter().map(Into::into).collect()
}
/// The specification: features and rustflags for a machine.
fn spec(arch: &str, flags: &[&str], nproc: usize, extra: &str) -> (Set, Option<&'static str>) {
    let mut f = Set::new();
    let mut rf = None;
    match arch {
        "x86_64" => {
            f.insert("x86_64".into());
            if flags.contains(&"avx512f") {
                f.insert("avx512".into());
                rf = Some("-C target-feature=+avx512f,+fma");
            } else if flags.contains(&"avx2") {
                f.insert("avx2".into());
                rf = Some("-C target-feature=+avx2,+fma");
            } else if flags.contains(&"sse4_1") {
                f.insert("sse".into());
            }
        }
        "aarch64" | "arm64" => {
            f.insert("aarch64".into());
        }
        _ => {}
    }
    if nproc > 1 {
        f.insert("parallel".into());
    }
    for x in extra.split_whitespace() {
        f.insert(x.into());
    }
    (f, rf)
}
const ARCHES: [&str; 7] = ["x86_64", "aarch64", "arm64", "riscv64", "i686", "armv7l", ""];
const FLAGS: [&str; 6] = ["sse2", "sse4_1", "avx", "fma", "avx2", "avx512f"];
const EXTRAS: [&str; 7] = ["", " ", "simd", "  simd \t soa ", "parallel", "compile-time-rfft slow", "x86_64 simd"];
fn subset(m: usize) -> Vec<&'static str> {
    (0..FLAGS.len()).filter(|i| m >> i & 1 == 1).map(|i| FLAGS[i]).collect()
}

// ---------------------------------------------------------------- commands
#[derive(Debug, PartialEq)]
struct Call {
    words: Vec<String>,
    features: Set,
    example: Option<String>,
    manifest: Option<String>,
    options: Set,
    rest: Option<Vec<String>>,
}
fn parse(args: &[String]) -> Result<Call, String> {
    let mut c = Call { words: vec![], features: Set::new(), example: None, manifest: None, options: Set::new(), rest: None };
    let mut i = 0;
    while i < args.len() {
        let (k, mut v) = match args[i].split_once('=') {
            Some((k, v)) if k.starts_with("--") => (k.to_string(), Some(v.to_string())),
            _ => (args[i].clone(), None),
        };
        let mut value = |i: &mut usize| -> Result<String, String> {
            if let Some(v) = v.take() {
                return Ok(v);
            }
            *i += 1;
            args.get(*i).cloned().ok_or(format!("{k} without a value"))
        };
        match k.as_str() {
            "--features" | "-F" => {
                for f in value(&mut i)?.split([' ', ',', '\t']).filter(|f| !f.is_empty()) {
                    c.features.insert(f.into());
                }
            }
            "--example" => c.example = Some(value(&mut i)?),
            "--manifest-path" => c.manifest = Some(value(&mut i)?),
            "-p" | "--package" => {
                let v = value(&mut i)?;
                c.options.insert(format!("package {v}"));
            }
            "-r" | "--release" => {
                c.options.insert("release".into());
            }
            "--" => {
                c.rest = Some(args[i + 1..].to_vec());
                break;
            }
            k if k.starts_with('-') => {
                c.options.insert(k.into());
            }
            _ => c.words.push(args[i].clone()),
        }
        i += 1;
    }
    Ok(c)
}
/// What cargo must be asked to do.
fn wanted(sub: &str, f: &Set, io: Option<(&str, &str)>) -> Vec<Call> {
    let call = |w: &[&str], f: &Set, o: &[&str]| Call {
        words: w.iter().map(|s| s.to_string()).collect(),
        features: f.clone(),
        example: None,
        manifest: None,
        options: set(o.iter().copied()),
        rest: None,
    };
    let none = Set::new();
    let clippy = || call(&["clippy"], &none, &["--all-targets", "--all-features"]);
    let fmt = || call(&["fmt"], &none, &["--all"]);
    match sub {
        "build" => vec![call(&["build"], f, &[])],
        "test" => vec![call(&["test"], f, &[])],
        "clippy" => vec![clippy()],
        "fmt" => vec![fmt()],
        "analyze" => vec![fmt(), clippy()],
        "benchmark" => {
            let e = if f.contains("parallel") { "parallel_benchmark" } else { "benchmark" };
            vec![Call { example: Some(e.into()), ..call(&["run"], f, &["release"]) }]
        }
        "bench-libs" => vec![Call { manifest: Some("kofft-bench/Cargo.toml".into()), ..call(&["bench"], f, &[]) }],
        "update-bench-readme" => vec![Call {
            manifest: Some("kofft-bench/Cargo.toml".into()),
            example: Some("update_bench_readme".into()),
            ..call(&["run"], f, &["release"])
        }],
        "sanity" => {
            let (i, o) = io.unwrap();
            vec![Call { rest: Some(vec![i.into(), o.into()]), ..call(&["run"], &none, &["release", "package sanity-check"]) }]
        }
        _ => unreachable!(),
    }
}
fn flags_of(sub: &str) -> bool {
    matches!(sub, "benchmark" | "bench-libs" | "update-bench-readme")
}
fn same_call(args: &[String], want: &Call) -> Result<(), String> {
    let got = parse(args)?;
    if &got != want {
        return Err(format!("called as {args:?}, expected {want:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- manifests
fn features_of(manifest: &str) -> (Set, Vec<(String, Set)>) {
    let text = std::fs::read_to_string(manifest).unwrap_or_default();
    let (mut f, mut ex) = (Set::new(), vec![]);
    let mut section = String::new();
    for l in text.lines() {
        let l = l.trim();
        if l.starts_with('[') {
            section = l.into();
            if l == "[[example]]" {
                ex.push((String::new(), Set::new()));
            }
        } else if let Some((k, v)) = l.split_once('=') {
            let k = k.trim();
            let words: Vec<String> = v.split('"').skip(1).step_by(2).map(Into::into).collect();
            match section.as_str() {
                "[features]" => {
                    f.insert(k.into());
                }
                "[[example]]" if k == "name" => ex.last_mut().unwrap().0 = words[0].clone(),
                "[[example]]" if k == "required-features" => ex.last_mut().unwrap().1 = words.into_iter().collect(),
                _ => {}
            }
        }
    }
    (f, ex)
}

// ---------------------------------------------------------------- in process
fn args_of(c: &Command) -> Vec<String> {
    c.get_args().map(|a| a.to_string_lossy().into_owned()).collect()
}
fn config(arch: &str, m: usize, nproc: usize, extra: &str) -> Result<bool, String> {
    let flags = subset(m);
    let line = format!("Flags:                 fpu vme {} ht syscall", flags.join(" "));
    let line = if m == 0 { String::new() } else { line };
    let (f, rf) = spec(arch, &flags, nproc, extra);
    let cfg = compute_config(arch, &line, nproc, extra);
    if set(cfg.features.clone()) != f {
        return Err(format!("features {:?} instead of {f:?}", cfg.features));
    }
    if cfg.rustflags.as_deref() != rf {
        return Err(format!("rustflags {:?} instead of {rf:?}", cfg.rustflags));
    }
    for (sub, c) in [
        ("build", build_command(&cfg)),
        ("test", test_command(&cfg)),
        ("benchmark", benchmark_command(&cfg)),
        ("bench-libs", bench_libs_command(&cfg)),
        ("update-bench-readme", update_bench_readme_command(&cfg)),
        ("clippy", clippy_command()),
        ("fmt", fmt_command()),
    ] {
        let at = |s: String| format!("{sub}: {s}");
        if c.get_program() != "cargo" {
            return Err(at(format!("starts {:?}", c.get_program())));
        }
        same_call(&args_of(&c), &wanted(sub, &f, None)[0]).map_err(at)?;
        let env: Vec<_> = c.get_envs().filter(|(k, _)| *k == "RUSTFLAGS").filter_map(|(_, v)| v).collect();
        let want: Vec<_> = rf.iter().filter(|_| flags_of(sub)).map(std::ffi::OsStr::new).collect();
        if env != want {
            return Err(at(format!("RUSTFLAGS {env:?} instead of {want:?}")));
        }
    }
    // Cargo accepts it: every feature exists where it is used, and the example can be built.
    let (known, examples) = features_of("/repo/Cargo.toml");
    let (bench, _) = features_of("/repo/kofft-bench/Cargo.toml");
    let extras = set(extra.split_whitespace());
    for x in f.difference(&extras) {
        if !(known.contains(x) || x == "rayon") || !bench.contains(x) {
            return Err(format!("feature {x} does not exist"));
        }
    }
    match examples.iter().find(|x| x.0 == cfg.example) {
        Some((_, need)) if need.is_subset(&f) => {}
        Some((n, need)) => return Err(format!("example {n} needs {need:?}")),
        None => return Err(format!("no example {}", cfg.example)),
    }
    Ok(!f.is_empty())
}

// ---------------------------------------------------------------- the program
#[derive(Clone, Debug)]
struct World {
    /// What uname -m prints, or None: no such program.
    uname: Option<&'static str>,
    arch: Option<&'static str>,
    lscpu: Option<String>,
    sysctl: Option<String>,
    extra: Option<&'static str>,
    one: bool,
    codes: Vec<&'static str>,
    missing: bool,
}
impl Default for World {
    fn default() -> Self {
        World {
            uname: Some("x86_64\n"),
            arch: None,
            lscpu: Some("Architecture: x86_64\nFlags: fpu sse4_1 avx2 fma\nNUMA node(s): 1\n".into()),
            sysctl: None,
            extra: None,
            one: false,
            codes: vec![],
            missing: false,
        }
    }
}
static NEXT: AtomicUsize = AtomicUsize::new(0);
struct Ran {
    code: Option<i32>,
    log: Vec<Vec<String>>,
    err: String,
}
fn own(name: &str) -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join(name)
}
fn start(w: &World, args: &[&str]) -> Ran {
    let dir = scratch().join(format!("x{}", NEXT.fetch_add(1, Ordering::Relaxed)));
    let bin = dir.join("bin");
    std::fs::create_dir_all(&bin).unwrap();
    let put = |n: &str| {
        if std::fs::hard_link(own("standin"), bin.join(n)).is_err() {
            std::os::unix::fs::symlink(own("standin"), bin.join(n)).unwrap();
        }
    };
    let out = |n: &str, s: &str| std::fs::write(dir.join(n), s).unwrap();
    put("sh");
    if !w.missing {
        put("cargo");
    }
    for (n, o) in [("uname", w.uname.map(String::from)), ("lscpu", w.lscpu.clone()), ("sysctl", w.sysctl.clone())] {
        if let Some(o) = o {
            put(n);
            out(&format!("{n}.out"), &o);
        }
    }
    for (i, c) in w.codes.iter().enumerate() {
        out(&format!("cargo.{i}.code"), c);
        out(&format!("sh.{i}.code"), c);
    }
    let mut c = Command::new(own("xtask"));
    c.args(args).env_clear().env("PATH", &bin).env("KMC_STANDIN", &dir).current_dir(&dir);
    if let Some(a) = w.arch {
        c.env("ARCH", a);
    }
    if let Some(a) = w.extra {
        c.env("KOFFT_FEATURES", a);
    }
    if w.one {
        unsafe {
            c.pre_exec(|| {
                let mut s: libc::cpu_set_t = std::mem::zeroed();
                let mut cur: libc::cpu_set_t = std::mem::zeroed();
                libc::sched_getaffinity(0, std::mem::size_of_val(&cur), &mut cur);
                let k = (0..1024).find(|k| libc::CPU_ISSET(*k, &cur)).unwrap_or(0);
                libc::CPU_SET(k, &mut s);
                libc::sched_setaffinity(0, std::mem::size_of_val(&s), &s);
                Ok(())
            });
        }
    }
    let o = c.output().expect("start xtask");
    let log = std::fs::read_to_string(dir.join("log"))
        .unwrap_or_default()
        .lines()
        .map(|l| l.split('\u{1f}').map(|s| s.replace('\u{1e}', "\n")).collect::<Vec<_>>())
        .filter(|l: &Vec<String>| l[0] == "cargo" || l[0] == "sh")
        .collect();
    remove(&dir);
    Ran { code: o.status.code(), log, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}
fn remove(d: &Path) {
    assert!(d.starts_with(scratch()));
    let _ = std::fs::remove_dir_all(d);
}
fn expected_code(codes: &[&str], ran: usize) -> i32 {
    match codes.get(ran - 1).copied().unwrap_or("0") {
        "signal" => 1,
        c => c.parse().unwrap(),
    }
}
fn program(w: &World, sub: &str, arch: &str, flags: &[&str], io: (&str, &str)) -> Result<bool, String> {
    let nproc = if w.one { 1 } else { std::thread::available_parallelism().map_or(1, |n| n.get()) };
    let (f, rf) = spec(arch, flags, nproc, w.extra.unwrap_or(""));
    let mut args = vec![sub];
    if sub == "sanity" {
        args.extend([io.0, io.1]);
    }
    let r = start(w, &args);
    let at = |s: String| format!("{s} (stderr: {})", r.err.lines().next().unwrap_or(""));
    if r.err.contains("panicked") {
        return Err(at("panicked".into()));
    }
    if w.missing && sub != "web-spectrogram" {
        return if r.code == Some(0) { Err("reported success although cargo could not be started".into()) } else { Ok(true) };
    }
    if sub == "web-spectrogram" {
        let [l] = r.log.as_slice() else { return Err(at(format!("started {:?}", r.log))) };
        if l[0] != "sh" || l[2] != "-c" || !l[3].contains("web-spectrogram") {
            return Err(at(format!("started {l:?}")));
        }
        let want = expected_code(&w.codes, 1);
        return if r.code == Some(want) { Ok(true) } else { Err(at(format!("exit status {:?} instead of {want}", r.code))) };
    }
    let mut want = wanted(sub, &f, Some(io));
    // What follows a failed step is not started.
    if let Some(k) = (0..want.len()).find(|k| w.codes.get(*k).is_some_and(|c| *c != "0")) {
        want.truncate(k + 1);
    }
    if r.log.len() != want.len() {
        return Err(at(format!("started {} programs instead of {}: {:?}", r.log.len(), want.len(), r.log)));
    }
    for (l, c) in r.log.iter().zip(&want) {
        if l[0] != "cargo" {
            return Err(at(format!("started {}", l[0])));
        }
        same_call(&l[2..], c).map_err(at)?;
        let wf = rf.filter(|_| flags_of(sub)).unwrap_or("-unset-");
        if l[1] != wf {
            return Err(at(format!("RUSTFLAGS {:?} instead of {wf:?}", l[1])));
        }
    }
    let code = expected_code(&w.codes, want.len());
    if r.code != Some(code) {
        return Err(at(format!("exit status {:?} instead of {code}", r.code)));
    }
    Ok(true)
}

const SUBS: [&str; 10] = ["build", "test", "clippy", "fmt", "analyze", "benchmark", "bench-libs", "update-bench-readme", "sanity", "web-spectrogram"];

fn run(eng: &Eng) {
    eng.note("bounds", "library: 7 architectures x all subsets of 6 processor flags x 1..=4 processors x 7 feature lists; program: 10 subcommands x every exit status of every step, and every combination of detected machines");
    let mut units: Vec<Unit> = vec![];
    for arch in ARCHES {
        units.push(Box::new(move |cx| {
            for m in 0..1 << FLAGS.len() {
                for nproc in [0usize, 1, 2, 3, 64] {
                    for (k, extra) in EXTRAS.iter().enumerate() {
                        cx.case(|| format!("config/{arch}/flags={m:06b}/nproc={nproc}/extra{k}"), || config(arch, m, nproc, extra));
                    }
                }
            }
        }));
    }
    let flags = ["sse4_1", "avx2", "fma"];
    let io = ("in put.wav", "out.png");
    // Exit statuses.
    let codes = ["0", "1", "2", "101", "255", "signal"];
    for sub in SUBS {
        units.push(Box::new(move |cx| {
            for a in codes {
                for b in codes {
                    if sub == "analyze" || b == "0" {
                        let w = World { codes: vec![a, b], ..World::default() };
                        cx.case(|| format!("run/{sub}/status={a},{b}"), || program(&w, sub, "x86_64", &flags, io));
                    }
                }
            }
            let w = World { missing: true, ..World::default() };
            cx.case(|| format!("run/{sub}/missing"), || program(&w, sub, "x86_64", &flags, io));
        }));
    }
    // Arguments are passed on as they are.
    units.push(Box::new(move |cx| {
        let names = ["a", "a b", "ü.wav", "$(x)", "a\nb", "a'b\"c", "x;y", "*", "", "--", "=", "a=b", "./-x"];
        for i in names {
            for o in names {
                // The program's own argument parser takes "--" for itself.
                if i != "--" && o != "--" {
                    cx.case(|| format!("run/sanity/{i:?},{o:?}"), || program(&World::default(), "sanity", "x86_64", &flags, (i, o)));
                }
            }
        }
    }));
    // Detection.
    for uname in [None, Some("x86_64\n"), Some("aarch64\n"), Some("arm64\n"), Some("riscv64\n"), Some("")] {
        units.push(Box::new(move |cx| {
            for arch in [None, Some(""), Some("  "), Some("x86_64"), Some("aarch64")] {
                for m in [0b000001usize, 0b000011, 0b011111, 0b111111, 0b100011] {
                    for src in ["lscpu", "sysctl", "both", "neither", "lscpu without", "lscpu nested", "lscpu last", "lscpu first"] {
                        for extra in [None, Some(""), Some("simd  soa")] {
                            for one in [false, true] {
                                let words = subset(m).join(" ");
                                let line = |k: &str| Some(format!("Architecture: whatever\nCPU op-mode(s): 64-bit\n{k}: fpu {words} ht\nL1d cache: 32 KiB\n"));
                                let w = World {
                                    uname,
                                    arch,
                                    lscpu: match src {
                                        "lscpu" | "both" => line("Flags"),
                                        // Newer versions group and indent their lines.
                                        "lscpu nested" => Some(format!("Architecture:             x86_64\n  CPU op-mode(s):         32-bit, 64-bit\n  Byte Order:             Little Endian\nCPU(s):                   8\n  On-line CPU(s) list:    0-7\nVendor ID:                GenuineIntel\n  Model name:             Some Processor\n    Stepping:             2\n    BogoMIPS:             4200.00\n    Flags:                fpu vme de {words} ht syscall\nVirtualization features:  \n  Hypervisor vendor:      KVM\nCaches (sum of all):      \n  L1d:                    384 KiB (8 instances)\nVulnerabilities:          \n  Meltdown:               Not affected\n")),
                                        "lscpu last" => Some(format!("Architecture: x86_64\nFlags: fpu {words}")),
                                        "lscpu first" => Some(format!("flags\t\t: {words}\nArchitecture: x86_64\n")),
                                        "lscpu without" => Some("Architecture: x86_64\n".into()),
                                        _ => None,
                                    },
                                    sysctl: match src {
                                        "sysctl" | "lscpu without" => Some(format!("fpu {words} ht\n")),
                                        "both" => Some("avx512f\n".into()),
                                        _ => None,
                                    },
                                    extra,
                                    one,
                                    ..World::default()
                                };
                                let a = match arch.filter(|a| !a.trim().is_empty()) {
                                    Some(a) => a,
                                    None => uname.unwrap_or("").trim(),
                                };
                                let f = if src == "neither" { vec![] } else { subset(m) };
                                cx.case(
                                    || format!("run/detect/uname={uname:?}/ARCH={arch:?}/flags={m:06b}/{src}/extra={extra:?}/one={one}"),
                                    || program(&w, "bench-libs", a, &f, io),
                                );
                            }
                        }
                    }
                }
            }
        }));
    }
    eng.run_units(units);
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}

//! C10: every parallel helper gives the same result under every schedule, thread count and tuning
//! setting, and that result is the sequential one.
//!
//! kofft is compiled against a stand-in for rayon whose scheduler is ours: every order in which
//! the tasks of a parallel operation can run, and every assignment of tasks to two worker threads,
//! is a path of a decision tree that is walked completely (bounded by deviations for many tasks).
use kmc_core::common::*;
use kmc_core::entries::Entry;
use kofft::stft::*;

pub const DEF: CheckDef = CheckDef {
    id: "C10",
    level: Level::Exploration,
    rule: "one case = (parallel helper, sizes, input) explored under every schedule of its tasks (orders and worker assignment), or one (tuning setting or environment) configuration",
    assumptions: &["tasks of one parallel operation are atomic with respect to each other: the crate shares only immutable data between them (the type system rejects anything else short of unsafe code)", "rayon itself is trusted to run every task once"],
    hang_s: 120,
    run,
};

/// Cases whose tree of schedules was too large to finish.
static CAPPED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Every schedule (`full`), or those with up to `max_dev` deviations: first the sequential one,
/// then those with one deviation, and so on.  A tree that does not end within the budget is left
/// at the last bound it was finished for, and counted.
#[cfg(feature = "shim")]
fn schedules(full: bool, max_dev: usize, mut f: impl FnMut() -> Result<Vec<u64>, String>) -> Result<u64, String> {
    let mut first: Option<Vec<u64>> = None;
    let mut err = None;
    let start = std::time::Instant::now();
    let mut count = 0;
    let mut levels: Vec<usize> = (0..=max_dev).collect();
    if full {
        levels = vec![0, usize::MAX];
    }
    for d in levels {
        let mut late = false;
        let st = rayon::kmc::explore(d, 1_000_000, |name| {
            match f() {
                Err(m) => err = Some(format!("schedule [{name}]: {m}")),
                Ok(v) => match &first {
                    None => first = Some(v),
                    Some(w) if *w != v => err = Some(format!("schedule [{name}] gives another result than the sequential schedule")),
                    _ => {}
                },
            }
            // Many such trees share the time that a few may take.
            late = start.elapsed().as_millis() >= if CAPPED.load(std::sync::atomic::Ordering::Relaxed) < 16 { 15_000 } else { 500 };
            err.is_none() && !late
        });
        count += st.schedules;
        if let Some(m) = err {
            return Err(m);
        }
        if late || !st.complete {
            CAPPED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            break;
        }
    }
    Ok(count)
}
#[cfg(not(feature = "shim"))]
fn schedules(_full: bool, _max_dev: usize, mut f: impl FnMut() -> Result<Vec<u64>, String> + Send) -> Result<u64, String> {
    let mut first: Option<Vec<u64>> = None;
    let mut n = 0;
    for (threads, pool) in pools().iter() {
        for _ in 0..2 {
            let v = pool.install(&mut f).map_err(|m| format!("{threads} threads: {m}"))?;
            n += 1;
            match &first {
                None => first = Some(v),
                Some(w) if *w != v => return Err(format!("{threads} threads give another result than one")),
                _ => {}
            }
        }
    }
    Ok(n)
}
#[cfg(not(feature = "shim"))]
fn pools() -> &'static Vec<(usize, rayon::ThreadPool)> {
    static P: std::sync::OnceLock<Vec<(usize, rayon::ThreadPool)>> = std::sync::OnceLock::new();
    P.get_or_init(|| [1, 2, 3, 8].iter().map(|n| (*n, rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap())).collect())
}

fn bits<T: Num>(v: &[Complex<T>]) -> Vec<u64> {
    v.iter().flat_map(|c| [c.re.to().to_bits(), c.im.to().to_bits()]).collect()
}

fn stft_cases(cx: &Cx, n: usize, wl: usize, hop: usize, extra: usize, dev: usize) {
    stft_silent(cx, n, wl, hop, extra, dev, 0)
}
/// With the frames of the given set silent.
fn stft_silent(cx: &Cx, n: usize, wl: usize, hop: usize, extra: usize, dev: usize, silent: usize) {
    let mut sig: Vec<f32> = rv(&refs::probe(n, 101));
    for (i, v) in sig.iter_mut().enumerate() {
        if silent != 0 && silent >> (i / hop) & 1 == 1 {
            *v = 0.0;
        }
    }
    let win: Vec<f32> = rv(&refs::probe(wl, 102));
    let quiet = if silent == 0 { String::new() } else { format!("/silent={silent:b}") };
    let k = n.div_ceil(hop) + extra;
    let full = k <= 4;
    let eng = ScalarFftImpl::<f32>::default();
    let w = refs::roots(wl.max(1));
    let mut want = Vec::new();
    for f in 0..k {
        let x: Vec<C> = (0..wl).map(|i| (sig.get(f * hop + i).map_or(0.0, |s| (s * win[i]) as f64), 0.0)).collect();
        want.push((if wl > 200 { refs::fft(&x) } else { refs::dft_with(&x, &w) }, refs::norm2(&x)));
    }
    // What came before must not matter: the same work with another window and other data, once on
    // every thread that may take part.
    let before = |back: bool| {
        let win: Vec<f32> = rv(&refs::probe(wl, 108));
        let (mut o, mut x) = (vec![vec![]; k], vec![0.0f32; n + wl / 2]);
        for f in o.iter_mut() {
            *f = cv::<f32>(&refs::cprobe(wl, 109));
        }
        if back {
            let _ = inverse_parallel(&o, &win, hop, &mut x, &ScalarFftImpl::<f32>::default());
        } else {
            let _ = parallel(&rv::<f32>(&refs::probe(n, 107)), &win, hop, &mut o, &ScalarFftImpl::<f32>::default());
        }
    };
    cx.case(
        || format!("stft/signal={n}/window={wl}/hop={hop}/extra={extra}{quiet}"),
        || {
            before(false);
            let c = schedules(full, dev, || {
                if !cfg!(feature = "shim") {
                    before(false);
                }
                let mut o: Vec<Vec<Complex32>> = (0..k).map(|i| vec![Complex32::new(f32::NAN, 1.0); i % 3]).collect();
                let r = parallel(&sig, &win, hop, &mut o, &ScalarFftImpl::<f32>::default());
                if wl == 0 {
                    return if k == 0 || r == Err(FftError::EmptyInput) { Ok(vec![]) } else { Err(format!("{r:?} for an empty window")) };
                }
                r.map_err(e)?;
                for (i, fr) in o.iter().enumerate() {
                    close(&vc(fr), &want[i].0, 0.4 * fft_tol::<f32>(wl) * want[i].1 + 1e-30).map_err(|m| format!("frame {i}: {m}"))?;
                }
                Ok(o.iter().flat_map(|f| bits(f)).collect())
            })?;
            cx.transitions(c);
            Ok(c > 1)
        },
    );
    if wl == 0 {
        return;
    }
    // Synthesis: against the sequential form.
    let frames: Vec<Vec<Complex32>> = (0..k).map(|f| if silent != 0 && silent >> f & 1 == 1 { vec![Complex32::zero(); wl] } else { cv::<f32>(&refs::cprobe(wl, 103 + f as u64)) }).collect();
    let olen = n + wl / 2;
    let mut norm = vec![0.0f64; olen];
    let mut mag = vec![0.0f64; olen];
    for f in 0..k {
        let s = refs::norm2(&vc(&frames[f])) / (wl as f64).sqrt();
        for i in 0..wl {
            if f * hop + i < olen {
                norm[f * hop + i] += (win[i] as f64).powi(2);
                mag[f * hop + i] += (win[i] as f64).abs() * s;
            }
        }
    }
    cx.case(
        || format!("istft/signal={n}/window={wl}/hop={hop}/extra={extra}{quiet}"),
        || {
            let mut seq = vec![f32::NAN; olen];
            istft(&mut frames.clone(), &win, hop, &mut seq, &mut vec![0.0; olen], &eng).map_err(e)?;
            before(true);
            let c = schedules(full, dev, || {
                if !cfg!(feature = "shim") {
                    before(true);
                }
                let mut o = vec![f32::NAN; olen];
                inverse_parallel(&frames, &win, hop, &mut o, &ScalarFftImpl::<f32>::default()).map_err(e)?;
                for i in 0..olen {
                    if norm[i] > 1e-7 {
                        let tol = 0.3 * fft_tol::<f32>(wl) * mag[i] / norm[i] + 1e-6 * seq[i].abs() as f64;
                        if (o[i] - seq[i]).abs() as f64 > tol || o[i].is_nan() {
                            return Err(format!("sample {i}: {} but sequentially {}", o[i], seq[i]));
                        }
                    }
                }
                Ok(o.iter().map(|v| v.to_bits() as u64).collect())
            })?;
            cx.transitions(c);
            Ok(c > 1)
        },
    );
    if silent != 0 {
        return;
    }
    // A frame of a wrong length at every position: refused under every schedule, output untouched.
    for bad in 0..k.min(4) {
        cx.case(
            || format!("istft-bad{bad}/signal={n}/window={wl}/hop={hop}/extra={extra}"),
            || {
                let c = schedules(full, dev, || {
                    let mut fr = frames.clone();
                    fr[bad].push(Complex32::new(0.0, 0.0));
                    let mut o = vec![3.5f32; olen];
                    let r = inverse_parallel(&fr, &win, hop, &mut o, &ScalarFftImpl::<f32>::default());
                    if r != Err(FftError::MismatchedLengths) {
                        return Err(format!("{r:?} for a frame of a wrong length"));
                    }
                    Ok(vec![])
                })?;
                cx.transitions(c);
                Ok(true)
            },
        );
    }
}

fn inv_entries<T: Num>() -> Vec<Entry<T>> {
    vec![
        ("ifft", |x| {
            let mut v = x.to_vec();
            ScalarFftImpl::<T>::default().ifft(&mut v)?;
            Ok(v)
        }),
        ("ifft_parallel", |x| {
            let mut v = x.to_vec();
            ifft_parallel(&mut v)?;
            Ok(v)
        }),
        ("plan", |x| {
            let mut v = x.to_vec();
            FftPlan::<T>::new(x.len(), FftStrategy::Auto).ifft(&mut v)?;
            Ok(v)
        }),
        ("vec", |x| ScalarFftImpl::<T>::default().ifft_vec(x)),
        ("strided", |x| {
            let mut v = x.to_vec();
            ScalarFftImpl::<T>::default().ifft_strided_alloc(&mut v, 1)?;
            Ok(v)
        }),
        ("fft_parallel", |x| {
            // The forward transform of the conjugate, conjugated and scaled.
            let mut v: Vec<Complex<T>> = x.iter().map(|c| Complex::new(c.re, -c.im)).collect();
            fft_parallel(&mut v)?;
            let s = T::of(1.0 / x.len() as f64);
            Ok(v.iter().map(|c| Complex::new(c.re * s, -c.im * s)).collect())
        }),
        ("batch", |x| {
            let mut b = vec![x.to_vec(), x.to_vec()];
            batch_inverse(&ScalarFftImpl::<T>::default(), &mut b)?;
            Ok(b.remove(1))
        }),
    ]
}
fn inverse_cases<T: Num>(cx: &Cx, n: usize, setting: &str, dev: usize) {
    inverse_on::<T>(cx, n, setting, dev, &refs::cprobe(n, 110));
}
fn inverse_on<T: Num>(cx: &Cx, n: usize, setting: &str, dev: usize, x: &[C]) {
    let x = rounded::<T>(x);
    let want = refs::idft(&x);
    let tol = fft_tol::<T>(n) * refs::norm2(&x) / n as f64 + 1e-30;
    for (name, f) in inv_entries::<T>() {
        cx.case(
            || format!("{name}/{}/n={n}/{setting}", T::NAME),
            || {
                let c = schedules(dev > 0 && n <= if name == "batch" { 2 } else { 3 }, dev, || {
                    let y = f(&cv::<T>(&x)).map_err(e)?;
                    close(&vc(&y), &want, tol)?;
                    Ok(bits(&y))
                })?;
                cx.transitions(c);
                Ok(true)
            },
        );
    }
}
fn reset() {
    set_parallel_fft_threshold(0);
    set_parallel_fft_threads(0);
    set_parallel_fft_block_size(0);
    set_parallel_fft_l1_cache(0);
    set_parallel_fft_per_core_work(0);
}
const SETTINGS: [usize; 6] = [0, 1, 3, 64, 4096, usize::MAX];
fn apply(c: &[usize; 5]) {
    set_parallel_fft_threshold(c[0]);
    set_parallel_fft_threads(c[1]);
    set_parallel_fft_block_size(c[2]);
    set_parallel_fft_l1_cache(c[3]);
    set_parallel_fft_per_core_work(c[4]);
}

const ENV: [&str; 5] = ["KOFFT_PAR_FFT_THRESHOLD", "KOFFT_PAR_FFT_CACHE_BYTES", "KOFFT_PAR_FFT_PER_CORE_WORK", "KOFFT_PAR_FFT_BLOCK_SIZE", "KOFFT_PAR_FFT_THREADS"];
const VALUES: [&str; 8] = ["0", "1", "64", "abc", "", "-3", "18446744073709551615", "99999999999999999999"];

/// Runs in a child process, under the environment being explored.
fn probe_main() -> ! {
    for setting in [[0; 5], [1, 0, 0, 0, 0], [0, 3, 0, 0, 0], [0, usize::MAX, 1, 1, 1]] {
        apply(&setting);
        for n in [1usize, 2, 3, 8, 17, 64, 100, 256, 1000, 4096] {
            one_probe::<f32>(n, setting);
            one_probe::<f64>(n, setting);
        }
    }
    println!("OK");
    std::process::exit(0);
}
fn one_probe<T: Num>(n: usize, setting: [usize; 5]) {
    let x = rounded::<T>(&refs::cprobe(n, 111));
    let want = refs::idft(&x);
    for (name, f) in inv_entries::<T>() {
        let r = f(&cv::<T>(&x)).map_err(e).and_then(|y| close(&vc(&y), &want, fft_tol::<T>(n) * refs::norm2(&x) / n as f64));
        if let Err(m) = r {
            println!("{name} {} n={n} settings {setting:?}: {m}", T::NAME);
            std::process::exit(0);
        }
    }
}
fn env_case(cx: &Cx, set: &[(usize, usize)]) {
    let name: Vec<String> = set.iter().map(|(v, k)| format!("{}={:?}", ENV[*v], VALUES[*k])).collect();
    cx.case(
        || format!("environment/{}", name.join(",")),
        || {
            let mut c = std::process::Command::new(std::env::current_exe().unwrap());
            c.arg("--probe");
            for v in ENV {
                c.env_remove(v);
            }
            for (v, k) in set {
                c.env(ENV[*v], VALUES[*k]);
            }
            let o = c.output().map_err(e)?;
            let t = String::from_utf8_lossy(&o.stdout);
            if t.trim_end() != "OK" {
                return Err(format!("{} ({}) {}", t.trim_end(), o.status, String::from_utf8_lossy(&o.stderr).replace('\n', " ")));
            }
            Ok(true)
        },
    );
}

fn run(eng: &Eng) {
    let (ns, wm, hm, dev) = eng.pick((7, 5, 8, 2), (11, 8, 12, 3));
    let (ni, nd) = eng.pick((16, 400), (48, 1500));
    let shim = cfg!(feature = "shim");
    eng.note("scheduler", if shim { "controlled (stand-in for rayon)" } else { "FALLBACK: the tree does not build against the stand-in; real rayon with pools of 1, 2, 3, 8 threads" });
    if !shim {
        eng.cap();
    }
    eng.note("bounds", format!("short-time transforms: signal 0..={ns} x window 0..={wm} x hop 1..={hm}, every schedule for <=4 frames, <={dev} deviations above; inverse FFT: every order of its element tasks for n<=3, <={dev} deviations to n={ni}, <=1 to n=64, sequential to n={nd}; every set of silent frames for <=4 frames and windows to 3, special spectra to n=40"));
    reset();
    let mut units: Vec<Unit> = Vec::new();
    for n in 0..=ns {
        for wl in 0..=wm {
            units.push(Box::new(move |cx| {
                for hop in 1..=hm {
                    for extra in 0..2 {
                        stft_cases(cx, n, wl, hop, extra, dev);
                        let k = n.div_ceil(hop) + extra;
                        if wl > 0 && wl <= 3 && k <= 4 {
                            for silent in 1..1usize << k {
                                stft_silent(cx, n, wl, hop, extra, dev, silent);
                            }
                        }
                    }
                }
            }));
        }
    }
    for (n, wl, hop) in [(40usize, 16usize, 3usize), (200, 64, 16), (400, 100, 37), (3000, 512, 128), (6000, 1024, 256)] {
        units.push(Box::new(move |cx| stft_cases(cx, n, wl, hop, 1, 1)));
    }
    eng.run_units(units);
    // Inverse transforms that go parallel from the first element on.
    set_parallel_fft_threshold(1);
    let mut units: Vec<Unit> = Vec::new();
    for n in 1..=nd {
        let d = if n <= ni { dev } else if n <= 64 { 1 } else { 0 };
        units.push(Box::new(move |cx| {
            inverse_cases::<f32>(cx, n, "threshold=1", d);
            if n <= 40 {
                for (name, x) in special(n) {
                    inverse_on::<f32>(cx, n, &format!("threshold=1/{name}"), 0, &x);
                    inverse_on::<f64>(cx, n, &format!("threshold=1/{name}"), 0, &x);
                }
            }
            if n <= 64 {
                inverse_cases::<f64>(cx, n, "threshold=1", d);
                inverse_cases::<W>(cx, n, "threshold=1", d);
            }
        }));
    }
    eng.run_units(units);
    reset();
    // Every setting of the five tuning knobs.
    let mut units: Vec<Unit> = Vec::new();
    let total = SETTINGS.len().pow(5);
    let step = eng.pick(1, 1);
    units.push(Box::new(move |cx| {
        for i in (0..total).step_by(step) {
            let mut c = [0usize; 5];
            let mut k = i;
            for v in c.iter_mut() {
                *v = SETTINGS[k % SETTINGS.len()];
                k /= SETTINGS.len();
            }
            apply(&c);
            for n in [3usize, 8, 64] {
                inverse_cases::<f32>(cx, n, &format!("settings={c:?}"), 0);
            }
        }
        reset();
    }));
    eng.run_serial(units);
    // Every pair of environment variables (every variable alone included).
    let mut units: Vec<Unit> = Vec::new();
    for a in 0..5 {
        for va in 0..VALUES.len() {
            units.push(Box::new(move |cx| {
                env_case(cx, &[(a, va)]);
                for b in a + 1..5 {
                    for vb in 0..VALUES.len() {
                        env_case(cx, &[(a, va), (b, vb)]);
                    }
                }
            }));
        }
    }
    eng.run_units(units);
    let capped = CAPPED.load(std::sync::atomic::Ordering::Relaxed);
    if capped > 0 {
        eng.cap();
        eng.note("unfinished trees of schedules", capped);
    }
    if std::env::var("KMC_STAT").is_ok() {
        eprintln!("max deviation/tolerance = {}", stat_max());
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--probe") {
        probe_main();
    }
    kmc_engine::main_with(&[DEF]);
}

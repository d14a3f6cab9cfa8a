//! C01: every complex FFT entry point computes the DFT of its input, at every length.
use kmc_core::common::*;
use kmc_core::entries::*;

pub const DEF: CheckDef = CheckDef {
    id: "C01",
    level: Level::Exploration,
    rule: "one case = (element type, entry point, length, input family); non-trivial = the input is non-zero and the transform ran; a linear map is decided by the complete set of basis vectors e_j and i*e_j, dense probes check superposition",
    assumptions: &["reference DFT evaluated in f64 with exactly reduced roots of unity"],
    hang_s: 120,
    run,
};

pub fn families(n: usize, large: bool) -> Vec<(String, Vec<C>, Option<Vec<C>>)> {
    let mut v: Vec<(String, Vec<C>, Option<Vec<C>>)> = Vec::new();
    let w = refs::roots(n);
    for salt in 0..if large { 1 } else { 2 } {
        v.push((format!("probe{salt}"), refs::cprobe(n, salt), None));
    }
    // A complex tone has a one-line spectrum.
    let b = (n / 3 + 1) % n;
    let tone: Vec<C> = (0..n).map(|i| (w[i * b % n].0, -w[i * b % n].1)).collect();
    let mut line = vec![(0.0, 0.0); n];
    line[b] = (n as f64, 0.0);
    v.push((format!("tone{b}"), tone, Some(line)));
    for j in [0, 1, n / 2, n - 1] {
        let j = j % n;
        let mut x = vec![(0.0, 0.0); n];
        x[j] = (0.75, -0.5);
        let y = (0..n).map(|k| cm((0.75, -0.5), w[j * k % n])).collect();
        v.push((format!("impulse{j}"), x, Some(y)));
    }
    v.push(("const".into(), vec![(1.0, 0.0); n], None));
    v.push(("ramp".into(), (0..n).map(|i| (i as f64 / n as f64, -0.5)).collect(), None));
    v.push(("huge".into(), refs::cprobe(n, 5).iter().map(|c| (c.0 * 1048576.0, c.1 * 1048576.0)).collect(), None));
    v.push(("tiny".into(), refs::cprobe(n, 6).iter().map(|c| (c.0 / 1048576.0, c.1 / 1048576.0)).collect(), None));
    v.push(("real".into(), refs::probe(n, 7).iter().map(|c| (*c, 0.0)).collect(), None));
    v.push(("imag".into(), refs::probe(n, 8).iter().map(|c| (0.0, *c)).collect(), None));
    v.push(("sparse".into(), (0..n).map(|i| if i % 7 == 3 { (-1.0, 0.25) } else { (0.0, -0.0) }).collect(), None));
    v
}
fn special_case<T: Num>(cx: &Cx, n: usize, fams: &[(String, Vec<C>, Vec<C>)], ents: &[Entry<T>]) {
    for (name, f) in ents {
        cx.case(
            || format!("{}/{name}/n={n}/special", T::NAME),
            || {
                for (fam, x, y) in fams {
                    let got = f(&cv::<T>(x)).map_err(|er| format!("{fam}: unexpected error {er:?}"))?;
                    close(&vc(&got), y, fft_tol::<T>(n) * refs::norm2(x).max(1e-30)).map_err(|m| format!("{fam}: {m}"))?;
                }
                Ok(true)
            },
        );
    }
}
/// The same signal at every order of magnitude that the type can represent.
fn scaled<T: Num>(cx: &Cx, n: usize, ents: &[Entry<T>]) {
    let x = rounded::<T>(&refs::cprobe(n, 9));
    let y = refs::dft(&x);
    let norm = refs::norm2(&x);
    let (exps, step) = scales::<T>();
    for (name, f) in ents {
        cx.case(
            || format!("{}/{name}/n={n}/scaled", T::NAME),
            || {
                for k in exps {
                    let s = 2f64.powi(*k);
                    let at = |v: &[C]| v.iter().map(|c| (c.0 * s, c.1 * s)).collect::<Vec<C>>();
                    // In the subnormal range a product is off by its smallest step, in the chirp
                    // convolution once for every one of its points.
                    let tol = fft_tol::<T>(n) * norm * s + 16.0 * n as f64 * step.max(2f64.powi(-1074));
                    let got = f(&cv::<T>(&at(&x))).map_err(|er| format!("2^{k}: unexpected error {er:?}"))?;
                    close(&vc(&got), &at(&y), tol).map_err(|m| format!("2^{k}: {m}"))?;
                }
                Ok(true)
            },
        );
    }
}
fn cm(a: C, b: C) -> C {
    kmc_engine::refs::cmul(a, b)
}

fn dense<T: Num>(cx: &Cx, n: usize, fams: &[(String, Vec<C>, Vec<C>)], ents: &[Entry<T>]) {
    for (name, f) in ents {
        cx.case(
            || format!("{}/{name}/n={n}/dense", T::NAME),
            || {
                for (fam, x, y) in fams {
                    let got = f(&cv::<T>(x)).map_err(|er| format!("{fam}: unexpected error {er:?}"))?;
                    close(&vc(&got), y, fft_tol::<T>(n) * refs::norm2(x).max(1e-30)).map_err(|m| format!("{fam}: {m}"))?;
                }
                Ok(true)
            },
        );
    }
}
fn basis<T: Num>(cx: &Cx, n: usize, ents: &[Entry<T>]) {
    let w = refs::roots(n);
    for (name, f) in ents {
        cx.case(
            || format!("{}/{name}/n={n}/basis", T::NAME),
            || {
                for j in 0..n {
                    for im in [false, true] {
                        let mut x = vec![Complex::<T>::zero(); n];
                        let v = if im { (0.0, 1.0) } else { (1.0, 0.0) };
                        x[j] = Complex::new(T::of(v.0), T::of(v.1));
                        let got = f(&x).map_err(|er| format!("e_{j}: unexpected error {er:?}"))?;
                        let y: Vec<C> = (0..n).map(|k| cm(v, w[j * k % n])).collect();
                        close(&vc(&got), &y, fft_tol::<T>(n)).map_err(|m| format!("basis {j} {im}: {m}"))?;
                    }
                }
                Ok(true)
            },
        );
    }
}

/// A quadratic chirp, whose spectrum is known in closed form, at any length.
fn sweep<T: Num>(cx: &Cx, n: usize, (x, y): &(Vec<C>, Vec<C>), ents: &[Entry<T>], short: bool) {
    for (name, f) in ents {
        if short && !["fft", "best", "best-split", "splitarrays"].contains(name) {
            continue;
        }
        cx.case(
            || format!("{}/{name}/n={n}/chirp", T::NAME),
            || {
                let got = f(&cv::<T>(x)).map_err(|er| format!("unexpected error {er:?}"))?;
                close(&vc(&got), y, fft_tol::<T>(n) * (n as f64).sqrt())?;
                Ok(true)
            },
        );
    }
}

fn with_special<T: Num>(n: usize) -> Vec<(String, Vec<C>, Vec<C>)> {
    special(n)
        .into_iter()
        .map(|(a, x)| {
            let x = rounded::<T>(&x);
            let y = refs::dft(&x);
            (a, x, y)
        })
        .collect()
}

/// Lengths beyond the contiguous range: all products 2^a 3^b 5^c, neighbours of powers of two,
/// and some primes, up to `max`.
fn with_fams<T: Num>(n: usize) -> Vec<(String, Vec<C>, Vec<C>)> {
    let w = if n <= 2048 { refs::roots(n) } else { vec![] };
    // For long lengths with a large prime factor only the families with a known spectrum are used.
    let hard = n > 4096 && max_prime(n) > 300;
    families(n, n > 4096)
        .into_iter()
        .filter(|f| !hard || f.2.is_some())
        .map(|(a, x, y)| {
            let x = rounded::<T>(&x);
            let y = match y {
                Some(y) => y,
                None if n <= 256 => refs::dft_with(&x, &w),
                None => refs::fft(&x),
            };
            (a, x, y)
        })
        .collect()
}

fn max_prime(mut n: usize) -> usize {
    let mut best = 1;
    let mut d = 2;
    while d * d <= n {
        while n.is_multiple_of(d) {
            best = best.max(d);
            n /= d;
        }
        d += 1;
    }
    best.max(n)
}

fn run(eng: &Eng) {
    let (nb, nd, nl) = eng.pick3((32, 100, 2100), (128, 700, 33000), (512, 4200, 1 << 20));
    let e32: Vec<Entry<f32>> = entries::<f32>().into_iter().chain(entries32()).collect();
    let e64 = entries::<f64>();
    let ew = entries::<W>();
    eng.note("entry_points", format!("f32:{} f64:{} user:{}", e32.len(), e64.len(), ew.len()));
    eng.note("bounds", format!("complete basis n<=ALL {nb}; dense families n<=ALL {nd}; selected n<= {nl}"));
    let mut units: Vec<Unit> = Vec::new();
    let (e32, e64, ew) = (&e32, &e64, &ew);
    let mut both = |n: usize, b: bool, d: bool| {
        units.push(Box::new(move |cx| {
            if d {
                let f = with_fams::<f32>(n);
                dense::<f32>(cx, n, &f, e32);
                let f = with_fams::<f64>(n);
                dense::<f64>(cx, n, &f, e64);
                dense::<W>(cx, n, &f, ew);
            }
            if b {
                basis::<f32>(cx, n, e32);
                basis::<f64>(cx, n, e64);
                basis::<W>(cx, n, ew);
            }
        }));
    };
    for n in 1..=nb {
        both(n, true, true);
    }
    for n in nb + 1..=nd {
        both(n, false, true);
    }
    for n in extra_lengths(nd, nl) {
        both(n, false, true);
    }
    for n in 1..=eng.pick3(40, 140, 520) {
        units.push(Box::new(move |cx| {
            let f = with_special::<f32>(n);
            special_case(cx, n, &f, e32);
            let f = with_special::<f64>(n);
            special_case(cx, n, &f, e64);
            special_case(cx, n, &f, ew);
            scaled(cx, n, e32);
            scaled(cx, n, e64);
            scaled(cx, n, ew);
        }));
    }
    let (all, some) = eng.pick3((300, 900), (4200, 16_500), (16_500, 70_000));
    eng.note("chirps", format!("a quadratic chirp (spectrum in closed form) at every length to {all} through every entry point and at every length to {some} through the main ones"));
    for lo in (1..=some).step_by(32) {
        units.push(Box::new(move |cx| {
            for n in lo..(lo + 32).min(some + 1) {
                let c = refs::chirp(n);
                sweep::<f32>(cx, n, &c, e32, n > all);
                sweep::<f64>(cx, n, &c, e64, n > all);
                if n <= all {
                    sweep::<W>(cx, n, &c, ew, true);
                }
            }
        }));
    }
    for n in long_lengths(eng) {
        units.push(Box::new(move |cx| {
            let c = refs::chirp(n);
            sweep::<f32>(cx, n, &c, e32, false);
            sweep::<f64>(cx, n, &c, e64, false);
            sweep::<W>(cx, n, &c, ew, true);
        }));
    }
    // The longest first: they would otherwise be waited for at the end.
    units.rotate_right(long_lengths(eng).len());
    eng.note("long lengths", format!("a chirp through every entry point at {:?}", long_lengths(eng)));
    // The exported fixed-size kernels.
    units.push(Box::new(|cx| kernels::<f32>(cx)));
    units.push(Box::new(|cx| kernels::<f64>(cx)));
    units.push(Box::new(|cx| kernels::<W>(cx)));
    // The reference transform itself.
    units.push(Box::new(|cx| {
        for n in 1..=cx.eng.pick3(60, 200, 200) {
            cx.case(
                || format!("reference/n={n}"),
                || {
                    let x = refs::cprobe(n, 3);
                    close(&refs::fft(&x), &refs::dft(&x), 1e-13 * (n as f64))?;
                    let (x, y) = refs::chirp(n);
                    close(&y, &refs::dft(&x), 1e-13 * (n as f64))?;
                    Ok(true)
                },
            );
        }
    }));
    eng.run_units(units);
    if std::env::var("KMC_STAT").is_ok() {
        eprintln!("max deviation/tolerance = {}", stat_max());
    }
}
fn kernels<T: Num>(cx: &Cx) {
    let ents: Vec<(&'static str, usize, fn(&mut [Complex<T>]))> = vec![("kernel8", 8, |x| fft8(x)), ("kernel16", 16, |x| fft16(x))];
    for (name, n, f) in ents {
        let w = refs::roots(n);
        for j in 0..2 * n {
            cx.case(
                || format!("{}/{name}/e{j}", T::NAME),
                || {
                    let mut x = vec![Complex::<T>::zero(); n];
                    let v = if j >= n { (0.0, 1.0) } else { (1.0, 0.0) };
                    x[j % n] = Complex::new(T::of(v.0), T::of(v.1));
                    f(&mut x);
                    let y: Vec<C> = (0..n).map(|k| cm(v, w[(j % n) * k % n])).collect();
                    close(&vc(&x), &y, fft_tol::<T>(n))?;
                    Ok(true)
                },
            );
        }
    }
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}

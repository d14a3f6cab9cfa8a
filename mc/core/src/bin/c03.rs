//! C03: every inverse entry point computes the inverse DFT (scaled by 1/n) and undoes the forward
//! transform.
use kmc_core::common::*;
use kmc_core::entries::*;

pub const DEF: CheckDef = CheckDef {
    id: "C03",
    level: Level::Exploration,
    rule: "one case = (element type, inverse entry point, length, family); 'basis' explores all 2n basis spectra, 'dense' compares dense spectra with the definition and every forward entry point followed by the inverse with the identity",
    assumptions: &["reference inverse DFT evaluated in f64 with exactly reduced roots of unity"],
    hang_s: 120,
    run,
};


fn basis<T: Num>(cx: &Cx, n: usize, inv: &[Entry<T>]) {
    let w = refs::roots(n);
    let s = 1.0 / n as f64;
    for (name, f) in inv {
        cx.case(
            || format!("{}/{name}/n={n}/basis", T::NAME),
            || {
                for j in 0..n {
                    for im in [false, true] {
                        let v = if im { (0.0, 1.0) } else { (1.0, 0.0) };
                        let mut x = vec![Complex::<T>::zero(); n];
                        x[j] = Complex::new(T::of(v.0), T::of(v.1));
                        let got = f(&x).map_err(|er| format!("E_{j}: unexpected error {er:?}"))?;
                        let y: Vec<C> = (0..n)
                            .map(|k| {
                                let c = w[j * k % n];
                                let c = refs::cmul(v, (c.0, -c.1));
                                (c.0 * s, c.1 * s)
                            })
                            .collect();
                        close(&vc(&got), &y, fft_tol::<T>(n) * s).map_err(|m| format!("basis {j} {im}: {m}"))?;
                    }
                }
                Ok(true)
            },
        );
    }
}
fn dense<T: Num>(cx: &Cx, n: usize, inv: &[Entry<T>], fwd: &[Entry<T>], cross: bool, hard: bool) {
    let x = rounded::<T>(&refs::cprobe(n, 21));
    let tol = fft_tol::<T>(n) * refs::norm2(&x);
    if !hard {
        let want = refs::idft(&x);
        for (name, f) in inv {
            cx.case(
                || format!("{}/{name}/n={n}/dense", T::NAME),
                || {
                    let got = f(&cv::<T>(&x)).map_err(|er| format!("unexpected error {er:?}"))?;
                    close(&vc(&got), &want, tol / n as f64)?;
                    Ok(true)
                },
            );
        }
    }
    // Forward then inverse.
    for (fi, (fname, g)) in fwd.iter().enumerate() {
        for (ii, (iname, f)) in inv.iter().enumerate() {
            // Every pair for short lengths, a covering set of pairs for longer ones.
            if !cross && (fi * 7 + 3) % inv.len() != ii && fi != 0 && ii != 0 {
                continue;
            }
            cx.case(
                || format!("{}/{fname}+{iname}/n={n}/roundtrip", T::NAME),
                || {
                    let y = g(&cv::<T>(&x)).map_err(|er| format!("forward: unexpected error {er:?}"))?;
                    let got = f(&y).map_err(|er| format!("inverse: unexpected error {er:?}"))?;
                    close(&vc(&got), &x, tol)?;
                    Ok(true)
                },
            );
        }
    }
}

/// The inverse of a chirp's spectrum is the chirp.
fn sweep<T: Num>(cx: &Cx, n: usize, (x, y): &(Vec<C>, Vec<C>), inv: &[Entry<T>], short: bool) {
    for (name, f) in inv {
        if short && !["ifft", "best", "best-split", "splitarrays"].contains(name) {
            continue;
        }
        cx.case(
            || format!("{}/{name}/n={n}/chirp", T::NAME),
            || {
                let got = f(&cv::<T>(y)).map_err(|er| format!("unexpected error {er:?}"))?;
                close(&vc(&got), x, fft_tol::<T>(n))?;
                Ok(true)
            },
        );
    }
}
/// The same spectrum at every order of magnitude that the type can represent.
fn scaled<T: Num>(cx: &Cx, n: usize, inv: &[Entry<T>]) {
    let x = rounded::<T>(&refs::cprobe(n, 9));
    let y = refs::idft(&x);
    let norm = refs::norm2(&x) / n as f64;
    let (exps, step) = scales::<T>();
    for (name, f) in inv {
        cx.case(
            || format!("{}/{name}/n={n}/scaled", T::NAME),
            || {
                for k in exps {
                    let s = 2f64.powi(*k);
                    let at = |v: &[C]| v.iter().map(|c| (c.0 * s, c.1 * s)).collect::<Vec<C>>();
                    let tol = fft_tol::<T>(n) * norm * s + 16.0 * n as f64 * step.max(2f64.powi(-1074));
                    let got = f(&cv::<T>(&at(&x))).map_err(|er| format!("2^{k}: unexpected error {er:?}"))?;
                    close(&vc(&got), &at(&y), tol).map_err(|m| format!("2^{k}: {m}"))?;
                }
                Ok(true)
            },
        );
    }
}
/// Spectra a shortcut might single out.
fn special<T: Num>(cx: &Cx, n: usize, inv: &[Entry<T>]) {
    let p = refs::cprobe(n, 9);
    let r = refs::probe(n, 10);
    let sets: Vec<(&str, Vec<C>)> = vec![
        ("zero", vec![(0.0, 0.0); n]),
        ("real", r.iter().map(|a| (*a, 0.0)).collect()),
        ("imaginary", r.iter().map(|a| (0.0, *a)).collect()),
        ("equal-parts", r.iter().map(|a| (*a, *a)).collect()),
        ("hermitian", (0..n).map(|i| if i == 0 || 2 * i == n { (p[i].0, 0.0) } else if 2 * i < n { p[i] } else { (p[n - i].0, -p[n - i].1) }).collect()),
        ("constant", vec![(1.0, -0.25); n]),
        ("alternating", (0..n).map(|i| (if i % 2 == 0 { 1.0 } else { -1.0 }, 0.5)).collect()),
        ("first-half", (0..n).map(|i| if 2 * i < n { p[i] } else { (0.0, 0.0) }).collect()),
        ("last-half", (0..n).map(|i| if 2 * i >= n { p[i] } else { (0.0, 0.0) }).collect()),
        ("even-bins", (0..n).map(|i| if i % 2 == 0 { p[i] } else { (0.0, 0.0) }).collect()),
        ("odd-bins", (0..n).map(|i| if i % 2 == 1 { p[i] } else { (0.0, 0.0) }).collect()),
        ("no-dc", (0..n).map(|i| if i == 0 { (0.0, 0.0) } else { p[i] }).collect()),
        ("large", p.iter().map(|c| (c.0 * 1048576.0, c.1 * 1048576.0)).collect()),
        ("small", p.iter().map(|c| (c.0 / 1048576.0, c.1 / 1048576.0)).collect()),
        ("offset", p.iter().map(|c| (c.0 + 1000.0, c.1 - 1000.0)).collect()),
    ];
    let sets: Vec<(&str, Vec<C>, Vec<C>)> = sets
        .into_iter()
        .map(|(a, x)| {
            let x = rounded::<T>(&x);
            let y = refs::idft(&x);
            (a, x, y)
        })
        .collect();
    for (name, f) in inv {
        cx.case(
            || format!("{}/{name}/n={n}/special", T::NAME),
            || {
                for (fam, x, y) in &sets {
                    let got = f(&cv::<T>(x)).map_err(|er| format!("{fam}: unexpected error {er:?}"))?;
                    close(&vc(&got), y, fft_tol::<T>(n) * refs::norm2(x).max(1e-30) / n as f64).map_err(|m| format!("{fam}: {m}"))?;
                }
                Ok(true)
            },
        );
    }
}

fn run(eng: &Eng) {
    let (nb, nc, nd, nl) = eng.pick3((34, 20, 130, 5000), (96, 40, 520, 33000), (512, 256, 4200, 1 << 18));
    let i32v: Vec<Entry<f32>> = inverses::<f32>().into_iter().chain(inverses32()).collect();
    let f32v: Vec<Entry<f32>> = entries::<f32>().into_iter().chain(entries32()).collect();
    let (i64v, f64v) = (inverses::<f64>(), entries::<f64>());
    let (iwv, fwv) = (inverses::<W>(), entries::<W>());
    eng.note("entry_points", format!("inverse f32:{} f64:{} user:{}", i32v.len(), i64v.len(), iwv.len()));
    eng.note("bounds", format!("complete basis n<={nb}; every forward/inverse pair n<={nc}; covering pairs n<={nd}; selected n<={nl}"));
    let mut units: Vec<Unit> = Vec::new();
    let mut lens: Vec<usize> = (1..=nd).collect();
    lens.extend(extra_lengths(nd, nl));
    for n in lens {
        let (i32v, f32v, i64v, f64v, iwv, fwv) = (&i32v, &f32v, &i64v, &f64v, &iwv, &fwv);
        units.push(Box::new(move |cx| {
            if n <= nb {
                basis::<f32>(cx, n, i32v);
                basis::<f64>(cx, n, i64v);
                basis::<W>(cx, n, iwv);
            }
            let hard = n > 4096;
            dense::<f32>(cx, n, i32v, f32v, n <= nc, hard);
            dense::<f64>(cx, n, i64v, f64v, n <= nc, hard);
            dense::<W>(cx, n, iwv, fwv, n <= nc, hard);
        }));
    }
    let (all, some, sp) = eng.pick3((300, 900, 40), (4200, 16_500, 140), (16_500, 70_000, 520));
    eng.note("chirps", format!("the spectrum of a quadratic chirp at every length to {all} through every entry point and at every length to {some} through the main ones; special spectra at every length to {sp}"));
    let (i32v, i64v, iwv) = (&i32v, &i64v, &iwv);
    for n in 1..=sp {
        units.push(Box::new(move |cx| {
            special::<f32>(cx, n, i32v);
            special::<f64>(cx, n, i64v);
            special::<W>(cx, n, iwv);
            scaled::<f32>(cx, n, i32v);
            scaled::<f64>(cx, n, i64v);
            scaled::<W>(cx, n, iwv);
        }));
    }
    for lo in (1..=some).step_by(32) {
        units.push(Box::new(move |cx| {
            for n in lo..(lo + 32).min(some + 1) {
                let c = refs::chirp(n);
                sweep::<f32>(cx, n, &c, i32v, n > all);
                sweep::<f64>(cx, n, &c, i64v, n > all);
                if n <= all {
                    sweep::<W>(cx, n, &c, iwv, true);
                }
            }
        }));
    }
    for n in long_lengths(eng) {
        units.push(Box::new(move |cx| {
            let c = refs::chirp(n);
            sweep::<f32>(cx, n, &c, i32v, false);
            sweep::<f64>(cx, n, &c, i64v, false);
            sweep::<W>(cx, n, &c, iwv, true);
        }));
    }
    // The longest first: they would otherwise be waited for at the end.
    units.rotate_right(long_lengths(eng).len());
    // A length that f32 cannot represent.
    if !eng.small() {
        units.insert(
            0,
            Box::new(move |cx| {
                type F = fn(&mut [Complex<f64>]) -> Result<(), FftError>;
                let forms: &[(&str, F)] = &[
                    ("engine", |v| ScalarFftImpl::<f64>::default().ifft(v)),
                    #[cfg(feature = "std")]
                    ("plan", |v| FftPlan::<f64>::new(v.len(), FftStrategy::Auto).ifft(v)),
                ];
                let n = (1usize << 24) + 1;
                for &(name, f) in forms {
                    cx.case(
                        || format!("f64/huge/{name}/n={n}"),
                        || {
                            let mut v = vec![Complex::new(0.0, 0.0); n];
                            v[0] = Complex::new(1.0, -0.5);
                            f(&mut v).map_err(|e| format!("unexpected error {e:?}"))?;
                            let want = (1.0 / n as f64, -0.5 / n as f64);
                            for (i, c) in v.iter().enumerate() {
                                let d = (c.re - want.0).abs().max((c.im - want.1).abs());
                                if !(d <= 1e-11 / n as f64) {
                                    return Err(format!("[{i}]: {c:?} instead of {want:?}"));
                                }
                            }
                            Ok(true)
                        },
                    );
                }
            }),
        );
    }
    eng.note("long lengths", format!("a chirp's spectrum through every entry point at {:?}", long_lengths(eng)));
    eng.run_units(units);
    if std::env::var("KMC_STAT").is_ok() {
        eprintln!("max deviation/tolerance = {}", stat_max());
    }
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}

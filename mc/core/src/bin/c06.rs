//! C06: every real-FFT entry point computes the non-redundant half of the DFT of a real signal,
//! and every inverse real-FFT entry point the signal whose half-spectrum it is given.
use kmc_core::common::*;
use kmc_core::entries::{extra_lengths, long_lengths, Minimal};
use kofft::rfft::*;

pub const DEF: CheckDef = CheckDef {
    id: "C06",
    level: Level::Exploration,
    rule: "one case = (element type, engine, entry point, length, family); 'basis' explores every unit impulse (forward) and every unit bin, real and imaginary (inverse), which determines a linear map completely; 'dense' compares dense signals with the definition and the round trip",
    assumptions: &["reference DFT evaluated in f64 with exactly reduced roots of unity", "the imaginary parts of the DC and Nyquist bins given to an inverse are ignored (the spectrum of a real signal has none there)"],
    hang_s: 120,
    run,
};

type Fwd<T, F> = (&'static str, fn(&F, &[T]) -> Result<Vec<Complex<T>>, FftError>);
type Inv<T, F> = (&'static str, fn(&F, &[Complex<T>], usize) -> Result<Vec<T>, FftError>);

fn mark<T: Num>() -> Complex<T> {
    Complex::new(T::of(f64::NAN), T::of(f64::NAN))
}
fn fwds<T: Num + RealFftNum, F: FftImpl<T>>() -> Vec<Fwd<T, F>> {
    vec![
        ("planner", |f, x| {
            let mut o = vec![mark(); x.len() / 2 + 1];
            RfftPlanner::new().rfft(f, &mut x.to_vec(), &mut o)?;
            Ok(o)
        }),
        ("planner-scratch", |f, x| {
            let mut o = vec![mark(); x.len() / 2 + 1];
            let mut s = vec![mark(); x.len() / 2];
            RfftPlanner::new().rfft_with_scratch(f, &mut x.to_vec(), &mut o, &mut s)?;
            Ok(o)
        }),
        ("planner-longscratch", |f, x| {
            let mut o = vec![mark(); x.len() / 2 + 1];
            let mut s = vec![mark(); x.len() / 2 + 5];
            RfftPlanner::new().rfft_with_scratch(f, &mut x.to_vec(), &mut o, &mut s)?;
            Ok(o)
        }),
        ("trait", |f, x| {
            let mut o = vec![mark(); x.len() / 2 + 1];
            RealFftImpl::rfft(f, &mut x.to_vec(), &mut o)?;
            Ok(o)
        }),
        ("trait-scratch", |f, x| {
            let mut o = vec![mark(); x.len() / 2 + 1];
            let mut s = vec![mark(); x.len() / 2];
            RealFftImpl::rfft_with_scratch(f, &mut x.to_vec(), &mut o, &mut s)?;
            Ok(o)
        }),
        ("packed", |f, x| {
            let mut o = vec![mark(); x.len() / 2 + 1];
            let mut s = vec![mark(); x.len() / 2 + 3];
            rfft_packed(&mut RfftPlanner::new(), f, &mut x.to_vec(), &mut o, &mut s)?;
            Ok(o)
        }),
    ]
}
fn invs<T: Num + RealFftNum, F: FftImpl<T>>() -> Vec<Inv<T, F>> {
    vec![
        ("planner", |f, x, n| {
            let mut o = vec![T::of(f64::NAN); n];
            RfftPlanner::new().irfft(f, &mut x.to_vec(), &mut o)?;
            Ok(o)
        }),
        ("planner-scratch", |f, x, n| {
            let mut o = vec![T::of(f64::NAN); n];
            let mut s = vec![mark(); n / 2];
            RfftPlanner::new().irfft_with_scratch(f, &mut x.to_vec(), &mut o, &mut s)?;
            Ok(o)
        }),
        ("planner-longscratch", |f, x, n| {
            let mut o = vec![T::of(f64::NAN); n];
            let mut s = vec![mark(); n / 2 + 5];
            RfftPlanner::new().irfft_with_scratch(f, &mut x.to_vec(), &mut o, &mut s)?;
            Ok(o)
        }),
        ("trait", |f, x, n| {
            let mut o = vec![T::of(f64::NAN); n];
            RealFftImpl::irfft(f, &mut x.to_vec(), &mut o)?;
            Ok(o)
        }),
        ("trait-scratch", |f, x, n| {
            let mut o = vec![T::of(f64::NAN); n];
            let mut s = vec![mark(); n / 2];
            RealFftImpl::irfft_with_scratch(f, &mut x.to_vec(), &mut o, &mut s)?;
            Ok(o)
        }),
        ("packed", |f, x, n| {
            let mut o = vec![T::of(f64::NAN); n];
            let mut s = vec![mark(); n / 2 + 3];
            irfft_packed(&mut RfftPlanner::new(), f, &mut x.to_vec(), &mut o, &mut s)?;
            Ok(o)
        }),
    ]
}

/// The signal whose half-spectrum is `x` (Hermitian extension), by definition.
fn inverse_ref(x: &[C], n: usize) -> Vec<f64> {
    let m = n / 2;
    let mut s = vec![(0.0, 0.0); n];
    s[0] = (x[0].0, 0.0);
    s[m] = (x[m].0, 0.0);
    for k in 1..m {
        s[k] = x[k];
        s[n - k] = (x[k].0, -x[k].1);
    }
    refs::idft(&s).iter().map(|v| v.0).collect()
}

fn one<T: Num + RealFftNum, F: FftImpl<T>>(cx: &Cx, eng: &str, f: &F, n: usize, full: bool, hard: bool) {
    let m = n / 2;
    let tol1 = 0.5 * fft_tol::<T>(n.max(2));
    let fw = fwds::<T, F>();
    let iv = invs::<T, F>();
    if full {
        let w = refs::roots(n);
        for (name, g) in &fw {
            cx.case(
                || format!("{}/{eng}/{name}/n={n}/forward-basis", T::NAME),
                || {
                    for j in 0..n {
                        let mut x = vec![T::zero(); n];
                        x[j] = T::one();
                        let got = g(f, &x).map_err(|er| format!("e_{j}: unexpected error {er:?}"))?;
                        let want: Vec<C> = (0..=m).map(|k| w[j * k % n]).collect();
                        close(&vc(&got), &want, tol1).map_err(|s| format!("impulse at {j}: bin {s}"))?;
                    }
                    Ok(true)
                },
            );
        }
        for (name, g) in &iv {
            cx.case(
                || format!("{}/{eng}/{name}/n={n}/inverse-basis", T::NAME),
                || {
                    for k in 0..=m {
                        for im in [false, true] {
                            let mut x = vec![Complex::<T>::zero(); m + 1];
                            x[k] = if im { Complex::new(T::zero(), T::one()) } else { Complex::new(T::one(), T::zero()) };
                            let got = g(f, &x, n).map_err(|er| format!("E_{k}: unexpected error {er:?}"))?;
                            let edge = k == 0 || k == m;
                            let want: Vec<f64> = (0..n)
                                .map(|j| {
                                    let c = w[j * k % n];
                                    // Re(v * conj(w^{jk})) (twice, for the mirrored bin)
                                    let r = if im { if edge { 0.0 } else { c.1 } } else { c.0 };
                                    r * if edge { 1.0 } else { 2.0 } / n as f64
                                })
                                .collect();
                            close_r(&vr(&got), &want, 2.0 * tol1 / n as f64).map_err(|s| format!("bin {k} imaginary {im}: sample {s}"))?;
                        }
                    }
                    Ok(true)
                },
            );
        }
    }
    let x: Vec<T> = rv(&refs::probe(n, 61));
    let xr: Vec<C> = vr(&x).iter().map(|v| (*v, 0.0)).collect();
    let norm = refs::norm2(&xr);
    let want = if hard { Vec::new() } else { refs::fft(&xr)[..=m].to_vec() };
    let spec: Vec<C> = rounded::<T>(&refs::cprobe(m + 1, 62));
    let tnorm = refs::norm2(&spec) * 2.0;
    let twant = if hard { Vec::new() } else { inverse_ref(&spec, n) };
    for (name, g) in &fw {
        if !hard {
            cx.case(
                || format!("{}/{eng}/{name}/n={n}/forward-dense", T::NAME),
                || {
                    let got = g(f, &x).map_err(|er| format!("unexpected error {er:?}"))?;
                    close(&vc(&got), &want, tol1 * norm).map_err(|s| format!("bin {s}"))?;
                    if got[0].im.to() != 0.0 || got[m].im.to() != 0.0 {
                        return Err("the DC or Nyquist bin of a real signal is not real".into());
                    }
                    Ok(true)
                },
            );
        }
    }
    for (name, g) in &iv {
        if !hard {
            cx.case(
                || format!("{}/{eng}/{name}/n={n}/inverse-dense", T::NAME),
                || {
                    let got = g(f, &cv::<T>(&spec), n).map_err(|er| format!("unexpected error {er:?}"))?;
                    close_r(&vr(&got), &twant, tol1 * tnorm / n as f64).map_err(|s| format!("sample {s}"))?;
                    Ok(true)
                },
            );
        }
        for (fname, h) in &fw {
            cx.case(
                || format!("{}/{eng}/{fname}+{name}/n={n}/roundtrip", T::NAME),
                || {
                    let y = h(f, &x).map_err(|er| format!("forward: unexpected error {er:?}"))?;
                    let got = g(f, &y, n).map_err(|er| format!("inverse: unexpected error {er:?}"))?;
                    close_r(&vr(&got), &vr(&x), tol1 * norm).map_err(|s| format!("sample {s}"))?;
                    Ok(true)
                },
            );
        }
    }
}

/// The real part of a chirp (spectrum in closed form) at any even length.
fn sweep<T: Num + RealFftNum>(cx: &Cx, n: usize, short: bool) {
    let (x, y) = refs::chirp(n);
    let m = n / 2;
    let x: Vec<f64> = x.iter().map(|v| v.0).collect();
    let spec: Vec<C> = (0..=m)
        .map(|k| {
            let c = y[(n - k) % n];
            ((y[k].0 + c.0) / 2.0, (y[k].1 - c.1) / 2.0)
        })
        .collect();
    let f = ScalarFftImpl::<T>::default();
    let tol = 0.5 * fft_tol::<T>(n.max(2)) * (n as f64).sqrt();
    // A planner that has served related lengths before: twice, half, and a multiple of three.
    let others = [2 * n, n / 2 & !1, 3 * n];
    for o in &others[..if n > 20_000 { 1 } else if short { 2 } else { 3 }] {
        let o = *o;
        if o == 0 {
            continue;
        }
        cx.case(
            || format!("{}/scalar/planner-after-{o}/n={n}/chirp", T::NAME),
            || {
                let mut p = RfftPlanner::<T>::new();
                // Where this build does not support the other length, it has at least tried it.
                let _ = p.rfft(&f, &mut vec![T::of(0.5); o], &mut vec![Complex::<T>::zero(); o / 2 + 1]);
                let mut got = vec![mark::<T>(); m + 1];
                p.rfft(&f, &mut rv(&x), &mut got).map_err(e)?;
                close(&vc(&got), &spec, tol).map_err(|s| format!("bin {s}"))?;
                let mut back = vec![T::of(f64::NAN); n];
                p.irfft(&f, &mut cv::<T>(&spec), &mut back).map_err(e)?;
                close_r(&vr(&back), &x, 2.0 * tol / (n as f64).sqrt()).map_err(|s| format!("sample {s}"))?;
                Ok(true)
            },
        );
    }
    for (name, g) in fwds::<T, _>().into_iter().take(if short { 1 } else { 9 }) {
        cx.case(
            || format!("{}/scalar/{name}/n={n}/forward-chirp", T::NAME),
            || {
                let got = g(&f, &rv(&x)).map_err(|er| format!("unexpected error {er:?}"))?;
                close(&vc(&got), &spec, tol).map_err(|s| format!("bin {s}"))?;
                Ok(true)
            },
        );
    }
    for (name, g) in invs::<T, _>().into_iter().take(if short { 1 } else { 9 }) {
        cx.case(
            || format!("{}/scalar/{name}/n={n}/inverse-chirp", T::NAME),
            || {
                let got = g(&f, &cv::<T>(&spec), n).map_err(|er| format!("unexpected error {er:?}"))?;
                close_r(&vr(&got), &x, 2.0 * tol / (n as f64).sqrt()).map_err(|s| format!("sample {s}"))?;
                Ok(true)
            },
        );
    }
}
/// Signals and half-spectra a shortcut might single out.
fn special<T: Num + RealFftNum>(cx: &Cx, n: usize) {
    let m = n / 2;
    let r = refs::probe(n, 10);
    let f = ScalarFftImpl::<T>::default();
    let tol1 = 0.5 * fft_tol::<T>(n.max(2));
    let sets: Vec<(&str, Vec<f64>)> = vec![
        ("zero", vec![0.0; n]),
        ("constant", vec![1.0; n]),
        ("alternating", (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect()),
        ("even", (0..n).map(|i| r[i.min((n - i) % n)]).collect()),
        ("odd", (0..n).map(|i| if i == 0 || 2 * i == n { 0.0 } else if 2 * i < n { r[i] } else { -r[n - i] }).collect()),
        ("even-samples", (0..n).map(|i| if i % 2 == 0 { r[i] } else { 0.0 }).collect()),
        ("odd-samples", (0..n).map(|i| if i % 2 == 1 { r[i] } else { 0.0 }).collect()),
        ("pairs", (0..n).map(|i| r[i / 2]).collect()),
        ("positive", r.iter().map(|a| a.abs()).collect()),
        ("large", r.iter().map(|a| a * 1048576.0).collect()),
        ("small", r.iter().map(|a| a / 1048576.0).collect()),
        ("offset", r.iter().map(|a| a + 1000.0).collect()),
        ("faint", r.iter().map(|a| a * FAINT).collect()),
        ("loud", r.iter().map(|a| a / FAINT).collect()),
        ("half-period", (0..n).map(|i| r[i % (n / 2)]).collect()),
    ];
    for (name, g) in fwds::<T, _>() {
        cx.case(
            || format!("{}/scalar/{name}/n={n}/forward-special", T::NAME),
            || {
                for (fam, x) in &sets {
                    let x: Vec<T> = rv(x);
                    let xr: Vec<C> = vr(&x).iter().map(|v| (*v, 0.0)).collect();
                    let got = g(&f, &x).map_err(|er| format!("{fam}: unexpected error {er:?}"))?;
                    close(&vc(&got), &refs::fft(&xr)[..=m], tol1 * refs::norm2(&xr).max(1e-30)).map_err(|s| format!("{fam}: bin {s}"))?;
                }
                Ok(true)
            },
        );
    }
    let p = refs::cprobe(m + 1, 11);
    let specs: Vec<(&str, Vec<C>)> = vec![
        ("zero", vec![(0.0, 0.0); m + 1]),
        ("constant", vec![(1.0, 0.0); m + 1]),
        ("real", p.iter().map(|c| (c.0, 0.0)).collect()),
        ("imaginary", p.iter().map(|c| (0.0, c.1)).collect()),
        ("equal-parts", p.iter().map(|c| (c.0, c.0)).collect()),
        ("even-bins", (0..=m).map(|k| if k % 2 == 0 { p[k] } else { (0.0, 0.0) }).collect()),
        ("odd-bins", (0..=m).map(|k| if k % 2 == 1 { p[k] } else { (0.0, 0.0) }).collect()),
        ("no-edges", (0..=m).map(|k| if k == 0 || k == m { (0.0, 0.0) } else { p[k] }).collect()),
        ("large", p.iter().map(|c| (c.0 * 1048576.0, c.1 * 1048576.0)).collect()),
        ("small", p.iter().map(|c| (c.0 / 1048576.0, c.1 / 1048576.0)).collect()),
        ("faint", p.iter().map(|c| (c.0 * FAINT, c.1 * FAINT)).collect()),
        ("loud", p.iter().map(|c| (c.0 / FAINT, c.1 / FAINT)).collect()),
    ];
    for (name, g) in invs::<T, _>() {
        cx.case(
            || format!("{}/scalar/{name}/n={n}/inverse-special", T::NAME),
            || {
                for (fam, x) in &specs {
                    let x = rounded::<T>(x);
                    let got = g(&f, &cv::<T>(&x), n).map_err(|er| format!("{fam}: unexpected error {er:?}"))?;
                    close_r(&vr(&got), &inverse_ref(&x, n), tol1 * (2.0 * refs::norm2(&x)).max(1e-30) / n as f64).map_err(|s| format!("{fam}: sample {s}"))?;
                }
                Ok(true)
            },
        );
    }
}

macro_rules! stack {
    ($cx:expr, $($n:literal),*) => {{$({
        const N: usize = $n;
        const M: usize = N / 2 + 1;
        let w = refs::roots(N);
        let tol = 2.0 * fft_tol::<f32>(N.max(2));
        $cx.case(|| format!("stack/n={N}/forward-basis"), || {
            for j in 0..N {
                let mut x = [0f32; N];
                x[j] = 1.0;
                let mut o = [mark::<f32>(); M];
                rfft_stack(&x, &mut o).map_err(e)?;
                let want: Vec<C> = (0..M).map(|k| w[j * k % N]).collect();
                close(&vc(&o), &want, tol).map_err(|s| format!("impulse at {j}: bin {s}"))?;
            }
            Ok(true)
        });
        $cx.case(|| format!("stack/n={N}/inverse"), || {
            let edge = |k: usize| k == 0 || 2 * k == N;
            for k in 0..M {
                for im in [false, true] {
                    // The imaginary part of a self-mirrored bin is no spectrum of a real signal.
                    if im && edge(k) { continue; }
                    let mut x = [Complex32::new(0.0, 0.0); M];
                    x[k] = if im { Complex32::new(0.0, 1.0) } else { Complex32::new(1.0, 0.0) };
                    let mut o = [f32::NAN; N];
                    irfft_stack(&x, &mut o).map_err(e)?;
                    let want: Vec<f64> = (0..N).map(|j| {
                        let c = w[j * k % N];
                        (if im { c.1 } else { c.0 }) * if edge(k) { 1.0 } else { 2.0 } / N as f64
                    }).collect();
                    close_r(&vr(&o), &want, 2.0 * tol / N as f64).map_err(|s| format!("bin {k} imaginary {im}: sample {s}"))?;
                }
            }
            Ok(true)
        });
        $cx.case(|| format!("stack/n={N}/roundtrip"), || {
            let p: Vec<f32> = rv(&refs::probe(N, 63));
            let mut x = [0f32; N];
            x.copy_from_slice(&p);
            let mut o = [mark::<f32>(); M];
            rfft_stack(&x, &mut o).map_err(e)?;
            let mut y = [f32::NAN; N];
            irfft_stack(&o, &mut y).map_err(e)?;
            let xr: Vec<C> = p.iter().map(|v| (*v as f64, 0.0)).collect();
            close(&vc(&o), &refs::fft(&xr)[..M], tol * refs::norm2(&xr))?;
            close_r(&vr(&y), &vr(&p), tol * refs::norm2(&xr))?;
            Ok(true)
        });
    })*}};
}

fn run(eng: &Eng) {
    let (nb, nd, nl) = eng.pick3((68, 300, 5000), (160, 1400, 66000), (400, 4200, 1 << 18));
    eng.note("bounds", format!("complete bases for every even n<={nb}; dense signals and round trips for every even n<={nd}; selected even n<={nl} (comparison with the definition up to 8400); stack forms 1..2048; engines: scalar, scalar with every provided method, best available, AVX"));
    let mut units: Vec<Unit> = Vec::new();
    let mut lens: Vec<usize> = (1..=nd / 2).map(|m| 2 * m).collect();
    let mut ex: Vec<usize> = extra_lengths(nd / 2, nl / 2).into_iter().map(|m| 2 * m).collect();
    lens.append(&mut ex);
    for n in lens {
        units.push(Box::new(move |cx| {
            let (full, hard) = (n <= nb, n > 8400);
            one::<f32, _>(cx, "scalar", &ScalarFftImpl::<f32>::default(), n, full, hard);
            one::<f64, _>(cx, "scalar", &ScalarFftImpl::<f64>::default(), n, full, hard);
            if n <= 2200 {
                one::<f64, _>(cx, "minimal", &Minimal::<f64>::default(), n, full, hard);
                #[cfg(target_arch = "x86_64")]
                one::<f32, _>(cx, "x86", &SimdFftX86_64Impl, n, full, hard);
            }
        }));
    }
    let (all, some, sp) = eng.pick3((300, 900, 40), (8400, 33_000, 260), (33_000, 140_000, 1100));
    eng.note("chirps", format!("real chirp at every even length to {all} through every entry point and at every even length to {some} through the planner; special signals and spectra at every even length to {sp}"));
    for lo in (2..=some).step_by(64) {
        units.push(Box::new(move |cx| {
            for n in (lo..(lo + 64).min(some + 1)).step_by(2) {
                sweep::<f32>(cx, n, n > all);
                sweep::<f64>(cx, n, n > all);
                if n <= sp {
                    special::<f32>(cx, n);
                    special::<f64>(cx, n);
                }
            }
        }));
    }
    for n in long_lengths(eng).into_iter().map(|n| n & !1) {
        units.push(Box::new(move |cx| {
            sweep::<f32>(cx, n, false);
            sweep::<f64>(cx, n, false);
        }));
    }
    // The longest first: they would otherwise be waited for at the end.
    units.rotate_right(long_lengths(eng).len());
    eng.note("long lengths", format!("a chirp through every entry point at {:?} and the even lengths below", long_lengths(eng)));
    units.push(Box::new(|cx| stack!(cx, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512)));
    units.push(Box::new(|cx| stack!(cx, 1024)));
    units.push(Box::new(|cx| stack!(cx, 2048)));
    eng.run_units(units);
    if std::env::var("KMC_STAT").is_ok() {
        eprintln!("max deviation/tolerance = {}", stat_max());
    }
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}

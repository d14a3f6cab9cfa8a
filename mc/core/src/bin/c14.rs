//! C14: every window function follows its formula at every sample, for every length and shape.
use kmc_core::common::*;
use kofft::{window, window_more};
use std::f64::consts::PI;

pub const DEF: CheckDef = CheckDef {
    id: "C14",
    level: Level::Exploration,
    rule: "one case = (window, length, shape parameter); every sample is compared with the formula evaluated in f64; non-trivial = length >= 2",
    assumptions: &["Hann, Hamming and Blackman are periodic (denominator N), the others symmetric (denominator N-1)", "single-precision evaluation of the angle: absolute tolerance ~1e-6"],
    hang_s: 60,
    run,
};
fn bessel0(x: f64) -> f64 {
    // exp(-|x|) I0(x), by its integral: (1/pi) int_0^pi exp(x cos t - |x|) dt (trapezoid rule, which
    // converges geometrically for a periodic integrand).
    let n = 4000;
    let x = x.abs();
    let f = |t: f64| (x * (t.cos() - 1.0)).exp();
    let mut s = (f(0.0) + f(PI)) / 2.0;
    for i in 1..n {
        s += f(PI * i as f64 / n as f64);
    }
    s / n as f64
}
struct Table(Vec<f64>);
/// w(i) by definition.
fn hann(i: f64, n: f64) -> f64 {
    0.5 - 0.5 * (2.0 * PI * i / n).cos()
}
fn hamming(i: f64, n: f64) -> f64 {
    0.54 - 0.46 * (2.0 * PI * i / n).cos()
}
fn blackman(i: f64, n: f64) -> f64 {
    0.42 - 0.5 * (2.0 * PI * i / n).cos() + 0.08 * (4.0 * PI * i / n).cos()
}
fn sym(f: fn(f64) -> f64) -> impl Fn(usize, usize) -> f64 {
    move |i, n| if n == 1 { 1.0 } else { f(i as f64 / (n - 1) as f64) }
}
/// On [0, 1].
fn bartlett(x: f64) -> f64 {
    1.0 - (2.0 * x - 1.0).abs()
}
fn bohman(x: f64) -> f64 {
    let x = (2.0 * x - 1.0).abs();
    (1.0 - x) * (PI * x).cos() + (PI * x).sin() / PI
}
fn nuttall(x: f64) -> f64 {
    let x = 2.0 * PI * x;
    0.355768 - 0.487396 * x.cos() + 0.144232 * (2.0 * x).cos() - 0.012604 * (3.0 * x).cos()
}
fn tukey(i: usize, n: usize, alpha: f64) -> f64 {
    let taper = alpha.clamp(0.0, 1.0) * (n as f64 - 1.0) / 2.0;
    let d = i.min(n - 1 - i) as f64;
    if d < taper { 0.5 * (1.0 - (PI * d / taper).cos()) } else { 1.0 }
}
fn check(got: &[f32], n: usize, want: impl Fn(usize) -> f64, tol: f64) -> Result<bool, String> {
    if got.len() != n {
        return Err(format!("{} samples instead of {n}", got.len()));
    }
    for (i, &g) in got.iter().enumerate() {
        let w = want(i);
        let d = (g as f64 - w).abs();
        stat(d / tol);
        if !(d <= tol) {
            return Err(format!("sample {i}: {g} instead of {w}"));
        }
    }
    Ok(n >= 2)
}
const TOL: f64 = 6e-6;
macro_rules! stack {
    ($cx:expr, $($n:literal),*) => {{$(
        let n: usize = $n;
        for (name, f, want) in [
            ("hann", window::hann_inplace_stack::<$n> as fn(&mut [f32; $n]), hann as fn(f64, f64) -> f64),
            ("hamming", window::hamming_inplace_stack::<$n>, hamming),
            ("blackman", window::blackman_inplace_stack::<$n>, blackman),
        ] {
            $cx.case(|| format!("{name}/stack/n={n}"), || {
                let mut o = [f32::NAN; $n];
                f(&mut o);
                check(&o, n, |i| want(i as f64, n as f64), TOL)
            });
        }
    )*}};
}
/// The windows without a shape parameter.
fn plain(cx: &Cx, n: usize) {
    let nf = n as f64;
    let w: [(&str, fn(usize) -> Vec<f32>, Box<dyn Fn(usize) -> f64>); 6] = [
        ("hann", window::hann, Box::new(move |i| hann(i as f64, nf))),
        ("hamming", window::hamming, Box::new(move |i| hamming(i as f64, nf))),
        ("blackman", window::blackman, Box::new(move |i| blackman(i as f64, nf))),
        ("bartlett", window_more::bartlett, Box::new(move |i| sym(bartlett)(i, n))),
        ("bohman", window_more::bohman, Box::new(move |i| sym(bohman)(i, n))),
        ("nuttall", window_more::nuttall, Box::new(move |i| sym(nuttall)(i, n))),
    ];
    for (name, f, want) in &w {
        cx.case(|| format!("{name}/n={n}"), || check(&f(n), n, want, TOL));
    }
}
fn run(eng: &Eng) {
    let max = eng.pick3(200, 5000, 16500);
    let shape_max = eng.pick3(60, 700, 2100);
    eng.note("lengths", format!("0..={max}; shaped windows 0..={shape_max}"));
    let betas: Vec<f32> = [0.0, 0.1, 0.5, 1.0, 2.0, 3.5, 5.0, 6.5, 8.6, 10.0, 14.0, 20.0, 30.0, 50.0, 88.0, 90.0, 120.0, 200.0, 400.0, 600.0]
        .iter()
        .flat_map(|b: &f32| [*b, -*b])
        .collect();
    let mut alphas: Vec<f32> = (0..=40).map(|i| i as f32 / 40.0).collect();
    alphas.extend([-1.0, -0.1, 1.1, 7.0, 1e-6, 1.0 / 3.0, f32::INFINITY, f32::NEG_INFINITY, -0.0, 0.999999]);
    eng.note("beta", format!("{betas:?}"));
    eng.note("alpha", format!("{alphas:?}"));
    let mut units: Vec<Unit> = vec![];
    for n in 0..=max {
        units.push(Box::new(move |cx| plain(cx, n)));
    }
    if !eng.small() {
        let long = eng.pick(vec![65_535usize, 65_536, 65_537, 100_000, 131_072, 131_073], vec![32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 100_000, 131_072, 131_073, 262_144, 500_001, 1 << 20, (1 << 20) + 1]);
        for n in long.into_iter().chain((max + 1..eng.pick(9000, 17000)).step_by(37)) {
            units.push(Box::new(move |cx| plain(cx, n)));
            if n > 10_000 {
                units.push(Box::new(move |cx| {
                    for a in [0.0f32, 0.1, 0.5, 0.9, 1.0, 2.0] {
                        cx.case(|| format!("tukey/n={n}/alpha={a}"), || check(&window_more::tukey(n, a), n, |i| tukey(i, n, a as f64), TOL));
                    }
                }));
            }
        }
    } else {
        for n in [257, 1000, 4096, 65_536, 65_537, 131_072] {
            units.push(Box::new(move |cx| {
                plain(cx, n);
                for a in [0.1f32, 0.5, 0.9] {
                    cx.case(|| format!("tukey/n={n}/alpha={a}"), || check(&window_more::tukey(n, a), n, |i| tukey(i, n, a as f64), TOL));
                }
            }));
        }
    }
    let betas = &betas;
    let alphas = &alphas;
    for n in 0..=shape_max {
        units.push(Box::new(move |cx| {
            for &a in alphas {
                cx.case(
                    || format!("tukey/n={n}/alpha={a}"),
                    || check(&window_more::tukey(n, a), n, |i| tukey(i, n, a as f64), TOL),
                );
            }
        }));
    }
    if !eng.small() {
        for (n, b) in [(70_000usize, 8.6f32), (65_537, 2.0)] {
            units.push(Box::new(move |cx| {
                cx.case(
                    || format!("kaiser/n={n}/beta={b}"),
                    || {
                        let d = bessel0(b as f64);
                        check(
                            &window::kaiser(n, b),
                            n,
                            |i| {
                                let r = 2.0 * i as f64 / (n - 1) as f64 - 1.0;
                                let x = b as f64 * (1.0 - r * r).max(0.0).sqrt();
                                bessel0(x) * (x - b as f64).exp() / d
                            },
                            4e-7 * (1.0 + b as f64),
                        )
                    },
                );
            }));
        }
    }
    let kmax = eng.pick3(30, 260, 600);
    for &b in betas {
        // exp(-x) I0(x) at every argument the lengths need would be slow: tabulate per length.
        for n in 0..=kmax {
            units.push(Box::new(move |cx| {
                cx.case(
                    || format!("kaiser/n={n}/beta={b}"),
                    || {
                        let b64 = (b as f64).abs();
                        let t = Table(
                            (0..n)
                                .map(|i| {
                                    if n == 1 {
                                        return 1.0;
                                    }
                                    let r = 2.0 * i as f64 / (n - 1) as f64 - 1.0;
                                    let x = b64 * (1.0 - r * r).max(0.0).sqrt();
                                    bessel0(x) * (x - b64).exp() / bessel0(b64)
                                })
                                .collect(),
                        );
                        check(&window::kaiser(n, b), n, |i| t.0[i], 4e-7 * (1.0 + b64))
                    },
                );
            }));
        }
    }
    units.push(Box::new(|cx| stack!(cx, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 255, 256, 1000, 1024)));
    eng.run_units(units);
    if std::env::var("KMC_STAT").is_ok() {
        eprintln!("max deviation/tolerance = {}", stat_max());
    }
}
fn main() {
    kmc_engine::main_with(&[DEF]);
}

//! C17: Goertzel, chirp-z, Hilbert, cepstrum and mel features follow their definitions.
use kmc_core::common::*;
use kmc_core::trig::cospi;
use kofft::{cepstrum, czt, goertzel, hilbert};
use std::f64::consts::PI;

pub const DEF: CheckDef = CheckDef {
    id: "C17",
    level: Level::Exploration,
    rule: "one case = (function, length, parameters, family); linear maps are decided by every unit impulse, the others by every signal over {-1,0,1} of small lengths and dense probes of larger ones",
    assumptions: &["Goertzel and mel bins whose position is within rounding of an integer may fall on either side", "cepstra are compared where no spectral bin vanishes (the logarithm of a rounding error is arbitrary)", "the mel filterbank takes the magnitudes of all N bins of the transform"],
    hang_s: 60,
    run,
};
const E: f64 = f32::EPSILON as f64;

// ------------------------------------------------------------------ Goertzel
/// (power at bin k, largest intermediate value of the recurrence)
fn goertzel_power(x: &[f64], k: f64) -> (f64, f64) {
    let n = x.len() as f64;
    let (mut re, mut im) = (0.0, 0.0);
    for (i, v) in x.iter().enumerate() {
        let t = 2.0 * PI * ((k * i as f64) % n) / n;
        re += v * t.cos();
        im -= v * t.sin();
    }
    let c = 2.0 * (2.0 * PI * k / n).cos();
    let (mut a, mut b, mut s) = (0.0f64, 0.0f64, 0.0f64);
    for v in x {
        let t = v + c * a - b;
        b = a;
        a = t;
        s = s.max(t.abs());
    }
    (re * re + im * im, s)
}
fn goertzel_case(cx: &Cx, x: &[f64], what: &str, sr: f32, freq: f32) {
    let n = x.len();
    cx.case(
        || format!("goertzel/{what}/n={n}/rate={sr}/freq={freq}"),
        || {
            let xf: Vec<f32> = rv(x);
            let x = vr(&xf);
            let got = goertzel::goertzel_f32(&xf, sr, freq).map_err(e)? as f64;
            let q = freq as f64 * n as f64 / sr as f64;
            let slack = 1e-6 * (1.0 + q.abs());
            let (k0, k1) = ((q - slack).floor(), (q + slack).floor());
            let mut best = f64::INFINITY;
            let mut want = 0.0;
            let mut k = k0;
            while k <= k1 {
                let (p, s) = goertzel_power(&x, k);
                let tol = 4.0 * E * (n as f64 + 4.0) * (1.0 + PI * (k / n as f64).abs()) * s * s + 1e-30;
                let r = (got * got - p).abs() / tol;
                if r < best {
                    best = r;
                    want = p.sqrt();
                }
                k += 1.0;
            }
            stat(best);
            if !(best <= 1.0) || got < 0.0 {
                return Err(format!("{got} instead of {want} (bin {q}, {best:.2} times the tolerance)"));
            }
            Ok(n > 1)
        },
    );
}
fn goertzel_all(cx: &Cx, n: usize) {
    for sr in [8000.0f32, 44100.0, 1.0, n as f32, 0.125] {
        for j in -8i64..=(4 * n as i64 + 12) {
            // Quarter bins, below zero and beyond the sampling rate.
            let freq = (j as f64 / 4.0 * sr as f64 / n as f64) as f32;
            goertzel_case(cx, &refs::probe(n, 171), "dense", sr, freq);
            if sr == n as f32 {
                goertzel_case(cx, &vec![1.0; n], "constant", sr, freq);
                for k in [1usize, n / 3, n / 2] {
                    let t: Vec<f64> = (0..n).map(|i| cospi(2 * k * i % (2 * n), n)).collect();
                    goertzel_case(cx, &t, &format!("tone{k}"), sr, freq);
                }
                for d in 0..n.min(12) {
                    let t: Vec<f64> = (0..n).map(|i| (i == d) as u8 as f64).collect();
                    goertzel_case(cx, &t, &format!("e{d}"), sr, freq);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ chirp-z
fn cpow(c: C, n: usize) -> C {
    let (mut r, mut b, mut n) = ((1.0, 0.0), c, n);
    while n > 0 {
        if n % 2 == 1 {
            r = refs::cmul(r, b);
        }
        b = refs::cmul(b, b);
        n /= 2;
    }
    r
}
fn czt_case(cx: &Cx, n: usize, m: usize, w: (f32, f32), a: (f32, f32)) {
    cx.case(
        || format!("czt/n={n}/m={m}/w={w:?}/a={a:?}"),
        || {
            let (w64, a64) = ((w.0 as f64, w.1 as f64), (a.0 as f64, a.1 as f64));
            let d = a64.0 * a64.0 + a64.1 * a64.1;
            let ai = (a64.0 / d, -a64.1 / d);
            let coef: Vec<Vec<C>> = (0..m)
                .map(|k| (0..n).map(|i| refs::cmul(cpow(ai, i), cpow(cpow(w64, k), i))).collect())
                .collect();
            let mut sig: Vec<Vec<f64>> = (0..n).map(|j| (0..n).map(|i| (i == j) as u8 as f64).collect()).collect();
            sig.push(vr(&rv::<f32>(&refs::probe(n, 172))));
            for (s, x) in sig.iter().enumerate() {
                let got = czt::czt_f32(&rv(x), m, w, a);
                if got.len() != m {
                    return Err(format!("{} outputs instead of {m}", got.len()));
                }
                for k in 0..m {
                    let (mut re, mut im, mut l1) = (0.0, 0.0, 0.0);
                    for i in 0..n {
                        let c = coef[k][i];
                        re += x[i] * c.0;
                        im += x[i] * c.1;
                        l1 += x[i].abs() * c.0.hypot(c.1) * (2.0 + i as f64 * (k + 2) as f64);
                    }
                    let t = 2.0 * E * l1 + 1e-30;
                    let d = (got[k].0 as f64 - re).abs().max((got[k].1 as f64 - im).abs());
                    stat(d / t);
                    if !(d <= t) {
                        return Err(format!("signal {s}, output {k}: {:?} instead of {:?}", got[k], (re, im)));
                    }
                }
            }
            Ok(n > 1 && m > 1)
        },
    );
}

/// Long signals of a few impulses, many outputs.
fn czt_long(cx: &Cx, n: usize, m: usize, w: (f32, f32), a: (f32, f32)) {
    cx.case(
        || format!("czt/n={n}/m={m}/w={w:?}/a={a:?}/sparse"),
        || {
            let (w64, a64) = ((w.0 as f64, w.1 as f64), (a.0 as f64, a.1 as f64));
            let d = a64.0 * a64.0 + a64.1 * a64.1;
            let ai = (a64.0 / d, -a64.1 / d);
            for at in [vec![(0usize, 1.0f64), (1, -0.5)], vec![(n / 2, 0.75)], vec![(n - 1, 1.0)]] {
                let mut x = vec![0f32; n];
                at.iter().for_each(|(i, v)| x[*i] += *v as f32);
                let got = czt::czt_f32(&x, m, w, a);
                if got.len() != m {
                    return Err(format!("{} outputs instead of {m}", got.len()));
                }
                for k in 0..m {
                    let (mut re, mut im, mut l1) = (0.0, 0.0, 0.0);
                    for (i, v) in &at {
                        let c = refs::cmul(cpow(ai, *i), cpow(cpow(w64, k), *i));
                        re += v * c.0;
                        im += v * c.1;
                        l1 += v.abs() * c.0.hypot(c.1) * (2.0 + *i as f64 * (k + 2) as f64);
                    }
                    let t = 2.0 * E * l1 + 1e-30;
                    let d = (got[k].0 as f64 - re).abs().max((got[k].1 as f64 - im).abs());
                    stat(d / t);
                    if !(d <= t) {
                        return Err(format!("impulses {at:?}, output {k}: {:?} instead of {:?}", got[k], (re, im)));
                    }
                }
            }
            Ok(true)
        },
    );
}

// ------------------------------------------------------------------ Hilbert
fn hilbert_case(cx: &Cx, n: usize, full: bool) {
    cx.case(
        || format!("hilbert/n={n}/{}", if full { "basis" } else { "dense" }),
        || {
            let mut sig: Vec<Vec<f64>> = vec![vr(&rv::<f32>(&refs::probe(n, 173))), vec![1.0; n]];
            sig.push((0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect());
            if full {
                sig.extend((0..n).map(|j| (0..n).map(|i| (i == j) as u8 as f64).collect()));
            }
            for x in &sig {
                let c: Vec<C> = x.iter().map(|v| (*v, 0.0)).collect();
                let mut f = refs::fft(&c);
                for k in 0..n {
                    let g = if k == 0 || 2 * k == n { 1.0 } else if 2 * k < n { 2.0 } else { 0.0 };
                    f[k] = (f[k].0 * g, f[k].1 * g);
                }
                let want = refs::idft(&f);
                let got = vc(&hilbert::hilbert_analytic(&rv(x)).map_err(e)?);
                let norm = refs::norm2(&c);
                close(&got, &want, 2.0 * fft_tol::<f32>(n) * norm)?;
                let re: Vec<f64> = got.iter().map(|v| v.0).collect();
                close_r(&re, x, 2.0 * fft_tol::<f32>(n) * norm)?;
            }
            Ok(n > 1)
        },
    );
}

// ------------------------------------------------------------------ cepstrum
fn cepstrum_one(x: &[f64]) -> Result<bool, String> {
    let n = x.len();
    let got = cepstrum::real_cepstrum(&rv(x)).map_err(e)?;
    if got.len() != n || got.iter().any(|v| !v.is_finite()) {
        return Err(format!("{got:?}"));
    }
    let c: Vec<C> = x.iter().map(|v| (*v, 0.0)).collect();
    let f = refs::fft(&c);
    let norm = refs::norm2(&c);
    let noise = fft_tol::<f32>(n) * norm;
    let least = f.iter().map(|v| v.0.hypot(v.1)).fold(f64::INFINITY, f64::min);
    if norm > 0.0 && least < 100.0 * noise {
        return Ok(false);
    }
    let l: Vec<C> = f.iter().map(|v| ((v.0.hypot(v.1) + 1e-12).ln(), 0.0)).collect();
    let want: Vec<f64> = refs::idft(&l).iter().map(|v| v.0).collect();
    let top = l.iter().map(|v| v.0.abs()).fold(1.0, f64::max);
    close_r(&vr(&got), &want, if norm > 0.0 { noise / least } else { 0.0 } + 20.0 * E * top)?;
    Ok(true)
}
fn cepstrum_all(cx: &Cx) {
    for n in [1usize, 2, 4, 8] {
        for first in 0..3usize.min(3usize.pow(n as u32)) {
            cx.case(
                || format!("cepstrum/n={n}/ternary{first}"),
                || {
                    let mut any = false;
                    for i in (first..3usize.pow(n as u32)).step_by(3) {
                        let x: Vec<f64> = (0..n).map(|b| (i / 3usize.pow(b as u32) % 3) as f64 - 1.0).collect();
                        any |= cepstrum_one(&x).map_err(|m| format!("{x:?}: {m}"))?;
                    }
                    Ok(any)
                },
            );
        }
    }
    for p in 0..=if cx.small() { 13 } else { 17 } {
        let n = 1usize << p;
        for s in 0..if p > 13 { 2 } else { 8 } {
            for scale in [1.0, 1e-6, 1e6] {
                cx.case(
                    || format!("cepstrum/n={n}/dense{s}/scale={scale:e}"),
                    || {
                        // A dominant impulse keeps every bin away from zero.
                        let mut x: Vec<f64> = refs::probe(n, 174 + s).iter().map(|v| v * scale / (n as f64)).collect();
                        x[s as usize % n] += 2.0 * scale;
                        cepstrum_one(&vr(&rv::<f32>(&x)))
                    },
                );
            }
        }
    }
}

// ------------------------------------------------------------------ mel
/// Every way the bin edges can round.
fn edges(n: usize, sr: f64, filters: usize) -> Vec<Vec<usize>> {
    let top = 2595.0 * (1.0 + sr / 2.0 / 700.0).log10();
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..filters + 2 {
        let mel = top * i as f64 / (filters + 1) as f64;
        let f = 700.0 * (10f64.powf(mel / 2595.0) - 1.0);
        let q = f * (n as f64 + 1.0) / sr;
        // 10^x - 1 loses the leading digits of low frequencies.
        let slack = 4e-6 * (q + 700.0 * (n as f64 + 1.0) / sr) + 1e-9;
        let (a, b) = ((q - slack).max(0.0).floor() as usize, (q + slack).floor() as usize);
        if i == 0 {
            all[0].push(0);
            continue;
        }
        let mut next = vec![];
        for v in &all {
            for x in a..=b.min(a + 3) {
                let mut w = v.clone();
                w.push(x);
                next.push(w);
            }
        }
        next.truncate(4096);
        all = next;
    }
    all
}
fn mel_model(x: &[f64], b: &[usize]) -> Vec<f64> {
    (1..b.len() - 1)
        .map(|m| {
            if b[m] == b[m - 1] || b[m + 1] == b[m] {
                return 0.0;
            }
            let mut s = 0.0;
            for (k, v) in x.iter().enumerate() {
                if k >= b[m - 1] && k < b[m] {
                    s += v * (k - b[m - 1]) as f64 / (b[m] - b[m - 1]) as f64;
                } else if k >= b[m] && k < b[m + 1] {
                    s += v * (b[m + 1] - k) as f64 / (b[m + 1] - b[m]) as f64;
                }
            }
            s
        })
        .collect()
}
fn mel_case(cx: &Cx, n: usize, sr: f32, filters: usize) {
    cx.case(
        || format!("mel/n={n}/rate={sr}/filters={filters}"),
        || {
            let ways = edges(n, sr as f64, filters);
            if ways.len() >= 4096 {
                return Ok(false);
            }
            let mut sig: Vec<Vec<f64>> = vec![vec![1.0; n], refs::probe(n, 175).iter().map(|v| v.abs() as f32 as f64 + 0.125).collect()];
            sig.extend((0..n).filter(|j| n <= 1100 || j % (n / 40) == 0 || *j < 4).map(|j| (0..n).map(|i| (i == j) as u8 as f64).collect()));
            let got: Vec<Vec<f64>> = sig.iter().map(|x| vr(&cepstrum::mel_filterbank(&rv(x), sr, filters))).collect();
            let ok = ways.iter().any(|b| {
                sig.iter().zip(&got).all(|(x, g)| {
                    let w = mel_model(x, b);
                    g.len() == w.len() && g.iter().zip(&w).all(|(g, w)| (g - w).abs() <= 2e-6 * (1.0 + w.abs()) * 2.0)
                })
            });
            if !ok {
                return Err(format!("dense magnitudes: {:?} instead of {:?}", got[1], mel_model(&sig[1], &ways[0])));
            }
            // Coefficients: the cosine transform of the logarithms.
            let mut xs: Vec<Vec<f32>> = sig.iter().take(6).map(|x| rv(x)).collect();
            // Silence and next to silence.
            xs.insert(1, vec![0.0; n]);
            xs.push(vec![1e-20; n]);
            xs.push(vec![0.0; n]);
            for coeffs in [0, 1, filters / 2, filters] {
                if coeffs > filters {
                    continue;
                }
                let mut rows = vec![];
                for x in &xs {
                    let c = cepstrum::mfcc(x, sr, filters, coeffs).map_err(e)?;
                    let l: Vec<f64> = cepstrum::mel_filterbank(x, sr, filters).iter().map(|v| (*v as f64 + 1e-12).ln()).collect();
                    let want: Vec<f64> = (0..coeffs)
                        .map(|k| (0..filters).map(|i| l[i] * cospi((2 * i + 1) * k, 2 * filters)).sum())
                        .collect();
                    let t = 4.0 * E * (filters as f64 + 4.0) * l.iter().map(|v| v.abs()).sum::<f64>() + 1e-9;
                    close_r(&vr(&c), &want, t).map_err(|m| format!("{coeffs} coefficients: {m}"))?;
                    rows.push(c);
                }
                let batch = cepstrum::mfcc_batch(&xs, sr, filters, coeffs).map_err(e)?;
                let near = |a: &[f32], b: &[f32]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-4 * (filters as f32 + 1.0) * (1.0 + y.abs()));
                if batch.len() != rows.len() || !batch.iter().zip(&rows).all(|(a, b)| near(a, b)) {
                    return Err("the batch differs from its rows".into());
                }
            }
            Ok(filters > 0 && n > 2)
        },
    );
}

fn run(eng: &Eng) {
    let gn = eng.pick3(20, 260, 700);
    let zn = eng.pick3(6, 32, 50);
    let hp = eng.pick3(6, 11, 12);
    let (mn, mf) = eng.pick3((16, 6), (160, 40), (300, 64));
    eng.note("bounds", format!("Goertzel lengths <= {gn} at every quarter bin; chirp-z {zn}x{zn}; Hilbert basis 2^0..2^{hp}; mel {mn} bins x {mf} filters"));
    let mut units: Vec<Unit> = vec![];
    for n in 1..=gn {
        units.push(Box::new(move |cx| goertzel_all(cx, n)));
    }
    for n in [200usize, 205, 256, 1000, 4000] {
        units.push(Box::new(move |cx| {
            for j in [0usize, 1, 2, 5, 18, 19, n / 4, n / 2, n - 1] {
                for frac in [0.0, 0.3, 0.5, 0.9] {
                    goertzel_case(cx, &refs::probe(n, 176), "long", 8000.0, ((j as f64 + frac) * 8000.0 / n as f64) as f32);
                }
            }
        }));
    }
    {
        let long = if eng.small() { vec![65_537usize] } else { vec![4001, 10_000, 65_535, 65_536, 65_537, 100_000, 131_072] };
        for n in long {
            units.push(Box::new(move |cx| {
                for k in [0usize, 1, 5, n / 8, n / 4, n / 3, n / 2 - 1, n / 2, n - 1] {
                    let t: Vec<f64> = (0..n).map(|i| cospi(2 * (k as u64 * i as u64 % n as u64) as usize % (2 * n), n)).collect();
                    for sr in [n as f32, 8000.0] {
                        for frac in [0.25, 0.5] {
                            goertzel_case(cx, &t, &format!("tone{k}"), sr, ((k as f64 + frac) * sr as f64 / n as f64) as f32);
                            goertzel_case(cx, &refs::probe(n, 177), "long", sr, ((k as f64 + frac) * sr as f64 / n as f64) as f32);
                        }
                    }
                }
            }));
        }
    }
    if !eng.small() {
        for n in [1usize, 2, 33, 100, 256, 257, 300, 1000] {
            units.push(Box::new(move |cx| {
                for m in [1usize, 2, 33, 100, 255, 256, 257, 300, 600, 1000] {
                    for t in [1.0 / m as f64, 1.0 / n as f64, 0.001, -0.37] {
                        let t = -2.0 * PI * t;
                        for a in [(1.0f32, 0.0f32), (0.0, 1.0), (0.8, -0.6)] {
                            czt_long(cx, n.max(2), m, (t.cos() as f32, t.sin() as f32), a);
                        }
                        // Spirals, towards the centre and away from it.
                        let g = (n * m) as f64;
                        for r in [-20.0 / g, -2.0 / g, 2.0 / g, 20.0 / g] {
                            for s in [-5.0 / n as f64, 0.0, 5.0 / n as f64] {
                                let (r, s) = (r.exp(), s.exp());
                                czt_long(cx, n.max(2), m, ((r * t.cos()) as f32, (r * t.sin()) as f32), ((0.8 * s) as f32, (-0.6 * s) as f32));
                            }
                        }
                    }
                }
            }));
        }
    }
    for n in 0..=zn {
        units.push(Box::new(move |cx| {
            let ws = [(1.0f32, 0.0), (0.0, 1.0), (0.0, -1.0), (-1.0, 0.0), (0.8, 0.6), (0.6, -0.8), (0.9, 0.1), (1.1, -0.05)];
            let as_ = [(1.0f32, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.8, -0.6), (0.5, 0.5), (1.25, 0.25), (0.9, 0.0)];
            for m in 0..=zn {
                for w in ws {
                    for a in as_ {
                        // Keep the powers representable.
                        let g = (w.0.hypot(w.1).ln().abs() * m as f32 + a.0.hypot(a.1).ln().abs()) * n as f32;
                        if g < 40.0 {
                            czt_case(cx, n, m, w, a);
                        }
                    }
                }
                if n > 0 && m > 0 {
                    // The points of the DFT.
                    let t = -2.0 * PI / m as f64;
                    czt_case(cx, n, m, (t.cos() as f32, t.sin() as f32), (1.0, 0.0));
                }
            }
        }));
    }
    for p in 0..=eng.pick3(13, 17, 20) {
        units.push(Box::new(move |cx| {
            hilbert_case(cx, 1 << p, false);
            if p <= hp {
                hilbert_case(cx, 1 << p, true);
            }
        }));
    }
    units.push(Box::new(cepstrum_all));
    for n in 0..=mn {
        units.push(Box::new(move |cx| {
            for sr in [8000.0f32, 16000.0, 44100.0, 100.0, 2000.0] {
                for f in 0..=mf {
                    mel_case(cx, n, sr, f);
                }
            }
        }));
    }
    for (n, sr, f) in [(512usize, 16000.0f32, 26usize), (257, 16000.0, 20), (1024, 44100.0, 40), (400, 8000.0, 23), (2049, 44100.0, 128), (4097, 48000.0, 40), (65_537, 48000.0, 40), (65_536, 96000.0, 80), (100_000, 8000.0, 26)] {
        units.push(Box::new(move |cx| mel_case(cx, n, sr, f)));
    }
    eng.run_units(units);
    if std::env::var("KMC_STAT").is_ok() {
        eprintln!("max deviation/tolerance = {}", stat_max());
    }
}
fn main() {
    kmc_engine::main_with(&[DEF]);
}

//! C08: inverse short-time transforms are the overlap-add of the windowed inverse DFTs of the
//! frames, divided by the accumulated squared window, and so reconstruct any signal from its
//! short-time transform wherever the window covers it.
use kmc_core::common::*;
use kmc_core::entries::{Boxed, Minimal};
use kofft::stft::*;
use kofft::window;

pub const DEF: CheckDef = CheckDef {
    id: "C08",
    level: Level::Exploration,
    rule: "one case = (form, engine, frame count, window family and length, hop, output length); 'synthesis' feeds arbitrary (non-conjugate-symmetric) spectra, 'roundtrip' the output of every analysis form",
    assumptions: &["overlap-add evaluated by definition in f64; samples whose accumulated squared window is within 1e-9..1e-7 (the documented 1e-8 threshold) are not compared", "below the threshold the sample must be finite and no larger than the un-normalised sum"],
    hang_s: 60,
    run,
};

struct Ola {
    sum: Vec<f64>,
    norm: Vec<f64>,
    mag: Vec<f64>,
}
fn ola(frames: &[Vec<C>], win: &[f32], hop: usize, len: usize) -> Ola {
    let mut o = Ola { sum: vec![0.0; len], norm: vec![0.0; len], mag: vec![0.0; len] };
    for (k, f) in frames.iter().enumerate() {
        let t = refs::idft(f);
        let scale = refs::norm2(f) / (f.len() as f64).sqrt();
        for i in 0..win.len() {
            // Positions beyond the range of usize are beyond the output, too.
            let at = k.saturating_mul(hop).saturating_add(i);
            if at < len {
                o.sum[at] += t[i].0 * win[i] as f64;
                o.norm[at] += (win[i] as f64).powi(2);
                o.mag[at] += scale * (win[i] as f64).abs();
            }
        }
    }
    o
}
fn check(got: &[f32], o: &Ola, wl: usize, zero: bool) -> Result<(), String> {
    for i in 0..got.len() {
        let g = got[i] as f64;
        if !g.is_finite() {
            return Err(format!("sample {i} is {g}"));
        }
        if o.norm[i] > 1e-7 {
            let want = o.sum[i] / o.norm[i];
            let tol = 0.15 * fft_tol::<f32>(wl) * o.mag[i] / o.norm[i] + 4e-7 * want.abs() + 1e-30;
            stat((g - want).abs() / tol);
            if (g - want).abs() > tol {
                return Err(format!("sample {i}: got {g}, expected {want} (tolerance {tol:.2e})"));
            }
        } else if o.norm[i] < 1e-9 {
            let lim = if zero || o.norm[i] == 0.0 { 0.0 } else { o.mag[i] * 1.001 + 1e-20 };
            if g.abs() > lim {
                return Err(format!("sample {i} is {g} where no window contributes (limit {lim:.2e})"));
            }
        }
    }
    Ok(())
}
pub fn windows(wl: usize) -> Vec<(&'static str, Vec<f32>)> {
    let mut v = vec![
        ("ones", vec![1.0; wl]),
        ("hann", window::hann(wl)),
        ("probe", rv(&refs::probe(wl, 81))),
        ("hamming", window::hamming(wl)),
    ];
    let mut holes = vec![0.0f32; wl];
    for (i, h) in holes.iter_mut().enumerate() {
        if i % 3 == 1 {
            *h = 0.5 + i as f32;
        }
    }
    v.push(("holes", holes));
    let mut tiny = vec![1e-3f32; wl];
    tiny[0] = 1e-6;
    v.push(("tiny", tiny));
    v
}

fn one<F: FftImpl<f32>>(cx: &Cx, en: &str, f: &F, par: bool, nf: usize, wn: &str, win: &[f32], hop: usize, lens: &[usize]) {
    let frames: Vec<Vec<Complex32>> = (0..nf).map(|k| cv::<f32>(&refs::cprobe(win.len(), 800 + k as u64))).collect();
    these(cx, en, f, par, frames, "synthesis", wn, win, hop, lens);
}
/// Every combination of dense, silent and sparse frames.
fn contents<F: FftImpl<f32>>(cx: &Cx, en: &str, f: &F, nf: usize, wn: &str, win: &[f32], hop: usize) {
    let wl = win.len();
    let full = (nf - 1) * hop + wl;
    for p in 0..4usize.pow(nf as u32) {
        let kinds: Vec<usize> = (0..nf).map(|k| p / 4usize.pow(k as u32) % 4).collect();
        let frames = kinds
            .iter()
            .enumerate()
            .map(|(k, kind)| {
                let mut v = cv::<f32>(&refs::cprobe(wl, 800 + k as u64));
                for (i, c) in v.iter_mut().enumerate() {
                    match kind {
                        0 => {}
                        1 => *c = Complex32::zero(),
                        // Only the last coefficient.
                        2 if i + 1 < wl => *c = Complex32::zero(),
                        // Only imaginary parts.
                        3 => c.re = 0.0,
                        _ => {}
                    }
                }
                v
            })
            .collect();
        these(cx, en, f, true, frames, &format!("kinds={kinds:?}"), wn, win, hop, &[full, full + 2]);
    }
}
#[allow(clippy::too_many_arguments)]
fn these<F: FftImpl<f32>>(cx: &Cx, en: &str, f: &F, par: bool, frames: Vec<Vec<Complex32>>, what: &str, wn: &str, win: &[f32], hop: usize, lens: &[usize]) {
    let wl = win.len();
    let nf = frames.len();
    let fr: Vec<Vec<C>> = frames.iter().map(|v| vc(v)).collect();
    for &len in lens {
        let o = ola(&fr, win, hop, len);
        let key = |form: &str| format!("{form}/{en}/frames={nf}/window={wn}{wl}/hop={hop}/output={len}/{what}");
        cx.case(
            || key("batch"),
            || {
                let mut fs = frames.clone();
                let mut out = vec![f32::NAN; len];
                let mut sc = vec![f32::NAN; len];
                istft(&mut fs, win, hop, &mut out, &mut sc, f).map_err(e)?;
                check(&out, &o, wl, false)?;
                Ok(nf > 0)
            },
        );
        let _ = par;
        #[cfg(all(feature = "parallel", feature = "std"))]
        if par {
            cx.case(
                || key("parallel"),
                || {
                    let mut out = vec![f32::NAN; len];
                    inverse_parallel(&frames, win, hop, &mut out, f).map_err(e)?;
                    check(&out, &o, wl, true)?;
                    Ok(nf > 0)
                },
            );
        }
        cx.case(
            || key("frame"),
            || {
                // Adds to what is there, without normalising.
                let base: Vec<f64> = refs::probe(len, 84);
                let mut out: Vec<f32> = rv(&base);
                for (k, f0) in frames.iter().enumerate() {
                    let mut t = f0.clone();
                    inverse_frame(&mut t, win, k.saturating_mul(hop), &mut out, f).map_err(e)?;
                }
                for i in 0..len {
                    let want = o.sum[i] + base[i];
                    let tol = fft_tol::<f32>(wl) * (o.mag[i] + base[i].abs());
                    if (out[i] as f64 - want).abs() > tol || out[i].is_nan() {
                        return Err(format!("sample {i}: got {}, expected {want} (tolerance {tol:.2e})", out[i]));
                    }
                }
                Ok(nf > 0)
            },
        );
    }
}
/// Analysis form x synthesis form = identity wherever the window covers the signal.
fn roundtrip<F: FftImpl<f32>>(cx: &Cx, en: &str, f: &F, par: bool, n: usize, wn: &str, win: &[f32], hop: usize) {
    let wl = win.len();
    let sig: Vec<f32> = rv(&refs::probe(n, 85));
    let mut norm = vec![0.0f64; n];
    let mut mag = vec![0.0f64; n];
    let need = n.div_ceil(hop);
    for k in 0..need {
        for i in 0..wl {
            if k * hop + i < n {
                norm[k * hop + i] += (win[i] as f64).powi(2);
                mag[k * hop + i] += (win[i] as f64).abs();
            }
        }
    }
    let wmax = win.iter().fold(0.0f64, |a, b| a.max(b.abs() as f64));
    let par = par && cfg!(all(feature = "parallel", feature = "std"));
    for a in ["batch", "parallel", "stream", "frame"] {
        for s in ["batch", "parallel", "stream"] {
            if !par && (a == "parallel" || s == "parallel") {
                continue;
            }
            cx.case(
                || format!("{a}+{s}/{en}/signal={n}/window={wn}{wl}/hop={hop}/roundtrip"),
                || {
                    let z = Complex32::new(0.0, 0.0);
                    let mut frames = vec![vec![z; wl]; need];
                    match a {
                        "batch" => stft(&sig, win, hop, &mut frames, f).map_err(e)?,
                        #[cfg(all(feature = "parallel", feature = "std"))]
                        "parallel" => parallel(&sig, win, hop, &mut frames, f).map_err(e)?,
                        "stream" => {
                            let mut st = StftStream::new(&sig, win, hop, f).map_err(e)?;
                            for fr in frames.iter_mut() {
                                if !st.next_frame(fr).map_err(e)? {
                                    return Err("stream ended early".into());
                                }
                            }
                        }
                        _ => {
                            for (k, fr) in frames.iter_mut().enumerate() {
                                frame(&sig, win, k * hop, fr, f).map_err(e)?;
                            }
                        }
                    }
                    let mut out = vec![f32::NAN; n];
                    match s {
                        "batch" => istft(&mut frames, win, hop, &mut out, &mut vec![0.0; n], f).map_err(e)?,
                        #[cfg(all(feature = "parallel", feature = "std"))]
                        "parallel" => inverse_parallel(&frames, win, hop, &mut out, f).map_err(e)?,
                        _ => {
                            let mut st = IstftStream::new(wl, hop, win.to_vec(), f).map_err(e)?;
                            let mut all = Vec::new();
                            for fr in &frames {
                                all.extend_from_slice(st.push_frame(fr).map_err(e)?);
                            }
                            all.extend_from_slice(st.flush());
                            if all.len() < n && hop <= wl {
                                return Err(format!("only {} samples for a signal of {n}", all.len()));
                            }
                            all.resize(n, 0.0);
                            out.copy_from_slice(&all);
                        }
                    }
                    let mut any = false;
                    for i in 0..n {
                        if norm[i] > 1e-7 {
                            any = true;
                            let tol = fft_tol::<f32>(wl) * (wl as f64).sqrt() * wmax * mag[i] / norm[i] + 1e-6;
                            if (out[i] as f64 - sig[i] as f64).abs() > tol || out[i].is_nan() {
                                return Err(format!("sample {i}: got {}, the signal has {} (tolerance {tol:.2e})", out[i], sig[i]));
                            }
                        }
                    }
                    Ok(any)
                },
            );
        }
    }
}

fn run(eng: &Eng) {
    let (nf, nw, nh, ns) = eng.pick3((4, 12, 14, 16), (6, 24, 27, 32), (10, 40, 44, 64));
    eng.note("bounds", format!("synthesis: 0..={nf} frames x window 1..={nw} x hop 1..={nh} x 6 windows x 4 output lengths; round trip: signal 0..={ns}; plus long windows"));
    let mut units: Vec<Unit> = Vec::new();
    for wl in 1..=nw {
        for (wn, win) in windows(wl) {
            units.push(Box::new(move |cx| {
                let f = ScalarFftImpl::<f32>::default();
                let mi = Minimal::<f32>::default();
                let best = Boxed(new_fft_impl());
                for hop in 1..=nh {
                    for k in 0..=nf {
                        let full = if k == 0 { 4 } else { (k - 1) * hop + wl };
                        let mut lens = vec![full, full + 3, full / 2, full.saturating_sub(1)];
                        lens.dedup();
                        one(cx, "scalar", &f, true, k, wn, &win, hop, &lens);
                        if hop % 4 == 1 {
                            one(cx, "minimal", &mi, false, k, wn, &win, hop, &lens[..1]);
                            one(cx, "best", &best, false, k, wn, &win, hop, &lens[..1]);
                        }
                    }
                    for n in 0..=ns {
                        roundtrip(cx, "scalar", &f, true, n, wn, &win, hop);
                    }
                }
            }));
        }
    }
    let (kf, kw) = eng.pick3((3, 4), (4, 5), (5, 8));
    eng.note("contents", format!("1..={kf} frames, each dense, silent, of one coefficient or imaginary, x window 1..={kw} x hop 1..={}", kw + 1));
    for wl in 1..=kw {
        for (wn, win) in windows(wl) {
            units.push(Box::new(move |cx| {
                let f = ScalarFftImpl::<f32>::default();
                for nf in 1..=kf {
                    for hop in 1..=kw + 1 {
                        contents(cx, "scalar", &f, nf, wn, &win, hop);
                    }
                }
            }));
        }
    }
    units.push(Box::new(move |cx| {
        let f = ScalarFftImpl::<f32>::default();
        let m = usize::MAX;
        for wl in 1..=5usize {
            let (wn, win) = windows(wl).swap_remove(2);
            for hop in [m, m - 1, m - 3, m / 2 + 2, m / 2 + 1, m / 2, m / 3 + 1, 1 << 62] {
                for nf in 1..=4 {
                    one(cx, "scalar", &f, true, nf, wn, &win, hop, &[1, 4, 9]);
                }
            }
        }
    }));
    let long: &[(usize, usize)] = eng.pick(
        &[(64, 16), (256, 64), (400, 160), (1024, 256), (1023, 511), (2048, 512)],
        &[(64, 16), (256, 64), (400, 160), (1024, 256), (1023, 511), (2048, 512), (4096, 1024), (1764, 441), (8192, 2048), (3000, 1), (16384, 4096)],
    );
    for &(wl, hop) in long {
        for (wn, win) in windows(wl) {
            units.push(Box::new(move |cx| {
                let f = ScalarFftImpl::<f32>::default();
                let best = Boxed(new_fft_impl());
                let k = 7;
                let full = (k - 1) * hop + wl;
                one(cx, "scalar", &f, true, k, wn, &win, hop, &[full, full - wl / 2]);
                one(cx, "best", &best, false, k, wn, &win, hop, &[full]);
                roundtrip(cx, "scalar", &f, true, (full + 7).min(4 * wl), wn, &win, hop);
            }));
        }
    }
    // More frames than 2^8 and 2^16, and windows longer than 2^16.
    let many: &'static [(usize, usize, usize)] = eng.pick3(&[(300, 3, 1)], &[(256, 4, 2), (300, 3, 1), (1030, 2, 1), (70_000, 4, 1), (66_000, 1, 1), (66_000, 3, 2), (3, 65_538, 40_000)], &[(256, 4, 2), (300, 3, 1), (1030, 2, 1), (70_000, 4, 1), (66_000, 1, 1), (66_000, 3, 2), (3, 65_538, 40_000), (300_000, 5, 1), (1_100_000, 2, 1), (4, 131_073, 70_000), (3, 262_144, 262_144)]);
    eng.note("many frames", format!("(frames, window, hop) in {many:?}"));
    for &(nf, wl, hop) in many {
        for (wn, win) in windows(wl).into_iter().filter(|w| ["ones", "probe"].contains(&w.0)) {
            units.push(Box::new(move |cx| {
                let f = ScalarFftImpl::<f32>::default();
                let full = (nf - 1) * hop + wl;
                one(cx, "scalar", &f, true, nf, wn, &win, hop, &[full, full - wl / 2]);
                roundtrip(cx, "scalar", &f, true, nf * hop, wn, &win, hop);
            }));
        }
    }
    eng.run_units(units);
    if std::env::var("KMC_STAT").is_ok() {
        eprintln!("max deviation/tolerance = {}", stat_max());
    }
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}

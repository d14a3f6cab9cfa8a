//! C07: every short-time transform computes, for frame k, the DFT of the windowed segment that
//! starts at k*hop, zero-padded past the end of the signal.
use kmc_core::common::*;
use kmc_core::entries::{Boxed, Minimal};
use kofft::stft::*;

pub const DEF: CheckDef = CheckDef {
    id: "C07",
    level: Level::Exploration,
    rule: "one case = (form, engine, signal length, window length, hop, extra output frames, input family); forms: batch, parallel, single frame at every start, stream; 'basis' explores every unit impulse of the signal under a dense window",
    assumptions: &["reference short-time transform evaluated by definition in f64", "f32 only (the crate's short-time transforms are f32)"],
    hang_s: 60,
    run,
};

/// Frames by definition.
fn spec(sig: &[f32], win: &[f32], start: usize, w: &[C]) -> (Vec<C>, f64) {
    let x: Vec<C> = win
        .iter()
        .enumerate()
        .map(|(i, v)| (start.checked_add(i).and_then(|t| sig.get(t)).map_or(0.0, |x| (x * v) as f64), 0.0))
        .collect();
    let y = if x.len() > 300 { refs::fft(&x) } else { refs::dft_with(&x, w) };
    (y, refs::norm2(&x))
}
fn garbage(k: usize, wl: usize) -> Vec<Complex32> {
    // Frames arrive empty, short, of the right length, and long; filled with NaN.
    let len = [0, wl.saturating_sub(1), wl, wl + 3][k % 4];
    vec![Complex32::new(f32::NAN, f32::NAN); len]
}
fn check(frames: &[Vec<Complex32>], sig: &[f32], win: &[f32], hop: usize) -> Result<(), String> {
    let w = refs::roots(win.len());
    for (k, fr) in frames.iter().enumerate() {
        let (want, norm) = spec(sig, win, k.saturating_mul(hop), &w);
        close(&vc(fr), &want, 0.4 * fft_tol::<f32>(win.len()) * norm + 1e-30).map_err(|m| format!("frame {k}: {m}"))?;
    }
    Ok(())
}

fn forms<F: FftImpl<f32>>(cx: &Cx, en: &str, f: &F, par: bool, sig: &[f32], win: &[f32], hop: usize, fam: &str) {
    let (n, wl) = (sig.len(), win.len());
    let need = n.div_ceil(hop);
    let key = |form: &str, extra: usize| format!("{form}/{en}/signal={n}/window={wl}/hop={hop}/extra={extra}/{fam}");
    for extra in [0usize, 1, 3] {
        cx.case(
            || key("batch", extra),
            || {
                let mut o: Vec<_> = (0..need + extra).map(|k| garbage(k, wl)).collect();
                stft(sig, win, hop, &mut o, f).map_err(e)?;
                check(&o, sig, win, hop)?;
                Ok(need > 0)
            },
        );
        let _ = par;
        #[cfg(all(feature = "parallel", feature = "std"))]
        if par {
            cx.case(
                || key("parallel", extra),
                || {
                    let mut o: Vec<_> = (0..need + extra).map(|k| garbage(k, wl)).collect();
                    parallel(sig, win, hop, &mut o, f).map_err(e)?;
                    check(&o, sig, win, hop)?;
                    Ok(need > 0)
                },
            );
        }
        if fam != "dense" {
            break;
        }
    }
    cx.case(
        || key("stream", 0),
        || {
            let mut s = StftStream::new(sig, win, hop, f).map_err(e)?;
            let mut o = Vec::new();
            let mut fr = vec![Complex32::new(f32::NAN, f32::NAN); wl];
            while s.next_frame(&mut fr).map_err(e)? {
                o.push(fr.clone());
                if o.len() > need {
                    return Err(format!("more than {need} frames"));
                }
            }
            if o.len() != need {
                return Err(format!("{} frames instead of {need}", o.len()));
            }
            check(&o, sig, win, hop)?;
            // Exhausted for good, and an exhausted stream writes nothing.
            let m = vec![Complex32::new(7.5, -3.25); wl];
            let mut fr = m.clone();
            for _ in 0..2 {
                if s.next_frame(&mut fr).map_err(e)? || !bits_eq(&fr, &m) {
                    return Err("an exhausted stream produced a frame".into());
                }
            }
            Ok(need > 0)
        },
    );
    if hop == 1 && n < 5000 {
        cx.case(
            || key("frame", 0),
            || {
                let w = refs::roots(wl);
                for start in 0..n + wl + 2 {
                    let mut fr = vec![Complex32::new(f32::NAN, f32::NAN); wl];
                    frame(sig, win, start, &mut fr, f).map_err(e)?;
                    let (want, norm) = spec(sig, win, start, &w);
                    close(&vc(&fr), &want, 0.4 * fft_tol::<f32>(wl) * norm + 1e-30).map_err(|m| format!("start {start}: {m}"))?;
                }
                Ok(true)
            },
        );
    }
}

fn run(eng: &Eng) {
    let (ns, nw, nh, nb) = eng.pick3((20, 16, 22, 8), (48, 36, 52, 14), (100, 70, 110, 26));
    eng.note("bounds", format!("signal 0..={ns} x window 1..={nw} x hop 1..={nh} dense, all impulses up to signal {nb}; plus long windows"));
    let mut units: Vec<Unit> = Vec::new();
    for n in 0..=ns {
        for wl in 1..=nw {
            units.push(Box::new(move |cx| {
                let f = ScalarFftImpl::<f32>::default();
                let mi = Minimal::<f32>::default();
                let best = Boxed(new_fft_impl());
                let sig: Vec<f32> = rv(&refs::probe(n, 71));
                let win: Vec<f32> = rv(&refs::probe(wl, 72));
                for hop in 1..=nh {
                    forms(cx, "scalar", &f, true, &sig, &win, hop, "dense");
                    if wl % 4 == 0 && hop % 3 == 1 {
                        forms(cx, "minimal", &mi, false, &sig, &win, hop, "dense");
                        forms(cx, "best", &best, false, &sig, &win, hop, "dense");
                    }
                    if n <= nb && hop <= nb {
                        for j in 0..n {
                            let mut x = vec![0f32; n];
                            x[j] = 1.0;
                            forms(cx, "scalar", &f, true, &x, &win, hop, &format!("impulse{j}"));
                        }
                    }
                }
            }));
        }
    }
    // Contents a shortcut might single out, of the signal and of the window.
    let (nc, words, wc) = eng.pick3((6, 3, 4), (14, 6, 8), (24, 8, 12));
    eng.note("contents", format!("special signals to length {nc} and every one over -1, 0, 1 to {words}, special windows to {wc}, hops 1..={}", wc + 1));
    for n in 0..=nc {
        for wl in 1..=wc {
            units.push(Box::new(move |cx| {
                let f = ScalarFftImpl::<f32>::default();
                let win: Vec<f32> = rv(&refs::probe(wl, 72));
                for hop in (1..=wc + 1).filter(|h| *h <= 3 || h % wl <= 1) {
                    if n > 0 {
                        for (name, x) in special_real(n, words) {
                            forms(cx, "scalar", &f, true, &rv::<f32>(&x), &win, hop, &name);
                        }
                    }
                    let sig: Vec<f32> = rv(&refs::probe(n, 71));
                    for (name, w) in special_real(wl, 3) {
                        forms(cx, "scalar", &f, true, &sig, &rv::<f32>(&w), hop, &format!("window {name}"));
                    }
                }
            }));
        }
    }
    // Hops and starts for which positions exceed the range of usize.
    units.push(Box::new(move |cx| {
        let f = ScalarFftImpl::<f32>::default();
        let m = usize::MAX;
        for n in 0..=4usize {
            for wl in 1..=5usize {
                let sig: Vec<f32> = rv(&refs::probe(n, 75));
                let win: Vec<f32> = rv(&refs::probe(wl, 76));
                for hop in [m, m - 1, m - 3, m / 2 + 2, m / 2 + 1, m / 2, m / 3 + 1, 1 << 62] {
                    forms(cx, "scalar", &f, true, &sig, &win, hop, "dense");
                    cx.case(
                        || format!("frame/scalar/signal={n}/window={wl}/start={hop}/far"),
                        || {
                            let mut fr = vec![Complex32::new(f32::NAN, f32::NAN); wl];
                            frame(&sig, &win, hop, &mut fr, &f).map_err(e)?;
                            if fr.iter().any(|v| v.re != 0.0 || v.im != 0.0) {
                                return Err("a frame far behind the signal is not silent".into());
                            }
                            Ok(true)
                        },
                    );
                }
            }
        }
    }));
    // (70000, .., 1): more frames than 2^16; (70000, 65538, ..): a window longer than that.
    let long: &[(usize, usize, usize)] = eng.pick3(
        &[(3000, 256, 64), (700, 3, 1)],
        &[(300, 4, 1), (1030, 2, 1), (70_000, 4, 1), (140_000, 6, 2), (66_000, 1, 1), (200_000, 5, 3), (70_000, 65_538, 40_000), (66_000, 65_536, 66_000), (70_000, 16, 70_000), (3000, 256, 64), (2500, 400, 160), (5000, 1024, 256), (4096, 1023, 511), (9000, 2048, 512), (7000, 2000, 2500), (20000, 4096, 4096)],
        &[(3000, 256, 64), (2500, 400, 160), (5000, 1024, 256), (4096, 1023, 511), (9000, 2048, 512), (7000, 2000, 2500), (20000, 4096, 4096), (30000, 8192, 1024), (70000, 16384, 8192), (200_000, 32768, 16384), (300, 4, 1), (1030, 2, 1), (70_000, 4, 1), (140_000, 6, 2), (66_000, 1, 1), (200_000, 5, 3), (70_000, 65_538, 40_000), (66_000, 65_536, 66_000), (70_000, 16, 70_000), (600_000, 8, 1), (1_100_000, 2, 1), (300_000, 131_073, 100_000), (400_000, 262_144, 131_072), (100_000, 1024, 256), (44100, 1764, 441), (50_000, 2500, 999)],
    );
    for &(n, wl, hop) in long {
        units.push(Box::new(move |cx| {
            let f = ScalarFftImpl::<f32>::default();
            let sig: Vec<f32> = rv(&refs::probe(n, 73));
            let win: Vec<f32> = rv(&refs::probe(wl, 74));
            forms(cx, "scalar", &f, true, &sig, &win, hop, "long");
            let best = Boxed(new_fft_impl());
            forms(cx, "best", &best, false, &sig, &win, hop, "long");
        }));
    }
    eng.run_units(units);
    if std::env::var("KMC_STAT").is_ok() {
        eprintln!("max deviation/tolerance = {}", stat_max());
    }
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}

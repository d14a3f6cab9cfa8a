//! C16: spectrogram rendering: magnitudes, decibels, colours and logarithmic bins follow their
//! definitions, stay in range and never panic.
use kmc_core::common::*;
use kofft::visual::spectrogram::*;

pub const DEF: CheckDef = CheckDef {
    id: "C16",
    level: Level::Exploration,
    rule: "one case = (function, parameters): a grid of 65536 steps plus the neighbourhood of every stop for colours, every (bin, top bin) pair up to the bound for the log axis, every (length, window, hop) up to the bound for magnitudes",
    assumptions: &["8-bit colour components may differ by one from the exact interpolation (truncation or rounding)", "a log-axis position within 1e-5 of an integer may round either way"],
    hang_s: 60,
    run,
};
const MAPS: [(Colormap, &str); 7] = [
    (Colormap::Fire, "fire"),
    (Colormap::Legacy, "legacy"),
    (Colormap::Gray, "gray"),
    (Colormap::Viridis, "viridis"),
    (Colormap::Plasma, "plasma"),
    (Colormap::Inferno, "inferno"),
    (Colormap::Rainbow, "rainbow"),
];
fn stops(m: Colormap) -> Option<Vec<(f64, [f64; 3])>> {
    Some(match m {
        Colormap::Fire => vec![
            (0.0, [0., 0., 0.]),
            (0.25, [128., 0., 128.]),
            (0.5, [255., 165., 0.]),
            (0.75, [255., 255., 0.]),
            (1.0, [255., 255., 255.]),
        ],
        Colormap::Legacy => vec![(0.0, [64., 0., 64.]), (1.0, [255., 255., 224.])],
        Colormap::Gray => vec![(0.0, [0., 0., 0.]), (1.0, [255., 255., 255.])],
        Colormap::Rainbow => vec![
            (0.0, [0., 0., 0.]),
            (0.25, [0., 0., 255.]),
            (0.5, [0., 255., 255.]),
            (0.75, [255., 255., 0.]),
            (0.9, [255., 0., 0.]),
            (1.0, [255., 255., 255.]),
        ],
        _ => return None,
    })
}
fn colour(m: Colormap, t: f64) -> [f64; 3] {
    let t = t.clamp(0.0, 1.0);
    match stops(m) {
        Some(s) => {
            for w in s.windows(2) {
                if t <= w[1].0 {
                    let l = (t - w[0].0) / (w[1].0 - w[0].0);
                    return [0, 1, 2].map(|i| w[0].1[i] + (w[1].1[i] - w[0].1[i]) * l);
                }
            }
            unreachable!()
        }
        None => {
            let g = match m {
                Colormap::Viridis => colorous::VIRIDIS,
                Colormap::Plasma => colorous::PLASMA,
                _ => colorous::INFERNO,
            };
            let c = g.eval_continuous(t);
            [c.r as f64, c.g as f64, c.b as f64]
        }
    }
}
fn check_colour(m: Colormap, t: f32) -> Result<(), String> {
    let got = map_color_u8(t, m);
    let want = colour(m, t as f64);
    for i in 0..3 {
        if !((got[i] as f64 - want[i]).abs() <= 1.02) {
            return Err(format!("{t}: {got:?} instead of {want:?}"));
        }
    }
    if map_color_u16(t, m) != got.map(|v| v as u16 * 257) {
        return Err(format!("{t}: the 16-bit colour is not the 8-bit one"));
    }
    Ok(())
}
fn colours(cx: &Cx, m: Colormap, name: &str) {
    let steps: u32 = if cx.eng.small() { 1 << 16 } else if cx.quick() { 1 << 22 } else { 1 << 28 };
    let blocks = 64;
    for b in 0..blocks {
        cx.case(
            || format!("colour/{name}/grid{b}"),
            || {
                for i in 0..=steps / blocks {
                    check_colour(m, (b * (steps / blocks) + i) as f32 / steps as f32)?;
                }
                Ok(true)
            },
        );
    }
    for s in [0.0f32, 0.25, 0.5, 0.75, 0.9, 1.0] {
        cx.case(
            || format!("colour/{name}/stop{s}"),
            || {
                for d in -300i32..=300 {
                    let bits = s.to_bits() as i32 + d;
                    let t = if bits < 0 { -f32::from_bits((-bits) as u32) } else { f32::from_bits(bits as u32) };
                    check_colour(m, t)?;
                }
                if stops(m).is_some() && stops(m).unwrap().iter().any(|p| p.0 as f32 == s) {
                    let want = stops(m).unwrap().iter().find(|p| p.0 as f32 == s).unwrap().1;
                    let got = map_color_u8(s, m);
                    if (0..3).any(|i| got[i] as f64 != want[i]) {
                        return Err(format!("stop {s} is {got:?}"));
                    }
                }
                Ok(true)
            },
        );
    }
    cx.case(
        || format!("colour/{name}/outside"),
        || {
            for t in [-1.0f32, -1e-30, -f32::MAX, f32::NEG_INFINITY, 1.0000001, 2.0, f32::MAX, f32::INFINITY] {
                if map_color_u8(t, m) != map_color_u8(if t < 0.5 { 0.0 } else { 1.0 }, m) {
                    return Err(format!("{t} is not clamped"));
                }
            }
            let _ = (map_color_u8(f32::NAN, m), map_color_u16(f32::NAN, m));
            Ok(true)
        },
    );
}
fn mags() -> Vec<f32> {
    let mut v: Vec<f32> = vec![0.0, -0.0, -1.0, f32::MIN_POSITIVE, 1e-45];
    for ex in -40..=38 {
        for m in [1.0f64, 1.7, 3.0, 7.5] {
            let x = (m * 10f64.powi(ex)) as f32;
            if x.is_finite() {
                v.push(x);
            }
        }
    }
    v
}
fn db(cx: &Cx) {
    for &max in &mags() {
        cx.case(
            || format!("db/max={max:e}"),
            || {
                for &mag in &mags() {
                    if mag > max && max > 0.0 {
                        continue;
                    }
                    for floor in [-200.0f32, -120.0, -80.0, -60.0, -20.0, -0.5] {
                        let want = if max <= 0.0 || mag <= 0.0 {
                            floor as f64
                        } else {
                            (20.0 * (mag as f64 / max as f64).log10()).max(floor as f64)
                        };
                        let got = magnitude_to_db(mag, max, floor) as f64;
                        // The quotient of two numbers may be denormal: compare where it is not.
                        let q = mag as f64 / max as f64;
                        if max > 0.0 && mag > 0.0 && q < 2e-37 {
                            if !(got >= floor as f64 && got <= want.max(floor as f64) + 6.1) {
                                return Err(format!("{mag:e} of {max:e} floor {floor}: {got}"));
                            }
                            continue;
                        }
                        if !((got - want).abs() <= 1e-4 * (1.0 + want.abs())) {
                            return Err(format!("{mag:e} of {max:e} floor {floor}: {got} instead of {want}"));
                        }
                        let t = (want - floor as f64) / -floor as f64;
                        for (m, n) in MAPS {
                            let c8 = color_from_magnitude_u8(mag, max, floor, m);
                            let lo = colour(m, t - 2e-4);
                            let hi = colour(m, t + 2e-4);
                            for i in 0..3 {
                                let (a, b) = (lo[i].min(hi[i]), lo[i].max(hi[i]));
                                if (c8[i] as f64) < a - 1.1 || c8[i] as f64 > b + 1.1 {
                                    return Err(format!("{n}: {mag:e} of {max:e} floor {floor}: {c8:?} instead of {lo:?}"));
                                }
                            }
                            if color_from_magnitude_u16(mag, max, floor, m) != c8.map(|v| v as u16 * 257) {
                                return Err("the 16-bit colour is not the 8-bit one".into());
                            }
                        }
                        if max > 0.0 {
                            let range = -floor;
                            let d = 20.0 * q.max(1e-10).log10();
                            let want = ((d + range as f64) / range as f64).clamp(0.0, 1.0);
                            let got = db_scale(mag, max, range) as f64;
                            if !((got - want).abs() <= 1e-4 + 2e-5 * 200.0 / range as f64) {
                                return Err(format!("db_scale {mag:e} of {max:e} range {range}: {got} instead of {want}"));
                            }
                        }
                    }
                }
                Ok(true)
            },
        );
    }
}
fn bins(cx: &Cx, max: usize, dense: bool) {
    cx.case(
        || format!("logbin/top={max}"),
        || {
            let lm = (max as f64 + 1.0).ln();
            let mut prev = 0;
            let mut map = Vec::with_capacity(max + 1);
            let idx: Vec<usize> = if dense { (0..=max).collect() } else { (0..=max).step_by((max / 5000).max(1)).chain([max - 1, max]).collect() };
            for &b in &idx {
                let y = map_bin_to_pixel(b, max);
                let pos = if b >= max { max as f64 } else { max as f64 * ((b as f64 + 1.0).ln() / lm) };
                let ok = y as f64 == pos.floor() || (pos - pos.round()).abs() < 1e-5 * (1.0 + pos) && (y as f64 - pos).abs() < 1.01 + 5e-7 * pos;
                if !ok || y > max || y < prev {
                    return Err(format!("bin {b} maps to {y} (position {pos}, previous {prev})"));
                }
                prev = y;
                map.push(y);
            }
            for b in [max, max + 1, max + 1000, usize::MAX] {
                if map_bin_to_pixel(b, max) != max {
                    return Err(format!("bin {b} maps to {}", map_bin_to_pixel(b, max)));
                }
            }
            if dense && max <= 700 {
                for extra in [0usize, 1, 3, 300, 70_000] {
                    if extra > 3 && max % 50 > 2 || extra > 1000 && max > 200 {
                        continue;
                    }
                    for len in [0, max / 2, max, max + 1 + extra] {
                        let v: Vec<f32> = rv::<f32>(&refs::probe(len, 161)).iter().map(|x| x.abs() + 0.25).collect();
                        let (mut s, mut c) = (vec![0.0f64; max + 1], vec![0.0f64; max + 1]);
                        for (b, x) in v.iter().enumerate() {
                            let y = map[b.min(max)];
                            s[y] += *x as f64;
                            c[y] += 1.0;
                        }
                        let want: Vec<f64> = s.iter().zip(&c).map(|(s, c)| if *c > 0.0 { s / c } else { 0.0 }).collect();
                        let got = log_scale_bins(&v, max);
                        close_r(&vr(&got), &want, 1e-4).map_err(|m| format!("{len} values: {m}"))?;
                    }
                }
            }
            Ok(max > 1)
        },
    );
}
fn magnitudes(cx: &Cx, n: usize, win: usize, hop: usize) {
    cx.case(
        || format!("magnitudes/n={n}/window={win}/hop={hop}"),
        || {
            let sig: Vec<f32> = rv(&refs::probe(n, 162));
            let r = stft_magnitudes(&sig, win, hop);
            if win == 0 && n > 0 {
                return match r {
                    Err(FftError::EmptyInput) => Ok(false),
                    r => Err(format!("an empty window gave {r:?}")),
                };
            }
            let (m, max) = r.map_err(e)?;
            if m.len() != n.div_ceil(hop) || m.iter().any(|f| f.len() != win / 2) {
                return Err(format!("{} frames of {:?} bins", m.len(), m.first().map(|f| f.len())));
            }
            let mut top = 0.0f32;
            for (k, f) in m.iter().enumerate() {
                let x: Vec<C> = (0..win)
                    .map(|i| {
                        let w = 0.5 - 0.5 * (2.0 * std::f64::consts::PI * i as f64 / win as f64).cos();
                        (sig.get(k * hop + i).map_or(0.0, |s| *s as f64 * w), 0.0)
                    })
                    .collect();
                let want: Vec<f64> = if win > 512 { refs::fft(&x) } else { refs::dft(&x) }.iter().take(win / 2).map(|c| c.0.hypot(c.1)).collect();
                let norm = (0..win).filter_map(|i| sig.get(k * hop + i)).map(|s| (*s as f64).powi(2)).sum::<f64>().sqrt();
                close_r(&vr(f), &want, (fft_tol::<f32>(win) + 4e-6) * (norm + 1e-20)).map_err(|m| format!("frame {k}: {m}"))?;
                for v in f {
                    top = top.max(*v);
                }
            }
            if top != max {
                return Err(format!("maximum {max} instead of {top}"));
            }
            Ok(n > 0)
        },
    );
}
fn parse(cx: &Cx) {
    for (m, name) in MAPS {
        cx.case(
            || format!("parse/{name}"),
            || {
                for mask in 0..1u32 << name.len() {
                    let s: String = name.chars().enumerate().map(|(i, c)| if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
                    if Colormap::parse(&s) != m {
                        return Err(format!("{s:?} is {:?}", Colormap::parse(&s)));
                    }
                }
                for s in [format!(" {name}"), format!("{name} "), name[1..].to_string(), format!("{name}s"), String::new(), "grey".into()] {
                    if Colormap::parse(&s) != Colormap::Fire {
                        return Err(format!("{s:?} is {:?}", Colormap::parse(&s)));
                    }
                }
                Ok(true)
            },
        );
    }
}
fn run(eng: &Eng) {
    let top = eng.pick3(100, 9000, 40000);
    let (nm, wm, hm) = eng.pick3((8, 8, 9), (60, 50, 60), (130, 100, 130));
    eng.note("bounds", format!("log axis: every bin for every top bin <= {top}; magnitudes: every length <= {nm}, window <= {wm}, hop <= {hm}"));
    let mut units: Vec<Unit> = vec![];
    for (m, name) in MAPS {
        units.push(Box::new(move |cx| colours(cx, m, name)));
    }
    units.push(Box::new(parse));
    units.push(Box::new(db));
    for b in 0..=top {
        units.push(Box::new(move |cx| bins(cx, b, true)));
    }
    for b in [4095usize, 4096, 8191, 16384, 65535, 1 << 20, 1 << 23] {
        units.push(Box::new(move |cx| bins(cx, b, b < 20000)));
    }
    for n in 0..=nm {
        units.push(Box::new(move |cx| {
            for w in 0..=wm {
                for h in 1..=hm {
                    magnitudes(cx, n, w, h);
                }
            }
        }));
    }
    for (n, w, h) in [(3000usize, 256usize, 64usize), (5000, 1024, 512), (2100, 1000, 333), (4096, 512, 512), (700, 2048, 100)]
        .into_iter()
        .chain(if eng.small() { vec![] } else { vec![(66_000, 16, 1), (131_100, 8, 2), (70_000, 32, 70_001), (65_600, 65_536, 65_536), (66_000, 65_538, 1 << 20), (10_000, 16_384, 5000), (9000, 3000, 700), (70_000, 1, 1)] })
    {
        units.push(Box::new(move |cx| magnitudes(cx, n, w, h)));
    }
    eng.run_units(units);
    if std::env::var("KMC_STAT").is_ok() {
        eprintln!("max deviation/tolerance = {}", stat_max());
    }
}
fn main() {
    kmc_engine::main_with(&[DEF]);
}

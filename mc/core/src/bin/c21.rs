//! C21: the two- and three-dimensional transforms are the separable DFT for every shape, refuse
//! shapes that do not fit, and flattening nested arrays keeps the row-major order.
use kmc_core::common::*;
use kofft::ndfft::*;

pub const DEF: CheckDef = CheckDef {
    id: "C21",
    level: Level::Exploration,
    rule: "one case = (element type, shape, family); 'basis' explores every unit impulse of the array (real and imaginary), which determines the linear map; 'refuse' explores every wrong length of data and scratch; 'flatten' explores every nested array of bounded shape; 'history' every sequence of shapes on one engine",
    assumptions: &["reference: DFT along every axis, evaluated in f64 with exactly reduced roots of unity"],
    hang_s: 120,
    run,
};

/// Reference DFT along one axis of a dense array: `outer` blocks of `n` steps of `inner` elements.
fn axis(x: &mut [C], outer: usize, n: usize, inner: usize, inverse: bool) {
    for o in 0..outer {
        for i in 0..inner {
            let line: Vec<C> = (0..n).map(|k| x[(o * n + k) * inner + i]).collect();
            let y = if inverse { refs::idft(&line) } else { refs::fft(&line) };
            for (k, v) in y.into_iter().enumerate() {
                x[(o * n + k) * inner + i] = v;
            }
        }
    }
}
fn reference(x: &[C], s: [usize; 3], inverse: bool) -> Vec<C> {
    let mut y = x.to_vec();
    axis(&mut y, 1, s[0], s[1] * s[2], inverse);
    axis(&mut y, s[0], s[1], s[2], inverse);
    axis(&mut y, s[0] * s[1], s[2], 1, inverse);
    y
}
fn nan<T: Num>(n: usize) -> Vec<Complex<T>> {
    cv(&vec![(f64::NAN, f64::NAN); n])
}
fn run2<T: Num>(fft: &ScalarFftImpl<T>, x: &[Complex<T>], r: usize, c: usize) -> Result<Vec<Complex<T>>, String> {
    let mut v = x.to_vec();
    fft2d_inplace(&mut v, r, c, fft, &mut nan(r)).map_err(e)?;
    Ok(v)
}
fn run3<T: Num>(fft: &ScalarFftImpl<T>, x: &[Complex<T>], s: [usize; 3]) -> Result<Vec<Complex<T>>, String> {
    let mut v = x.to_vec();
    let (mut tube, mut row, mut col) = (nan(s[0]), nan(s[1]), nan(s[2]));
    let mut scratch = Fft3dScratch { tube: &mut tube, row: &mut row, col: &mut col };
    fft3d_inplace(&mut v, s[0], s[1], s[2], fft, &mut scratch).map_err(e)?;
    Ok(v)
}
/// Shape [1, r, c] is explored with both forms, [d, r, c] with d != 1 with the 3-D form.
type Run<T> = (&'static str, fn(&[Complex<T>], [usize; 3]) -> Result<Vec<Complex<T>>, String>);
fn forms<T: Num>(s: [usize; 3]) -> Vec<Run<T>> {
    let mut v: Vec<Run<T>> = vec![("3d", |x, s| run3(&ScalarFftImpl::default(), x, s))];
    if s[0] == 1 {
        v.push(("2d", |x, s| run2(&ScalarFftImpl::default(), x, s[1], s[2])));
    }
    v
}
fn tol<T: Num>(s: [usize; 3]) -> f64 {
    s.iter().filter(|n| **n > 1).map(|n| fft_tol::<T>(*n)).sum::<f64>() * 0.4 + T::EPS
}
fn shape<T: Num>(cx: &Cx, s: [usize; 3], basis: bool) {
    let n: usize = s.iter().product();
    // One rounding error of the norm may end up in a single output.
    for (form, f) in forms::<T>(s) {
        if basis {
            cx.case(
                || format!("{}/{form}/{s:?}/basis", T::NAME),
                || {
                    for i in 0..n {
                        for unit in [(1.0, 0.0), (0.0, 1.0)] {
                            let mut x = vec![(0.0, 0.0); n];
                            x[i] = unit;
                            let want = reference(&x, s, false);
                            let got = vc(&f(&cv::<T>(&x), s)?);
                            close(&got, &want, tol::<T>(s)).map_err(|m| format!("impulse {unit:?} at {i}: {m}"))?;
                        }
                    }
                    Ok(n > 1)
                },
            );
        }
        cx.case(
            || format!("{}/{form}/{s:?}/dense", T::NAME),
            || {
                let x = rounded::<T>(&refs::cprobe(n, 210));
                let want = reference(&x, s, false);
                let got = vc(&f(&cv::<T>(&x), s)?);
                let bound = refs::norm2(&x).max(1e-30) * (n.max(1) as f64).sqrt().min(8.0) * tol::<T>(s);
                close(&got, &want, bound)?;
                // And back.
                let back = reference(&got, s, true);
                close(&back, &x, bound)?;
                Ok(n > 1)
            },
        );
    }
}
/// Contents a shortcut might single out: special lines repeated in every way, and silent lines
/// at every subset of the positions along each axis.
fn contents<T: Num>(cx: &Cx, s: [usize; 3]) {
    let n: usize = s.iter().product();
    let mut fams: Vec<(String, Vec<C>)> = special(n);
    let dense = refs::cprobe(n, 217);
    for ax in 0..3 {
        let inner: usize = s[ax + 1..].iter().product();
        let at = |i: usize| i / inner % s[ax];
        if s[ax] <= 5 {
            for mask in 1..1usize << s[ax] {
                fams.push((format!("silent along {ax}: {mask:b}"), dense.iter().enumerate().map(|(i, c)| if mask >> at(i) & 1 == 1 { (0.0, 0.0) } else { *c }).collect()));
            }
        }
        for (name, line) in special(s[ax]) {
            fams.push((format!("{name} along {ax}"), (0..n).map(|i| line[at(i)]).collect()));
        }
        // Equal lines.
        fams.push((format!("equal along {ax}"), (0..n).map(|i| dense[i - at(i) * inner]).collect()));
    }
    for (form, f) in forms::<T>(s) {
        cx.case(
            || format!("{}/{form}/{s:?}/contents", T::NAME),
            || {
                for (name, x) in &fams {
                    let x = rounded::<T>(x);
                    let want = reference(&x, s, false);
                    let got = vc(&f(&cv::<T>(&x), s)?);
                    let bound = refs::norm2(&x) * (n as f64).sqrt().min(8.0) * tol::<T>(s) + 1e-30;
                    close(&got, &want, bound).map_err(|m| format!("{name}: {m}"))?;
                }
                Ok(n > 1)
            },
        );
    }
}
/// Every way in which data or scratch buffers do not fit a shape, exhaustively.
fn refuse<T: Num>(cx: &Cx, max: usize) {
    let fft = ScalarFftImpl::<T>::default();
    for r in 0..=max {
        for c in 0..=max {
            for len in 0..=r * c + 2 {
                for sc in 0..=r + 2 {
                    cx.case(
                        || format!("{}/2d/{r}x{c}/refuse/data={len}/scratch={sc}", T::NAME),
                        || {
                            let x = cv::<T>(&refs::cprobe(len, 211));
                            let mut v = x.clone();
                            let res = fft2d_inplace(&mut v, r, c, &fft, &mut nan(sc));
                            let fits = len == r * c && (sc == r || len == 0);
                            verdict(res, fits, &x, &v)
                        },
                    );
                }
            }
        }
    }
    let max = max.min(2);
    for d in 0..=max {
        for r in 0..=max {
            for c in 0..=max {
                for len in 0..=d * r * c + 1 {
                    for a in 0..=d + 1 {
                        for b in 0..=r + 1 {
                            for g in 0..=c + 1 {
                                cx.case(
                                    || format!("{}/3d/{d}x{r}x{c}/refuse/data={len}/scratch={a},{b},{g}", T::NAME),
                                    || {
                                        let x = cv::<T>(&refs::cprobe(len, 212));
                                        let mut v = x.clone();
                                        let (mut tube, mut row, mut col) = (nan(a), nan(b), nan(g));
                                        let mut s = Fft3dScratch { tube: &mut tube, row: &mut row, col: &mut col };
                                        let res = fft3d_inplace(&mut v, d, r, c, &fft, &mut s);
                                        let fits = len == d * r * c && ((a, b, g) == (d, r, c) || len == 0);
                                        verdict(res, fits, &x, &v)
                                    },
                                );
                            }
                        }
                    }
                }
            }
        }
    }
    // Shapes whose volume overflows: every combination of extreme and small dimensions.
    let dims = [0usize, 1, 2, 3, 4, usize::MAX, usize::MAX / 2 + 1, 1 << 32, usize::MAX / 3, usize::MAX / 4 + 1];
    for r in dims {
        for c in dims {
            for len in [0usize, 1, 2, 4] {
                cx.case(
                    || format!("{}/2d/{r}x{c}/overflow/data={len}", T::NAME),
                    || {
                        let x = cv::<T>(&refs::cprobe(len, 213));
                        let mut v = x.clone();
                        let res = fft2d_inplace(&mut v, r, c, &fft, &mut nan(r.min(8)));
                        let fits = r as u128 * c as u128 == len as u128;
                        verdict(res, fits && (len == 0 || r < 8), &x, &v)
                    },
                );
                for d in dims {
                    cx.case(
                        || format!("{}/3d/{d}x{r}x{c}/overflow/data={len}", T::NAME),
                        || {
                            let x = cv::<T>(&refs::cprobe(len, 213));
                            let mut v = x.clone();
                            let (mut tube, mut row, mut col) = (nan(d.min(8)), nan(r.min(8)), nan(c.min(8)));
                            let mut s = Fft3dScratch { tube: &mut tube, row: &mut row, col: &mut col };
                            let res = fft3d_inplace(&mut v, d, r, c, &fft, &mut s);
                            let vol = (d as u128).checked_mul(r as u128).and_then(|p| p.checked_mul(c as u128));
                            // A volume of zero may be reported as overflow when two of the
                            // dimensions overflow by themselves: either answer leaves nothing wrong.
                            if len == 0 && (d == 0 || r == 0 || c == 0) {
                                return Ok(false);
                            }
                            verdict(res, vol == Some(len as u128), &x, &v)
                        },
                    );
                }
            }
        }
    }
}
fn verdict<T: Num>(res: Result<(), FftError>, fits: bool, before: &[Complex<T>], after: &[Complex<T>]) -> Result<bool, String> {
    match (res, fits) {
        (Ok(()), true) => Ok(false),
        (Err(FftError::MismatchedLengths), false) if bits_eq(before, after) => Ok(true),
        (Err(FftError::MismatchedLengths), false) => Err("refused, but the data was changed".into()),
        (r, f) => Err(format!("returned {r:?} although the buffers {}", if f { "fit" } else { "do not fit" })),
    }
}

/// Every tuple of at most `max` entries below `base`.
fn tuples(base: usize, max: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for t in &last {
            for k in 0..base {
                let mut u: Vec<usize> = t.clone();
                u.push(k);
                next.push(u);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
fn flatten(cx: &Cx, rows: usize, lens: usize, planes: usize) {
    let mut count = 0f64;
    let mut make = |n: usize| -> Vec<Complex<f64>> {
        (0..n)
            .map(|_| {
                count += 1.0;
                Complex::new(count, -count)
            })
            .collect()
    };
    let mut build = |t: &[usize]| -> Vec<Vec<Complex<f64>>> { t.iter().map(|n| make(*n)).collect() };
    for t in tuples(lens + 1, rows) {
        let data = build(&t);
        cx.case(
            || format!("flatten2/{t:?}"),
            || {
                let want: Vec<Complex<f64>> = data.concat();
                let rect = t.iter().all(|n| *n == t[0]);
                match flatten_2d(data.clone()) {
                    Ok((f, r, c)) if rect && bits_eq(&f, &want) && r == t.len() && c == t.first().copied().unwrap_or(0) => Ok(true),
                    Err(FftError::MismatchedLengths) if !rect => Ok(true),
                    r => Err(format!("{r:?}")),
                }
            },
        );
    }
    let shapes = tuples(3, 2);
    for t in tuples(shapes.len(), planes) {
        let t: Vec<&Vec<usize>> = t.iter().map(|k| &shapes[*k]).collect();
        let data: Vec<Vec<Vec<Complex<f64>>>> = t.iter().map(|p| build(p)).collect();
        cx.case(
            || format!("flatten3/{t:?}"),
            || {
                let want: Vec<Complex<f64>> = data.concat().concat();
                let r0 = t.first().map_or(0, |p| p.len());
                let c0 = t.first().and_then(|p| p.first().copied()).unwrap_or(0);
                let rect = t.iter().all(|p| p.len() == r0 && p.iter().all(|c| *c == c0));
                match flatten_3d(data.clone()) {
                    Ok((f, d, r, c)) if rect && bits_eq(&f, &want) && (d, r, c) == (t.len(), r0, c0) => Ok(true),
                    Err(FftError::MismatchedLengths) if !rect => Ok(true),
                    r => Err(format!("{r:?}")),
                }
            },
        );
    }
}
fn histories<T: Num>(cx: &Cx, depth: usize) {
    let shapes = [[1, 4, 4], [1, 3, 5], [1, 1, 7], [2, 3, 4], [5, 2, 1], [8, 1, 2]];
    for code in 0..shapes.len().pow(depth as u32) {
        let mut k = code;
        let seq: Vec<[usize; 3]> = (0..depth)
            .map(|_| {
                let s = shapes[k % shapes.len()];
                k /= shapes.len();
                s
            })
            .collect();
        cx.case(
            || format!("{}/history={seq:?}", T::NAME),
            || {
                let fft = ScalarFftImpl::<T>::default();
                for (step, s) in seq.iter().enumerate() {
                    let n: usize = s.iter().product();
                    let x = cv::<T>(&refs::cprobe(n, 214 + step as u64));
                    let (got, want) = if s[0] == 1 {
                        (run2(&fft, &x, s[1], s[2])?, run2(&ScalarFftImpl::default(), &x, s[1], s[2])?)
                    } else {
                        (run3(&fft, &x, *s)?, run3(&ScalarFftImpl::default(), &x, *s)?)
                    };
                    close(&vc(&got), &vc(&want), fft_tol::<T>(n.max(2)) * refs::norm2(&vc(&x)))
                        .map_err(|m| format!("step {step} (shape {s:?}) depends on the shapes transformed before: {m}"))?;
                }
                Ok(true)
            },
        );
    }
}

/// One engine walks over many shapes; every result is that of the definition.
fn walk<T: Num>(cx: &Cx, name: &str, shapes: &[[usize; 3]]) {
    cx.case(
        || format!("{}/walk/{name}", T::NAME),
        || {
            let fft = ScalarFftImpl::<T>::default();
            for (step, s) in shapes.iter().enumerate() {
                let n: usize = s.iter().product();
                let x = rounded::<T>(&refs::cprobe(n, 219));
                let want = reference(&x, *s, false);
                let got = if s[0] == 1 && step % 2 == 0 { run2(&fft, &cv::<T>(&x), s[1], s[2])? } else { run3(&fft, &cv::<T>(&x), *s)? };
                close(&vc(&got), &want, refs::norm2(&x).max(1e-30) * (n as f64).sqrt().min(8.0) * tol::<T>(*s)).map_err(|m| format!("step {step} (shape {s:?}): {m}"))?;
            }
            Ok(true)
        },
    );
}
fn walks(eng: &Eng) -> Vec<(&'static str, Vec<[usize; 3]>)> {
    let k = eng.pick3(6, 24, 48);
    let up: Vec<[usize; 3]> = (1..=k).flat_map(|n| [[1, n, n + 1], [n, 2, 3], [2, n, 1], [1, n, n], [1, 1, n], [1, n, 1]]).collect();
    let down = up.iter().rev().copied().collect();
    let swap = (1..=k).flat_map(|r| (1..=k).flat_map(move |c| [[1, r, c], [1, c, r], [r, 1, c], [c, r, 1]])).collect();
    let big: Vec<[usize; 3]> = eng.pick3(vec![], vec![1usize, 2, 3, 5, 8, 12, 31], vec![1, 2, 3, 5, 8, 12, 31, 100]).into_iter().flat_map(|n| [[1, n, 2], [1, n + 1024, 2], [1, 2, n], [1, 2, n + 256], [n, 1, 2], [1, 1, n]])
        // Lengths beyond 65536 whose reference is cheap.
        .chain(if eng.small() { vec![] } else { [2usize, 74, 128].into_iter().flat_map(|n| [[1, n, 1], [n, 1, 1], [1, 1, n], [n + 65_536, 1, 1], [1, n + 65_536, 1], [1, 1, n + 65_536], [n, 1, 1], [1, n, 1], [1, 1, n]]).collect() })
        .collect();
    vec![("up", up), ("down", down), ("swapped", swap), ("congruent", big)]
}

fn run(eng: &Eng) {
    let (m2, m3, b2, b3) = (eng.pick3(6, 40, 80), eng.pick3(3, 9, 14), eng.pick3(24, 300, 900), eng.pick3(16, 216, 500));
    let depth = eng.pick3(2, 4, 5);
    let mut units: Vec<Unit> = vec![];
    for r in 0..=m2 {
        units.push(Box::new(move |cx| {
            for c in 0..=m2 {
                shape::<f32>(cx, [1, r, c], r * c <= b2);
                shape::<f64>(cx, [1, r, c], r * c <= b2);
            }
        }));
    }
    for d in 0..=m3 {
        for r in 0..=m3 {
            units.push(Box::new(move |cx| {
                for c in 0..=m3 {
                    shape::<f32>(cx, [d, r, c], d * r * c <= b3);
                    shape::<f64>(cx, [d, r, c], d * r * c <= b3);
                    if d.max(r).max(c) <= 4 {
                        shape::<W>(cx, [d, r, c], true);
                    }
                }
            }));
        }
    }
    let (c2, c3) = eng.pick3((4, 2), (14, 5), (24, 7));
    eng.note("contents", format!("special contents and silent lines, planes and tubes for every shape to {c2}x{c2} and {c3}x{c3}x{c3}"));
    for r in 1..=c2 {
        units.push(Box::new(move |cx| {
            for c in 1..=c2 {
                contents::<f32>(cx, [1, r, c]);
                contents::<f64>(cx, [1, r, c]);
            }
            for d in (1..=c3).filter(|_| r <= c3) {
                for c in 1..=c3 {
                    contents::<f32>(cx, [d, r, c]);
                    contents::<f64>(cx, [d, r, c]);
                }
            }
        }));
    }
    let large: &[[usize; 3]] = &[
        [1, 64, 64],
        [1, 3, 200],
        [1, 200, 3],
        [1, 1, 1024],
        [1, 1024, 1],
        [1, 31, 37],
        [1, 128, 96],
        [16, 8, 32],
        [7, 11, 13],
        [64, 1, 5],
        [1, 256, 256],
        [32, 32, 32],
        [1, 17, 1021],
        [1, 2, 4096],
        [1, 4096, 2],
        [1, 1, 65_536],
        [1, 65_536, 1],
        [65_536, 1, 1],
        [2, 1, 65_535],
        [1, 65_535, 2],
        [3, 65_536, 1],
        [1, 1, 70_000],
        [70_000, 1, 2],
        [1, 300, 300],
        [1, 257, 512],
        [40, 41, 42],
        [256, 3, 100],
        [5, 256, 60],
        [1, 512, 512],
        [64, 64, 64],
    ];
    for s in &large[..eng.pick3(2, 30, 30)] {
        units.push(Box::new(move |cx| {
            shape::<f32>(cx, *s, false);
            shape::<f64>(cx, *s, false);
        }));
    }
    for (name, shapes) in walks(eng) {
        if shapes.iter().all(|s| s.iter().all(|n| *n < 65_536)) {
            let shapes = shapes.clone();
            units.push(Box::new(move |cx| walk::<f32>(cx, name, &shapes)));
        }
        units.push(Box::new(move |cx| walk::<f64>(cx, name, &shapes)));
    }
    let rmax = eng.pick3(2, 4, 6);
    units.push(Box::new(move |cx| refuse::<f32>(cx, rmax)));
    units.push(Box::new(move |cx| refuse::<f64>(cx, rmax.min(3))));
    let (rows, planes) = (eng.pick3(3, 4, 6), eng.pick3(2, 3, 4));
    units.push(Box::new(move |cx| flatten(cx, rows, 3, planes)));
    units.push(Box::new(move |cx| histories::<f32>(cx, depth)));
    units.push(Box::new(move |cx| histories::<f64>(cx, depth.min(3))));
    eng.run_units(units);
    if std::env::var("KMC_STAT").is_ok() {
        eprintln!("max deviation/tolerance = {}", stat_max());
    }
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}

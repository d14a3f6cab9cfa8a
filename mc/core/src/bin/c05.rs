//! C05: calls with arguments that do not fit together report an error, touch nothing and never
//! panic; calls whose arguments fit succeed.
use kmc_core::common::*;
use kmc_core::entries::Minimal;
use kofft::ndfft::*;
use kofft::rfft::*;
use kofft::stft;
use FftError::*;

#[cfg(all(feature = "parallel", feature = "std"))]
use kofft::stft::parallel as par_stft;
#[cfg(not(all(feature = "parallel", feature = "std")))]
use kofft::stft::stft as par_stft;

pub const DEF: CheckDef = CheckDef {
    id: "C05",
    level: Level::Exploration,
    rule: "one case = (operation, every length/stride/hop argument); the specification gives the set of faults present in the arguments; the call must return one of them (or Ok when there is none) and leave the caller's data as it was when it fails; non-trivial = the arguments contained a fault",
    assumptions: &["where several arguments are wrong at once any of the applicable errors is accepted", "caller-provided scratch buffers may be overwritten on failure"],
    hang_s: 60,
    run,
};

type R = Result<(), FftError>;

/// `faults`: the errors the arguments deserve (empty = the call must succeed).
fn judge(got: R, faults: &[FftError], untouched: bool) -> Result<bool, String> {
    match got {
        Ok(()) if faults.is_empty() => Ok(false),
        Ok(()) => Err(format!("accepted arguments that deserve {faults:?}")),
        Err(e) if faults.contains(&e) => {
            if untouched {
                Ok(true)
            } else {
                Err(format!("reported {e:?} but changed the caller's data"))
            }
        }
        Err(e) => Err(format!("reported {e:?}, expected {}", if faults.is_empty() { "success".into() } else { format!("{faults:?}") })),
    }
}

/// For transforms in place: also where a build without std refuses a length (documented), the data
/// must come back as it was.  (Buffers that only receive results may be part-written there.)
fn judge_in(got: R, faults: &[FftError], untouched: bool) -> Result<bool, String> {
    if cfg!(not(feature = "std")) && matches!(got, Err(NonPowerOfTwoNoStd)) && !untouched {
        return Err("refused but changed the caller's data".into());
    }
    judge(got, faults, untouched)
}

fn data<T: Num>(n: usize, k: u64) -> Vec<Complex<T>> {
    cv::<T>(&refs::cprobe(n, k))
}
fn reals<T: Num>(n: usize, k: u64) -> Vec<T> {
    rv::<T>(&refs::probe(n, k))
}
fn same<T: Num>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to().to_bits() == y.to().to_bits())
}

fn strides() -> Vec<usize> {
    vec![0, 1, 2, 3, 5, 8, 1 << 31, 1 << 32, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX]
}

fn engine<T: Num>(cx: &Cx, name: &str, e: &dyn FftImpl<T>, lmax: usize) {
    let t = T::NAME;
    for n in 0..=lmax {
        let x = data::<T>(n, 3);
        let faults: &[FftError] = if n == 0 { &[EmptyInput] } else { &[] };
        for (what, f) in [
            ("fft", (&|v: &mut Vec<Complex<T>>| e.fft(v)) as &dyn Fn(&mut Vec<Complex<T>>) -> R),
            ("ifft", &|v| e.ifft(v)),
            ("radix2", &|v| e.fft_with_strategy(v, FftStrategy::Radix2)),
            ("radix4", &|v| e.fft_with_strategy(v, FftStrategy::Radix4)),
            ("splitradix", &|v| e.fft_with_strategy(v, FftStrategy::SplitRadix)),
            ("auto", &|v| e.fft_with_strategy(v, FftStrategy::Auto)),
        ] {
            cx.case(|| format!("{t}/{name}/{what}/n={n}"), || {
                let mut v = x.clone();
                let r = f(&mut v);
                judge_in(r, faults, bits_eq(&v, &x))
            });
        }
        for m in 0..=lmax {
            let mut faults = vec![];
            if n != m {
                faults.push(MismatchedLengths);
            }
            if n == 0 || m == 0 {
                faults.push(EmptyInput);
            }
            for inv in [false, true] {
                cx.case(|| format!("{t}/{name}/out_of_place/inv={inv}/{n},{m}"), || {
                    let mut o = data::<T>(m, 9);
                    let o0 = o.clone();
                    let r = if inv { e.ifft_out_of_place(&x, &mut o) } else { e.fft_out_of_place(&x, &mut o) };
                    judge(r, &faults, bits_eq(&o, &o0))
                });
                cx.case(|| format!("{t}/{name}/split/inv={inv}/{n},{m}"), || {
                    let (mut re, mut im) = (reals::<T>(n, 1), reals::<T>(m, 2));
                    let (r0, i0) = (re.clone(), im.clone());
                    let r = if inv { e.ifft_split(&mut re, &mut im) } else { e.fft_split(&mut re, &mut im) };
                    judge_in(r, &faults, same(&re, &r0) && same(&im, &i0))
                });
            }
        }
    }
    for len in 0..=lmax {
        let x = data::<T>(len, 3);
        for stride in strides() {
            for s in 0..=lmax.min(9) {
                let mut faults = vec![];
                if stride == 0 {
                    faults.push(InvalidStride);
                }
                if s > 0 && (s - 1).checked_mul(stride).is_none_or(|l| l >= len) {
                    faults.push(MismatchedLengths);
                }
                for inv in [false, true] {
                    cx.case(|| format!("{t}/{name}/strided/inv={inv}/len={len}/stride={stride}/scratch={s}"), || {
                        let mut v = x.clone();
                        let mut sc = data::<T>(s, 4);
                        let r = if inv { e.ifft_strided(&mut v, stride, &mut sc) } else { e.fft_strided(&mut v, stride, &mut sc) };
                        judge_in(r, &faults, bits_eq(&v, &x))
                    });
                }
            }
            let faults: &[FftError] = if stride == 0 { &[InvalidStride] } else { &[] };
            for inv in [false, true] {
                cx.case(|| format!("{t}/{name}/strided_alloc/inv={inv}/len={len}/stride={stride}"), || {
                    let mut v = x.clone();
                    let r = if inv { e.ifft_strided_alloc(&mut v, stride) } else { e.fft_strided_alloc(&mut v, stride) };
                    judge_in(r, faults, bits_eq(&v, &x))
                });
            }
        }
    }
    let sh = [0usize, 1, 2, 3, 4, usize::MAX];
    for a in 0..=lmax.min(9) {
        for b in 0..=lmax.min(9) {
            for sa in sh {
                for sb in sh {
                    let mut faults = vec![];
                    if sa == 0 || sb == 0 {
                        faults.push(InvalidStride);
                    } else {
                        if a % sa != 0 || b % sb != 0 {
                            faults.push(InvalidStride);
                        }
                        if a / sa != b / sb {
                            faults.push(MismatchedLengths);
                        }
                        if a / sa == 0 || b / sb == 0 {
                            faults.push(EmptyInput);
                        }
                    }
                    for inv in [false, true] {
                        cx.case(|| format!("{t}/{name}/oop_strided/inv={inv}/{a}:{sa}->{b}:{sb}"), || {
                            let x = data::<T>(a, 3);
                            let mut o = data::<T>(b, 5);
                            let o0 = o.clone();
                            let r = if inv { e.ifft_out_of_place_strided(&x, sa, &mut o, sb) } else { e.fft_out_of_place_strided(&x, sa, &mut o, sb) };
                            judge(r, &faults, bits_eq(&o, &o0))
                        });
                    }
                }
            }
        }
    }
}

#[cfg(feature = "std")]
fn plans<T: Num>(cx: &Cx, lmax: usize) {
    let t = T::NAME;
    for s in [FftStrategy::Radix2, FftStrategy::Radix4, FftStrategy::SplitRadix, FftStrategy::Auto] {
        for n in 0..=lmax {
            cx.case(|| format!("{t}/plan/{s:?}/n={n}/new"), || {
                let p = FftPlan::<T>::new(n, s);
                if p.n == n && p.strategy == s { Ok(true) } else { Err("wrong plan parameters".into()) }
            });
            for a in 0..=lmax {
                let mut f1 = vec![];
                if a != n {
                    f1.push(MismatchedLengths);
                } else if n == 0 {
                    f1.push(EmptyInput);
                }
                for inv in [false, true] {
                    cx.case(|| format!("{t}/plan/{s:?}/n={n}/inv={inv}/len={a}"), || {
                        let p = FftPlan::<T>::new(n, s);
                        let x = data::<T>(a, 1);
                        let mut v = x.clone();
                        let r = if inv { p.ifft(&mut v) } else { p.fft(&mut v) };
                        judge(r, &f1, bits_eq(&v, &x))
                    });
                }
                for b in 0..=lmax {
                    if a > n + 2 && b > n + 2 {
                        continue;
                    }
                    let mut f2 = vec![];
                    if a != n || b != n {
                        f2.push(MismatchedLengths);
                    }
                    if n == 0 {
                        f2.push(EmptyInput);
                    }
                    for inv in [false, true] {
                        cx.case(|| format!("{t}/plan/{s:?}/n={n}/oop/inv={inv}/{a},{b}"), || {
                            let p = FftPlan::<T>::new(n, s);
                            let x = data::<T>(a, 1);
                            let mut o = data::<T>(b, 2);
                            let o0 = o.clone();
                            let r = if inv { p.ifft_out_of_place(&x, &mut o) } else { p.fft_out_of_place(&x, &mut o) };
                            judge(r, &f2, bits_eq(&o, &o0))
                        });
                        cx.case(|| format!("{t}/plan/{s:?}/n={n}/split/inv={inv}/{a},{b}"), || {
                            let p = FftPlan::<T>::new(n, s);
                            let (mut re, mut im) = (reals::<T>(a, 1), reals::<T>(b, 2));
                            let (r0, i0) = (re.clone(), im.clone());
                            let r = if inv { p.ifft_split(&mut re, &mut im) } else { p.fft_split(&mut re, &mut im) };
                            judge(r, &f2, same(&re, &r0) && same(&im, &i0))
                        });
                    }
                }
            }
        }
    }
}

fn real<T: Num + RealFftNum>(cx: &Cx, lmax: usize) {
    let t = T::NAME;
    let e = ScalarFftImpl::<T>::default();
    for n in 0..=lmax {
        for m in 0..=lmax / 2 + 2 {
            for s in 0..=lmax / 2 + 2 {
                let mut base = vec![];
                if n == 0 {
                    base.push(EmptyInput);
                }
                if n % 2 == 1 {
                    base.push(InvalidValue);
                }
                let mut with = base.clone();
                if m != n / 2 + 1 || s < n / 2 {
                    with.push(MismatchedLengths);
                }
                let mut own = base.clone();
                if m != n / 2 + 1 {
                    own.push(MismatchedLengths);
                }
                for form in 0..5 {
                    if form >= 3 && s != 0 {
                        continue; // these allocate their own scratch
                    }
                    let faults = if form >= 3 { &own } else { &with };
                    let fname = ["planner_scratch", "trait_scratch", "packed", "planner", "trait"][form];
                    cx.case(|| format!("{t}/rfft/{fname}/n={n}/out={m}/scratch={s}"), || {
                        let mut p = RfftPlanner::<T>::new();
                        let mut x = reals::<T>(n, 7);
                        let x0 = x.clone();
                        let mut o = data::<T>(m, 8);
                        let o0 = o.clone();
                        let mut sc = data::<T>(s, 9);
                        let r = match form {
                            0 => p.rfft_with_scratch(&e, &mut x, &mut o, &mut sc),
                            1 => e.rfft_with_scratch(&mut x, &mut o, &mut sc),
                            2 => rfft_packed(&mut p, &e, &mut x, &mut o, &mut sc),
                            3 => p.rfft(&e, &mut x, &mut o),
                            _ => e.rfft(&mut x, &mut o),
                        };
                        judge(r, faults, same(&x, &x0) && bits_eq(&o, &o0))
                    });
                    cx.case(|| format!("{t}/irfft/{fname}/n={n}/in={m}/scratch={s}"), || {
                        let mut p = RfftPlanner::<T>::new();
                        let mut o = reals::<T>(n, 7);
                        let o0 = o.clone();
                        let mut x = data::<T>(m, 8);
                        let x0 = x.clone();
                        let mut sc = data::<T>(s, 9);
                        let r = match form {
                            0 => p.irfft_with_scratch(&e, &mut x, &mut o, &mut sc),
                            1 => e.irfft_with_scratch(&mut x, &mut o, &mut sc),
                            2 => irfft_packed(&mut p, &e, &mut x, &mut o, &mut sc),
                            3 => p.irfft(&e, &mut x, &mut o),
                            _ => e.irfft(&mut x, &mut o),
                        };
                        judge(r, faults, bits_eq(&x, &x0) && same(&o, &o0))
                    });
                }
            }
        }
    }
}

fn multi<T: Num>(cx: &Cx, k: usize) {
    let t = T::NAME;
    let e = ScalarFftImpl::<T>::default();
    let mut dims: Vec<usize> = (0..=k).collect();
    dims.extend([1 << 32, usize::MAX / 2 + 1, usize::MAX]);
    let vol = |d: &[usize]| d.iter().try_fold(1usize, |a, b| a.checked_mul(*b));
    for &r in &dims {
        for &c in &dims {
            let exact = vol(&[r, c]).filter(|v| *v < 200);
            let mut lens = vec![0, 1, 5];
            if let Some(v) = exact {
                lens.extend([v, v + 1, v.saturating_sub(1)]);
            }
            lens.sort();
            lens.dedup();
            for len in lens {
                for s in 0..=k + 1 {
                    let mut f = vec![];
                    // A grid with a zero side is empty: nothing to transform.
                    if vol(&[r, c]) != Some(len) || (r != 0 && c != 0 && s != r) {
                        f.push(MismatchedLengths);
                    }
                    cx.case(|| format!("{t}/fft2d/{r}x{c}/len={len}/scratch={s}"), || {
                        let x = data::<T>(len, 2);
                        let mut v = x.clone();
                        let mut sc = data::<T>(s, 3);
                        let got = fft2d_inplace(&mut v, r, c, &e, &mut sc);
                        judge(got, &f, bits_eq(&v, &x))
                    });
                }
            }
        }
    }
    let small: Vec<usize> = (0..=k.min(3)).chain([usize::MAX / 2 + 1]).collect();
    for &d in &small {
        for &r in &small {
            for &c in &small {
                let v = vol(&[d, r, c]);
                let mut lens = vec![0, 1];
                if let Some(v) = v.filter(|v| *v < 200) {
                    lens.extend([v, v + 1, v.saturating_sub(1)]);
                }
                lens.sort();
                lens.dedup();
                for len in lens {
                    for st in 0..=4 {
                        for sr in 0..=4 {
                            for sc in 0..=4 {
                                let mut f = vec![];
                                if v != Some(len) || (d != 0 && r != 0 && c != 0 && (st != d || sr != r || sc != c)) {
                                    f.push(MismatchedLengths);
                                }
                                cx.case(|| format!("{t}/fft3d/{d}x{r}x{c}/len={len}/scratch={st},{sr},{sc}"), || {
                                    let x = data::<T>(len, 2);
                                    let mut y = x.clone();
                                    let (mut a, mut b, mut q) = (data::<T>(st, 1), data::<T>(sr, 1), data::<T>(sc, 1));
                                    let got = fft3d_inplace(&mut y, d, r, c, &e, &mut Fft3dScratch { tube: &mut a, row: &mut b, col: &mut q });
                                    judge(got, &f, bits_eq(&y, &x))
                                });
                            }
                        }
                    }
                }
            }
        }
    }
    // Ragged nested vectors: every shape up to 3 rows of 0..=3 elements.
    for code in 0..4usize.pow(4) {
        let shape: Vec<usize> = (0..(code % 4)).map(|i| code / 4usize.pow(i as u32 + 1) % 4).collect();
        cx.case(|| format!("{t}/flatten_2d/{code}:{shape:?}"), || {
            let v: Vec<Vec<Complex<T>>> = shape.iter().map(|n| data::<T>(*n, 4)).collect();
            let all: Vec<Complex<T>> = v.concat();
            let ragged = shape.iter().any(|n| *n != shape[0]);
            match flatten_2d(v) {
                Err(MismatchedLengths) if ragged => Ok(true),
                Ok((f, r, c)) if !ragged => {
                    if !bits_eq(&f, &all) || r != shape.len() || c != shape.first().copied().unwrap_or(0) {
                        return Err("wrong flattening".into());
                    }
                    Ok(r > 0)
                }
                other => Err(format!("unexpected {:?}", other.map(|x| (x.1, x.2)))),
            }
        });
    }
    // 3-D: two planes of up to two rows of up to two elements, every shape.
    let plane: Vec<Vec<usize>> = (0..=2usize).flat_map(|r| (0..3usize.pow(r as u32)).map(move |c| (0..r).map(|i| c / 3usize.pow(i as u32) % 3).collect())).collect();
    for (i, a) in plane.iter().enumerate() {
        for (j, b) in plane.iter().enumerate() {
            for planes in 0..=2usize {
                if planes < 2 && j > 0 || planes < 1 && i > 0 {
                    continue;
                }
                let shape: Vec<&Vec<usize>> = [a, b][..planes].to_vec();
                cx.case(|| format!("{t}/flatten_3d/{shape:?}"), || {
                    let v: Vec<Vec<Vec<Complex<T>>>> = shape.iter().map(|p| p.iter().map(|n| data::<T>(*n, 4)).collect()).collect();
                    let all: Vec<Complex<T>> = v.concat().concat();
                    let rows = shape.first().map_or(0, |p| p.len());
                    let cols = shape.first().and_then(|p| p.first()).copied().unwrap_or(0);
                    let ragged = shape.iter().any(|p| p.len() != rows || p.iter().any(|n| *n != cols));
                    match flatten_3d(v) {
                        Err(MismatchedLengths) if ragged => Ok(true),
                        Ok((f, d, r, c)) if !ragged => {
                            if !bits_eq(&f, &all) || (d, r, c) != (planes, rows, cols) {
                                return Err("wrong flattening".into());
                            }
                            Ok(planes > 0)
                        }
                        other => Err(format!("unexpected {:?}", other.map(|x| (x.1, x.2, x.3)))),
                    }
                });
            }
        }
    }
}

fn short_time(cx: &Cx, k: usize) {
    let e = ScalarFftImpl::<f32>::default();
    let hops = [0usize, 1, 2, 3, 5, 9];
    for len in 0..=k {
        let sig = reals::<f32>(len, 5);
        for w in 0..=k {
            let win = reals::<f32>(w, 6);
            for hop in hops {
                let need = if hop == 0 { 0 } else { len.div_ceil(hop) };
                for frames in [0, need.saturating_sub(1), need, need + 2] {
                    let mut f = vec![];
                    if hop == 0 {
                        f.push(InvalidHopSize);
                    }
                    if frames < need {
                        f.push(MismatchedLengths);
                    }
                    if w == 0 && frames > 0 {
                        f.push(EmptyInput);
                    }
                    for par in [false, true] {
                        cx.case(|| format!("stft/par={par}/len={len}/win={w}/hop={hop}/frames={frames}"), || {
                            // Frames still holding what an earlier call left there.
                            let mut out: Vec<Vec<Complex32>> = (0..frames).map(|i| data::<f32>(i % 4, 5)).collect();
                            let o0 = out.clone();
                            let r = if par { par_stft(&sig, &win, hop, &mut out, &e) } else { stft::stft(&sig, &win, hop, &mut out, &e) };
                            judge(r, &f, out.iter().zip(&o0).all(|(a, b)| bits_eq(a, b)))
                        });
                    }
                }
                cx.case(|| format!("StftStream/len={len}/win={w}/hop={hop}"), || {
                    match stft::StftStream::new(&sig, &win, hop, &e) {
                        Err(InvalidHopSize) if hop == 0 => Ok(true),
                        Ok(mut s) if hop != 0 => {
                            for bad in 0..=k + 2 {
                                if bad == w {
                                    continue;
                                }
                                let mut o = data::<f32>(bad, 2);
                                let o0 = o.clone();
                                match s.next_frame(&mut o) {
                                    Err(MismatchedLengths) if bits_eq(&o, &o0) => {}
                                    r => return Err(format!("frame buffer of length {bad}: {r:?}")),
                                }
                            }
                            // At every point of its life, and without an effect on what follows.
                            let mut twin = stft::StftStream::new(&sig, &win, hop, &e).map_err(|x| format!("{x:?}"))?;
                            for at in 0..len.div_ceil(hop) + 2 {
                                let mut a = data::<f32>(w, 2);
                                let mut b = a.clone();
                                let ra = s.next_frame(&mut a);
                                let rb = twin.next_frame(&mut b);
                                if ra != rb || !bits_eq(&a, &b) {
                                    return Err(format!("frame {at} after rejected calls: {ra:?} {a:?}, without: {rb:?} {b:?}"));
                                }
                                for bad in (0..=k + 2).filter(|&bad| bad != w) {
                                    let mut o = data::<f32>(bad, 2);
                                    let o0 = o.clone();
                                    match s.next_frame(&mut o) {
                                        Err(MismatchedLengths) if bits_eq(&o, &o0) => {}
                                        // Nothing is left to write.
                                        Ok(false) if ra == Ok(false) && bits_eq(&o, &o0) => {}
                                        r => return Err(format!("frame buffer of length {bad} after {} frames: {r:?}", at + 1)),
                                    }
                                }
                            }
                            Ok(true)
                        }
                        Ok(_) => Err("accepted a zero hop".into()),
                        Err(x) => Err(format!("unexpected {x:?}")),
                    }
                });
                for wl in 0..=k {
                    cx.case(|| format!("IstftStream/len={len}/win_len={wl}/window={w}/hop={hop}"), || {
                        let mut f = vec![];
                        if hop == 0 {
                            f.push(InvalidHopSize);
                        }
                        if wl != w {
                            f.push(MismatchedLengths);
                        }
                        match stft::IstftStream::new(wl, hop, win.clone(), &e) {
                            Err(x) => judge(Err(x), &f, true),
                            Ok(mut s) => {
                                judge(Ok(()), &f, true)?;
                                for bad in 0..=k + 2 {
                                    if bad != wl {
                                        match s.push_frame(&data::<f32>(bad, 2)) {
                                            Err(MismatchedLengths) => {}
                                            r => return Err(format!("frame of length {bad}: {r:?}")),
                                        }
                                    }
                                }
                                // At every point of its life, and without an effect on what follows.
                                let mut twin = stft::IstftStream::new(wl, hop, win.clone(), &e).map_err(|x| format!("{x:?}"))?;
                                for at in 0..4u64 {
                                    let f = data::<f32>(wl, 3 + at);
                                    let a = s.push_frame(&f).map(|x| x.to_vec());
                                    let b = twin.push_frame(&f).map(|x| x.to_vec());
                                    if a.is_err() != b.is_err() || a.as_ref().ok().zip(b.as_ref().ok()).is_some_and(|(a, b)| !same(a, b)) {
                                        return Err(format!("frame {at} after rejected calls: {a:?}, without: {b:?}"));
                                    }
                                    if at == 2 && !same(s.flush(), twin.flush()) {
                                        return Err("flush after rejected calls differs".into());
                                    }
                                    for bad in (0..=k + 2).filter(|&bad| bad != wl) {
                                        match s.push_frame(&data::<f32>(bad, 2)) {
                                            Err(MismatchedLengths) => {}
                                            r => return Err(format!("frame of length {bad} after {} frames: {r:?}", at + 1)),
                                        }
                                    }
                                }
                                if !same(s.flush(), twin.flush()) {
                                    return Err("flush after rejected calls differs".into());
                                }
                                Ok(true)
                            }
                        }
                    });
                }
            }
            // Single frames and whole-signal inverses with frames of the wrong length.
            for fl in 0..=k {
                for start in [0usize, 1, k] {
                    let mut f = vec![];
                    if fl != w {
                        f.push(MismatchedLengths);
                    }
                    if fl == 0 || w == 0 {
                        f.push(EmptyInput);
                    }
                    cx.case(|| format!("frame/len={len}/win={w}/frame={fl}/start={start}"), || {
                        let mut o = data::<f32>(fl, 3);
                        let o0 = o.clone();
                        let r = stft::frame(&sig, &win, start, &mut o, &e);
                        judge(r, &f, bits_eq(&o, &o0))
                    });
                    cx.case(|| format!("inverse_frame/len={len}/win={w}/frame={fl}/start={start}"), || {
                        let mut fr = data::<f32>(fl, 3);
                        let mut o = reals::<f32>(len, 4);
                        let o0 = o.clone();
                        let r = stft::inverse_frame(&mut fr, &win, start, &mut o, &e);
                        judge(r, &f, same(&o, &o0))
                    });
                }
                for hop in hops {
                    for scratch in [0, len, len + 1] {
                        for bad in 0..3usize {
                            let mut f = vec![];
                            if hop == 0 {
                                f.push(InvalidHopSize);
                            }
                            if fl != w {
                                f.push(MismatchedLengths);
                            }
                            if w == 0 {
                                f.push(EmptyInput);
                            }
                            let mk = || -> Vec<Vec<Complex32>> { (0..3).map(|i| data::<f32>(if i == bad { fl } else { w }, 7)).collect() };
                            if scratch == len {
                                #[cfg(all(feature = "parallel", feature = "std"))]
                                cx.case(|| format!("inverse_parallel/out={len}/win={w}/hop={hop}/frame {bad} of length {fl}"), || {
                                    let mut o = reals::<f32>(len, 1);
                                    let o0 = o.clone();
                                    let r = stft::inverse_parallel(&mk(), &win, hop, &mut o, &e);
                                    judge(r, &f, same(&o, &o0))
                                });
                            } else {
                                f.push(MismatchedLengths);
                            }
                            cx.case(|| format!("istft/out={len}/scratch={scratch}/win={w}/hop={hop}/frame {bad} of length {fl}"), || {
                                let mut o = reals::<f32>(len, 1);
                                let o0 = o.clone();
                                let mut s = reals::<f32>(scratch, 1);
                                let mut frames = mk();
                                let f0 = frames.clone();
                                let r = stft::istft(&mut frames, &win, hop, &mut o, &mut s, &e);
                                judge(r, &f, same(&o, &o0) && frames.iter().zip(&f0).all(|(a, b)| bits_eq(a, b)))
                            });
                        }
                    }
                }
            }
        }
    }
}

macro_rules! stack_sizes {
    ($cx:expr, $($n:literal)*) => {$(stack::<$n>($cx);)*};
}
fn stack<const N: usize>(cx: &Cx) {
    let f: &[FftError] = if N == 0 { &[EmptyInput] } else if !N.is_power_of_two() { &[NonPowerOfTwoNoStd] } else { &[] };
    for inv in [false, true] {
        cx.case(|| format!("stack/inv={inv}/n={N}"), || {
            let mut b = [Complex32::zero(); N];
            b.copy_from_slice(&data::<f32>(N, 2));
            let b0 = b;
            let r = if inv { ifft_inplace_stack(&mut b) } else { fft_inplace_stack(&mut b) };
            judge_in(r, f, bits_eq(&b, &b0))
        });
    }
    real_stack::<N, 0>(cx);
    real_stack::<N, 1>(cx);
    real_stack::<N, 2>(cx);
    real_stack::<N, 3>(cx);
    real_stack::<N, 4>(cx);
    real_stack::<N, 5>(cx);
    real_stack::<N, 6>(cx);
    real_stack::<N, 9>(cx);
    real_stack::<N, 17>(cx);
    // Cosine and sine transforms on the stack exist for even powers of two.
    let sf: &[FftError] = if N < 2 || !N.is_power_of_two() { &[NonPowerOfTwoNoStd] } else { &[] };
    let ops: [(&str, fn(&[f32; N], &mut [f32; N]) -> R); 6] = [
        ("dct1", kofft::dct::dct1_inplace_stack::<N>),
        ("dct2", kofft::dct::dct2_inplace_stack::<N>),
        ("dst2", kofft::dst::dst2_inplace_stack::<N>),
        ("dst2_fft", kofft::dst::dst2_inplace_stack_fft::<N>),
        ("dst3_fft", kofft::dst::dst3_inplace_stack_fft::<N>),
        ("dst4", kofft::dst::dst4_inplace_stack::<N>),
    ];
    for (name, op) in ops {
        cx.case(|| format!("stack/{name}/n={N}"), || {
            let mut x = [0f32; N];
            x.copy_from_slice(&reals::<f32>(N, 2));
            let mut o = [0f32; N];
            o.copy_from_slice(&reals::<f32>(N, 3));
            let o0 = o;
            let r = op(&x, &mut o);
            judge(r, sf, same(&o, &o0))
        });
    }
}
fn real_stack<const N: usize, const M: usize>(cx: &Cx) {
    let mut f = vec![];
    if N == 0 {
        f.push(EmptyInput);
    } else if !N.is_power_of_two() {
        f.push(NonPowerOfTwoNoStd);
    }
    if M != N / 2 + 1 {
        f.push(MismatchedLengths);
    }
    cx.case(|| format!("rfft_stack/n={N}/m={M}"), || {
        let mut x = [0f32; N];
        x.copy_from_slice(&reals::<f32>(N, 2));
        let mut o = [Complex32::zero(); M];
        o.copy_from_slice(&data::<f32>(M, 3));
        let o0 = o;
        let r = kofft::rfft::rfft_stack(&x, &mut o);
        judge(r, &f, bits_eq(&o, &o0))
    });
    cx.case(|| format!("irfft_stack/n={N}/m={M}"), || {
        let mut o = [0f32; N];
        o.copy_from_slice(&reals::<f32>(N, 2));
        let o0 = o;
        let mut x = [Complex32::zero(); M];
        x.copy_from_slice(&data::<f32>(M, 3));
        let r = kofft::rfft::irfft_stack(&x, &mut o);
        judge(r, &f, same(&o, &o0))
    });
}

fn others(cx: &Cx, k: usize) {
    // Signal utilities with documented errors.
    for n in 0..=4 * k {
        let x = reals::<f32>(n, 1);
        let f: &[FftError] = if n == 0 { &[EmptyInput] } else if !n.is_power_of_two() { &[NonPowerOfTwoNoStd] } else { &[] };
        cx.case(|| format!("hilbert/n={n}"), || {
            let r = kofft::hilbert::hilbert_analytic(&x);
            if let Ok(v) = &r {
                if v.len() != n {
                    return Err("wrong length".into());
                }
            }
            judge(r.map(|_| ()), f, true)
        });
        cx.case(|| format!("cepstrum/n={n}"), || {
            let r = kofft::cepstrum::real_cepstrum(&x);
            if let Ok(v) = &r {
                if v.len() != n {
                    return Err("wrong length".into());
                }
            }
            judge(r.map(|_| ()), f, true)
        });
        for sr in [-8000.0f32, -0.0, 0.0, 1e-3, 8000.0] {
            for freq in [-1e9f32, -1.0, 0.0, 1.0, 4000.0, 1e9] {
                cx.case(|| format!("goertzel/n={n}/rate={sr}/freq={freq}"), || {
                    let mut f = vec![];
                    if n == 0 {
                        f.push(EmptyInput);
                    }
                    if sr <= 0.0 {
                        f.push(InvalidValue);
                    }
                    judge(kofft::goertzel::goertzel_f32(&x, sr, freq).map(|_| ()), &f, true)
                });
            }
        }
    }
    for mel in 0..=k {
        for coeffs in 0..=k + 2 {
            for n in [0usize, 1, 2, 16, 65] {
                cx.case(|| format!("mfcc/n={n}/mel={mel}/coeffs={coeffs}"), || {
                    let x: Vec<f32> = reals::<f32>(n, 1).iter().map(|v| v.abs()).collect();
                    let f: &[FftError] = if coeffs > mel { &[InvalidValue] } else { &[] };
                    let r = kofft::cepstrum::mfcc(&x, 8000.0, mel, coeffs);
                    if let Ok(v) = &r {
                        if v.len() != coeffs {
                            return Err("wrong length".into());
                        }
                    }
                    let b = kofft::cepstrum::mfcc_batch(&[x.clone(), x.clone()], 8000.0, mel, coeffs);
                    if b.is_ok() != r.is_ok() {
                        return Err("the batch form disagrees".into());
                    }
                    judge(r.map(|_| ()), f, true)
                });
            }
        }
    }
    // Planned DCT-II: buffers must have the planned length.
    for plan in 0..=k {
        for a in 0..=k {
            for b in 0..=k {
                cx.case(|| format!("plan_dct2/{plan}/in={a}/out={b}"), || {
                    let mut p = kofft::dct::DctPlanner::new();
                    let mut x = reals::<f32>(a, 1);
                    let mut o = reals::<f32>(b, 2);
                    let o0 = o.clone();
                    let mut f = vec![];
                    if a != plan || b != plan {
                        f.push(MismatchedLengths);
                    }
                    if plan == 0 || a == 0 {
                        f.push(EmptyInput);
                    }
                    let r = p.plan_dct2(plan)(&mut x, &mut o);
                    judge(r, &f, same(&o, &o0))
                });
            }
        }
    }
    // Spectrogram magnitudes.
    for n in 0..=k {
        for w in 0..=k {
            for hop in [0usize, 1, 2, 7, usize::MAX] {
                #[cfg(feature = "std")]
                cx.case(|| format!("stft_magnitudes/n={n}/win={w}/hop={hop}"), || {
                    let x = reals::<f32>(n, 1);
                    let mut f = vec![];
                    if hop == 0 {
                        f.push(InvalidHopSize);
                    }
                    if w == 0 && (n > 0 || hop == 0) {
                        f.push(EmptyInput);
                    }
                    judge(kofft::visual::spectrogram::stft_magnitudes(&x, w, hop).map(|_| ()), &f, true)
                });
            }
        }
    }
    // Special lengths of the 32-bit helpers.
    let e = ScalarFftImpl::<f32>::default();
    for n in 0..=4 * k {
        let f: &[FftError] = if n == 0 { &[EmptyInput] } else { &[] };
        let x = data::<f32>(n, 2);
        for (name, op) in [
            ("stockham", (&|v: &mut Vec<Complex32>| e.stockham_fft(v)) as &dyn Fn(&mut Vec<Complex32>) -> R),
            #[cfg(feature = "std")]
            ("radix4", &|v| e.fft_radix4(v)),
            ("mixed", &|v| e.fft_mixed_radix(v)),
            ("fft_parallel", &|v| fft_parallel(v)),
            ("ifft_parallel", &|v| ifft_parallel(v)),
            #[cfg(feature = "std")]
            ("vec", &|v| e.fft_vec(v).map(|_| ())),
            #[cfg(feature = "std")]
            ("ivec", &|v| e.ifft_vec(v).map(|_| ())),
        ] {
            cx.case(|| format!("f32/{name}/n={n}"), || {
                let mut v = x.clone();
                let r = op(&mut v);
                judge_in(r, f, bits_eq(&v, &x))
            });
        }
        // The table a caller passes along is only an aid: any length of table is fine.
        #[cfg(feature = "std")]
        for tw in [1usize, 2, 3, 4, 8, n.max(1)] {
            for which in 0..3 {
                cx.case(|| format!("f32/twiddles{which}/n={n}/table={tw}"), || {
                    let t = TwiddleFactorBuffer::new(tw);
                    let mut v = x.clone();
                    let r = match which {
                        0 => e.fft_radix2_with_twiddles(&mut v, &t),
                        1 => e.fft_radix4_with_twiddles(&mut v, &t),
                        _ => e.fft_mixed_radix_with_twiddles(&mut v, &t),
                    };
                    judge(r, f, bits_eq(&v, &x))
                });
            }
        }
        for which in 0..4 {
            cx.case(|| format!("batch{which}/empty member at {n}"), || {
                // The batch stops with the error of its first bad member; later ones are untouched.
                let mut v: Vec<Vec<Complex32>> = (0..3).map(|i| data::<f32>(if i == n % 3 { 0 } else { 4 + n }, i as u64)).collect();
                let v0 = v.clone();
                let r = match which {
                    0 => batch(&e, &mut v),
                    1 => batch_inverse(&e, &mut v),
                    2 => multi_channel(&e, &mut v),
                    _ => multi_channel_inverse(&e, &mut v),
                };
                let quiet = (n % 3..3).all(|i| bits_eq(&v[i], &v0[i]));
                judge(r, &[EmptyInput], quiet)
            });
        }
    }
}

fn run(eng: &Eng) {
    let rl = eng.pick3(20, 80, 200);
    let (l, k) = eng.pick3((12, 4), (64, 12), (130, 20));
    eng.note("bounds", format!("every length 0..={l} (complex), 0..={rl} (real), 0..={k} (grids, short-time); strides and sizes up to usize::MAX"));
    let units: Vec<Unit> = vec![
        Box::new(move |cx| engine::<f32>(cx, "scalar", &ScalarFftImpl::<f32>::default(), l)),
        Box::new(move |cx| engine::<f64>(cx, "scalar", &ScalarFftImpl::<f64>::default(), l)),
        Box::new(move |cx| engine::<W>(cx, "scalar", &ScalarFftImpl::<W>::default(), l)),
        Box::new(move |cx| engine::<f32>(cx, "provided", &Minimal::<f32>::default(), l)),
        Box::new(move |cx| engine::<f32>(cx, "best", &*new_fft_impl(), l)),
        #[cfg(target_arch = "x86_64")]
        Box::new(move |cx| engine::<f32>(cx, "x86", &SimdFftX86_64Impl, l)),
        #[cfg(feature = "std")]
        Box::new(move |cx| plans::<f32>(cx, l.min(12))),
        #[cfg(feature = "std")]
        Box::new(move |cx| plans::<f64>(cx, l.min(12))),
        #[cfg(feature = "std")]
        Box::new(move |cx| plans::<W>(cx, l.min(12))),
        Box::new(move |cx| real::<f32>(cx, rl)),
        Box::new(move |cx| real::<f64>(cx, rl)),
        Box::new(move |cx| multi::<f32>(cx, k)),
        Box::new(move |cx| multi::<f64>(cx, k)),
        Box::new(move |cx| short_time(cx, k)),
        Box::new(move |cx| others(cx, k)),
        Box::new(|cx| {
            stack_sizes!(cx, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 20 24 31 32 33 48 63 64 65 96 127 128 256 255);
        }),
    ];
    eng.run_units(units);
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}

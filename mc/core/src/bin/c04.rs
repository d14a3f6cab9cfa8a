//! C04: strided, out-of-place and batched transforms touch exactly the elements they address.
use kmc_core::common::*;
use kmc_core::entries::Minimal;

pub const DEF: CheckDef = CheckDef {
    id: "C04",
    level: Level::Exploration,
    rule: "one case = (element type, engine, operation, transform length, strides, slack); gaps hold NaN (reading one would spread) with a distinct payload each (writing one is seen bit for bit); non-trivial = the transform addressed at least one element",
    assumptions: &["NaN payloads survive moves; transforms are compared with the DFT by definition"],
    hang_s: 60,
    run,
};

/// A NaN that says where it was put.
trait Mark: Num {
    fn mark(i: usize) -> Self;
    fn is_mark(self, i: usize) -> bool;
}
impl Mark for f32 {
    fn mark(i: usize) -> Self {
        f32::from_bits(0x7fc0_0000 | (i as u32 + 1))
    }
    fn is_mark(self, i: usize) -> bool {
        self.to_bits() == (0x7fc0_0000 | (i as u32 + 1))
    }
}
impl Mark for f64 {
    fn mark(i: usize) -> Self {
        f64::from_bits(0x7ff8_0000_0000_0000 | (i as u64 + 1))
    }
    fn is_mark(self, i: usize) -> bool {
        self.to_bits() == (0x7ff8_0000_0000_0000 | (i as u64 + 1))
    }
}
impl Mark for W {
    fn mark(i: usize) -> Self {
        W(f64::mark(i))
    }
    fn is_mark(self, i: usize) -> bool {
        self.0.is_mark(i)
    }
}
fn guarded<T: Mark>(len: usize) -> Vec<Complex<T>> {
    guarded_at(len, 0)
}
/// Payloads count from `base`: no two buffers of a case hold the same mark.
fn guarded_at<T: Mark>(len: usize, base: usize) -> Vec<Complex<T>> {
    (base..base + len).map(|i| Complex::new(T::mark(2 * i), T::mark(2 * i + 1))).collect()
}
const OTHER: usize = 1 << 20;
fn gaps_ok<T: Mark>(v: &[Complex<T>], addressed: impl Fn(usize) -> bool) -> Result<(), String> {
    gaps_ok_at(v, 0, addressed)
}
fn gaps_ok_at<T: Mark>(v: &[Complex<T>], base: usize, addressed: impl Fn(usize) -> bool) -> Result<(), String> {
    for (i, c) in v.iter().enumerate() {
        if !addressed(i) && !(c.re.is_mark(2 * (base + i)) && c.im.is_mark(2 * (base + i) + 1)) {
            return Err(format!("element {i} is outside the transform but was overwritten with ({:?}, {:?})", c.re.to(), c.im.to()));
        }
    }
    Ok(())
}


fn explore<T: Mark>(cx: &Cx, ename: &str, e: &dyn FftImpl<T>, n: usize, strides: &[usize]) {
    explore_on(cx, ename, e, n, strides, "", &refs::cprobe(n, 31));
}
fn explore_on<T: Mark>(cx: &Cx, ename: &str, e: &dyn FftImpl<T>, n: usize, strides: &[usize], fam: &str, x: &[C]) {
    let x = rounded::<T>(x);
    let fwd = if n > 512 { refs::fft(&x) } else { refs::dft(&x) };
    let inv = refs::idft(&x);
    let xs = cv::<T>(&x);
    let tf = fft_tol::<T>(n) * refs::norm2(&x) + 1e-30;
    let ti = tf / n as f64;
    for &stride in strides {
        for slack in (0..=stride + 1).filter(|s| stride <= 16 || *s < 2 || *s == stride / 2 || *s + 2 > stride) {
            let len = (n - 1) * stride + 1 + slack;
            for (dir, want, tol) in [("fft", &fwd, tf), ("ifft", &inv, ti)] {
                cx.case(
                    || format!("{}/{ename}/{dir}_strided/n={n}/stride={stride}/len={len}{fam}", T::NAME),
                    || {
                        let mut v = guarded::<T>(len);
                        for i in 0..n {
                            v[i * stride] = xs[i];
                        }
                        let mut s = guarded_at::<T>(n, OTHER);
                        if dir == "fft" { e.fft_strided(&mut v, stride, &mut s) } else { e.ifft_strided(&mut v, stride, &mut s) }.map_err(|er| format!("unexpected error {er:?}"))?;
                        gaps_ok(&v, |i| i % stride == 0 && i / stride < n)?;
                        let got: Vec<Complex<T>> = (0..n).map(|i| v[i * stride]).collect();
                        close(&vc(&got), want, tol)?;
                        Ok(true)
                    },
                );
            }
        }
        // The allocating form derives the length from the slice.
        for extra in (0..stride).filter(|s| stride <= 16 || *s < 2 || *s == stride / 2 || *s + 2 > stride) {
            let len = n * stride + extra;
            for (dir, want, tol) in [("fft", &fwd, tf), ("ifft", &inv, ti)] {
                cx.case(
                    || format!("{}/{ename}/{dir}_strided_alloc/n={n}/stride={stride}/len={len}{fam}", T::NAME),
                    || {
                        let mut v = guarded::<T>(len);
                        for i in 0..n {
                            v[i * stride] = xs[i];
                        }
                        if dir == "fft" { e.fft_strided_alloc(&mut v, stride) } else { e.ifft_strided_alloc(&mut v, stride) }.map_err(|er| format!("unexpected error {er:?}"))?;
                        gaps_ok(&v, |i| i % stride == 0 && i / stride < n)?;
                        let got: Vec<Complex<T>> = (0..n).map(|i| v[i * stride]).collect();
                        close(&vc(&got), want, tol)?;
                        Ok(true)
                    },
                );
            }
        }
        for &ostride in strides {
            for (dir, want, tol) in [("fft", &fwd, tf), ("ifft", &inv, ti)] {
                cx.case(
                    || format!("{}/{ename}/{dir}_out_of_place_strided/n={n}/in={stride}/out={ostride}{fam}", T::NAME),
                    || {
                        let mut v = guarded::<T>(n * stride);
                        for i in 0..n {
                            v[i * stride] = xs[i];
                        }
                        let mut o = guarded_at::<T>(n * ostride, OTHER);
                        if dir == "fft" { e.fft_out_of_place_strided(&v, stride, &mut o, ostride) } else { e.ifft_out_of_place_strided(&v, stride, &mut o, ostride) }.map_err(|er| format!("unexpected error {er:?}"))?;
                        gaps_ok_at(&o, OTHER, |i| i % ostride == 0)?;
                        gaps_ok(&v, |i| i % stride == 0)?;
                        let got: Vec<Complex<T>> = (0..n).map(|i| o[i * ostride]).collect();
                        close(&vc(&got), want, tol)?;
                        let kept: Vec<Complex<T>> = (0..n).map(|i| v[i * stride]).collect();
                        if !bits_eq(&kept, &xs) {
                            return Err("the input of an out-of-place transform changed".into());
                        }
                        Ok(true)
                    },
                );
            }
        }
    }
    for (dir, want, tol) in [("fft", &fwd, tf), ("ifft", &inv, ti)] {
        cx.case(
            || format!("{}/{ename}/{dir}_out_of_place/n={n}{fam}", T::NAME),
            || {
                let v = xs.clone();
                let mut o = guarded_at::<T>(n, OTHER);
                if dir == "fft" { e.fft_out_of_place(&v, &mut o) } else { e.ifft_out_of_place(&v, &mut o) }.map_err(|er| format!("unexpected error {er:?}"))?;
                close(&vc(&o), want, tol)?;
                if !bits_eq(&v, &xs) {
                    return Err("the input of an out-of-place transform changed".into());
                }
                Ok(true)
            },
        );
        cx.case(
            || format!("{}/{ename}/{dir}_split/n={n}{fam}", T::NAME),
            || {
                // Sub-slices of larger arrays: the neighbours must survive.
                let (mut re, mut im): (Vec<T>, Vec<T>) = ((0..n + 6).map(T::mark).collect(), (OTHER..OTHER + n + 6).map(T::mark).collect());
                for i in 0..n {
                    re[i + 3] = xs[i].re;
                    im[i + 2] = xs[i].im;
                }
                if dir == "fft" { e.fft_split(&mut re[3..3 + n], &mut im[2..2 + n]) } else { e.ifft_split(&mut re[3..3 + n], &mut im[2..2 + n]) }.map_err(|er| format!("unexpected error {er:?}"))?;
                for i in 0..n + 6 {
                    if !(3..3 + n).contains(&i) && !re[i].is_mark(i) || !(2..2 + n).contains(&i) && !im[i].is_mark(OTHER + i) {
                        return Err(format!("array element {i} outside the transform was overwritten"));
                    }
                }
                let got: Vec<C> = (0..n).map(|i| (re[i + 3].to(), im[i + 2].to())).collect();
                close(&got, want, tol)?;
                Ok(true)
            },
        );
        cx.case(
            || format!("{}/{ename}/{dir}/n={n}/subslice{fam}", T::NAME),
            || {
                let mut v = guarded::<T>(n + 5);
                v[3..3 + n].copy_from_slice(&xs);
                if dir == "fft" { e.fft(&mut v[3..3 + n]) } else { e.ifft(&mut v[3..3 + n]) }.map_err(|er| format!("unexpected error {er:?}"))?;
                gaps_ok(&v, |i| (3..3 + n).contains(&i))?;
                close(&vc(&v[3..3 + n]), want, tol)?;
                Ok(true)
            },
        );
    }
}

/// Batches of every count.
fn many<T: Mark>(cx: &Cx) {
    let e = ScalarFftImpl::<T>::default();
    let lens = [4usize, 7, 1, 16, 12];
    let xs: Vec<Vec<C>> = lens.iter().enumerate().map(|(i, n)| rounded::<T>(&refs::cprobe(*n, 70 + i as u64))).collect();
    let ys: Vec<[Vec<C>; 2]> = xs.iter().map(|x| [refs::dft(x), refs::idft(x)]).collect();
    for count in (0..=70usize).chain([100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 4097]) {
        for which in 0..4 {
            for same in [true, false] {
                cx.case(
                    || format!("{}/{}/{count}{}", T::NAME, ["batch", "batch_inverse", "multi_channel", "multi_channel_inverse"][which], if same { " of 4" } else { "" }),
                    || {
                        // a scale of its own for each member
                        let f = |i: usize| 1.0 + (i % 64) as f64 / 64.0;
                        let idx = |i: usize| if same { 0 } else { i % lens.len() };
                        let mut v: Vec<Vec<Complex<T>>> = (0..count).map(|i| cv(&xs[idx(i)].iter().map(|c| (c.0 * f(i), c.1 * f(i))).collect::<Vec<_>>())).collect();
                        match which {
                            0 => batch(&e, &mut v),
                            1 => batch_inverse(&e, &mut v),
                            2 => multi_channel(&e, &mut v),
                            _ => multi_channel_inverse(&e, &mut v),
                        }
                        .map_err(|er| format!("unexpected error {er:?}"))?;
                        for (i, got) in v.iter().enumerate() {
                            let want: Vec<C> = ys[idx(i)][which % 2].iter().map(|c| (c.0 * f(i), c.1 * f(i))).collect();
                            close(&vc(got), &want, fft_tol::<T>(want.len()) * 2.0 * (refs::norm2(&xs[idx(i)]) + 1.0)).map_err(|m| format!("member {i}: {m}"))?;
                        }
                        Ok(count > 0)
                    },
                );
            }
        }
    }
}

/// Batches: every member is transformed on its own, members of every mix of lengths.
fn batches<T: Mark>(cx: &Cx, lens: &[usize]) {
    let e = ScalarFftImpl::<T>::default();
    let k = lens.len();
    for count in 0..=3usize {
        for code in 0..k.pow(count as u32) {
            let mut c = code;
            let sel: Vec<usize> = (0..count)
                .map(|_| {
                    let i = c % k;
                    c /= k;
                    lens[i]
                })
                .collect();
            for which in 0..4 {
                cx.case(
                    || format!("{}/{}/{sel:?}", T::NAME, ["batch", "batch_inverse", "multi_channel", "multi_channel_inverse"][which]),
                    || {
                        let xs: Vec<Vec<C>> = sel.iter().enumerate().map(|(i, n)| rounded::<T>(&refs::cprobe(*n, 50 + i as u64))).collect();
                        let mut v: Vec<Vec<Complex<T>>> = xs.iter().map(|x| cv(x)).collect();
                        match which {
                            0 => batch(&e, &mut v),
                            1 => batch_inverse(&e, &mut v),
                            2 => multi_channel(&e, &mut v),
                            _ => multi_channel_inverse(&e, &mut v),
                        }
                        .map_err(|er| format!("unexpected error {er:?}"))?;
                        for (x, y) in xs.iter().zip(&v) {
                            let t = fft_tol::<T>(x.len()) * refs::norm2(x);
                            if which % 2 == 0 {
                                close(&vc(y), &refs::dft(x), t)?;
                            } else {
                                close(&vc(y), &refs::idft(x), t / x.len() as f64)?;
                            }
                        }
                        Ok(count > 0)
                    },
                );
            }
        }
    }
}

/// Batches whose members are dense, silent, copies of the first, real, or like the first but for
/// their imaginary parts, one part of their first element or of their middle one, in every
/// combination.
fn alike<T: Mark>(cx: &Cx, n: usize, most: usize) {
    let e = ScalarFftImpl::<T>::default();
    for count in 1..=most {
        for code in 0..7usize.pow(count as u32) {
            let kinds: Vec<usize> = (0..count).map(|i| code / 7usize.pow(i as u32) % 7).collect();
            for which in 0..4 {
                cx.case(
                    || format!("{}/{}/{count} of {n}/kinds={kinds:?}", T::NAME, ["batch", "batch_inverse", "multi_channel", "multi_channel_inverse"][which]),
                    || {
                        let xs: Vec<Vec<C>> = kinds
                            .iter()
                            .enumerate()
                            .map(|(i, k)| match k {
                                0 => rounded::<T>(&refs::cprobe(n, 60 + i as u64)),
                                1 => vec![(0.0, 0.0); n],
                                2 => rounded::<T>(&refs::cprobe(n, 60)),
                                3 => rounded::<T>(&refs::cprobe(n, 60 + i as u64)).iter().map(|c| (c.0, 0.0)).collect(),
                                k => {
                                    let mut x = rounded::<T>(&refs::cprobe(n, 60));
                                    match k {
                                        4 => x.iter_mut().for_each(|c| c.1 = -0.5 * c.1 - 0.25 * i as f64),
                                        5 => x[0].0 += 0.5 * (i + 1) as f64,
                                        _ => x[n / 2].1 -= 0.5 * (i + 1) as f64,
                                    }
                                    rounded::<T>(&x)
                                }
                            })
                            .collect();
                        let mut v: Vec<Vec<Complex<T>>> = xs.iter().map(|x| cv(x)).collect();
                        match which {
                            0 => batch(&e, &mut v),
                            1 => batch_inverse(&e, &mut v),
                            2 => multi_channel(&e, &mut v),
                            _ => multi_channel_inverse(&e, &mut v),
                        }
                        .map_err(|er| format!("unexpected error {er:?}"))?;
                        for (i, (x, y)) in xs.iter().zip(&v).enumerate() {
                            let want = if which % 2 == 0 { refs::dft(x) } else { refs::idft(x) };
                            close(&vc(y), &want, fft_tol::<T>(n) * refs::norm2(x) + 1e-30).map_err(|m| format!("member {i}: {m}"))?;
                        }
                        Ok(true)
                    },
                );
            }
        }
    }
}

fn run(eng: &Eng) {
    let (nmax, smax) = eng.pick3((60, 4), (400, 12), (600, 24));
    let mut lens: Vec<usize> = (1..=nmax).collect();
    lens.extend(eng.pick3(vec![64, 100, 128, 256], vec![343, 400, 512, 600, 1000, 1024, 1500, 2048, 3000, 4096, 4100, 8192], vec![1000, 1024, 1500, 2048, 3000, 4096, 4100, 8192, 10_000, 16_384, 32_768]));
    let wide: &'static [usize] = &[1, 2, 3, 4, 5, 7, 8, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 10_000, 65_535, 65_536, 65_537];
    let wmax = eng.pick3(6, 26, 60);
    eng.note("bounds", format!("n in {lens:?}; strides 1..={smax} on both sides (to 3 above 600 points); n to {wmax} and 20, 24, 32, 64 with strides {wide:?}; every slack up to stride+1 for strides to 16, the slacks at both ends and in the middle above"));
    let mut units: Vec<Unit> = Vec::new();
    let all: &'static [usize] = (1..=smax).collect::<Vec<_>>().leak();
    for n in lens {
        let st = if n > 600 { &all[..3] } else { all };
        units.push(Box::new(move |cx| {
            explore::<f32>(cx, "scalar", &ScalarFftImpl::<f32>::default(), n, st);
            explore::<f64>(cx, "scalar", &ScalarFftImpl::<f64>::default(), n, st);
            explore::<W>(cx, "scalar", &ScalarFftImpl::<W>::default(), n, &st[..st.len().min(4)]);
            explore::<f32>(cx, "provided", &Minimal::<f32>::default(), n, &st[..st.len().min(4)]);
            explore::<f64>(cx, "provided", &Minimal::<f64>::default(), n, &st[..st.len().min(3)]);
            explore::<f32>(cx, "best", &*new_fft_impl(), n, st);
            #[cfg(target_arch = "x86_64")]
            explore::<f32>(cx, "x86", &SimdFftX86_64Impl, n, &st[..st.len().min(3)]);
        }));
    }
    // Contents a shortcut might single out.
    let (cmax, most) = eng.pick3((8, 3), (48, 5), (160, 6));
    eng.note("contents", format!("special signals for every n to {cmax} with strides 1..=3; batches of up to {most} members, each dense, silent, a copy of the first or real"));
    for n in 1..=cmax {
        units.push(Box::new(move |cx| {
            for (name, x) in special(n) {
                let fam = format!("/{name}");
                explore_on::<f32>(cx, "scalar", &ScalarFftImpl::<f32>::default(), n, &[1, 2, 3], &fam, &x);
                explore_on::<f64>(cx, "scalar", &ScalarFftImpl::<f64>::default(), n, &[1, 3], &fam, &x);
                explore_on::<f32>(cx, "provided", &Minimal::<f32>::default(), n, &[1, 2], &fam, &x);
                explore_on::<f32>(cx, "best", &*new_fft_impl(), n, &[1, 2], &fam, &x);
            }
        }));
    }
    for n in [1usize, 4, 6, 7] {
        units.push(Box::new(move |cx| alike::<f32>(cx, n, most.min(if cx.quick() { 4 } else { 5 }))));
        units.push(Box::new(move |cx| alike::<f64>(cx, n, most.min(if cx.quick() { 3 } else { 4 }))));
    }
    // Long strides.
    for n in (1..=wmax).chain([20, 24, 32, 64]) {
        for part in 0..wide.len() / 4 {
            units.push(Box::new(move |cx| {
                // Consecutive strides of the list, and each with the small ones.
                let mut st: Vec<usize> = wide[part * 4..].iter().take(5).copied().collect();
                if part > 0 {
                    st.extend([1, 2]);
                }
                st.retain(|s| n * s <= 1_200_000);
                explore::<f32>(cx, "scalar", &ScalarFftImpl::<f32>::default(), n, &st);
                explore::<f64>(cx, "scalar", &ScalarFftImpl::<f64>::default(), n, &st);
                if st.iter().all(|s| *s < 300) {
                    explore::<W>(cx, "scalar", &ScalarFftImpl::<W>::default(), n, &st);
                    explore::<f32>(cx, "best", &*new_fft_impl(), n, &st);
                    explore::<f32>(cx, "provided", &Minimal::<f32>::default(), n, &st);
                }
            }));
        }
    }
    if !eng.small() {
        for n in [16_384usize, 65_535, 65_536, 65_538, 70_000, 98_304, 131_072] {
            units.push(Box::new(move |cx| explore::<f32>(cx, "scalar", &ScalarFftImpl::<f32>::default(), n, &[1, 2, 3])));
            units.push(Box::new(move |cx| explore::<f64>(cx, "scalar", &ScalarFftImpl::<f64>::default(), n, &[1, 3])));
            units.push(Box::new(move |cx| explore::<f32>(cx, "best", &*new_fft_impl(), n, &[2])));
            units.push(Box::new(move |cx| explore::<f32>(cx, "provided", &Minimal::<f32>::default(), n, &[2])));
        }
    }
    units.push(Box::new(|cx| many::<f32>(cx)));
    units.push(Box::new(|cx| many::<f64>(cx)));
    units.push(Box::new(|cx| batches::<f32>(cx, &[1, 2, 3, 8, 12, 32])));
    units.push(Box::new(|cx| batches::<f64>(cx, &[1, 2, 5, 16, 20, 64])));
    units.push(Box::new(|cx| batches::<W>(cx, &[1, 4, 7, 16, 32])));
    eng.run_units(units);
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}

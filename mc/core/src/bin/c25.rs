//! C25: the number types compute what their names say, and conversions between interleaved and
//! split layouts move every value, unchanged, to its place.
use kmc_core::common::*;
use kofft::num::ComplexVec;

pub const DEF: CheckDef = CheckDef {
    id: "C25",
    level: Level::Exploration,
    rule: "one case = (element type, operation, first operand) with every second operand of the grid; (layout conversion, length) with every pair of buffer lengths; or one value of the conversion grid",
    assumptions: &["products are compared within two units in the last place of the larger of their terms, so that fused and unfused evaluation both pass"],
    hang_s: 120,
    run,
};

fn bits<T: Num>(x: T) -> u64 {
    let v = x.to();
    if v.is_nan() { u64::MAX } else { v.to_bits() }
}
fn same<T: Num>(a: Complex<T>, b: (T, T)) -> bool {
    bits(a.re) == bits(b.0) && bits(a.im) == bits(b.1)
}
fn grid<T: Num>(max: f64, tiny: f64) -> Vec<f64> {
    let mut v = vec![];
    for m in [0.0, 1.0, 0.5, 3.0, 1.0 / 3.0, 1e-3, 12345.678, tiny, max, f64::INFINITY] {
        v.push(T::of(m).to());
        v.push(T::of(-m).to());
    }
    v.push(f64::NAN);
    v.push(T::EPS);
    v.push(1.0 + T::EPS);
    v
}
fn arithmetic<T: Num>(cx: &Cx, max: f64, tiny: f64) {
    let g = grid::<T>(max, tiny);
    for a in &g {
        for b in &g {
            cx.case(
                || format!("{}/arithmetic/{a:e},{b:e}", T::NAME),
                || {
                    let x = Complex::new(T::of(*a), T::of(*b));
                    if !same(-x, (-x.re, -x.im)) || !same(x, (T::of(*a), T::of(*b))) {
                        return Err("new or negation".into());
                    }
                    for c in &g {
                        for d in &g {
                            let y = Complex::new(T::of(*c), T::of(*d));
                            if !same(x + y, (x.re + y.re, x.im + y.im)) || !same(x.add(y), (x.re + y.re, x.im + y.im)) {
                                return Err(format!("sum with {c:e},{d:e}"));
                            }
                            if !same(x - y, (x.re - y.re, x.im - y.im)) || !same(x.sub(y), (x.re - y.re, x.im - y.im)) {
                                return Err(format!("difference with {c:e},{d:e}"));
                            }
                            let p = x * y;
                            if !same(x.mul(y), (p.re, p.im)) {
                                return Err(format!("mul and * differ for {c:e},{d:e}"));
                            }
                            // Exact terms are available in f64 for f32; for f64 the rounding of
                            // each term is allowed for.
                            let want = [(a * c, -(b * d), p.re.to()), (a * d, b * c, p.im.to())];
                            for (s, t, got) in want {
                                let m = s.abs().max(t.abs());
                                if m < max / 4.0 && m.is_finite() && (got - (s + t)).abs() > 2.0 * T::EPS * m + 4.0 * tiny {
                                    return Err(format!("product with {c:e},{d:e}: {got:e} instead of {:e}", s + t));
                                }
                                if (s + t).is_nan() && !got.is_nan() && (s.is_nan() || t.is_nan()) {
                                    return Err(format!("product with {c:e},{d:e} swallows NaN"));
                                }
                            }
                        }
                    }
                    Ok(true)
                },
            );
        }
    }
}
fn scalars<T: Num>(cx: &Cx) {
    cx.case(
        || format!("{}/constants", T::NAME),
        || {
            let c = [(T::zero().to(), 0.0), (T::one().to(), 1.0), (T::pi().to(), T::of(std::f64::consts::PI).to())];
            if c.iter().any(|(a, b)| a != b) || !same(Complex::<T>::zero(), (T::zero(), T::zero())) {
                return Err(format!("{c:?}"));
            }
            Ok(true)
        },
    );
    // Every 16-bit pattern of leading bits of a double: all signs, exponents and four mantissa
    // bits, with three tails.
    for hi in 0..=0xffu64 {
        cx.case(
            || format!("{}/conversion/{hi:#x}", T::NAME),
            || {
                for lo in 0..=0xffu64 {
                    for tail in [0u64, 0x1, 0xaaaa_aaaa_aaaa, 0xffff_ffff_ffff] {
                        let v = f64::from_bits(hi << 56 | lo << 48 | tail);
                        let single = v as f32;
                        if bits(T::from_f32(single)) != bits(T::of(single as f64)) {
                            return Err(format!("from_f32({single:e})"));
                        }
                        // Values a single cannot hold at all have no pieces.
                        if v.is_finite() && (v == 0.0 || (1e-20..1e30).contains(&v.abs())) {
                            let got = T::from_f64(v).to();
                            let want = T::of(v).to();
                            if (got - want).abs() > T::EPS * want.abs() {
                                return Err(format!("from_f64({v:e}) = {got:e}"));
                            }
                        }
                    }
                }
                Ok(true)
            },
        );
    }
}
fn trigonometry<T: Num>(cx: &Cx, steps: usize) {
    for block in 0..64usize {
        cx.case(
            || format!("{}/trigonometry/{block}", T::NAME),
            || {
                for i in 0..steps / 64 {
                    // Angles from -8 pi to 8 pi, and the exact multiples of pi/4 among them.
                    let k = (block * (steps / 64) + i) as f64 - steps as f64 / 2.0;
                    let t = T::of(k * 16.0 * std::f64::consts::PI / steps as f64);
                    let v = t.to();
                    let (s, c) = t.sin_cos();
                    let tol = T::EPS;
                    for (got, want) in [(t.sin(), v.sin()), (t.cos(), v.cos()), (s, v.sin()), (c, v.cos())] {
                        if (got.to() - want).abs() > tol {
                            return Err(format!("angle {v:e}: {got:?} instead of {want:e}"));
                        }
                    }
                    let z = Complex::expi(t);
                    if (z.re.to() - v.cos()).abs() > tol || (z.im.to() - v.sin()).abs() > tol {
                        return Err(format!("expi({v:e}) = {z:?}"));
                    }
                    let m = t.mul_add(s, c).to();
                    if (m - (v * s.to() + c.to())).abs() > 2.0 * T::EPS * (v.abs() + 1.0) {
                        return Err(format!("mul_add at {v:e}"));
                    }
                }
                Ok(true)
            },
        );
    }
}

/// Values that are all different, NaN payloads and signed zeros among them.
fn odd(n: usize, salt: u32) -> Vec<f32> {
    (0..n as u32)
        .map(|k| match k % 7 {
            3 => f32::from_bits(0x7fc0_0000 | (k << 4) | salt),
            5 => -0.0,
            6 => f32::from_bits(k + salt),
            _ => (k * 3 + salt) as f32 + 0.25,
        })
        .collect()
}
fn b32(v: &[f32]) -> Vec<u32> {
    v.iter().map(|x| x.to_bits()).collect()
}
fn panics(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}
fn layout(cx: &Cx, n: usize) {
    let (re, im) = (odd(n, 1), odd(n, 2));
    let z: Vec<Complex32> = re.iter().zip(&im).map(|(a, b)| Complex::new(*a, *b)).collect();
    let zb = |v: &[Complex32]| -> Vec<(u32, u32)> { v.iter().map(|c| (c.re.to_bits(), c.im.to_bits())).collect() };
    let want = (b32(&re), b32(&im));
    cx.case(
        || format!("layout/split/n={n}"),
        || {
            let mut forms: Vec<(&str, (Vec<f32>, Vec<f32>))> = vec![];
            let (mut a, mut b) = (vec![9.0; n], vec![9.0; n]);
            copy_from_complex(&z, &mut a, &mut b);
            forms.push(("copy_from_complex", (a, b)));
            let (mut a, mut b) = (vec![9.0; n], vec![9.0; n]);
            {
                let s = complex32_to_split(&z, &mut a, &mut b);
                if s.len() != n || s.is_empty() != (n == 0) {
                    return Err("complex32_to_split: length".into());
                }
                let mut o = vec![Complex32::new(9.0, 9.0); n];
                split_to_complex32(&s, &mut o);
                if zb(&o) != zb(&z) {
                    return Err("split_to_complex32".into());
                }
            }
            forms.push(("complex32_to_split", (a, b)));
            let (mut a, mut b) = (vec![9.0; n], vec![9.0; n]);
            {
                let s = SplitComplex::copy_from_complex(&z, &mut a, &mut b);
                let mut o = vec![Complex32::new(9.0, 9.0); n];
                s.copy_to_complex(&mut o);
                if zb(&o) != zb(&z) {
                    return Err("SplitComplex::copy_to_complex".into());
                }
            }
            forms.push(("SplitComplex::copy_from_complex", (a, b)));
            let v = ComplexVec::from_complex_vec(&z);
            if v.len() != n || v.is_empty() != (n == 0) || b32(v.as_slices().0) != want.0 || b32(v.as_slices().1) != want.1 {
                return Err("ComplexVec::from_complex_vec".into());
            }
            if zb(&v.to_complex_vec()) != zb(&z) || zb(&Vec::<Complex32>::from(v.clone())) != zb(&z) {
                return Err("ComplexVec to interleaved".into());
            }
            forms.push(("from_complex_vec", (v.re.clone(), v.im.clone())));
            let mut w = ComplexVec::from(z.clone());
            {
                let (p, q) = w.as_mut_slices();
                std::mem::swap(&mut p.to_vec(), &mut q.to_vec());
                if b32(p) != want.0 || b32(q) != want.1 {
                    return Err("as_mut_slices".into());
                }
            }
            forms.push(("From<Vec>", (w.re, w.im)));
            let v = ComplexVec::new(re.clone(), im.clone());
            forms.push(("ComplexVec::new", (v.re, v.im)));
            for (name, (a, b)) in forms {
                if (b32(&a), b32(&b)) != want {
                    return Err(format!("{name} moves or changes values"));
                }
            }
            let mut o = vec![Complex32::new(9.0, 9.0); n];
            copy_to_complex(&re, &im, &mut o);
            if zb(&o) != zb(&z) {
                return Err("copy_to_complex".into());
            }
            let z64: Vec<Complex64> = cv(&refs::cprobe(n, 250));
            let (mut a, mut b, mut o) = (vec![0.0; n], vec![0.0; n], vec![Complex64::new(9.0, 9.0); n]);
            copy_from_complex(&z64, &mut a, &mut b);
            copy_to_complex(&a, &b, &mut o);
            if !bits_eq(&o, &z64) {
                return Err("f64 round trip".into());
            }
            Ok(n > 0)
        },
    );
    // Lengths that differ are a programming error and are reported as such, before anything moves.
    if n > 9 {
        return;
    }
    for a in 0..=n {
        for b in 0..=n {
            if a == n && b == n {
                continue;
            }
            cx.case(
                || format!("layout/mismatch/n={n}/{a},{b}"),
                || {
                    let (mut p, mut q) = (vec![9.0; a], vec![9.0; b]);
                    if !panics(|| copy_from_complex(&z[..n], &mut p, &mut q)) {
                        return Err("copy_from_complex accepts it".into());
                    }
                    if p.iter().chain(&q).any(|v| *v != 9.0) {
                        return Err("copy_from_complex moves something first".into());
                    }
                    let mut o = vec![Complex32::new(9.0, 9.0); n];
                    if !panics(|| copy_to_complex(&re[..a], &im[..b], &mut o)) {
                        return Err("copy_to_complex accepts it".into());
                    }
                    if o.iter().any(|v| v.re != 9.0 || v.im != 9.0) {
                        return Err("copy_to_complex moves something first".into());
                    }
                    if a != b {
                        if !panics(|| drop(ComplexVec::new(vec![0.0; a], vec![0.0; b]))) {
                            return Err("ComplexVec::new accepts it".into());
                        }
                        let (mut p, mut q) = (vec![9.0; a], vec![9.0; b]);
                        if !panics(|| drop(SplitComplex::<f32>::new(&mut p, &mut q))) {
                            return Err("SplitComplex::new accepts it".into());
                        }
                    }
                    Ok(true)
                },
            );
        }
    }
}

fn run(eng: &Eng) {
    let (lens, steps) = (eng.pick3(40, 3000, 8000), eng.pick3(1 << 12, 1 << 24, 1 << 30));
    let mut units: Vec<Unit> = vec![
        Box::new(|cx| arithmetic::<f32>(cx, f32::MAX as f64, f32::from_bits(1) as f64)),
        Box::new(|cx| arithmetic::<f64>(cx, f64::MAX, f64::from_bits(1))),
        Box::new(|cx| arithmetic::<W>(cx, f64::MAX, f64::from_bits(1))),
        Box::new(|cx| scalars::<f32>(cx)),
        Box::new(|cx| scalars::<f64>(cx)),
        Box::new(|cx| scalars::<W>(cx)),
        Box::new(move |cx| trigonometry::<f32>(cx, steps)),
        Box::new(move |cx| trigonometry::<f64>(cx, steps)),
    ];
    let long = if eng.small() { vec![] } else { vec![4096usize, 8192, 16_384, 32_768, 65_535, 65_536, 65_537, 131_072, 1 << 20, (1 << 20) + 1] };
    for n in (0..=lens).chain(long) {
        units.push(Box::new(move |cx| layout(cx, n)));
    }
    eng.run_units(units);
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}

//! Glue between the reference models (f64) and the generic element types of kofft.
pub use kmc_engine::refs::{self, C};
pub use kmc_engine::*;
pub use kofft::fft::*;
pub use kofft::num::Float;
use std::ops::*;

pub trait Num: Float + Send + Sync + Default {
    const NAME: &'static str;
    const EPS: f64;
    fn of(x: f64) -> Self;
    fn to(self) -> f64;
}
impl Num for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    fn of(x: f64) -> Self {
        x as f32
    }
    fn to(self) -> f64 {
        self as f64
    }
}
impl Num for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    fn of(x: f64) -> Self {
        x
    }
    fn to(self) -> f64 {
        self
    }
}
/// A user-defined element type: exercises the code paths that are not specialised for f32/f64.
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug, Default)]
pub struct W(pub f64);
impl Add for W {
    type Output = W;
    fn add(self, o: W) -> W {
        W(self.0 + o.0)
    }
}
impl Sub for W {
    type Output = W;
    fn sub(self, o: W) -> W {
        W(self.0 - o.0)
    }
}
impl Mul for W {
    type Output = W;
    fn mul(self, o: W) -> W {
        W(self.0 * o.0)
    }
}
impl Div for W {
    type Output = W;
    fn div(self, o: W) -> W {
        W(self.0 / o.0)
    }
}
impl Neg for W {
    type Output = W;
    fn neg(self) -> W {
        W(-self.0)
    }
}
impl Float for W {
    fn zero() -> Self {
        W(0.0)
    }
    fn one() -> Self {
        W(1.0)
    }
    fn from_f32(x: f32) -> Self {
        W(x as f64)
    }
    fn cos(self) -> Self {
        W(self.0.cos())
    }
    fn sin(self) -> Self {
        W(self.0.sin())
    }
    fn sin_cos(self) -> (Self, Self) {
        let (s, c) = self.0.sin_cos();
        (W(s), W(c))
    }
    fn pi() -> Self {
        W(std::f64::consts::PI)
    }
}
impl Num for W {
    const NAME: &'static str = "user";
    const EPS: f64 = f64::EPSILON;
    fn of(x: f64) -> Self {
        W(x)
    }
    fn to(self) -> f64 {
        self.0
    }
}

pub fn cv<T: Num>(x: &[C]) -> Vec<Complex<T>> {
    x.iter().map(|v| Complex::new(T::of(v.0), T::of(v.1))).collect()
}
pub fn vc<T: Num>(x: &[Complex<T>]) -> Vec<C> {
    x.iter().map(|v| (v.re.to(), v.im.to())).collect()
}
/// The signal as the element type actually represents it.
pub fn rounded<T: Num>(x: &[C]) -> Vec<C> {
    vc(&cv::<T>(x))
}
pub fn rv<T: Num>(x: &[f64]) -> Vec<T> {
    x.iter().map(|v| T::of(*v)).collect()
}
pub fn vr<T: Num>(x: &[T]) -> Vec<f64> {
    x.iter().map(|v| v.to()).collect()
}
pub fn bits_eq<T: Num>(a: &[Complex<T>], b: &[Complex<T>]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            x.re.to().to_bits() == y.re.to().to_bits() && x.im.to().to_bits() == y.im.to().to_bits()
        })
}
/// Largest absolute deviation; NaN anywhere gives infinity.
pub fn dev(a: &[C], b: &[C]) -> (f64, usize) {
    let mut m = 0.0;
    let mut at = 0;
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        let d = (x.0 - y.0).abs().max((x.1 - y.1).abs());
        if d.is_nan() || d > m {
            m = if d.is_nan() { f64::INFINITY } else { d };
            at = i;
        }
    }
    (m, at)
}
/// Compare with a tolerance; `tol` is absolute.
pub fn close(got: &[C], want: &[C], tol: f64) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("length {} instead of {}", got.len(), want.len()));
    }
    let (d, i) = dev(got, want);
    stat(d / tol);
    if d > tol {
        return Err(format!(
            "element {i}: got {:?}, expected {:?} (deviation {d:.3e}, tolerance {tol:.3e})",
            got[i], want[i]
        ));
    }
    Ok(())
}
pub fn close_r(got: &[f64], want: &[f64], tol: f64) -> Result<(), String> {
    let a: Vec<C> = got.iter().map(|v| (*v, 0.0)).collect();
    let b: Vec<C> = want.iter().map(|v| (*v, 0.0)).collect();
    close(&a, &b, tol)
}

// Calibration: the largest deviation/tolerance ratio seen, printed with KMC_STAT=1.
use std::sync::atomic::{AtomicU64, Ordering};
static STAT: AtomicU64 = AtomicU64::new(0);
pub fn stat(r: f64) {
    if r.is_finite() && r <= 1.0 {
        STAT.fetch_max((r * 1e6) as u64, Ordering::Relaxed);
    }
}
pub fn stat_max() -> f64 {
    STAT.swap(0, Ordering::Relaxed) as f64 / 1e6
}

/// Tolerance of one complex transform of length n, relative to the 2-norm of its input.
///
/// About four times the largest deviation measured (a tone of length n puts the rounding errors
/// of all its twiddles into one output: sqrt(n) relative to the norm); lengths that are not
/// powers of two go through a chirp convolution of length m < 4n.
pub fn fft_tol<T: Num>(n: usize) -> f64 {
    let (m, c) = if n.is_power_of_two() { (n.max(2), 5.0) } else { ((2 * n - 1).next_power_of_two(), 18.0) };
    let m = m as f64;
    T::EPS * (16.0 + 4.0 * m.log2() + c * m.sqrt())
}
pub fn e<X: std::fmt::Debug>(x: X) -> String {
    format!("{x:?}")
}

/// 2^-90: far below any fixed threshold, far above what f32 cannot represent.
pub const FAINT: f64 = 1.0 / (1u128 << 90) as f64;
/// Exponents of two by which a signal may be scaled without leaving the range of the type, and the
/// smallest step of the type.
pub fn scales<T: Num>() -> (&'static [i32], f64) {
    if T::EPS > 1e-10 {
        (&[-130, -120, -100, -60, -40, 40, 60, 90], 2f64.powi(-149))
    } else {
        (&[-1020, -1010, -900, -500, -149, -60, 60, 149, 500, 900], 0.0)
    }
}
/// Signals a shortcut might single out.
pub fn special(n: usize) -> Vec<(String, Vec<C>)> {
    let p = refs::cprobe(n, 9);
    let r = refs::probe(n, 10);
    let mut v: Vec<(String, Vec<C>)> = vec![
        ("zero".into(), vec![(0.0, 0.0); n]),
        ("even".into(), (0..n).map(|i| (r[i.min((n - i) % n)], 0.0)).collect()),
        ("odd".into(), (0..n).map(|i| (0.0, if i == 0 || 2 * i == n { 0.0 } else if 2 * i < n { r[i] } else { -r[n - i] })).collect()),
        ("hermitian".into(), (0..n).map(|i| if i == 0 || 2 * i == n { (p[i].0, 0.0) } else if 2 * i < n { p[i] } else { (p[n - i].0, -p[n - i].1) }).collect()),
        ("alternating".into(), (0..n).map(|i| (if i % 2 == 0 { 1.0 } else { -1.0 }, 0.5)).collect()),
        ("first-half".into(), (0..n).map(|i| if 2 * i < n { p[i] } else { (0.0, 0.0) }).collect()),
        ("last-half".into(), (0..n).map(|i| if 2 * i >= n { p[i] } else { (0.0, 0.0) }).collect()),
        ("even-samples".into(), (0..n).map(|i| if i % 2 == 0 { p[i] } else { (0.0, 0.0) }).collect()),
        ("odd-samples".into(), (0..n).map(|i| if i % 2 == 1 { p[i] } else { (0.0, 0.0) }).collect()),
        ("equal-parts".into(), r.iter().map(|a| (*a, *a)).collect()),
        ("offset".into(), p.iter().map(|c| (c.0 + 1000.0, c.1 - 1000.0)).collect()),
        ("faint".into(), p.iter().map(|c| (c.0 * FAINT, c.1 * FAINT)).collect()),
        ("loud".into(), p.iter().map(|c| (c.0 / FAINT, c.1 / FAINT)).collect()),
        ("wide".into(), p.iter().enumerate().map(|(i, c)| { let f = 4f64.powi((i % 21) as i32 - 10); (c.0 * f, c.1 * f) }).collect()),
    ];
    for d in [2usize, 3, 4, 5] {
        if n % d == 0 && n > d {
            v.push((format!("period-n/{d}"), (0..n).map(|i| p[i % (n / d)]).collect()));
            v.push((format!("period-{d}"), (0..n).map(|i| p[i % d]).collect()));
        }
    }
    v
}
/// The same of real numbers; with every signal over {-1, 0, 1} up to `words` samples.
pub fn special_real(n: usize, words: usize) -> Vec<(String, Vec<f64>)> {
    let r = refs::probe(n, 10);
    let pick = |f: &dyn Fn(usize) -> bool| -> Vec<f64> { (0..n).map(|i| if f(i) { r[i] } else { 0.0 }).collect() };
    let mut v: Vec<(String, Vec<f64>)> = vec![
        ("zero".into(), vec![0.0; n]),
        ("constant".into(), vec![0.75; n]),
        ("negative".into(), r.iter().map(|a| -a.abs() - 0.125).collect()),
        ("alternating".into(), (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect()),
        ("ramp".into(), (0..n).map(|i| i as f64 / n.max(1) as f64).collect()),
        ("mirrored".into(), (0..n).map(|i| r[i.min(n - 1 - i)]).collect()),
        ("antimirrored".into(), (0..n).map(|i| if 2 * i + 1 == n { 0.0 } else if 2 * i < n { r[i] } else { -r[n - 1 - i] }).collect()),
        ("even".into(), (0..n).map(|i| r[i.min((n - i) % n)]).collect()),
        ("first-half".into(), pick(&|i| 2 * i < n)),
        ("last-half".into(), pick(&|i| 2 * i >= n)),
        ("even-samples".into(), pick(&|i| i % 2 == 0)),
        ("odd-samples".into(), pick(&|i| i % 2 == 1)),
        ("last-silent".into(), pick(&|i| i + 1 < n)),
        ("first-silent".into(), pick(&|i| i > 0)),
        ("offset".into(), r.iter().map(|a| a + 1000.0).collect()),
        ("small".into(), r.iter().map(|a| a * 1e-12).collect()),
        ("large".into(), r.iter().map(|a| a * 1e12).collect()),
        ("faint".into(), r.iter().map(|a| a * FAINT).collect()),
        ("loud".into(), r.iter().map(|a| a / FAINT).collect()),
        ("wide".into(), r.iter().enumerate().map(|(i, a)| a * 4f64.powi((i % 21) as i32 - 10)).collect()),
    ];
    for d in [2usize, 3, 4] {
        if n > d {
            v.push((format!("period-{d}"), (0..n).map(|i| r[i % d]).collect()));
            v.push((format!("steps-{d}"), (0..n).map(|i| r[i / d]).collect()));
        }
    }
    if n <= words {
        for code in 0..3usize.pow(n as u32) {
            let w: Vec<f64> = (0..n).map(|i| (code / 3usize.pow(i as u32) % 3) as f64 - 1.0).collect();
            v.push((format!("{w:?}"), w));
        }
    }
    v
}

//! Reference models: naive, definitional, in f64.
use std::f64::consts::PI;

pub type C = (f64, f64);

#[inline]
pub fn cadd(a: C, b: C) -> C {
    (a.0 + b.0, a.1 + b.1)
}
#[inline]
pub fn csub(a: C, b: C) -> C {
    (a.0 - b.0, a.1 - b.1)
}
#[inline]
pub fn cmul(a: C, b: C) -> C {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
/// exp(-2 pi i k / n), argument reduced exactly to the first octant before rounding.
pub fn root(k: usize, n: usize) -> C {
    let k = (k % n) as u128;
    let n = n as u128;
    // octant o = floor(8k/n), angle = 2 pi k/n
    let (mut a, mut swap, mut neg_c, mut neg_s) = (k, false, false, false);
    // reflect to [0, n/2]
    if 2 * a > n {
        a = n - a;
        neg_s = true;
    }
    // reflect to [0, n/4]: cos(pi - x) = -cos x ; uses numerator 2a over n scale
    // represent the angle as num/den * 2 pi with den = n*4 for exactness
    let mut num = 4 * a; // over 4n
    let den = 4 * n;
    if num * 4 > den {
        num = den / 2 - num;
        neg_c = true;
    }
    if num * 8 > den {
        num = den / 4 - num;
        swap = true;
    }
    let x = 2.0 * PI * (num as f64) / (den as f64);
    let (mut s, mut c) = x.sin_cos();
    if swap {
        std::mem::swap(&mut s, &mut c);
    }
    if neg_c {
        c = -c;
    }
    if neg_s {
        s = -s;
    }
    (c, -s)
}
pub fn roots(n: usize) -> Vec<C> {
    (0..n).map(|k| root(k, n)).collect()
}
/// Sum with a running compensation of the rounding error (Neumaier).
#[derive(Clone, Copy, Default)]
pub struct Acc(f64, f64);
impl Acc {
    #[inline]
    pub fn add(&mut self, v: f64) {
        let t = self.0 + v;
        // two-sum
        let bb = t - self.0;
        self.1 += (self.0 - (t - bb)) + (v - bb);
        self.0 = t;
    }
    #[inline]
    pub fn get(self) -> f64 {
        self.0 + self.1
    }
}
/// DFT by definition.
pub fn dft_with(x: &[C], w: &[C]) -> Vec<C> {
    let n = x.len();
    let mut out = Vec::with_capacity(n);
    for k in 0..n {
        let (mut a, mut b) = (Acc::default(), Acc::default());
        let mut idx = 0usize;
        for v in x {
            let t = w[idx];
            a.add(v.0 * t.0 - v.1 * t.1);
            b.add(v.0 * t.1 + v.1 * t.0);
            idx += k;
            if idx >= n {
                idx -= n;
            }
        }
        out.push((a.get(), b.get()));
    }
    out
}
pub fn dft(x: &[C]) -> Vec<C> {
    dft_with(x, &roots(x.len()))
}
/// Reference FFT: recursive mixed radix with exact twiddles; falls back to the definition for
/// prime factors.  Cross-checked against `dft` by the engine's own self-test.
pub fn fft(x: &[C]) -> Vec<C> {
    let n = x.len();
    if n <= 1 {
        return x.to_vec();
    }
    let w = roots(n);
    rec(x, 0, 1, n, &w, n)
}
fn rec(x: &[C], off: usize, stride: usize, n: usize, w: &[C], total: usize) -> Vec<C> {
    if n == 1 {
        return vec![x[off]];
    }
    let mut p = n;
    for d in 2..=n {
        if d * d > n {
            break;
        }
        if n.is_multiple_of(d) {
            p = d;
            break;
        }
    }
    let m = n / p;
    let subs: Vec<Vec<C>> = (0..p).map(|r| rec(x, off + r * stride, stride * p, m, w, total)).collect();
    let step = total / n;
    let mut out = vec![(0.0, 0.0); n];
    for (k, o) in out.iter_mut().enumerate() {
        let (mut a, mut b) = (Acc::default(), Acc::default());
        for (r, sub) in subs.iter().enumerate() {
            let t = cmul(sub[k % m], w[(r * k % n) * step]);
            a.add(t.0);
            b.add(t.1);
        }
        *o = (a.get(), b.get());
    }
    out
}
pub fn idft(x: &[C]) -> Vec<C> {
    let n = x.len() as f64;
    let c: Vec<C> = x.iter().map(|v| (v.0, -v.1)).collect();
    let y = if x.len() > 512 { fft(&c) } else { dft(&c) };
    y.iter().map(|v| (v.0 / n, -v.1 / n)).collect()
}
/// A quadratic chirp and its DFT, which has a closed form (a Gauss sum): a dense signal with a
/// dense, flat spectrum whose reference costs O(n) at any length.
pub fn chirp(n: usize) -> (Vec<C>, Vec<C>) {
    let e = n % 2;
    // phase of t in units of pi / n: t^2 for even n, t (t + 1) for odd n (periodic modulo n)
    let w = roots(2 * n);
    let phase = |t: usize| ((t as u128 * (t + e) as u128) % (2 * n) as u128) as usize;
    let x: Vec<C> = (0..n).map(|t| w[phase(t)]).collect();
    let (mut a, mut b) = (Acc::default(), Acc::default());
    for v in &x {
        a.add(v.0);
        b.add(v.1);
    }
    let g = (a.get(), b.get());
    let y = x.iter().map(|v| cmul(g, (v.0, -v.1))).collect();
    (x, y)
}
pub fn norm2(x: &[C]) -> f64 {
    x.iter().map(|v| v.0 * v.0 + v.1 * v.1).sum::<f64>().sqrt()
}
/// Fixed dense probe vector, different for each `salt`; values in (-1, 1), none of them zero.
pub fn probe(n: usize, salt: u64) -> Vec<f64> {
    let mut s = 0x9e37_79b9_7f4a_7c15u64 ^ salt.wrapping_mul(0xd134_2543_de82_ef95);
    (0..n)
        .map(|_| {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            // 20 significant bits: exactly representable in f32
            let v = ((s >> 40) & 0xf_ffff) as f64;
            (v + 0.5) / 524288.0 - 1.0
        })
        .collect()
}
pub fn cprobe(n: usize, salt: u64) -> Vec<C> {
    let a = probe(n, 2 * salt + 1);
    let b = probe(n, 2 * salt + 2);
    a.into_iter().zip(b).collect()
}

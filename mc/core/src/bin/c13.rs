//! C13: wavelet analysis is the two-channel filter bank of its taps, synthesis its transpose, and
//! multi-level, batched and stack-only forms compose them, so that signals are reconstructed.
use kmc_core::common::*;
use kofft::wavelet::{batch_forward, batch_inverse, coif1_forward, coif1_forward_multi, coif1_inverse, coif1_inverse_multi, db2_forward, db2_forward_batch, db2_forward_multi, db2_inverse, db2_inverse_batch, db2_inverse_multi, db4_forward, db4_forward_multi, db4_inverse, db4_inverse_multi, haar_forward, haar_forward_inplace_stack, haar_forward_multi, haar_inverse, haar_inverse_inplace_stack, haar_inverse_multi, multi_level_forward, multi_level_forward_batch, multi_level_inverse, multi_level_inverse_batch, sym4_forward, sym4_forward_multi, sym4_inverse, sym4_inverse_multi};

pub const DEF: CheckDef = CheckDef {
    id: "C13",
    level: Level::Exploration,
    rule: "one case = (wavelet, form, length, levels, family); 'basis' explores every unit impulse, which determines the linear map completely",
    assumptions: &["signals are extended by whole-sample reflection (documented as symmetric extension); longer wavelets reconstruct exactly away from the boundary only (documented)"],
    hang_s: 60,
    run,
};

type Fwd = fn(&[f32]) -> (Vec<f32>, Vec<f32>);
type Inv = fn(&[f32], &[f32]) -> Vec<f32>;
type FwdM = fn(&[f32], usize) -> (Vec<f32>, Vec<Vec<f32>>);
type InvM = fn(&[f32], &[Vec<f32>]) -> Vec<f32>;
struct Wav {
    name: &'static str,
    /// low-pass analysis taps; the high-pass ones are g[k] = sign*(-1)^k h[L-1-k]
    h: &'static [f64],
    sign: f64,
    fwd: Fwd,
    inv: Inv,
    fwd_m: FwdM,
    inv_m: InvM,
}
const DB2: [f64; 4] = [0.48296291314453416, 0.8365163037378079, 0.2241438680420134, -0.12940952255126037];
const DB4: [f64; 8] = [
    -0.010597401785069032, 0.0328830116668852, 0.030841381835560764, -0.18703481171909309,
    -0.027983769416859854, 0.6308807679298589, 0.7148465705529157, 0.2303778133088965,
];
const SYM4: [f64; 8] = [
    -0.07576571478927333, -0.02963552764599851, 0.49761866763201545, 0.8037387518059161,
    0.29785779560527736, -0.09921954357684722, -0.012603967262037833, 0.0322231006040427,
];
const COIF1: [f64; 6] = [
    -0.015655728135791993, -0.07273261951252645, 0.3848648468648578, 0.8525720202116004,
    0.3378976624574818, -0.07273261951252645,
];
const WAVS: [Wav; 5] = [
    Wav { name: "haar", h: &[0.5, 0.5], sign: 1.0, fwd: haar_forward, inv: haar_inverse, fwd_m: haar_forward_multi, inv_m: haar_inverse_multi },
    Wav { name: "db2", h: &DB2, sign: 1.0, fwd: db2_forward, inv: db2_inverse, fwd_m: db2_forward_multi, inv_m: db2_inverse_multi },
    Wav { name: "db4", h: &DB4, sign: -1.0, fwd: db4_forward, inv: db4_inverse, fwd_m: db4_forward_multi, inv_m: db4_inverse_multi },
    Wav { name: "sym4", h: &SYM4, sign: -1.0, fwd: sym4_forward, inv: sym4_inverse, fwd_m: sym4_forward_multi, inv_m: sym4_inverse_multi },
    Wav { name: "coif1", h: &COIF1, sign: -1.0, fwd: coif1_forward, inv: coif1_inverse, fwd_m: coif1_forward_multi, inv_m: coif1_inverse_multi },
];

fn reflect(mut i: isize, n: usize) -> usize {
    let last = n as isize - 1;
    while i < 0 || i > last {
        i = if i < 0 { -i } else { 2 * last - i };
    }
    i as usize
}
impl Wav {
    fn g(&self, k: usize) -> f64 {
        let l = self.h.len();
        let v = self.h[l - 1 - k];
        self.sign * if k % 2 == 0 { v } else { -v }
    }
    fn model_fwd(&self, x: &[f64]) -> (Vec<f64>, Vec<f64>) {
        let n = x.len() / 2;
        let (mut a, mut d) = (vec![0.0; n], vec![0.0; n]);
        for i in 0..n {
            for (k, &h) in self.h.iter().enumerate() {
                let v = x[reflect((2 * i + k) as isize, x.len())];
                a[i] += h * v;
                d[i] += self.g(k) * v;
            }
        }
        (a, d)
    }
    fn model_inv(&self, a: &[f64], d: &[f64]) -> Vec<f64> {
        // Haar is scaled to averages: its synthesis taps are twice the analysis ones.
        let s = if self.h.len() == 2 { 2.0 } else { 1.0 };
        let n = 2 * a.len();
        let mut o = vec![0.0; n];
        for i in 0..a.len() {
            for (k, &h) in self.h.iter().enumerate() {
                o[reflect((2 * i + k) as isize, n)] += s * (h * a[i] + self.g(k) * d[i]);
            }
        }
        o
    }
    fn model_fwd_m(&self, x: &[f64], levels: usize) -> (Vec<f64>, Vec<Vec<f64>>) {
        let mut c = x.to_vec();
        let mut ds = vec![];
        for _ in 0..levels {
            if c.len() % 2 == 1 {
                c.push(c[c.len() - 1]);
            }
            let (a, d) = self.model_fwd(&c);
            ds.push(d);
            c = a;
        }
        (c, ds)
    }
    fn model_inv_m(&self, a: &[f64], ds: &[Vec<f64>]) -> Vec<f64> {
        let mut c = a.to_vec();
        for d in ds.iter().rev() {
            c.truncate(d.len());
            c = self.model_inv(&c, d);
        }
        c
    }
}
fn tol(x: &[f64]) -> f64 {
    10.0 * f32::EPSILON as f64 * x.iter().map(|v| v.abs()).fold(0.0, f64::max).max(1e-30)
}
fn signals(n: usize) -> Vec<(String, Vec<f64>)> {
    let mut v: Vec<(String, Vec<f64>)> = (0..n)
        .map(|j| (format!("e{j}"), (0..n).map(|i| (i == j) as u8 as f64).collect()))
        .collect();
    v.push(("dense".into(), refs::probe(n, 3).iter().map(|x| *x as f32 as f64).collect()));
    if n > 0 && n <= 200 {
        v.extend(special_real(n, 4).into_iter().map(|(s, x)| (s, x.iter().map(|x| *x as f32 as f64).collect())));
    }
    v
}
fn cmp(what: &str, got: &[f32], want: &[f64], t: f64) -> Result<(), String> {
    close_r(&vr(got), want, t).map_err(|m| format!("{what}: {m}"))
}

/// Two ways to the same result may round differently.
fn near(got: &[f32], want: &[f32]) -> bool {
    let t = tol(&vr(want)) * 8.0;
    got.len() == want.len() && got.iter().zip(want).all(|(a, b)| (*a as f64 - *b as f64).abs() <= t)
}
fn near_all(got: &[Vec<f32>], want: &[Vec<f32>]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(a, b)| near(a, b))
}
/// One dense signal through the multi-level form and back.
fn long(cx: &Cx, w: &Wav, n: usize, levels: usize) {
    cx.case(|| format!("{}/long/n={n}/levels={levels}", w.name), || {
        let x: Vec<f64> = refs::probe(n, 9).iter().map(|v| *v as f32 as f64).collect();
        let (a, ds) = if levels == 1 { let (a, d) = (w.fwd)(&rv(&x)); (a, vec![d]) } else { (w.fwd_m)(&rv(&x), levels) };
        let (ma, mds) = if levels == 1 { let (a, d) = w.model_fwd(&x); (a, vec![d]) } else { w.model_fwd_m(&x, levels) };
        // Every level adds a rounding error and may grow by a constant.
        let t = 4.0 * (levels + 3) as f64 * tol(&[tol(&x), tol(&ma)]) / tol(&[1.0]);
        cmp("approximation", &a, &ma, t)?;
        if ds.len() != levels {
            return Err(format!("{} details for {levels} levels", ds.len()));
        }
        for (l, (d, md)) in ds.iter().zip(&mds).enumerate() {
            cmp(&format!("detail {l}"), d, md, t)?;
        }
        let (r, m) = if levels == 1 { ((w.inv)(&a, &ds[0]), w.model_inv(&ma, &mds[0])) } else { ((w.inv_m)(&a, &ds), w.model_inv_m(&ma, &mds)) };
        cmp("reconstruction", &r, &m, 4.0 * t)?;
        Ok(n > 1)
    });
}

fn single(cx: &Cx, w: &Wav, n: usize) {
    cx.case(|| format!("{}/single/n={n}/basis", w.name), || {
        for (s, x) in signals(n) {
            let (a, d) = (w.fwd)(&rv(&x));
            let (ma, md) = w.model_fwd(&x);
            cmp(&format!("{s}: approximation"), &a, &ma, tol(&x))?;
            cmp(&format!("{s}: detail"), &d, &md, tol(&x))?;
            if n % 2 == 0 {
                let r = (w.inv)(&a, &d);
                let l = w.h.len();
                if r.len() != n {
                    return Err(format!("{s}: {} samples back from {n}", r.len()));
                }
                for p in 0..n {
                    if l == 2 || (p + 2 >= l && p + l <= n) {
                        let e = (r[p] as f64 - x[p]).abs();
                        if !(e <= 4.0 * tol(&x)) {
                            return Err(format!("{s}: sample {p} comes back as {} instead of {}", r[p], x[p]));
                        }
                    }
                }
            }
        }
        Ok(n > 1)
    });
    // Synthesis of arbitrary coefficients.
    if n % 2 == 0 {
        let m = n / 2;
        cx.case(|| format!("{}/synthesis/n={n}/basis", w.name), || {
            for (s, c) in signals(n) {
                let (a, d) = (&c[..m], &c[m..]);
                cmp(&s, &(w.inv)(&rv(a), &rv(d)), &w.model_inv(a, d), 3.0 * tol(&c))?;
            }
            Ok(n > 0)
        });
    }
}
fn multi(cx: &Cx, w: &Wav, n: usize, levels: usize) {
    cx.case(|| format!("{}/multi/n={n}/levels={levels}", w.name), || {
        for (s, x) in signals(n) {
            let xf: Vec<f32> = rv(&x);
            let (a, ds) = (w.fwd_m)(&xf, levels);
            let (ma, mds) = w.model_fwd_m(&x, levels);
            // The gain per level is at most the 1-norm of the taps.
            let t = tol(&x) * 4f64.powi(levels as i32).min(64.0);
            cmp(&format!("{s}: approximation"), &a, &ma, t)?;
            if ds.len() != levels {
                return Err(format!("{s}: {} details for {levels} levels", ds.len()));
            }
            for (l, (d, md)) in ds.iter().zip(&mds).enumerate() {
                cmp(&format!("{s}: detail {l}"), d, md, t)?;
            }
            let r = (w.inv_m)(&a, &ds);
            cmp(&format!("{s}: reconstruction"), &r, &w.model_inv_m(&ma, &mds), 4.0 * t)?;
            if w.h.len() == 2 {
                cmp(&format!("{s}: reconstruction of the signal"), &r[..n], &x, 4.0 * t)?;
            }
            // The generic form with the same single-level functions is the same thing.
            let (ga, gd) = multi_level_forward(&xf, levels, w.fwd);
            if !near(&ga, &a) || !near_all(&gd, &ds) || !near(&multi_level_inverse(&ga, &gd, w.inv), &r) {
                return Err(format!("{s}: the generic multi-level form differs"));
            }
        }
        Ok(levels > 0 && n > 1)
    });
}
/// Batches: every composition of item lengths up to three items.
fn batches(cx: &Cx, lens: &[usize], levels: usize) {
    for w in &WAVS {
        let mut combos: Vec<Vec<usize>> = vec![vec![]];
        for &a in lens {
            combos.push(vec![a]);
            for &b in lens {
                combos.push(vec![a, b]);
                for &c in lens {
                    combos.push(vec![a, b, c]);
                }
            }
        }
        for c in combos {
            cx.case(|| format!("{}/batch/{c:?}/levels={levels}", w.name), || {
                let xs: Vec<Vec<f32>> = c.iter().enumerate().map(|(i, &n)| rv(&refs::probe(n, 40 + i as u64))).collect();
                let one: Vec<_> = xs.iter().map(|x| (w.fwd)(x)).collect();
                let check = |(a, d): (Vec<Vec<f32>>, Vec<Vec<f32>>), inv: &dyn Fn(&[Vec<f32>], &[Vec<f32>]) -> Vec<Vec<f32>>| {
                    let want: (Vec<_>, Vec<_>) = one.iter().cloned().unzip();
                    if !near_all(&a, &want.0) || !near_all(&d, &want.1) {
                        return Err("batch analysis differs from the items on their own".to_string());
                    }
                    let r = inv(&a, &d);
                    let want: Vec<_> = one.iter().map(|(a, d)| (w.inv)(a, d)).collect();
                    if !near_all(&r, &want) {
                        return Err("batch synthesis differs from the items on their own".into());
                    }
                    Ok(())
                };
                match w.name {
                    "haar" => check(batch_forward(&xs), &batch_inverse)?,
                    "db2" => check(db2_forward_batch(&xs), &db2_inverse_batch)?,
                    _ => {}
                }
                let (a, d) = multi_level_forward_batch(&xs, levels, w.fwd);
                let want: (Vec<_>, Vec<_>) = xs.iter().map(|x| (w.fwd_m)(x, levels)).unzip();
                if !near_all(&a, &want.0) || d.len() != want.1.len() || !d.iter().zip(&want.1).all(|(d, w)| near_all(d, w)) {
                    return Err("multi-level batch analysis differs from the items on their own".into());
                }
                let r = multi_level_inverse_batch(&a, &d, w.inv);
                let want: Vec<_> = a.iter().zip(&d).map(|(a, d)| (w.inv_m)(a, d)).collect();
                if !near_all(&r, &want) {
                    return Err("multi-level batch synthesis differs from the items on their own".into());
                }
                Ok(c.len() > 1)
            });
        }
    }
}
/// Batches whose items have lengths and numbers of levels of their own.
fn ragged(cx: &Cx, w: &Wav, count: usize) {
    let kinds: Vec<(usize, usize)> = [0usize, 1, 4, 7, 8].iter().flat_map(|n| (0..4usize).map(|l| (*n, l))).collect();
    for code in 0..kinds.len().pow(count as u32) {
        let items: Vec<(usize, usize)> = (0..count).map(|i| kinds[code / kinds.len().pow(i as u32) % kinds.len()]).collect();
        cx.case(|| format!("{}/ragged/{items:?}", w.name), || {
            let (a, d): (Vec<_>, Vec<_>) = items.iter().enumerate().map(|(i, (n, l))| (w.fwd_m)(&rv(&refs::probe(*n, 75 + i as u64)), *l)).unzip();
            let want: Vec<Vec<f32>> = a.iter().zip(&d).map(|(a, d)| (w.inv_m)(a, d)).collect();
            if !near_all(&multi_level_inverse_batch(&a, &d, w.inv), &want) {
                return Err("the batch differs from the items on their own".into());
            }
            Ok(true)
        });
    }
}
/// Batches of pyramids that share parts: the averages and the details of every level of the second
/// item (and the third) are its own, those of the first, or those of the first but for one value.
fn shared(cx: &Cx, n: usize, levels: usize, count: usize) {
    let parts = levels + 1;
    const KINDS: usize = 5;
    let others = parts * (count - 1);
    for code in 0..KINDS.pow(others as u32) {
        let kinds: Vec<usize> = (0..others).map(|i| code / KINDS.pow(i as u32) % KINDS).collect();
        cx.case(|| format!("shared/{count} of {n}/levels={levels}/{kinds:?}"), || {
            for w in &WAVS {
                let (a0, d0) = (w.fwd_m)(&rv(&refs::probe(n, 65)), levels);
                let mut a = vec![a0.clone()];
                let mut d = vec![d0.clone()];
                for i in 1..count {
                    let (mut ai, mut di) = (w.fwd_m)(&rv(&refs::probe(n, 65 + i as u64)), levels);
                    for p in 0..parts {
                        let (mine, first) = if p == 0 { (&mut ai, &a0) } else { (&mut di[p - 1], &d0[p - 1]) };
                        let k = kinds[(i - 1) * parts + p];
                        if k == 0 || mine.len() != first.len() {
                            continue;
                        }
                        mine.clone_from(first);
                        let len = mine.len();
                        match k {
                            2 if len > 0 => mine[0] += 1.5,
                            3 if len > 0 => mine[len / 2] -= 1.5,
                            4 if len > 0 => mine[len - 1] += 2.5,
                            _ => {}
                        }
                    }
                    a.push(ai);
                    d.push(di);
                }
                let want: Vec<Vec<f32>> = a.iter().zip(&d).map(|(a, d)| (w.inv_m)(a, d)).collect();
                if !near_all(&multi_level_inverse_batch(&a, &d, w.inv), &want) {
                    return Err(format!("{}: the batch differs from the items on their own", w.name));
                }
                if levels == 1 {
                    let flat: Vec<Vec<f32>> = d.iter().map(|d| d[0].clone()).collect();
                    let got = match w.name {
                        "haar" => batch_inverse(&a, &flat),
                        "db2" => db2_inverse_batch(&a, &flat),
                        _ => continue,
                    };
                    if !near_all(&got, &want) {
                        return Err(format!("{}: the batch of one level differs from the items on their own", w.name));
                    }
                }
            }
            Ok(true)
        });
    }
}
/// Batches whose items are dense, silent, copies of the first, constant, or like the first but for
/// one sample, in every combination.
fn alike(cx: &Cx, n: usize, most: usize) {
    for count in 1..=most {
        for code in 0..7usize.pow(count as u32) {
            let kinds: Vec<usize> = (0..count).map(|i| code / 7usize.pow(i as u32) % 7).collect();
            cx.case(|| format!("batch/{count} of {n}/kinds={kinds:?}"), || {
                let xs: Vec<Vec<f32>> = kinds
                    .iter()
                    .enumerate()
                    .map(|(i, k)| match k {
                        0 => rv(&refs::probe(n, 60 + i as u64)),
                        1 => vec![0.0; n],
                        2 => rv(&refs::probe(n, 60)),
                        3 => vec![0.75; n],
                        k => {
                            let mut x: Vec<f32> = rv(&refs::probe(n, 60));
                            x[[0, n / 2, n - 1][k - 4]] += 1.5 + i as f32;
                            x
                        }
                    })
                    .collect();
                for w in &WAVS {
                    let one: (Vec<_>, Vec<_>) = xs.iter().map(|x| (w.fwd)(x)).unzip();
                    let back: Vec<_> = one.0.iter().zip(&one.1).map(|(a, d)| (w.inv)(a, d)).collect();
                    let got = match w.name {
                        "haar" => Some((batch_forward(&xs), batch_inverse(&one.0, &one.1))),
                        "db2" => Some((db2_forward_batch(&xs), db2_inverse_batch(&one.0, &one.1))),
                        _ => None,
                    };
                    if let Some((ad, r)) = got {
                        if !near_all(&ad.0, &one.0) || !near_all(&ad.1, &one.1) || !near_all(&r, &back) {
                            return Err(format!("{}: the batch differs from the items on their own", w.name));
                        }
                    }
                    for levels in 0..=2 {
                        let m: (Vec<_>, Vec<_>) = xs.iter().map(|x| (w.fwd_m)(x, levels)).unzip();
                        let back: Vec<_> = m.0.iter().zip(&m.1).map(|(a, d)| (w.inv_m)(a, d)).collect();
                        let (a, d) = multi_level_forward_batch(&xs, levels, w.fwd);
                        if !near_all(&a, &m.0) || d.len() != m.1.len() || !d.iter().zip(&m.1).all(|(d, w)| near_all(d, w)) || !near_all(&multi_level_inverse_batch(&m.0, &m.1, w.inv), &back) {
                            return Err(format!("{}: the batch of {levels} levels differs from the items on their own", w.name));
                        }
                    }
                }
                Ok(true)
            });
        }
    }
}
/// The generic driver hands its closure every level in turn.
fn generic(cx: &Cx, n: usize, levels: usize) {
    cx.case(|| format!("polyphase/n={n}/levels={levels}"), || {
        let x: Vec<f32> = (0..n).map(|i| i as f32 + 1.0).collect();
        let split = |c: &[f32]| -> (Vec<f32>, Vec<f32>) {
            (c.iter().copied().step_by(2).take(c.len() / 2).collect(), c.iter().copied().skip(1).step_by(2).collect())
        };
        let merge = |a: &[f32], d: &[f32]| -> Vec<f32> { a.iter().zip(d).flat_map(|(a, d)| [*a, *d]).collect() };
        let (a, d) = multi_level_forward(&x, levels, split);
        if d.len() != levels {
            return Err(format!("{} details for {levels} levels", d.len()));
        }
        let r = multi_level_inverse(&a, &d, merge);
        let want = if levels > 0 { n + n % 2 } else { n };
        if r.len() != want || r[..n] != x[..] {
            return Err(format!("{r:?}"));
        }
        if want > n && r[n] != x[n - 1] {
            return Err("the padding is not a copy of the last sample".into());
        }
        Ok(levels > 0)
    });
}
macro_rules! stack {
    ($cx:expr, $($n:literal),*) => {{$(
        $cx.case(|| format!("haar/stack/n={}", $n), || {
            for (s, x) in signals($n) {
                let x: Vec<f32> = rv(&x);
                let (mut a, mut d) = (vec![f32::NAN; $n / 2], vec![f32::NAN; $n / 2]);
                haar_forward_inplace_stack::<$n>(x[..].try_into().unwrap(), &mut a, &mut d);
                if !near(&a, &haar_forward(&x).0) || !near(&d, &haar_forward(&x).1) {
                    return Err(format!("{s}: differs from the allocating form"));
                }
                let mut o = vec![f32::NAN; $n / 2 * 2];
                haar_inverse_inplace_stack::<{ $n / 2 }>(&a, &d, &mut o);
                if !near(&o, &haar_inverse(&a, &d)) {
                    return Err(format!("{s}: inverse differs from the allocating form"));
                }
            }
            Ok($n > 1)
        });
    )*}};
}
fn run(eng: &Eng) {
    let single_max = eng.pick3(70, 700, 2100);
    let multi_max = eng.pick3(40, 160, 300);
    let levels_max = eng.pick3(5, 7, 9);
    eng.note("single_level_lengths", format!("0..={single_max}"));
    eng.note("multi_level", format!("lengths 0..={multi_max} x levels 0..={levels_max}"));
    let mut units: Vec<Unit> = vec![];
    for w in &WAVS {
        for n in 0..=single_max {
            units.push(Box::new(move |cx| single(cx, w, n)));
        }
        for n in 0..=multi_max {
            units.push(Box::new(move |cx| (0..=levels_max).for_each(|l| multi(cx, w, n, l))));
        }
    }
    let gmax = eng.pick3(40, 600, 1500);
    units.push(Box::new(move |cx| {
        for n in 0..=gmax {
            for l in 0..=8 {
                generic(cx, n, l);
            }
        }
    }));
    for l in 0..=3 {
        units.push(Box::new(move |cx| batches(cx, &[0, 1, 2, 3, 8, 9, 12], l)));
    }
    let most = eng.pick3(2, 4, 5);
    for (levels, count) in eng.pick3(&[(1, 2)][..], &[(1, 2), (2, 2), (3, 2), (1, 3)], &[(1, 2), (2, 2), (3, 2), (4, 2), (1, 3), (2, 3), (1, 4)]) {
        for n in [4usize, 8, 13] {
            units.push(Box::new(move |cx| shared(cx, n, *levels, *count)));
        }
    }
    for w in &WAVS {
        units.push(Box::new(move |cx| (1..=eng.pick3(2, 3, 4)).for_each(|c| ragged(cx, w, c))));
    }
    for n in [4usize, 7, 8] {
        units.push(Box::new(move |cx| alike(cx, n, most)));
    }
    units.push(Box::new(|cx| {
        stack!(cx, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 17, 18, 20, 30, 32, 33, 64, 100, 128);
    }));
    // More levels than a byte or two count.
    units.push(Box::new(|cx| {
        for l in [127usize, 128, 255, 256, 257, 300, 1000, 32_768, 65_535, 65_536, 65_537, 70_000] {
            for n in [0, 1, 2, 3, 4, 5, 7, 8, 13, 20] {
                generic(cx, n, l);
            }
            long(cx, &WAVS[0], 8, l);
            WAVS.iter().for_each(|w| long(cx, w, 0, l));
        }
    }));
    // Long signals and deep decompositions: one dense probe each.
    if !eng.small() {
        let top = eng.pick(2600, 9000);
        for from in (single_max + 1..top).step_by(100) {
            units.push(Box::new(move |cx| WAVS.iter().for_each(|w| (from..from + 100).for_each(|n| long(cx, w, n, 1 + n % 3)))));
        }
        let lens: &'static [usize] = eng.pick(&[4096, 4099, 32_768, 65_535, 65_536, 65_537, 131_072, 131_073, 262_144], &[4096, 4099, 32_768, 65_535, 65_536, 65_537, 131_072, 131_073, 262_144, 1 << 20, (1 << 20) + 1, 1 << 22]);
        for w in &WAVS {
            for n in lens {
                units.push(Box::new(move |cx| [1, 2, 3, 5, 11, 18, 24].iter().for_each(|l| long(cx, w, *n, *l))));
            }
            // More levels than the signal has.
            units.push(Box::new(move |cx| (0..20).for_each(|n| [10, 16, 32, 33, 64, 65, 100, 200].iter().for_each(|l| long(cx, w, n, *l)))));
        }
        units.push(Box::new(|cx| [65_535usize, 65_536, 65_537, 131_072].iter().for_each(|n| (0..18).for_each(|l| generic(cx, *n, l)))));
        // Batches of many items, and a long item among short ones.
        for l in 0..=3 {
            units.push(Box::new(move |cx| batches(cx, &[0, 7, 600], l)));
        }
    } else {
        for w in &WAVS {
            units.push(Box::new(move |cx| {
                for n in [255, 256, 257, 1000, 65_535, 65_536, 65_537, 131_072] {
                    [1, 3, 18].iter().for_each(|l| long(cx, w, n, *l));
                }
            }));
        }
    }
    eng.run_units(units);
    if std::env::var("KMC_STAT").is_ok() {
        eprintln!("max deviation/tolerance = {}", stat_max());
    }
}
fn main() {
    kmc_engine::main_with(&[DEF]);
}

//! Shared machinery of the cosine, sine and Hartley checks: real linear maps given by a matrix.
use crate::common::*;

/// A real linear map of order n: entry (k, i), evaluated in f64 with an exactly reduced angle.
pub type Matrix = fn(n: usize, k: usize, i: usize) -> f64;
/// An implementation of it.
pub type Map = (&'static str, Matrix, fn(&[f32]) -> Result<Vec<f32>, String>);

/// cos(pi * num / den), argument reduced exactly.
pub fn cospi(num: usize, den: usize) -> f64 {
    refs::root(num % (2 * den), 2 * den).0
}
/// sin(pi * num / den).
pub fn sinpi(num: usize, den: usize) -> f64 {
    -refs::root(num % (2 * den), 2 * den).1
}
/// The crate evaluates these maps with angles of up to 2 pi n in single precision: the
/// error of one entry is proportional to n (four times the largest error measured).
pub fn entry_tol(n: usize) -> f64 {
    f32::EPSILON as f64 * (6.0 + 26.0 * n as f64)
}
pub fn basis(cx: &Cx, n: usize, maps: &[Map], scale: f64) {
    for (name, a, f) in maps {
        cx.case(
            || format!("{name}/n={n}/basis"),
            || {
                for i in 0..n {
                    let mut x = vec![0f32; n];
                    x[i] = 1.0;
                    let y = f(&x).map_err(|m| format!("e_{i}: {m}"))?;
                    let want: Vec<f64> = (0..n).map(|k| a(n, k, i)).collect();
                    close_r(&vr(&y), &want, scale * entry_tol(n)).map_err(|m| format!("impulse {i}: {m}"))?;
                }
                Ok(true)
            },
        );
    }
}
pub fn dense(cx: &Cx, n: usize, maps: &[Map], scale: f64) {
    for salt in [131u64, 132] {
        let x: Vec<f32> = rv(&refs::probe(n, salt));
        let l2: f64 = x.iter().map(|v| (*v as f64).powi(2)).sum::<f64>().sqrt();
        for (name, a, f) in maps {
            cx.case(
                || format!("{name}/n={n}/dense{salt}"),
                || {
                    let y = f(&x)?;
                    let want: Vec<f64> = (0..n).map(|k| (0..n).map(|i| a(n, k, i) * x[i] as f64).sum()).collect();
                    close_r(&vr(&y), &want, scale * entry_tol(n) * l2 * 2.0)?;
                    Ok(n > 0)
                },
            );
        }
    }
}
/// Signals a shortcut might single out, and every one over {-1, 0, 1} up to `words` samples.
pub fn contents(cx: &Cx, n: usize, words: usize, maps: &[Map]) {
    let sig: Vec<(String, Vec<f32>)> = special_real(n, words).iter().map(|(s, x)| (s.clone(), rv(x))).collect();
    let wants: Vec<(Matrix, Vec<Vec<f64>>)> = maps.iter().map(|m| m.1).fold(vec![], |mut v: Vec<(Matrix, Vec<Vec<f64>>)>, a| {
        if !v.iter().any(|w| w.0 as usize == a as usize) {
            let rows: Vec<Vec<f64>> = (0..n).map(|k| (0..n).map(|i| a(n, k, i)).collect()).collect();
            v.push((a, sig.iter().map(|(_, x)| rows.iter().map(|r| r.iter().zip(x).map(|(a, b)| a * *b as f64).sum()).collect()).collect()));
        }
        v
    });
    for (name, a, f) in maps {
        let wants = &wants.iter().find(|w| w.0 as usize == *a as usize).unwrap().1;
        cx.case(
            || format!("{name}/n={n}/contents"),
            || {
                for ((s, x), want) in sig.iter().zip(wants) {
                    let l2: f64 = x.iter().map(|v| (*v as f64).powi(2)).sum::<f64>().sqrt();
                    let y = f(x).map_err(|m| format!("{s}: {m}"))?;
                    close_r(&vr(&y), want, entry_tol(n) * l2 * 2.0 + 1e-30).map_err(|m| format!("{s}: {m}"))?;
                }
                Ok(n > 0)
            },
        );
    }
}
/// Seven impulses at once, first and last among them: a reference in O(n) for long lengths.
pub fn sparse(cx: &Cx, n: usize, maps: &[Map], tol: fn(usize) -> f64) {
    let at: Vec<(usize, f64)> = [(0, 0.75), (1, -0.5), (n / 3, 0.875), (n / 2, 1.0), (2 * n / 3, -0.625), (n - 2, 0.375), (n - 1, -0.9375)].to_vec();
    let mut x = vec![0f32; n];
    for (i, v) in &at {
        x[*i] += *v as f32;
    }
    for (name, a, f) in maps {
        cx.case(
            || format!("{name}/n={n}/sparse"),
            || {
                let y = f(&x)?;
                let want: Vec<f64> = (0..n).map(|k| at.iter().map(|(i, v)| a(n, k, *i) * v).sum()).collect();
                close_r(&vr(&y), &want, tol(n) * 2.0)?;
                Ok(true)
            },
        );
    }
}
/// `g` after `f` is `factor(n)` times the identity.
pub fn inverse_pairs(cx: &Cx, n: usize, pairs: &[(Map, Map, fn(usize) -> f64)], scale: f64) {
    let x: Vec<f32> = rv(&refs::probe(n, 133));
    for ((fname, _, f), (gname, _, g), c) in pairs {
        let c = c(n);
        cx.case(
            || format!("{fname}+{gname}/n={n}/roundtrip"),
            || {
                let y = f(&x)?;
                let z = g(&y)?;
                let want: Vec<f64> = x.iter().map(|v| *v as f64 * c).collect();
                let l2: f64 = y.iter().map(|v| (*v as f64).powi(2)).sum::<f64>().sqrt();
                close_r(&vr(&z), &want, scale * entry_tol(n) * l2 * 4.0)?;
                Ok(n > 0)
            },
        );
    }
}

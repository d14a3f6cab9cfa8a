//! C02: reused engines, planners and plans answer like fresh ones, whatever was computed before.
use kmc_core::common::*;
use kofft::rfft::*;

pub const DEF: CheckDef = CheckDef {
    id: "C02",
    level: Level::Exploration,
    rule: "one case = (element type, kind of reused object, initial state, sequence of operations); every operation of the sequence is compared with the definition; non-trivial = a sequence of at least two operations",
    assumptions: &["the state of a reused object is reached only through its public operations"],
    hang_s: 120,
    run,
};

pub type Op<S> = (String, Box<dyn Fn(&mut S) -> Result<(), String> + Send + Sync>);

/// Explore every sequence of exactly `depth` operations from every initial state.
pub fn sequences<'a, S: 'static>(
    units: &mut Vec<Unit<'a>>,
    label: String,
    inits: &'a [(&'static str, fn() -> S)],
    ops: &'a [Op<S>],
    depth: usize,
) {
    for (iname, init) in inits {
        for a in 0..ops.len() {
            let label = label.clone();
            units.push(Box::new(move |cx| {
                let mut seq = vec![0usize; depth];
                seq[0] = a;
                loop {
                    cx.case(
                        || {
                            let names: Vec<&str> = seq.iter().map(|i| ops[*i].0.as_str()).collect();
                            format!("{label}/{iname}/{}", names.join(">"))
                        },
                        || {
                            let mut s = init();
                            for (i, o) in seq.iter().enumerate() {
                                (ops[*o].1)(&mut s).map_err(|m| format!("operation {} ({}): {m}", i + 1, ops[*o].0))?;
                            }
                            Ok(depth > 1)
                        },
                    );
                    cx.transitions(depth as u64);
                    // next
                    let mut d = depth;
                    loop {
                        if d == 1 {
                            return;
                        }
                        d -= 1;
                        seq[d] += 1;
                        if seq[d] < ops.len() {
                            break;
                        }
                        seq[d] = 0;
                    }
                }
            }));
        }
    }
}

fn inverse_tol<T: Num>(x: &[C]) -> f64 {
    fft_tol::<T>(x.len()) * refs::norm2(x) / x.len() as f64
}

fn engine_ops<T: Num>(sizes: &[usize], wide: bool) -> Vec<Op<ScalarFftImpl<T>>> {
    let mut v: Vec<Op<ScalarFftImpl<T>>> = Vec::new();
    for (i, n) in sizes.iter().enumerate() {
        let n = *n;
        let x = rounded::<T>(&refs::cprobe(n, 40 + i as u64));
        let y = refs::dft(&x);
        let z = refs::idft(&x);
        let tf = fft_tol::<T>(n) * refs::norm2(&x);
        let ti = inverse_tol::<T>(&x);
        macro_rules! op {
            ($name:expr, $want:ident, $tol:expr, |$e:ident, $b:ident| $body:expr) => {{
                let (x, want, tol) = (cv::<T>(&x), $want.clone(), $tol);
                v.push((
                    format!("{}{}", $name, n),
                    Box::new(move |$e: &mut ScalarFftImpl<T>| {
                        let mut $b = x.clone();
                        let r: Result<Vec<Complex<T>>, FftError> = $body;
                        close(&vc(&r.map_err(|er| format!("unexpected error {er:?}"))?), &want, tol)
                    }),
                ));
            }};
        }
        op!("fft", y, tf, |e, b| e.fft(&mut b).map(|_| b));
        op!("ifft", z, ti, |e, b| e.ifft(&mut b).map(|_| b));
        op!("split", y, tf, |e, b| {
            let (mut r, mut i) = kmc_core::entries::split_of(&b);
            b.clear();
            e.fft_split(&mut r, &mut i).map(|_| kmc_core::entries::join(&r, &i))
        });
        op!("stridealloc", y, tf, |e, b| {
            let mut w = vec![Complex::<T>::new(T::of(9.0), T::of(9.0)); n * 2];
            for k in 0..n {
                w[2 * k] = b[k];
            }
            e.fft_strided_alloc(&mut w, 2).map(|_| {
                for k in 0..n {
                    b[k] = w[2 * k];
                }
                b
            })
        });
        op!("oopstr", y, tf, |e, b| {
            let mut w = vec![Complex::<T>::zero(); n * 3];
            e.fft_out_of_place_strided(&b, 1, &mut w, 3).map(|_| {
                for k in 0..n {
                    b[k] = w[3 * k];
                }
                b
            })
        });
        if wide {
            op!("ioopstr", z, ti, |e, b| {
                let mut w = vec![Complex::<T>::zero(); n * 2];
                for k in 0..n {
                    w[2 * k] = b[k];
                }
                e.ifft_out_of_place_strided(&w, 2, &mut b, 1).map(|_| b)
            });
            op!("istridealloc", z, ti, |e, b| e.ifft_strided_alloc(&mut b, 1).map(|_| b));
            op!("isplit", z, ti, |e, b| {
                let (mut r, mut i) = kmc_core::entries::split_of(&b);
                b.clear();
                e.ifft_split(&mut r, &mut i).map(|_| kmc_core::entries::join(&r, &i))
            });
            op!("stockham", y, tf, |e, b| e.stockham_fft(&mut b).map(|_| b));
            #[cfg(feature = "std")]
            op!("radix4", y, tf, |e, b| e.fft_radix4(&mut b).map(|_| b));
            op!("auto", y, tf, |e, b| e.fft_with_strategy(&mut b, FftStrategy::Auto).map(|_| b));
        }
    }
    // Calls that fail must not poison the ones that follow.
    v.push((
        "empty".into(),
        Box::new(|e| match e.fft(&mut []) {
            Err(_) => Ok(()),
            Ok(()) => Err("empty input accepted".into()),
        }),
    ));
    v.push((
        "badstride".into(),
        Box::new(|e| {
            let mut w = vec![Complex::<T>::zero(); 7];
            let mut o = vec![Complex::<T>::zero(); 6];
            let a = e.fft_strided_alloc(&mut w, 0).is_err();
            let b = e.fft_out_of_place_strided(&w, 1, &mut o, 2).is_err();
            if a && b {
                Ok(())
            } else {
                Err("invalid stride accepted".into())
            }
        }),
    ));
    v
}
fn warm<T: Num>() -> ScalarFftImpl<T> {
    let mut p = FftPlanner::<T>::new();
    for n in [2, 8, 32, 64] {
        p.get_twiddles(n);
    }
    #[cfg(feature = "std")]
    for n in [3, 5, 12, 20] {
        p.get_bluestein(n);
    }
    p.plan_strategy(64);
    ScalarFftImpl::with_planner(p)
}
/// A planner whose scratch space was left behind by a much larger transform.
fn large<T: Num>() -> ScalarFftImpl<T> {
    let e = ScalarFftImpl::<T>::default();
    for n in [512, 300] {
        let mut b = cv::<T>(&refs::cprobe(n, 3));
        e.fft(&mut b).ok();
        let _ = e.fft_strided_alloc(&mut b, 1);
    }
    e
}

#[cfg(feature = "std")]
fn plan_ops<T: Num>(n: usize) -> Vec<Op<FftPlan<T>>> {
    let mut v: Vec<Op<FftPlan<T>>> = Vec::new();
    for s in 0..2u64 {
        let x = rounded::<T>(&refs::cprobe(n, 60 + s));
        let y = refs::dft(&x);
        let z = refs::idft(&x);
        let tf = fft_tol::<T>(n) * refs::norm2(&x);
        let ti = inverse_tol::<T>(&x);
        macro_rules! op {
            ($name:expr, $want:ident, $tol:expr, |$e:ident, $b:ident| $body:expr) => {{
                let (x, want, tol) = (cv::<T>(&x), $want.clone(), $tol);
                v.push((
                    format!("{}{}", $name, s),
                    Box::new(move |$e: &mut FftPlan<T>| {
                        let mut $b = x.clone();
                        let r: Result<Vec<Complex<T>>, FftError> = $body;
                        close(&vc(&r.map_err(|er| format!("unexpected error {er:?}"))?), &want, tol)
                    }),
                ));
            }};
        }
        op!("fft", y, tf, |p, b| p.fft(&mut b).map(|_| b));
        op!("ifft", z, ti, |p, b| p.ifft(&mut b).map(|_| b));
        if s == 0 {
            op!("oop", y, tf, |p, b| {
                let mut o = vec![Complex::<T>::new(T::of(5.0), T::of(-5.0)); n];
                let r = p.fft_out_of_place(&b, &mut o);
                b.clear();
                r.map(|_| o)
            });
            op!("ioop", z, ti, |p, b| {
                let mut o = vec![Complex::<T>::new(T::of(5.0), T::of(-5.0)); n];
                let r = p.ifft_out_of_place(&b, &mut o);
                b.clear();
                r.map(|_| o)
            });
        } else {
            op!("split", y, tf, |p, b| {
                let (mut r, mut i) = kmc_core::entries::split_of(&b);
                b.clear();
                p.fft_split(&mut r, &mut i).map(|_| kmc_core::entries::join(&r, &i))
            });
            op!("isplit", z, ti, |p, b| {
                let (mut r, mut i) = kmc_core::entries::split_of(&b);
                b.clear();
                p.ifft_split(&mut r, &mut i).map(|_| kmc_core::entries::join(&r, &i))
            });
        }
    }
    v.push((
        "wronglen".into(),
        Box::new(|p| {
            let mut b = vec![Complex::<T>::zero(); p.n + 1];
            if p.fft(&mut b).is_ok() || p.ifft(&mut b).is_ok() {
                return Err("wrong length accepted".into());
            }
            Ok(())
        }),
    ));
    v
}

pub struct Rs<T: RealFftNum> {
    pub p: RfftPlanner<T>,
    pub f: ScalarFftImpl<T>,
}
fn rfft_ops<T: Num + RealFftNum>(sizes: &[usize]) -> Vec<Op<Rs<T>>> {
    let mut v: Vec<Op<Rs<T>>> = Vec::new();
    for (i, n) in sizes.iter().enumerate() {
        let n = *n;
        let m = n / 2;
        let xr: Vec<T> = rv(&refs::probe(n, 80 + i as u64));
        let xc: Vec<C> = xr.iter().map(|a| (a.to(), 0.0)).collect();
        let y: Vec<C> = refs::dft(&xc)[..=m].to_vec();
        let yt: Vec<Complex<T>> = cv(&y);
        let tf = fft_tol::<T>(n) * refs::norm2(&xc) * 2.0;
        let ti = fft_tol::<T>(n) * refs::norm2(&xc);
        macro_rules! fwd {
            ($name:expr, |$s:ident, $x:ident, $o:ident, $sc:ident| $body:expr) => {{
                let (x, want) = (xr.clone(), y.clone());
                v.push((
                    format!("{}{}", $name, n),
                    Box::new(move |$s: &mut Rs<T>| {
                        let mut $x = x.clone();
                        let mut $o = vec![Complex::<T>::new(T::of(3.0), T::of(3.0)); m + 1];
                        #[allow(unused_mut)]
                        let mut $sc = vec![Complex::<T>::new(T::of(7.0), T::of(-7.0)); m];
                        $body.map_err(|er| format!("unexpected error {er:?}"))?;
                        let _ = &$sc;
                        close(&vc(&$o), &want, tf)
                    }),
                ));
            }};
        }
        macro_rules! inv {
            ($name:expr, |$s:ident, $x:ident, $o:ident, $sc:ident| $body:expr) => {{
                let (x, want) = (yt.clone(), vr(&xr));
                v.push((
                    format!("{}{}", $name, n),
                    Box::new(move |$s: &mut Rs<T>| {
                        let mut $x = x.clone();
                        let mut $o = vec![T::of(3.0); n];
                        #[allow(unused_mut)]
                        let mut $sc = vec![Complex::<T>::new(T::of(7.0), T::of(-7.0)); m];
                        $body.map_err(|er| format!("unexpected error {er:?}"))?;
                        let _ = &$sc;
                        close_r(&vr(&$o), &want, ti)
                    }),
                ));
            }};
        }
        fwd!("rfft", |s, x, o, sc| s.p.rfft(&s.f, &mut x, &mut o));
        fwd!("rffts", |s, x, o, sc| s.p.rfft_with_scratch(&s.f, &mut x, &mut o, &mut sc));
        inv!("irfft", |s, x, o, sc| s.p.irfft(&s.f, &mut x, &mut o));
        inv!("irffts", |s, x, o, sc| s.p.irfft_with_scratch(&s.f, &mut x, &mut o, &mut sc));
        fwd!("packed", |s, x, o, sc| rfft_packed(&mut s.p, &s.f, &mut x, &mut o, &mut sc));
        inv!("ipacked", |s, x, o, sc| irfft_packed(&mut s.p, &s.f, &mut x, &mut o, &mut sc));
    }
    v.push((
        "bad".into(),
        Box::new(|s| {
            let mut x = vec![T::zero(); 6];
            let mut o = vec![Complex::<T>::zero(); 3];
            let a = s.p.rfft(&s.f, &mut x, &mut o).is_err();
            let b = s.p.rfft(&s.f, &mut x[..5], &mut o).is_err();
            let c = s.p.irfft(&s.f, &mut o, &mut x).is_err();
            if a && b && c {
                Ok(())
            } else {
                Err("invalid shape accepted".into())
            }
        }),
    ));
    v
}

/// A real signal of even length with its half spectrum, both in closed form.
struct Real<T: Num + RealFftNum> {
    n: usize,
    x: [Vec<T>; 2],
    y: [Vec<Complex<T>>; 2],
    wx: [Vec<f64>; 2],
    wy: [Vec<C>; 2],
    tf: f64,
    ti: f64,
}
const RKIND: [&str; 6] = ["rfft", "irfft", "rffts", "irffts", "packed", "ipacked"];
impl<T: Num + RealFftNum> Real<T> {
    fn new(n: usize) -> Self {
        let (x, y) = refs::chirp(n);
        let m = n / 2;
        // The real part, and the imaginary part, of the chirp.
        let re: Vec<C> = (0..=m).map(|k| (y[k], y[(n - k) % n])).map(|(a, b)| ((a.0 + b.0) / 2.0, (a.1 - b.1) / 2.0)).collect();
        let im: Vec<C> = (0..=m).map(|k| (y[k], y[(n - k) % n])).map(|(a, b)| ((a.1 + b.1) / 2.0, (b.0 - a.0) / 2.0)).collect();
        let wx = [x.iter().map(|v| v.0).collect::<Vec<_>>(), x.iter().map(|v| v.1).collect()];
        let wy = [re, im];
        let tf = fft_tol::<T>(n.max(2)) * (n as f64).sqrt();
        Real { n, x: [rv(&wx[0]), rv(&wx[1])], y: [cv(&wy[0]), cv(&wy[1])], wx, wy, tf, ti: 2.0 * tf / (n as f64).sqrt() }
    }
    fn call(&self, r: &mut Rs<T>, kind: usize, s: usize) -> Result<(), String> {
        let m = self.n / 2;
        let mut scratch = vec![Complex::<T>::new(T::of(7.0), T::of(-7.0)); m];
        if kind % 2 == 0 {
            let mut x = self.x[s].clone();
            let mut o = vec![Complex::<T>::new(T::of(3.0), T::of(3.0)); m + 1];
            match kind {
                0 => r.p.rfft(&r.f, &mut x, &mut o),
                2 => r.p.rfft_with_scratch(&r.f, &mut x, &mut o, &mut scratch),
                _ => rfft_packed(&mut r.p, &r.f, &mut x, &mut o, &mut scratch),
            }
            .map_err(|x| format!("unexpected error {x:?}"))?;
            close(&vc(&o), &self.wy[s], self.tf)
        } else {
            let mut x = self.y[s].clone();
            let mut o = vec![T::of(3.0); self.n];
            match kind {
                1 => r.p.irfft(&r.f, &mut x, &mut o),
                3 => r.p.irfft_with_scratch(&r.f, &mut x, &mut o, &mut scratch),
                _ => irfft_packed(&mut r.p, &r.f, &mut x, &mut o, &mut scratch),
            }
            .map_err(|x| format!("unexpected error {x:?}"))?;
            close_r(&vr(&o), &self.wx[s], self.ti)
        }
    }
}
fn rpairs<T: Num + RealFftNum>(cx: &Cx, d: &[Real<T>], a: usize) {
    for b in 0..d.len() {
        // All kinds for short lengths; longer ones, whose tables are the same objects, by one kind each way.
        let long = d[a].n.max(d[b].n) > 300;
        for k in 0..36 {
            let (k1, k2) = (k / 6, k % 6);
            if long && ![0, 1, 6, 14, 28].contains(&k) {
                continue;
            }
            cx.case(
                || format!("rpair/{}/{}{}>{}{}", T::NAME, RKIND[k1], d[a].n, RKIND[k2], d[b].n),
                || {
                    let mut r = Rs { p: RfftPlanner::new(), f: Default::default() };
                    d[a].call(&mut r, k1, 0).map_err(|m| format!("first call: {m}"))?;
                    d[b].call(&mut r, k2, 1).map_err(|m| format!("second call: {m}"))?;
                    Ok(true)
                },
            );
            cx.transitions(2);
        }
    }
}
fn rcongruent<T: Num + RealFftNum>(cx: &Cx, n: usize, m: usize) {
    let (a, b) = (Real::<T>::new(n), Real::<T>::new(m));
    for (p, q) in [(&a, &b), (&b, &a)] {
        for k in 0..6 {
            cx.case(
                || format!("rcongruent/{}/{}{}>{}", T::NAME, RKIND[k], p.n, q.n),
                || {
                    let mut r = Rs { p: RfftPlanner::new(), f: Default::default() };
                    p.call(&mut r, k, 0).map_err(|m| format!("first call: {m}"))?;
                    q.call(&mut r, k, 1).map_err(|m| format!("second call: {m}"))?;
                    p.call(&mut r, k, 1).map_err(|m| format!("third call: {m}"))?;
                    Ok(true)
                },
            );
            cx.transitions(3);
        }
    }
}
fn rwalks<T: Num + RealFftNum>(cx: &Cx, d: &[Real<T>], kind: usize, many: usize) {
    let n = d.len();
    let orders: [(&str, Vec<usize>); 4] = [
        ("up", (0..n).collect()),
        ("down", (0..n).rev().collect()),
        ("ends", (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect()),
        ("every-other", (0..n).step_by(2).chain((1..n).step_by(2)).collect()),
    ];
    for (name, order) in &orders {
        for rotate in [false, true] {
            cx.case(
                || format!("rwalk/{}/{}{}/{name}", T::NAME, RKIND[kind], if rotate { "-rotating" } else { "" }),
                || {
                    let mut r = Rs { p: RfftPlanner::new(), f: Default::default() };
                    for round in 0..2 {
                        for (i, o) in order.iter().enumerate() {
                            let k = if rotate { (kind + i) % 6 } else { kind };
                            d[*o].call(&mut r, k, round).map_err(|m| format!("round {round}, length {} ({}): {m}", d[*o].n, RKIND[k]))?;
                        }
                    }
                    Ok(true)
                },
            );
            cx.transitions(2 * n as u64);
        }
    }
    for i in [0usize, 2, 7].into_iter().filter(|i| *i < n) {
        cx.case(
            || format!("rrepeat/{}/{}{}", T::NAME, RKIND[kind], d[i].n),
            || {
                let mut r = Rs { p: RfftPlanner::new(), f: Default::default() };
                for c in 0..many {
                    d[i].call(&mut r, kind, c & 1).map_err(|m| format!("call {c}: {m}"))?;
                }
                Ok(true)
            },
        );
        cx.transitions(many as u64);
    }
}

/// Two signals of one length with their transforms.
struct Data<T: Num> {
    n: usize,
    x: [Vec<Complex<T>>; 2],
    y: [Vec<C>; 2],
    z: [Vec<C>; 2],
    tf: f64,
    ti: f64,
}
impl<T: Num> Data<T> {
    fn all(lens: &[usize]) -> Vec<Data<T>> {
        lens.iter()
            .map(|n| {
                let x = [0, 1].map(|s| rounded::<T>(&refs::cprobe(*n, 400 + s)));
                let norm = x.iter().map(|x| refs::norm2(x)).fold(0.0, f64::max);
                let tf = fft_tol::<T>(*n) * norm;
                Data { n: *n, y: [0, 1].map(|s| refs::dft(&x[s])), z: [0, 1].map(|s| refs::idft(&x[s])), x: x.map(|x| cv(&x)), tf, ti: tf / *n as f64 }
            })
            .collect()
    }
    /// One call of the given kind, compared with the definition.
    fn call(&self, e: &ScalarFftImpl<T>, kind: usize, s: usize) -> Result<(), String> {
        let n = self.n;
        let mut b = self.x[s].clone();
        let spread = |st: usize| {
            let mut w = vec![Complex::<T>::new(T::of(9.0), T::of(-4.0)); n * st];
            for (k, v) in self.x[s].iter().enumerate() {
                w[k * st] = *v;
            }
            w
        };
        let collect = |w: &[Complex<T>], st: usize| w.iter().step_by(st).copied().collect::<Vec<_>>();
        let (r, inverse) = match kind {
            0 => (e.fft(&mut b), false),
            1 => (e.ifft(&mut b), true),
            2 => {
                let (mut re, mut im) = kmc_core::entries::split_of(&b);
                let r = e.fft_split(&mut re, &mut im);
                b = kmc_core::entries::join(&re, &im);
                (r, false)
            }
            3 => {
                let (mut re, mut im) = kmc_core::entries::split_of(&b);
                let r = e.ifft_split(&mut re, &mut im);
                b = kmc_core::entries::join(&re, &im);
                (r, true)
            }
            4 => {
                let mut w = spread(2);
                let r = e.fft_strided_alloc(&mut w, 2);
                b = collect(&w, 2);
                (r, false)
            }
            5 => {
                let mut w = spread(3);
                let r = e.ifft_strided_alloc(&mut w, 3);
                b = collect(&w, 3);
                (r, true)
            }
            6 => {
                let mut w = spread(3);
                let r = e.fft_out_of_place_strided(&b, 1, &mut w, 3);
                b = collect(&w, 3);
                (r, false)
            }
            7 => {
                let w = spread(2);
                let r = e.ifft_out_of_place_strided(&w, 2, &mut b, 1);
                (r, true)
            }
            8 if n.is_power_of_two() => (e.stockham_fft(&mut b), false),
            #[cfg(feature = "std")]
            9 if n.is_power_of_two() && n.trailing_zeros() % 2 == 0 => (e.fft_radix4(&mut b), false),
            _ => (e.fft_with_strategy(&mut b, FftStrategy::Auto), false),
        };
        r.map_err(|x| format!("unexpected error {x:?}"))?;
        let (want, tol) = if inverse { (&self.z[s], self.ti) } else { (&self.y[s], self.tf) };
        close(&vc(&b), want, tol)
    }
}
impl<T: Num> Data<T> {
    /// The same from a chirp, whose transforms are known in closed form, for any length.
    fn chirp(n: usize) -> Data<T> {
        let (x, y) = refs::chirp(n);
        let z: Vec<C> = (0..n).map(|k| y[(n - k) % n]).map(|c| (c.0 / n as f64, c.1 / n as f64)).collect();
        let turn = |v: &[C]| v.iter().map(|c| (0.5 * c.0 + c.1, 0.5 * c.1 - c.0)).collect::<Vec<C>>();
        let tf = 1.2 * fft_tol::<T>(n) * (n as f64).sqrt();
        Data { n, x: [cv(&x), cv(&turn(&x))], y: [y.clone(), turn(&y)], z: [z.clone(), turn(&z)], tf, ti: tf / n as f64 }
    }
}
/// Lengths that agree in their low bits, on one engine, in both orders.
fn congruent<T: Num>(cx: &Cx, a: &Data<T>, b: &Data<T>) {
    for k in 0..KINDS {
        for swap in [false, true] {
            let (p, q) = if swap { (b, a) } else { (a, b) };
            cx.case(
                || format!("congruent/{}/{}{}>{}", T::NAME, KIND[k], p.n, q.n),
                || {
                    let e = ScalarFftImpl::<T>::default();
                    p.call(&e, k, 0).map_err(|m| format!("first call: {m}"))?;
                    q.call(&e, k, 1).map_err(|m| format!("second call: {m}"))?;
                    p.call(&e, k, 1).map_err(|m| format!("third call: {m}"))?;
                    Ok(true)
                },
            );
            cx.transitions(3);
        }
    }
}
const KINDS: usize = 11;
const KIND: [&str; KINDS] = ["fft", "ifft", "split", "isplit", "stridealloc", "istridealloc", "oopstr", "ioopstr", "stockham", "radix4", "auto"];

fn pairs<T: Num>(cx: &Cx, d: &[Data<T>], a: usize) {
    for b in 0..d.len() {
        for k in 0..KINDS * KINDS {
            let (k1, k2) = (k / KINDS, k % KINDS);
            cx.case(
                || format!("pair/{}/{}{}>{}{}", T::NAME, KIND[k1], d[a].n, KIND[k2], d[b].n),
                || {
                    let e = ScalarFftImpl::<T>::default();
                    d[a].call(&e, k1, 0).map_err(|m| format!("first call: {m}"))?;
                    d[b].call(&e, k2, 1).map_err(|m| format!("second call: {m}"))?;
                    Ok(true)
                },
            );
            cx.transitions(2);
        }
    }
}

/// What an input may have in common with the one before it.
fn neighbours(n: usize, all: bool) -> Vec<(String, Vec<C>, Vec<C>)> {
    let x = refs::cprobe(n, 400);
    let mut v: Vec<(String, Vec<C>)> = vec![];
    for i in 0..n {
        if all || [0, 1, n / 2, n - 1].contains(&i) {
            for im in [false, true] {
                let mut y = x.clone();
                *(if im { &mut y[i].1 } else { &mut y[i].0 }) += 1.5;
                v.push((format!("{}[{i}]", if im { "im" } else { "re" }), y));
            }
        }
    }
    v.push(("real parts".into(), x.iter().map(|c| (c.0, 0.5 - c.1)).collect()));
    v.push(("imaginary parts".into(), x.iter().map(|c| (0.5 - c.0, c.1)).collect()));
    v.push(("negative".into(), x.iter().map(|c| (-c.0, -c.1)).collect()));
    v.push(("reversed".into(), x.iter().rev().copied().collect()));
    v.push(("rotated".into(), (0..n).map(|i| x[(i + 1) % n]).collect()));
    v.push(("parts exchanged".into(), x.iter().map(|c| (c.1, c.0)).collect()));
    v.push(("doubled".into(), x.iter().map(|c| (2.0 * c.0, 2.0 * c.1)).collect()));
    v.push(("silent".into(), vec![(0.0, 0.0); n]));
    v.into_iter().map(|(s, y)| (s, x.clone(), y)).collect()
}
impl<T: Num> Data<T> {
    fn of(n: usize, x: [Vec<C>; 2]) -> Data<T> {
        let x = x.map(|x| rounded::<T>(&x));
        let tf = fft_tol::<T>(n) * x.iter().map(|x| refs::norm2(x)).fold(0.0, f64::max);
        Data { n, y: [0, 1].map(|s| refs::dft(&x[s])), z: [0, 1].map(|s| refs::idft(&x[s])), x: x.map(|x| cv(&x)), tf, ti: tf / n as f64 }
    }
}
/// Two inputs that differ in one respect, in turns on one engine.
fn alike<T: Num>(cx: &Cx, n: usize, all: bool, cross: bool) {
    for (what, x, y) in neighbours(n, all) {
        let d = Data::<T>::of(n, [x, y]);
        for k in 0..KINDS * KINDS {
            let (k1, k2) = (k / KINDS, k % KINDS);
            if !cross && k1 != k2 {
                continue;
            }
            cx.case(
                || format!("alike/{}/{}>{}/n={n}/{what}", T::NAME, KIND[k1], KIND[k2]),
                || {
                    let e = ScalarFftImpl::<T>::default();
                    d.call(&e, k1, 0).map_err(|m| format!("first call: {m}"))?;
                    d.call(&e, k2, 1).map_err(|m| format!("second call: {m}"))?;
                    d.call(&e, k1, 1).map_err(|m| format!("third call: {m}"))?;
                    d.call(&e, k1, 0).map_err(|m| format!("fourth call: {m}"))?;
                    Ok(true)
                },
            );
            cx.transitions(4);
        }
    }
}
/// The same through every entry point there is, whatever it may keep in the thread or the process.
fn entry_alike<T: Num>(cx: &Cx, n: usize, all: bool, fwd: &[kmc_core::entries::Entry<T>], inv: &[kmc_core::entries::Entry<T>]) {
    for (what, x, y) in neighbours(n, all) {
        let d = Data::<T>::of(n, [x, y]);
        for (inverse, (name, f)) in fwd.iter().map(|f| (false, f)).chain(inv.iter().map(|f| (true, f))) {
            cx.case(
                || format!("entry-alike/{}/{name}{}/n={n}/{what}", T::NAME, if inverse { "-inverse" } else { "" }),
                || {
                    for (i, s) in [0, 1, 0].into_iter().enumerate() {
                        let got = f(&d.x[s]).map_err(|x| format!("call {i}: unexpected error {x:?}"))?;
                        let (want, tol) = if inverse { (&d.z[s], d.ti) } else { (&d.y[s], d.tf) };
                        close(&vc(&got), want, tol).map_err(|m| format!("call {i}: {m}"))?;
                    }
                    Ok(true)
                },
            );
            cx.transitions(3);
        }
    }
}
fn plan_alike<T: Num>(cx: &Cx, n: usize, all: bool) {
    #[cfg(feature = "std")]
    for (what, x, y) in neighbours(n, all) {
        let d = Data::<T>::of(n, [x, y]);
        for (sn, st) in [("radix2", FftStrategy::Radix2), ("radix4", FftStrategy::Radix4), ("split", FftStrategy::SplitRadix), ("auto", FftStrategy::Auto)] {
            cx.case(
                || format!("plan-alike/{}/{sn}/n={n}/{what}", T::NAME),
                || {
                    let p = FftPlan::<T>::new(n, st);
                    for (i, s) in [0, 1, 0, 1].into_iter().enumerate() {
                        let step = |k: &str, got: Vec<Complex<T>>, want: &[C], tol: f64| close(&vc(&got), want, tol).map_err(|m| format!("round {i}, {k}: {m}"));
                        let mut b = d.x[s].clone();
                        p.fft(&mut b).map_err(e)?;
                        step("fft", b, &d.y[s], d.tf)?;
                        let mut o = vec![Complex::<T>::zero(); n];
                        p.ifft_out_of_place(&d.x[s], &mut o).map_err(e)?;
                        step("ifft_out_of_place", o, &d.z[s], d.ti)?;
                        let mut o = vec![Complex::<T>::zero(); n];
                        p.fft_out_of_place(&d.x[s], &mut o).map_err(e)?;
                        step("fft_out_of_place", o, &d.y[s], d.tf)?;
                        let mut b = d.x[s].clone();
                        p.ifft(&mut b).map_err(e)?;
                        step("ifft", b, &d.z[s], d.ti)?;
                        let (mut re, mut im) = kmc_core::entries::split_of(&d.x[s]);
                        p.fft_split(&mut re, &mut im).map_err(e)?;
                        step("fft_split", kmc_core::entries::join(&re, &im), &d.y[s], d.tf)?;
                        let (mut re, mut im) = kmc_core::entries::split_of(&d.x[s]);
                        p.ifft_split(&mut re, &mut im).map_err(e)?;
                        step("ifft_split", kmc_core::entries::join(&re, &im), &d.z[s], d.ti)?;
                    }
                    Ok(true)
                },
            );
            cx.transitions(24);
        }
    }
    #[cfg(not(feature = "std"))]
    let _ = (cx, n, all);
}
/// Real signals that differ in one respect, in turns on one planner.
fn real_alike<T: Num + RealFftNum>(cx: &Cx, n: usize, all: bool, cross: bool) {
    let m = n / 2;
    for (what, x, y) in neighbours(n, all) {
        if what.starts_with("im") || what.starts_with("parts") || what.starts_with("real") {
            continue;
        }
        let xs: [Vec<T>; 2] = [x, y].map(|v| rv(&v.iter().map(|c| c.0).collect::<Vec<_>>()));
        let wx = [vr(&xs[0]), vr(&xs[1])];
        let wy = [0, 1].map(|s| refs::dft(&wx[s].iter().map(|v| (*v, 0.0)).collect::<Vec<C>>())[..=m].to_vec());
        let norm = wx.iter().map(|v| v.iter().map(|a| a * a).sum::<f64>().sqrt()).fold(0.0, f64::max);
        let tf = 2.0 * fft_tol::<T>(n) * norm;
        let d = Real::<T> { n, y: [cv(&wy[0]), cv(&wy[1])], x: xs, wx, wy, tf, ti: tf / (n as f64).sqrt() * 2.0 };
        for k in 0..36 {
            let (k1, k2) = (k / 6, k % 6);
            if !cross && k1 != k2 {
                continue;
            }
            cx.case(
                || format!("real-alike/{}/{}>{}/n={n}/{what}", T::NAME, RKIND[k1], RKIND[k2]),
                || {
                    let mut r = Rs { p: RfftPlanner::new(), f: Default::default() };
                    d.call(&mut r, k1, 0).map_err(|m| format!("first call: {m}"))?;
                    d.call(&mut r, k2, 1).map_err(|m| format!("second call: {m}"))?;
                    d.call(&mut r, k1, 1).map_err(|m| format!("third call: {m}"))?;
                    d.call(&mut r, k1, 0).map_err(|m| format!("fourth call: {m}"))?;
                    Ok(true)
                },
            );
            cx.transitions(4);
        }
    }
}
/// Long histories: every length in several orders on one engine, and one call repeated.
fn walks<T: Num>(cx: &Cx, d: &[Data<T>], kind: usize, many: usize) {
    let n = d.len();
    let orders: [(&str, Vec<usize>); 4] = [
        ("up", (0..n).collect()),
        ("down", (0..n).rev().collect()),
        ("ends", (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect()),
        ("every-other", (0..n).step_by(2).chain((1..n).step_by(2)).collect()),
    ];
    for (name, order) in &orders {
        for rotate in [false, true] {
            cx.case(
                || format!("walk/{}/{}{}/{name}", T::NAME, KIND[kind], if rotate { "-rotating" } else { "" }),
                || {
                    let e = ScalarFftImpl::<T>::default();
                    for round in 0..2 {
                        for (i, o) in order.iter().enumerate() {
                            let k = if rotate { (kind + i) % KINDS } else { kind };
                            d[*o].call(&e, k, round).map_err(|m| format!("round {round}, length {} ({}): {m}", d[*o].n, KIND[k]))?;
                        }
                    }
                    Ok(true)
                },
            );
            cx.transitions(2 * n as u64);
        }
    }
    for i in [3usize, 4, 15, 16].into_iter().filter(|i| *i < n) {
        cx.case(
            || format!("repeat/{}/{}{}", T::NAME, KIND[kind], d[i].n),
            || {
                let e = ScalarFftImpl::<T>::default();
                for r in 0..many {
                    d[i].call(&e, kind, r & 1).map_err(|m| format!("call {r}: {m}"))?;
                }
                Ok(true)
            },
        );
        cx.transitions(many as u64);
    }
}

pub fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

fn run(eng: &Eng) {
    let mut units: Vec<Unit> = Vec::new();
    let small = [1usize, 2, 3, 4, 8, 12, 16, 20, 32, 64];
    let wide = [1usize, 2, 3, 4, 5, 7, 8, 11, 12, 16, 20, 24, 32, 40, 64, 128, 256, 130];
    let d3 = eng.pick3(&[2usize, 20, 32][..], &[2usize, 5, 12, 16, 20, 32, 64][..], &small[..]);
    let o2_32 = leak(engine_ops::<f32>(&wide, true));
    let o2_64 = leak(engine_ops::<f64>(&wide, true));
    let o2_w = leak(engine_ops::<W>(&small, true));
    let o3_32 = leak(engine_ops::<f32>(d3, true));
    let o3_64 = leak(engine_ops::<f64>(d3, eng.quick() == false));
    let o3_w = leak(engine_ops::<W>(eng.pick3(&[2, 20, 32], &[2, 5, 16, 20, 32], &small), false));
    let o4 = leak(engine_ops::<f32>(eng.pick3(&[20, 32], &[3, 20, 32, 64], &[3, 12, 16, 20, 32, 64]), false));
    let i32s: &Vec<(&'static str, fn() -> ScalarFftImpl<f32>)> = leak(vec![("fresh", || Default::default()), ("warm", warm), ("large", large)]);
    let i64s: &Vec<(&'static str, fn() -> ScalarFftImpl<f64>)> = leak(vec![("fresh", || Default::default()), ("warm", warm), ("large", large)]);
    let iws: &Vec<(&'static str, fn() -> ScalarFftImpl<W>)> = leak(vec![("fresh", || Default::default()), ("warm", warm), ("large", large)]);
    // declared first: everything below is borrowed by the units
    for d in 1..=2 {
        sequences(&mut units, format!("engine-f32-d{d}"), i32s, o2_32, d);
        sequences(&mut units, format!("engine-f64-d{d}"), i64s, o2_64, d);
        sequences(&mut units, format!("engine-user-d{d}"), iws, o2_w, d);
    }
    sequences(&mut units, "engine-f32-d3".into(), &i32s[..1], o3_32, 3);
    sequences(&mut units, "engine-f64-d3".into(), &i64s[..1], o3_64, 3);
    sequences(&mut units, "engine-user-d3".into(), &iws[..1], o3_w, 3);
    {
        sequences(&mut units, "engine-f32-d4".into(), &i32s[..1], o4, 4);
    }
    // Plans.
    #[cfg(feature = "std")]
    {
    let mut p32 = Vec::new();
    let mut p64 = Vec::new();
    for n in [1usize, 2, 3, 4, 5, 8, 12, 16, 20, 32, 64] {
        p32.push((n, plan_ops::<f32>(n)));
        p64.push((n, plan_ops::<f64>(n)));
    }
    let p32 = leak(p32);
    let p64 = leak(p64);
    macro_rules! plans {
        ($v:ident, $t:ty, $name:expr) => {
            for (n, ops) in $v.iter() {
                let n = *n;
                for (sn, st) in [("radix2", FftStrategy::Radix2), ("radix4", FftStrategy::Radix4), ("split", FftStrategy::SplitRadix), ("auto", FftStrategy::Auto)] {
                    let depth = eng.pick3(2, 3, 4);
                    units.push(Box::new(move |cx| {
                        let k = ops.len();
                        for code in 0..k.pow(depth) {
                            let mut c = code;
                            let seq: Vec<usize> = (0..depth)
                                .map(|_| {
                                    let i = c % k;
                                    c /= k;
                                    i
                                })
                                .collect();
                            cx.case(
                                || {
                                    let names: Vec<&str> = seq.iter().map(|i| ops[*i].0.as_str()).collect();
                                    format!("plan-{}-{sn}-n{n}/{}", $name, names.join(">"))
                                },
                                || {
                                    let mut p = FftPlan::<$t>::new(n, st);
                                    for i in &seq {
                                        (ops[*i].1)(&mut p).map_err(|m| format!("{}: {m}", ops[*i].0))?;
                                    }
                                    Ok(true)
                                },
                            );
                            cx.transitions(depth as u64);
                        }
                    }));
                }
            }
        };
    }
    plans!(p32, f32, "f32");
    plans!(p64, f64, "f64");
    eng.note("plan alphabet", p32[0].1.len());
    }
    // Real-input planners sharing one complex engine.
    let rsz = [2usize, 4, 6, 8, 10, 16, 24, 32, 34, 64, 128];
    let r32 = leak(rfft_ops::<f32>(&rsz));
    let r64 = leak(rfft_ops::<f64>(&rsz));
    let r32s = leak(rfft_ops::<f32>(&[2, 6, 16, 24, 64]));
    let r64s = leak(rfft_ops::<f64>(&[2, 6, 16, 24, 64]));
    let ri32: &Vec<(&'static str, fn() -> Rs<f32>)> = leak(vec![("fresh", || Rs { p: RfftPlanner::new(), f: Default::default() }), ("large", || Rs { p: RfftPlanner::new(), f: large() })]);
    let ri64: &Vec<(&'static str, fn() -> Rs<f64>)> = leak(vec![("fresh", || Rs { p: RfftPlanner::new(), f: Default::default() }), ("large", || Rs { p: RfftPlanner::new(), f: large() })]);
    for d in 1..=2 {
        sequences(&mut units, format!("rfft-f32-d{d}"), ri32, r32, d);
        sequences(&mut units, format!("rfft-f64-d{d}"), ri64, r64, d);
    }
    sequences(&mut units, "rfft-f32-d3".into(), &ri32[..1], r32s, 3);
    if !eng.quick() {
        sequences(&mut units, "rfft-f64-d3".into(), &ri64[..1], r64s, 3);
    }
    // Every ordered pair of lengths on one engine, whatever their relation; the second call has other data.
    let dense: Vec<usize> = (1..=eng.pick3(24, 96, 200)).chain(eng.pick3(vec![64, 100], vec![100, 108, 125, 128, 144, 192, 200, 210, 243, 250, 256, 257, 300, 384, 500, 512, 600, 768, 1000, 1024], vec![243, 250, 256, 257, 300, 384, 500, 512, 600, 768, 1000, 1024, 2000, 2048, 4096])).collect();
    let dense = leak(dense);
    eng.note("pairs of lengths", format!("all ordered pairs of 1..={} and {:?}, {} kinds of call for each", dense.iter().zip(1..).take_while(|(a, b)| *a == b).count(), &dense[dense.iter().zip(1..).take_while(|(a, b)| *a == b).count()..], KINDS));
    let d32 = leak(Data::<f32>::all(dense));
    let d64 = leak(Data::<f64>::all(dense));
    for a in 0..dense.len() {
        units.push(Box::new(move |cx| pairs(cx, d32, a)));
        units.push(Box::new(move |cx| pairs(cx, d64, a)));
    }
    let (low, bits): (&[usize], u32) = eng.pick3((&[6, 16], 10), (&[1, 3, 6, 7, 8, 12, 16, 100], 17), (&[1, 2, 3, 5, 6, 7, 8, 9, 12, 15, 16, 20, 64, 100, 255, 1000], 20));
    for n in low.iter().copied() {
        for k in 7..=bits {
            units.push(Box::new(move |cx| {
                let m = n + (1usize << k);
                congruent(cx, &Data::<f32>::chirp(n), &Data::<f32>::chirp(m));
                congruent(cx, &Data::<f64>::chirp(n), &Data::<f64>::chirp(m));
            }));
        }
    }
    for n in low.iter().copied().filter(|n| n % 2 == 0) {
        for k in 7..=bits {
            units.push(Box::new(move |cx| {
                let m = n + (1usize << k);
                rcongruent::<f32>(cx, n, m);
                rcongruent::<f64>(cx, n, m);
            }));
        }
    }
    let rlens: Vec<usize> = (1..=eng.pick3(12, 40, 128)).map(|m| 2 * m).chain(eng.pick3(vec![128], vec![96, 100, 128, 192, 200, 250, 256, 258, 384, 512, 514, 768, 1000, 1024, 1026, 1536, 2000, 2048, 3000, 4096, 4098, 6144, 8192], vec![300, 384, 500, 512, 514, 768, 1000, 1024, 1026, 1536, 2000, 2048, 3000, 4096, 4098, 6144, 8192, 10_000, 12_288, 16_384, 32_768, 65_536, 131_072])).collect();
    let rlens = leak(rlens);
    eng.note("pairs of real lengths", format!("all ordered pairs of {rlens:?}, 6 kinds of call for each (5 combinations above 300)"));
    let r32d = leak(rlens.iter().map(|n| Real::<f32>::new(*n)).collect::<Vec<_>>());
    let r64d = leak(rlens.iter().map(|n| Real::<f64>::new(*n)).collect::<Vec<_>>());
    for a in 0..rlens.len() {
        units.push(Box::new(move |cx| rpairs(cx, r32d, a)));
        units.push(Box::new(move |cx| rpairs(cx, r64d, a)));
    }
    let rtop = eng.pick3(20, 150, 500);
    let rmany = eng.pick3(300, 70_000, 1_100_000);
    let q32 = leak((1..=rtop).map(|m| Real::<f32>::new(2 * m)).collect::<Vec<_>>());
    let q64 = leak((1..=rtop).map(|m| Real::<f64>::new(2 * m)).collect::<Vec<_>>());
    for k in 0..6 {
        units.push(Box::new(move |cx| rwalks(cx, q32, k, rmany)));
        units.push(Box::new(move |cx| rwalks(cx, q64, k, rmany)));
    }
    let (na, nx) = eng.pick3((9, 4), (20, 9), (40, 20));
    eng.note("inputs alike", format!("pairs of inputs that differ in one part of one element (every one), in sign, order, scale or one set of parts, in turns on one engine, planner, plan or thread: every length to {na} and 32, 33, 64, 100 (there the elements at the ends, the second and the middle one), every pair of kinds of call to {nx}"));
    for n in (1..=na).chain([32, 33, 64, 100]) {
        units.push(Box::new(move |cx| {
            alike::<f32>(cx, n, n <= na, n <= nx);
            alike::<f64>(cx, n, n <= na, n <= nx);
            alike::<W>(cx, n, n <= na, false);
            plan_alike::<f32>(cx, n, n <= na);
            plan_alike::<f64>(cx, n, n <= na);
            if n % 2 == 0 {
                real_alike::<f32>(cx, n, n <= na, n <= nx);
                real_alike::<f64>(cx, n, n <= na, n <= nx);
            }
            use kmc_core::entries::*;
            let f: Vec<Entry<f32>> = entries().into_iter().chain(entries32()).collect();
            let i: Vec<Entry<f32>> = inverses().into_iter().chain(inverses32()).collect();
            entry_alike::<f32>(cx, n, n <= na, &f, &i);
            entry_alike::<f64>(cx, n, n <= na, &entries(), &inverses());
        }));
    }
    eng.note("congruent lengths", format!("n in {low:?} and n + 2^k, k=7..={bits}, in both orders"));
    let top = eng.pick3(40, 300, 700);
    let many = eng.pick3(300, 70_000, 1_100_000);
    let w32 = leak(Data::<f32>::all(&(1..=top).collect::<Vec<_>>()));
    let w64 = leak(Data::<f64>::all(&(1..=top).collect::<Vec<_>>()));
    for k in 0..KINDS {
        units.push(Box::new(move |cx| walks(cx, w32, k, many)));
        units.push(Box::new(move |cx| walks(cx, w64, k, many)));
    }
    eng.note("walks", format!("every length 1..={top} upwards, downwards, from both ends and each after every other step, twice over, on one engine, each of {KINDS} kinds of call and all kinds in rotation; the same call {many} times"));
    eng.note("alphabet", format!("engine ops: {} (depth 2), {} (depth 3); real planner ops: {}", o2_32.len(), o3_32.len(), r32.len()));
    eng.note("bounds", "all sequences of the stated depth from every initial state");
    eng.run_units(units);
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}
